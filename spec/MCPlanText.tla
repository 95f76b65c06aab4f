----------------------------- MODULE MCPlanText -----------------------------
(* Every short sequence of tokens as a plan, and every short plan as a text. *)
EXTENDS PddlWriter, Json

CONSTANT MaxLen

Alphabet == {"(", ")", "a", "b", "and", "?a", "1"}
VARIABLE s
Init == s = <<>>
\* useful prefixes only: no closing before opening
Open(q) == Len(SelectSeq(q, LAMBDA x : x = "(")) - Len(SelectSeq(q, LAMBDA x : x = ")"))
Next == Len(s) < MaxLen /\ \E x \in Alphabet : (x = ")" => Len(SelectSeq(s, LAMBDA y : y = "(")) > Len(SelectSeq(s, LAMBDA y : y = ")"))) /\ s' = Append(s, x)
Spec == Init /\ [][Next]_s

Balanced == Len(SelectSeq(s, LAMBDA x : x = "(")) = Len(SelectSeq(s, LAMBDA x : x = ")"))
KindOf(x) == CASE x \in {"a", "b", "and"} -> Nm(x) [] x = "?a" -> Vr("a") [] x = "1" -> Nu("1")
\* trees of a balanced text: <<trees read so far, position>>
RECURSIVE Trees(_)
Trees(i) == IF i > Len(s) \/ s[i] = ")" THEN <<<<>>, i>>
            ELSE IF s[i] = "(" THEN LET r == Trees(i + 1) q == Trees(r[2] + 1) IN <<<<L(r[1])>> \o q[1], q[2]>>
            ELSE LET q == Trees(i + 1) IN <<<<KindOf(s[i])>> \o q[1], q[2]>>
Forms == TLCEval(Trees(1)[1])
R == TLCEval(Read("plan", Forms))
\* a regular language: steps of a name and names
RECURSIVE Run(_, _)
Run(i, st) == IF i > Len(s) THEN st = 0
              ELSE CASE st = 0 -> s[i] = "(" /\ Run(i + 1, 1)
                     [] st = 1 -> s[i] \in {"a", "b"} /\ Run(i + 1, 2)
                     [] st = 2 -> \/ s[i] \in {"a", "b"} /\ Run(i + 1, 2)
                                  \/ s[i] = ")" /\ Run(i + 1, 0)
SameLanguage == Balanced => (R.ok <=> Run(1, 0))
InOrder == Balanced /\ R.ok => Concat(Map(LAMBDA x : <<x.nm>> \o x.as, R.v)) = SelectSeq(s, LAMBDA x : x \in {"a", "b"})
WrittenBack == Balanced /\ R.ok => Write("plan", R.v) = Forms
Emit == PrintT("@@CASE " \o ToJson(s))
=============================================================================
