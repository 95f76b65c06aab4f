---------------------------- MODULE MCTypedList ----------------------------
(* Every short sequence of items, dashes and types, as a typed list. *)
EXTENDS PddlWriter, Json

CONSTANT MaxLen

\* "#" and "%" stand for two items, which depend on the place of the list
Alphabet == {Tok("i", "#"), Tok("i", "%"), Sy("-"), Nm("t"), L(<<Nm("either"), Nm("t"), Nm("u")>>)}
VARIABLE s
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E x \in Alphabet : s' = Append(s, x)
Spec == Init /\ [][Next]_s

Item(x) == x.k = "i"
ItemOrName(x) == x.k \in {"i", "n"}
WfV == WfTL(s, Item, WfType)
\* the type of an item is the one after the next dash; computed here from the right
RECURSIVE FromRight(_, _)
FromRight(q, ty) == IF q = <<>> THEN <<>>
                    ELSE LET n == Len(q)
                         IN IF n > 1 /\ IsDash(q[n - 1]) THEN FromRight(SubSeq(q, 1, n - 2), RdType(q[n]))
                            ELSE Append(FromRight(SubSeq(q, 1, n - 1), ty), <<q[n], ty>>)
SameReading == WfV => RdTL(s) = FromRight(s, {})
EveryItemOnce == WfV => Map(LAMBDA p : p[1], RdTL(s)) = SelectSeq(s, LAMBDA x : x.k = "i")
\* well-formedness, as an automaton: 0 no item yet in the group, 1 items, 2 after the dash
RECURSIVE Run(_, _)
Run(q, st) == IF q = <<>> THEN st # 2
              ELSE LET x == Head(q) r == Tail(q)
                   IN CASE st = 2 -> WfType(x) /\ Run(r, 0)
                        [] IsDash(x) -> st = 1 /\ Run(r, 2)
                        [] OTHER -> Item(x) /\ Run(r, 1)
SameLanguage == WfV <=> Run(s, 0)
Emit == PrintT("@@CASE " \o ToJson([list |-> s, ok |-> WfTL(s, ItemOrName, WfType)]))
=============================================================================
