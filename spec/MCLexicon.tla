----------------------------- MODULE MCLexicon -----------------------------
(* Every short string, and every keyword with small changes, as a name. *)
EXTENDS PddlLexicon, Json

CONSTANT MaxLen

Chars == {"a", "Z", "1", "-", "_", "?", ":", " ", "(", ".", "\n"}
RECURSIVE Strings(_)
Strings(k) == IF k = 0 THEN {""} ELSE LET R == Strings(k - 1) IN R \cup {r \o c : r \in {q \in R : Len(q) = k - 1}, c \in Chars}
Cut(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Around(s) == {s, s \o "-", s \o "1", s \o "_x", "x" \o s, s \o " ", " " \o s, "?" \o s, s \o s, s \o "\n"} \cup {Cut(s, i) : i \in 1..Len(s)}
Contexts == {"name", "type", "function"}

VARIABLE s
Init == s \in Strings(MaxLen) \cup UNION {Around(k) : k \in Keywords}
Spec == Init /\ [][FALSE]_s

\* a word, as an automaton over its characters
RECURSIVE Run(_, _)
Run(i, st) == IF i > Len(s) THEN st = 1
              ELSE LET c == Char(s, i)
                   IN CASE st = 0 -> c \in Letters /\ Run(i + 1, 1)
                        [] st = 1 -> c \in NameChars /\ Run(i + 1, 1)
WordAutomaton == IsWord(s) <=> Run(1, 0)
ReservedEverywhere == s \in Keywords \ {Root, "total-cost"} => \A c \in Contexts : ~NameOk(c, s)
Exemptions == /\ NameOk("type", Root) /\ ~NameOk("function", Root) /\ ~NameOk("name", Root)
              /\ NameOk("function", "total-cost") /\ ~NameOk("type", "total-cost") /\ ~NameOk("name", "total-cost")
WiderContext == NameOk("name", s) => NameOk("type", s) /\ NameOk("function", s)
Prefixed == NameOk("name", s) => \A i \in 1..Len(s) : IsWord(SubSeq(s, 1, i))
Emit == PrintT("@@CASE " \o ToJson([s |-> s]))
=============================================================================
