----------------------------- MODULE PddlTokens -----------------------------
(* Token sequences: "(" and ")" are tokens of kind "p".  Group turns a sequence into token trees, Flat back. *)
EXTENDS PddlWriter

LP == Tok("p", "(")
RP == Tok("p", ")")

RECURSIVE Flat(_)
Flat(t) == IF IsL(t) THEN <<LP>> \o Concat(Map(Flat, t.l)) \o <<RP>> ELSE <<t>>
FlatAll(forms) == Concat(Map(Flat, forms))

\* a stack of open lists, innermost first; <<>> after an error
RECURSIVE Push(_, _, _)
Push(s, i, st) ==
    IF i > Len(s) THEN st
    ELSE IF s[i] = LP THEN Push(s, i + 1, <<<<>>>> \o st)
    ELSE IF s[i] = RP THEN IF Len(st) < 2 THEN <<>>
                           ELSE Push(s, i + 1, <<Append(st[2], L(st[1]))>> \o From(st, 3))
    ELSE Push(s, i + 1, <<Append(st[1], s[i])>> \o Tail(st))
Stack(s) == TLCEval(Push(s, 1, <<<<>>>>))
\* [ok, v]: the trees of a balanced sequence
Group(s) == LET st == Stack(s) IN IF Len(st) = 1 THEN [ok |-> TRUE, v |-> st[1]] ELSE [ok |-> FALSE, v |-> <<>>]

ReadTokens(kind, s) == LET g == Group(s) IN IF g.ok THEN Read(kind, g.v) ELSE Rejected
=============================================================================
