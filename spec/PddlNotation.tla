---------------------------- MODULE PddlNotation ----------------------------
(* Short notations of the API: names listed in one string, symbols applied to terms, retyped variables. *)
EXTENDS PddlApi, PddlLexicon

Blank == {" ", "\t", "\n", "\r"}

\* the maximal blank-free parts of a string, in order
RECURSIVE WordsFrom(_, _, _)
WordsFrom(s, i, w) ==
    IF i > Len(s) THEN IF w = "" THEN <<>> ELSE <<w>>
    ELSE IF Char(s, i) \in Blank THEN (IF w = "" THEN <<>> ELSE <<w>>) \o WordsFrom(s, i + 1, "")
    ELSE WordsFrom(s, i + 1, w \o Char(s, i))
Words(s) == WordsFrom(s, 1, "")

TypesOk(tys) == \A i \in DOMAIN tys : NameOk("type", tys[i])
Listed(k, s, tys) ==
    LET ws == TLCEval(Words(s))
    IN IF TypesOk(IF ws = <<>> THEN <<>> ELSE tys) /\ All(LAMBDA w : NameOk("name", w), ws)
       THEN Accepted(Map(LAMBDA w : [k |-> k, n |-> w, t |-> Rng(tys)], ws)) ELSE Rejected

\* a symbol applied to new terms; ts: its terms so far (with the types of constants)
Applied(op, nm, ts, args) ==
    IF /\ Len(ts) = Len(args)
       /\ op = "fn" => \A i \in DOMAIN ts : ts[i].t = args[i].t
       /\ op = "pred" => AtomConsistent(args)
    THEN Accepted(N(op, nm, Map(LAMBDA t : IF t.k = "c" THEN C(t.n) ELSE t, args), {}, <<>>)) ELSE Rejected

Retyped(t, tys) == IF TypesOk(tys) /\ NoDup(tys) THEN Accepted(V(t.n, Rng(tys))) ELSE Rejected
=============================================================================
