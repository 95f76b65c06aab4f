------------------------------ MODULE PddlBase ------------------------------
(* Sequence helpers shared by all modules of the specification. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Rng(s) == {s[i] : i \in DOMAIN s}

\* TLCEval forces TLC to evaluate the function once, eagerly.
Map(F(_), s) == TLCEval([i \in 1..Len(s) |-> F(s[i])])

All(P(_), s) == \A i \in DOMAIN s : P(s[i])
Some(P(_), s) == \E i \in DOMAIN s : P(s[i])

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

RECURSIVE DedupFrom(_, _)
DedupFrom(done, s) ==
    IF s = <<>> THEN done
    ELSE DedupFrom(IF \E i \in DOMAIN done : done[i] = Head(s) THEN done ELSE Append(done, Head(s)), Tail(s))

\* The distinct elements of a sequence, in order of first occurrence.
Dedup(s) == DedupFrom(<<>>, s)

NoDup(s) == \A i, j \in DOMAIN s : s[i] = s[j] => i = j

From(s, i) == SubSeq(s, i, Len(s))

\* A finite function as the set of its pairs, and back.
Pairs(f) == {<<x, f[x]>> : x \in DOMAIN f}

RECURSIVE SeqsUpTo(_, _)
SeqsUpTo(S, n) == IF n = 0 THEN {<<>>}
                  ELSE LET R == SeqsUpTo(S, n - 1)
                       IN R \cup {Append(r, x) : r \in {q \in R : Len(q) = n - 1}, x \in S}
=============================================================================
