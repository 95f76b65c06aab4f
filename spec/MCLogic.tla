------------------------------ MODULE MCLogic ------------------------------
(* Every tree of conjunctions and disjunctions of bounded size.  The design statements are invariants;
   every tree is printed and built with the real library. *)
EXTENDS PddlSyntax, Json

CONSTANTS Wide,   \* number of operands at the lower level
          Top,    \* number of operands at the upper level
          Deep    \* TRUE: one level more, with at most two operands

a == Pred("a", <<>>)
b == Pred("b", <<>>)
c == Pred("c", <<>>)
Neg(x) == N("not", "", <<>>, {}, <<x>>)
Lvs == IF Deep THEN {a, b} ELSE {a, b, Neg(a)}
Layer(S, n) == {Raw(op, ks) : op \in Monotone, ks \in SeqsUpTo(S, n)}
T1 == TLCEval(Lvs \cup Layer(Lvs, Wide))
T2 == TLCEval(T1 \cup Layer(T1, Top))
T3 == TLCEval(T2 \cup Layer(T2, 2))

VARIABLE t
Init == t \in IF Deep THEN T3 ELSE T2
Spec == Init /\ [][FALSE]_t

RECURSIVE WellKept(_)
WellKept(n) == n.op \in Monotone =>
    /\ Len(n.ks) # 1
    /\ NoDup(n.ks)
    /\ \A i \in DOMAIN n.ks : n.ks[i].op # n.op /\ WellKept(n.ks[i])

\* assignments to the atoms a and b
Asg == {[x \in {a, b} |-> IF x = a THEN p ELSE q] : p, q \in BOOLEAN}

n == TLCEval(Nf(t))
Flat == WellKept(n)
Idempotent == Nf(n) = n
SameMeaning == \A v \in Asg : Holds(t, v) = Holds(n, v)
SameAtoms == Atoms(n) = Atoms(t)
Regroup == \* operands may be grouped in any way
    t.op \in Monotone /\ Len(t.ks) = 3 =>
       Nf(Raw(t.op, <<Raw(t.op, <<t.ks[1], t.ks[2]>>), t.ks[3]>>)) = Nf(Raw(t.op, <<t.ks[1], Raw(t.op, <<t.ks[2], t.ks[3]>>)>>))
Emit == PrintT("@@CASE " \o ToJson([tree |-> t, nf |-> ToString(n)]))
=============================================================================
