----------------------------- MODULE MCFormula -----------------------------
(* Every small condition and effect: each operator over each operator, written as text and read back. *)
EXTENDS PddlTokens, Json

CONSTANTS Kind, Big     \* "cond", "eff" or "goal"; more operands on the upper level

IsGoal == Kind = "goal"
x == V("x", IF IsGoal THEN {} ELSE {"t"})
y == V("y", {})
z == V("z", {"t", "s"})
w == V("w", {"s"})
k == C("k")
Params == <<x, y>>
p == Pred("p", <<>>)
q(t) == Pred("q", <<t>>)
r(a, b) == Pred("r", <<a, b>>)
f == Fn("f", <<>>)
g(t) == Fn("g", <<t>>)
Neg(n) == Raw("not", <<n>>)
Two(op, S, T) == {Raw(op, <<a, b>>) : a \in S, b \in T}
Qu(op, vs, S) == {N(op, "", <<>>, vs, <<n>>) : n \in S}

\* conditions
C0 == {p, q(x), q(k), r(x, y), r(y, x), Eq(x, k), Raw("<", <<f, Num("1")>>), Raw("f=", <<g(x), Raw("+", <<f, Num("1.5")>>)>>), Raw(">=", <<Num("0"), g(y)>>)}
Z0 == {q(z), r(x, z), r(z, z), Eq(z, k), Raw(">", <<g(z), f>>), Neg(q(z))}
C1 == {Neg(a) : a \in C0} \cup {Raw("and", <<>>), Raw("or", <<>>)} \cup Two("and", C0, C0) \cup Two("or", C0, C0) \cup Two("imply", C0, C0)
      \cup Qu("forall", {z}, Z0) \cup Qu("exists", {z}, Z0) \cup Qu("forall", {}, {p}) \cup Qu("exists", {z, w}, {r(z, w), r(w, z)})
      \cup Qu("forall", {x}, {q(x)})
Few == {p, q(x), Neg(p), Raw("and", <<>>), Raw("or", <<>>), Raw("and", <<p, q(x)>>), Raw("or", <<q(x), p>>), Raw("imply", <<p, q(k)>>),
        N("forall", "", <<>>, {z}, <<q(z)>>), N("exists", "", <<>>, {w, z}, <<r(w, z)>>), Raw("<=", <<f, g(x)>>)}
       \cup (IF Big THEN {Neg(Neg(p)), Raw("imply", <<Raw("imply", <<p, p>>), p>>), Raw("and", <<Raw("or", <<p, q(k)>>), q(x)>>),
                          N("forall", "", <<>>, {z}, <<N("exists", "", <<>>, {w}, <<r(z, w)>>)>>)} ELSE {})
C2 == {Neg(a) : a \in Few} \cup Two("and", Few, Few) \cup Two("or", Few, Few) \cup Two("imply", Few, Few)
      \cup Qu("forall", {z}, Few) \cup Qu("exists", {w}, Few)
      \cup {Raw(op, <<a, b, c>>) : op \in {"and", "or"}, a \in {p, Raw("and", <<p, q(x)>>)}, b \in Few, c \in {q(k), Raw("or", <<p, q(x)>>)}}

\* effects
Num0 == {Raw("increase", <<f, Num("1")>>), Raw("assign", <<g(x), Raw("*", <<f, g(k)>>)>>), Raw("decrease", <<f, Raw("-", <<f>>)>>),
         Raw("scale-up", <<Fn("total-cost", <<>>), Num("2")>>), Raw("scale-down", <<g(y), Raw("/", <<f, Num("3")>>)>>)}
E0 == {p, q(x), Neg(p), Neg(r(x, y))} \cup Num0
EZ == {q(z), Neg(r(z, x)), Raw("assign", <<g(z), Num("0")>>)}
W0 == {Raw("when", <<c, e>>) : c \in {p, Neg(q(x)), Raw("and", <<>>), Raw("or", <<p, q(k)>>), N("exists", "", <<>>, {w}, <<q(w)>>)},
                               e \in {p, Neg(p), Raw("and", <<>>), Raw("and", <<q(x), Neg(q(y))>>), Raw("increase", <<f, Num("1")>>)}}
FA0 == Qu("eforall", {z}, EZ \cup {Raw("and", <<q(z), Neg(p)>>), Raw("when", <<q(z), Neg(q(z))>>)}) \cup Qu("eforall", {}, {p})
O0 == Two("oneof", {p, Neg(p), q(x)}, {p, q(k), Raw("and", <<>>)}) \cup {Raw("oneof", <<p>>)}
FewE == {p, Neg(q(x)), Raw("increase", <<f, Num("1")>>), Raw("when", <<p, q(k)>>), Raw("when", <<Neg(p), Raw("and", <<p, q(x)>>)>>),
         N("eforall", "", <<>>, {z}, <<q(z)>>), N("eforall", "", <<>>, {w}, <<Raw("when", <<q(w), Neg(q(w))>>)>>), Raw("oneof", <<p, q(x)>>)}
Ands == {Raw("and", <<>>), Raw("and", <<p, q(x)>>), Raw("and", <<Raw("oneof", <<p, Neg(p)>>), q(k)>>)}
E1 == {Raw("and", <<>>)} \cup Two("and", E0, E0) \cup W0 \cup FA0 \cup O0
E2 == Two("and", FewE, FewE) \cup Two("oneof", FewE \cup Ands, FewE \cup Ands) \cup Qu("eforall", {z}, FewE \cup Ands)
      \cup {Raw("and", <<a, b, c>>) : a \in FewE, b \in {p, Raw("oneof", <<q(k), Neg(p)>>)}, c \in (IF Big THEN FewE ELSE {q(x)})}
      \cup (IF Big THEN {Raw("oneof", <<a, b, c>>) : a, b, c \in FewE \cup Ands} ELSE {})

Eff == Kind = "eff"
VARIABLE n
Init == n \in IF Eff THEN E0 \cup E1 \cup E2 ELSE C0 \cup C1 \cup C2
Spec == Init /\ [][FALSE]_n

m == TLCEval(Nf(n))
Cx == [any |-> TRUE]
Env == IF IsGoal THEN NoEnv ELSE Bind(NoEnv, Map(LAMBDA v : <<v.n, v.t>>, Params))
Wf(t) == IF Eff THEN WfEffTop(t, Cx) ELSE WfPre(t, Cx)
Rd(t) == IF Eff THEN RdEffTop(t, Env) ELSE RdPre(t, Env)
\* the tree as written, and its normal form, both mean the normal form
ReadAsWritten == Wf(Wr(n)) /\ Rd(Wr(n)) = m
ReadBack == Wf(Wr(m)) /\ Rd(Wr(m)) = m
Tokens == LET s == FlatAll(<<Wr(n)>>) IN Group(s).ok /\ Group(s).v = <<Wr(n)>>
\* conditions and effects are different languages: effects have no disjunction, implication, comparison
NotBoth == Eff /\ WfPre(Wr(n), Cx) => n.op \notin {"when", "oneof", "assign", "increase", "decrease", "scale-up", "scale-down"}
Emit == PrintT("@@CASE " \o ToJson([tree |-> n, text |-> Wr(n)]))
=============================================================================
