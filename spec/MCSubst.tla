------------------------------ MODULE MCSubst ------------------------------
(* Every small formula with binders, every mapping of its variables. *)
EXTENDS PddlApi, Json

CONSTANT Big     \* TRUE: more formulas

x == V("x", {})
y == V("y", {})
yt == V("y", {"t"})
k == C("k")
At(s) == Pred("p", s)
Base == {At(<<x, y>>), At(<<y, x>>), At(<<x, x>>), Eq(x, y), At(<<x, k>>), Fn("f", <<y>>)}
BaseT == {At(<<x, yt>>)}
Bind1(S) == {N(op, "", <<>>, vs, <<b>>) : op \in Binders, vs \in {{x}, {y}, {yt}, {x, y}, {V("x", {"t"})}}, b \in S}
Nots(S) == {N("not", "", <<>>, {}, <<b>>) : b \in S}
Ops2 == IF Big THEN {"and", "or", "imply", "when", "increase", "+", "oneof"} ELSE {"and", "when", "increase"}
Two(S, R) == {Raw(op, <<b, c>>) : op \in Ops2, b \in S, c \in R}
B == Base \cup BaseT
F1 == TLCEval(Bind1(B) \cup Nots(B) \cup Two(B, B))
Small == {At(<<x, y>>), At(<<y, y>>)}
F2 == TLCEval(Bind1(Bind1(B)) \cup Two(Bind1(Small), Small) \cup Two(Small, Bind1(Small)) \cup Bind1(Two(Small, Small)) \cup Nots(Bind1(Small))
              \cup (IF Big THEN Bind1(Bind1(Bind1(Small))) \cup Bind1(F1) ELSE {}))

Images == {x, y, k, V("z", {})}
Maps == {m \in UNION {[D -> Images] : D \in SUBSET {x, y}} : TRUE} \cup {yt :> k, yt :> y, x :> yt}

VARIABLES f, m
Init == f \in B \cup F1 \cup F2 /\ m = <<>>
Next == m = <<>> /\ m' \in Maps /\ f' = f
Spec == Init /\ [][Next]_<<f, m>>

n == TLCEval(Nf(f))
Sub == TLCEval(Subst(n, m))
Active == m # <<>>
Img(v) == IF v \in DOMAIN m THEN m[v] ELSE v
\* a binder on the way captures nothing that was free only if the images are not bound there
RECURSIVE BoundNames(_)
BoundNames(e) == {b.n : b \in e.vs} \cup UNION {BoundNames(e.ks[i]) : i \in DOMAIN e.ks}
CaptureFree == \A v \in DOMAIN m : m[v].k = "c" \/ m[v].n \notin BoundNames(n)
FreeOnly == Active /\ CaptureFree => FreeVars(Sub) = {u \in {Img(v) : v \in FreeVars(n)} : u.k = "v"}
ShapeKept == Active /\ n.op \notin {"and", "or", "+"} => Sub.op = n.op /\ Sub.vs = n.vs
Identity == Active /\ (\A v \in DOMAIN m : m[v] = v) => Sub = n
GroundIsFixed == Active /\ FreeVars(n) \cap DOMAIN m = {} => Sub = n
Emit == m = <<>> => PrintT("@@CASE " \o ToJson([tree |-> f]))
=============================================================================
