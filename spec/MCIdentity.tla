----------------------------- MODULE MCIdentity -----------------------------
(* A universe of small values; every pair is compared. *)
EXTENDS MCWorld, Json

CONSTANT Big

a == Pred("a", <<>>)
b == Pred("b", <<>>)
vx(t) == V("x", t)
px(t) == Pred("p", <<vx(t)>>)
Atoms0 == {a, b, px({}), px({"t"}), px({"t", "s"}), Pred("p", <<vx({}), vx({})>>), Pred("p", <<C("x")>>), Eq(vx({}), vx({})), Eq(C("x"), vx({})),
           Fn("a", <<>>), Fn("p", <<vx({})>>), Num("1"), Num("2"), Pred("A", <<>>)}
Q(op, vs, k) == N(op, "", <<>>, vs, <<k>>)
One == {Neg(a), Neg(b), Neg(px({})), Raw("and", <<>>), Raw("or", <<>>), Raw("and", <<a, b>>), Raw("and", <<b, a>>), Raw("or", <<a, b>>),
        Raw("oneof", <<a, b>>), Raw("oneof", <<b, a>>), Raw("oneof", <<a>>), Raw("imply", <<a, b>>), Raw("imply", <<b, a>>),
        Raw("when", <<a, b>>), Raw("when", <<b, a>>),
        Q("forall", {vx({})}, px({})), Q("exists", {vx({})}, px({})), Q("eforall", {vx({})}, px({})), Q("forall", {vx({"t"})}, px({"t"})),
        Q("forall", {vx({}), V("y", {})}, px({})), Q("forall", {V("y", {})}, px({})), Q("forall", {vx({})}, a)}
Nums == {Raw(op, <<Fn("a", <<>>), Num("1")>>) : op \in {"+", "-", "*", "/", "f=", "<", "<=", ">", ">=", "assign", "increase", "decrease", "scale-up", "scale-down"}}
        \cup {Raw("-", <<Num("1"), Fn("a", <<>>)>>), Raw("-", <<Num("1")>>), Raw("minimize", <<Num("1")>>), Raw("maximize", <<Num("1")>>), Raw("minimize", <<Num("2")>>),
              Raw("derived", <<a, b>>), Raw("derived", <<a, a>>), Raw("derived", <<b, a>>), Raw("derived", <<px({}), b>>)}
More == {Neg(Neg(a)), Neg(Raw("and", <<a, b>>)), Raw("and", <<Raw("or", <<a, b>>), b>>), Raw("or", <<Raw("and", <<a, b>>), b>>),
         Raw("when", <<a, Raw("and", <<a, b>>)>>), Q("forall", {vx({})}, Q("exists", {vx({})}, a)), Q("exists", {vx({})}, Q("forall", {vx({})}, a)),
         Raw("and", <<a, b, px({})>>), Raw("+", <<Num("1"), Num("1")>>), Raw("+", <<Num("1"), Num("1"), Num("1")>>), Raw("*", <<Num("1"), Num("1")>>),
         Raw("/", <<Raw("/", <<Num("1"), Num("2")>>), Num("2")>>), Raw("/", <<Num("1"), Raw("/", <<Num("2"), Num("2")>>)>>)}
Universe == Atoms0 \cup One \cup Nums \cup More

VARIABLE n
Init == n \in Universe
Spec == Init /\ [][FALSE]_n
\* values are already in normal form, so that structural equality is the intended one
Normal == n.op \notin AssocArith => Nf(n) = n
Emit == PrintT("@@CASE " \o ToJson(n))
=============================================================================
