----------------------------- MODULE MCProblem -----------------------------
(* Every small problem made of a few options per section, at most Vary sections differing from the base. *)
EXTENDS PddlTokens, PddlApi, Json

CONSTANT Vary

p(s) == Pred("p", Map(C, s))
Neg(n) == Raw("not", <<n>>)
fv(f, v) == Raw("f=", <<f, Num(v)>>)
f0 == Fn("f", <<>>)
g(s) == Fn("g", Map(C, s))
vx(t) == V("x", t)
Opts ==
  [nm |-> {"pr", "P-1_x", "Problem"}, dom |-> {"d", "D", "domain-1"},
   reqs |-> {{}, {":strips"}, {":adl", ":fluents"}, AllReqs \ {":object-fluents"}},
   objs |-> {{}, {<<"a", "">>}, {<<"a", "t">>, <<"b", "t">>, <<"c", "s">>}, {<<"z", "t">>, <<"a", "">>, <<"m", "">>, <<"B", "s">>}, {<<"a", "object">>}, {<<"t", "t">>}},
   init |-> {{}, {p(<<>>)}, {p(<<"a">>), Neg(p(<<"b">>)), p(<<"a", "b">>), p(<<"b", "a">>)}, {fv(f0, "0")}, {p(<<"a">>), Neg(p(<<"a">>))},
             {fv(f0, "1.5"), fv(g(<<"a">>), "10"), fv(g(<<"a", "b">>), "0.001"), fv(Fn("total-cost", <<>>), "0"), Neg(p(<<>>))}},
   goal |-> {True, p(<<>>), Neg(p(<<"a">>)), Raw("and", <<p(<<"a">>), Neg(p(<<"b">>)), p(<<"b", "b">>)>>), Raw("or", <<>>), Raw("or", <<p(<<"a">>), p(<<>>)>>),
             Raw("imply", <<p(<<"a">>), p(<<>>)>>), N("forall", "", <<>>, {vx({"t"}), V("y", {"s", "t"})}, <<Pred("p", <<vx({"t"}), V("y", {"s", "t"})>>)>>),
             N("exists", "", <<>>, {vx({})}, <<Raw("and", <<Pred("p", <<vx({})>>), Eq(vx({}), C("a"))>>)>>), Raw("<=", <<f0, Raw("-", <<g(<<"a">>), Num("2")>>)>>),
             Eq(C("a"), C("b")), Raw("f=", <<g(<<"b">>), Num("1")>>), Pred("p", <<vx({})>>)},
   metric |-> {None, Raw("minimize", <<f0>>), Raw("maximize", <<Fn("total-cost", <<>>)>>), Raw("minimize", <<Num("0")>>), Raw("maximize", <<Raw("+", <<f0, Raw("*", <<g(<<"a">>), Num("2.5")>>), f0>>)>>),
               Raw("minimize", <<Raw("-", <<f0>>)>>), Raw("minimize", <<Raw("/", <<f0, Raw("-", <<f0, Num("1")>>)>>)>>)}]
Base == [nm |-> "pr", dom |-> "d", reqs |-> {}, objs |-> {<<"a", "">>, <<"b", "">>}, init |-> {p(<<"a">>)}, goal |-> True, metric |-> None]
Fields == DOMAIN Base

VARIABLES v, varied
Init == v = Base /\ varied = {}
Next == \E f \in Fields \ varied : Cardinality(varied) < Vary /\ varied' = varied \cup {f} /\ \E o \in Opts[f] \ {v[f]} : v' = [v EXCEPT ![f] = o]
Spec == Init /\ [][Next]_<<v, varied>>

Nv == TLCEval([v EXCEPT !.goal = Nf(@), !.metric = Nf(@)])
Text == TLCEval(Write("problem", Nv))
RoundTrip == Read("problem", Text) = Accepted(Nv)
AsWritten == Read("problem", Write("problem", v)) = Accepted(Nv)
TokenTrip == ReadTokens("problem", FlatAll(Text)) = Accepted(Nv)
SpecifiedText == ~Unspecified("problem", Text)
Emit == PrintT("@@CASE " \o ToJson([p |-> v, text |-> Write("problem", v)]))
=============================================================================
