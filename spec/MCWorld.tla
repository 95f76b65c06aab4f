------------------------------ MODULE MCWorld ------------------------------
(* Small concrete domains and problems used by the state machines. *)
EXTENDS PddlApi

X(t) == V("x", t)
Y(t) == V("y", t)
P1(v) == Pred("p", <<v>>)
Q2(v, w) == Pred("q", <<v, w>>)
Act(nm, ps, pre, eff) == [nm |-> nm, ps |-> ps, pre |-> pre, eff |-> eff]
Neg(n) == N("not", "", <<>>, {}, <<n>>)
And2(a, b) == N("and", "", <<>>, {}, <<a, b>>)

Base == [nm |-> "d", reqs |-> {":typing"}, types |-> {<<"t", "">>, <<"s", "t">>}, consts |-> {<<"k", "t">>},
         preds |-> {P1(X({"t"})), Q2(X({"t"}), Y({"s"}))}, funs |-> {}, dps |-> {},
         acts |-> {Act("go", <<X({"t"})>>, P1(X({"t"})), Neg(P1(X({"t"})))),
                   Act("put", <<X({"t"}), Y({"s"})>>, And2(P1(X({"t"})), Q2(X({"t"}), Y({"s"}))),
                       And2(Q2(C("k"), Y({"s"})), Neg(Q2(X({"t"}), Y({"s"}))))),
                   Act("noop", <<>>, None, None)}]
Untyped(d) == [d EXCEPT !.types = {}, !.consts = {<<"k", "">>}, !.preds = {P1(X({}))}, !.reqs = {},
                        !.acts = {Act("go", <<X({})>>, P1(X({})), Neg(P1(X({}))))}]
Domains ==
    [d |-> Base,
     upper |-> [Base EXCEPT !.nm = "D", !.reqs = {":adl", ":equality"}],
     plain |-> [Untyped(Base) EXCEPT !.nm = "e"],
     other |-> [Base EXCEPT !.types = {<<"t", "">>}, !.reqs = {":typing", ":equality"}, !.preds = {P1(X({"t"}))},
                            !.acts = {Act("go", <<X({})>>, None, P1(C("k"))), Act("put", <<X({})>>, None, None)}]]
DomIds == DOMAIN Domains

Prob(dn, reqs, objs, goal) ==
    [nm |-> "pr", dom |-> dn, reqs |-> reqs, objs |-> objs, init |-> {P1(C("o"))}, goal |-> goal, metric |-> None]
Problems ==
    [ok |-> Prob("d", {":typing"}, {<<"o", "t">>, <<"u", "s">>}, P1(C("o"))),
     case |-> Prob("D", {}, {<<"o", "">>}, True),
     eq |-> Prob("d", {":equality"}, {<<"o", "t">>}, Neg(P1(C("o")))),
     none |-> Prob("e", {}, {<<"o", "">>, <<"u", "">>}, Q2(C("o"), C("u"))),
     bad |-> Prob("d", {":typing"}, {<<"o", "zz">>}, True),
     goal |-> Prob("d", {":typing"}, {<<"o", "t">>}, N("exists", "", <<>>, {X({"s"})}, <<P1(X({"s"}))>>)),
     root |-> Prob("d", {}, {<<"o", "object">>}, True)]
PrbIds == DOMAIN Problems

Names0 == {Domains[i].nm : i \in DomIds} \cup {Problems[i].dom : i \in PrbIds} \cup {"d2"}
Fold0 == [n \in Names0 |-> IF n = "D" THEN "d" ELSE n]
=============================================================================
