------------------------------ MODULE MCDomain ------------------------------
(* Every small domain made of a few options per section, at most Vary sections differing from the base. *)
EXTENDS PddlTokens, PddlApi, Json

CONSTANT Vary

x(t) == V("x", t)
y(t) == V("y", t)
p == Pred("p", <<>>)
q(t) == Pred("q", <<t>>)
Neg(n) == Raw("not", <<n>>)
Act(nm, ps, pre, eff) == [nm |-> nm, ps |-> ps, pre |-> pre, eff |-> eff]

All0 == {":adl", ":fluents", ":derived-predicates", ":non-deterministic", ":action-costs"}
Opts ==
  [nm |-> {"d", "D-1_x", "Domain"},
   reqs |-> {All0, {}, {":strips"}, {":typing"}, {":typing", ":fluents", ":action-costs"}, {":equality"}, {":quantified-preconditions", ":typing"},
             {":numeric-fluents"}, AllReqs \ {":object-fluents"}},
   types |-> {{<<"t", "">>, <<"s", "t">>}, {}, {<<"t", "">>}, {<<"t", "s">>}, {<<"t", "">>, <<"s", "">>}, {<<"s", "u">>, <<"t", "u">>},
              {<<"a", "b">>, <<"b", "t">>, <<"t", "s">>}, {<<"t", "object">>, <<"s", "t">>}},
   consts |-> {{}, {<<"k", "">>}, {<<"k", "t">>}, {<<"k", "t">>, <<"m", "s">>, <<"l", "t">>}, {<<"k", "">>, <<"a", "t">>, <<"z", "">>}, {<<"k", "object">>},
               {<<"t", "t">>, <<"x", "s">>}},
   preds |-> {{p}, {}, {p, q(x({}))}, {q(x({"t"}))}, {p, Pred("q", <<x({"t"}), y({"s"})>>)}, {Pred("q", <<x({"t", "s"}), y({"t"}), V("z", {"t"})>>), p},
              {q(x({"object"}))}, {Pred("q", <<x({"t"}), x({"t"})>>)}, {Pred("q", <<x({}), y({})>>), Pred("P", <<>>), p}},
   funs |-> {{}, {<<Fn("f", <<>>), "">>}, {<<Fn("f", <<x({"t"})>>), "number">>}, {<<Fn("total-cost", <<>>), "number">>},
             {<<Fn("f", <<>>), "number">>, <<Fn("g", <<x({"t"}), y({"s", "t"})>>), "number">>, <<Fn("total-cost", <<>>), "number">>},
             {<<Fn("f", <<x({})>>), "">>, <<Fn("g", <<>>), "number">>}},
   dps |-> {{}, {[h |-> p, c |-> True]}, {[h |-> p, c |-> p], [h |-> p, c |-> Neg(p)]},
            {[h |-> q(x({"s"})), c |-> Raw("and", <<p, q(x({"s"}))>>)]}, {[h |-> q(x({"t"})), c |-> N("exists", "", <<>>, {y({"s"})}, <<Pred("q", <<y({"s"}), x({"t"})>>)>>)]}},
   acts |-> {{Act("a", <<>>, None, None)}, {}, {Act("a", <<x({})>>, p, Neg(p))}, {Act("a", <<x({"t"}), y({"s", "t"})>>, Raw("or", <<p, q(x({"t"}))>>), q(y({"s", "t"})))},
             {Act("a", <<y({"s"}), x({"t"}), V("z", {})>>, True, True), Act("b", <<>>, p, None), Act("A", <<>>, None, p)},
             {Act("a", <<x({"t"})>>, None, Raw("oneof", <<p, Neg(q(x({"t"})))>>)), Act("c", <<x({"s"}), y({"s"})>>, Eq(x({"s"}), y({"s"})), Raw("increase", <<Fn("total-cost", <<>>), Num("1")>>))},
             {Act("p", <<x({})>>, N("forall", "", <<>>, {y({"t"})}, <<q(y({"t"}))>>), N("eforall", "", <<>>, {y({"t"})}, <<q(y({"t"}))>>))},
             {Act("a", <<>>, q(C("k")), Raw("and", <<q(C("k")), Neg(Pred("q", <<C("k"), C("k")>>)), Raw("when", <<Raw("imply", <<p, q(C("k"))>>), p>>)>>))}}]
Base == [nm |-> "d", reqs |-> All0, types |-> {<<"t", "">>, <<"s", "t">>}, consts |-> {}, preds |-> {p, q(x({"t"}))}, funs |-> {}, dps |-> {},
         acts |-> {Act("a", <<>>, None, None)}]
Fields == DOMAIN Base

VARIABLES d, varied
Init == d = Base /\ varied = {}
Next == \E f \in Fields \ varied : Cardinality(varied) < Vary /\ varied' = varied \cup {f} /\ \E o \in Opts[f] \ {d[f]} : d' = [d EXCEPT ![f] = o]
Spec == Init /\ [][Next]_<<d, varied>>
View0 == d

\* constructs the text needs a requirement for, beyond what the constructor checks; only declared names
RECURSIVE OpsOf(_)
OpsOf(n) == {n.op} \cup UNION {OpsOf(n.ks[i]) : i \in DOMAIN n.ks}
RECURSIVE ConstsOf(_)
ConstsOf(n) == {t.n : t \in {u \in Rng(n.ts) : u.k = "c"}} \cup UNION {ConstsOf(n.ks[i]) : i \in DOMAIN n.ks}
Forms0(e) == UNION {{a.pre, a.eff} : a \in e.acts} \cup {r.c : r \in e.dps}
Names(e) == {c[1] : c \in e.consts}
Gates(e) == LET cl == TLCEval(Closure(e.reqs)) IN
    \A n \in Forms0(e) : /\ \A o \in OpsOf(n) \cap DOMAIN Gate : Allows(cl, o)
                         /\ ConstsOf(n) \subseteq Names(e)
DpsOk(e) == \A r \in e.dps : \E q0 \in e.preds : /\ q0.nm = r.h.nm /\ Len(q0.ts) = Len(r.h.ts)
                                                  /\ \A i \in DOMAIN q0.ts : SubtypesOf(NormHier(e.types), r.h.ts[i].t, q0.ts[i].t)
                                                  /\ \A q1 \in e.preds : q1.nm = r.h.nm => q1 = q0
                                                  /\ \A m \in DOMAIN q0.ts : r.h.ts[m].t = {} => q0.ts[m].t = {}
                                                  /\ NoDup(r.h.ts)
Valid == TLCEval(MkDomain(d, {}))
Expressible == Valid.ok /\ Gates(d) /\ DpsOk(d)
Text == TLCEval(Write("domain", Valid.v))

RoundTrip == Expressible => Read("domain", Text) = Valid
TokenTrip == Expressible => ReadTokens("domain", FlatAll(Text)) = Valid
\* what is not valid as a value is not readable as a text either
NoBackDoor == ~Valid.ok => ~Read("domain", Write("domain", d)).ok
\* and a constructible domain that is not expressible is rejected as a text
Gated == Valid.ok /\ ~Gates(d) => ~Read("domain", Text).ok
SpecifiedText == Expressible => ~Unspecified("domain", Text)
Emit == PrintT("@@CASE " \o ToJson([d |-> d, ok |-> Expressible, text |-> Write("domain", IF Valid.ok THEN Valid.v ELSE d)]))
=============================================================================
