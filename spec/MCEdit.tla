------------------------------- MODULE MCEdit -------------------------------
(* Every text that a bounded number of edits of single tokens makes out of a few base texts. *)
EXTENDS PddlTokens, Json

CONSTANTS Which, Edits, Wide    \* the base text, edits, TRUE: the larger alphabet

a0 == Pred("p", <<>>)
px(t) == Pred("q", <<V("x", t)>>)
ParamX == <<V("x", {"t"})>>
DomA == [nm |-> "d", reqs |-> {":adl", ":fluents"}, types |-> {<<"t", "s">>, <<"s", "">>}, consts |-> {<<"k", "t">>}, preds |-> {px({"t"})},
         funs |-> {<<Fn("f", <<V("x", {"t"})>>), "number">>}, dps |-> {},
         acts |-> {[nm |-> "a", ps |-> ParamX, pre |-> px({"t"}), eff |-> Raw("increase", <<Fn("f", <<C("k")>>), Num("1")>>)]}]
DomB == [nm |-> "d", reqs |-> {":adl", ":non-deterministic"}, types |-> {}, consts |-> {}, preds |-> {a0, px({})}, funs |-> {},
         dps |-> {[h |-> px({}), c |-> Raw("or", <<a0, px({})>>)]},
         acts |-> {[nm |-> "a", ps |-> <<V("x", {})>>, pre |-> N("exists", "", <<>>, {V("y", {})}, <<Raw("imply", <<Eq(V("x", {}), V("y", {})), a0>>)>>),
                    eff |-> N("eforall", "", <<>>, {V("z", {})}, <<Raw("oneof", <<a0, Raw("when", <<Raw("not", <<a0>>), px({})>>)>>)>>)]}]
DomC == [DomB EXCEPT !.dps = {}, !.acts = {[nm |-> "a", ps |-> <<>>, pre |-> None,
                    eff |-> Raw("and", <<Raw("when", <<a0, Raw("and", <<a0, Raw("not", <<a0>>)>>)>>), Raw("oneof", <<a0, Raw("and", <<>>)>>)>>)]}]
PrA == [nm |-> "p", dom |-> "d", reqs |-> {":typing"}, objs |-> {<<"a", "t">>, <<"b", "">>},
        init |-> {Pred("p", <<C("a")>>), Raw("not", <<a0>>), Raw("f=", <<Fn("f", <<C("a")>>), Num("3")>>)},
        goal |-> Raw("and", <<Pred("p", <<C("b")>>), Raw("<", <<Fn("f", <<C("a")>>), Num("2.5")>>)>>), metric |-> Raw("minimize", <<Raw("-", <<Fn("total-cost", <<>>), Num("1")>>)>>)]
PlA == <<[nm |-> "a", as |-> <<"b", "c">>], [nm |-> "b", as |-> <<>>]>>
KindOf == CASE Which \in {"domA", "domB", "domC"} -> "domain" [] Which = "prA" -> "problem" [] Which = "plA" -> "plan"
Value == CASE Which = "domA" -> DomA [] Which = "domB" -> DomB [] Which = "domC" -> DomC [] Which = "prA" -> PrA [] Which = "plA" -> PlA
Start == TLCEval(FlatAll(Write(KindOf, Value)))

Small == {LP, RP, Nm("a"), Nm("k"), Vr("x"), Sy("-"), Sy("="), Nu("1"), Nm("and"), Nm("not")}
Alphabet == IF ~Wide THEN Small
            ELSE Small \cup {Nm("t"), Nm("object"), Nm("either"), Nm("p"), Nm("q"), Nm("f"), Nm("forall"), Nm("exists"), Nm("when"), Nm("oneof"), Nm("or"), Nm("imply"),
                             Nm("total-cost"), Nm("number"), Nm("define"), Nm("domain"), Nm("problem"), Nm("increase"), Nm("minimize"), Sy("+"), Sy("<"), Sy("*"), Vr("y"),
                             Nu("2.5"), Kw(":effect"), Kw(":action"), Kw(":precondition"), Kw(":typing"), Kw(":goal"), Kw(":init"), Kw(":types"), Kw(":bogus")}

VARIABLES s, n
Init == s = Start /\ n = 0
Cut(i, ins, j) == SubSeq(s, 1, i - 1) \o ins \o From(s, j)    \* tokens i .. j - 1 replaced
Next == /\ n < Edits
        /\ n' = n + 1
        /\ \E i \in DOMAIN s :
              \/ s' = Cut(i, <<>>, i + 1)
              \/ s' = Cut(i, <<s[i], s[i]>>, i + 1)
              \/ i < Len(s) /\ s[i] # s[i + 1] /\ s' = Cut(i, <<s[i + 1], s[i]>>, i + 2)
              \/ \E c \in Alphabet : (c # s[i] /\ s' = Cut(i, <<c>>, i + 1)) \/ s' = Cut(i, <<c>>, i)
Spec == Init /\ [][Next]_<<s, n>>

G == TLCEval(Group(s))
R == TLCEval(ReadTokens(KindOf, s))
StartAccepted == n = 0 => R.ok /\ R = Read(KindOf, Write(KindOf, Value))
\* rejection is total: unbalanced texts have no meaning, balanced ones always a verdict
Unbalanced == ~G.ok => ~R.ok
Verdict == R.ok \in BOOLEAN
\* whatever is accepted can be written and means the same
Rewritten == R.ok /\ ~Unspecified(KindOf, G.v) => Read(KindOf, Write(KindOf, R.v)) = R
\* kinds do not overlap (but for the empty plan)
OneKind == R.ok => \A k \in {"domain", "problem", "plan"} \ {KindOf} : ~ReadTokens(k, s).ok
\* tokens in, tokens out
FlatBack == G.ok => FlatAll(G.v) = s
Emit == PrintT("@@CASE " \o ToJson(Map(LAMBDA t : t.k \o t.a, s)))
=============================================================================
