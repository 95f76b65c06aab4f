------------------------------- MODULE MCPlan -------------------------------
(* Every short plan over actions and objects that exist or not, with the right or wrong arity. *)
EXTENDS MCWorld, Json

CONSTANTS Steps, MaxArgs

Objs == {"o", "u", "k", "z"}
Names == {"go", "put", "noop", "nop"}
Alphabet == {[nm |-> n, as |-> s] : n \in Names, s \in SeqsUpTo(IF MaxArgs > 2 THEN Objs ELSE {"o", "k", "z"}, MaxArgs)}
D == Domains["d"]
Pr == Problems["ok"]
VARIABLE plan
Init == plan = <<>>
Next == Len(plan) < Steps /\ \E s \in Alphabet : plan' = Append(plan, s)
Spec == Init /\ [][Next]_plan

Fits == PlanFits(plan, D, Pr)
PrefixClosed == plan # <<>> /\ Fits => PlanFits(SubSeq(plan, 1, Len(plan) - 1), D, Pr)
StepwiseFit == Fits <=> \A i \in DOMAIN plan : PlanFits(<<plan[i]>>, D, Pr)
FitsGround == Fits => GroundPlan(plan, D).ok
G == GroundPlan(plan, D)
OneActionPerStep == G.ok => /\ Len(G.v) = Len(plan)
                            /\ \A i \in DOMAIN plan : /\ G.v[i].nm = plan[i].nm
                                                      /\ G.v[i].ps = Map(C, plan[i].as)
                                                      /\ <<G.v[i]>> = GroundPlan(<<plan[i]>>, D).v
Grounded == G.ok => \A i \in DOMAIN plan : FreeVars(G.v[i].pre) = {} /\ FreeVars(G.v[i].eff) = {}
SchemasKept == \A a \in D.acts : Cardinality({b \in D.acts : b.nm = a.nm}) = 1
Emit == PrintT("@@CASE " \o ToJson(plan))
ASSUME PrintT("@@WORLD " \o ToJson([domain |-> D, problem |-> Pr]))
=============================================================================
