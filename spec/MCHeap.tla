------------------------------- MODULE MCHeap -------------------------------
(* A caller with its own collections, objects built from them, and operations on the objects.
   Changing a collection changes no object; operations change no object except attaching, which
   changes the problem only. *)
EXTENDS MCWorld, Json

CONSTANT Depth

Colls == {"requirements", "types", "constants", "predicates", "actions", "objects", "init", "steps"}
D1 == Domains["d"]
D2 == Domains["upper"]
P0 == Problems["ok"]
Plan0 == <<[nm |-> "go", as |-> <<"o">>], [nm |-> "put", as |-> <<"k", "u">>]>>
Reading == {"print", "hash", "compare", "check", "plan check", "plan instantiate", "getters", "repr", "copy", "schema"}

VARIABLES spoiled, doms, prob, plan, hist
vars == <<spoiled, doms, prob, plan, hist>>
Init == /\ spoiled = {} /\ doms = <<D1, D2>> /\ plan = Plan0 /\ hist = <<>>
        /\ prob = MkProblem([nm |-> P0.nm, objs |-> P0.objs, init |-> P0.init, goal |-> P0.goal, metric |-> P0.metric, xt |-> {}],
                            <<>>, <<P0.dom>>, <<P0.reqs>>, Fold0).v
Log(x) == hist' = Append(hist, x)
Spoil(c) == spoiled' = spoiled \cup {c} /\ Log("spoil " \o c) /\ UNCHANGED <<doms, prob, plan>>
AttachTo(i) == /\ LET r == Attach(prob, doms[i]) IN prob' = IF r.ok THEN r.v ELSE prob
               /\ Log("attach " \o ToString(i)) /\ UNCHANGED <<spoiled, doms, plan>>
Use(o) == Log(o) /\ UNCHANGED <<spoiled, doms, prob, plan>>
Next == Len(hist) < Depth /\ (\/ \E c \in Colls : Spoil(c)
                              \/ \E i \in 1..2 : AttachTo(i)
                              \/ \E o \in Reading : Use(o))
Spec == Init /\ [][Next]_vars
DomainsFixed == doms = <<D1, D2>> /\ plan = Plan0
ContentsFixed == prob.objs = P0.objs /\ prob.init = P0.init /\ prob.goal = P0.goal
\* what the caller does to its collections is never visible
Isolated == [][spoiled' # spoiled => UNCHANGED <<doms, prob, plan>>]_vars
Emit == Len(hist) = Depth => PrintT("@@CASE " \o ToJson(hist))
ASSUME PrintT("@@WORLD " \o ToJson([d1 |-> D1, d2 |-> D2, problem |-> P0, plan |-> Plan0]))
=============================================================================
