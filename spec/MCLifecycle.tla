---------------------------- MODULE MCLifecycle ----------------------------
(* A problem object, built in every way, then attached to and checked against domains in every order. *)
EXTENDS MCWorld, Json

CONSTANT Depth

VARIABLES prob, how, hist
vars == <<prob, how, hist>>

BaseOf(id) == LET p == Problems[id] IN [nm |-> p.nm, objs |-> p.objs, init |-> p.init, goal |-> p.goal, metric |-> p.metric, xt |-> {}]
Build(h) == LET p == Problems[h.p]
            IN MkProblem(BaseOf(h.p), IF h.d = "" THEN <<>> ELSE <<Domains[h.d]>>, IF h.name THEN <<p.dom>> ELSE <<>>,
                         IF h.reqs THEN <<p.reqs>> ELSE <<>>, Fold0)
Hows == [p : PrbIds, d : {""} \cup DomIds, name : BOOLEAN, reqs : BOOLEAN]
Init == /\ how \in Hows
        /\ LET r == Build(how) IN prob = IF r.ok THEN <<r.v>> ELSE <<>>
        /\ hist = <<>>

Attaching(d) == LET r == Attach(prob[1], Domains[d])
                IN /\ prob' = IF r.ok THEN <<r.v>> ELSE prob
                   /\ hist' = Append(hist, <<"attach", d>>)
Checking(d) == prob' = prob /\ hist' = Append(hist, <<"check", d>>)
Next == /\ prob # <<>> /\ Len(hist) < Depth /\ how' = how
        /\ \E d \in DomIds : Attaching(d) \/ Checking(d)
Spec == Init /\ [][Next]_vars

P == prob[1]
AttachedFits == prob # <<>> /\ P.att # <<>> => FitsReqs(P, P.att[1]) /\ FitsTypes(P, P.att[1])
ViewIsAttached == prob # <<>> /\ P.att # <<>> => View(P).dom \in {P.att[1].nm} /\ View(P).reqs = P.att[1].reqs
NeverDetached == [][prob # <<>> /\ prob[1].att # <<>> => prob'[1].att # <<>>]_vars
ContentsFixed == prob # <<>> => /\ P.objs = Problems[how.p].objs /\ P.init = Problems[how.p].init /\ P.goal = Problems[how.p].goal
OwnRequirementsFixed == prob # <<>> => /\ P.has = (how.reqs \/ how.d # "")
                                       /\ P.own = IF how.reqs THEN Problems[how.p].reqs ELSE IF how.d # "" THEN Domains[how.d].reqs ELSE {}
AttachChecks == prob # <<>> => \A d \in DomIds : LET r == Attach(P, Domains[d]) IN r.ok => CheckProblem(r.v, Domains[d], Fold0)
AttachIdempotent == prob # <<>> => \A d \in DomIds : LET r == Attach(P, Domains[d]) IN r.ok => Attach(r.v, Domains[d]) = r
LastWins == prob # <<>> => \A d, e \in DomIds : LET r == Attach(P, Domains[d]) IN r.ok => Attach(r.v, Domains[e]) = Attach(P, Domains[e])
Emit == Len(hist) = Depth \/ prob = <<>> => PrintT("@@CASE " \o ToJson([how |-> how, hist |-> hist]))
ASSUME PrintT("@@WORLD " \o ToJson([domains |-> Domains, problems |-> Problems]))
=============================================================================
