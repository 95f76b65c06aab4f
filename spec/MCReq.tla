------------------------------- MODULE MCReq -------------------------------
(* Every small (and every large) set of requirements. *)
EXTENDS PddlReq, Json

CONSTANT Max

Constructs == DOMAIN Gate
Sets(n) == {R \in SUBSET ReqKeys : Cardinality(R) <= n}
VARIABLE R
Init == R \in {S \in SUBSET ReqKeys : Cardinality(S) <= Max \/ Cardinality(S) >= Cardinality(ReqKeys) - 1}
Spec == Init /\ [][FALSE]_R

Extensive == R \subseteq Closure(R)
Idempotent == Closure(Closure(R)) = Closure(R)
Monotone == \A k \in AllReqs : Closure(R) \subseteq Closure(R \cup {k})
MoreIsAllowed == \A k \in AllReqs : \A c \in Constructs : Allows(Closure(R), c) => Allows(Closure(R \cup {k}), c)
Additive == \A k \in AllReqs : Closure(R \cup {k}) = Closure(R) \cup Closure({k})
NeedsSome == R = {} => \A c \in Constructs : ~Allows(Closure(R), c)
Emit == PrintT("@@CASE " \o ToJson([reqs |-> R, allowed |-> {c \in Constructs : Allows(Closure(R), c)}]))
=============================================================================
