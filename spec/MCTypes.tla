------------------------------ MODULE MCTypes ------------------------------
(* Every type hierarchy over a few names. *)
EXTENDS PddlReader, Json

CONSTANT Names

Choice == {"-", ""} \cup Names \cup {Root}     \* "-": not declared
VARIABLE h
Init == h \in [Names -> Choice]
Spec == Init /\ [][FALSE]_h

H == TLCEval({<<t, h[t]>> : t \in {u \in Names : h[u] # "-"}})
\* a hierarchy is acyclic iff the types can be ranked above their parents
Ranked == \E r \in [Names \cup {Root} -> 0..Cardinality(Names)] : \A p \in H : p[2] # "" => r[p[1]] > r[p[2]]
AcyclicIffRanked == Acyclic(H) <=> Ranked
UpIsPreorder == \A t \in Available(H) : /\ t \in Up(H, t)
                                       /\ \A u \in Up(H, t) : Up(H, u) \subseteq Up(H, t)
UpIsChain == Acyclic(H) => \A t \in Available(H) : \A u, v \in Up(H, t) : u \in Up(H, v) \/ v \in Up(H, u)
SameAvailable == Available(NormHier(H)) = Available(H)
RootNeverBelow == \A p \in NormHier(H) : p[1] # Root /\ p[2] # Root
Below == \A t, u \in Available(H) : SubtypesOf(H, {t}, {u}) <=> u = Root \/ u \in Up(H, t)
Emit == PrintT("@@CASE " \o ToJson([types |-> H, ok |-> Acyclic(H)]))
=============================================================================
