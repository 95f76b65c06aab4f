------------------------------ MODULE PddlTypes ------------------------------
(* Type hierarchies. A hierarchy is a set of pairs <<type, parent>>; parent "" means none. *)
EXTENDS PddlBase

Root == "object"

Declared(H) == {p[1] : p \in H}
Parents(H) == {p[2] : p \in H} \ {""}
\* every type that may be used: declared, or mentioned as a parent, or the root
Available(H) == Declared(H) \cup Parents(H) \cup {Root}

\* the implicit root is not part of a normalised hierarchy
NormHier(H) == {<<p[1], IF p[2] = Root THEN "" ELSE p[2]>> : p \in {q \in H : q[1] # Root}}

\* types reachable upwards, including the type itself
RECURSIVE UpFrom(_, _)
UpFrom(H, S) == LET S2 == S \cup {p[2] : p \in {q \in H : q[1] \in S /\ q[2] # ""}}
                IN IF S2 = S THEN S ELSE UpFrom(H, S2)
Up(H, t) == UpFrom(H, {t})

Acyclic(H) == \A p \in H : p[2] # "" => p[1] \notin Up(H, p[2])

RootHasNoParent(H) == \A p \in H : p[1] = Root => p[2] = ""

HasHierarchy(H) == Parents(H) # {}

\* every type in L is equal to or below one of the types in R; no type at all means anything goes
SubtypesOf(H, L, R) == R = {} \/ Root \in R \/ \A t \in L : Up(H, t) \cap R # {}
=============================================================================
