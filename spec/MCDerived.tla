----------------------------- MODULE MCDerived -----------------------------
(* Every small hierarchy, declared parameter type and derived parameter type. *)
EXTENDS PddlWriter, Json

CONSTANT Names

Tags == {{}, {Root}} \cup {{n} : n \in Names} \cup {{"a", "b"}}
VARIABLES h, decl
Init == h \in [Names -> {""} \cup Names] /\ decl \in Tags
Spec == Init /\ [][FALSE]_<<h, decl>>
H == TLCEval({<<t, h[t]>> : t \in Names})
Usable == Acyclic(H)

Dom(tags) ==
    LET d == Section(":types", WrNames(H)) \o
             <<L(<<Kw(":predicates"), L(<<Nm("p")>> \o WrVars(<<V("x", decl)>>)), L(<<Nm("q")>>)>>),
               L(<<Kw(":derived"), L(<<Nm("p")>> \o WrVars(<<V("z", tags)>>)), L(<<Nm("exists"), L(<<Vr("y")>>), L(<<Nm("p"), Vr("z")>>)>>)>>)>>
    IN L(<<Nm("define"), L(<<Nm("domain"), Nm("d")>>), L(<<Kw(":requirements"), Kw(":adl"), Kw(":derived-predicates")>>)>> \o d)
Result(tags) == Read("domain", <<Dom(tags)>>)

\* a closed-form reading of "fits": untyped heads fit; otherwise every type has a declared ancestor
Fits(tags) == decl = {} \/ Root \in decl \/ tags = {} \/ \A t \in tags : \E u \in decl : u \in Up(H, t)
AcceptedIffFits == Usable => \A tags \in Tags : Result(tags).ok <=> Fits(tags)
UntypedInherits == Usable => LET r == Result({}) IN r.ok /\ \A p \in r.v.dps : p.h.ts[1].t = decl
OwnTypeKept == Usable => \A tags \in Tags \ {{}} : LET r == Result(tags) IN r.ok => \A p \in r.v.dps : p.h.ts[1].t = tags
Emit == Usable => PrintT("@@CASE " \o ToJson([types |-> H, texts |-> {Dom(t) : t \in Tags}]))
=============================================================================
