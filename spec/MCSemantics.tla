---------------------------- MODULE MCSemantics ----------------------------
(* Every small action schema, every argument list, every state: grounding an action and executing it is
   executing the schema with its parameters bound, and normal forms mean what was written. *)
EXTENDS PddlSemantics, Json

CONSTANTS Cond, Eff, Full    \* which conditions and effects; all states or some

x == V("x", {"t"})
y == V("y", {})
z == V("z", {"t"})
zz == V("z", {})
World == ("a" :> {"t"}) @@ ("b" :> {})
Objs == DOMAIN World
p(u) == Pred("p", <<u>>)
q(u, v) == Pred("q", <<u, v>>)
f(u) == Fn("f", <<u>>)
Neg(c) == N("not", "", <<>>, {}, <<c>>)
Two(op, c, d) == Raw(op, <<c, d>>)
Bd(op, vs, c) == N(op, "", <<>>, vs, <<c>>)
xx == V("x", {})

Atoms0 == {p(x), p(C("a")), q(x, y), q(y, x), Eq(x, y), Two("<", f(x), f(y))}
Inner == {p(z), q(x, z), q(z, y), Eq(z, x)}
Q1 == {Bd(op, {z}, c) : op \in {"forall", "exists"}, c \in Inner}
      \cup {Bd(op, {zz}, c) : op \in {"forall", "exists"}, c \in {p(zz), q(x, zz), Two("imply", p(zz), q(zz, y))}}
      \cup {Bd(op, {xx}, c) : op \in {"forall", "exists"}, c \in {q(xx, y), Two("or", p(xx), p(y))}}       \* hides the parameter
      \cup {Bd("exists", {z, y}, q(y, z)), Bd("forall", {zz}, Bd("exists", {xx}, q(xx, zz)))}
Small == {p(x), p(y), Eq(x, y)} \cup {Bd("exists", {zz}, q(x, zz))}
C1 == Atoms0 \cup Q1 \cup {Neg(c) : c \in Atoms0 \cup Q1}
      \cup {Two(op, c, d) : op \in {"and", "or", "imply"}, c \in Small, d \in Small}
Conds == TLCEval(IF Cond = "all" THEN C1 \cup {Two(op, c, Two(o2, d, c)) : op \in {"and", "or"}, o2 \in {"and", "or", "imply"}, c \in Small, d \in Small} ELSE {None, p(x)})

Upd(op, u, e) == Raw(op, <<f(u), e>>)
E0 == {p(x), Neg(p(x)), q(x, y), Neg(q(y, x)), p(C("a"))} \cup {Upd("increase", x, Num("2")), Upd("assign", y, f(x)), Upd("scale-up", x, Raw("+", <<f(y), Num("1")>>))}
ESmall == {p(x), Neg(p(y)), q(y, x), Upd("increase", x, Num("1"))}
EIn == {p(zz), Neg(p(zz)), q(zz, x), Two("when", q(x, zz), p(zz)), Two("when", Eq(zz, y), Neg(q(zz, x)))}
E1 == E0 \cup {Two("and", c, d) : c \in ESmall, d \in ESmall}
      \cup {Two("oneof", c, d) : c \in ESmall, d \in ESmall}
      \cup {Two("when", c, d) : c \in {p(x), Neg(q(x, y)), Eq(x, y), Bd("exists", {z}, q(x, z))}, d \in ESmall}
      \cup {Bd("eforall", {zz}, e) : e \in EIn}
      \cup {Bd("eforall", {xx}, e) : e \in {p(xx), q(xx, y), Two("when", q(xx, y), p(y))}}
      \cup {Two("oneof", p(x), Two("and", Neg(p(x)), q(x, y))), Two("and", Bd("eforall", {zz}, q(zz, x)), Two("when", p(y), Neg(q(x, x))))}
Effs == TLCEval(IF Eff = "all" THEN E1 ELSE {None, Neg(p(y))})

Facts == {<<"p", <<o>>>> : o \in Objs} \cup {<<"q", <<o, u>>>> : o \in Objs, u \in Objs}
Places == {<<"f", <<o>>>> : o \in Objs}
ValsOf(i, j) == (<<"f", <<"a">>>> :> i) @@ (<<"f", <<"b">>>> :> j)
States == TLCEval({[facts |-> S, vals |-> ValsOf(v[1], v[2])] : S \in SUBSET Facts, v \in IF Full THEN {<<1, 2>>, <<3, 0>>, <<2, 2>>} ELSE {<<1, 2>>}})

VARIABLES pre, eff, args
vars == <<pre, eff, args>>
Init == /\ pre \in Conds
        /\ eff \in Effs
        /\ args = <<>>
Next == args = <<>> /\ args' \in {<<u, v>> : u \in Objs, v \in Objs} /\ UNCHANGED <<pre, eff>>
Spec == Init /\ [][Next]_vars

\* the schema as written, and as the library keeps it
Written == [nm |-> "act", ps |-> <<x, y>>, pre |-> pre, eff |-> eff]
Kept == TLCEval([Written EXCEPT !.pre = Nf(@), !.eff = Nf(@)])
Chosen == args # <<>>
Grounded == TLCEval(Ground(Kept, Map(C, args)).v)
B == BindingOf(Written, args)

\* with a parameter that is not given its type only atoms with that very parameter are replaced
SameSuccessors ==
    Chosen => \A st \in States :
        LET s1 == TLCEval(Successors(Written, World, st, B))
        IN /\ s1 = Successors(Grounded, World, st, NoBinding)
           /\ s1 = Successors(Kept, World, st, B)
NothingFree == Chosen => FreeVars(Grounded.pre) = {} /\ FreeVars(Grounded.eff) = {}
\* instantiating again changes nothing
Settled == Chosen => Subst(Grounded.pre, MapOf(Kept.ps, Map(C, <<"b", "b">>))) = Grounded.pre
Emit == args = <<>> => PrintT("@@CASE " \o ToJson([pre |-> pre, eff |-> eff]))
=============================================================================
