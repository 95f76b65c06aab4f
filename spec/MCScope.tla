------------------------------ MODULE MCScope ------------------------------
(* Every nesting of binders of bounded depth, with atoms before, inside and after each binder. *)
EXTENDS PddlWriter, Json

CONSTANTS Depth, Ops

Types == {{}, {"t"}, {"s"}}
\* what a binder binds: x, y or both
Groups == {<<V("x", a)>> : a \in Types} \cup {<<V("y", a)>> : a \in Types}
          \cup {<<V("x", a), V("y", b)>> : a, b \in {{}, {"t"}}} \cup {<<V("x", {"s"}), V("y", {"t"})>>}
Params == {<<>>, <<V("x", {"t"})>>, <<V("x", {"s"}), V("y", {"t"})>>, <<V("x", {}), V("y", {"s"})>>}

VARIABLES ps, path      \* parameters; sequence of <<operator, variables>>
Init == ps \in Params /\ path = <<>>
Next == /\ Len(path) < Depth
        /\ \E op \in Ops, g \in Groups :
              /\ (op = "eforall" => \A i \in DOMAIN path : path[i][1] \in {"eforall", "when"})
              /\ path' = Append(path, <<op, g>>)
        /\ ps' = ps
Spec == Init /\ [][Next]_<<ps, path>>

At(nm) == L(<<Nm(nm), Vr("x"), Vr("y")>>)
\* a condition whose binders follow the path; atoms p1 .. around every binder
RECURSIVE Cond(_)
Cond(i) == IF i > Len(path) THEN At("p0")
           ELSE L(<<Nm("and"), At("pre" \o ToString(i)),
                    L(<<Nm(IF path[i][1] = "eforall" THEN "forall" ELSE path[i][1]), L(WrTyped(path[i][2], VarTy, WrVar)), Cond(i + 1)>>), At("post" \o ToString(i))>>)
WritableGroup(g) == \A i, j \in DOMAIN g : i < j /\ g[i].t = {} => g[j].t = {}
Writable == \A i \in DOMAIN path : WritableGroup(path[i][2])

Cx == [any |-> TRUE]
PEnv == Bind(NoEnv, Map(LAMBDA v : <<v.n, v.t>>, ps))
IsEff == "eforall" \in Ops
Val == TLCEval(IF IsEff THEN RdEff(Cond(1), PEnv) ELSE RdGd(Cond(1), PEnv))

\* the type of a variable at depth i: the last group on the path that binds it
Binding(i, nm) == LET is == {j \in 1..i : \E v \in Rng(path[j][2]) : v.n = nm}
                  IN IF is # {} THEN LET j == CHOOSE j \in is : \A q \in is : q <= j
                                     IN (CHOOSE v \in Rng(path[j][2]) : v.n = nm).t
                     ELSE IF \E v \in Rng(ps) : v.n = nm THEN (CHOOSE v \in Rng(ps) : v.n = nm).t ELSE {}
AtVal(nm, i) == Pred(nm, <<V("x", Binding(i, "x")), V("y", Binding(i, "y"))>>)
RECURSIVE PathVal(_)
PathVal(i) == IF i > Len(path) THEN AtVal("p0", Len(path))
              ELSE Mk("and", {}, <<AtVal("pre" \o ToString(i), i - 1),
                                   N(path[i][1], "", <<>>, Rng(path[i][2]), <<PathVal(i + 1)>>),
                                   AtVal("post" \o ToString(i), i - 1)>>)
InnermostBinder == Writable => Val = PathVal(1)
Closed == Writable => \A v \in FreeVars(Val) : v.t = (IF \E q \in Rng(ps) : q.n = v.n THEN (CHOOSE q \in Rng(ps) : q.n = v.n).t ELSE {})
Full == Len(path) = Depth /\ Writable
Emit == Full => PrintT("@@CASE " \o ToJson([params |-> WrTyped(ps, VarTy, WrVar), path |-> Map(LAMBDA p : p[1], path), text |-> Cond(1)]))
=============================================================================
