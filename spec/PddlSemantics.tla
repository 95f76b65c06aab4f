--------------------------- MODULE PddlSemantics ---------------------------
(* What formulas and actions mean: truth in a state under a binding of the variables, the possible
   outcomes of an effect, and the successors of a state.  The library does not execute actions; the
   meaning is what its syntactic operations (substitution, normalisation, grounding) must preserve.
   Numbers are elements of the field with P elements. *)
EXTENDS PddlApi

P == 7
NumVal(nm) == CASE nm = "0" -> 0 [] nm = "1" -> 1 [] nm = "2" -> 2 [] nm = "3" -> 3 [] OTHER -> 4
InvP(x) == CHOOSE y \in 0..(P - 1) : (x = 0 /\ y = 0) \/ (x * y) % P = 1

RECURSIVE Sum(_), Prod(_)
Sum(s) == IF s = <<>> THEN 0 ELSE (Head(s) + Sum(Tail(s))) % P
Prod(s) == IF s = <<>> THEN 1 ELSE (Head(s) * Prod(Tail(s))) % P

(* w: the world, objects -> set of types they have; b: binding, variable name -> object;
   st: state [facts, vals]: facts a set of <<name, objects>>, vals maps <<name, objects>> to numbers. *)
Den(t, b) == IF t.k = "c" THEN t.n ELSE b[t.n]
Atom(n, b) == <<n.nm, Map(LAMBDA t : Den(t, b), n.ts)>>
Fits(o, v, w) == v.t = {} \/ v.t \cap w[o] # {}
Bindings(vs, w) == {f \in [{v.n : v \in vs} -> DOMAIN w] : \A v \in vs : Fits(f[v.n], v, w)}
Over(f, b) == [x \in DOMAIN f \cup DOMAIN b |-> IF x \in DOMAIN f THEN f[x] ELSE b[x]]

RECURSIVE Val(_, _, _)
Val(n, st, b) ==
    CASE n.op = "num" -> NumVal(n.nm)
      [] n.op = "fn" -> st.vals[Atom(n, b)]
      [] OTHER -> LET xs == Map(LAMBDA k : Val(k, st, b), n.ks)
                  IN CASE n.op = "+" -> Sum(xs)
                       [] n.op = "*" -> Prod(xs)
                       [] n.op = "-" -> IF Len(xs) = 1 THEN (P - xs[1]) % P ELSE (xs[1] + P - xs[2]) % P
                       [] n.op = "/" -> (xs[1] * InvP(xs[2])) % P

RECURSIVE Truth(_, _, _, _)
Truth(n, w, st, b) ==
    CASE n.op = "none" -> TRUE
      [] n.op = "pred" -> Atom(n, b) \in st.facts
      [] n.op = "eq" -> Den(n.ts[1], b) = Den(n.ts[2], b)
      [] n.op = "and" -> \A i \in DOMAIN n.ks : Truth(n.ks[i], w, st, b)
      [] n.op = "or" -> \E i \in DOMAIN n.ks : Truth(n.ks[i], w, st, b)
      [] n.op = "not" -> ~Truth(n.ks[1], w, st, b)
      [] n.op = "imply" -> Truth(n.ks[1], w, st, b) => Truth(n.ks[2], w, st, b)
      [] n.op = "forall" -> \A f \in Bindings(n.vs, w) : Truth(n.ks[1], w, st, Over(f, b))
      [] n.op = "exists" -> \E f \in Bindings(n.vs, w) : Truth(n.ks[1], w, st, Over(f, b))
      [] n.op = "f=" -> Val(n.ks[1], st, b) = Val(n.ks[2], st, b)
      [] n.op = "<" -> Val(n.ks[1], st, b) < Val(n.ks[2], st, b)
      [] n.op = "<=" -> Val(n.ks[1], st, b) <= Val(n.ks[2], st, b)
      [] n.op = ">" -> Val(n.ks[1], st, b) > Val(n.ks[2], st, b)
      [] n.op = ">=" -> Val(n.ks[1], st, b) >= Val(n.ks[2], st, b)

(* An outcome of an effect: facts added, facts deleted, and numeric updates <<place, kind, value>>. *)
Nothing == [add |-> {}, del |-> {}, upd |-> {}]
Joined(o, p) == [add |-> o.add \cup p.add, del |-> o.del \cup p.del, upd |-> o.upd \cup p.upd]
RECURSIVE JoinAll(_)
JoinAll(S) ==   \* S: a sequence of sets of outcomes; one outcome from each
    IF S = <<>> THEN {Nothing} ELSE {Joined(o, p) : o \in Head(S), p \in JoinAll(Tail(S))}
RECURSIVE Order(_)
Order(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Order(S \ {x})

Updates == {"assign", "increase", "decrease", "scale-up", "scale-down"}
RECURSIVE Outcomes(_, _, _, _)
Outcomes(n, w, st, b) ==
    CASE n.op = "none" -> {Nothing}
      [] n.op = "pred" -> {[Nothing EXCEPT !.add = {Atom(n, b)}]}
      [] n.op = "not" -> {[Nothing EXCEPT !.del = {Atom(n.ks[1], b)}]}
      [] n.op = "and" -> JoinAll(Map(LAMBDA k : Outcomes(k, w, st, b), n.ks))
      [] n.op = "when" -> IF Truth(n.ks[1], w, st, b) THEN Outcomes(n.ks[2], w, st, b) ELSE {Nothing}
      [] n.op = "eforall" -> JoinAll(Map(LAMBDA f : Outcomes(n.ks[1], w, st, Over(f, b)), Order(Bindings(n.vs, w))))
      [] n.op = "oneof" -> UNION {Outcomes(n.ks[i], w, st, b) : i \in DOMAIN n.ks}
      [] n.op \in Updates -> {[Nothing EXCEPT !.upd = {<<Atom(n.ks[1], b), n.op, Val(n.ks[2], st, b)>>}]}

\* deleting happens before adding; states in which two different updates meet one place have no successor
NewVal(x, kind, v) == CASE kind = "assign" -> v
                        [] kind = "increase" -> (x + v) % P
                        [] kind = "decrease" -> (x + P - v) % P
                        [] kind = "scale-up" -> (x * v) % P
                        [] kind = "scale-down" -> (x * InvP(v)) % P
Unique(o) == \A u, v \in o.upd : u[1] = v[1] => u = v
After(st, o) == [facts |-> (st.facts \ o.del) \cup o.add,
                 vals |-> [p \in DOMAIN st.vals |->
                             IF \E u \in o.upd : u[1] = p
                             THEN LET u == CHOOSE u \in o.upd : u[1] = p IN NewVal(st.vals[p], u[2], u[3])
                             ELSE st.vals[p]]]

\* successors of a state under an action whose parameters are bound by b
Successors(a, w, st, b) ==
    IF ~Truth(a.pre, w, st, b) THEN {} ELSE {After(st, o) : o \in {q \in Outcomes(a.eff, w, st, b) : Unique(q)}}

\* the bindings of a schema, and the empty binding of a ground action
BindingOf(a, args) == [x \in {p.n : p \in Rng(a.ps)} |-> args[CHOOSE i \in DOMAIN a.ps : a.ps[i].n = x]]
NoBinding == [x \in {} |-> ""]
=============================================================================
