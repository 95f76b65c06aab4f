----------------------------- MODULE PddlSyntax -----------------------------
(* Abstract syntax: terms, conditions, effects and numeric expressions, as uniform tree nodes.

   A term is [k, n, t]: kind "v" (variable) or "c" (constant), name, set of type names.
   Constants are identified by their name, so inside formulas their t is {}.

   A node is [op, nm, ts, vs, ks]:
     op  "pred" (nm, ts)  "eq" (ts)             atoms
         "fn" (nm, ts)    "num" (nm)            numeric leaves; nm of "num" is the canonical decimal
         "+" "-" "*" "/" (ks)                   arithmetic
         "f=" "<" "<=" ">" ">=" (ks)            numeric comparisons
         "assign" "scale-up" "scale-down" "increase" "decrease" (ks)
         "and" "or" "not" "imply" "oneof" (ks)
         "forall" "exists" (vs, ks)             quantified conditions
         "eforall" (vs, ks)  "when" (ks)        universal and conditional effects
         "minimize" "maximize" (ks)             metrics
         "derived" (ks)                         head and condition of a derived predicate
         "none"                                 absent *)
EXTENDS PddlBase

V(n, t) == [k |-> "v", n |-> n, t |-> t]
C(n)    == [k |-> "c", n |-> n, t |-> {}]

N(op, nm, ts, vs, ks) == [op |-> op, nm |-> nm, ts |-> ts, vs |-> vs, ks |-> ks]
Pred(nm, ts) == N("pred", nm, ts, {}, <<>>)
Eq(a, b)     == N("eq", "", <<a, b>>, {}, <<>>)
Fn(nm, ts)   == N("fn", nm, ts, {}, <<>>)
Num(v)       == N("num", v, <<>>, {}, <<>>)
None         == N("none", "", <<>>, {}, <<>>)
True         == N("and", "", <<>>, {}, <<>>)

Binders == {"forall", "exists", "eforall"}
Monotone == {"and", "or"}
AssocArith == {"+", "*"}

----------------------------------------------------------------------------
(* Normal form of conjunctions and disjunctions: flat, duplicate free, in order of first
   occurrence, and never a single operand. *)
RECURSIVE Leaves(_, _)
Leaves(op, n) == IF n.op = op THEN Concat(Map(LAMBDA x : Leaves(op, x), n.ks)) ELSE <<n>>

MkMono(op, ks) ==
    LET ds == Dedup(ks)
    IN IF Len(ds) = 1 THEN ds[1]
       ELSE LET ls == Dedup(Concat(Map(LAMBDA x : Leaves(op, x), ds)))
            IN IF Len(ls) = 1 THEN ls[1] ELSE N(op, "", <<>>, {}, ls)

(* Sums and products are compared up to regrouping of nested operands of the same kind;
   nothing else about arithmetic may change. *)
MkArith(op, ks) == N(op, "", <<>>, {}, Concat(Map(LAMBDA x : Leaves(op, x), ks)))

\* The only constructor of nodes with children.
Mk(op, vs, ks) == CASE op \in Monotone -> MkMono(op, ks)
                    [] op \in AssocArith -> MkArith(op, ks)
                    [] OTHER -> N(op, "", <<>>, vs, ks)

\* A tree given bottom-up: every operand is built before the node it belongs to.
RECURSIVE Nf(_)
Nf(n) == IF n.ks = <<>> THEN n ELSE Mk(n.op, n.vs, Map(Nf, n.ks))

----------------------------------------------------------------------------
(* Simultaneous substitution of free occurrences. m: function from variables to terms. *)
SubstTerm(t, m) == IF t \in DOMAIN m THEN m[t] ELSE t

Unbound(m, vs) == [v \in {x \in DOMAIN m : \A b \in vs : b.n # x.n} |-> m[v]]

RECURSIVE Subst(_, _)
Subst(n, m) ==
    IF n.ks = <<>> /\ n.op \notin Binders
    THEN [n EXCEPT !.ts = Map(LAMBDA t : SubstTerm(t, m), @)]
    ELSE LET m2 == TLCEval(IF n.op \in Binders THEN Unbound(m, n.vs) ELSE m)
         IN Mk(n.op, n.vs, Map(LAMBDA k : Subst(k, m2), n.ks))

RECURSIVE FreeVars(_)
FreeVars(n) ==
    LET below == UNION {FreeVars(n.ks[i]) : i \in DOMAIN n.ks}
    IN {t \in Rng(n.ts) : t.k = "v"} \cup {v \in below : n.op \in Binders => \A b \in n.vs : b.n # v.n}

(* All type names used anywhere in a node. *)
RECURSIVE TypesIn(_)
TypesIn(n) == UNION ({t.t : t \in Rng(n.ts)} \cup {v.t : v \in n.vs} \cup {TypesIn(n.ks[i]) : i \in DOMAIN n.ks})

----------------------------------------------------------------------------
(* Meaning of propositional structure. a: function from the atoms to BOOLEAN. *)
RECURSIVE Holds(_, _)
Holds(n, a) == CASE n.op = "and" -> \A i \in DOMAIN n.ks : Holds(n.ks[i], a)
                 [] n.op = "or" -> \E i \in DOMAIN n.ks : Holds(n.ks[i], a)
                 [] n.op = "not" -> ~Holds(n.ks[1], a)
                 [] n.op = "imply" -> Holds(n.ks[1], a) => Holds(n.ks[2], a)
                 [] OTHER -> a[n]

RECURSIVE Atoms(_)
Atoms(n) == IF n.op \in {"and", "or", "not", "imply"} THEN UNION {Atoms(n.ks[i]) : i \in DOMAIN n.ks} ELSE {n}

(* The same trees without any normalisation, for stating that normalisation preserves meaning. *)
Raw(op, ks) == N(op, "", <<>>, {}, ks)
=============================================================================
