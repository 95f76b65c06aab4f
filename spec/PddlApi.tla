------------------------------ MODULE PddlApi ------------------------------
(* The library seen from its API: constructors, checks, instantiation, attachment, command line,
   as functions from argument values to an outcome [ok, v].  State (which objects exist and what they
   hold) is kept by the machines that use this module (Conform, and the MC models). *)
EXTENDS PddlReader

----------------------------------------------------------------------------
(* Construction of formulas.  ks: operand values. *)
MkNode(op, nm, ts, vs, ks) ==
    IF op \in Monotone \cup AssocArith THEN Mk(op, vs, ks) ELSE N(op, nm, ts, vs, ks)

\* variables with the same name must carry the same types inside one atom
AtomConsistent(ts) == \A i, j \in DOMAIN ts :
    (ts[i].k = "v" /\ ts[j].k = "v" /\ ts[i].n = ts[j].n) => ts[i].t = ts[j].t

RECURSIVE ConsistentAtoms(_)
ConsistentAtoms(n) == (n.op \in {"pred", "eq"} => AtomConsistent(n.ts)) /\ \A i \in DOMAIN n.ks : ConsistentAtoms(n.ks[i])

\* a conjoined with b, etc. (operator shortcuts)
Shortcut(op, a, b) == CASE op = "&" -> Mk("and", {}, <<a, b>>)
                        [] op = "|" -> Mk("or", {}, <<a, b>>)
                        [] op = "~" -> N("not", "", <<>>, {}, <<a>>)
                        [] op = ">>" -> Mk("or", {}, <<N("not", "", <<>>, {}, <<a>>), b>>)

----------------------------------------------------------------------------
(* Domains: d is raw (as given); xt: types carried by constants inside formulas *)
MkDomain(d, xt) ==
    LET cl == Closure(d.reqs)
    IN IF ValidDomain(d) /\ (xt # {} => Allows(cl, "typing") /\ xt \subseteq Available(d.types))
       THEN Accepted(NormDomain(d)) ELSE Rejected

----------------------------------------------------------------------------
(* Problems.  A problem object is
     [nm, dn, own, has, objs, init, goal, metric, xt, att]
   dn: domain name given, own: requirements given (if has), att: <<>> or <<attached domain>>. *)
EffName(p) == IF p.att = <<>> THEN p.dn ELSE p.att[1].nm
EffReqs(p) == IF p.att # <<>> THEN p.att[1].reqs ELSE IF p.has THEN p.own ELSE {}

\* what a user sees of a problem
View(p) == [nm |-> p.nm, dom |-> EffName(p), reqs |-> EffReqs(p), objs |-> p.objs, init |-> p.init,
            goal |-> p.goal, metric |-> p.metric]

ProblemTags(p) == {o[2] : o \in {k \in p.objs : k[2] # ""}} \cup UNION {TypesIn(f) : f \in p.init}
                  \cup TypesIn(p.goal) \cup p.xt

\* fold: case folding of names
FitsTypes(p, d) == LET tags == TLCEval(ProblemTags(p))
                   IN tags # {} => Allows(Closure(d.reqs), "typing") /\ tags \subseteq Available(d.types)
FitsReqs(p, d) == p.has => p.own \subseteq d.reqs
CheckProblem(p, d, fold) == fold[EffName(p)] = fold[d.nm] /\ FitsReqs(p, d) /\ FitsTypes(p, d)

\* dgiven: <<>> or <<domain>>; ngiven: <<>> or <<name>>; rgiven: <<>> or <<set of requirements>>
MkProblem(base, dgiven, ngiven, rgiven, fold) ==
    IF dgiven = <<>> /\ ngiven = <<>> THEN Rejected
    ELSE IF dgiven # <<>> /\ ngiven # <<>> /\ dgiven[1].nm # ngiven[1] THEN Rejected
    ELSE IF dgiven # <<>> /\ rgiven # <<>> /\ dgiven[1].reqs # rgiven[1] THEN Rejected
    ELSE LET p == [nm |-> base.nm, dn |-> IF ngiven # <<>> THEN ngiven[1] ELSE dgiven[1].nm,
                   own |-> IF rgiven # <<>> THEN rgiven[1] ELSE IF dgiven # <<>> THEN dgiven[1].reqs ELSE {},
                   has |-> rgiven # <<>> \/ dgiven # <<>>,
                   objs |-> base.objs, init |-> base.init, goal |-> base.goal, metric |-> base.metric,
                   xt |-> base.xt, att |-> dgiven]
         IN IF dgiven = <<>> \/ CheckProblem(p, dgiven[1], fold) THEN Accepted(p) ELSE Rejected

ParsedProblem(v) == [nm |-> v.nm, dn |-> v.dom, own |-> v.reqs, has |-> TRUE, objs |-> v.objs, init |-> v.init,
                     goal |-> v.goal, metric |-> v.metric, xt |-> {}, att |-> <<>>]

\* attaching a domain adopts its name
Attach(p, d) == IF FitsReqs(p, d) /\ FitsTypes(p, d)
                THEN Accepted([p EXCEPT !.dn = d.nm, !.att = <<d>>]) ELSE Rejected

----------------------------------------------------------------------------
(* Actions and plans *)
ActionsNamed(d, nm) == {a \in d.acts : a.nm = nm}
SchemaOf(d, nm) == CHOOSE a \in ActionsNamed(d, nm) : TRUE
UniqueActions(d) == \A a, b \in d.acts : a.nm = b.nm => a = b

MapOf(ps, args) == TLCEval([v \in Rng(ps) |-> args[CHOOSE i \in DOMAIN ps : ps[i] = v]])

SubstOpt(n, m) == IF n.op = "none" THEN n ELSE Subst(n, m)
Ground(a, args) ==
    IF Len(args) # Len(a.ps) THEN Rejected
    ELSE LET m == MapOf(a.ps, args)
         IN Accepted([nm |-> a.nm, ps |-> args, pre |-> SubstOpt(a.pre, m), eff |-> SubstOpt(a.eff, m)])

Known(d, p) == {o[1] : o \in p.objs} \cup {c[1] : c \in d.consts}
StepFits(s, d, p) == /\ ActionsNamed(d, s.nm) # {}
                     /\ Len(s.as) = Len(SchemaOf(d, s.nm).ps)
                     /\ Rng(s.as) \subseteq Known(d, p)
PlanFits(plan, d, p) == All(LAMBDA s : StepFits(s, d, p), plan)

StepGrounds(s, d) == ActionsNamed(d, s.nm) # {} /\ Len(s.as) = Len(SchemaOf(d, s.nm).ps)
GroundPlan(plan, d) ==
    IF All(LAMBDA s : StepGrounds(s, d), plan)
    THEN Accepted(Map(LAMBDA s : Ground(SchemaOf(d, s.nm), Map(C, s.as)).v, plan))
    ELSE Rejected

----------------------------------------------------------------------------
(* Command line: files is a sequence of 1..3 records [there, lex, forms]; the result says whether the
   command succeeds and how many of the inputs are printed. *)
FileRead(kind, f) == IF f.lex THEN Read(kind, f.forms) ELSE Rejected
Cli(files, fold) ==
    LET n == Len(files)
        d == TLCEval(FileRead("domain", files[1]))
        p == TLCEval(FileRead("problem", files[2]))
        q == TLCEval(FileRead("plan", files[3]))
    IN IF \E i \in DOMAIN files : ~files[i].there THEN [ok |-> FALSE, shown |-> 0]
       ELSE IF ~d.ok THEN [ok |-> FALSE, shown |-> 0]
       ELSE IF n = 1 THEN [ok |-> TRUE, shown |-> 1]
       ELSE IF ~p.ok \/ ~CheckProblem(ParsedProblem(p.v), d.v, fold) THEN [ok |-> FALSE, shown |-> 1]
       ELSE IF n = 2 THEN [ok |-> TRUE, shown |-> 2]
       ELSE IF ~q.ok \/ ~PlanFits(q.v, d.v, p.v) THEN [ok |-> FALSE, shown |-> 2]
       ELSE [ok |-> TRUE, shown |-> 3]
=============================================================================
