------------------------------ MODULE Conform ------------------------------
(* Trace validation.  The trace is a set of sessions recorded from the real library, each a sequence
   of API calls with their arguments, outcomes and the projected results.  The machine replays a
   session call by call: the specification computes what each call must do from the abstract heap
   (object id -> abstract value) and compares.  Every event gets a verdict - the set of violated
   clauses; a session ends at its first divergence, because from there on the abstract heap and the real
   objects need not agree. *)
EXTENDS PddlNotation, Json, IOUtils

Sessions == TLCEval(ndJsonDeserialize(IOEnv.PDDL_TRACE))

VARIABLES s, l, heap
vars == <<s, l, heap>>

----------------------------------------------------------------------------
(* From projected JSON values to specification values *)
Tm(j) == [k |-> j.k, n |-> j.n, t |-> Rng(j.t)]
RECURSIVE Ast(_)
Ast(j) ==
    LET ks == Map(Ast, j.ks)
    IN IF j.op \in AssocArith THEN Mk(j.op, {}, ks)
       ELSE [op |-> j.op, nm |-> j.nm, ts |-> Map(Tm, j.ts), vs |-> Rng(Map(Tm, j.vs)), ks |-> ks]
ActV(j) == [nm |-> j.nm, ps |-> Map(Tm, j.ps), pre |-> Ast(j.pre), eff |-> Ast(j.eff)]
DomV(j) == [nm |-> j.nm, reqs |-> Rng(j.reqs), types |-> Rng(j.types), consts |-> Rng(j.consts),
            preds |-> Rng(Map(Ast, j.preds)),
            funs |-> Rng(Map(LAMBDA p : <<Ast(p[1]), p[2]>>, j.funs)),
            dps |-> Rng(Map(LAMBDA p : [h |-> Ast(p.h), c |-> Ast(p.c)], j.dps)),
            acts |-> Rng(Map(ActV, j.acts))]
PrbV(j) == [nm |-> j.nm, dom |-> j.dom, reqs |-> Rng(j.reqs), objs |-> Rng(j.objs),
            init |-> Rng(Map(Ast, j.init)), goal |-> Ast(j.goal), metric |-> Ast(j.metric)]
PlnV(j) == Map(LAMBDA x : [nm |-> x.nm, as |-> Map(LAMBDA a : a, x.as)], j)

Conv(kind, j) == CASE kind = "domain" -> DomV(j)
                   [] kind = "problem" -> PrbV(j)
                   [] kind = "plan" -> PlnV(j)
                   [] kind = "action" -> ActV(j)
                   [] kind = "actions" -> Map(ActV, j)
                   [] kind = "term" -> Tm(j)
                   [] kind = "terms" -> Map(Tm, j)
                   [] kind = "req" -> j
                   [] OTHER -> Ast(j)

ArgN(j) == Nf(Ast(j))
NfAct(a) == [a EXCEPT !.pre = Nf(@), !.eff = Nf(@)]
ArgD(j) == LET d == DomV(j)
           IN [d EXCEPT !.dps = {[p EXCEPT !.c = Nf(@)] : p \in @}, !.acts = {NfAct(a) : a \in @}]

\* what a heap object looks like from outside
Seen(o) == IF o.kind = "problem" THEN View(o.v) ELSE o.v
FromSeen(kind, v) == IF kind = "problem" THEN ParsedProblem(v) ELSE v

Diff(kind, a, b) ==
    IF a = b THEN {}
    ELSE IF kind \in {"domain", "problem", "action"} THEN {kind \o "." \o f : f \in {g \in DOMAIN a : a[g] # b[g]}}
    ELSE {kind}

Put(h, id, kind, v) == IF id = 0 THEN h ELSE [x \in DOMAIN h \cup {id} |-> IF x = id THEN [kind |-> kind, v |-> v] ELSE h[x]]

Opt(j) == j    \* optional values are sequences of length 0 or 1
Fold(e) == [x \in {p[1] : p \in Rng(e.fold)} |-> (CHOOSE p \in Rng(e.fold) : p[1] = x)[2]]

----------------------------------------------------------------------------
(* Outcome of a call that yields a value: exp = [ok, v] *)
Judge(h, e, kind, exp, tag) ==
    IF e.out \notin {"ok", "reject"} THEN [bad |-> {tag \o ": " \o e.out}, heap |-> h]
    ELSE IF exp.ok /\ e.out = "reject" THEN [bad |-> {tag \o ": rejected, must be accepted"}, heap |-> h]
    ELSE IF ~exp.ok /\ e.out = "ok" THEN
         [bad |-> {tag \o ": accepted, must be rejected"}, heap |-> Put(h, e.id, kind, FromSeen(kind, Conv(kind, e.val)))]
    ELSE IF ~exp.ok THEN [bad |-> {}, heap |-> h]
    ELSE LET got == TLCEval(Conv(kind, e.val))
             want == TLCEval(Seen([kind |-> kind, v |-> exp.v]))
         IN [bad |-> {tag \o ": wrong " \o d : d \in Diff(kind, want, got)}, heap |-> Put(h, e.id, kind, exp.v)]

\* a call without result: only accepted or rejected
JudgeUnit(h, e, ok, tag) ==
    [bad |-> IF e.out \notin {"ok", "reject"} THEN {tag \o ": " \o e.out}
             ELSE IF ok # (e.out = "ok") THEN {tag \o IF ok THEN ": rejected, must be accepted" ELSE ": accepted, must be rejected"}
             ELSE {},
     heap |-> h]

Good(h, ok, tag) == [bad |-> IF ok THEN {} ELSE {tag}, heap |-> h]

----------------------------------------------------------------------------
\* An occurrence <<place, name, type>> of a constant in a formula carries the declared type.  In the goal, metric
\* and numeric assignments of a problem it may be untyped; a problem may name constants of its domain.
CarriesDeclared(o, v) ==
    CASE o[1] = "domain" -> <<o[2], o[3]>> \in v.consts
      [] o[1] = "init" -> IF \E p \in v.objs : p[1] = o[2] THEN <<o[2], o[3]>> \in v.objs ELSE o[3] = ""
      [] OTHER -> o[3] = "" \/ <<o[2], o[3]>> \in v.objs

ParseEv(h, e) ==
    IF e.lex /\ Unspecified(e.kind, e.forms)
    THEN [bad |-> IF e.out \in {"ok", "reject"} THEN {} ELSE {"parse: " \o e.out},
          heap |-> IF e.out = "ok" THEN Put(h, e.id, e.kind, FromSeen(e.kind, Conv(e.kind, e.val))) ELSE h]
    ELSE LET r == TLCEval(IF e.lex THEN Read(e.kind, e.forms) ELSE Rejected)
             j == Judge(h, e, e.kind, IF r.ok THEN Accepted(FromSeen(e.kind, r.v)) ELSE r, "parse")
         IN IF r.ok /\ e.out = "ok" /\ \E i \in DOMAIN e.ct : ~CarriesDeclared(e.ct[i], r.v)
            THEN [j EXCEPT !.bad = @ \cup {"parse: wrong type of a constant in a formula"}] ELSE j

\* e.forms is the tokenised output of the formatter: it must mean the object
PrintEv(h, e) ==
    LET o == h[e.id]
        r == TLCEval(IF e.lex THEN Read(o.kind, e.forms) ELSE Rejected)
    IN Good(h, r.ok, "print: text is not well formed").bad \cup
       (IF r.ok THEN {"print: text denotes another " \o d : d \in Diff(o.kind, Seen(o), r.v)} ELSE {})

\* observation of existing objects
ObsEv(h, e) == {"object changed: " \o d : d \in Diff(h[e.id].kind, Seen(h[e.id]), Conv(h[e.id].kind, e.val))}

SameKind(a, b) == a.kind = b.kind
\* the value two objects are compared by: constants count by name, attached domains count
Names(ps) == {p[1] : p \in ps}
IdDom(d) == [d EXCEPT !.consts = Names(@)]
Ident(o) == CASE o.kind = "problem" -> [view |-> [View(o.v) EXCEPT !.objs = Names(@)], att |-> Map(IdDom, o.v.att)]
              [] o.kind = "domain" -> IdDom(o.v)
              [] o.kind = "term" -> IF o.v.k = "c" THEN C(o.v.n) ELSE o.v
              [] OTHER -> o.v
EqualVals(a, b) == SameKind(a, b) /\ Ident(a) = Ident(b)

CmpEv(h, e) ==
    LET eq == EqualVals(h[e.a], h[e.b]) IN
    (IF e.eq # eq THEN {IF eq THEN "compare: equal values differ" ELSE "compare: different values are equal"} ELSE {})
    \cup (IF e.ne = e.eq THEN {"compare: != is not the negation of =="} ELSE {})
    \cup (IF e.rev # e.eq THEN {"compare: == is not symmetric"} ELSE {})
    \cup (IF eq /\ ~e.hash THEN {"compare: equal values have different hashes"} ELSE {})

\* laws of a strict total order, over the recorded relation between the objects e.ids
OrderEv(h, e) ==
    LET n == Len(e.ids)
        eq(i, j) == EqualVals(h[e.ids[i]], h[e.ids[j]])
    IN (IF \A i, j \in 1..n : Cardinality({x \in 1..3 : <<e.lt[i][j], eq(i, j), e.lt[j][i]>>[x]}) = 1 THEN {}
        ELSE {"order: not exactly one of <, ==, >"})
       \cup (IF \A i, j, k \in 1..n : e.lt[i][j] /\ e.lt[j][k] => e.lt[i][k] THEN {} ELSE {"order: not transitive"})
       \cup (IF \A i, j \in 1..n : e.le[i][j] = (e.lt[i][j] \/ eq(i, j)) THEN {} ELSE {"order: <= is not < or =="})
       \cup (IF \A i, j \in 1..n : e.gt[i][j] = e.lt[j][i] /\ e.ge[i][j] = e.le[j][i] THEN {} ELSE {"order: > or >= is not the converse"})
       \cup (IF \A p \in DOMAIN e.sorted : \A q \in DOMAIN e.sorted : Map(LAMBDA x : Ident(h[x]), e.sorted[p]) = Map(LAMBDA x : Ident(h[x]), e.sorted[q])
             THEN {} ELSE {"order: sorting depends on the input order"})

\* texts printed for the objects e.ids (possibly in other processes): a function of the value
TextEv(h, e) ==
    IF \A i, j \in DOMAIN e.ids : EqualVals(h[e.ids[i]], h[e.ids[j]]) => e.txt[i] = e.txt[j] THEN {}
    ELSE {"print: equal values are printed differently"}

MapArg(m) == LET ps == TLCEval(Map(LAMBDA p : <<Tm(p[1]), Tm(p[2])>>, m))
             IN [x \in {p[1] : p \in Rng(ps)} |-> (CHOOSE p \in Rng(ps) : p[1] = x)[2]]

\* constants with their types: those a value had, and those put in for its free variables
Carried(o, m, was) ==
    LET free == CASE o.kind = "node" -> FreeVars(o.v) [] o.kind = "action" -> FreeVars(o.v.pre) \cup FreeVars(o.v.eff) [] OTHER -> {}
        ps == {p \in Rng(m) : p[2].k = "c" /\ Tm(p[1]) \in free}
    IN was \cup {<<p[2].n, IF p[2].t = <<>> THEN "" ELSE p[2].t[1]>> : p \in ps}

BaseP(j, xt) == [nm |-> j.nm, objs |-> Rng(j.objs), init |-> Rng(Map(ArgN, j.init)), goal |-> ArgN(j.goal),
                 metric |-> ArgN(j.metric), xt |-> Rng(xt)]

Apply(h, e) ==
    CASE e.op = "parse" -> ParseEv(h, e)
      [] e.op = "print" -> [bad |-> PrintEv(h, e), heap |-> h]
      [] e.op = "flag" -> Good(h, e.ok, e.what)
      [] e.op = "obs" -> [bad |-> ObsEv(h, e), heap |-> h]
      [] e.op = "cmp" -> [bad |-> CmpEv(h, e), heap |-> h]
      [] e.op = "order" -> [bad |-> OrderEv(h, e), heap |-> h]
      [] e.op = "text" -> [bad |-> TextEv(h, e), heap |-> h]
      [] e.op = "copy" -> [bad |-> {"copy: wrong " \o d : d \in Diff(h[e.a].kind, Seen(h[e.a]), Conv(h[e.a].kind, e.val))},
                           heap |-> Put(h, e.id, h[e.a].kind, h[e.a].v)]
      [] e.op = "term" -> Judge(h, e, "term", Accepted(Tm(e.arg)), "term")
      [] e.op = "node" ->
            LET ts == TLCEval(Map(Tm, e.ts)) ok == e.nop \in {"pred", "eq"} => AtomConsistent(ts)
            IN Judge(h, e, "node", IF ok THEN Accepted(MkNode(e.nop, e.nm, ts, Rng(Map(Tm, e.vs)), Map(ArgN, e.ks))) ELSE Rejected, "build")
      [] e.op = "shortcut" -> Judge(h, e, "node", Accepted(Shortcut(e.sc, ArgN(e.ks[1]), ArgN(e.ks[2]))), "build")
      [] e.op = "inst" ->
            LET r == TLCEval(Subst(h[e.a].v, MapArg(e.map)))
            IN Judge(h, e, "node", IF ConsistentAtoms(r) THEN Accepted(r) ELSE Rejected, "instantiate")
      [] e.op = "ground" -> Judge(h, e, "action", Ground(h[e.a].v, Map(Tm, e.args)), "instantiate")
      [] e.op = "name" ->
            [bad |-> IF e.out \notin {"ok", "reject"} THEN {"name: " \o e.out}
                     ELSE IF NameOk(e.ctx, e.s) # (e.out = "ok") THEN {"name: " \o e.what \o (IF e.out = "ok" THEN " accepted, must be rejected" ELSE " rejected, must be accepted")}
                     ELSE IF e.out = "ok" /\ e.val # e.s THEN {"name: " \o e.what \o " is not preserved"} ELSE {},
             heap |-> h]
      [] e.op = "listed" -> Judge(h, e, "terms", Listed(e.k, e.s, e.tys), "list of terms")
      [] e.op = "apply" -> Judge(h, e, "node", Applied(h[e.a].v.op, h[e.a].v.nm, Map(Tm, e.ts), Map(Tm, e.args)), "apply")
      [] e.op = "terms" -> Good(h, Map(Tm, e.val) = Map(Tm, e.args), "apply: not the terms given")
      [] e.op = "carried" -> Good(h, Rng(e.val) = Carried(h[e.a], e.map, Rng(e.was)), "types of constants: changed")
      [] e.op = "retype" -> Judge(h, e, "term", Retyped(h[e.a].v, e.tys), "new types")
      [] e.op = "limit" ->
            [bad |-> IF e.running = 0 /\ e.val # e.base THEN {"parse: traceback limit is not restored"} ELSE {}, heap |-> h]
      [] e.op = "drop" -> [bad |-> {}, heap |-> [x \in DOMAIN h \ {e.id} |-> h[x]]]
      [] e.op = "value" -> [bad |-> {}, heap |-> Put(h, e.id, e.kind, Conv(e.kind, e.val))]
      [] e.op = "mkaction" -> Judge(h, e, "action", Accepted(NfAct(ActV(e.arg))), "build")
      [] e.op = "mkdomain" -> Judge(h, e, "domain", MkDomain(ArgD(e.arg), Rng(e.xt)), "build")
      [] e.op = "mkproblem" ->
            Judge(h, e, "problem",
                  MkProblem(BaseP(e.arg, e.xt), Map(LAMBDA i : h[i].v, e.dom), e.dname, Map(Rng, e.reqs), Fold(e)), "build")
      [] e.op = "mkplan" -> Judge(h, e, "plan", Accepted(PlnV(e.arg)), "build")
      [] e.op = "attach" ->
            LET r == Attach(h[e.a].v, h[e.d].v)
                u == JudgeUnit(h, e, r.ok, "attach")
            IN [u EXCEPT !.heap = IF r.ok THEN Put(h, e.a, "problem", r.v) ELSE h]
      [] e.op = "check" -> JudgeUnit(h, e, CheckProblem(h[e.a].v, h[e.d].v, Fold(e)), "check")
      [] e.op = "plancheck" -> JudgeUnit(h, e, PlanFits(h[e.a].v, h[e.d].v, View(h[e.p].v)), "plan check")
      [] e.op = "planinst" -> Judge(h, e, "actions", GroundPlan(h[e.a].v, h[e.d].v), "plan instantiate")
      [] e.op = "cli" ->
            LET c == TLCEval(Cli(e.files, Fold(e)))
            IN [bad |-> (IF e.out # "exit" THEN {"cli: " \o e.out} ELSE {})
                        \cup (IF c.ok # (e.code = 0) THEN {IF c.ok THEN "cli: fails on valid input" ELSE "cli: succeeds on invalid input"} ELSE {})
                        \cup (IF (\E i \in DOMAIN e.files : ~e.files[i].there) /\ e.code # 2 THEN {"cli: missing file is not a usage error"} ELSE {})
                        \cup (IF e.quiet THEN (IF e.shown # <<>> THEN {"cli: prints although quiet"} ELSE {})
                              ELSE IF c.ok THEN (IF e.shown # e.texts[c.shown + 1] THEN {"cli: wrong output"} ELSE {})
                              ELSE IF \E i \in 1..(c.shown + 1) : e.shown = e.texts[i] THEN {} ELSE {"cli: prints invalid input"}),
                heap |-> h]
      [] OTHER -> [bad |-> {"unknown event " \o e.op}, heap |-> h]

----------------------------------------------------------------------------
Init == s \in 1..Len(Sessions) /\ l = 1 /\ heap = <<>>

Report(bad) == IF bad = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToJson([s |-> s, l |-> l, bad |-> bad]))

Next ==
    /\ l <= Len(Sessions[s].events)
    /\ LET r == TLCEval(Apply(heap, Sessions[s].events[l]))
       IN /\ Report(r.bad)
          /\ heap' = r.heap
          /\ l' = IF r.bad = {} THEN l + 1 ELSE Len(Sessions[s].events) + 1
    /\ s' = s

Spec == Init /\ [][Next]_vars
=============================================================================
