----------------------------- MODULE PddlWriter -----------------------------
(* Concrete syntax of abstract values: a token tree that PddlReader reads back.  Unordered parts are
   written in some order. *)
EXTENDS PddlReader

Tok(k, a) == [k |-> k, a |-> a, l |-> <<>>]
Nm(a) == Tok("n", a)
Kw(a) == Tok("w", a)
Vr(a) == Tok("v", a)
Nu(a) == Tok("d", a)
Sy(a) == Tok("s", a)
L(s) == [k |-> "l", a |-> "", l |-> s]

RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})

WrTags(ts) == IF Cardinality(ts) = 1 THEN Nm(CHOOSE t \in ts : TRUE)
              ELSE L(<<Nm("either")>> \o Map(Nm, SeqOf(ts)))
\* items with their types; an untyped item can only be followed by untyped ones
WrTyped(items, ty(_), wr(_)) ==
    Concat(Map(LAMBDA x : IF ty(x) = {} THEN <<wr(x)>> ELSE <<wr(x), Sy("-"), WrTags(ty(x))>>, items))
UntypedLast(S, ty(_)) == SeqOf({x \in S : ty(x) # {}}) \o SeqOf({x \in S : ty(x) = {}})
Opt1(t) == IF t = "" THEN {} ELSE {t}

VarTy(v) == v.t
WrVar(v) == Vr(v.n)
WrVars(s) == WrTyped(s, VarTy, WrVar)
WrVarSet(S) == WrVars(UntypedLast(S, VarTy))
WrTerm(t) == IF t.k = "v" THEN Vr(t.n) ELSE Nm(t.n)

IsOp(o) == o \in {"+", "-", "*", "/", "<", "<=", ">", ">="}
RECURSIVE Wr(_)
Wr(n) ==
    CASE n.op \in {"pred", "fn"} -> L(<<Nm(n.nm)>> \o Map(WrTerm, n.ts))
      [] n.op = "eq" -> L(<<Sy("=")>> \o Map(WrTerm, n.ts))
      [] n.op = "num" -> Nu(n.nm)
      [] n.op = "f=" -> L(<<Sy("=")>> \o Map(Wr, n.ks))
      [] IsOp(n.op) -> L(<<Sy(n.op)>> \o Map(Wr, n.ks))
      [] n.op \in {"forall", "exists", "eforall"} ->
            L(<<Nm(IF n.op = "exists" THEN "exists" ELSE "forall"), L(WrVarSet(n.vs)), Wr(n.ks[1])>>)
      [] OTHER -> L(<<Nm(n.op)>> \o Map(Wr, n.ks))

WrSkel(p) == L(<<Nm(p.nm)>> \o WrVars(p.ts))

Section(kw, s) == IF s = <<>> THEN <<>> ELSE <<L(<<Kw(kw)>> \o s)>>
PairTy(p) == Opt1(p[2])
WrPair(p) == Nm(p[1])
WrNames(S) == WrTyped(UntypedLast(S, PairTy), PairTy, WrPair)
WrFun(p) == WrSkel(p[1])
WrFuns(S) == WrTyped(UntypedLast(S, PairTy), PairTy, WrFun)
WrReqs(R) == Map(Kw, SeqOf(R))

WrAction(a) ==
    L(<<Kw(":action"), Nm(a.nm), Kw(":parameters"), L(WrVars(a.ps))>>
      \o (IF a.pre = None THEN <<>> ELSE <<Kw(":precondition"), Wr(a.pre)>>)
      \o (IF a.eff = None THEN <<>> ELSE <<Kw(":effect"), Wr(a.eff)>>))
WrDerived(p) == L(<<Kw(":derived"), WrSkel(p.h), Wr(p.c)>>)

WrDomain(d) ==
    L(<<Nm("define"), L(<<Nm("domain"), Nm(d.nm)>>)>>
      \o Section(":requirements", WrReqs(d.reqs))
      \o Section(":types", WrNames(d.types))
      \o Section(":constants", WrNames(d.consts))
      \o Section(":predicates", Map(WrSkel, SeqOf(d.preds)))
      \o Section(":functions", WrFuns(d.funs))
      \o Map(WrDerived, SeqOf(d.dps)) \o Map(WrAction, SeqOf(d.acts)))

WrProblem(p) ==
    L(<<Nm("define"), L(<<Nm("problem"), Nm(p.nm)>>), L(<<Kw(":domain"), Nm(p.dom)>>)>>
      \o Section(":requirements", WrReqs(p.reqs))
      \o Section(":objects", WrNames(p.objs))
      \o <<L(<<Kw(":init")>> \o Map(Wr, SeqOf(p.init))), L(<<Kw(":goal"), Wr(p.goal)>>)>>
      \o (IF p.metric = None THEN <<>> ELSE <<L(<<Kw(":metric"), Nm(p.metric.op), Wr(p.metric.ks[1])>>)>>))

WrPlan(p) == Map(LAMBDA s : L(<<Nm(s.nm)>> \o Map(Nm, s.as)), p)

Write(kind, v) == CASE kind = "domain" -> <<WrDomain(v)>>
                    [] kind = "problem" -> <<WrProblem(v)>>
                    [] kind = "plan" -> WrPlan(v)
=============================================================================
