----------------------------- MODULE PddlReader -----------------------------
(* The concrete syntax. A text is, after removing layout and comments, a sequence of token trees
   [k, a, l]:  k = "n" word (letter first), "w" word starting with a colon, "v" variable, "d" number,
   "s" operator symbol, "l" list (elements in l).  a is the spelling (canonical decimal for "d").

   Wf... decides whether a tree is well formed in a context; Rd... gives its meaning.
   Context record cx: reqs (closed set of requirements), consts (names that may be used as
   constants), any (TRUE: every name may be used as a constant and no construct is gated). *)
EXTENDS PddlSyntax, PddlReq, PddlTypes

Keywords == {"(", ")", "-", "=", ":action", "and", ":constants", "define", ":derived", "domain", ":domain",
             ":effect", "either", "exists", "forall", ":goal", "imply", ":init", "not", "object", ":objects",
             "oneof", "or", ":parameters", ":precondition", ":predicates", "problem", ":requirements", ":types",
             ":metric", "when", ">=", ">", "<=", "<", "+", "*", "/", "assign", "scale-up", "scale-down",
             "increase", "decrease", "maximize", "minimize", "total-cost"}

IsL(x) == x.k = "l"
IsAtom(x, a) == x.k # "l" /\ x.a = a
Hd(x) == IF IsL(x) /\ x.l # <<>> THEN x.l[1].a ELSE ""
Args(x) == Tail(x.l)

IsName(x) == x.k = "n" /\ x.a \notin Keywords
IsFnName(x) == x.k = "n" /\ (x.a \notin Keywords \/ x.a = "total-cost")
IsTypeName(x) == x.k = "n" /\ (x.a \notin Keywords \/ x.a = Root)
IsVar(x) == x.k = "v" /\ x.a \notin Keywords
IsNum(x) == x.k = "d"
IsDash(x) == x.k = "s" /\ x.a = "-"

----------------------------------------------------------------------------
(* Typed lists: groups of items, each group but possibly the last followed by "- type". *)
Dashes(s) == {i \in DOMAIN s : IsDash(s[i])}

\* Item(_) recognises items, Ty(_) type expressions.
WfTL(s, Item(_), Ty(_)) ==
    /\ \A i \in DOMAIN s : (~IsDash(s[i]) /\ (i = 1 \/ ~IsDash(s[i - 1]))) => Item(s[i])
    /\ \A i \in Dashes(s) :
          /\ i > 1 /\ i < Len(s)
          /\ ~IsDash(s[i + 1]) /\ Ty(s[i + 1])
          /\ ~IsDash(s[i - 1])
          /\ (i > 2 => ~IsDash(s[i - 2]))

WfType(x) == IsTypeName(x) \/ (Hd(x) = "either" /\ Len(x.l) >= 2 /\ All(IsTypeName, Args(x)))
RdType(x) == IF IsL(x) THEN {x.l[i].a : i \in 2..Len(x.l)} ELSE {x.a}

RECURSIVE RdTL(_)
\* sequence of <<item tree, set of types>>
RdTL(s) ==
    LET ds == Dashes(s)
    IN IF ds = {} THEN Map(LAMBDA x : <<x, {}>>, s)
       ELSE LET d == CHOOSE i \in ds : \A j \in ds : i <= j
                ty == TLCEval(RdType(s[d + 1]))
            IN Map(LAMBDA x : <<x, ty>>, SubSeq(s, 1, d - 1)) \o RdTL(From(s, d + 2))

Consistent(tl) == \A i, j \in DOMAIN tl : tl[i][1] = tl[j][1] => tl[i][2] = tl[j][2]
DistinctItems(tl) == \A i, j \in DOMAIN tl : tl[i][1] = tl[j][1] => i = j

Spelling(x) == x.a
RdVars(s) == Map(LAMBDA p : <<p[1].a, p[2]>>, RdTL(s))
WfVars(s) == WfTL(s, IsVar, WfType) /\ Consistent(RdVars(s))
RdNames(s) == RdVars(s)
WfNames(s) == WfTL(s, IsName, IsTypeName) /\ DistinctItems(RdNames(s))

TermsOf(tl) == Map(LAMBDA p : V(p[1], p[2]), tl)
Bind(env, tl) == TLCEval(
    LET ns == {tl[i][1] : i \in DOMAIN tl}
    IN [x \in DOMAIN env \cup ns |-> IF x \in ns THEN (CHOOSE p \in Rng(tl) : p[1] = x)[2] ELSE env[x]])
NoEnv == [x \in {} |-> {}]
SingleType(tags) == IF tags = {} THEN "" ELSE CHOOSE t \in tags : TRUE

----------------------------------------------------------------------------
(* Terms, atoms, numeric expressions *)
WfTerm(x, cx) == IsVar(x) \/ (IsName(x) /\ (cx.any \/ x.a \in cx.consts))
RdTerm(x, env) == IF x.k = "v" THEN V(x.a, IF x.a \in DOMAIN env THEN env[x.a] ELSE {}) ELSE C(x.a)
RdTerms(s, env) == Map(LAMBDA t : RdTerm(t, env), s)

May(cx, construct) == cx.any \/ Allows(cx.reqs, construct)

WfPred(x, cx) == IsL(x) /\ x.l # <<>> /\ IsName(x.l[1]) /\ All(LAMBDA t : WfTerm(t, cx), Args(x))
RdPred(x, env) == Pred(x.l[1].a, RdTerms(Args(x), env))

IsTermEq(x) == Hd(x) = "=" /\ Len(x.l) = 3 /\ \A i \in 2..3 : x.l[i].k \in {"v", "n"}
WfTermEq(x, cx) == IsTermEq(x) /\ May(cx, "eq") /\ All(LAMBDA t : WfTerm(t, cx), Args(x))
RdTermEq(x, env) == Eq(RdTerm(x.l[2], env), RdTerm(x.l[3], env))

WfAtom(x, cx) == WfTermEq(x, cx) \/ WfPred(x, cx)
RdAtom(x, env) == IF Hd(x) = "=" THEN RdTermEq(x, env) ELSE RdPred(x, env)

WfHead(x, cx) == IsFnName(x) \/ (IsL(x) /\ x.l # <<>> /\ IsFnName(x.l[1]) /\ All(LAMBDA t : WfTerm(t, cx), Args(x)))
RdHead(x, env) == IF IsL(x) THEN Fn(x.l[1].a, RdTerms(Args(x), env)) ELSE Fn(x.a, <<>>)

RECURSIVE WfExp(_, _)
WfExp(x, cx) ==
    \/ IsNum(x)
    \/ WfHead(x, cx)
    \/ /\ IsL(x) /\ x.l # <<>> /\ x.l[1].k = "s"
       /\ LET n == Len(x.l) - 1
          IN CASE Hd(x) = "-" -> n \in {1, 2}
               [] Hd(x) = "/" -> n = 2
               [] Hd(x) \in {"+", "*"} -> n >= 2
               [] OTHER -> FALSE
       /\ All(LAMBDA e : WfExp(e, cx), Args(x))
RECURSIVE RdExp(_, _)
RdExp(x, env) == IF IsNum(x) THEN Num(x.a)
                 ELSE IF IsL(x) /\ x.l[1].k = "s" THEN Mk(Hd(x), {}, Map(LAMBDA e : RdExp(e, env), Args(x)))
                 ELSE RdHead(x, env)

CompOps == {"<", "<=", ">", ">="}
IsCompHead(x) == Hd(x) \in CompOps \/ (Hd(x) = "=" /\ ~IsTermEq(x))
\* (= name exp) with a bare name on the left is not part of the language.
WfComp(x, cx) == IsCompHead(x) /\ Len(x.l) = 3 /\ All(LAMBDA e : WfExp(e, cx), Args(x))
                 /\ ~(Hd(x) = "=" /\ x.l[2].k = "n")
RdComp(x, env) == N(IF Hd(x) = "=" THEN "f=" ELSE Hd(x), "", <<>>, {}, Map(LAMBDA e : RdExp(e, env), Args(x)))

----------------------------------------------------------------------------
(* Conditions *)
RECURSIVE WfGd(_, _)
WfGd(x, cx) ==
    /\ IsL(x) /\ x.l # <<>>
    /\ LET h == Hd(x) n == Len(x.l) - 1 IN
       CASE h = "and" -> All(LAMBDA e : WfGd(e, cx), Args(x))
         [] h = "or" -> May(cx, "or") /\ All(LAMBDA e : WfGd(e, cx), Args(x))
         [] h = "not" -> n = 1 /\ WfGd(x.l[2], cx)
         [] h = "imply" -> n = 2 /\ May(cx, "imply") /\ WfGd(x.l[2], cx) /\ WfGd(x.l[3], cx)
         [] h \in {"forall", "exists"} -> n = 2 /\ May(cx, h) /\ IsL(x.l[2]) /\ WfVars(x.l[2].l) /\ WfGd(x.l[3], cx)
         [] IsCompHead(x) -> WfComp(x, cx)
         [] OTHER -> WfAtom(x, cx)

RECURSIVE RdGd(_, _)
RdGd(x, env) ==
    LET h == Hd(x) IN
    CASE h \in {"and", "or", "not", "imply"} -> Mk(h, {}, Map(LAMBDA e : RdGd(e, env), Args(x)))
      [] h \in {"forall", "exists"} ->
            LET tl == TLCEval(RdVars(x.l[2].l)) e2 == Bind(env, tl)
            IN Mk(h, Rng(TermsOf(tl)), <<RdGd(x.l[3], e2)>>)
      [] IsCompHead(x) -> RdComp(x, env)
      [] OTHER -> RdAtom(x, env)

(* "()" is the empty condition or effect. *)
WfPre(x, cx) == (IsL(x) /\ x.l = <<>>) \/ WfGd(x, cx)
RdPre(x, env) == IF x.l = <<>> THEN True ELSE RdGd(x, env)

----------------------------------------------------------------------------
(* Effects *)
AssignOps == {"assign", "scale-up", "scale-down", "increase", "decrease"}

WfPEff(x, cx) ==
    /\ IsL(x) /\ x.l # <<>>
    /\ LET h == Hd(x) n == Len(x.l) - 1 IN
       CASE h = "not" -> n = 1 /\ WfAtom(x.l[2], cx)
         [] h \in AssignOps -> n = 2 /\ WfHead(x.l[2], cx) /\ WfExp(x.l[3], cx)
         [] OTHER -> WfAtom(x, cx)
RdPEff(x, env) ==
    LET h == Hd(x) IN
    CASE h = "not" -> N("not", "", <<>>, {}, <<RdAtom(x.l[2], env)>>)
      [] h \in AssignOps -> N(h, "", <<>>, {}, <<RdHead(x.l[2], env), RdExp(x.l[3], env)>>)
      [] OTHER -> RdAtom(x, env)

WfCondEff(x, cx) == IF Hd(x) = "and" THEN All(LAMBDA e : WfPEff(e, cx), Args(x)) ELSE WfPEff(x, cx)
RdCondEff(x, env) == IF Hd(x) = "and" THEN Mk("and", {}, Map(LAMBDA e : RdPEff(e, env), Args(x))) ELSE RdPEff(x, env)

RECURSIVE WfCEff(_, _), WfEff(_, _)
WfEff(x, cx) == IF Hd(x) = "and" THEN All(LAMBDA e : WfCEff(e, cx), Args(x)) ELSE WfCEff(x, cx)
WfCEff(x, cx) ==
    /\ IsL(x) /\ x.l # <<>>
    /\ LET h == Hd(x) n == Len(x.l) - 1 IN
       CASE h = "forall" -> n = 2 /\ IsL(x.l[2]) /\ WfVars(x.l[2].l) /\ WfEff(x.l[3], cx)
         [] h = "when" -> n = 2 /\ WfGd(x.l[2], cx) /\ WfCondEff(x.l[3], cx)
         [] h = "oneof" -> n >= 1 /\ May(cx, "oneof") /\ All(LAMBDA e : WfEff(e, cx), Args(x))
         [] OTHER -> WfPEff(x, cx)

RECURSIVE RdCEff(_, _), RdEff(_, _)
RdEff(x, env) == IF Hd(x) = "and" THEN Mk("and", {}, Map(LAMBDA e : RdCEff(e, env), Args(x))) ELSE RdCEff(x, env)
RdCEff(x, env) ==
    LET h == Hd(x) IN
    CASE h = "forall" -> LET tl == TLCEval(RdVars(x.l[2].l)) e2 == Bind(env, tl)
                         IN Mk("eforall", Rng(TermsOf(tl)), <<RdEff(x.l[3], e2)>>)
      [] h = "when" -> N("when", "", <<>>, {}, <<RdGd(x.l[2], env), RdCondEff(x.l[3], env)>>)
      [] h = "oneof" -> N("oneof", "", <<>>, {}, Map(LAMBDA e : RdEff(e, env), Args(x)))
      [] OTHER -> RdPEff(x, env)

WfEffTop(x, cx) == (IsL(x) /\ x.l = <<>>) \/ WfEff(x, cx)
RdEffTop(x, env) == IF x.l = <<>> THEN True ELSE RdEff(x, env)

----------------------------------------------------------------------------
(* Actions *)
\* the arguments after the name: :parameters (..) [:precondition c] [:effect e]
WfAction(x, cx) ==
    LET s == x.l n == Len(s)
        hasPre == n >= 5 /\ IsAtom(s[5], ":precondition")
        i == IF hasPre THEN 7 ELSE 5
        hasEff == n >= i /\ IsAtom(s[i], ":effect")
    IN /\ Hd(x) = ":action" /\ n >= 4
       /\ IsName(s[2]) /\ IsAtom(s[3], ":parameters") /\ IsL(s[4]) /\ WfVars(s[4].l)
       /\ n = 4 + (IF hasPre THEN 2 ELSE 0) + (IF hasEff THEN 2 ELSE 0)
       /\ hasPre => WfPre(s[6], cx)
       /\ hasEff => WfEffTop(s[i + 1], cx)

RdAction(x) ==
    LET s == x.l n == Len(s)
        tl == TLCEval(Dedup(RdVars(s[4].l)))
        env == Bind(NoEnv, tl)
        hasPre == n >= 5 /\ IsAtom(s[5], ":precondition")
        i == IF hasPre THEN 7 ELSE 5
        hasEff == n >= i
    IN [nm |-> s[2].a, ps |-> TermsOf(tl),
        pre |-> IF hasPre THEN RdPre(s[6], env) ELSE None,
        eff |-> IF hasEff THEN RdEffTop(s[i + 1], env) ELSE None]

(* Skeletons and derived predicates *)
WfSkel(x) == IsL(x) /\ x.l # <<>> /\ IsName(x.l[1]) /\ WfVars(Args(x))
WfFnSkel(x) == IsL(x) /\ x.l # <<>> /\ IsFnName(x.l[1]) /\ WfVars(Args(x))
RdSkel(x) == Pred(x.l[1].a, TermsOf(RdVars(Args(x))))
RdFnSkel(x) == Fn(x.l[1].a, TermsOf(RdVars(Args(x))))


\* preds: sequence of declared predicates; a derived head refers to the one with its name.
DeclOf(nm, preds) == preds[CHOOSE i \in DOMAIN preds : preds[i].nm = nm]
IsDeclared(nm, preds) == \E i \in DOMAIN preds : preds[i].nm = nm

WfDerived(x, cx, preds, H) ==
    /\ Hd(x) = ":derived" /\ Len(x.l) = 3
    /\ WfSkel(x.l[2]) /\ WfGd(x.l[3], cx)
    /\ LET h == TLCEval(RdSkel(x.l[2]))
       IN /\ IsDeclared(h.nm, preds)
          /\ LET d == DeclOf(h.nm, preds)
             IN /\ Len(d.ts) = Len(h.ts)
                /\ \A i \in DOMAIN h.ts : h.ts[i].t # {} => SubtypesOf(H, h.ts[i].t, d.ts[i].t)

RdDerived(x, preds) ==
    LET h == TLCEval(RdSkel(x.l[2]))
        d == DeclOf(h.nm, preds)
        tl == TLCEval([i \in DOMAIN h.ts |-> <<h.ts[i].n, IF h.ts[i].t # {} THEN h.ts[i].t ELSE d.ts[i].t>>])
    IN [h |-> Pred(h.nm, TermsOf(tl)), c |-> RdGd(x.l[3], Bind(NoEnv, tl))]

----------------------------------------------------------------------------
(* Domains.  Value: [nm, reqs, types, consts, preds, funs, dps, acts]; types a normalised hierarchy,
   consts pairs <<name, type or "">>, funs pairs <<function, "number" or "">>. *)
DomainTags(d) ==
    {c[2] : c \in {k \in d.consts : k[2] # ""}}
    \cup UNION {TypesIn(p) : p \in d.preds}
    \cup UNION {TypesIn(f[1]) : f \in d.funs}
    \cup UNION {TypesIn(p.h) \cup TypesIn(p.c) : p \in d.dps}
    \cup UNION {UNION {t.t : t \in Rng(a.ps)} \cup TypesIn(a.pre) \cup TypesIn(a.eff) : a \in d.acts}

FunctionsAllowed(cl, funs) ==
    LET cost == \E f \in funs : f[1].nm = "total-cost"
        other == \E f \in funs : f[1].nm # "total-cost"
    IN (cost => Allows(cl, "cost")) /\ (other => Allows(cl, "fluents"))

\* d.types may still be raw here (explicit root)
ValidDomain(d) ==
    LET cl == Closure(d.reqs)
    IN /\ HasHierarchy(d.types) => Allows(cl, "typing")
       /\ RootHasNoParent(d.types)
       /\ Acyclic(d.types)
       /\ LET tags == TLCEval(DomainTags(d))
          IN tags # {} => Allows(cl, "typing") /\ tags \subseteq Available(d.types)
       /\ FunctionsAllowed(cl, d.funs)
NormDomain(d) == [d EXCEPT !.types = NormHier(@)]

SecRank(x) == CASE Hd(x) = ":requirements" -> 1 [] Hd(x) = ":types" -> 2 [] Hd(x) = ":constants" -> 3
                [] Hd(x) = ":predicates" -> 4 [] Hd(x) = ":functions" -> 5
                [] Hd(x) \in {":action", ":derived"} -> 6 [] OTHER -> 0
Sec(body, h) == LET is == {i \in DOMAIN body : Hd(body[i]) = h}
                IN IF is = {} THEN <<>> ELSE Args(body[CHOOSE i \in is : TRUE])
HasSec(body, h) == \E i \in DOMAIN body : Hd(body[i]) = h
Structures(body, h) == SelectSeq(body, LAMBDA e : Hd(e) = h)

WfHeader(x, kw) == IsL(x) /\ Len(x.l) = 2 /\ IsAtom(x.l[1], kw) /\ IsName(x.l[2])
IsFnType(x) == x.k = "n" /\ x.a = "number"
RdFuns(s) == Map(LAMBDA p : <<RdFnSkel(p[1]), p[2]>>, RdTL(s))

DomainShape(x) ==
    /\ IsL(x) /\ Len(x.l) >= 2 /\ IsAtom(x.l[1], "define") /\ WfHeader(x.l[2], "domain")
    /\ LET body == From(x.l, 3)
       IN /\ \A i \in DOMAIN body : SecRank(body[i]) > 0
          /\ \A i, j \in DOMAIN body : i < j => SecRank(body[i]) < SecRank(body[j])
                                               \/ (SecRank(body[i]) = 6 /\ SecRank(body[j]) = 6)

DomainCx(body) ==
    [reqs |-> Closure({Sec(body, ":requirements")[i].a : i \in DOMAIN Sec(body, ":requirements")}),
     consts |-> {p[1] : p \in Rng(RdNames(Sec(body, ":constants")))}, any |-> FALSE]
DomainHier(body) == LET tl == RdNames(Sec(body, ":types")) IN {<<p[1], SingleType(p[2])>> : p \in Rng(tl)}
DomainPreds(body) == Map(RdSkel, Sec(body, ":predicates"))

WfDomainParts(body) ==
    /\ HasSec(body, ":requirements") =>
          LET s == Sec(body, ":requirements") IN s # <<>> /\ \A i \in DOMAIN s : s[i].k = "w" /\ s[i].a \in ReqKeys
    /\ WfNames(Sec(body, ":types"))
    /\ WfNames(Sec(body, ":constants"))
    /\ HasSec(body, ":predicates") => Sec(body, ":predicates") # <<>> /\ All(WfSkel, Sec(body, ":predicates"))
    /\ HasSec(body, ":functions") =>
          LET s == Sec(body, ":functions")
          IN s # <<>> /\ WfTL(s, WfFnSkel, IsFnType) /\ DistinctItems(RdFuns(s))
    /\ LET cx == TLCEval(DomainCx(body)) preds == DomainPreds(body) H == NormHier(DomainHier(body))
       IN /\ All(LAMBDA e : WfAction(e, cx), Structures(body, ":action"))
          /\ All(LAMBDA e : WfDerived(e, cx, preds, H), Structures(body, ":derived"))

RdDomain(x) ==
    LET body == TLCEval(From(x.l, 3)) preds == DomainPreds(body)
    IN [nm |-> x.l[2].l[2].a,
        reqs |-> {Sec(body, ":requirements")[i].a : i \in DOMAIN Sec(body, ":requirements")},
        types |-> DomainHier(body),
        consts |-> {<<p[1], SingleType(p[2])>> : p \in Rng(RdNames(Sec(body, ":constants")))},
        preds |-> Rng(preds),
        funs |-> {<<p[1], SingleType(p[2])>> : p \in Rng(RdFuns(Sec(body, ":functions")))},
        dps |-> Rng(Map(LAMBDA e : RdDerived(e, preds), Structures(body, ":derived"))),
        acts |-> Rng(Map(RdAction, Structures(body, ":action")))]

----------------------------------------------------------------------------
(* Problems.  Value: [nm, dom, reqs, objs, init, goal, metric]. *)
GoalCx == [reqs |-> {}, consts |-> {}, any |-> TRUE]
GroundHead(x) == (IsFnName(x)) \/ (IsL(x) /\ x.l # <<>> /\ IsFnName(x.l[1]) /\ All(IsName, Args(x)))
WfGround(x) == IsL(x) /\ x.l # <<>> /\ All(IsName, x.l)
WfInit(x) ==
    CASE Hd(x) = "not" -> Len(x.l) = 2 /\ WfGround(x.l[2])
      [] Hd(x) = "=" -> Len(x.l) = 3 /\ GroundHead(x.l[2]) /\ IsNum(x.l[3])
      [] OTHER -> WfGround(x)
RdInit(x) ==
    CASE Hd(x) = "not" -> N("not", "", <<>>, {}, <<RdPred(x.l[2], NoEnv)>>)
      [] Hd(x) = "=" -> N("f=", "", <<>>, {}, <<RdHead(x.l[2], NoEnv), Num(x.l[3].a)>>)
      [] OTHER -> RdPred(x, NoEnv)

RECURSIVE WfMetric(_)
WfMetric(x) ==
    \/ IsNum(x)
    \/ GroundHead(x)
    \/ /\ IsL(x) /\ x.l # <<>> /\ x.l[1].k = "s"
       /\ LET n == Len(x.l) - 1
          IN CASE Hd(x) = "-" -> n \in {1, 2}
               [] Hd(x) = "/" -> n = 2
               [] Hd(x) \in {"+", "*"} -> n >= 2
               [] OTHER -> FALSE
       /\ All(WfMetric, Args(x))

WfProblem(x) ==
    /\ IsL(x) /\ Len(x.l) >= 5 /\ IsAtom(x.l[1], "define")
    /\ WfHeader(x.l[2], "problem") /\ WfHeader(x.l[3], ":domain")
    /\ LET body == TLCEval(From(x.l, 4))
           rank(e) == CASE Hd(e) = ":requirements" -> 1 [] Hd(e) = ":objects" -> 2 [] Hd(e) = ":init" -> 3
                        [] Hd(e) = ":goal" -> 4 [] Hd(e) = ":metric" -> 5 [] OTHER -> 0
       IN /\ \A i \in DOMAIN body : rank(body[i]) > 0
          /\ \A i, j \in DOMAIN body : i < j => rank(body[i]) < rank(body[j])
          /\ HasSec(body, ":init") /\ HasSec(body, ":goal")
          /\ HasSec(body, ":requirements") =>
                LET s == Sec(body, ":requirements") IN s # <<>> /\ \A i \in DOMAIN s : s[i].k = "w" /\ s[i].a \in ReqKeys
          /\ WfNames(Sec(body, ":objects"))
          /\ All(WfInit, Sec(body, ":init"))
          /\ Len(Sec(body, ":goal")) = 1 /\ WfGd(Sec(body, ":goal")[1], GoalCx)
          /\ HasSec(body, ":metric") =>
                LET s == Sec(body, ":metric")
                IN Len(s) = 2 /\ s[1].k = "n" /\ s[1].a \in {"minimize", "maximize"} /\ WfMetric(s[2])

RdProblem(x) ==
    LET body == TLCEval(From(x.l, 4))
    IN [nm |-> x.l[2].l[2].a, dom |-> x.l[3].l[2].a,
        reqs |-> {Sec(body, ":requirements")[i].a : i \in DOMAIN Sec(body, ":requirements")},
        objs |-> {<<p[1], SingleType(p[2])>> : p \in Rng(RdNames(Sec(body, ":objects")))},
        init |-> Rng(Map(RdInit, Sec(body, ":init"))),
        goal |-> RdGd(Sec(body, ":goal")[1], NoEnv),
        metric |-> IF HasSec(body, ":metric")
                   THEN N(Sec(body, ":metric")[1].a, "", <<>>, {}, <<RdExp(Sec(body, ":metric")[2], NoEnv)>>) ELSE None]

(* Plans.  Value: sequence of [nm, as]. *)
WfPlan(forms) == All(WfGround, forms)
RdPlan(forms) == Map(LAMBDA x : [nm |-> x.l[1].a, as |-> Map(Spelling, Args(x))], forms)

----------------------------------------------------------------------------
(* The whole reader: kind "domain", "problem" or "plan"; forms: the top-level trees of the text. *)
Rejected == [ok |-> FALSE, v |-> <<>>]
Accepted(v) == [ok |-> TRUE, v |-> v]

Read(kind, forms) ==
    CASE kind = "plan" -> IF WfPlan(forms) THEN Accepted(RdPlan(forms)) ELSE Rejected
      [] kind = "problem" -> IF Len(forms) = 1 /\ WfProblem(forms[1]) THEN Accepted(RdProblem(forms[1])) ELSE Rejected
      [] kind = "domain" ->
            IF Len(forms) = 1 /\ DomainShape(forms[1]) /\ WfDomainParts(From(forms[1].l, 3))
            THEN LET d == TLCEval(RdDomain(forms[1]))
                 IN IF ValidDomain(d) THEN Accepted(NormDomain(d)) ELSE Rejected
            ELSE Rejected

(* Texts about which the specification says nothing: (= name exp) with a bare name on the left, and a
   derived predicate whose head name is declared twice or that repeats a variable. *)
RECURSIVE BareEq(_)
BareEq(x) == IsL(x) /\ (\/ Hd(x) = "=" /\ Len(x.l) = 3 /\ x.l[2].k = "n" /\ x.l[3].k \notin {"v", "n"}
                        \/ \E i \in DOMAIN x.l : BareEq(x.l[i]))
Unspecified(kind, forms) ==
    \/ kind # "plan" /\ \E i \in DOMAIN forms : BareEq(forms[i]) /\ kind = "domain"
    \/ kind = "problem" /\ Len(forms) = 1 /\ IsL(forms[1]) /\ \E i \in DOMAIN forms[1].l :
          Hd(forms[1].l[i]) = ":goal" /\ BareEq(forms[1].l[i])
    \/ /\ kind = "domain" /\ Len(forms) = 1 /\ IsL(forms[1])
       /\ \E i \in DOMAIN forms[1].l :
             LET s == forms[1].l[i] IN
             /\ Hd(s) = ":derived" /\ Len(s.l) >= 2 /\ IsL(s.l[2]) /\ s.l[2].l # <<>>
             /\ \/ \E a, b \in DOMAIN s.l[2].l : a # b /\ s.l[2].l[a].k = "v" /\ s.l[2].l[a] = s.l[2].l[b]
                \/ \E p \in DOMAIN forms[1].l : Hd(forms[1].l[p]) = ":predicates" /\
                      LET q == forms[1].l[p].l
                      IN \E a, b \in DOMAIN q : a # b /\ Hd(q[a]) = Hd(s.l[2]) /\ Hd(q[b]) = Hd(s.l[2])
=============================================================================
