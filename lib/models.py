"""Exhaustive small-scope models (spec/MC*.tla): TLC checks their invariants and prints every case; the cases are
replayed on the real library, and the recorded traces are validated against the same specification (Conform.tla)."""
import gen
import lex
import rec
import scen
import sched
import tlc
from gen import C, V
from proj import NONE, nd
from rec import Rec

import json
import os
import random
import shutil
import tempfile

THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
MODELS = {}     # property: names of models
MODEL = {}      # name: (module, invariants, quick constants, thorough constants, bundle size, replay function, sort key, action properties)


def model(name, module, props, invs, quick=None, thorough=None, size=100, key=None, steps=()):
    def deco(f):
        for p in props:
            MODELS.setdefault(p, []).append(name)
        MODEL[name] = (module, invs, quick or {}, thorough or quick or {}, size, f, key, steps)
        return f
    return deco


def explore(m, tier, env=None):
    """(bundles of cases, states, transitions)"""
    module, invs, quick, thorough, size, _, key, steps = MODEL[m]
    consts = quick if tier == "quick" else thorough
    cfg = "SPECIFICATION Spec\n" + "".join(f"INVARIANT {i}\n" for i in invs + ["Emit"])
    cfg += "".join(f"CONSTANT {k} = {v}\n" for k, v in consts.items())
    if env is None and module == "MCSession":
        path = os.path.join(tempfile.mkdtemp(prefix="pddl-pool-"), "pool.json")
        with open(path, "w") as f:
            json.dump(pool(), f)
        try:
            return explore(m, tier, {"PDDL_POOL": path})
        finally:
            shutil.rmtree(os.path.dirname(path))
    cfg += "".join(f"PROPERTY {i}\n" for i in steps)
    code, out, gen, distinct = tlc.run(module, cfg, env)
    if code != 0:
        raise tlc.TlcError(out[-2500:])
    cases = tlc.lines(out, "@@CASE ")
    cases.sort(key=key or repr)
    world = (tlc.lines(out, "@@WORLD ") or [None])[0]
    return [{"world": world, "cases": cases[i:i + size]} for i in range(0, len(cases), size)], distinct, gen


def replay(m, bundle):
    r = Rec(m)
    f = MODEL[m][5]
    f(r, bundle["cases"]) if bundle["world"] is None else f(r, bundle["cases"], bundle["world"])
    return r


# --------------------------------------------------------------------------- C12
@model("all trees of conjunctions and disjunctions", "MCLogic", ["C12"],
       ["Flat", "Idempotent", "SameMeaning", "SameAtoms", "Regroup"],
       dict(Wide=3, Top=2, Deep="FALSE"), dict(Wide=2, Top=3, Deep="FALSE"), 150, lambda c: c["nf"])
def logic(r, bundle):
    last = 0
    for c in bundle:
        i = r.node(c["tree"])
        if i and last:
            r.cmp(last, i)
        last = i


# --------------------------------------------------------------------------- texts
def flat(t):
    if t["k"] == "l":
        out = ["("]
        for x in t["l"]:
            out += flat(x)
        return out + [")"]
    return ["?" + t["a"] if t["k"] == "v" else t["a"]]


def text(*trees):
    return " ".join(x for t in trees for x in flat(t))


# --------------------------------------------------------------------------- C13
@model("all arithmetic expressions", "MCArith", ["C13"], ["SameValue", "EveryOperandKept", "StructureKept", "ReadsBack"],
       dict(Wide=2, Top=2), dict(Wide=3, Top=2), 60)
def arith(r, bundle):
    acts, metric = [], []
    for n, c in enumerate(bundle):
        t = c["tree"]
        i = r.node(t)
        comp = t["op"] in ("f=", "<", "<=", ">", ">=")
        e = text(c["text"])
        if not comp:
            e = f"(increase (f) {e})"
        acts.append(f"(:action a{n} :parameters () :{'precondition' if comp else 'effect'} {e})")
        if not comp and n % 6 == 0:
            p = r.parse("problem", f"(define (problem p) (:domain d) (:init) (:goal (and)) (:metric maximize {text(c['text'])}))")
            if p:
                r.print(p)
        if i and not comp and n % 5 == 0:
            r.node(nd("<", ks=[t, nd("num", "0.5")]))
    d = r.parse("domain", "(define (domain d) (:requirements :numeric-fluents) (:functions (f) (g)) " + " ".join(acts) + ")")
    if d:
        r.print(d)


# --------------------------------------------------------------------------- C14
X, Y, YT, Z, K = V("x"), V("y"), V("y", ["t"]), V("z"), C("k")
IMAGES = [X, Y, K, Z]
MAPS = [[]] + [[[v, t]] for v in (X, Y) for t in IMAGES] + [[[X, s], [Y, t]] for s in IMAGES for t in IMAGES] + \
    [[[YT, K]], [[YT, Y]], [[X, YT]]]


@model("all small formulas and mappings", "MCSubst", ["C14"], ["FreeOnly", "ShapeKept", "Identity", "GroundIsFixed"],
       dict(Big="FALSE"), dict(Big="TRUE"), 25)
def subst(r, bundle):
    for c in bundle:
        i = r.node(c["tree"])
        if i:
            for m in MAPS:
                r.inst(i, m)
            r.obs(i)


# --------------------------------------------------------------------------- C08
def dom(*parts):
    return "(define (domain d) " + " ".join(parts) + ")"


def either(ts):
    return ts[0] if len(ts) == 1 else "(either " + " ".join(ts) + ")"


def typed_text(types, place, ty):
    """A domain text that uses type ty in one place."""
    head = ["(:requirements :adl :fluents :derived-predicates)", f"(:types {types})" if types else ""]
    p, q = "(p)", "(q ?x)"
    parts = {
        "constant": [f"(:constants k - {ty})"],
        "predicate": [f"(:predicates (p ?x - {ty}))"],
        "either": [f"(:predicates (p ?x - (either {ty} object)))"],
        "function": [f"(:functions (f ?x - {ty}))"],
        "derived": [f"(:predicates {q})", f"(:derived (q ?x - {ty}) (and))"],
        "condition": [f"(:predicates {p})", f"(:derived {p} (forall (?x - {ty}) (p)))"],
        "parameter": [f"(:action a :parameters (?x - {ty}))"],
        "precondition": [f"(:action a :parameters () :precondition (not (exists (?x - {ty}) (p))))"],
        "effect": [f"(:action a :parameters () :effect (and (p) (forall (?x - {ty}) (p))))"],
        "when": [f"(:action a :parameters () :effect (when (imply (p) (forall (?x - {ty}) (p))) (p)))"],
    }[place]
    return dom(*head, *parts)


PLACES = ["constant", "predicate", "either", "function", "derived", "condition", "parameter", "precondition", "effect", "when"]


def hier_text(types):
    return " ".join(f"{t} - {p}" for t, p in types if p) + " " + " ".join(t for t, p in types if not p)


@model("all type hierarchies", "MCTypes", ["C08"],
       ["AcyclicIffRanked", "UpIsPreorder", "UpIsChain", "SameAvailable", "RootNeverBelow", "Below"],
       dict(Names='{"a", "b", "c"}'), dict(Names='{"a", "b", "c", "e"}'), 6)
def types(r, bundle):
    for n, c in enumerate(bundle):
        d = {"nm": "d", "reqs": [":adl", ":fluents"], "types": c["types"], "consts": [], "preds": [], "funs": [], "dps": [], "acts": []}
        r.mkdomain(d)
        if not c["ok"]:
            r.parse("domain", typed_text(hier_text(c["types"]), "constant", "a"))
            continue
        for ty in ("a", "b", "c", "z", "object"):
            for m, place in enumerate(PLACES):
                r.parse("domain", typed_text(hier_text(c["types"]), place, ty))
            # the same through the constructor
            v = V("x", [ty])
            at = nd("pred", "p", ts=[v])
            r.mkdomain(dict(d, consts=[["k", ty]]))
            r.mkdomain(dict(d, preds=[at]))
            r.mkdomain(dict(d, funs=[[nd("fn", "f", ts=[v]), ""]]))
            r.mkdomain(dict(d, dps=[{"h": at, "c": nd("and")}]))
            q = nd("exists", vs=[v], ks=[nd("pred", "q")])
            r.mkdomain(dict(d, dps=[{"h": nd("pred", "p"), "c": q}]))
            r.mkdomain(dict(d, acts=[{"nm": "a", "ps": [v], "pre": NONE, "eff": NONE}]))
            r.mkdomain(dict(d, acts=[{"nm": "a", "ps": [], "pre": nd("not", ks=[q]), "eff": NONE}]))
            r.mkdomain(dict(d, acts=[{"nm": "a", "ps": [], "pre": NONE, "eff": nd("eforall", vs=[v], ks=[nd("pred", "q")])}]))


# --------------------------------------------------------------------------- C09
def list_places(v, n):
    """Texts with a typed list: v of variables, n of names; placed in every construct that has one."""
    h = "(:requirements :adl :fluents :derived-predicates) (:types t u)"
    at = "(p ?#)"
    return [
        ("types", "domain", f"(define (domain d) (:requirements :typing) (:types {n}))"),
        ("constants", "domain", dom(h, f"(:constants {n})")),
        ("objects", "problem", f"(define (problem p) (:domain d) (:objects {n}) (:init) (:goal (and)))"),
        ("predicate", "domain", dom(h, f"(:predicates (q) (p {v}))")),
        ("function", "domain", dom(h, f"(:functions (f {v}) - number)")),
        ("parameters", "domain", dom(h, f"(:action a :parameters ({v}) :precondition {at})")),
        ("quantifier", "domain", dom(h, f"(:action a :parameters () :precondition (exists ({v}) {at}))")),
        ("effect", "domain", dom(h, f"(:action a :parameters () :effect (forall ({v}) {at}))")),
        ("goal", "problem", f"(define (problem p) (:domain d) (:init) (:goal (forall ({v}) {at})))"),
        ("derived", "domain", dom(h, "(:predicates (p ?x ?y))", f"(:derived (p {v}) (and))")),
    ]


@model("all short typed lists", "MCTypedList", ["C09"], ["SameReading", "EveryItemOnce", "SameLanguage"],
       dict(MaxLen=5), dict(MaxLen=6), 80)
def typed_list(r, bundle):
    quick = len(bundle) == 80 and not THOROUGH
    for n, c in enumerate(bundle):
        toks = [x for t in c["list"] for x in flat(t)]
        v = " ".join({"#": "?#", "%": "?%"}.get(x, x) for x in toks)
        names = " ".join(toks)
        ps = list_places(v, names)
        if quick and not c["ok"] and len(c["list"]) > 4:
            ps = [ps[(n + i) % len(ps)] for i in (0, 3)]
        for _, kind, t in ps:
            r.parse(kind, t.replace("#", "a").replace("%", "b"))


# --------------------------------------------------------------------------- C07
P3 = "(:constants c) (:predicates (p) (q) (r ?a))"
ACT = "(:action a :parameters (?x) :precondition %s)"
EFF = "(:action a :parameters (?x) :effect %s)"
REQ_TEXTS = [P3 + " " + x for x in (
    ACT % "(and (p) (or (q) (r c)))", ACT % "(imply (p) (q))", ACT % "(not (forall (?y) (r ?y)))", ACT % "(exists (?y) (and (r ?y)))",
    ACT % "(and (= c ?x))", ACT % "(not (p))", EFF % "(oneof (p) (q))", EFF % "(forall (?z) (when (or (p)) (q)))",
    EFF % "(when (= ?x ?x) (q))", EFF % "(and (p) (forall (?y) (oneof (p) (not (q)))))", EFF % "(increase (total-cost) 1)",
    ACT % "(> (f c) 2)", "(:derived (p) (exists (?y) (r ?y)))", "(:derived (p) (or (q) (q)))", "(:derived (r ?z) (q))",
    EFF % "(when (forall (?y) (imply (r ?y) (p))) (not (p)))")] + [
    "(:types t - s)", "(:types t - object)", "(:types t s)", "(:types t) (:predicates (p ?x - t))", "(:types t) (:constants c - t)",
    "(:predicates (p ?x - object))", "(:functions (f))", "(:functions (f ?x) - number)", "(:functions (total-cost))",
    "(:functions (total-cost) - number (f) - number)", "(:types t) (:action a :parameters (?x - t))",
    "(:action a :parameters () :precondition (and) :effect (and))"]


@model("all small sets of requirements", "MCReq", ["C07"],
       ["Extensive", "Idempotent", "Monotone", "MoreIsAllowed", "Additive", "NeedsSome"], dict(Max=2), dict(Max=4), 5)
def requirements(r, bundle):
    for c in bundle:
        reqs = f"(:requirements {' '.join(c['reqs'])})" if c["reqs"] else ""
        for t in REQ_TEXTS:
            r.parse("domain", dom(reqs, t))
        d = {"nm": "d", "reqs": c["reqs"], "types": [], "consts": [], "preds": [], "funs": [], "dps": [], "acts": []}
        r.mkdomain(dict(d, types=[["t", "s"]]))
        r.mkdomain(dict(d, types=[["t", ""]], preds=[nd("pred", "p", ts=[V("x", ["t"])])]))
        r.mkdomain(dict(d, funs=[[nd("fn", "f"), "number"]]))
        r.mkdomain(dict(d, funs=[[nd("fn", "total-cost"), ""]]))
        r.mkdomain(dict(d, funs=[[nd("fn", "total-cost"), ""], [nd("fn", "g"), "number"]]))


# --------------------------------------------------------------------------- C11
def scope_texts(c):
    ps, t = text(*c["params"]), text(c["text"])
    h = "(:requirements :adl :derived-predicates) (:types t s)"
    if set(c["path"]) <= {"forall", "exists"}:
        yield "domain", dom(h, f"(:action a :parameters ({ps}) :precondition {t} :effect (when {t} (q ?x ?y)))")
        yield "domain", dom(h, f"(:predicates (d {ps}))", f"(:derived (d {ps}) {t})",
                            f"(:action a :parameters (?x - s) :effect (forall (?y - t) (when {t} (q ?x ?y))))", f"(:derived (d {ps}) {t})")
        if not c["params"]:
            yield "problem", f"(define (problem p) (:domain d) (:init) (:goal {t}))"


@model("all nestings of binders", "MCScope", ["C11"], ["InnermostBinder", "Closed"],
       dict(Depth=2, Ops='{"forall", "exists"}'), dict(Depth=3, Ops='{"forall", "exists"}'), 40)
def scope(r, bundle):
    for c in bundle:
        for k, t in scope_texts(c):
            r.parse(k, t)


@model("all nestings of universal effects", "MCScope", ["C11"], ["InnermostBinder", "Closed"],
       dict(Depth=3, Ops='{"eforall"}'), dict(Depth=3, Ops='{"eforall"}'), 100)
def effect_scope(r, bundle):
    h = "(:requirements :adl) (:types t s)"
    for c in bundle:
        e = text(c["text"])
        r.parse("domain", dom(h, f"(:action a :parameters ({text(*c['params'])}) :precondition (q ?x ?y) :effect {e})"))


# --------------------------------------------------------------------------- C24
@model("all declared and derived parameter types", "MCDerived", ["C24"], ["AcceptedIffFits", "UntypedInherits", "OwnTypeKept"],
       dict(Names='{"a", "b", "c"}'), dict(Names='{"a", "b", "c", "e"}'), 20)
def derived(r, bundle):
    for c in bundle:
        for t in c["texts"]:
            r.parse("domain", text(t))


# --------------------------------------------------------------------------- C17
@model("all lifecycles of a problem", "MCLifecycle", ["C17"],
       ["AttachedFits", "ViewIsAttached", "ContentsFixed", "OwnRequirementsFixed", "AttachChecks", "AttachIdempotent", "LastWins"],
       dict(Depth=2), dict(Depth=3), 60, steps=["NeverDetached"])
def lifecycle(r, cases, world):
    doms = {k: r.mkdomain(d) for k, d in sorted(world["domains"].items())}
    for c in cases:
        h = c["how"]
        i = r.mkproblem(world["problems"][h["p"]], dom=doms[h["d"]] if h["d"] else None, name=h["name"], reqs=h["reqs"])
        if not i:
            continue
        for op, d in c["hist"]:
            (r.attach if op == "attach" else r.check)(i, doms[d])
            r.obs(i)
    for d in doms.values():
        r.obs(d)


@model("all lifecycles of a parsed problem", "MCLifecycle", ["C17"], ["AttachedFits", "ViewIsAttached"], dict(Depth=2), dict(Depth=3), 400)
def parsed_lifecycle(r, cases, world):
    """The histories of problems built with a name and requirements, on the text of the problem."""
    import build
    doms = {k: r.mkdomain(d) for k, d in sorted(world["domains"].items())}
    texts = {k: str(build.problem(p)) for k, p in world["problems"].items()}
    for c in cases:
        h = c["how"]
        if h["d"] or not h["name"] or not h["reqs"]:
            continue
        i = r.parse("problem", texts[h["p"]])
        for op, d in c["hist"]:
            (r.attach if op == "attach" else r.check)(i, doms[d])
            r.obs(i)


# --------------------------------------------------------------------------- C15 C16
PLAN_INVS = ["PrefixClosed", "StepwiseFit", "FitsGround", "OneActionPerStep", "Grounded", "SchemasKept"]


@model("all short plans, checked", "MCPlan", ["C15"], PLAN_INVS, dict(Steps=2, MaxArgs=2), dict(Steps=2, MaxArgs=3), 60)
def check_plan(r, cases, world):
    d, p = r.mkdomain(world["domain"]), r.mkproblem(world["problem"])
    for n, c in enumerate(cases):
        q = r.mkplan(c) if n % 3 else r.parse("plan", plan_text(c))
        r.plancheck(q, d, p)
    r.obs(d)
    r.obs(p)


@model("all short plans, instantiated", "MCPlan", ["C16"], PLAN_INVS, dict(Steps=2, MaxArgs=2), dict(Steps=2, MaxArgs=3), 60)
def ground_plan(r, cases, world):
    d = r.mkdomain(world["domain"])
    for n, c in enumerate(cases):
        q = r.mkplan(c) if n % 3 else r.parse("plan", plan_text(c))
        r.planinst(q, d)
    r.obs(d)


def plan_text(steps):
    return "".join("(" + " ".join([s["nm"]] + s["as"]) + ")\n" for s in steps)


# --------------------------------------------------------------------------- C22
@model("all combinations of files on the command line", "MCCli", ["C22"], ["ShownAtMost", "Prefix", "MissingFails", "EachReadable"],
       dict(Many="FALSE"), dict(Many="TRUE"), 40)
def command_line(r, cases, world):
    tmp = tempfile.mkdtemp(prefix="pddl-cli-")
    try:
        texts = {}
        for kind, fs in world.items():
            for k, f in fs.items():
                texts[kind, k] = text(*f["forms"])
                if f["there"]:
                    with open(os.path.join(tmp, f"{kind}-{k}"), "w") as g:
                        g.write(texts[kind, k])
        for c in cases:
            ids = list(zip(["domain", "problem", "plan"], c["ids"]))
            scen.cli_case(r, [os.path.join(tmp, f"{kind}-{k}") for kind, k in ids], [texts[i] for i in ids], c["quiet"], tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# --------------------------------------------------------------------------- C10
def word(s):
    return lex.read(s) == (True, [lex.atom("n", s)])


LEX_INVS = ["WordAutomaton", "ReservedEverywhere", "Exemptions", "WiderContext", "Prefixed"]


@model("all short names through the API", "MCLexicon", ["C10"], LEX_INVS, dict(MaxLen=2), dict(MaxLen=3), 25)
def api_names(r, cases):
    sites = scen.name_sites()
    for c in cases:
        for ctx, what, fn in sites:
            if c["s"] != "" or "parent" not in what:
                scen.use_name(r, ctx, what, fn, c["s"])


@model("all short names in texts", "MCLexicon", ["C10"], LEX_INVS, dict(MaxLen=1), dict(MaxLen=3), 25)
def text_names(r, cases):
    import random
    rng = random.Random(0)
    for c in cases:
        if word(c["s"]):
            for where in scen.NAME_PLACES:
                kind, sx = scen.name_tree(rng, where, c["s"])
                r.parse(kind, " ".join(" ".join(gen.flat(t)) for t in (sx if kind == "plan" else [sx])))


# --------------------------------------------------------------------------- C03
@model("all short token sequences as plans", "MCPlanText", ["C03"], ["SameLanguage", "InOrder", "WrittenBack"], dict(MaxLen=5), dict(MaxLen=6), 100)
def plan_texts(r, cases):
    for c in cases:
        i = r.parse("plan", " ".join(c))
        if i:
            t = r.print(i)
            j = r.parse("plan", t) if t is not None else 0
            if j:
                r.cmp(i, j)


# --------------------------------------------------------------------------- C01 C02 C04 C05 C21
FORM_INVS = ["ReadAsWritten", "ReadBack", "Tokens", "NotBoth"]
HEAD = "(:requirements :adl :fluents :non-deterministic :action-costs) (:types t s) (:constants k - t)"
FORM_DOMAIN = {"nm": "d", "reqs": [":adl", ":fluents", ":non-deterministic", ":action-costs"], "types": [["t", ""], ["s", ""]],
               "consts": [["k", "t"]], "preds": [], "funs": [], "dps": [], "acts": []}
FORM_PROBLEM = {"nm": "p", "dom": "d", "reqs": [], "objs": [["a", ""]], "init": [], "goal": nd("and"), "metric": NONE}
TAGS = {"x": ["t"], "y": []}


def round_trip(r, i, again=True):
    """Print i, parse the text, compare."""
    kind = r.kinds[i]
    t = r.print(i)
    j = r.parse(kind, t) if t is not None else 0
    if j:
        r.cmp(i, j)
        if again:
            r.print(j)
    return j


def _forms(kind, part):
    def texts(r, cases):
        for i in range(0, len(cases), 6):
            r.parse("domain", dom(HEAD, *[f"(:action a{n} :parameters (?x - t ?y) :{part} {text(c['text'])})" for n, c in enumerate(cases[i:i + 6])]))

    def built(r, cases):
        for i in range(0, len(cases), 6):
            d = r.mkdomain(dict(FORM_DOMAIN, acts=[
                {"nm": f"a{n}", "ps": [V("x", ["t"]), V("y")], "pre": c["tree"] if kind == "cond" else NONE, "eff": c["tree"] if kind == "eff" else NONE}
                for n, c in enumerate(cases[i:i + 6])]))
            if d:
                round_trip(r, d, False)
    model(f"all small {part}s, as texts", "MCFormula", ["C04"], FORM_INVS, dict(Kind=f'"{kind}"', Big="FALSE"), dict(Kind=f'"{kind}"', Big="TRUE"), 60)(texts)
    model(f"all small {part}s, built and printed", "MCFormula", ["C01"], FORM_INVS, dict(Kind=f'"{kind}"', Big="FALSE"), dict(Kind=f'"{kind}"', Big="TRUE"), 60)(built)


_forms("cond", "precondition")
_forms("eff", "effect")


@model("all small goals, as texts", "MCFormula", ["C05"], FORM_INVS, dict(Kind='"goal"', Big="FALSE"), dict(Kind='"goal"', Big="TRUE"), 40)
def goal_texts(r, cases):
    for c in cases:
        r.parse("problem", f"(define (problem p) (:domain d) (:init) (:goal {text(c['text'])}))")


@model("all small goals, built and printed", "MCFormula", ["C02"], FORM_INVS, dict(Kind='"goal"', Big="FALSE"), dict(Kind='"goal"', Big="TRUE"), 30)
def goals(r, cases):
    for c in cases:
        i = r.mkproblem(dict(FORM_PROBLEM, goal=c["tree"]))
        if i:
            round_trip(r, i, False)


DOM_INVS = ["RoundTrip", "TokenTrip", "NoBackDoor", "Gated", "SpecifiedText"]
PRB_INVS = ["RoundTrip", "AsWritten", "TokenTrip", "SpecifiedText"]


@model("all small domains, built and printed", "MCDomain", ["C01"], DOM_INVS, dict(Vary=2), dict(Vary=3), 12)
def domains(r, cases):
    for c in cases:
        i = r.mkdomain(c["d"])
        if i and c["ok"]:
            j = round_trip(r, i)
            if j:
                r.obs(i)


@model("all small domains, as texts", "MCDomain", ["C04"], DOM_INVS, dict(Vary=2), dict(Vary=3), 30)
def domain_texts(r, cases):
    for c in cases:
        r.parse("domain", text(*c["text"]))


@model("all small problems, built and printed", "MCProblem", ["C02"], PRB_INVS, dict(Vary=2), dict(Vary=3), 12)
def problems(r, cases):
    for c in cases:
        i = r.mkproblem(c["p"])
        if i:
            round_trip(r, i)


@model("all small problems, as texts", "MCProblem", ["C05"], PRB_INVS, dict(Vary=2), dict(Vary=3), 30)
def problem_texts(r, cases):
    for c in cases:
        r.parse("problem", text(*c["text"]))


def _texts(name, module, invs, make, key):
    def f(r, cases):
        """Equal values built in different orders, and parsed, have one text."""
        import random
        for n, c in enumerate(cases):
            ids = [make(r, c[key], random.Random(m)) for m in range(3)] + [r.parse("domain" if key == "d" else "problem", text(*c["text"]))]
            ids = [i for i in ids if i]
            if len(ids) > 1:
                scen.record_texts(r, ids, (101 + n % 3,), c[key])
    model(name, module, ["C21"], invs, dict(Vary=2), dict(Vary=3), 12)(f)


_texts("all small domains, printed", "MCDomain", DOM_INVS, lambda r, j, rng: r.mkdomain(j, rng=rng), "d")
_texts("all small problems, printed", "MCProblem", PRB_INVS, lambda r, j, rng: r.mkproblem(j, rng=rng), "p")


# --------------------------------------------------------------------------- C06
EDIT_INVS = ["StartAccepted", "Unbalanced", "Verdict", "Rewritten", "OneKind", "FlatBack"]


def _edits(which):
    kind = {"d": "domain", "p": "plan" if which == "plA" else "problem"}[which[0]]

    def f(r, cases):
        for c in cases:
            r.parse(kind, " ".join({"v": "?"}.get(t[0], "") + t[1:] for t in c))
    model(f"all edits of one token of text {which}", "MCEdit", ["C06"], EDIT_INVS, dict(Which=f'"{which}"', Edits=1, Wide="FALSE"),
          dict(Which=f'"{which}"', Edits=2 if which == "plA" else 1, Wide="TRUE"), 60)(f)


for _w in ("domA", "domB", "domC", "prA", "plA"):
    _edits(_w)


# --------------------------------------------------------------------------- C18
def pool():
    out = []
    for kind, ts in scen.LEAKY.items():
        for t in ts:
            ok, forms = lex.read(t)
            out.append({"kind": kind, "lex": ok, "forms": forms})
    return out


def sessions(r, cases):
    for c in cases:
        p = rec.PARSERS[c["kind"]]() if len(c["hist"]) < 3 else rec.parser(c["kind"])
        first = r.next
        for i in c["hist"]:
            r.parse(c["kind"], scen.LEAKY[c["kind"]][i - 1], p)
        for i in range(first, r.next):
            r.obs(i)


for _k in ("domain", "problem", "plan"):
    model(f"all sequences of {_k} texts on one parser", "MCSession", ["C18"], ["SameTextSameResult", "ResultIsMeaning", "PoolVaried"],
          dict(Depth=2, Kind=f'"{_k}"'), dict(Depth=3, Kind=f'"{_k}"'), 8)(sessions)


# --------------------------------------------------------------------------- C23
@model("all histories of a caller", "MCHeap", ["C23"], ["DomainsFixed", "ContentsFixed"], dict(Depth=2), dict(Depth=3), 20, steps=["Isolated"])
def heap(r, cases, world):
    import random
    import build
    for n, hist in enumerate(cases):
        rng = random.Random(n)
        r = r if n == 0 else r.fresh()
        d1, p0 = world["d1"], world["problem"]
        kw, kp = build.domain_kwargs(d1), build.problem_kwargs(p0)
        cs = {"requirements": [kw, "requirements"], "types": [kw, "types"], "constants": [kw, "constants"], "predicates": [kw, "predicates"],
              "actions": [kw, "actions"], "objects": [kp, "objects"], "init": [kp, "init"]}
        for c, (k, f) in cs.items():
            if f != "types":
                k[f] = scen.as_coll(rng, k[f])
        coll = {c: k[f] for c, (k, f) in cs.items()}
        d = r.mkdomain(d1, kw=dict(kw))
        e = r.mkdomain(world["d2"])
        p = r.mkproblem(p0, kw=dict(kp))
        steps = [(s["nm"], [build.Constant(a) for a in s["as"]]) for s in world["plan"]]
        coll["steps"] = steps
        q = r.produce({"op": "mkplan", "arg": world["plan"]}, "plan", lambda: build.Plan(steps), {"Plan": world["plan"]})
        if not (d and e and p and q):
            continue
        for op in hist:
            if op.startswith("spoil "):
                scen.spoil(rng, coll[op[6:]])
                if op == "spoil steps" and steps:
                    scen.spoil(rng, steps[0][1])
            elif op.startswith("attach"):
                r.attach(p, [d, e][int(op[-1]) - 1])
            elif op == "print":
                [r.print(i) for i in (d, p, q)]
            elif op == "check":
                r.check(p, d)
            elif op == "plan check":
                r.plancheck(q, d, p)
            elif op == "plan instantiate":
                r.planinst(q, d)
            elif op == "compare":
                r.cmp(d, e)
                r.cmp(p, p)
            else:
                rec.guarded(lambda: use(op, r.objs))
            for i in (d, e, p, q):
                r.obs(i)


def use(op, objs):
    import copy
    for o in objs.values():
        if op == "hash":
            try:
                hash(o)
            except TypeError:
                pass
        elif op == "repr":
            repr(o)
        elif op == "copy":
            copy.copy(o), copy.deepcopy(o)
        else:
            for k in dir(type(o)):
                if isinstance(getattr(type(o), k), property):
                    try:
                        getattr(o, k)
                    except Exception:
                        pass
            if op == "schema" and hasattr(o, "actions"):
                for a in o.actions:
                    if hasattr(a, "instantiate") and len(a.parameters):
                        a.instantiate([a.parameters[0].__class__("other")] * len(a.parameters))


# --------------------------------------------------------------------------- C19 C20
@model("all pairs of small values", "MCIdentity", ["C19"], ["Normal"], dict(Big="FALSE"), None, 1000)
def pairs(r, cases):
    ids = [r.node(c) for c in cases]
    again = [r.node(c) for c in cases]
    for i in ids:
        for j in again:
            if i and j:
                r.cmp(i, j)


@model("all histories of a value", "MCIdentity", ["C20"], ["Normal"], dict(Big="FALSE"), None, 4)
def copying(r, cases):
    """Every sequence of three operations on every value, with all results compared with a fresh equal value."""
    import copy
    import itertools
    import pickle
    import build
    ops = {"hash": lambda o: hash(o) and None, "copy": copy.copy, "deepcopy": copy.deepcopy, "repr": lambda o: repr(o) and None,
           "pickle": lambda o: pickle.loads(pickle.dumps(o))}
    for c in cases:
        i = r.node(c)
        if not i:
            continue
        for seq in itertools.product(ops, repeat=3):
            o, k = build.node(c), 0
            for op in seq:
                out, x = rec.guarded(lambda: ops[op](o))
                if out != "ok":
                    r.flag(False, f"copy: {op} fails", exception=repr(x)[:200])
                    break
                if x is not None and op not in ("hash", "repr"):
                    o = x
            else:
                scen.record_copy(r, i, o, list(seq))
                r.cmp(i, r.next - 1)


# --------------------------------------------------------------------------- C25
@model("all short lists of names and applications of symbols", "MCNotation", ["C25"],
       ["Spelled", "NoBlanks", "OnePerWord", "AppliedAsBuilt", "ItselfAgain"], dict(MaxLen=3, MaxTerms=2), dict(MaxLen=5, MaxTerms=3), 60)
def notation(r, cases):
    for c in cases:
        if c["op"] in ("v", "c"):
            r.listed(c["op"], c["s"], c["tys"])
        elif c["op"] == "retype":
            i = r.term(c["ts"][0])
            r.retype(i, c["tys"])
            r.obs(i)
        else:
            i = r.symbol(c["op"], "p", c["ts"])
            if i:
                r.apply(i, c["ts"], c["args"])
                r.obs(i)


# --------------------------------------------------------------------------- C14 C16: meaning
SEM_INVS = ["SameSuccessors", "NothingFree", "Settled"]


def meaning(r, cases):
    acts = [{"nm": "act%d" % n, "ps": [V("x", ["t"]), V("y")], "pre": c["pre"], "eff": c["eff"]} for n, c in enumerate(cases)]
    d = r.mkdomain({"nm": "d", "reqs": [":adl", ":fluents", ":non-deterministic"], "types": [["t", ""]], "consts": [["a", "t"], ["b", ""]],
                    "preds": [], "funs": [], "dps": [], "acts": acts})
    for a in acts:
        i = r.mkaction(a)
        if i:
            for args in (["a", "b"], ["b", "b"], ["b", "a"]):
                r.ground(i, [C(o) for o in args])
            r.obs(i)
    q = r.mkplan([{"nm": a["nm"], "as": [o, u]} for a in acts for o in "ab" for u in "ab"])
    if d and q:
        r.planinst(q, d)
        r.obs(d)


model("conditions of actions and their meaning", "MCSemantics", ["C14", "C16"], SEM_INVS,
      dict(Cond='"all"', Eff='"few"', Full="FALSE"), dict(Cond='"all"', Eff='"few"', Full="TRUE"), 30)(meaning)
model("effects of actions and their meaning", "MCSemantics", ["C14", "C16"], SEM_INVS,
      dict(Cond='"few"', Eff='"all"', Full="FALSE"), dict(Cond='"few"', Eff='"all"', Full="TRUE"), 30)(meaning)


# --------------------------------------------------------------------------- C27
_half = {}


def half_way(kind, text):
    """Calls into the library until about the middle of parsing a text."""
    if (kind, text) not in _half:
        s = sched.Sched([lambda: rec.parser(kind)(text)], [])
        s.run()
        _half[kind, text] = max(1, s.calls[0] // 2)
    return _half[kind, text]


@model("all interleavings of parsers in threads", "MCThreads", ["C27"], ["LimitRestored", "LimitZero"],
       dict(N=3, Bases='{"unset", "7"}'), dict(N=4, Bases='{"unset", "7"}'), 12, steps=["Ends"])
def threads(r, bundle):
    for c in bundle:
        n = len(c["hist"]) // 2
        pick = random.Random(repr(c))
        jobs = []
        for t in range(n):
            kind = pick.choice(["domain", "domain", "problem", "plan"])
            jobs.append((kind, pick.choice(scen.LEAKY[kind])))
        turns = [(t - 1, half_way(*jobs[t - 1]) if a == "enter" else 10 ** 9) for t, a in c["hist"]]
        ops = [[lambda t=t, j=j: r.parse(j[0], j[1], rec.own_parser(t, j[0]))] for t, j in enumerate(jobs)]
        val = rec.with_limit(c["base"], lambda: r.parallel(ops, turns))
        r.add({"op": "limit", "running": 0, "base": c["base"], "val": val}, {"schedule": c["hist"], "traceback limit": [c["base"], val]})


MEMO_VALUES = [nd("pred", "p", [V("x", ["t"]), C("a")]), nd("fn", "f", [V("x")]),
               nd("forall", vs=[V("x")], ks=[nd("pred", "p", [V("x")])]), nd("not", ks=[nd("eq", ts=[V("x"), V("y")])])]
_steps = {}


def instructions(j, before, op):
    """Instructions of the library in one operation on a new value."""
    key = (json.dumps(j), before, op)
    if key not in _steps:
        r = Rec("")
        i = r.node(j)
        if before == "hash":
            r.hash(i)
        r.parallel([[lambda: (r.hash(i) if op == "hash" else r.copy(i, op))]], [], True)
        _steps[key] = r.calls[0]
    return _steps[key]


@model("all interleavings of threads that hash and copy a value", "MCMemo", ["C27"], ["HashIsThere", "Right"],
       dict(N=2), dict(N=3), 60, steps=["Ends", "NeverLost"])
def memo(r, bundle):
    for c in bundle:
        pick = random.Random(repr(c))
        j = pick.choice(MEMO_VALUES)
        i = r.node(j)
        if not i:
            continue
        if c["before"] == "hash":
            r.hash(i)
        ops = [o if o == "hash" else pick.choice(["copy", "deepcopy", "pickle2", "pickle4"]) for o in c["ops"]]
        n = [max(1, instructions(j, c["before"], o)) for o in ops]
        of = [c["hist"].count(t + 1) for t in range(len(ops))]
        at, turns = [0] * len(ops), []
        for t in c["hist"]:
            t -= 1
            at[t] += 1
            turns.append((t, n[t] * at[t] // of[t] - n[t] * (at[t] - 1) // of[t]))
        k = r.next
        r.parallel([[lambda o=o: (r.hash(i) if o == "hash" else r.copy(i, o))] for o in ops], turns, True)
        f = r.node(j)
        for x in range(k, f):
            r.cmp(x, f)
        r.cmp(i, f)
