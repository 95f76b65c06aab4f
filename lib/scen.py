"""Scenarios: for every property, the kinds of sessions that are recorded from the real library."""
import base64
import copy
import functools
import json
import math
import os
import pickle
import random
import re
import shutil
import subprocess
import sys
import tempfile

import build
import gen
import lex
import proj
import rec
import sched
from gen import C, Gen, Layout, NONE, V, Writer, clone, flat, mutate, nd
from rec import Rec

SCEN = {}
REPO = os.environ.get("PDDL_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))


def scenario(*props, weight=1):
    def deco(f):
        for p in props:
            SCEN.setdefault(p, []).append((f, weight))
        return f
    return deco


# --------------------------------------------------------------------------- helpers
def text_of(rng, sx, style=None):
    return Layout(rng, style).text(flat(sx))


def plan_text(rng, steps, style=None):
    toks = []
    for s in Writer(rng).plan(steps):
        toks += flat(s)
    return Layout(rng, style).text(toks)


def gens(rng, **kw):
    kw.setdefault("fancy", rng.choice([0, 0.3, 0.6]))
    kw.setdefault("size", rng.choice([0.4, 1, 1, 1.5]))
    kw.setdefault("depth", rng.choice([1, 2, 3]))
    return Gen(rng, **kw)


def full(g):
    """A domain with every construct available."""
    return [":adl", ":fluents", ":non-deterministic", ":derived-predicates", ":action-costs"]


_fx = {}


def fixtures(kind):
    """Paths of the example files of the repository (there may be none)."""
    if kind not in _fx:
        out = []
        for base, _, names in os.walk(os.path.join(REPO, "tests", "fixtures")):
            for n in sorted(names):
                p = os.path.join(base, n)
                if n.endswith(".pddl") and os.path.getsize(p) < 16000:
                    k = "domain" if n.startswith("domain") else "plan" if "plan" in n else "problem"
                    if k == kind:
                        out.append(p)
        _fx[kind] = sorted(out)
    return _fx[kind]


def fixture(rng, kind):
    fs = fixtures(kind)
    if not fs:
        return None
    with open(rng.choice(fs), encoding="utf8", errors="replace") as f:
        return f.read()


def roundtrip(r, a, kind, attach=None):
    """Print object a, parse the text, compare, print again."""
    if not a:
        return None
    t = r.print(a)
    if t is None:
        return None
    b = r.parse(kind, t)
    if b:
        if attach:
            r.attach(b, attach)
        r.cmp(a, b)
        t2 = r.print(b)
        r.flag(t2 == t, "print: printing the parsed text gives another text", first=t, second=t2)
    r.obs(a)
    return b


# --------------------------------------------------------------------------- C01 C02 C03: round trips
@scenario("C01", weight=2)
def print_parsed_domain(rng):
    r = Rec("parse, print, parse, print a domain")
    roundtrip(r, r.parse("domain", text_of(rng, Writer(rng).domain(gens(rng).domain()))), "domain")
    return r


@scenario("C01", weight=2)
def print_built_domain(rng):
    r = Rec("build, print, parse, print a domain")
    roundtrip(r, r.mkdomain(gens(rng).domain(), rng), "domain")
    return r


@scenario("C01")
def print_rebuilt_domain(rng):
    """Parse, take the parts out, build again from the parts."""
    r = Rec("parse a domain, rebuild it from its parts, print")
    a = r.parse("domain", text_of(rng, Writer(rng).domain(gens(rng).domain())))
    if a:
        d = r.objs[a]
        kw = dict(name=d.name, requirements=d.requirements, types=d.types, constants=d.constants, predicates=d.predicates,
                  derived_predicates=d.derived_predicates, functions=d.functions, actions=d.actions)
        b = r.mkdomain(proj.domain(d), kw=kw)
        if b:
            r.cmp(a, b)
            roundtrip(r, b, "domain")
    return r


@scenario("C01", "C04")
def example_domain(rng):
    r = Rec("example domain")
    t = fixture(rng, "domain")
    if t is not None:
        roundtrip(r, r.parse("domain", t), "domain")
    return r


@scenario("C02", weight=2)
def print_parsed_problem(rng):
    r = Rec("parse, print, parse, print a problem")
    g = gens(rng)
    d = g.domain()
    roundtrip(r, r.parse("problem", text_of(rng, Writer(rng).problem(g.problem(d)))), "problem")
    return r


@scenario("C02", weight=2)
def print_built_problem(rng):
    r = Rec("build, print, parse, print a problem")
    g = gens(rng)
    d = g.domain()
    p = g.problem(d)
    roundtrip(r, r.mkproblem(p, rng=rng, reqs=rng.random() < 0.8), "problem")
    return r


@scenario("C02", weight=2)
def print_attached_problem(rng):
    r = Rec("attach a problem to its domain, print, parse, attach, print")
    g = gens(rng)
    d = g.domain()
    p = g.problem(d)
    a = r.mkdomain(d, rng) if rng.random() < 0.5 else r.parse("domain", text_of(rng, Writer(rng).domain(d)))
    if not a:
        return r
    x = rng.random()
    if x < 0.3:
        b = r.mkproblem(p, dom=a, name=rng.random() < 0.5, reqs=False, rng=rng)
    else:
        b = r.mkproblem(p, rng=rng) if x < 0.6 else r.parse("problem", text_of(rng, Writer(rng).problem(p)))
        if b:
            r.attach(b, a)
    if b:
        roundtrip(r, b, "problem", attach=a)
    return r


@scenario("C02", "C05")
def example_problem(rng):
    r = Rec("example problem")
    t = fixture(rng, "problem")
    if t is not None:
        roundtrip(r, r.parse("problem", t), "problem")
    return r


@scenario("C03", weight=2)
def parsed_plan(rng):
    r = Rec("parse a plan in two layouts, print, parse")
    g = gens(rng)
    steps = g.plan(n=rng.choice([None, None, 0, 1, 12]))
    a = r.parse("plan", plan_text(rng, steps))
    b = r.parse("plan", plan_text(rng, steps))
    if a and b:
        r.cmp(a, b)
    roundtrip(r, a, "plan")
    return r


@scenario("C03", weight=2)
def built_plan(rng):
    r = Rec("build a plan, print, parse")
    steps = gens(rng).plan(n=rng.choice([None, None, 0, 1, 12]))
    roundtrip(r, r.mkplan(steps), "plan")
    return r


@scenario("C03")
def typed_plan(rng):
    """Arguments that carry types, and objects taken from a problem."""
    r = Rec("plan over the objects of a problem")
    g = gens(rng)
    d = g.domain()
    p = g.problem(d)
    steps = g.plan(d, p)
    objs = {o[0]: build.const(o) for o in d["consts"] + p["objs"]}
    a = r.produce({"op": "mkplan", "arg": steps}, "plan",
                  lambda: build.Plan([(s["nm"], [objs[x] for x in s["as"]]) for s in steps]), {"Plan": steps, "typed": True})
    roundtrip(r, a, "plan")
    return r


@scenario("C03")
def reordered_plan(rng):
    r = Rec("plans that differ in order or multiplicity")
    g = gens(rng)
    steps = g.plan(n=rng.choice([2, 3, 4, 6]))
    other = clone(steps)
    k = rng.choice(["swap", "dup", "drop", "args", "name", "same"])
    i = rng.randrange(len(other))
    if k == "swap":
        rng.shuffle(other)
    elif k == "dup":
        other.insert(i, clone(other[i]))
    elif k == "drop":
        del other[i]
    elif k == "args":
        rng.shuffle(other[i]["as"])
    elif k == "name":
        other[i]["nm"] = g.name()
    a, b = r.parse("plan", plan_text(rng, steps)), r.parse("plan", plan_text(rng, other))
    if a and b:
        r.cmp(a, b)
        r.print(b)
    return r


# --------------------------------------------------------------------------- C04 C05: parsing
@scenario("C04", weight=6)
def parse_domain(rng):
    r = Rec("parse a domain in two layouts")
    d = gens(rng).domain()
    sx = Writer(rng).domain(d)
    a = r.parse("domain", text_of(rng, sx))
    b = r.parse("domain", text_of(rng, sx))
    if a and b:
        r.cmp(a, b)
    return r


@scenario("C04", weight=2)
def parse_full_domain(rng):
    r = Rec("parse a domain with every construct")
    g = gens(rng, depth=rng.choice([3, 4, 5]), size=rng.choice([0.5, 1]))
    r.parse("domain", text_of(rng, Writer(rng).domain(g.domain(full(g)))))
    return r


@scenario("C04", "C11")
def parse_big_domain(rng):
    r = Rec("parse a large domain")
    g = gens(rng, depth=2, size=4)
    r.parse("domain", text_of(rng, Writer(rng).domain(g.domain(full(g)))))
    return r


@scenario("C05", weight=6)
def parse_problem(rng):
    r = Rec("parse a problem in two layouts")
    g = gens(rng, depth=rng.choice([1, 2, 3, 4]))
    p = g.problem(g.domain())
    sx = Writer(rng).problem(p)
    a = r.parse("problem", text_of(rng, sx))
    b = r.parse("problem", text_of(rng, sx))
    if a and b:
        r.cmp(a, b)
    return r


@scenario("C05", weight=1)
def parse_big_problem(rng):
    r = Rec("parse a large problem")
    g = gens(rng, size=6, depth=4)
    d = g.domain(full(g))
    r.parse("problem", text_of(rng, Writer(rng).problem(g.problem(d))))
    return r


# --------------------------------------------------------------------------- C06: malformed input
def any_tree(rng, kind, g):
    """Tokens of a valid text of the given kind."""
    if kind == "plan":
        toks = []
        for s in Writer(rng).plan(g.plan()):
            toks += flat(s)
        return toks
    d = g.domain(full(g) if rng.random() < 0.7 else None)
    return flat(Writer(rng).domain(d) if kind == "domain" else Writer(rng).problem(g.problem(d)))


@scenario("C06", weight=8)
def mutated(rng):
    r = Rec("malformed variants of a text")
    kind = rng.choice(["domain", "domain", "problem", "problem", "plan"])
    g = gens(rng, fancy=0, size=rng.choice([0.3, 0.6, 1]))
    toks = any_tree(rng, kind, g)
    for _ in range(5):
        t = toks
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            t = mutate(rng, t)
        r.parse(kind, Layout(rng, rng.choice(["plain", "lines", "crlf"])).text(t))
    return r


@scenario("C06", weight=4)
def misspelt(rng):
    r = Rec("one name, variable or keyword written differently")
    kind = rng.choice(["domain", "domain", "domain", "problem", "plan"])
    g = gens(rng, fancy=rng.choice([0, 0.3]), size=rng.choice([0.3, 0.6]))
    toks = any_tree(rng, kind, g)
    for _ in range(8):
        r.parse(kind, Layout(rng, "plain").text(gen.misspell(rng, toks)))
    return r


@scenario("C06", weight=2)
def damaged_text(rng):
    r = Rec("truncated texts and foreign characters")
    kind = rng.choice(["domain", "problem", "plan"])
    g = gens(rng, fancy=0, size=0.6)
    text = Layout(rng, rng.choice(["plain", "lines"])).text(any_tree(rng, kind, g))
    for _ in range(4):
        i = rng.randrange(len(text) + 1)
        x = rng.random()
        if x < 0.4:
            r.parse(kind, text[:i])
        elif x < 0.7:
            r.parse(kind, text[:i] + rng.choice(list("#@!$%&'\"[]{}|\\~^`,.\x00é€λ😀") + [" # ", "\x00 "]) + text[i:])
        elif x < 0.8:
            r.parse(kind, text[i:])
        elif x < 0.9:
            r.parse(kind, text + rng.choice([" )", " (", " x", " (x)", " 1", " ; ok", text]))
        else:
            r.parse(kind, rng.choice([")", "(", "( "]) + " " + text)
    return r


@scenario("C06")
def soup(rng):
    r = Rec("random tokens")
    for _ in range(8):
        kind = rng.choice(["domain", "problem", "plan"])
        n = rng.choice([0, 1, 2, 3, 5, 8, 13, 30])
        t = [rng.choice(gen.VOCABL) for _ in range(n)]
        if rng.random() < 0.5:
            t = ["(", "define", "(", "domain" if kind == "domain" else "problem", "a", ")"] + t + [")"]
        r.parse(kind, Layout(rng, "plain").text(t))
    return r


@scenario("C06")
def other_kind(rng):
    r = Rec("a text of another kind, and empty texts")
    g = gens(rng, fancy=0, size=0.5)
    for kind in ["domain", "problem", "plan"]:
        for other in ["domain", "problem", "plan"]:
            r.parse(kind, Layout(rng, "plain").text(any_tree(rng, other, g)))
    for kind in ["domain", "problem", "plan"]:
        r.parse(kind, rng.choice(["", " ", "\n", "; only a comment", ";", "()", "(", ")", "(())"]))
    return r


@scenario("C06")
def inconsistent(rng):
    """Well-formed texts whose declarations may be inconsistent."""
    r = Rec("texts with inconsistent declarations")
    g = gens(rng, fancy=0, size=1)
    for _ in range(3):
        d = g.domain(rng.choice([None, full(g)]))
        k = rng.choice(["const", "type", "dup", "dupobj", "req", "cycle", "tag", "predtypes", "func"])
        if k == "const":
            d["consts"] = d["consts"][1:]
        elif k == "type" and d["types"]:
            del d["types"][0]
        elif k == "dup" and d["types"]:
            d["types"].append([d["types"][0][0], ""])
        elif k == "dupobj" and d["consts"]:
            d["consts"].append(list(d["consts"][0]))
        elif k == "req" and d["reqs"]:
            d["reqs"] = d["reqs"][1:]
        elif k == "cycle" and d["types"]:
            d["types"].append(["foo", "foo"])
        elif k == "tag" and d["preds"] and d["preds"][0]["ts"]:
            d["preds"][0]["ts"][0]["t"] = ["undeclared-type"]
        elif k == "predtypes" and d["preds"]:
            d["preds"][0]["ts"] = [V("x", ["object"]), V("x")]
        elif k == "func" and d["funs"]:
            d["funs"].append(d["funs"][0])
        r.parse("domain", text_of(rng, Writer(rng).domain(d), "plain"))
    return r


@scenario("C06")
def deep(rng):
    r = Rec("deep nesting")
    n = rng.choice([10, 20, 40])
    op = rng.choice(["not", "and", "or", "forall", "when"])
    t = "(p)"
    for _ in range(n):
        t = {"not": "(not %s)", "and": "(and (q) %s)", "or": "(or %s (q))", "forall": "(forall (?x) %s)", "when": "(not %s)"}[op] % t
    if rng.random() < 0.3:
        t = t.replace(")", "", 1)
    r.parse("domain", "(define (domain d) (:requirements :adl) (:predicates (p) (q)) (:action a :parameters () :precondition %s))" % t)
    r.parse("problem", "(define (problem d) (:domain d) (:init) (:goal %s))" % t)
    return r


@scenario("C06")
def mutated_example(rng):
    r = Rec("malformed variants of an example file")
    kind = rng.choice(["domain", "problem"])
    t = fixture(rng, kind)
    if t is None or len(t) > 6000:
        return r
    toks = [x for x in _tokens(t)]
    for _ in range(2):
        m = mutate(rng, toks)
        r.parse(kind, Layout(rng, "plain").text(m))
    return r


def _tokens(text):
    import re
    text = re.sub(r";[^\n]*", "", text)
    return re.findall(r"[()]|[^\s()]+", text)


# --------------------------------------------------------------------------- C07: requirements
GATED = {
    "or": (["or", ["p"], ["q"]], ":disjunctive-preconditions"), "or0": (["or"], ":disjunctive-preconditions"),
    "imply": (["imply", ["p"], ["q"]], ":disjunctive-preconditions"),
    "exists": (["exists", ["?v"], ["p"]], ":existential-preconditions"),
    "forall": (["forall", ["?v"], ["p"]], ":universal-preconditions"),
    "eq": (["=", "c", "c"], ":equality"),
    "not": (["not", ["p"]], None), "and": (["and", ["p"], ["q"]], None), "comp": (["<=", "1", "2"], None),
    "numeq": (["=", "1", "2"], None),
}


def wrap(rng, sx, depth):
    """sx inside ungated connectives."""
    for _ in range(depth):
        sx = rng.choice([["and", sx], ["and", ["p"], sx], ["not", sx], ["and", sx, ["q"]]])
    return sx


def gated_domain(rng, construct, reqs):
    """A domain text tree that uses exactly one gated construct, somewhere."""
    pre, eff, derived, types, consts, preds, funs = ["and"], ["and"], None, [], ["c"], [["p"], ["q"], ["r", "?a"]], []
    if construct in GATED:
        sx = wrap(rng, GATED[construct][0], rng.randrange(3))
        where = rng.choice(["pre", "when", "derived", "forallwhen"])
        if where == "pre":
            pre = sx
        elif where == "when":
            eff = rng.choice([["when", sx, ["p"]], ["and", ["q"], ["when", sx, ["not", ["p"]]]]])
        elif where == "forallwhen":
            eff = ["forall", ["?w"], ["when", sx, ["p"]]]
        else:
            derived = [":derived", ["p"], sx]
    elif construct == "eqeff":
        eff = rng.choice([["=", "c", "c"], ["and", ["not", ["=", "c", "c"]]], ["when", ["p"], ["=", "c", "c"]]])
    elif construct == "oneof":
        eff = rng.choice([["oneof", ["p"], ["q"]], ["and", ["oneof", ["p"]]], ["forall", ["?w"], ["oneof", ["p"], ["not", ["q"]]]],
                          ["oneof", ["and"], ["oneof", ["p"], ["q"]]]])
    elif construct == "hier":
        types = ["t", "-", "s"]
    elif construct == "objhier":
        types = ["t", "-", "object"]
    elif construct == "flattypes":
        types = ["t", "s"]
    elif construct == "typed":
        types = ["t"]
        ty = rng.choice(["t", "object", ["either", "t", "object"]])
        where = rng.choice(["const", "pred", "param", "quant", "eforall", "derived", "fun"])
        if where == "const":
            consts = ["c", "-", "t"]
        elif where == "pred":
            preds.append(["s", "?x", "-", ty])
        elif where == "param":
            return ["define", ["domain", "d"]] + ([[":requirements"] + reqs] if reqs else []) + [[":types", "t"], [":predicates", ["p"]],
                    [":action", "a", ":parameters", ["?x", "-", ty]]]
        elif where == "eforall":
            eff = ["forall", ["?w", "-", ty], ["p"]]
        elif where == "derived":
            preds.append(["s", "?x"])
            derived = [":derived", ["s", "?x", "-", ty], ["p"]]
        else:
            consts = ["c", "-", "t"]
    elif construct == "fun":
        funs = rng.choice([["f"], [["f"], ["g", "?x"]], [["f"], "-", "number"], [["total-cost"], ["f"], "-", "number"]])
        funs = [f if isinstance(f, list) or f in "-number" else [f] for f in funs]
    elif construct == "cost":
        funs = rng.choice([[["total-cost"]], [["total-cost"], "-", "number"]])
    elif construct == "increase":
        eff = ["increase", "total-cost", "1"]
    elif construct == "when":
        eff = ["when", ["p"], ["q"]]
    elif construct == "eforall":
        eff = ["forall", ["?w"], ["q"]]
    out = ["define", ["domain", "d"]]
    if reqs:
        out.append([":requirements"] + reqs)
    if types:
        out.append([":types"] + types)
    out += [[":constants"] + consts, [":predicates"] + preds]
    if funs:
        out.append([":functions"] + funs)
    if derived:
        out.append(derived)
    out.append([":action", "a", ":parameters", ["?x"], ":precondition", pre, ":effect", eff])
    return out


CONSTRUCTS = sorted(GATED) + ["eqeff", "oneof", "hier", "objhier", "flattypes", "typed", "fun", "cost", "increase", "when", "eforall"]


@scenario("C07", weight=6)
def one_construct(rng):
    r = Rec("one construct, several requirement sets")
    c = rng.choice(CONSTRUCTS)
    state = rng.getrandbits(32)
    reqs = []
    for k in range(7):
        if k == 1:
            reqs = [rng.choice(gen.KEYS)]
        elif k == 2 and c in GATED and GATED[c][1]:
            reqs = [GATED[c][1]]
        elif k > 1:
            reqs = rng.sample(gen.KEYS, rng.randint(1, 5)) if rng.random() < 0.5 else sorted(set(reqs) | {rng.choice(gen.KEYS)})
        r.parse("domain", text_of(rng, gated_domain(random.Random(state), c, reqs), "plain"))
    return r


@scenario("C07", weight=2)
def wild_requirements(rng):
    r = Rec("a domain under different requirement sets")
    g = gens(rng, size=rng.choice([0.3, 0.6]), depth=rng.choice([1, 2]))
    d = g.domain(rng.choice([None, full(g)]))
    sx = Writer(rng).domain(d)
    base = list(d["reqs"])
    for _ in range(3):
        reqs = [k for k in base if rng.random() < 0.8]
        body = [x for x in sx[2:] if x[0] != ":requirements"]
        r.parse("domain", text_of(rng, sx[:2] + ([[":requirements"] + reqs] if reqs else []) + body, "plain"))
        more = sorted(set(reqs) | set(rng.sample(gen.KEYS, 3)))
        r.parse("domain", text_of(rng, sx[:2] + [[":requirements"] + more] + body, "plain"))
    return r


@scenario("C07", weight=2)
def built_requirements(rng):
    r = Rec("a built domain under different requirement sets")
    g = gens(rng, size=rng.choice([0.3, 0.6]), depth=1)
    d = g.domain(rng.choice([None, full(g)]))
    for _ in range(4):
        e = dict(d, reqs=[k for k in d["reqs"] if rng.random() < 0.7])
        r.mkdomain(e, rng)
        r.mkdomain(dict(d, reqs=sorted(set(e["reqs"]) | {rng.choice(gen.KEYS)})), rng)
    return r


@scenario("C07")
def ungated_goals(rng):
    r = Rec("problem goals and requirements")
    g = gens(rng, depth=3)
    p = g.problem(g.domain())
    for _ in range(3):
        q = dict(p, reqs=rng.sample(gen.KEYS, rng.randrange(4)))
        r.parse("problem", text_of(rng, Writer(rng).problem(q), "plain"))
    return r


# --------------------------------------------------------------------------- C08: types
def wild_types(rng, n):
    ns = rng.sample(["t", "s", "u", "v", "w", "A", "b1", "obj", "thing", "x-y"], n)
    pool = ns + ["object"] * (rng.random() < 0.5) + (["outside"] if rng.random() < 0.3 else [])
    x = rng.random()
    if x < 0.5:   # mostly acyclic
        out = [[t, rng.choice(["", ""] + ns[:i] + pool[n:])] for i, t in enumerate(ns)]
    elif x < 0.75:
        out = [[t, rng.choice([""] + pool)] for t in ns]
    else:         # one long chain, maybe closed
        out = [[ns[i], ns[i - 1] if i else rng.choice(["", "", ns[-1], "object"])] for i in range(n)]
    if rng.random() < 0.1:
        out.append(["object", rng.choice(["", "", "t"])])
    rng.shuffle(out)
    return out


def typed_places(rng, pool):
    """A domain value with types from pool in random places."""
    g = gens(rng, size=0.5, depth=2, fancy=0)
    d = g.domain([":adl", ":fluents"])
    d["types"] = []
    pick = lambda: sorted(set(rng.choice(pool) for _ in range(rng.choice([1, 1, 2])))) if rng.random() < 0.6 and pool else []
    memo = {}

    def retag(j):
        for v in j["vs"]:
            v["t"] = []
        for k in j["ks"]:
            retag(k)
        for t in j["ts"]:
            t["t"] = []
    for p in d["preds"] + [f for f, _ in d["funs"]]:
        p["ts"] = sorted((V(t["n"], memo.setdefault((p["nm"], t["n"]), pick())) for t in p["ts"]), key=lambda v: not v["t"])
    for c in d["consts"]:
        c[1] = rng.choice(pool) if rng.random() < 0.5 and pool else ""
    return d, pick, retag


@scenario("C08", weight=5)
def hierarchy(rng):
    r = Rec("type hierarchies and uses of types, as text and built")
    types = wild_types(rng, rng.choice([1, 2, 3, 3, 4, 6, 9]))
    pool = [t for t, _ in types if t != "object"] + ["object"]
    if rng.random() < 0.3:
        pool.append(rng.choice(["undeclared", "outside"]))
    d = {"nm": "d", "reqs": rng.choice([[":typing"], [":adl"], [":typing", ":adl", ":fluents"], [":strips"], []]), "types": types,
         "consts": [], "preds": [], "funs": [], "dps": [], "acts": []}
    where = rng.sample(["const", "pred", "param", "quant", "eff", "fun", "derived", "none", "when"], rng.choice([1, 1, 2]))
    tags = lambda: sorted(set(rng.choice(pool) for _ in range(rng.choice([1, 1, 2]))))
    if {"quant", "when", "derived"} & set(where) and ":adl" not in d["reqs"]:
        d["reqs"] = d["reqs"] + [":adl"]
    for w in where:
        if w == "const":
            d["consts"].append(["c", rng.choice(pool)])
        elif w == "pred":
            d["preds"].append(nd("pred", "p", [V("x", tags()), V("y", tags())]))
        elif w == "fun":
            d["funs"].append([nd("fn", "f", [V("x", tags())]), ""])
            d["reqs"] = sorted(set(d["reqs"] + [":fluents"]))
        elif w == "param":
            d["acts"].append({"nm": "a", "ps": [V("x", tags())], "pre": NONE, "eff": NONE})
        elif w == "derived":
            d["preds"].append(nd("pred", "q", [V("x")]))
            d["dps"].append({"h": nd("pred", "q", [V("x")]), "c": quant(rng, tags(), rng.randrange(3))})
        elif w == "quant":
            d["acts"].append({"nm": "b", "ps": [], "pre": quant(rng, tags(), rng.randrange(4)), "eff": NONE})
        elif w == "when":
            d["acts"].append({"nm": "e", "ps": [], "pre": NONE,
                              "eff": nd("when", ks=[quant(rng, tags(), rng.randrange(3)), nd("pred", "p")])})
        elif w == "eff":
            t = tags()
            e = nd("eforall", vs=[V("x", t)], ks=[nd("pred", "p", [V("x", t)])])
            for _ in range(rng.randrange(3)):
                e = nd("eforall", vs=[V("z")], ks=[rng.choice([nd("and", ks=[e, nd("pred", "q")]), e])])
            d["acts"].append({"nm": "c", "ps": [], "pre": NONE, "eff": e})
    r.parse("domain", text_of(rng, Writer(rng).domain(d), "plain"))
    if all(t for t, _ in types):
        r.mkdomain(d, rng)
    return r


def quant(rng, tags, depth):
    f = nd(rng.choice(["exists", "forall"]), vs=[V("x", tags)], ks=[nd("pred", "p", [V("x", tags)])])
    for _ in range(depth):
        f = rng.choice([nd("not", ks=[f]), nd("and", ks=[nd("pred", "q"), f]), nd("or", ks=[f, nd("pred", "q")]),
                        nd(rng.choice(["exists", "forall"]), vs=[V("y")], ks=[f]), nd("imply", ks=[nd("pred", "q"), f]),
                        nd("imply", ks=[f, nd("pred", "q")])])
    return f


@scenario("C08", weight=2)
def consistent_types(rng):
    r = Rec("consistent typed domains are accepted")
    g = gens(rng, size=rng.choice([1, 2]), depth=2)
    d = g.domain([":typing"] + rng.sample(gen.KEYS, 3))
    r.mkdomain(d, rng)
    r.parse("domain", text_of(rng, Writer(rng).domain(d)))
    return r


@scenario("C08", weight=2)
def problem_types(rng):
    r = Rec("types used by problems")
    types = wild_types(rng, rng.choice([2, 3, 4]))
    pool = [t for t, _ in types] + ["object", "undeclared"]
    d = r.parse("domain", text_of(rng, Writer(rng).domain(
        {"nm": "d", "reqs": rng.choice([[":typing"], [":adl"], []]), "types": [[t, ""] for t, _ in types] if rng.random() < 0.5 else types,
         "consts": [], "preds": [], "funs": [], "dps": [], "acts": []}), "plain"))
    for _ in range(3):
        p = {"nm": "p", "dom": "d", "reqs": [], "objs": [[n, rng.choice(pool + [""])] for n in "abc"[:rng.randrange(4)]], "init": [],
             "goal": quant(rng, sorted({rng.choice(pool)}), rng.randrange(3)) if rng.random() < 0.6 else nd("and"), "metric": NONE}
        if rng.random() < 0.3:
            p = typed_use(rng, p, rng.choice(pool))
        b = r.parse("problem", text_of(rng, Writer(rng).problem(p), "plain")) if rng.random() < 0.4 else r.mkproblem(p)
        if d and b:
            r.check(b, d)
            r.attach(b, d)
            r.obs(b)
    return r


@scenario("C08")
def long_chain(rng):
    r = Rec("deep type hierarchies")
    n = rng.choice([20, 60])
    ns = [f"t{i}" for i in range(n)]
    rng.shuffle(ns)
    types = [[ns[i], ns[i + 1]] for i in range(n - 1)]
    if rng.random() < 0.5:
        types.append([ns[-1], ns[rng.randrange(n)]])
    d = {"nm": "d", "reqs": [":typing", ":adl"], "types": types, "consts": [["c", ns[0]]], "preds": [nd("pred", "p", [V("x", [ns[-1]])])],
         "funs": [], "dps": [{"h": nd("pred", "p", [V("x", [ns[0]])]), "c": nd("and")}], "acts": []}
    r.parse("domain", text_of(rng, Writer(rng).domain(d), "plain"))
    r.mkdomain(d, rng)
    return r


# --------------------------------------------------------------------------- C09: typed lists
def raw_list(rng, items, types, either):
    out = []
    for _ in range(rng.choice([0, 1, 2, 3, 3, 4])):
        out += [rng.choice(items) for _ in range(rng.choice([1, 1, 2, 3, 0] if rng.random() < 0.2 else [1, 1, 2, 3]))]
        if rng.random() < 0.75:
            out += ["-", ["either"] + [rng.choice(types) for _ in range(rng.choice([1, 2, 3]))] if rng.random() < either else rng.choice(types)]
    if rng.random() < 0.12:
        out.insert(rng.randrange(len(out) + 1), rng.choice(["-", "t", "?a", "object", ["either", "t"], "and", "either"]))
    return out


def typed_list_text(rng, where=None, body=None):
    """(kind, tree) with one interesting typed list."""
    ts = ["t", "s", "u", "object"]
    vs = ["?a", "?b", "?c", "?d", "?t"] if rng.random() < 0.5 else ["?" + x for x in "abcdefgh"]
    ns = ["a", "b", "c", "d"] if rng.random() < 0.3 else ["n%d" % i for i in range(9)]
    where = where or rng.choice(["types", "constants", "objects", "pred", "fun", "funs", "param", "quant", "eforall", "derived", "goal"])
    head = ["define", ["domain", "d"], [":requirements", ":adl", ":fluents"], [":types", "t", "s", "u"]]
    li = body if body is not None else raw_list(rng, ns if where in ("types", "constants", "objects") else vs, ts,
                                                0.05 if where in ("types", "constants", "objects") else 0.3)
    if where == "types":
        return "domain", head[:3] + [[":types"] + li]
    if where == "constants":
        return "domain", head + [[":constants"] + li]
    if where == "objects":
        return "problem", ["define", ["problem", "p"], [":domain", "d"], [":objects"] + li, [":init"], [":goal", ["and"]]]
    if where == "pred":
        return "domain", head + [[":predicates", ["q"], ["p"] + li]]
    if where == "fun":
        return "domain", head + [[":functions", ["f"] + li, "-", "number"]]
    if where == "funs":
        out = []
        for i in range(rng.choice([1, 2, 3, 4])):
            out.append([rng.choice("fgh")] + rng.choice([[], ["?x"], ["?x", "-", "t"]]))
            if rng.random() < 0.5:
                out += ["-", rng.choice(["number", "number", "number", "t", "object", ["either", "number"]])]
        return "domain", head + [[":functions"] + out]
    if where == "param":
        return "domain", head + [[":predicates", ["p"]], [":action", "a", ":parameters", li, ":precondition", ["p"]
                                 + [v for v in li if isinstance(v, str) and v[0] == "?"]]]
    if where == "quant":
        return "domain", head + [[":action", "a", ":parameters", [], ":precondition", [rng.choice(["forall", "exists"]), li,
                                 ["p"] + [v for v in li if isinstance(v, str) and v[0] == "?"]]]]
    if where == "eforall":
        return "domain", head + [[":action", "a", ":parameters", [], ":effect", ["forall", li,
                                 ["p"] + [v for v in li if isinstance(v, str) and v[0] == "?"]]]]
    if where == "derived":
        return "domain", head + [[":predicates", ["p"] + [v for v in li if isinstance(v, str) and v[0] == "?"]], [":derived", ["p"] + li, ["and"]]]
    return "problem", ["define", ["problem", "p"], [":domain", "d"], [":init"], [":goal", ["exists", li, ["p", "?a"]]]]


@scenario("C09", weight=6)
def typed_lists(rng):
    r = Rec("typed lists")
    for _ in range(4):
        k, sx = typed_list_text(rng)
        r.parse(k, text_of(rng, sx, rng.choice(["plain", "plain", "wild"])))
    return r


@scenario("C09", weight=1)
def typed_lists_domain(rng):
    r = Rec("typed lists of a random domain")
    g = gens(rng, size=2, depth=1)
    d = g.domain([":typing", ":adl"])
    r.parse("domain", text_of(rng, Writer(rng).domain(d)))
    return r


# --------------------------------------------------------------------------- C10: names
KW = ["define", "domain", "problem", "and", "or", "not", "imply", "forall", "exists", "when", "oneof", "either", "object", "assign",
      "scale-up", "scale-down", "increase", "decrease", "maximize", "minimize", "total-cost", "number", ":action", "action", "=", "-",
      "<", "<=", ">", ">=", "+", "*", "/", "(", ")", ":types", "types", ":domain", ":strips", "strips"]


FOREIGN = list(" .:?é,;()\n\t'\"/λ²ı") + list("\u0663\u096b\uff13\u00bd\u2460\u017f\u212a\u0130\uff21\u00aa\u00df\ufb01\u0301\u203f\u2010\u2013\u2212\uff0d\uff3f\u200b\u200d"
                                             "\0\x1c\x85\u2028\u00ad\u00a0\r\f\v\x7f") + ["\U0001d7d7", "\U0001d41a"] + list("!#$%&*+<=>@[]^`{|}~\\")


def rand_name(rng):
    x = rng.random()
    if x > 0.9:         # one foreign character in a name
        n = rng.choice([rng.choice(gen.FANCY + gen.PLAIN), rng.choice(gen.PLAIN), rng.choice(KW)])
        i = rng.choice([0, len(n), len(n), rng.randrange(len(n) + 1)])
        return n[:i] + rng.choice(FOREIGN) + n[i + rng.choice([0, 0, 1]):]
    x /= 0.9
    if x < 0.2:
        return rng.choice(KW)
    if x < 0.5:
        k = rng.choice(KW)
        return rng.choice([k + "x", k + "-1", k + "_", "x" + k, k.upper(), k.capitalize(), k + k, k[:-1], k + " ", " " + k, k + "\n", k + "-", "?" + k, ":" + k,
                           k + "1", k.swapcase()])
    if x < 0.75:
        return rng.choice(gen.FANCY + gen.PLAIN)
    alpha = "abcXYZ019-_"
    if x < 0.85:
        alpha += " .:?é,;()\n\t'\"/λ²ı"
    return "".join(rng.choice(alpha) for _ in range(rng.choice([0, 1, 1, 2, 3, 6, 12])))


def name_sites():
    from pddl.action import Action
    from pddl.core import Domain, Plan, Problem
    from pddl.custom_types import parse_function, parse_name, parse_type
    from pddl.logic.functions import NumericFunction
    from pddl.logic.predicates import Predicate
    from pddl.logic.terms import Constant, Variable
    from pddl.requirements import Requirements
    ty = [Requirements.TYPING]
    only = lambda s: next(iter(s))
    return [
        ("name", "parse_name", lambda s: parse_name(s)),
        ("type", "parse_type", lambda s: parse_type(s)),
        ("function", "parse_function", lambda s: parse_function(s)),
        ("name", "variable name", lambda s: Variable(s).name),
        ("name", "constant name", lambda s: Constant(s).name),
        ("type", "type of a variable", lambda s: only(Variable("x", [s]).type_tags)),
        ("type", "type of a constant", lambda s: Constant("x", s).type_tag),
        ("type", "new type of a variable", lambda s: only(Variable("x").with_type_tags([s]).type_tags)),
        ("name", "predicate name", lambda s: Predicate(s).name),
        ("name", "predicate name with terms", lambda s: Predicate(s, Variable("x")).name),
        ("function", "function name", lambda s: NumericFunction(s, Variable("x")).name),
        ("name", "action name", lambda s: Action(s, []).name),
        ("name", "domain name", lambda s: Domain(s).name),
        ("name", "problem name", lambda s: Problem(s, domain_name="d").name),
        ("name", "domain name of a problem", lambda s: Problem("p", domain_name=s).domain_name),
        ("name", "action name of a plan", lambda s: Plan([(s, [])]).actions[0][0]),
        ("type", "declared parent type", lambda s: only(Domain("d", requirements=ty, types={"zz9": s}).types.values()) or "object"),
        ("type", "declared type", lambda s: only(list(Domain("d", types={s: None}).types) or ["object"])),
    ]


_sites = []


@scenario("C10", weight=2)
def api_names(rng):
    if not _sites:
        _sites.extend(name_sites())
    r = Rec("names through the API")
    for _ in range(14):
        ctx, what, fn = rng.choice(_sites)
        s = rand_name(rng)
        if s == "" and "parent" in what:
            continue
        try:
            s.encode("utf8")
        except UnicodeError:
            continue
        use_name(r, ctx, what, fn, s)
    return r


def use_name(r, ctx, what, fn, s):
    out, v = rec.guarded(lambda: fn(s))
    val = ""
    if out == "ok":
        val = str.__str__(v) if isinstance(v, str) else "\x01not a string"
    r.add({"op": "name", "ctx": ctx, "s": s, "out": out, "val": val, "what": what}, {"name": s, "for": what, "outcome": out})


NAME_PLACES = ["domain", "type", "parent", "const", "ctype", "pred", "var", "vtype", "either", "fun", "action", "param",
               "quant", "problem", "pdomain", "object", "otype", "initpred", "initobj", "initfun", "goalpred", "goalvar",
               "step", "arg", "bare", "metric", "preatom", "effatom"]


def name_tree(rng, where, n):
    """(kind, tree): the name n in one position."""
    req = [":requirements", ":adl", ":fluents"]
    base = ["define", ["domain", "d"], req]
    pb = lambda objs=(), init=(), goal=("and",), metric=None, nm="p", dom="d": \
        ["define", ["problem", nm], [":domain", dom]] + ([[":objects"] + list(objs)] if objs else []) + \
        [[":init"] + list(init), [":goal", list(goal)]] + ([[":metric", "minimize", metric]] if metric else [])
    act = lambda ps=(), pre=("and",), eff=("and",), nm="a": [":action", nm, ":parameters", list(ps), ":precondition", list(pre), ":effect", list(eff)]
    trees = {
        "domain": ("domain", ["define", ["domain", n]]), "type": ("domain", base + [[":types", n, "zz"]]),
        "parent": ("domain", base + [[":types", "zz", "-", n]]),
        "const": ("domain", base + [[":constants", "zz", n]]),
        "ctype": ("domain", base + [[":types", n], [":constants", "zz", "-", n]]),
        "pred": ("domain", base + [[":predicates", [n, "?x"]], act(["?x"], [n, "?x"])]),
        "var": ("domain", base + [[":predicates", ["p", "?" + n, "?zz"]]]),
        "vtype": ("domain", base + [[":types", n], [":predicates", ["p", "?x", "-", n]]]),
        "either": ("domain", base + [[":types", n, "zz"], [":predicates", ["p", "?x", "-", ["either", "zz", n]]]]),
        "fun": ("domain", base + [[":functions", [n, "?x"]]]), "action": ("domain", base + [act(nm=n)]),
        "param": ("domain", base + [act(["?" + n], ["p", "?" + n])]),
        "quant": ("domain", base + [act([], ["exists", ["?" + n], ["p", "?" + n]])]),
        "preatom": ("domain", base + [act([], ["not", [n]])]), "effatom": ("domain", base + [act([], eff=["and", [n], ["not", [n]]])]),
        "bare": ("domain", base + [act([], ["<=", n, [n]], ["increase", n, "2"])]),
        "problem": ("problem", pb(nm=n)), "pdomain": ("problem", pb(dom=n)), "object": ("problem", pb(objs=["zz", n])),
        "otype": ("problem", pb(objs=["zz", "-", n])), "initpred": ("problem", pb(init=[[n]])),
        "initobj": ("problem", pb(init=[["p", n], ["not", ["p", n]]])), "initfun": ("problem", pb(init=[["=", [n], "2"], ["=", n, "3"]])),
        "goalpred": ("problem", pb(goal=[n, "zz"])), "goalvar": ("problem", pb(goal=["exists", ["?" + n], ["p", "?" + n, n]])),
        "metric": ("problem", pb(metric=rng.choice([n, [n], ["+", n, [n, "zz"]]]))),
        "step": ("plan", [[n], [n, "a"]]), "arg": ("plan", [["a", n, "b", n]]),
    }
    return trees[where]


@scenario("C10", weight=2)
def text_names(rng):
    """One name in one position of a text; the name is a word in the lexical sense."""
    r = Rec("names in texts")
    for _ in range(5):
        while True:
            n = rand_name(rng)
            if lex.read(n) == (True, [lex.atom("n", n)]):
                break
        where = rng.choice(NAME_PLACES)
        kind, sx = name_tree(rng, where, n)
        if kind == "plan":
            toks = []
            for s in sx:
                toks += flat(s)
        else:
            toks = flat(sx)
        a = r.parse(kind, Layout(rng, "plain").text(toks))
        if a and rng.random() < 0.3:
            roundtrip(r, a, kind)
    return r


# --------------------------------------------------------------------------- C11: scoping
@scenario("C11", weight=8)
def scoping(rng):
    r = Rec("nested binders of the same variables")
    g = gens(rng, depth=rng.choice([3, 4, 5]), size=rng.choice([0.5, 1]), fancy=0)
    g.vars_ = lambda k: rng.sample(["x", "y", "z", "w"] + [f"v{i}" for i in range(max(3, k))], k)
    g.free_vars = 0.3
    old = g.gd

    def gd(env, d=None):
        d = g.depth if d is None else d
        if d > 0 and rng.random() < 0.45:
            vs = g.typed_vars(rng.sample(["x", "y", "z"], rng.choice([0, 1, 1, 2])))
            e2 = dict(env)
            e2.update({v["n"]: v["t"] for v in vs})
            return nd(rng.choice(["forall", "exists"]), vs=vs, ks=[g.gd(e2, d - 1)])
        return old(env, d)
    g.gd = gd
    d = g.domain(full(g))
    r.parse("domain", text_of(rng, Writer(rng).domain(d)))
    return r


@scenario("C11", weight=2)
def order_of_structures(rng):
    r = Rec("the same structures in two orders")
    g = gens(rng, depth=2, size=1, fancy=0)
    g.vars_ = lambda k: rng.sample(["x", "y", "z", "w"] + [f"v{i}" for i in range(max(3, k))], k)
    g.free_vars = 0.5
    sx = Writer(rng).domain(g.domain(full(g)))
    st = [x for x in sx[2:] if x[0] in (":action", ":derived")]
    rest = [x for x in sx[2:] if x[0] not in (":action", ":derived")]
    a = r.parse("domain", text_of(rng, sx[:2] + rest + st))
    rng.shuffle(st)
    b = r.parse("domain", text_of(rng, sx[:2] + rest + st))
    if a and b:
        r.cmp(a, b)
    return r


@scenario("C11", weight=1)
def goal_scoping(rng):
    r = Rec("binders in goals")
    g = gens(rng, depth=4, fancy=0)
    g.vars_ = lambda k: rng.sample(["x", "y", "z", "w"] + [f"v{i}" for i in range(max(3, k))], k)
    d = g.domain([":adl"])
    r.parse("problem", text_of(rng, Writer(rng).problem(g.problem(d))))
    return r


# --------------------------------------------------------------------------- C12 C13: formulas and arithmetic
def atom_pool(rng):
    return [nd("pred", "p"), nd("pred", "q"), nd("pred", "p", [V("x")]), nd("pred", "p", [C("a")]), nd("not", ks=[nd("pred", "p")]),
            nd("eq", ts=[C("a"), C("b")]), nd("<", ks=[nd("fn", "f"), nd("num", "1")]),
            nd("exists", vs=[V("x")], ks=[nd("pred", "p", [V("x")])]), nd("imply", ks=[nd("pred", "p"), nd("pred", "q")]),
            nd("pred", "r", [V("x", ["t"])]), nd("pred", "r", [V("x")])]


def bool_tree(rng, pool, d):
    x = rng.random()
    if d <= 0 or x < 0.25:
        return rng.choice(pool)
    if x < 0.85:
        return nd(rng.choice(["and", "or"]), ks=[bool_tree(rng, pool, d - 1) for _ in range(rng.choice([0, 1, 2, 2, 3, 4]))])
    if x < 0.93:
        return nd("not", ks=[bool_tree(rng, pool, d - 1)])
    return nd("imply", ks=[bool_tree(rng, pool, d - 1), bool_tree(rng, pool, d - 1)])


@scenario("C12", weight=5)
def connectives(rng):
    r = Rec("conjunctions and disjunctions")
    pool = rng.sample(atom_pool(rng), rng.choice([2, 3, 5]))
    a = r.node(bool_tree(rng, pool, rng.choice([1, 2, 3, 4])))
    # the same leaves, grouped differently
    op = rng.choice(["and", "or"])
    leaves = [rng.choice(pool) for _ in range(rng.choice([2, 3, 4, 5]))]
    ids = []
    for _ in range(3):
        ids.append(r.node(regroup(rng, op, leaves)))
    for i in ids[1:]:
        if ids[0] and i:
            r.cmp(ids[0], i)
    if a and ids[0]:
        r.cmp(a, ids[0])
    return r


def regroup(rng, op, leaves):
    if len(leaves) <= 1:
        return nd(op, ks=leaves) if rng.random() < 0.5 or not leaves else leaves[0]
    i = rng.randrange(1, len(leaves))
    x = rng.random()
    if x < 0.4:
        return nd(op, ks=leaves)
    if x < 0.7:
        return nd(op, ks=[regroup(rng, op, leaves[:i]), regroup(rng, op, leaves[i:])])
    return nd(op, ks=leaves[:i - 1] + [regroup(rng, op, leaves[i - 1:])])


@scenario("C12", weight=3)
def shortcuts(rng):
    r = Rec("operator shortcuts")
    pool = atom_pool(rng)
    for _ in range(6):
        x, y = bool_tree(rng, pool, rng.choice([0, 1, 2])), bool_tree(rng, pool, rng.choice([0, 1, 2]))
        sc = rng.choice(["&", "|", "~", ">>"])

        def f():
            a, b = build.node(x), build.node(y)
            return {"&": lambda: a & b, "|": lambda: a | b, "~": lambda: ~a, ">>": lambda: a >> b}[sc]()
        r.produce({"op": "shortcut", "sc": sc, "ks": [x, y]}, "node", f, {"shortcut": sc, "operands": [x, y]})
    return r


@scenario("C12", weight=2)
def parsed_connectives(rng):
    r = Rec("conjunctions and disjunctions in texts")
    pool = [nd("pred", "p"), nd("pred", "q"), nd("pred", "p", [V("x")]), nd("not", ks=[nd("pred", "p")])]
    w = Writer(rng)
    f = bool_tree(rng, pool, 4)
    r.parse("domain", text_of(rng, ["define", ["domain", "d"], [":requirements", ":adl"], [":action", "a", ":parameters", ["?x"],
            ":precondition", w.empty_or(f)]], "plain"))
    r.parse("problem", text_of(rng, ["define", ["problem", "d"], [":domain", "d"], [":init"], [":goal", w.node(bool_tree(rng, pool, 3))]], "plain"))
    return r


def num_pool(rng):
    return [nd("fn", "f"), nd("fn", "g", [C("a")]), nd("fn", "f", [V("x", ["t"])]), nd("num", "1"), nd("num", "2.5"), nd("num", "0"),
            nd("fn", "total-cost"), nd("num", "0.1")]


def arith(rng, pool, d):
    if d <= 0 or rng.random() < 0.2:
        return rng.choice(pool)
    op = rng.choice(["+", "-", "*", "/"])
    n = {"+": rng.choice([2, 2, 3, 4]), "*": rng.choice([2, 3]), "-": rng.choice([1, 2, 2]), "/": 2}[op]
    ks = [arith(rng, pool, d - 1) for _ in range(n)]
    if n > 1 and rng.random() < 0.3:
        ks[-1] = ks[0]
    return nd(op, ks=ks)


@scenario("C13", weight=5)
def arithmetic(rng):
    r = Rec("numeric expressions")
    pool = rng.sample(num_pool(rng), rng.choice([2, 3, 5]))
    e = arith(rng, pool, rng.choice([1, 2, 3]))
    a = r.node(e)
    op = rng.choice(["f=", "<", "<=", ">", ">=", "assign", "increase", "decrease", "scale-up", "scale-down"])
    lhs = rng.choice([p for p in num_pool(rng) if p["op"] == "fn"]) if op not in gen_comp else arith(rng, pool, 1)
    b = r.node(nd(op, ks=[lhs, e if rng.random() < 0.7 else lhs]))
    # the same operands in another order or another multiplicity
    if a and e["ks"]:
        e2 = clone(e)
        if rng.random() < 0.5:
            e2["ks"].reverse()
        elif e2["op"] in "+*":
            e2["ks"].append(e2["ks"][0])
        c = r.node(e2)
        if c:
            r.cmp(a, c)
    r.node(nd(rng.choice(["minimize", "maximize"]), ks=[e]))
    if b and rng.random() < 0.5:
        r.node(nd("and", ks=[nd(op, ks=[lhs, e]), nd(op, ks=[lhs, e]), nd("pred", "p")]))
    return r


gen_comp = {"f=", "<", "<=", ">", ">="}


@scenario("C13", weight=4)
def arithmetic_texts(rng):
    r = Rec("numeric expressions in texts")
    pool = [nd("fn", "f"), nd("fn", "g", [C("a")]), nd("fn", "h", [V("x", [])])] + [nd("num", lex.canon_literal(rng.choice(gen.LITS))) for _ in range(3)]
    w = Writer(rng)
    e = lambda d: arith(rng, pool, d)
    pre = ["and"] + [w.node(nd(rng.choice(sorted(gen_comp)), ks=[e(2), e(2)])) for _ in range(2)]
    eff = ["and"] + [w.node(nd(rng.choice(["assign", "increase", "decrease", "scale-up", "scale-down"]), ks=[rng.choice(pool[:3]), e(2)])) for _ in range(2)]
    a = r.parse("domain", text_of(rng, ["define", ["domain", "d"], [":requirements", ":fluents"], [":constants", "a"],
                [":functions", ["f"], ["g", "?x"], ["h", "?x"]], [":action", "b", ":parameters", ["?x"], ":precondition", pre, ":effect", eff]], "plain"))
    roundtrip(r, a, "domain")
    pool = [p for p in pool if p["nm"] != "h"]
    b = r.parse("problem", text_of(rng, ["define", ["problem", "d"], [":domain", "d"],
                [":init"] + [["=", ["f"], w.num(lex.canon_literal(rng.choice(gen.LITS)))] for _ in range(2)],
                [":goal", ["<=", ["f"], w.node(e(1))]], [":metric", "minimize", w.node(e(2))]], "plain"))
    roundtrip(r, b, "problem")
    return r


@scenario("C13", weight=2)
def numbers(rng):
    r = Rec("numbers keep their value")
    from pddl.logic.functions import EqualTo, NumericFunction, NumericValue
    vals = []
    for _ in range(4):
        x = rng.random()
        if x < 0.3:
            v = rng.choice([0, 1, 7, 10**6, 10**15, 10**17, 10**25, 123456789012345678])
        elif x < 0.6:
            v = rng.choice([0.0, 0.5, 1e-7, 1e16, 1e20, 1e22, 1.5e-5, 123456.789, 0.1, 2.0 ** 60, 1e-300, 5e-324, 1.7e308, 3.0, 1e21])
        else:
            v = round(rng.random() * 10 ** rng.randrange(-8, 12), rng.randrange(12))
        vals.append(v)
    j = {"nm": "p", "dom": "d", "reqs": [], "objs": [], "goal": nd("and"), "metric": NONE,
         "init": [nd("f=", ks=[nd("fn", f"f{i}"), nd("num", lex.canon_value(v))]) for i, v in enumerate(vals)]}
    kw = dict(name="p", requirements=[], objects=[], goal=build.node(nd("and")), metric=None,
              init=[EqualTo(NumericFunction(f"f{i}"), NumericValue(v)) for i, v in enumerate(vals)])
    roundtrip(r, r.mkproblem(j, kw=kw), "problem")
    return r


def literal(rng):
    """A number as it may be written: long, with zeros in front or behind, small, near the limits, out of range, with several points."""
    d = lambda k: "".join(rng.choice("0123456789") for _ in range(k))
    x = rng.random()
    if x < 0.15:
        return rng.choice(["0", "00", "0.0", "0.00", "1.0", "01.10", "1.2.3", "1.0.0", "10.", "0.1", "000.5", "1..2"])
    if x < 0.3:
        return rng.choice(["1" + "0" * rng.choice([15, 16, 17, 22, 23, 308, 309, 400]), d(rng.choice([17, 40, 308, 309, 330, 1000]))]) + rng.choice(["", ".0", ".5"])
    if x < 0.45:
        return "0." + "0" * rng.choice([3, 4, 5, 15, 16, 300, 322, 323, 330]) + rng.choice(["1", "3", "49", "5"]) + d(rng.choice([0, 0, 3]))
    if x < 0.6:
        return rng.choice(["9007199254740993", "9007199254740992.5", "0.1000000000000000055511151231257827", "0.30000000000000004", "179769313486231570", "4.35", "2.675",
                           "0.1" + "0" * 17 + "1", "1.7976931348623157" + "0" * 5, "4503599627370496.5", "4503599627370497.5"])
    return d(rng.choice([1, 2, 3, 9])) + rng.choice(["", "", "." + d(rng.choice([1, 2, 5, 17, 25]))])


@scenario("C13", "C05", "C02", weight=1)
def literals(rng):
    r = Rec("numbers as they may be written")
    n = lambda: literal(rng)
    for _ in range(3):
        b = r.parse("problem", text_of(rng, ["define", ["problem", "d"], [":domain", "d"], [":init", ["=", ["f"], n()], ["=", ["g", "a"], n()]],
                                             [":goal", [rng.choice(["<=", ">", "="]), ["f"], rng.choice([n(), ["*", n(), n()], ["+", n(), ["f"], n()]])]],
                                             [":metric", "minimize", rng.choice([["f"], ["+", ["f"], n()], ["-", ["/", ["f"], n()], n()]])]], "plain"))
        if b:
            roundtrip(r, b, "problem")
        a = r.parse("domain", text_of(rng, ["define", ["domain", "d"], [":requirements", ":fluents"], [":predicates", ["p"]], [":functions", ["f"]],
                                            [":action", "b", ":parameters", [], ":precondition", ["<", n(), ["f"]],
                                             ":effect", ["and", ["increase", ["f"], n()], ["assign", ["f"], ["-", n(), n()]]]]], "plain"))
        if a:
            roundtrip(r, a, "domain")
    return r


# --------------------------------------------------------------------------- C14: instantiation
def inst_gen(rng):
    g = gens(rng, depth=rng.choice([1, 2, 3]), fancy=0)
    g.signature(full(g))
    g.cl = gen.closure(full(g))
    g.vars_ = lambda k: rng.sample(["x", "y", "z", "w"] + [f"v{i}" for i in range(max(3, k))], k)
    return g


@scenario("C14", weight=4)
def instantiate_formula(rng):
    r = Rec("instantiate formulas, effects and expressions")
    g = inst_gen(rng)
    ps = g.typed_vars(["x", "y", "z", "w"][:rng.choice([1, 2, 3, 4])])
    env = {v["n"]: v["t"] for v in ps}
    head = lambda: nd("pred", "d", [V(v["n"], v["t"]) for v in ps])
    j = rng.choice([lambda: g.gd(env), lambda: g.eff(env), lambda: g.gd(env), lambda: g.eff(env), lambda: g.exp(env, 3), lambda: g.comp(env),
                    lambda: nd("derived", ks=[head(), g.gd(env)]), lambda: nd("minimize", ks=[g._ground_exp(g.exp({}, 2))])])()
    a = r.node(j)
    if not a:
        return r
    for _ in range(3):
        m = []
        for v in ps + [V("other")]:
            x = rng.random()
            if x < 0.2:
                continue
            if x < 0.55:
                t = dict(C(rng.choice(["a", "b", "x"])), t=rng.choice([[], ["t"], ["s"]]))
            elif x < 0.8:
                w = rng.choice(ps)
                t = V(w["n"], w["t"])
            else:
                t = V("n%d" % rng.randrange(3), v["t"])
            m.append((v, t))
        b = r.inst(a, m)
        r.obs(a)
        if b and rng.random() < 0.5:
            r.cmp(a, b)
            r.inst(b, m)
    return r


def one_typed(j, seen=None):
    """No variable name occurs with two lists of types."""
    seen = {} if seen is None else seen
    if isinstance(j, dict):
        if j.get("k") == "v" and sorted(seen.setdefault(j["n"], j["t"])) != sorted(j["t"]):
            return False
        j = list(j.values())
    return all(one_typed(x, seen) for x in j) if isinstance(j, list) else True


@scenario("C14", weight=4)
def instantiate_action(rng):
    r = Rec("instantiate actions")
    g = inst_gen(rng)
    a = r.mkaction(g.action("act"))
    if not a:
        return r
    ps = proj.action(r.objs[a])["ps"]
    for _ in range(3):
        n = len(ps) + rng.choice([0, 0, 0, 0, 1, -1, 2])
        args = [dict(C(rng.choice(["a", "b", "c", "x"])), t=rng.choice([[], ["t"], ["s"]])) if rng.random() < 0.75 else V("n%d" % i, []) for i in range(max(0, n))]
        if len(args) > 1 and rng.random() < 0.3:
            args[1] = args[0]
        if rng.random() < 0.25 and one_typed(proj.action(r.objs[a])):
            args = rng.sample(ps, len(ps)) if rng.random() < 0.7 else [rng.choice(ps + args) for _ in args]
        r.ground(a, args)
        r.obs(a)
    return r


@scenario("C14", weight=2)
def instantiate_parsed(rng):
    r = Rec("instantiate the actions of a parsed domain")
    g = gens(rng, depth=2, fancy=0)
    d = g.domain(full(g))
    a = r.parse("domain", text_of(rng, Writer(rng).domain(d), "plain"))
    if a:
        for act in sorted(r.objs[a].actions, key=lambda x: x.name):
            j = proj.action(act)
            i = r.produce({"op": "value"}, "action", lambda: act, {"action of domain": a})
            if i:
                r.ground(i, [C(rng.choice(["a", "b", "c"])) for _ in j["ps"]])
                r.ground(i, [C("a") for _ in j["ps"]][1:])
                r.obs(i)
        r.obs(a)
    return r


# --------------------------------------------------------------------------- C15 C16: plans
def plan_setting(rng, r):
    g = gens(rng, depth=2, size=rng.choice([0.7, 1]))
    d = g.domain(rng.choice([None, full(g)]))
    p = g.problem(d)
    d["acts"] = [dict(a) for a in d["acts"]]
    a = r.mkdomain(d, rng) if rng.random() < 0.5 else r.parse("domain", text_of(rng, Writer(rng).domain(d), "plain"))
    b = r.mkproblem(p, rng=rng) if rng.random() < 0.5 else r.parse("problem", text_of(rng, Writer(rng).problem(p), "plain"))
    return g, d, p, a, b


def plan_variants(rng, g, d, p):
    steps = g.plan(d, p, n=g.k("plan", rng.choice([0, 1, 2, 3, 6, 12])))
    yield steps
    for _ in range(3):
        s = clone(steps)
        k = rng.choice(["name", "case", "more", "less", "arg", "argcase", "extra", "swap", "const", "actarg", "glue"])
        if not s:
            s = [{"nm": g.name(), "as": []}]
        i = rng.choice([0, len(s) - 1, rng.randrange(len(s))])
        st = s[i]
        if k == "name":
            st["nm"] = g.name()
        elif k == "case":
            st["nm"] = st["nm"].swapcase()
        elif k == "more":
            st["as"].append(rng.choice([o[0] for o in p["objs"]] + [c[0] for c in d["consts"]] + ["zz"]))
        elif k == "less":
            st["as"] = st["as"][:-1]
        elif k == "arg" and st["as"]:
            st["as"][rng.randrange(len(st["as"]))] = g.name()
        elif k == "argcase" and st["as"]:
            st["as"][-1] = st["as"][-1].swapcase()
        elif k == "extra":
            s.insert(i, {"nm": g.name(), "as": []})
        elif k == "swap":
            rng.shuffle(s)
        elif k == "const" and st["as"] and d["consts"]:
            st["as"] = [rng.choice(d["consts"])[0] for _ in st["as"]]
        elif k == "glue" and d["acts"]:
            a = rng.choice(d["acts"])
            s += [{"nm": a["nm"], "as": [rng.choice(gen.GLUED) for _ in a["ps"]]} for _ in range(8)]
        elif k == "actarg" and d["acts"]:
            st["nm"] = rng.choice(d["acts"])["nm"]
        try:
            for t in s:
                build.Plan([(t["nm"], [build.Constant(x) for x in t["as"]])])
        except Exception:
            continue
        yield s


@scenario("C15", weight=1)
def check_plans(rng):
    r = Rec("check plans")
    g, d, p, a, b = plan_setting(rng, r)
    if not (a and b):
        return r
    if rng.random() < 0.3:
        r.attach(b, a)
    for s in plan_variants(rng, g, d, p):
        q = r.mkplan(s) if rng.random() < 0.5 else r.parse("plan", plan_text(rng, s, "plain"))
        if q:
            r.plancheck(q, a, b)
            if rng.random() < 0.3:
                r.plancheck(q, a, b)
            r.obs(q)
    r.obs(a)
    r.obs(b)
    return r


@scenario("C16", weight=1)
def instantiate_plans(rng):
    r = Rec("instantiate plans")
    g, d, p, a, b = plan_setting(rng, r)
    if not a:
        return r
    for s in plan_variants(rng, g, d, p):
        q = r.mkplan(s) if rng.random() < 0.5 else r.parse("plan", plan_text(rng, s, "plain"))
        if q:
            r.planinst(q, a)
            r.obs(q)
    r.obs(a)
    return r


def near_domain(rng, d):
    """A domain in which plans and problems for d may not fit any more."""
    d = clone(d)
    x = rng.choice(["same", "name", "act", "act", "arity", "arity", "const", "body", "types", "reqs"])
    if x == "name":
        d["nm"] = rng.choice([d["nm"].swapcase(), akin(rng, d["nm"])])
    elif x == "act" and d["acts"]:
        d["acts"][0]["nm"] += "2"
    elif x == "arity" and d["acts"]:
        a = rng.choice(d["acts"])
        if a["ps"] and rng.random() < 0.5:
            a.update(ps=a["ps"][1:], pre=NONE, eff=NONE)
        else:
            a["ps"] = a["ps"] + [V("extra", [])]
    elif x == "const" and d["consts"]:
        d["consts"] = d["consts"][1:]
    elif x == "body" and d["acts"]:
        a = rng.choice(d["acts"])
        a["pre"] = nd("and", ks=[nd("pred", "body", [V(v["n"], v["t"]) for v in a["ps"][:2]])])
    elif x == "types":
        d["types"] = d["types"][1:]
    elif x == "reqs":
        d["reqs"] = d["reqs"][1:]
    return d


def comings_and_goings(rng, ops):
    """The same plans and problems against one domain after the other; what is not needed any more is let go, and new objects take its place."""
    r = Rec("domains, problems and plans that come and go")
    g = gens(rng, depth=1, size=0.7, fancy=0)
    g.big = ""
    d = g.domain(full(g))
    p = g.problem(d)
    live = {"d": [], "p": [], "q": []}
    steps = [s for s in plan_variants(rng, g, d, p)] if d["acts"] else [[]]

    def new(k):
        if k == "d":
            i = r.mkdomain(near_domain(rng, d) if live["d"] or rng.random() < 0.5 else d)
        elif k == "p":
            dom = rng.choice(live["d"]) if live["d"] and rng.random() < 0.3 else None
            i = r.mkproblem(vary_problem(rng, p), dom=dom)
        else:
            i = r.mkplan(rng.choice(steps[:1] * 3 + steps))
        if i:
            live[k].append(i)
    for k in "dpq":
        new(k)
    for _ in range(rng.choice([10, 20, 30])):
        x = rng.choice(["d", "d", "p", "q", "drop", "drop"] + ops * (6 // len(ops)))
        if x in live:
            if len(live[x]) > 2 or live[x] and rng.random() < 0.5:
                r.drop(live[x].pop(rng.randrange(len(live[x]))))
            new(x)
            continue
        if x == "drop":
            k = rng.choice("dpq")
            if live[k]:
                r.drop(live[k].pop(rng.randrange(len(live[k]))))
            continue
        if not all(live.values()):
            continue
        a, b, q = (rng.choice(live[k]) for k in "dpq")
        if x == "attach":
            r.attach(b, a)
            r.obs(b)
        elif x == "check":
            r.check(b, a)
        elif x == "plancheck":
            r.plancheck(q, a, b)
        elif x == "planinst":
            i = r.planinst(q, a)
            if i:
                r.drop(i)
    r.obs_all()
    return r


def one_after_the_other(rng, ops):
    """One of domain, problem and plan is made anew for every call, the others stay."""
    r = Rec("one object after the other, the rest stays")
    g = gens(rng, depth=1, size=rng.choice([0.5, 0.8]), fancy=0)
    g.big = ""
    d = g.domain(full(g))
    p = g.problem(d)
    steps = [s for s in plan_variants(rng, g, d, p)] if d["acts"] else [[]]
    pool = {"d": [d] * 2 + [near_domain(rng, d) for _ in range(3)], "p": [p] * 2 + [vary_problem(rng, p) for _ in range(3)],
            "q": [steps[0]] * 2 + rng.sample(steps, min(3, len(steps)))}
    # what they are made of is there before, so that nothing else takes the place of an object that has gone
    ready = {"d": [(j, build.domain_kwargs(j)) for j in pool["d"]], "p": [(j, build.problem_kwargs(j)) for j in pool["p"]], "q": pool["q"]}
    make_ = {"d": lambda x: r.mkdomain(x[0], kw=dict(x[1])), "p": lambda x: r.mkproblem(x[0], kw=dict(x[1])), "q": r.mkplan}
    kinds = "dq" if ops == ["planinst"] else "dp" if "plancheck" not in ops else "dpq"
    turn = rng.choice("d" * 2 + kinds)
    now = {k: 0 if k == turn or k not in kinds else make_[k](ready[k][0]) for k in "dpq"}
    if not all(now[k] for k in kinds if k != turn):
        return r
    for _ in range(rng.choice([6, 10, 16])):
        now[turn] = make_[turn](rng.choice(ready[turn]))
        if not now[turn]:
            continue
        for x in rng.sample(ops, rng.randrange(1, len(ops) + 1)):
            if x == "attach":
                if turn == "p":
                    r.attach(now["p"], now["d"])
            elif x == "check":
                r.check(now["p"], now["d"])
            elif x == "plancheck":
                r.plancheck(now["q"], now["d"], now["p"])
            elif x == "planinst":
                i = r.planinst(now["q"], now["d"])
                if i:
                    r.drop(i)
        r.drop(now[turn])
    r.obs_all()
    return r


@scenario("C15")
def plans_checked_in_turn(rng):
    return rng.choice([comings_and_goings, one_after_the_other])(rng, ["plancheck"])


@scenario("C16")
def plans_instantiated_in_turn(rng):
    return rng.choice([comings_and_goings, one_after_the_other])(rng, ["planinst"])


@scenario("C17")
def problems_attached_in_turn(rng):
    return rng.choice([comings_and_goings, one_after_the_other])(rng, ["attach", "check"])


# --------------------------------------------------------------------------- C17: attachment
def akin(rng, n):
    """Another name: longer, shorter, or of different characters."""
    m = rng.choice(["other1", "other2", n + "x", n + "-" + n, n[:-1] or "o", n[1:] or "o", n[:-1] + "q", "x" + n, n + "1", n[::-1]])
    return m if re.fullmatch("[A-Za-z][-_A-Za-z0-9]*", m) and m not in gen.KEYWORDS else "other1"


def family(rng, r):
    """Several related domains and problems."""
    g = gens(rng, depth=2, size=0.7, fancy=0)
    base = g.domain([":typing", ":adl"] + rng.sample(gen.KEYS, 2))
    p = g.problem(base)
    doms, probs = [], []
    for k in range(rng.choice([2, 3, 4])):
        d = clone(base)
        if k:
            x = rng.choice(["name", "case", "reqs", "morereqs", "types", "same", "notyping", "flat"])
            if x == "name":
                d["nm"] = akin(rng, d["nm"])
            elif x == "case":
                d["nm"] = d["nm"].swapcase()
            elif x == "reqs":
                d["reqs"] = d["reqs"][1:]
            elif x == "morereqs":
                d["reqs"] = sorted(set(d["reqs"]) | {rng.choice(gen.KEYS)})
            elif x == "types":
                d = dict(d, types=d["types"][1:], preds=[], dps=[], acts=[], consts=[], funs=[])
            elif x == "notyping":
                d = dict(d, types=[[t, ""] for t, _ in d["types"]], preds=[], dps=[], acts=[], consts=[], funs=[],
                         reqs=rng.choice([[], [":strips"], d["reqs"]]))
            elif x == "flat":
                d = dict(d, types=[[t, ""] for t, _ in d["types"]], dps=[])
        i = r.mkdomain(d, rng) if rng.random() < 0.5 else r.parse("domain", text_of(rng, Writer(rng).domain(d), "plain"))
        if i:
            doms.append((i, d))
    return g, base, p, doms


def typed_use(rng, p, t):
    """A constant with a type of its own, in one place of the initial state or the goal."""
    c = C(rng.choice([o[0] for o in p["objs"]] + ["o9"]), [t])
    ts = rng.sample([c, C("o8")], 2) if rng.random() < 0.5 else [c]
    atom, fn = nd("pred", "carries", ts), nd("fn", "weighs", ts)
    value = nd("num", "3")
    x = rng.choice(["fact", "not", "value", "value", "goal", "goal", "goal"])
    if x != "goal":
        p["init"] = p["init"] + [{"fact": atom, "not": nd("not", ks=[atom]), "value": nd("f=", ks=[fn, value])}[x]]
        return p
    f = rng.choice([atom, nd("eq", ts=[c, C("o8")]), nd("eq", ts=[C("o8"), c]), nd(rng.choice(["<", ">=", "f="]), ks=rng.sample([fn, value], 2)),
                    nd(">", ks=[nd("fn", "weighs"), nd("-", ks=[value, nd("*", ks=[fn, value])])])])
    for _ in range(rng.choice([0, 1, 1, 2])):
        f = rng.choice([nd("not", ks=[f]), nd("or", ks=[nd("pred", "other"), f]), nd("imply", ks=rng.sample([nd("pred", "other"), f], 2)),
                        nd("forall", vs=[V("x", [])], ks=[f]), nd("exists", vs=[V("x", []), V("y", [])], ks=[f])])
    p["goal"] = nd("and", ks=[p["goal"], f])
    return p


def vary_problem(rng, p):
    p = clone(p)
    x = rng.choice(["same", "same", "reqs", "case", "name", "obj", "goal", "untyped", "noreqs", "carried"])
    if x == "carried":
        return typed_use(rng, p, rng.choice(["undeclared", "object", "t"]))
    if x == "reqs":
        p["reqs"] = sorted(set(p["reqs"]) | set(rng.sample(gen.KEYS, 1)))
    elif x == "noreqs":
        p["reqs"] = []
    elif x == "case":
        p["dom"] = p["dom"].swapcase()
    elif x == "name":
        p["dom"] = akin(rng, p["dom"])
    elif x == "obj":
        p["objs"].append(["extra", rng.choice(["undeclared", "object", "", "t"])])
    elif x == "goal":
        p["goal"] = quant(rng, [rng.choice(["undeclared", "object", "t"])], 1)
    elif x == "untyped":
        p["objs"] = [[n, ""] for n, _ in p["objs"]]
        p["goal"] = nd("and")
    return p


@scenario("C17", weight=1)
def lifecycle(rng):
    r = Rec("problems and domains")
    g, base, p, doms = family(rng, r)
    if not doms:
        return r
    probs = []
    for _ in range(rng.choice([1, 2])):
        q = vary_problem(rng, p)
        x = rng.random()
        d, dj = rng.choice(doms)
        if x < 0.35:
            i = r.mkproblem(q, dom=d, name=rng.random() < 0.5, reqs=rng.random() < 0.3, rng=rng)
            if not i:
                i = r.mkproblem(dict(q, dom=dj["nm"], reqs=dj["reqs"]), dom=d, name=rng.random() < 0.5, reqs=rng.random() < 0.5, rng=rng)
        elif x < 0.75:
            i = r.mkproblem(q, name=rng.random() < 0.97, reqs=rng.random() < 0.7, rng=rng)
        else:
            i = r.parse("problem", text_of(rng, Writer(rng).problem(q), "plain"))
        if i:
            probs.append(i)
    if not probs:
        return r
    for _ in range(rng.choice([3, 5, 7])):
        i, d = rng.choice(probs), rng.choice(doms)[0]
        if rng.random() < 0.5:
            r.attach(i, d)
        else:
            r.check(i, d)
        r.obs(i)
        if rng.random() < 0.3:
            r.obs(d)
    if len(probs) > 1:
        r.cmp(probs[0], probs[1])
    r.obs_all()
    return r


# --------------------------------------------------------------------------- C18: parser state
def interpreter_state():
    import gc
    import warnings
    return {"tracebacklimit": getattr(sys, "tracebacklimit", "unset"), "recursionlimit": sys.getrecursionlimit(),
            "cwd": os.getcwd(), "excepthook": sys.excepthook is sys.__excepthook__, "stdout": id(sys.stdout), "stderr": id(sys.stderr),
            "warnings": len(warnings.filters), "gc": gc.isenabled(), "random": hash(random.getstate()), "path": list(sys.path),
            "switch": sys.getswitchinterval(), "env": len(os.environ), "trace": sys.gettrace() is None}


@scenario("C18", weight=1)
def parser_history(rng):
    r = Rec("a sequence of texts given to the same parsers")
    kinds = rng.choice([["domain"], ["problem"], ["domain", "problem"], ["domain", "problem", "plan"]])
    ps = {k: rec.PARSERS[k]() for k in kinds} if rng.random() < 0.4 else {k: rec.parser(k) for k in kinds}
    texts = {k: [] for k in kinds}
    g = gens(rng, fancy=0, size=rng.choice([0.4, 0.7]))
    g.vars_ = lambda k: rng.sample(["x", "y", "z", "w"] + [f"v{i}" for i in range(max(3, k))], k)
    for k in kinds:
        for _ in range(3):
            toks = any_tree(rng, k, g)
            texts[k].append(toks)
            texts[k].append(mutate(rng, toks) if rng.random() < 0.7 else toks[:rng.randrange(len(toks) + 1)])
    lim = rng.choice([None, None, 0, 7, "del"])
    had = getattr(sys, "tracebacklimit", "unset")
    try:
        if lim == "del":
            if hasattr(sys, "tracebacklimit"):
                del sys.tracebacklimit
        elif lim is not None:
            sys.tracebacklimit = lim
        for _ in range(rng.choice([4, 6, 9])):
            k = rng.choice(kinds)
            before = interpreter_state()
            r.parse(k, Layout(rng, "plain").text(rng.choice(texts[k])), ps[k])
            after = interpreter_state()
            r.flag(before == after, "parse: interpreter state changed", before={x: before[x] for x in before if before[x] != after[x]})
    finally:
        if had == "unset":
            if hasattr(sys, "tracebacklimit"):
                del sys.tracebacklimit
        else:
            sys.tracebacklimit = had
    r.obs_all()
    return r


def D(*secs):
    return "(define (domain d) " + " ".join(secs) + ")"


def P(*secs):
    return "(define (problem p) (:domain d) " + " ".join(secs) + ")"


LEAKY = {
    "domain": [
        D("(:requirements :adl :fluents :non-deterministic)", "(:types t s - t)", "(:constants c - t)", "(:predicates (p ?x - t))",
          "(:functions (f ?x - t))", "(:derived (p ?x) (exists (?y - s) (p ?y)))",
          "(:action a :parameters (?x - t ?y - s) :precondition (or (p c) (= ?x ?y)) :effect (oneof (p ?x) (p ?y)))"),
        D("(:requirements :adl :fluents :non-deterministic)", "(:types t s - t)", "(:constants c - t)", "(:predicates (p ?x - t))",
          "(:action a :parameters (?x - t) :precondition (forall (?x - s) (p ?x)) :effect (p ?x))", "(:bogus)"),
        D("(:action a :parameters (?x) :precondition (p c))"),
        D("(:action a :parameters (?x) :precondition (or (p ?x) (q)))"),
        D("(:predicates (q))", "(:derived (p ?x) (q))"),
        D("(:predicates (p ?x))", "(:derived (p ?x) (q ?y))"),
        D("(:predicates (p ?x) (r ?y))", "(:action a :parameters () :precondition (p ?x) :effect (r ?y))"),
        D("(:requirements :typing)", "(:predicates (p ?x - t))"),
        D("(:predicates (p ?x - object))"),
        D("(:constants d c)", "(:action a :parameters () :precondition (p c))"),
        D("(:functions (f))"), D("(:action a :parameters () :effect (oneof (p) (q)))"),
        D("(:action a :parameters () :precondition (= ?x ?y))"),
        D("(:requirements :equality)", "(:action a :parameters () :precondition (= ?x ?y))"),
        D("(:requirements :derived-predicates :typing)", "(:types s - t)", "(:predicates (p ?x - t))", "(:derived (p ?x - s) (p ?x))"),
        D("(:requirements :derived-predicates :typing)", "(:types s t)", "(:predicates (p ?x - t))", "(:derived (p ?x - s) (p ?x))"),
        "(define (domain d)", "", "(define (domain d) (:requirements :adl :typing) (:constants c c2 - t",
        D("(:requirements :adl) (:action a :parameters (?x) :precondition (exists (?y ?z) (p ?x ?y"),
    ],
    "problem": [
        P("(:requirements :adl)", "(:objects a b - t c)", "(:init (p a) (= (f a) 3))", "(:goal (exists (?x - t) (p ?x a)))", "(:metric minimize (f a))"),
        P("(:init)", "(:goal (p ?x a))"), P("(:init (p a))", "(:goal (or (p b) (q)))"), P("(:objects a a)", "(:init)", "(:goal (and))"),
        P("(:init)", "(:goal (and))"), P("(:objects b - s)", "(:init (p z))", "(:goal (p b))"), "(define (problem p) (:domain d) (:objects a - t)",
        P("(:init (= (f) 1))", "(:goal (forall (?x - t) (p ?x"), P("(:init)"), P("(:init)", "(:goal (exists (?x) (p ?x)))"),
    ],
}
LEAKY["plan"] = ["(a b c)", "(a b c) (a b c)", "(a (b))", "(a ?x)", "", "(and)", "(b c)\n(a)", "(a b", "(c b a) (d)"]


@scenario("C18", weight=1)
def state_leaks(rng):
    """Texts built so that every piece of parser state would show if it survived."""
    r = Rec("texts that depend on declarations of earlier texts")
    k = rng.choice(["domain", "domain", "problem"])
    p = rec.PARSERS[k]() if rng.random() < 0.4 else rec.parser(k)
    pool = LEAKY[k]
    for _ in range(rng.choice([5, 8])):
        r.parse(k, rng.choice(pool), p)
    r.obs_all()
    return r


POISON = {
    "domain": [
        D("(:requirements :adl :fluents :non-deterministic :derived-predicates)", "(:types t s - t)", "(:constants c - t e)",
          "(:predicates (p ?x - t) (q) (r ?y - s))", "(:functions (f ?x - t))", "(:derived (p ?x) (exists (?y - s) (r ?y)))",
          "(:action a :parameters (?x - t ?y - s) :precondition (and (p ?x) (exists (?z - s) (r ?z))) :effect (forall (?w - t) (when (p ?w) (q))))",
          "(:action b :parameters (?y - t ?x - s) :precondition (or (q) (p ?x)) :effect (increase (f ?x) 2))"),
        D("(:requirements :typing :equality)", "(:types s t - s)", "(:predicates (p ?x - s ?y - t) (q ?y))",
          "(:action a :parameters (?x - t ?y - (either s t)) :precondition (= ?x ?y) :effect (and (p ?x ?y) (not (q ?x))))"),
        D("(:requirements :derived-predicates :typing)", "(:types t)", "(:predicates (p ?x - t))", "(:derived (p ?x - t) (p ?x))",
          "(:derived (p ?y) (exists (?x - t) (p ?x)))"),
    ],
    "problem": [
        P("(:requirements :adl :fluents)", "(:objects a b - t c)", "(:init (p a) (not (q b)) (= (f a) 3))", "(:goal (exists (?x - t) (and (p ?x a) (q b))))",
          "(:metric minimize (f a))"),
    ],
    "plan": ["(a b c)(a c)(b)"],
}
PROBES = {
    "domain": [
        D("(:predicates (p ?x) (q) (r ?x ?y))", "(:derived (p ?x) (r ?x ?y))"), D("(:predicates (p ?y))", "(:derived (p ?y) (p ?y))"),
        D("(:predicates (p ?x))", "(:action a :parameters () :precondition (p ?x))"),
        D("(:predicates (p ?x))", "(:action a :precondition (p ?x) :parameters (?y))"),
        D("(:predicates (p ?x))", "(:action a :parameters () :effect (and (p ?x) (p ?z) (p ?w)))"),
        D("(:predicates (p ?x))", "(:derived (p ?z) (p ?w))"),
        D("(:requirements :adl)", "(:types k)", "(:predicates (p ?x))", "(:derived (p ?z) (exists (?y - k) (and (p ?y) (p ?x))))"),
        D("(:predicates (p ?x))", "(:action a :parameters (?x) :precondition (p c))"), D("(:predicates (r ?x - s))"),
        D("(:constants c)", "(:predicates (p ?x))", "(:action a :parameters () :precondition (p c))"),
        D("(:constants e - t)"), D("(:types u - t)"), D("(:requirements :typing)", "(:types u - t)"), D("(:predicates (q))", "(:derived (p ?x) (q))"),
        D("(:functions (f ?x))"), D("(:requirements :fluents)", "(:functions (f ?y))"),
        D("(:action a :parameters (?x ?y) :precondition (or (p ?x) (p ?y)))"), D("(:action a :parameters (?x ?y) :precondition (= ?x ?y))"),
        D("(:action a :parameters (?x ?y) :effect (oneof (p ?x) (p ?y)))"), D(),
    ],
    "problem": [
        P("(:init)", "(:goal (p a))"), P("(:init (p a))", "(:goal (q b ?x))"), P("(:objects a)", "(:init (p a))", "(:goal (p a))"),
        P("(:init)", "(:goal (or (p b) (q)))"), P("(:init)", "(:goal (exists (?x) (p ?x)))"), P("(:init)", "(:goal (and))"), P("(:init)"),
    ],
    "plan": ["(a b c)", "(a)", "()", "(a b) (c)", ""],
}


def poison(rng, k):
    """A text that goes well up to some place."""
    toks = re.findall(r"[()]|[^\s()]+", rng.choice(POISON[k]))
    i = rng.randrange(len(toks) + 1)
    x = rng.random()
    if x < 0.25:
        return " ".join(toks[:i])
    if x < 0.6:
        return " ".join(toks[:i] + [rng.choice(["(", ")", ":bogus", "?x", "define", "(=", "either", "t", "zz", "(zz", "-"])] + toks[i:])
    if x < 0.9:
        i = min(i, len(toks) - 1)
        new = rng.choice(["zz", "?zz", ":bogus", "t", "s", "p", "(", ")", "?x", "?y", "c", "f", "0"])
        return " ".join(toks[:i] + [new] + toks[i + 1:])
    return " ".join(toks)


@scenario("C18")
def poisoned(rng):
    """Texts that fail somewhere, each followed by texts that mean something else if anything is left of it."""
    r = Rec("a text that fails somewhere, then others on the same parser")
    k = rng.choice(["domain"] * 6 + ["problem", "problem", "plan"])
    p = rec.PARSERS[k]() if rng.random() < 0.4 else rec.parser(k)
    for _ in range(rng.choice([4, 8])):
        for _ in range(rng.choice([1, 1, 2])):
            r.parse(k, poison(rng, k), p)
        for t in rng.sample(PROBES[k], min(4, len(PROBES[k]))):
            r.parse(k, t, p)
    r.obs_all()
    return r


@scenario("C18")
def sections_apart(rng):
    """A text, then texts with some of its sections only, or with sections of another: nothing stands in for what is missing."""
    r = Rec("texts of which sections are left out, on the same parser")
    k = rng.choice(["domain", "domain", "domain", "problem"])
    p = rec.PARSERS[k]() if rng.random() < 0.4 else rec.parser(k)
    g = gens(rng, fancy=0, size=rng.choice([0.5, 0.8]), depth=2)
    trees = []
    for _ in range(2):
        g.some = lambda lo, hi: rng.randint(max(lo, 1), max(lo, hi, 1))
        d = g.domain(full(g))
        trees.append(Writer(rng).domain(d) if k == "domain" else Writer(rng).problem(g.problem(d)))
    for _ in range(rng.choice([4, 6])):
        t, o = rng.sample(trees, 2)
        r.parse(k, text_of(rng, t, "plain"), p)
        for _ in range(rng.choice([1, 2])):
            left, out = rng.choice([0.1, 0.25, 0.5]), []
            for sec in t:
                if isinstance(sec, list) and sec and sec[0] not in ("domain", "problem", ":domain"):
                    if rng.random() < left:
                        continue
                    twin = [x for x in o if isinstance(x, list) and x and x[0] == sec[0]]
                    if twin and rng.random() < 0.15:
                        sec = twin[0]
                out.append(sec)
            r.parse(k, text_of(rng, out, "plain"), p)
    r.obs_all()
    return r


@scenario("C18", "C23")
def same_text_twice(rng):
    """Results of the same parser for the same (or nearly the same) text are separate objects."""
    r = Rec("the same text given to the same parsers several times, the results used in between")
    g = gens(rng, fancy=0, size=rng.choice([0.4, 0.8]), depth=2)
    d = g.domain()
    pj = g.problem(d)
    same = rng.random() < 0.5
    dt, pt = text_of(rng, Writer(rng).domain(d), "plain"), text_of(rng, Writer(rng).problem(pj), "plain")
    other = dict(d, nm=d["nm"] + "2")
    ot = text_of(rng, Writer(rng).domain(other), "plain")
    doms, probs = [], []
    for _ in range(rng.choice([5, 8])):
        x = rng.choice(["parse", "parse", "parse", "odom", "attach", "attach", "check", "print"])
        if x == "parse":
            if rng.random() < 0.4:
                doms.append(r.parse("domain", dt if same else text_of(rng, Writer(rng).domain(d), "plain")))
            else:
                probs.append(r.parse("problem", pt if same else text_of(rng, Writer(rng).problem(pj), "plain")))
        elif x == "odom":
            doms.append(r.parse("domain", ot))
        doms, probs = [i for i in doms if i], [i for i in probs if i]
        if doms and probs and x == "attach":
            r.attach(rng.choice(probs), rng.choice(doms))
        elif doms and probs and x == "check":
            r.check(rng.choice(probs), rng.choice(doms))
        elif probs and x == "print":
            r.print(rng.choice(probs))
        r.obs_all()
    for a, b in zip(probs, probs[1:]):
        r.cmp(a, b)
    return r


@scenario("C18")
def nested_parsers(rng):
    """Files through the top-level functions, interleaved with parser objects."""
    import pddl
    r = Rec("top-level functions and parser objects interleaved")
    tmp = tempfile.mkdtemp(prefix="pddl-c18-")
    try:
        g = gens(rng, fancy=0, size=0.5)
        for i in range(4):
            k = rng.choice(["domain", "problem", "plan"])
            toks = any_tree(rng, k, g)
            if rng.random() < 0.4:
                toks = mutate(rng, toks)
            text = Layout(rng, "plain").text(toks)
            fn = os.path.join(tmp, "f%d" % i)
            with open(fn, "w") as f:
                f.write(text)
            top = {"domain": pddl.parse_domain, "problem": pddl.parse_problem, "plan": pddl.parse_plan}[k]
            r.parse(k, text, lambda t: top(fn))
            r.parse(k, text)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return r


# --------------------------------------------------------------------------- C19: equality and order
def near_number(rng, n):
    """Another number that is almost n, or rounded like it, or not near at all."""
    def then(m):
        out = lex.canon_literal(m)
        return out if out != n else "0" if n != "0" else "1"
    x = rng.randrange(6)
    if x == 0:
        return {"0": "1", "1": "2"}.get(n, "0")
    if "." in n:
        return then([n + "01", n[:-1] + str((int(n[-1]) + 1) % 10), n.split(".")[0], repr(math.nextafter(float(n), 1e9)), "0" + n[1:], n[:-1] + "0"][x]
                    if float(n) > 1e-3 else n + "1")
    return then([n + ".5", str(int(n) + 1), str(max(0, int(n) - 1)), n + ".0000000000000001", n + "0", str(int(n) ^ 1)][x])


def perturb(rng, j):
    """A value that differs in one place (or not at all)."""
    j = clone(j)
    spots = []

    def walk(x):
        if isinstance(x, dict):
            spots.append(x)
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            spots.append(x)
            for v in x:
                walk(v)
    walk(j)
    rng.shuffle(spots)
    for s in spots:
        if isinstance(s, dict) and "op" in s and rng.random() < 0.6:
            swap = {"and": "or", "or": "and", "<": "<=", "<=": "<", ">": ">=", ">=": ">", "f=": "<", "exists": "forall", "forall": "exists",
                    "increase": "decrease", "assign": "increase", "-": "/", "minimize": "maximize", "scale-up": "scale-down",
                    "maximize": "minimize"}
            if s["op"] in swap and not (s["op"] == "-" and len(s["ks"]) == 1):
                s["op"] = swap[s["op"]]
                return j
            if s["op"] == "num":
                s["nm"] = near_number(rng, s["nm"])
                return j
            part = {"and": "ks", "or": "ks", "oneof": "ks", "exists": "vs", "forall": "vs", "pred": "ts", "fn": "ts"}.get(s["op"])
            if part and s[part] and rng.random() < 0.3:
                del s[part][rng.randrange(len(s[part]))]
                return j
            if s["op"] in ("pred", "fn"):
                s["nm"] = s["nm"] + rng.choice(["x", "1"]) if rng.random() < 0.5 else s["nm"].swapcase()
                return j
        if isinstance(s, dict) and "k" in s:
            x = rng.random()
            if x < 0.4:
                s["n"] = s["n"] + "z"
                return j
            if x < 0.6 and s["k"] == "v" and not s["t"]:
                s["k"] = "c"
                return j
            if x < 0.75 and s["k"] == "v":
                s["t"] = sorted(set(s["t"]) ^ {rng.choice(s["t"] + ["t"])})
                return j
        if isinstance(s, list) and len(s) > 1 and all(isinstance(y, dict) for y in s) and "op" in s[0] and rng.random() < 0.5:
            s.reverse()
            return j
    return j


def perturb_big(rng, j, field):
    """A domain or problem that differs from j inside one part (or not at all)."""
    j = clone(j)
    x = j[field]
    if field in ("nm", "dom"):
        j[field] = rng.choice([x + "z", x.swapcase()])
    elif field == "goal" or field == "metric" and x != NONE:
        j[field] = perturb(rng, x)
    elif field == "metric" or not x:
        pass
    elif rng.random() < 0.3:
        del x[rng.randrange(len(x))]
    else:
        i = rng.randrange(len(x))
        if field in ("consts", "objs", "types"):
            k = rng.randrange(2)
            n = rng.choice(["", "t", "object", x[i][k] + "z"] if k else [x[i][0] + "z", x[i][0].swapcase()])
            if k or all(n != y[0] for y in x):              # each name once
                x[i][k] = n
        elif field == "funs":
            if rng.random() < 0.5:
                x[i][1] = "" if x[i][1] else "number"
            else:
                f = perturb(rng, x[i][0])
                if all(f != y[0] for y in x):           # a mapping of functions has each of them once
                    x[i][0] = f
        elif field == "reqs":
            x[i] = rng.choice(gen.KEYS)
        else:
            x[i] = perturb(rng, x[i])
    return j


def values(rng, g):
    """A kind and a generator of values of that kind."""
    env = {v["n"]: v["t"] for v in g.typed_vars(["x", "y", "z"])}
    return rng.choice([
        ("node", lambda: g.gd(env)), ("node", lambda: g.eff(env)), ("node", lambda: g.exp(env, 2)), ("node", lambda: g.comp(env)),
        ("action", lambda: g.action("act")), ("node", lambda: nd("minimize", ks=[g.exp(env, 2)])),
        ("term", lambda: g.term(env)), ("node", lambda: nd("derived", ks=[g.pred(env), g.gd(env)])),
    ])


def make(r, kind, j):
    """A value built through the constructors, entered in the session as it is."""
    if kind == "req":
        i = r.next
        r.next += 1
        r.objs[i], r.kinds[i] = build.REQ[j], "req"
        r.add({"op": "value", "kind": "req", "id": i, "val": j}, {"requirement": j})
        return i
    return r.produce({"op": "value"}, kind, lambda: build.any_(kind, j), {"build": j, "kind": kind})


@scenario("C19", weight=4)
def equality(rng):
    r = Rec("equality of near values")
    g = inst_gen(rng)
    kind, f = values(rng, g)
    j = f()
    js = [j, clone(j)] + [perturb(rng, j) for _ in range(3)] + [f()]
    ids = []
    for x in js:
        out, _ = rec.guarded(lambda: build.any_(kind, x))
        if out == "ok":
            ids.append(make(r, kind, x))
    ids = [i for i in ids if i]
    for a in ids:
        for b in ids:
            if a <= b:
                r.cmp(a, b)
    # across kinds
    i = make(r, "term", V("x"))
    k = make(r, "term", C("x"))
    r.cmp(i, k)
    if ids:
        r.cmp(ids[0], i)
        r.cmp(ids[0], k)
    return r


def churn(rng, ops):
    """Many small values used and let go; the memory of one is used for the next."""
    r = Rec("values that come and go")
    g = inst_gen(rng)
    g.big = ""
    live = []
    for _ in range(rng.choice([10, 20, 30])):
        while len(live) > 2:
            r.drop(live.pop(rng.randrange(len(live))))
        kind, f = values(rng, g)
        j = perturb(rng, f())
        if rec.guarded(lambda: build.any_(kind, j))[0] != "ok":
            continue
        two = [i for i in (make(r, kind, j), make(r, kind, j)) if i]
        live += two
        for i in two[:rng.choice([1, 2])]:
            x = rng.choice(ops)
            if x == "inst" and kind == "action":
                n = len(proj.action(r.objs[i])["ps"])
                k = r.ground(i, [C(rng.choice("ab")) for _ in range(n)])
            elif x == "inst" and kind == "node" and j["op"] not in ("minimize", "maximize"):
                k = r.inst(i, [(V(n, g_tags(j, n)), C(rng.choice("ab"))) for n in "xyz" if g_tags(j, n) is not None])
            elif x == "copy":
                k = r.copy(i, rng.choice(["copy", "deepcopy", "pickle0", "pickle2", "pickle4"]))
            else:
                k = 0
            if x == "hash":
                r.hash(i)
            elif x == "cmp":
                r.cmp(i, rng.choice(live))
            if k:
                live.append(k)
            r.obs(i)
        if len(two) == 2:
            if "cmp" in ops:
                r.cmp(*two)
            if "text" in ops and kind != "term":
                record_texts(r, two)
    return r


def one_value_after_the_other(rng, ops):
    """Values made of parts that stay, each let go before the next one is made."""
    r = Rec("values that come and go, their parts stay")
    big = "text" in ops and rng.random() < 0.5
    if big:
        g = gens(rng, depth=1, size=0.5, fancy=0)
        g.big = ""
        d = g.domain(full(g))
        kind = rng.choice(["domain", "problem"])
        js = [g.domain(full(g)) if kind == "domain" else g.problem(d) for _ in range(4)]
    else:
        g = inst_gen(rng)
        g.big = ""
        kind, f = values(rng, g)
        j = f()
        js = [j, f()] + [perturb(rng, j) for _ in range(3)]
    ready = []

    def late(j):
        if kind == "domain":
            kw = build.domain_kwargs(j)
            return lambda: r.mkdomain(j, kw=dict(kw))
        if kind == "problem":
            kw = build.problem_kwargs(j)
            return lambda: r.mkproblem(j, kw=dict(kw))
        fn = build.late(kind, j)
        fn()
        return lambda: r.produce({"op": "value"}, kind, fn, {"build": j, "kind": kind})
    for j in js:
        out, fn = rec.guarded(lambda: late(j))
        if out == "ok":
            ready.append((j, fn))
    if not ready:
        return r
    stay = ready[0][1]()
    for _ in range(rng.choice([6, 12])):
        j, fn = rng.choice(ready)
        i = fn()
        if not i:
            break
        k, x = 0, rng.choice(ops)
        if x == "inst" and kind == "action":
            n = len(proj.action(r.objs[i])["ps"])
            k = r.ground(i, [C("a") for _ in range(n)])
        elif x == "inst" and kind == "node" and j["op"] not in ("minimize", "maximize"):
            k = r.inst(i, [(V(n, g_tags(j, n)), C("a")) for n in "xyz" if g_tags(j, n) is not None])
        elif x == "copy":
            k = r.copy(i, rng.choice(["copy", "deepcopy", "pickle0", "pickle1", "pickle2", "pickle3", "pickle4", "pickle5"]))
        elif x == "hash" and not big:
            r.hash(i)
        elif x == "cmp" and stay:
            r.cmp(i, stay)
        elif x == "text" and big:
            r.print(i)
        elif x == "text" and kind != "term" and stay:
            record_texts(r, [i, stay])
        if k:
            r.obs(i)
            r.drop(k)
        r.drop(i)
    r.obs_all()
    return r


def in_turn(rng, ops):
    return rng.choice([churn, one_value_after_the_other])(rng, ops)


@scenario("C12", "C13")
def values_built_in_turn(rng):
    return churn(rng, ["obs"])


@scenario("C14")
def values_instantiated_in_turn(rng):
    return in_turn(rng, ["inst"])


@scenario("C19")
def values_compared_in_turn(rng):
    return in_turn(rng, ["cmp", "hash"])


@scenario("C20")
def values_copied_in_turn(rng):
    return in_turn(rng, ["copy", "hash", "copy"])


@scenario("C21")
def values_printed_in_turn(rng):
    return in_turn(rng, ["obs", "text"])


def g_tags(j, n):
    """The types that variable n has in j."""
    if isinstance(j, dict):
        if j.get("k") == "v" and j.get("n") == n:
            return j["t"]
        j = list(j.values())
    if isinstance(j, list):
        for x in j:
            t = g_tags(x, n)
            if t is not None:
                return t
    return None


@scenario("C19", weight=2)
def equality_big(rng):
    r = Rec("equality of domains, problems and plans")
    g = gens(rng, size=0.6, depth=2, fancy=0)
    d = g.domain(full(g))
    p = g.problem(d)
    ids = []
    what = rng.choice(["domain", "problem", "plan"])
    if what == "domain":
        for k in range(6):
            e = clone(d)
            if k >= 2:
                e = perturb_big(rng, e, rng.choice(["nm", "reqs", "types", "consts", "preds", "funs", "funs", "dps", "acts", "acts"]))
            out, _ = rec.guarded(lambda: build.domain(e))
            if out == "ok":
                ids.append(r.mkdomain(e, rng))
    elif what == "problem":
        da = r.mkdomain(d, rng)
        for k in range(6):
            e = clone(p)
            if k >= 2:
                e = perturb_big(rng, e, rng.choice(["nm", "dom", "reqs", "objs", "init", "init", "goal", "goal", "metric"]))
                if k == 5:
                    e["metric"] = NONE
            if rec.guarded(lambda: build.problem_kwargs(e))[0] != "ok":
                continue
            i = r.mkproblem(e, rng=rng)
            if i and da and rng.random() < 0.4:
                r.attach(i, da)
            ids.append(i)
    else:
        for k in range(4):
            s = g.plan(d, p)
            ids.append(r.mkplan(s))
            ids.append(r.mkplan(clone(s)))
            if s:
                t, i = clone(s), rng.randrange(len(s))
                if t[i]["as"] and rng.random() < 0.6:
                    t[i]["as"][rng.randrange(len(t[i]["as"]))] = rng.choice(t[i]["as"] + ["a", "A"])
                elif rng.random() < 0.5:
                    rng.shuffle(t)
                else:
                    t[i]["nm"] = g.near(t[i]["nm"])
                ids.append(r.mkplan(t))
    ids = [i for i in ids if i]
    for a in ids:
        for b in ids:
            if a <= b:
                r.cmp(a, b)
    return r


@scenario("C19", weight=3)
def ordering(rng):
    r = Rec("order")
    g = inst_gen(rng)
    kind = rng.choice(["var", "const", "pred", "fn", "num", "req", "derived"])
    some = [g.tags() for _ in range(rng.choice([1, 2, 3]))]
    kinds = {n: [g.tags(), *some][:rng.choice([1, 2, 4])] for n in ["x", "y", "z", "X", "x1", "xy", "y-1"]}
    tags = {}

    def fresh():
        """The types of the variables, for the next value."""
        tags.update({n: rng.choice(kinds[n]) for n in kinds})
    fresh()
    var = lambda: (lambda n: V(n, tags[n]))(rng.choice(sorted(tags)))
    cst = lambda: C(rng.choice(["a", "b", "A", "ab", "x", "y", "x1", "a-b", "a_b"]))
    tm = lambda: var() if rng.random() < 0.6 else cst()
    mk = {
        "var": ("term", var), "const": ("term", cst),
        "pred": ("node", lambda: nd("pred", rng.choice(["p", "q", "P", "pq", "p-q"]), [tm() for _ in range(rng.randrange(4))])),
        "fn": ("node", lambda: nd("fn", rng.choice(["f", "g", "F", "fg", "total-cost"]), [tm() for _ in range(rng.randrange(4))])),
        "num": ("node", lambda: nd("num", lex.canon_literal(rng.choice(gen.LITS)))),
        "req": ("req", lambda: rng.choice(gen.KEYS + [":object-fluents"])),
    }
    heads = [mk["pred"][1]() for _ in range(2)]
    mk["derived"] = ("node", lambda: nd("derived", ks=[rng.choice(heads), rng.choice(heads + [mk["pred"][1]()])]))
    k, f = mk[kind]
    ids, js = [], []
    for _ in range(rng.choice([3, 5, 6])):
        fresh()
        j = f()
        if js and kind in ("pred", "fn") and rng.random() < 0.5:        # one term more, less or other than an earlier one
            j = clone(rng.choice(js))
            at = rng.randrange(len(j["ts"]) + 1)
            j["ts"][at:at + rng.choice([0, 1])] = rng.choice([[], [tm()]])
            if rng.random() < 0.3:              # the same variables, with other types
                j["ts"] = [dict(t, t=tags[t["n"]]) if t["k"] == "v" else t for t in j["ts"]]
        if js and kind == "num" and rng.random() < 0.6:
            j = nd("num", near_number(rng, rng.choice(js)["nm"]))
        if k != "req" and rec.guarded(lambda: build.any_(k, j))[0] != "ok":
            continue
        js.append(j)
        i = make(r, k, j)
        if i:
            ids.append(i)
    xs = [r.objs[i] for i in ids]

    def rel():
        lt = [[a < b for b in xs] for a in xs]
        le = [[a <= b for b in xs] for a in xs]
        gt = [[a > b for b in xs] for a in xs]
        ge = [[a >= b for b in xs] for a in xs]
        srt = []
        for _ in range(3):
            q = list(zip(ids, xs))
            rng.shuffle(q)
            m = {id(x): i for i, x in q}
            srt.append([m[id(x)] for x in sorted(x for _, x in q)])
        return lt, le, gt, ge, srt
    out, v = rec.guarded(rel)
    if out != "ok":
        r.flag(False, "order: " + out, kind=kind, exception=repr(v)[:200])
        return r
    if not all(isinstance(y, bool) for m in v[:4] for row in m for y in row):
        r.flag(False, "order: result is not a truth value", kind=kind)
        return r
    r.add({"op": "order", "ids": ids, "lt": v[0], "le": v[1], "gt": v[2], "ge": v[3], "sorted": v[4]}, {"order of": ids})
    for a in ids:
        for b in ids:
            if a < b:
                r.cmp(a, b)
    return r


# --------------------------------------------------------------------------- C20 C21: copies and processes
class Children:
    def __init__(self):
        self.ps = {}

    def ask(self, seed, q):
        if seed not in self.ps or self.ps[seed].poll() is not None:
            env = dict(os.environ, PYTHONHASHSEED=str(seed), PDDL_REPO=REPO)
            self.ps[seed] = subprocess.Popen([sys.executable, "-B", os.path.join(HERE, "child.py")], stdin=subprocess.PIPE,
                                             stdout=subprocess.PIPE, env=env, text=True)
        p = self.ps[seed]
        try:
            p.stdin.write(json.dumps(q) + "\n")
            p.stdin.flush()
            a = p.stdout.readline()
            return json.loads(a) if a else {"out": "crash", "r": None, "exc": "child ended"}
        except (BrokenPipeError, ValueError):
            return {"out": "crash", "r": None, "exc": "child ended"}


CHILD = Children()


def touch(rng, o):
    """Use an object in ways that may leave traces in it."""
    for _ in range(rng.choice([0, 1, 2])):
        try:
            rng.choice([lambda: hash(o), lambda: repr(o), lambda: str(o), lambda: o == o, lambda: {o: 1}])()
        except Exception:
            pass


def anything(rng, r):
    """One value of a random kind in session r: (id, kind, json)."""
    g = inst_gen(rng)
    x = rng.random()
    if x < 0.55:
        kind, f = values(rng, g)
        j = f()
        i = make(r, kind, j)
    elif x < 0.6:
        kind, j = "req", rng.choice(gen.KEYS)
        return make(r, "req", j), "req", j
    else:
        g = gens(rng, size=0.5, depth=2)
        d = g.domain()
        if x < 0.75:
            kind, j = "domain", d
            i = r.mkdomain(d) if rng.random() < 0.5 else r.parse("domain", text_of(rng, Writer(rng).domain(d), "plain"))
        elif x < 0.9:
            kind, j = "problem", g.problem(d)
            home = rng.random() < 0.6
            if home:
                j["reqs"] = d["reqs"]
            i = r.mkproblem(j) if rng.random() < 0.5 else r.parse("problem", text_of(rng, Writer(rng).problem(j), "plain"))
            if home and i:              # attached to a domain, of which parts may be missing
                d = dict(d, **{x: [] for x in rng.sample(["acts", "dps", "preds", "funs"], rng.choice([0, 0, 1, 2, 4]))})
                a = r.mkdomain(d)
                if a and r.attach(i, a):
                    r.home = d
        else:
            kind, j = "plan", g.plan(d, g.problem(d)) if rng.random() < 0.6 else g.plan()
            if rng.random() < 0.5:          # names that differ in case only
                j = [{"nm": s["nm"], "as": [rng.choice([a, a] + [x for x in [a.swapcase()] if x not in gen.KEYWORDS]) for a in s["as"]]} for s in j]
            i = r.mkplan(j) if rng.random() < 0.5 else r.parse("plan", plan_text(rng, j, "plain"))
    if not i:
        return 0, kind, j
    return i, kind, proj.any_(kind, r.objs[i])


def record_copy(r, i, c, how):
    """c is a copy of object i; returns its id."""
    kind = r.kinds[i]
    out, val = rec.guarded(lambda: proj.any_(kind, c))
    if out != "ok":
        r.flag(False, "copy: the copy is not a proper value", how=how, exception=repr(val)[:200])
        return 0
    k = r.next
    r.next += 1
    r.objs[k], r.kinds[k] = c, kind
    r.add({"op": "copy", "a": i, "id": k, "val": val}, {"copy": i, "how": how})
    r.carried(i, k)
    return k


@scenario("C20", weight=4)
def copies(rng):
    r = Rec("copies in the same process")
    i, kind, j = anything(rng, r)
    if not i:
        return r
    o = r.objs[i]
    for how in rng.sample(["copy", "deepcopy", "deepcopy", "pickle%d" % rng.randrange(pickle.HIGHEST_PROTOCOL + 1)], 3):
        touch(rng, o)
        fn = {"copy": lambda: copy.copy(o), "deepcopy": lambda: copy.deepcopy(o)}.get(how) or \
            (lambda: pickle.loads(pickle.dumps(o, int(how[6:]))))
        out, c = rec.guarded(fn)
        if out != "ok":
            r.flag(False, "copy: " + how + " fails", exception=repr(c)[:200])
            continue
        if kind == "req":
            r.flag(c is o and hash(c) == hash(o), "copy: requirement differs")
            continue
        k = record_copy(r, i, c, how)
        if not k:
            continue
        touch(rng, c)
        r.cmp(i, k)
        f = make(r, kind, j) if kind in ("node", "action", "term") else 0
        if f:
            r.cmp(k, f)
        r.obs(i)
    return r


@scenario("C20", weight=3)
def pickles(rng):
    r = Rec("pickles loaded in processes with other hash seeds")
    i, kind, j = anything(rng, r)
    if not i:
        return r
    o = r.objs[i]
    touch(rng, o)
    for seed in rng.sample([101, 102], rng.choice([1, 2])):
        out, data = rec.guarded(lambda: pickle.dumps(o, rng.randrange(2, pickle.HIGHEST_PROTOCOL + 1)))
        if out != "ok":
            r.flag(False, "copy: pickling fails", exception=repr(data)[:200])
            break
        a = CHILD.ask(seed, {"op": "load", "kind": kind, "json": j, "dom": getattr(r, "home", None), "data": base64.b64encode(data).decode()})
        if a["out"] != "ok":
            r.flag(False, "copy: loading in another process fails", exception=a["exc"])
            continue
        if kind != "req":
            r.add({"op": "copy", "a": i, "id": 0, "val": a["r"]["val"]}, {"pickle of": i, "hash seed": seed})
        r.flag(a["r"]["eq"], "copy: loaded value does not equal a fresh equal value")
        r.flag(a["r"]["hash"], "copy: loaded value does not hash like a fresh equal value")
        # and back: the original is still usable
        out, c = rec.guarded(lambda: pickle.loads(data))
        if out == "ok" and kind != "req":
            val = r.project(kind, c)
            if val is not None:
                r.add({"op": "copy", "a": i, "id": 0, "val": val}, {"pickle of": i})
        if kind != "req":
            r.obs(i)
            f = make(r, kind, j) if kind in ("node", "action", "term") else 0
            if f:
                r.cmp(i, f)
    return r


@scenario("C21", weight=4)
def texts(rng):
    r = Rec("the texts of equal values")
    g = gens(rng, size=rng.choice([0.6, 1, 2]), depth=rng.choice([1, 2, 3]))
    d = g.domain(rng.choice([None, full(g)]))
    kind = rng.choice(["domain", "domain", "problem", "plan"])
    j = d if kind == "domain" else g.problem(d) if kind == "problem" else g.plan(d, g.problem(d))
    if kind != "plan" and rng.random() < 0.4:
        twins(rng, g, j)
        if rec.guarded(lambda: build.domain(j) if kind == "domain" else build.problem_kwargs(j))[0] != "ok":
            return r
    ids, txt = [], []
    for k in range(3):
        i = {"domain": lambda: r.mkdomain(j, rng), "problem": lambda: r.mkproblem(j, rng=rng), "plan": lambda: r.mkplan(j)}[kind]()
        if not i:
            return r
        touch(rng, r.objs[i])
        for _ in range(2):
            out, t = rec.guarded(lambda: rec.TO_STRING[kind](r.objs[i]))
            if out != "ok":
                r.flag(False, "print: " + out, exception=repr(t)[:200])
                return r
            ids.append(i)
            txt.append(t)
        r.obs(i)
    if kind != "plan":
        sx = Writer(rng).domain(j) if kind == "domain" else Writer(rng).problem(j)
        i = r.parse(kind, text_of(rng, sx, "plain"))
        if i:
            ids.append(i)
            txt.append(str(r.objs[i]))
    for seed in (101, 102):
        a = CHILD.ask(seed, {"op": "text", "kind": kind, "json": j, "n": 2, "seed": rng.randrange(10**6)})
        if a["out"] != "ok":
            r.flag(False, "print: " + a["out"] + " in another process", exception=a["exc"])
            continue
        for t in a["r"]["texts"]:
            ids.append(ids[0])
            txt.append(t)
    r.add({"op": "text", "ids": ids, "txt": txt}, {"texts": txt[:3]})
    return r


def twins(rng, g, j):
    """Give the unordered parts of a domain or problem members that are almost the same."""
    def twin(xs, of):
        have = {json.dumps(of(x)) for x in xs}
        for x in list(xs):
            y = clone(x)
            v = g.near(of(y)) if rng.random() < 0.4 else of(y).swapcase()
            if rng.random() < 0.6 and v not in gen.KEYWORDS and json.dumps(v) not in have:
                have.add(json.dumps(v))
                if isinstance(y, list):
                    y[0] = v
                else:
                    y["nm"] = v
                xs.append(y)
    if "init" in j:
        twin(j["objs"], lambda x: x[0])
        for f in list(j["init"]):
            a = clone(f)
            k = a if a["op"] == "pred" else a["ks"][0]
            if k["ts"] and rng.random() < 0.7:
                t = rng.choice(k["ts"])
                t["n"] = rng.choice([t["n"].swapcase(), g.near(t["n"])])
            elif rng.random() < 0.5:
                k["nm"] = rng.choice([k["nm"].swapcase(), g.near(k["nm"])])
            else:
                k["ts"].append(C(rng.choice(["a", "A"])))
            if k["nm"] not in gen.KEYWORDS:
                j["init"].append(a)
    else:
        twin(j["consts"], lambda x: x[0])
        twin(j["preds"], lambda x: x["nm"])
        fs = [f for f, _ in j["funs"]]
        n = len(fs)
        twin(fs, lambda x: x["nm"])
        j["funs"] += [[f, "number"] for f in fs[n:]]
        for x in list(j["dps"]):
            if rng.random() < 0.5:
                j["dps"].append(dict(clone(x), c=perturb(rng, x["c"])))
        twin(j["acts"], lambda x: x["nm"])


def record_texts(r, ids, seeds=(), j=None):
    """The texts of objects with equal values, and the texts of value j printed by processes with other hash seeds."""
    kind = r.kinds[ids[0]]
    all_, txt = [], []
    for i in ids:
        out, t = rec.guarded(lambda: rec.TO_STRING.get(kind, str)(r.objs[i]))
        if out != "ok":
            r.flag(False, "print: " + out, exception=repr(t)[:200])
            return
        all_.append(i)
        txt.append(t)
    for seed in seeds:
        a = CHILD.ask(seed, {"op": "text", "kind": kind, "json": j, "n": 1, "seed": seed})
        if a["out"] != "ok":
            r.flag(False, "print: " + a["out"] + " in another process", exception=a["exc"])
            continue
        all_.append(ids[0])
        txt.append(a["r"]["texts"][0])
    r.add({"op": "text", "ids": all_, "txt": txt}, {"texts": txt})


@scenario("C21", weight=2)
def node_texts(rng):
    r = Rec("the texts of equal formulas and actions")
    g = inst_gen(rng)
    kind, f = values(rng, g)
    if kind == "term":
        kind, f = "action", lambda: g.action("act")
    j = f()
    ids, txt = [], []
    for _ in range(2):
        q = shuffle_vs(rng, j)
        i = make(r, kind, q)
        if not i:
            return r
        ids.append(i)
        txt.append(str(r.objs[i]))
    for seed in (101, 102):
        a = CHILD.ask(seed, {"op": "text", "kind": kind, "json": shuffle_vs(rng, j), "n": 1, "seed": 0})
        if a["out"] != "ok":
            r.flag(False, "print: " + a["out"] + " in another process", exception=a["exc"])
            continue
        ids.append(ids[0])
        txt.append(a["r"]["texts"][0])
    r.add({"op": "text", "ids": ids, "txt": txt}, {"texts": txt})
    return r


def shuffle_vs(rng, j):
    j = clone(j)

    def walk(x):
        if isinstance(x, dict):
            if "vs" in x:
                rng.shuffle(x["vs"])
            if "t" in x and isinstance(x["t"], list):
                rng.shuffle(x["t"])
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    walk(j)
    return j


# --------------------------------------------------------------------------- C22: command line
def cli_files(rng):
    """Contents for domain, problem and plan file."""
    g = gens(rng, size=0.6, depth=2)
    d = g.domain(rng.choice([None, full(g)]))
    p = g.problem(d)
    s = g.plan(d, p)
    tokd, tokp = flat(Writer(rng).domain(d)), flat(Writer(rng).problem(p))
    x = rng.random()
    if x < 0.12:
        tokd = mutate(rng, tokd)
    elif x < 0.24:
        tokp = mutate(rng, tokp)
    elif x < 0.4:
        q = vary_problem(rng, p)
        tokp = flat(Writer(rng).problem(q))
    elif x < 0.65:
        v = list(plan_variants(rng, g, d, p))
        s = rng.choice(v)
    toks = []
    for t in Writer(rng).plan(s):
        toks += flat(t)
    if 0.65 <= x < 0.72:
        toks = mutate(rng, toks)
    style = rng.choice(["plain", "lines", "wild"])
    return [Layout(rng, style).text(t) for t in (tokd, tokp, toks)]


@scenario("C22")
def command_line(rng):
    r = Rec("command line")
    tmp = tempfile.mkdtemp(prefix="pddl-c22-")
    try:
        contents = cli_files(rng)
        paths = []
        for n, c in zip(["domain.pddl", "problem.pddl", "plan.txt"], contents):
            path = os.path.join(tmp, n)
            with open(path, "w", encoding="utf8", newline="") as f:
                f.write(c)
            paths.append(path)
        for _ in range(4):
            n = rng.choice([1, 2, 2, 3, 3, 3])
            quiet = rng.random() < 0.25
            ps = list(paths[:n])
            if rng.random() < 0.08:
                ps[rng.randrange(n)] = rng.choice([os.path.join(tmp, "nothing"), tmp])
            cs = contents
            if rng.random() < 0.12:
                js = [rng.choice([k, rng.randrange(3)]) for k in range(n)]
                ps, cs = [paths[k] for k in js], [contents[k] for k in js]
            cli_case(r, ps, cs, quiet, tmp, rng.random() < 0.5, rng.random() < 0.1)
        for path, c in zip(paths, contents):
            with open(path, encoding="utf8", newline="") as f:
                r.flag(f.read() == c, "cli: an input file was changed")
        r.flag(sorted(os.listdir(tmp)) == sorted(["domain.pddl", "problem.pddl", "plan.txt"]), "cli: files were created or removed")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return r


@functools.lru_cache(maxsize=500)
def printed(kind, content):
    out, o = rec.guarded(lambda: rec.parser(kind)(content))
    if out == "ok":
        out, o = rec.guarded(lambda: rec.TO_STRING[kind](o))
    return o if out == "ok" else None


def cli_case(r, paths, contents, quiet, tmp, quiet_first=False, process=False):
    """One run of the command line on the first files; contents: what they hold if they are there."""
    from click.testing import CliRunner
    from pddl.__main__ import cli
    outs = []
    for kind, path, content in zip(["domain", "problem", "plan"], paths, contents):
        o = printed(kind, content) if os.path.isfile(path) else None
        outs.append(None if o is None else o + "\n")
    texts = [[]]
    for o in outs:
        texts.append([("".join(texts[-1]) + o)] if o is not None and texts[-1] != ["?"] else ["?"])
    texts = [[x for x in t if x] for t in texts]
    args = (["--quiet"] if quiet and quiet_first else []) + paths + (["-q"] if quiet and not quiet_first else [])
    if process:
        env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1")
        q = subprocess.run([sys.executable, "-B", "-m", "pddl"] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=tmp)
        out, code, shown = "exit", q.returncode, q.stdout.decode("utf8", "replace")
    else:
        o2, q = rec.guarded(lambda: run_cli(CliRunner, cli, args))
        out, code, shown = ("exit", q[0], q[1]) if o2 == "ok" else (o2, 1, "")
    files = []
    for k, path in enumerate(paths):
        ok, forms = lex.read(contents[k])
        files.append({"there": os.path.isfile(path), "lex": ok, "forms": forms})
    r.add({"op": "cli", "files": files, "out": out, "code": code, "quiet": quiet, "shown": [shown] if shown else [], "texts": texts,
           "fold": folds_in([f["forms"] for f in files])},
          {"command": args, "code": code, "files": contents[:len(paths)], "stdout": shown})


def run_cli(runner, cli, args):
    try:
        x = runner(mix_stderr=False)
    except TypeError:
        x = runner()
    keep = sys.stdout
    try:
        res = x.invoke(cli, args)
    finally:
        sys.stdout = keep
    if isinstance(res.exception, rec.Hang):
        raise rec.Hang()
    return res.exit_code, res.stdout


def folds_in(forms):
    names = set()

    def walk(x):
        if isinstance(x, dict):
            if x["k"] == "n":
                names.add(x["a"])
            for y in x["l"]:
                walk(y)
        else:
            for y in x:
                walk(y)
    walk(forms)
    return rec.folds(names)


# --------------------------------------------------------------------------- C23: isolation
def spoil(rng, x):
    """Change a collection of the caller."""
    if isinstance(x, list):
        k = rng.choice(["clear", "pop", "dup", "rev"])
        if k == "clear":
            x.clear()
        elif k == "pop" and x:
            x.pop()
        elif k == "dup" and x:
            x.append(x[0])
        else:
            x.reverse()
            x[:1] = []
    elif isinstance(x, set):
        x.clear() if rng.random() < 0.5 or not x else x.pop()
    elif isinstance(x, dict):
        if x and rng.random() < 0.6:
            k = next(iter(x))
            if rng.random() < 0.5:
                del x[k]
            else:
                x[k] = "zzz"
        else:
            x.clear()


def as_coll(rng, xs):
    xs = list(xs)
    try:
        return set(xs) if rng.random() < 0.5 else xs
    except TypeError:
        return xs


@scenario("C23", weight=3)
def caller_collections(rng):
    r = Rec("the caller changes the collections given to constructors")
    g = gens(rng, size=0.7, depth=2)
    d = g.domain()
    what = rng.choice(["domain", "problem", "plan"])
    if what == "domain":
        kw = build.domain_kwargs(d, rng)
        for k in ("requirements", "constants", "predicates", "derived_predicates", "actions"):
            kw[k] = as_coll(rng, kw[k])
        i = r.mkdomain(d, kw=kw)
        k2 = dict(kw)
        j = r.mkdomain(d, kw=k2) if rng.random() < 0.5 else 0
        colls = [v for k, v in kw.items() if k != "name"]
    elif what == "problem":
        p = g.problem(d)
        a = r.mkdomain(d, rng)
        kw = build.problem_kwargs(p, rng)
        for k in ("requirements", "objects", "init"):
            kw[k] = as_coll(rng, kw[k])
        colls = [kw["requirements"], kw["objects"], kw["init"]]
        i = r.mkproblem(p, kw=dict(kw))
        j = r.mkproblem(p, kw=dict(kw)) if rng.random() < 0.5 else 0
        if i and a and rng.random() < 0.5:
            r.attach(i, a)
    else:
        s = g.plan(d, g.problem(d))
        arg = [(t["nm"], [build.Constant(c) for c in t["as"]]) for t in s]
        colls = [arg] + [x for _, x in arg]
        i = r.produce({"op": "mkplan", "arg": s}, "plan", lambda: build.Plan(arg), {"Plan": s})
        j = r.produce({"op": "mkplan", "arg": s}, "plan", lambda: build.Plan(arg), {"Plan": s})
    for _ in range(3):
        spoil(rng, rng.choice(colls))
        r.obs_all()
    if i and j:
        r.cmp(i, j)
    return r


@scenario("C23", weight=2)
def caller_collections_small(rng):
    r = Rec("the caller changes the collections given to formulas, effects, terms and actions")
    from pddl.action import Action
    from pddl.logic.base import ExistsCondition, ForallCondition
    from pddl.logic.effects import Forall
    from pddl.logic.terms import Variable
    g = inst_gen(rng)
    vs = g.typed_vars(["x", "y", "z"][:rng.choice([1, 2, 3])])
    env = {v["n"]: v["t"] for v in vs}
    tags = g.tags(0)
    coll = as_coll(rng, tags)
    i = r.produce({"op": "value"}, "term", lambda: Variable("x", coll), {"Variable": tags})
    spoil(rng, coll)
    val = V("x", tags)
    r.objs and r.add({"op": "obs", "id": i, "val": proj.any_("term", r.objs[i])}, {"observe": i}) if i else None
    f = g.gd(env)
    for cls, op in [(ForallCondition, "forall"), (ExistsCondition, "exists"), (Forall, "eforall")]:
        c = as_coll(rng, [build.term(v) for v in vs])
        b = f if op != "eforall" else g.eff(env)
        k = r.produce({"op": "node", "nop": op, "nm": "", "ts": [], "vs": vs, "ks": [b]}, "node", lambda: cls(build.node(b), c), {"build": op})
        if k:
            spoil(rng, c)
            r.obs(k)
            hash(r.objs[k])
            spoil(rng, c)
            r.obs(k)
    a = g.action("act")
    ps = [build.term(t) for t in a["ps"]]
    k = r.produce({"op": "mkaction", "arg": a}, "action", lambda: Action("act", ps, build.opt(a["pre"]), build.opt(a["eff"])), {"Action": a})
    if k:
        args = [build.Constant("c%d" % n) for n in range(len(ps))]
        m = r.produce({"op": "ground", "a": k, "args": [C("c%d" % n) for n in range(len(ps))]}, "action",
                      lambda: r.objs[k].instantiate(args), {"instantiate": k})
        spoil(rng, ps)
        spoil(rng, args)
        r.obs(k)
        if m:
            r.obs(m)
    mapping = {build.term(v): build.Constant("k") for v in vs}
    n = r.node(f)
    if n:
        q = r.produce({"op": "inst", "a": n, "map": [[v, C("k")] for v in vs]}, "node", lambda: r.objs[n].instantiate(mapping), {"instantiate": n})
        r.flag(len(mapping) == len(vs), "instantiate: the mapping was changed")
        spoil(rng, mapping)
        r.obs(n)
        if q:
            r.obs(q)
    return r


@scenario("C23", weight=3)
def frames(rng):
    r = Rec("operations leave every other object unchanged")
    g, d, p, a, b = plan_setting(rng, r)
    if not (a and b):
        return r
    q = r.mkplan(g.plan(d, p, n=rng.choice([1, 2, 4])))
    a2 = r.mkdomain(proj.domain(r.objs[a]), rng)
    b2 = r.mkproblem(p, rng=rng)
    for _ in range(5):
        x = rng.choice(["print", "cmp", "hash", "attach", "check", "plancheck", "planinst", "getters", "repr", "attach2", "sort"])
        if x == "print":
            r.print(rng.choice([a, b]))
        elif x == "cmp":
            r.cmp(a, a2) if a2 else None
            r.cmp(b, b2) if b2 else None
        elif x in ("attach", "attach2"):
            r.attach(b if x == "attach" or not b2 else b2, a)
        elif x == "check":
            r.check(b, a)
        elif x == "plancheck" and q:
            r.plancheck(q, a, b)
        elif x == "planinst" and q:
            r.planinst(q, a)
        elif x == "repr":
            rec.guarded(lambda: [repr(v) for v in r.objs.values()])
        elif x == "sort":
            rec.guarded(lambda: [sorted(r.objs[a].predicates), sorted(r.objs[a].constants)])
        else:
            o = r.objs[a]
            rec.guarded(lambda: [o.name, o.types, o.actions, o.predicates, o.functions, o.constants, o.requirements,
                                 [x.terms for x in o.actions], hash(tuple(sorted(y.name for y in o.actions)))])
        r.obs_all()
    return r


@scenario("C23")
def parsing_frames(rng):
    r = Rec("parsing leaves existing objects unchanged")
    g = gens(rng, size=0.6, depth=2, fancy=0)
    d = g.domain()
    for _ in range(3):
        k = rng.choice(["domain", "problem"])
        sx = Writer(rng).domain(d) if k == "domain" else Writer(rng).problem(g.problem(d))
        r.parse(k, text_of(rng, sx, "plain"))
        if rng.random() < 0.5:
            d = g.domain()
        r.obs_all()
    return r


# --------------------------------------------------------------------------- C24: derived predicates
@scenario("C24", weight=5)
def derived_predicates(rng):
    r = Rec("derived predicates against declared predicates")
    types = wild_types(rng, rng.choice([2, 3, 4, 6, 8])) if rng.random() < 0.3 else \
        [[t, p] for t, p in (lambda g: g.type_forest())(gens(rng, fancy=0))]
    names = [t for t, _ in types]
    pool = names + ["object"] + [p for _, p in types if p]
    tg = lambda: sorted(set(rng.choice(pool) for _ in range(rng.choice([1, 1, 2])))) if rng.random() < 0.75 else []
    for _ in range(3):
        preds, ders = [], []
        for nm in rng.choice([["p", "q"], ["p", "q"], ["Pq", "p", "q"], ["p", "P"], ["move-To", "q"]])[:rng.choice([1, 2, 3])]:
            preds.append([nm] + Writer(rng).tvars(sorted([V(n, tg()) for n in "abc"[:rng.randrange(4)]], key=lambda v: not v["t"])))
        for _ in range(rng.choice([1, 1, 2])):
            pr = rng.choice(preds)
            ar = sum(1 for x in pr if isinstance(x, str) and x[0] == "?")
            ar += rng.choice([0, 0, 0, 0, 0, 0, 1, -1])
            vs = sorted([V(n, tg()) for n in rng.sample(["x", "y", "z", "a", "b"], max(0, ar))], key=lambda v: not v["t"])
            cond = rng.choice([["and"], ["not", ["q"]], ["p"] + ["?" + v["n"] for v in vs],
                               ["exists", ["?x", "-", rng.choice(pool)], ["q"] + ["?" + v["n"] for v in vs]]])
            ders.append([":derived", [rng.choice([pr[0]] * 10 + ["r", pr[0].upper(), pr[0] + "s", pr[0] + "-"])] + Writer(rng).tvars(vs), cond])
        sx = ["define", ["domain", "d"], [":requirements", ":adl", ":derived-predicates"]] + \
             ([[":types"] + Writer(rng).tnames(types)] if types else []) + [[":predicates"] + preds] + ders
        r.parse("domain", text_of(rng, sx, "plain"))
    return r


@scenario("C24", weight=2)
def derived_random(rng):
    r = Rec("derived predicates of random domains")
    g = gens(rng, depth=2)
    g.some = lambda lo, hi: rng.randint(max(lo, 1), max(lo, hi))
    d = g.domain([":adl", ":derived-predicates"] + rng.sample(gen.KEYS, 2))
    d["acts"] = d["acts"][:1]
    r.parse("domain", text_of(rng, Writer(rng).domain(d), "plain"))
    return r


# --------------------------------------------------------------------------- C25: short notations
@scenario("C25")
def notations(rng):
    r = Rec("lists of names, symbols applied to terms, retyped variables")
    for _ in range(8):
        x = rng.random()
        if x < 0.4:
            ws = [rand_name(rng) if rng.random() < 0.06 else rng.choice(gen.FANCY + gen.PLAIN) for _ in range(rng.choice([0, 1, 2, 3, 5, 9]))]
            s = rng.choice(["", " ", "\n"]) + "".join(w + rng.choice([" ", "  ", "\t", "\n", "\r\n"]) for w in ws)
            if not s.isascii() or any(c in s for c in "\x0b\x0c\x1c\x1d\x1e\x1f"):
                continue
            k = rng.choice("vc")
            tys = rng.sample(["t", "s", "object", "Upper", "1bad", "define"][:rng.choice([3, 4, 4, 6])], rng.choice([0, 1, 2, 3]))
            r.listed(k, s if rng.random() < 0.5 else s.strip(), tys[:1] if k == "c" else tys)
        elif x < 0.85:
            n = rng.choice([0, 1, 2, 2, 3, 4])
            tm = lambda: dict(rng.choice([V, C])(rng.choice("xyz")), t=rng.choice([[], [], ["t"], ["s"]]))
            vt = {}

            def fix(t):
                return dict(t, t=vt.setdefault(t["n"], t["t"])) if t["k"] == "v" else t
            ts = [fix(tm()) for _ in range(n)]
            op = rng.choice(["pred", "fn"])
            i = r.symbol(op, rng.choice(["p", "total-cost" if op == "fn" else "q", "Long-name_1"]), ts)
            if not i:
                continue
            for _ in range(3):
                if op == "fn" and rng.random() < 0.7:
                    args = [dict(tm(), t=t["t"]) for t in ts]
                else:
                    args = [tm() for _ in ts]
                if rng.random() < 0.25:
                    args = args[1:] if rng.random() < 0.5 else args + [tm()]
                if rng.random() < 0.6:
                    args = [fix(t) for t in args] if op == "pred" else args
                j = r.apply(i, ts, args)
                r.obs(i)
                if j:
                    r.cmp(i, j)
        else:
            i = r.term(V(rng.choice(gen.FANCY + gen.PLAIN), rng.choice([[], ["t"], ["s", "t"]])))
            j = r.retype(i, [rng.choice(["t", "s", "u", "object"]) for _ in range(rng.choice([0, 1, 2, 2, 3]))])
            r.obs(i)
            if j:
                r.cmp(i, j)
    return r


# --------------------------------------------------------------------------- C26: files
@scenario("C26")
def from_files(rng):
    import pddl
    r = Rec("domains, problems and plans read from files")
    read = {"domain": pddl.parse_domain, "problem": pddl.parse_problem, "plan": pddl.parse_plan}
    tmp = tempfile.mkdtemp(prefix="pddl-c26-")
    try:
        files = {}
        for kind, text in zip(["domain", "problem", "plan"] * 2, cli_files(rng) + cli_files(rng)):
            if rng.random() < 0.3:
                text = "; a comment (with parens" + rng.choice(["\n", "\n\n"]) + text
            if rng.random() < 0.3:
                text += rng.choice(["; no end of line", "\n\n", ";", " \t", "\n;x\n"])
            if rng.random() < 0.05:
                text = ""
            if rng.random() < 0.2:              # characters that editors leave behind
                odd = rng.choice(["\ufeff", "\ufeff", "\xa0", "\0", "\x1a", "\u200b", "\xe9"])
                text = rng.choice([odd + text, odd + "\n" + text, text + odd, text + "\n" + odd, ";" + odd + "\n" + text, text + ";" + odd,
                                   text.replace(" ", odd, 1), text.replace(" ", " " + odd, 1)])
            if rng.random() < 0.1:              # more than any buffer
                text = rng.choice([";" + "long " * 3000 + "\n" + text, "\n" * 9000 + text, text + "\n" + " " * 70000, text + "\n;" + "(" * 9000])
            for eol in ["\n", rng.choice(["\r\n", "\r"])]:
                path = os.path.join(tmp, "%d %s" % (len(files), rng.choice(["d.pddl", "file", "x.y"])))
                data = "\n".join(text.splitlines()).replace("\n", eol).encode() if eol != "\n" else text.encode()
                with open(path, "wb") as f:
                    f.write(data)
                files[path] = data
                ok, forms = lex.read("\n".join(text.splitlines()))
                arg = path if rng.random() < 0.6 else __import__("pathlib").Path(path)
                a = r.parsed(kind, ok, forms, lambda: read[kind](arg), {"parse file": text, "kind": kind, "eol": eol})
                b = r.parse(kind, text)
                if a and b:
                    r.cmp(a, b)
        for kind in read:           # bytes that are no text
            data = rng.choice(sorted(files.values()))
            at = rng.randrange(len(data) + 1)
            data = data[:at] + rng.choice([b"\xff", b"\xc3", b"\xe9 ", b"\x80", b";\xff\n"]) + data[at:]
            path = os.path.join(tmp, "%d bytes" % len(files))
            with open(path, "wb") as f:
                f.write(data)
            files[path] = data
            out, e = rec.guarded(lambda: read[kind](path))
            r.flag(out == "reject" or isinstance(e, UnicodeError), "file: bytes that are no text are accepted, or reported as something else", file=repr(data), kind=kind)
        for path in [os.path.join(tmp, "nothing"), tmp]:
            out, _ = rec.guarded(lambda: read[rng.choice(sorted(read))](path), (OSError,))
            r.flag(out == "reject", "file: a missing file is not reported", path=path)
        for path, data in files.items():
            with open(path, "rb") as f:
                r.flag(f.read() == data, "file: an input file was changed")
        r.flag(sorted(os.listdir(tmp)) == sorted(map(os.path.basename, files)), "file: files were created or removed")
        r.obs_all()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return r


# --------------------------------------------------------------------------- C27: threads
@scenario("C27")
def threads(rng):
    r = Rec("parsers and shared values used in several threads")
    g = gens(rng, fancy=0, size=rng.choice([0.3, 0.6]), depth=2)
    d = g.domain(full(g))
    p = g.problem(d)
    dom = r.mkdomain(d, rng) if rng.random() < 0.5 else r.parse("domain", text_of(rng, Writer(rng).domain(d), "plain"))
    prb = r.mkproblem(p, rng=rng) if rng.random() < 0.5 else r.parse("problem", text_of(rng, Writer(rng).problem(p), "plain"))
    pln = r.mkplan(g.plan(d, p))
    if not (dom and prb and pln):
        return r
    twin = r.mkdomain(d, rng)
    pool = {k: [Layout(rng, "plain").text(t) for t in (lambda t: [t, mutate(rng, t), gen.misspell(rng, t)])(any_tree(rng, k, g))]
            for k in ["domain", "problem", "plan"]}
    f, fv = None, []
    if d["acts"] and d["acts"][0]["pre"]["op"] != "none":
        f, fv = r.node(d["acts"][0]["pre"]), d["acts"][0]["ps"]

    def op(t):
        x = rng.choice(["parse"] * 8 + ["leaky"] * 4 + ["print"] * 3 + ["cmp", "check", "plancheck", "planinst", "planinst", "inst", "build", "list"])
        k = rng.choice(["domain", "domain", "problem", "plan"])
        if x == "parse":
            text = rng.choice(pool[k])
            return lambda: r.parse(k, text, rec.own_parser(t, k))
        if x == "leaky":
            text = rng.choice(LEAKY[k])
            return lambda: r.parse(k, text, rec.own_parser(t, k))
        if x == "print":
            i = rng.choice([dom, prb, pln])
            return lambda: r.print(i)
        if x == "cmp" and twin:
            return lambda: r.cmp(dom, twin)
        if x == "check":
            return lambda: r.check(prb, dom)
        if x == "plancheck":
            return lambda: r.plancheck(pln, dom, prb)
        if x == "planinst":
            return lambda: r.planinst(pln, dom)
        if x == "build" and d["acts"]:
            a = rng.choice(d["acts"])
            return lambda: r.mkaction(a)
        if x == "inst" and f:
            m = [(v, dict(rng.choice([V, C])(rng.choice("xyzab")), t=[])) for v in fv]
            m = [(v, dict(t_, t=v["t"]) if t_["k"] == "v" else t_) for v, t_ in m]
            if len({t_["n"] for _, t_ in m if t_["k"] == "v"}) == len([1 for _, t_ in m if t_["k"] == "v"]):
                return lambda: r.inst(f, m)
        return lambda: r.listed("v", "a b  c", ["t"])

    n = rng.choice([2, 2, 3, 4])
    for _ in range(2):
        ops = [[op(t) for _ in range(rng.choice([1, 2, 3]))] for t in range(n)]
        turns = [(rng.randrange(n), rng.choice([1, 2, 5, 20, 60, 150, 400])) for _ in range(rng.choice([1, 2, 4, 8, 16]))]
        base = rng.choice(["unset", "unset", "0", "7"])
        val = rec.with_limit(base, lambda: r.parallel(ops, turns))
        r.add({"op": "limit", "running": 0, "base": base, "val": val}, {"traceback limit": [base, val], "schedule": turns})
        r.obs_all()
    return r


@scenario("C27")
def preempted(rng):
    """One parse interrupted at many points by a part of another."""
    r = Rec("a parse interrupted by another one")
    g = gens(rng, fancy=0, size=0.4, depth=2)
    k = rng.choice(["domain", "domain", "domain", "problem"])
    k2 = rng.choice([k, k, "domain"])

    def some(kind):
        if rng.random() < 0.4:
            return rng.choice(LEAKY[kind])
        t = any_tree(rng, kind, g)
        return Layout(rng, "plain").text(mutate(rng, t) if rng.random() < 0.15 else t)
    a, b = some(k), some(k2)
    s = sched.Sched([lambda: rec.own_parser(0, k)(a), lambda: rec.own_parser(1, k2)(b)], [])
    s.run()
    n, m = s.calls
    at, to = s.where
    for _ in range(16):
        i, j = sched.point(rng, at), rng.choice([10 ** 9, sched.point(rng, to)])
        turns = [(0, i), (1, j)] if rng.random() < 0.7 else [(0, i), (1, j), (0, rng.randrange(1, n + 2)), (1, rng.randrange(1, m + 2))]
        val = rec.with_limit("unset", lambda: r.parallel([[lambda: r.parse(k, a, rec.own_parser(0, k))],
                                                           [lambda: r.parse(k2, b, rec.own_parser(1, k2))]], turns))
        r.add({"op": "limit", "running": 0, "base": "unset", "val": val}, {"schedule": turns})
    return r


@scenario("C27", weight=2)
def copied(rng):
    """Values used, printed and copied in threads that are switched between any two instructions of the library."""
    r = Rec("a value used and copied in several threads")
    i, kind, j = anything(rng, r)
    if not i or kind == "req":
        return r
    hashed = kind in ("node", "action", "term")
    ops = ["copy", "deepcopy", "pickle2", "pickle4", "pickle5"]
    ops = ops + (["hash"] * 4 if hashed else ["print"] * 2) + ["cmp"]

    def op(x, i, f):
        if x == "hash":
            return lambda: r.hash(i)
        if x == "print":
            return lambda: r.print(i)
        if x == "cmp":
            return lambda: r.cmp(i, f)
        return lambda: r.copy(i, x)

    def new():
        """Two equal values, not used before."""
        o = r.objs[i]
        a, b = (r.copy(i, "deepcopy") for _ in "ab")
        if a and b and hashed and rng.random() < 0.4:
            hash(r.objs[a])
        return a, b
    xs = [[rng.choice(ops)] for _ in range(rng.choice([2, 2, 3]))]
    a, b = new()
    if not (a and b):
        return r
    r.parallel([[op(x, a, b) for x in ys] for ys in xs], [], True)
    n, where = list(r.calls), list(r.where)
    for _ in range(6):
        a, b = new()
        if not (a and b):
            return r
        k = r.next
        turns = []
        for t in rng.sample(range(len(xs)), len(xs)):
            turns.append((t, sched.point(rng, where[t])))
        turns += [(rng.randrange(len(xs)), rng.randrange(1, max(n) + 2)) for _ in range(rng.choice([0, 0, 1, 3]))]
        r.parallel([[op(x, a, b) for x in ys] for ys in xs], turns, True)
        for c in range(k, r.next):
            r.cmp(c, b)
        r.cmp(a, b)
        r.obs(a)
    return r


@scenario("C27", weight=2)
def apart(rng):
    """Threads that have nothing in common: each with its own values, which resemble those of the others."""
    r = Rec("threads with values of their own")
    n = rng.choice([2, 2, 2, 3])
    g = gens(rng, fancy=0, size=rng.choice([0.3, 0.6]), depth=2)
    g.big = ""
    what = rng.choice(["domain", "problem", "plan", "wrapper", "small", "small", "types"])
    common = rng.random() < 0.6         # all of them do the same, or each something
    chosen = {}

    def choose(xs):
        if not common:
            return rng.choice(xs)
        return chosen.setdefault(tuple(xs), rng.choice(xs))
    fs = []
    if what == "small":
        g = inst_gen(rng)
        kind, f = values(rng, g)
        if rng.random() < 0.3:
            kind, f = "action", lambda: g.action("act")
        j = f()
        fs = [(make(r, kind, perturb(rng, j) if rng.random() < 0.6 else j), kind) for _ in range(n)]
        fs = [x for x in fs if x[0]]
        twins_ = [r.copy(i, "deepcopy") for i, _ in fs]

        def op(t):
            i, _ = fs[t]
            x = choose(["cmp", "hash", "copy", "print", "inst", "inst", "inst"])
            if kind == "action" and x == "inst":
                m = len(proj.action(r.objs[i])["ps"])
                args = [C(rng.choice("ab")) for _ in range(m)]
                return lambda: r.ground(i, args)
            if kind == "node" and x == "inst":
                val = proj.any_(kind, r.objs[i])
                if val["op"] not in ("minimize", "maximize"):
                    m = [(V(v, g_tags(val, v)), C(rng.choice("ab"))) for v in "xyz" if g_tags(val, v) is not None]
                    return lambda: r.inst(i, m)
            if x == "copy":
                how = rng.choice(["copy", "deepcopy", "pickle4"])
                return lambda: r.copy(i, how)
            if x == "hash":
                return lambda: r.hash(i)
            return lambda: r.cmp(i, twins_[t])
        if len(fs) < n or not all(twins_):
            return r
    elif what == "types":
        ts = wild_types(rng, rng.choice([2, 3, 5, 9]))
        reqs = [":typing"]

        def op(t):
            mine = rng.choice([ts, wild_types(rng, rng.choice([1, 2, 4, 9])), [[x, "" if rng.random() < 0.5 else y] for x, y in ts]])
            pool = [x for x, _ in mine] + ["object", rng.choice(["object", "undeclared", rng.choice(ts)[0]])]
            dd = {"nm": "d%d" % t, "reqs": rng.choice([reqs, reqs, [], [":adl"], [":strips"]]), "types": mine if rng.random() < 0.8 else [],
                  "consts": [["c%d" % k, rng.choice(["", rng.choice(pool)])] for k in range(rng.choice([0, 1, 3]))],
                  "preds": [nd("pred", "p", [V("x", rng.choice([[], [rng.choice(pool)]]))])], "funs": [], "dps": [], "acts": []}
            if choose(["make", "make", "parse"]) == "make":
                return lambda: r.mkdomain(dd)
            text = text_of(rng, Writer(rng).domain(dd), "plain")
            return lambda: r.parse("domain", text, rec.own_parser(t, "domain"))
    else:
        d = g.domain(full(g))
        p = g.problem(d)
        ss = list(plan_variants(rng, g, d, p)) if d["acts"] else [[]]
        proper = what != "wrapper" or rng.random() < 0.5
        for t in range(n):
            dd, pp = (near_domain(rng, d), vary_problem(rng, p)) if t else (d, p)
            if t and proper:
                dd = rng.choice([dict(d, nm=d["nm"] + "z"), g.domain(full(g))])
                pp = g.problem(dd)
            fs.append((r.mkdomain(dd), r.mkproblem(pp), r.mkplan(rng.choice(ss))))
        if not all(all(x) for x in fs):
            return r

        def op(t):
            a, b, q = fs[t]
            x = choose(["print"] * 3 * proper + {"domain": ["parse"], "problem": ["check", "parse"], "plan": ["plancheck", "planinst", "planinst"],
                                            "wrapper": ["check", "plancheck", "planinst", "build"]}[what])
            if x == "print":
                i = {"domain": a, "problem": b, "plan": q}.get(what) or rng.choice([a, b, q])
                return lambda: r.print(i)
            if x == "parse":
                k, i = ("domain", a) if what == "domain" else ("problem", b)
                text = r.print(i)
                if text is None:
                    return lambda: None
                return lambda: r.parse(k, text, rec.own_parser(t, k))
            if x == "build":
                dd = proj.any_("domain", r.objs[a])
                if dd["acts"]:
                    return lambda: r.mkaction(dd["acts"][0])
                x = "check"
            if x == "check":
                return lambda: r.check(b, a)
            if x == "plancheck":
                return lambda: r.plancheck(q, a, b)
            return lambda: r.planinst(q, a)
    fine = rng.random() < 0.6
    ops = [[op(t) for _ in range(rng.choice([1, 1, 2]))] for t in range(n)]
    r.parallel(ops, [], fine)
    calls, where = list(r.calls), list(r.where)
    for _ in range(30 if what == "types" else 10):
        turns = [(t, sched.point(rng, where[t])) for t in rng.sample(range(n), n)]
        if rng.random() < 0.5:              # one is interrupted by all of the others
            turns[1:] = [(t, 10 ** 9) for t, _ in turns[1:]]
        turns += [(rng.randrange(n), rng.randrange(1, max(calls) + 2)) for _ in range(rng.choice([0, 0, 1, 3]))]
        r.parallel(ops, turns, fine)
    r.obs_all()
    return r
