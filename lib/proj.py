"""Projection of library objects to the JSON values the specification works on."""
from pddl.logic.base import And, ExistsCondition, ForallCondition, Imply, Not, OneOf, Or
from pddl.logic.effects import Forall, When
from pddl.logic import functions as F
from pddl.logic.predicates import DerivedPredicate, EqualTo, Predicate
from pddl.logic.terms import Constant, Variable

from lex import canon_value


class Bad(Exception):
    """The object is not a value the API documents."""


OPS = {
    And: "and", Or: "or", Not: "not", Imply: "imply", OneOf: "oneof",
    F.Plus: "+", F.Minus: "-", F.Times: "*", F.Divide: "/",
    F.EqualTo: "f=", F.LesserThan: "<", F.LesserEqualThan: "<=", F.GreaterThan: ">", F.GreaterEqualThan: ">=",
    F.Assign: "assign", F.ScaleUp: "scale-up", F.ScaleDown: "scale-down", F.Increase: "increase", F.Decrease: "decrease",
}
CLS = {v: k for k, v in OPS.items()}


def nd(op, nm="", ts=(), vs=(), ks=()):
    return {"op": op, "nm": nm, "ts": list(ts), "vs": list(vs), "ks": list(ks)}


NONE = nd("none")


def text(x):
    if not isinstance(x, str):
        raise Bad(f"not a string: {x!r}")
    return str.__str__(x)


def tag(x):
    return "" if x is None else text(x)


def term(t, keep=False):
    if isinstance(t, Variable):
        return {"k": "v", "n": text(t.name), "t": sorted(text(x) for x in t.type_tags)}
    if isinstance(t, Constant):
        return {"k": "c", "n": text(t.name), "t": sorted(text(x) for x in t.type_tags) if keep else []}
    raise Bad(f"not a term: {t!r}")


def vs(s):
    return sorted((term(v) for v in s), key=lambda j: (j["n"], j["t"]))


def node(f):
    c = type(f)
    if c in OPS:
        ks = [f.argument] if c is Not else list(f.operands)
        return nd(OPS[c], ks=[node(k) for k in ks])
    if c is Predicate:
        return nd("pred", text(f.name), [term(t) for t in f.terms])
    if c is EqualTo:
        return nd("eq", ts=[term(f.left), term(f.right)])
    if c is F.NumericFunction:
        return nd("fn", text(f.name), [term(t) for t in f.terms])
    if c is F.NumericValue:
        v = canon_value(f.value)
        if v is None:
            raise Bad(f"not a number: {f.value!r}")
        return nd("num", v)
    if c is ForallCondition or c is ExistsCondition:
        return nd("forall" if c is ForallCondition else "exists", vs=vs(f.variables), ks=[node(f.condition)])
    if c is Forall:
        return nd("eforall", vs=vs(f.variables), ks=[node(f.effect)])
    if c is When:
        return nd("when", ks=[node(f.condition), node(f.effect)])
    if c is F.Metric:
        return nd(text(f.optimization), ks=[node(f.expression)])
    if c is DerivedPredicate:
        return nd("derived", ks=[node(f.predicate), node(f.condition)])
    raise Bad(f"not a formula: {f!r}")


def opt(f):
    return NONE if f is None else node(f)


def action(a):
    return {"nm": text(a.name), "ps": [term(t) for t in a.parameters], "pre": opt(a.precondition), "eff": opt(a.effect)}


def domain(d):
    return domain_parts(d.name, d.requirements, d.types, d.constants, d.predicates, d.functions, d.derived_predicates, d.actions)


def domain_parts(name, requirements, types, constants, predicates, functions, derived, actions):
    return {
        "nm": text(name), "reqs": sorted(str(r) for r in requirements),
        "types": sorted([text(k), tag(v)] for k, v in types.items()),
        "consts": sorted([text(c.name), tag(c.type_tag)] for c in constants),
        "preds": [node(p) for p in predicates],
        "funs": [[node(k), tag(v)] for k, v in functions.items()],
        "dps": [{"h": node(p.predicate), "c": node(p.condition)} for p in derived],
        "acts": [action(a) for a in actions],
    }


def problem(p):
    return problem_parts(p.name, p.domain_name, p.requirements, p.objects, p.init, p.goal, p.metric)


def problem_parts(name, dom, reqs, objects, init, goal, metric):
    return {
        "nm": text(name), "dom": text(dom), "reqs": sorted(str(r) for r in reqs),
        "objs": sorted([text(c.name), tag(c.type_tag)] for c in objects),
        "init": [node(f) for f in init], "goal": node(goal), "metric": opt(metric),
    }


def plan(p):
    return plan_parts(p.actions)


def plan_parts(actions):
    r = []
    for a in actions:
        for c in a[1]:
            if type(c) is not Constant:
                raise Bad(f"plan argument is not a constant: {c!r}")
        r.append({"nm": text(a[0]), "as": [text(c.name) for c in a[1]]})
    return r


def constants_in(*formulas):
    """(name, type) of every occurrence of a constant inside formulas."""
    out = set()

    def walk(f):
        if isinstance(f, (Predicate, F.NumericFunction)):
            ts = f.terms
        elif isinstance(f, EqualTo):
            ts = (f.left, f.right)
        else:
            ts = ()
        for t in ts:
            if isinstance(t, Constant):
                out.update((text(t.name), tag(x)) for x in t.type_tags or [None])
        for a in ("operands",):
            for k in getattr(f, a, ()):
                walk(k)
        for a in ("argument", "condition", "effect", "expression", "predicate"):
            k = getattr(f, a, None)
            if k is not None:
                walk(k)

    for f in formulas:
        if f is not None:
            walk(f)
    return out


def const_tags(*formulas):
    """Types carried by constants inside formulas."""
    return sorted({t for _, t in constants_in(*formulas)} - {""})


def carried(kind, o):
    """(name, type) of the constants that a value is made of."""
    if kind == "term":
        out = {(text(o.name), tag(x)) for x in o.type_tags or [None]} if isinstance(o, Constant) else set()
    else:
        out = constants_in(*{"action": lambda: (o.precondition, o.effect), "node": lambda: (o,), "problem": lambda: (*o.init, o.goal, o.metric),
                             "domain": lambda: [x for a in o.actions for x in (a.precondition, a.effect)] + list(o.derived_predicates),
                             "plan": lambda: ()}[kind]())
        if kind == "plan":
            out = {(text(c.name), tag(x)) for a in o.actions for c in a[1] for x in c.type_tags or [None]}
    return sorted(map(list, out))


def occurrences(kind, o):
    """Constants with their types where they occur in a parsed value."""
    if kind == "domain":
        places = [("domain", [x for a in o.actions for x in (a.precondition, a.effect)] + list(o.derived_predicates))]
    elif kind == "problem":
        facts = [f for f in o.init if not isinstance(f, F.EqualTo)]
        places = [("init", facts), ("problem", [f for f in o.init if isinstance(f, F.EqualTo)] + [o.goal, o.metric])]
    else:
        places = []
    return [[p, n, t] for p, fs in places for n, t in sorted(constants_in(*fs))]


def any_(kind, o):
    return {"domain": domain, "problem": problem, "plan": plan, "action": action, "node": node,
            "term": lambda t: term(t, True), "terms": lambda s: [term(t, True) for t in s], "actions": lambda s: [action(a) for a in s]}[kind](o)
