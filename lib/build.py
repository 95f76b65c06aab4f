"""Builds library objects from the JSON values of proj.py, through the public constructors."""
import itertools

from pddl.action import Action
from pddl.core import Domain, Plan, Problem
from pddl.logic import functions as F
from pddl.logic.base import ExistsCondition, ForallCondition
from pddl.logic.effects import Forall, When
from pddl.logic.predicates import DerivedPredicate, EqualTo, Predicate
from pddl.logic.terms import Constant, Variable
from pddl.requirements import Requirements

from proj import CLS

REQ = {str(r): r for r in Requirements}


def term(j):
    if j["k"] == "v":
        return Variable(j["n"], list(j["t"]))
    return Constant(j["n"], j["t"][0] if j["t"] else None)


_numbers = itertools.count()


def number(s):
    """A Python number; a whole one now and then as a float, which is equal."""
    if "." in s:
        return float(s)
    n = int(s)
    return float(n) if next(_numbers) % 4 == 0 and n < 2 ** 1000 and int(float(n)) == n else n


def late_node(j):
    """A call that makes the node; its parts are there already."""
    op, ks = j["op"], [node(k) for k in j["ks"]]
    ts, vs = [term(t) for t in j["ts"]], [term(v) for v in j["vs"]]
    if op in CLS:
        return lambda: CLS[op](*ks)
    if op == "pred":
        return lambda: Predicate(j["nm"], *ts)
    if op == "eq":
        return lambda: EqualTo(*ts)
    if op == "fn":
        return lambda: F.NumericFunction(j["nm"], *ts)
    if op == "num":
        n = number(j["nm"])
        return lambda: F.NumericValue(n)
    if op in ("forall", "exists"):
        return lambda: (ForallCondition if op == "forall" else ExistsCondition)(ks[0], vs)
    if op == "eforall":
        return lambda: Forall(ks[0], vs)
    if op == "when":
        return lambda: When(ks[0], ks[1])
    if op in ("minimize", "maximize"):
        return lambda: F.Metric(ks[0], op)
    if op == "derived":
        return lambda: DerivedPredicate(ks[0], ks[1])
    raise ValueError(op)


def node(j):
    return late_node(j)()


def opt(j):
    return None if j["op"] == "none" else node(j)


def const(p):
    return Constant(p[0], p[1] or None)


def late_action(j):
    ps, pre, eff = [term(t) for t in j["ps"]], opt(j["pre"]), opt(j["eff"])
    return lambda: Action(j["nm"], ps, pre, eff)


def action(j):
    return late_action(j)()


def domain_kwargs(j, rng=None):
    """Constructor arguments of a domain; rng shuffles every unordered part."""
    def sh(xs):
        xs = list(xs)
        if rng is not None:
            rng.shuffle(xs)
        return xs

    return dict(
        name=j["nm"], requirements=[REQ[r] for r in sh(j["reqs"])],
        types={t: (p or None) for t, p in sh(j["types"])},
        constants=[const(c) for c in sh(j["consts"])],
        predicates=[node(p) for p in sh(j["preds"])],
        derived_predicates=[DerivedPredicate(node(d["h"]), node(d["c"])) for d in sh(j["dps"])],
        functions={node(f): (t or None) for f, t in sh(j["funs"])},
        actions=[action(a) for a in sh(j["acts"])],
    )


def domain(j, rng=None):
    return Domain(**domain_kwargs(j, rng))


def problem_kwargs(j, rng=None):
    def sh(xs):
        xs = list(xs)
        if rng is not None:
            rng.shuffle(xs)
        return xs

    return dict(
        name=j["nm"], requirements=[REQ[r] for r in sh(j["reqs"])], objects=[const(c) for c in sh(j["objs"])],
        init=[node(f) for f in sh(j["init"])], goal=node(j["goal"]), metric=opt(j["metric"]),
    )


def problem(j, rng=None):
    return Problem(domain_name=j["dom"], **problem_kwargs(j, rng))


def plan(j):
    return Plan([(a["nm"], [Constant(c) for c in a["as"]]) for a in j])


def any_(kind, j):
    return {"domain": domain, "problem": problem, "plan": plan, "action": action, "node": node, "term": term,
            "actions": lambda s: [action(a) for a in s]}[kind](j)


def late(kind, j):
    """A call that makes a value of which all parts are there already."""
    if kind in ("node", "action"):
        return (late_node if kind == "node" else late_action)(j)
    return lambda: any_(kind, j)
