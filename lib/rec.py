"""Recording sessions with the real library as traces for spec/Conform.tla."""
import copy
import pickle
import resource
import signal
import sys

from lark.exceptions import LarkError, VisitError

import build
import lex
import proj
import sched
from pddl.exceptions import PDDLError
from pddl.formatter import domain_to_string, plan_to_string, problem_to_string
from pddl.parser.domain import DomainParser
from pddl.parser.plan import PlanParser
from pddl.parser.problem import ProblemParser

LIMIT_S = 12.0       # for one call
SHORT_S = 3.0        # once a call did not end in time
_limit = [LIMIT_S]


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


def limits():
    signal.signal(signal.SIGALRM, _alarm)
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))


PARSERS = {"domain": DomainParser, "problem": ProblemParser, "plan": PlanParser}
_shared = {}


def parser(kind):
    if kind not in _shared:
        _shared[kind] = PARSERS[kind]()
    return _shared[kind]


def own_parser(t, kind):
    """The parser of thread t."""
    if (t, kind) not in _shared:
        _shared[t, kind] = PARSERS[kind]()
    return _shared[t, kind]


def with_limit(base, fn):
    """fn under a traceback limit; returns the limit afterwards.  "unset": none."""
    had = vars(sys).get("tracebacklimit", "unset")

    def put(v):
        if v == "unset":
            vars(sys).pop("tracebacklimit", None)
        else:
            sys.tracebacklimit = v
    try:
        put(base if base == "unset" else int(base))
        fn()
        return str(vars(sys).get("tracebacklimit", "unset"))
    finally:
        put(had)


TO_STRING = {"domain": domain_to_string, "problem": problem_to_string, "plan": plan_to_string}


def rejection(e, more=()):
    """Whether an exception is a documented way to reject an input."""
    if isinstance(e, VisitError):
        return rejection(e.orig_exc, more)
    return isinstance(e, (PDDLError, LarkError, ValueError) + tuple(more)) and not isinstance(e, UnicodeError)


def guarded(fn, more=()):
    """(outcome, result or exception)"""
    signal.setitimer(signal.ITIMER_REAL, _limit[0])
    try:
        try:
            r = fn()
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        return "ok", r
    except Hang:
        _limit[0] = SHORT_S
        return "hang", None
    except MemoryError as e:
        return "hang", e
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        return ("reject" if rejection(e, more) else "crash"), e


def bare(j):
    """Constants are identified by name: as arguments without the types they carry (those are listed as xt)."""
    if isinstance(j, list):
        return [bare(x) for x in j]
    if isinstance(j, dict):
        return {k: [] if k == "t" and j.get("k") == "c" else bare(x) for k, x in j.items()}
    return j


class Rec:
    """One session: events for the specification, the objects behind the ids, and a readable log."""

    def __init__(self, name):
        self.name = name
        self.events = []
        self.log = []
        self.objs = {}
        self.kinds = {}
        self.next = 1
        self.capture = None      # list: calls are collected and not made
        self.ahead = []          # outcomes of calls made before
        self.going = []          # objects let go just before the next call

    def dump(self):
        return {"name": self.name, "events": self.events, "log": self.log}

    def fresh(self):
        """Forget the objects so far; the ids go on."""
        self.objs, self.kinds = {}, {}
        return self

    # ------------------------------------------------------------------
    def add(self, e, log):
        self.events.append(e)
        self.log.append(log)

    def project(self, kind, o):
        """Projection of a result, or None when it is not a proper value."""
        try:
            return proj.any_(kind, o)
        except Hang:
            raise
        except Exception:
            return None

    def produce(self, e, kind, fn, log, more=()):
        """Record a call that returns a value."""
        if self.capture is not None:
            self.capture.append(fn)
            return 0
        out, r = self.call(fn, more)
        e["kind"] = kind
        e["id"] = 0
        i = 0
        if out == "ok":
            o2, val = guarded(lambda: proj.any_(kind, r))
            if o2 != "ok":
                out, log = "crash", dict(log, result=repr_of(r), projection=repr(val))
            else:
                i = self.next
                self.next += 1
                e["id"], e["val"] = i, val
                self.objs[i], self.kinds[i] = r, kind
        else:
            log = dict(log, outcome=out, exception=repr(r)[:300])
        e["out"] = out
        self.add(e, log)
        return i

    def call(self, fn, more=()):
        if self.going:
            make, going, self.going = fn, self.going, []
            del fn

            def fn():
                going.clear()
                return make()
        return guarded(sched.again(self.ahead.pop(0)) if self.ahead else fn, more)

    def unit(self, e, fn, log, more=()):
        if self.capture is not None:
            return self.capture.append(fn)
        out, r = self.call(fn, more)
        e["out"] = out
        if out != "ok":
            log = dict(log, outcome=out, exception=repr(r)[:300])
        self.add(e, log)
        return out == "ok"

    # ------------------------------------------------------------------
    def parse(self, kind, text, p=None):
        ok, forms = lex.read(text)
        p = parser(kind) if p is None else p
        return self.parsed(kind, ok, forms, lambda: p(text), {"parse": kind, "text": text})

    def parsed(self, kind, ok, forms, fn, log):
        e = {"op": "parse", "lex": ok, "forms": forms, "ct": []}
        i = self.produce(e, kind, fn, log)
        if i:
            out, occ = guarded(lambda: proj.occurrences(kind, self.objs[i]))
            if out == "ok":
                e["ct"] = occ
            else:
                self.flag(False, "parse: a constant in a formula is not a proper value", exception=repr(occ)[:200])
        return i

    def print(self, i, via=None):
        """Format object i; returns the text (or None)."""
        kind = self.kinds[i]
        fn = via or TO_STRING[kind]
        if self.capture is not None:
            return self.capture.append(lambda: fn(self.objs[i]))
        out, text = self.call(lambda: fn(self.objs[i]))
        if out != "ok" or not isinstance(text, str):
            self.add({"op": "flag", "ok": False, "what": "print: " + ("crash" if out != "hang" else "hang")},
                     {"print": i, "exception": repr(text)[:300]})
            return None
        ok, forms = lex.read(text)
        self.add({"op": "print", "id": i, "lex": ok, "forms": forms}, {"print": i, "text": text})
        return text

    def flag(self, ok, what, **log):
        self.add({"op": "flag", "ok": bool(ok), "what": what}, dict(log, flag=what))

    def obs(self, i):
        val = self.project(self.kinds[i], self.objs[i])
        if val is None:
            self.flag(False, f"object changed: {self.kinds[i]} is no longer a proper value", object=i)
        else:
            self.add({"op": "obs", "id": i, "val": val}, {"observe": i})

    def drop(self, i):
        """Let go of object i when the next call is made, so that its memory can be used for the result."""
        self.going.append(self.objs.pop(i))
        del self.kinds[i]
        self.add({"op": "drop", "id": i}, {"drop": i})

    def obs_all(self):
        for i in sorted(self.objs):
            self.obs(i)

    def cmp(self, a, b):
        x, y = self.objs[a], self.objs[b]

        def f():
            eq, ne, rev = x == y, x != y, y == x
            try:
                h = hash(x) == hash(y)
            except TypeError:
                h = None
            return eq, ne, rev, h
        if self.capture is not None:
            return self.capture.append(f)
        out, r = self.call(f)
        if out != "ok":
            return self.flag(False, f"compare: {out}", a=a, b=b, exception=repr(r)[:200])
        eq, ne, rev, h = r
        if not all(isinstance(v, bool) for v in (eq, ne, rev)):
            return self.flag(False, "compare: result is not a truth value", a=a, b=b)
        self.add({"op": "cmp", "a": a, "b": b, "eq": eq, "ne": ne, "rev": rev, "hash": True if h is None else h}, {"compare": [a, b]})

    def put(self, kind, fn, e, log, more=()):
        return self.produce(e, kind, fn, log, more)

    # threads ---------------------------------------------------------------
    def parallel(self, threads, turns, fine=False):
        """threads: lists of operations on this recorder, made in threads under a schedule and recorded afterwards."""
        fns = []
        for ops in threads:
            self.capture = []
            for op in ops:
                op()
            fns.append(self.capture)
        self.capture = None

        def body(calls):
            def f():
                out = []
                for c in calls:
                    try:
                        out.append(("value", c()))
                    except BaseException as e:
                        out.append(("raised", e))
                return out
            return f
        sc = sched.Sched([body(c) for c in fns], turns, fine)
        res = sc.run()
        self.calls, self.where = sc.calls, sc.where
        if res is None:
            return self.flag(False, "threads: a call does not end", schedule=turns)
        for ops, (_, rs) in zip(threads, res):
            for op, x in zip(ops, rs):
                self.ahead = [x]
                op()
        self.ahead = []
        self.log[-1] = dict(self.log[-1], schedule=turns)

    # API constructors ---------------------------------------------------
    def node(self, j, ids=None):
        """Build a formula node from operand values (JSON in j)."""
        e = {"op": "node", "nop": j["op"], "nm": j["nm"], "ts": j["ts"], "vs": j["vs"], "ks": j["ks"]}
        return self.produce(e, "node", lambda: build.node(j), {"build": j})

    def mkdomain(self, j, rng=None, kw=None):
        kw = build.domain_kwargs(j, rng) if kw is None else kw
        xt = proj.const_tags(*[x for a in kw["actions"] for x in (a.precondition, a.effect)],
                             *kw["derived_predicates"], *kw["predicates"], *kw["functions"])
        return self.produce({"op": "mkdomain", "arg": j, "xt": xt}, "domain", lambda: build.Domain(**kw), {"Domain": j})

    def mkproblem(self, j, dom=None, name=True, reqs=True, rng=None, kw=None, more=()):
        """dom: heap id of a domain to attach."""
        kw = build.problem_kwargs(j, rng) if kw is None else kw
        if not reqs:
            kw["requirements"] = None
        if name:
            kw["domain_name"] = j["dom"]
        if dom:
            kw["domain"] = self.objs[dom]
        xt = proj.const_tags(*kw["init"], kw["goal"])
        e = {"op": "mkproblem", "arg": bare(j), "xt": xt, "dom": [dom] if dom else [], "dname": [j["dom"]] if name else [],
             "reqs": [j["reqs"]] if reqs else [],
             "fold": folds([j["dom"]] + ([self.objs[dom].name] if dom else []))}
        return self.produce(e, "problem", lambda: build.Problem(**kw), {"Problem": j, "domain": dom, "name": name, "reqs": reqs}, more)

    def mkplan(self, j):
        return self.produce({"op": "mkplan", "arg": j}, "plan", lambda: build.plan(j), {"Plan": j})

    def mkaction(self, j):
        return self.produce({"op": "mkaction", "arg": j}, "action", lambda: build.action(j), {"Action": j})

    # operations -----------------------------------------------------------
    def attach(self, p, d):
        def f():
            self.objs[p].domain = self.objs[d]
        return self.unit({"op": "attach", "a": p, "d": d}, f, {"attach": [p, d]})

    def check(self, p, d):
        e = {"op": "check", "a": p, "d": d, "fold": folds([self.objs[p].domain_name, self.objs[d].name])}
        return self.unit(e, lambda: self.objs[p].check(self.objs[d]), {"check": [p, d]})

    def plancheck(self, q, d, p):
        return self.unit({"op": "plancheck", "a": q, "d": d, "p": p},
                         lambda: self.objs[q].check(self.objs[d], self.objs[p]), {"plan check": [q, d, p]})

    def planinst(self, q, d):
        return self.produce({"op": "planinst", "a": q, "d": d}, "actions", lambda: self.objs[q].instantiate(self.objs[d]),
                            {"plan instantiate": [q, d]})

    def inst(self, i, m):
        """m: list of (variable JSON, term JSON)"""
        mp = {build.term(v): build.term(t) for v, t in m}
        k = self.produce({"op": "inst", "a": i, "map": [[v, untyped(t)] for v, t in m]}, "node", lambda: self.objs[i].instantiate(mp),
                         {"instantiate": i, "mapping": m})
        self.carried(i, k, m)
        return k

    def carried(self, a, b, m=()):
        """The types of the constants in b, which was made of a, with the mapping m."""
        if not b or self.capture is not None or self.kinds[a] != self.kinds[b]:
            return
        out, x = guarded(lambda: (proj.carried(self.kinds[a], self.objs[a]), proj.carried(self.kinds[b], self.objs[b])))
        if out != "ok":
            self.flag(False, "types of constants: " + out, a=a, exception=repr(x)[:200])
        else:
            self.add({"op": "carried", "a": a, "map": [list(y) for y in m], "was": x[0], "val": x[1]}, {"types of constants": [a, b]})

    def ground(self, i, args):
        ts = [build.term(t) for t in args]
        k = self.produce({"op": "ground", "a": i, "args": [untyped(t) for t in args]}, "action", lambda: self.objs[i].instantiate(ts),
                         {"instantiate": i, "arguments": args})
        if k:
            self.carried(i, k, list(zip([proj.term(v) for v in self.objs[i].parameters], args)))
        return k


    def copy(self, i, how):
        """A copy of object i; returns its id."""
        o, kind = self.objs[i], self.kinds[i]
        fn = {"copy": lambda: copy.copy(o), "deepcopy": lambda: copy.deepcopy(o)}.get(how) or \
            (lambda: pickle.loads(pickle.dumps(o, int(how[6:]))))
        if self.capture is not None:
            self.capture.append(fn)
            return 0
        out, c = self.call(fn)
        if out == "ok":
            out, val = guarded(lambda: proj.any_(kind, c))
        else:
            val = c
        if out != "ok":
            self.flag(False, "copy: " + how + " fails", a=i, exception=repr(val)[:200])
            return 0
        k = self.next
        self.next += 1
        self.objs[k], self.kinds[k] = c, kind
        self.add({"op": "copy", "a": i, "id": k, "val": val}, {"copy": i, "how": how})
        self.carried(i, k)
        return k

    def hash(self, i):
        """Hash of object i, as a member of a set."""
        o = self.objs[i]
        fn = lambda: (hash(o) == hash(o), o in {o})     # noqa: E731
        if self.capture is not None:
            return self.capture.append(fn)
        out, x = self.call(fn)
        self.flag(out == "ok" and x == (True, True), "hash: not in its own set" if out == "ok" else "hash fails", a=i, exception=repr(x)[:200])

    # short notations -----------------------------------------------------
    def listed(self, k, s, tys):
        from pddl.logic import constants, variables
        fn = (lambda: variables(s, list(tys)) if tys else variables(s)) if k == "v" else (lambda: constants(s, *tys))
        return self.produce({"op": "listed", "k": k, "s": s, "tys": list(tys)}, "terms", fn, {"list of terms": s, "kind": k, "types": list(tys)})

    def symbol(self, op, nm, ts):
        """A predicate or function whose terms keep their types."""
        j = {"op": op, "nm": nm, "ts": ts, "vs": [], "ks": []}
        e = {"op": "node", "nop": op, "nm": nm, "vs": [], "ks": [],
             "ts": [dict(t, t=[]) if t["k"] == "c" else t for t in ts]}
        return self.produce(e, "node", lambda: build.node(j), {"build": j})

    def apply(self, i, ts, args):
        """ts: the terms of the symbol."""
        args_ = [build.term(t) for t in args]
        k = self.produce({"op": "apply", "a": i, "ts": ts, "args": args}, "node", lambda: self.objs[i](*args_),
                         {"apply": i, "arguments": args}, (AssertionError,))
        if k:
            self.add({"op": "terms", "args": args, "val": [proj.term(t, True) for t in self.objs[k].terms]}, {"terms of": k})
        return k

    def term(self, j):
        return self.produce({"op": "term", "arg": j}, "term", lambda: build.term(j), {"term": j})

    def retype(self, i, tys):
        return self.produce({"op": "retype", "a": i, "tys": list(tys)}, "term", lambda: self.objs[i].with_type_tags(list(tys)),
                            {"new types": i, "types": list(tys)})


def untyped(t):
    return dict(t, t=[]) if t["k"] == "c" else t


def folds(names):
    return [[str(n), str(n).lower()] for n in sorted(set(map(str, names)))]


def repr_of(x):
    try:
        return repr(x)[:300]
    except Exception:
        return "?"


def caps():
    return sys.getrecursionlimit()
