"""Random PDDL values (JSON of proj.py), their concrete syntax (token trees as nested lists of strings),
layouts, and malformed variants."""
import json
import random

from lex import canon_literal
from proj import NONE, nd

KEYS = [":strips", ":typing", ":negative-preconditions", ":disjunctive-preconditions", ":universal-preconditions",
        ":existential-preconditions", ":quantified-preconditions", ":equality", ":conditional-effects", ":adl",
        ":derived-predicates", ":non-deterministic", ":fluents", ":numeric-fluents", ":action-costs"]
IMPLIED = {":quantified-preconditions": [":universal-preconditions", ":existential-preconditions"],
           ":adl": [":strips", ":typing", ":negative-preconditions", ":disjunctive-preconditions", ":equality",
                    ":conditional-effects", ":universal-preconditions", ":existential-preconditions"],
           ":fluents": [":numeric-fluents"]}
KEYWORDS = ["action", "and", "define", "domain", "either", "exists", "forall", "imply", "not", "object", "oneof", "or",
            "problem", "when", "assign", "scale-up", "scale-down", "increase", "decrease", "maximize", "minimize", "total-cost"]
PLAIN = ["a", "b", "c", "x", "y", "z", "p", "q", "r", "foo", "bar", "baz", "loc", "box", "r2d2", "k9", "n-1", "u_2", "w-x-y"]
FANCY = ["and-x", "not_1", "or2", "either2", "forall-x", "exists_", "objects", "object-1", "object_", "define-x", "domain-1",
         "domain_", "problem-1", "when-", "imply-", "oneof1", "number", "number1", "total-cost-2", "total-costs", "minimize_",
         "assign-", "increase2", "scale-up-x", "scale", "A", "B", "X", "Foo", "FOO", "fOO", "And", "NOT", "Object", "OR",
         "Define", "typing", "strips", "types", "init", "goal", "actions", "action1", "effect", "parameters", "metric",
         "a-", "a_", "a--b", "Z9_-", "x-y_z-1", "predicates", "constants", "requirements", "functions", "derived",
         "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_", "e1", "E5", "true", "false", "none", "None"]
GLUED = ["a", "aa", "aaa", "a-a", "a_a", "aa-a", "a-aa", "a0", "aa0"]       # names that spell the same when put together
LITS = ["0", "1", "2", "3", "10", "007", "0.5", "0.50", "1.0", "2.25", "0.00001", "123456789", "12345678901234567890",
        "0.1", "100", "99.99", "0.0", "3.14159", "1000000.0", "1" + "0" * 22, "1" + "0" * 22 + ".0", "00.5", "0.0000001234",
        "2305843009213693951", "2305843009213693952", "4611686018427387903.5", "9007199254740993", "1" + "0" * 308, "0." + "0" * 30 + "1"]


def closure(reqs):
    out = set(reqs)
    for r in reqs:
        out.update(IMPLIED.get(r, ()))
    return out


def V(n, t=()):
    return {"k": "v", "n": n, "t": sorted(t)}


def C(n, t=()):
    return {"k": "c", "n": n, "t": sorted(t)}


# what can be numerous: smallest and largest number, and how often
BIG = {"objs": (40, 100, 1), "consts": (20, 50, 1), "init": (40, 120, 1), "preds": (15, 40, 1), "funs": (10, 20, 1), "acts": (10, 30, 1),
       "ps": (8, 16, 0.5), "ops": (8, 40, 0.3), "vs": (5, 10, 0.5), "tags": (4, 10, 0.5), "types": (15, 50, 1), "plan": (40, 150, 1),
       "long": (60, 200, 0.3), "deep": (8, 60, 0.3), "dps": (6, 20, 1)}


class Gen:
    """A generator. fancy: probability of unusual names; size scales the number of entities."""

    def __init__(self, rng, fancy=0.3, size=1.0, depth=3):
        self.r = rng
        self.fancy = fancy
        self.size = size
        self.depth = depth
        self.free_vars = 0.05
        self.types = []
        self.tagpool = []
        self.consts = []
        self.preds = []
        self.funs = []
        self.cl = set()
        self.goal_mode = False
        self.big = rng.choice(sorted(BIG)) if rng.random() < 0.06 else ""
        self.left = 2 if self.big == "ops" else 8

    def k(self, what, usual):
        """A number of parts; one kind of parts is numerous in some generators."""
        if self.big == what and self.left and self.r.random() < BIG[what][2]:
            self.left -= 1
            return self.r.randint(*BIG[what][:2])
        return usual

    # names -----------------------------------------------------------------
    def name(self, used=()):
        while True:
            n = self.r.choice(FANCY) if self.r.random() < self.fancy else self.r.choice(PLAIN)
            if self.r.random() < 0.2:
                n += str(self.r.randrange(10))
            n += "x" * self.k("long", 0)
            if used and self.r.random() < 0.12:
                n = self.near(self.r.choice(sorted(used)))
            if n not in used and n not in KEYWORDS:
                return n

    def near(self, n):
        """A name that is almost n."""
        return self.r.choice([n.swapcase(), n.upper(), n.capitalize(), n + "-", n + "_", n + "1", n.replace("-", "_"), n.replace("_", "-"), n + n, n[:1]])

    def names(self, k):
        out = []
        while len(out) < k:
            out.append(self.name(out))
        return out

    def some(self, lo, hi):
        return self.r.randint(lo, max(lo, round(hi * self.size)))

    def vars_(self, k):
        """Variable names, drawn from a small pool so that shadowing is common."""
        pool = ["x", "y", "z", "x1", "Y"] + self.names(2)
        out = []
        while len(out) < k:
            v = self.r.choice(pool) if len(out) < 4 else self.name(out)
            if v not in out:
                out.append(v)
        return out

    # types -----------------------------------------------------------------
    def tags(self, p_untyped=0.3):
        """A set of type names for one variable."""
        if not self.tagpool or self.r.random() < p_untyped:
            return []
        k = self.k("tags", self.r.choice([1, 1, 1, 2, 2, 3]))
        return sorted(set(self.r.choice(self.tagpool) for _ in range(k)))

    def tag(self):
        if not self.tagpool or self.r.random() < 0.3:
            return ""
        return self.r.choice(self.tagpool)

    def typed_vars(self, names, ordered=True):
        """Variables; the untyped ones at the end so that the list can be written."""
        vs = [V(n, self.tags()) for n in names]
        return sorted(vs, key=lambda v: not v["t"])

    def type_forest(self):
        ns = self.names(self.k("types", self.some(0, 7)))
        out = []
        for i, n in enumerate(ns):
            x = self.r.random()
            if x < 0.35 or i == 0:
                par = "" if self.r.random() < 0.7 else "object"
            elif x < 0.92:
                par = ns[self.r.randrange(max(0, i - 2), i)]
            else:
                par = self.name(ns)
            out.append([n, par])
        names = [t for t, _ in out]
        # parents that are themselves not declared are fine; keep it acyclic by construction
        out = [[t, p] for t, p in out if not (p and p not in names and p in [])]
        self.r.shuffle(out)
        return out

    # formulas --------------------------------------------------------------
    def may(self, *constructs):
        need = {"or": ":disjunctive-preconditions", "imply": ":disjunctive-preconditions", "forall": ":universal-preconditions",
                "exists": ":existential-preconditions", "eq": ":equality", "oneof": ":non-deterministic"}
        return all(self.goal_mode or need[c] in self.cl for c in constructs)

    def term(self, env):
        r = self.r.random()
        if env and (r < 0.75 or not self.consts):
            n = self.r.choice(sorted(env))
            return V(n, env[n])
        if self.consts and r < 0.95:
            return C(self.r.choice(self.consts)[0])
        if self.free_vars and self.r.random() < self.free_vars or not self.consts:
            n = self.name()
            return V(n, env.get(n, []))
        return C(self.r.choice(self.consts)[0])

    def pred(self, env):
        if self.preds and self.r.random() < 0.9:
            nm, ar = self.r.choice(self.preds)
        else:
            nm, ar = self.name(), self.r.randrange(3)
        return nd("pred", nm, [self.term(env) for _ in range(ar)])

    def fn(self, env):
        if self.funs and self.r.random() < 0.9:
            nm, ar = self.r.choice(self.funs)
        else:
            nm, ar = self.r.choice([self.name(), "total-cost"]), self.r.randrange(2)
        return nd("fn", nm, [self.term(env) for _ in range(ar)])

    def num(self):
        return nd("num", canon_literal(self.r.choice(LITS)))

    def exp(self, env, d=2):
        x = self.r.random()
        if d <= 0 or x < 0.35:
            return self.num() if self.r.random() < 0.5 else self.fn(env)
        op = self.r.choice(["+", "-", "*", "/", "-", "+"])
        n = {"+": self.k("ops", self.r.choice([2, 2, 3, 4])), "*": self.k("ops", self.r.choice([2, 2, 3])),
             "-": self.r.choice([1, 2, 2]), "/": 2}[op]
        ks = [self.exp(env, d - 1) for _ in range(n)]
        if self.r.random() < 0.3 and n > 1:
            ks[1] = ks[0]
        return nd(op, ks=ks)

    def comp(self, env):
        op = self.r.choice(["<", "<=", ">", ">=", "f="])
        a, b = self.exp(env), self.exp(env)
        if self.r.random() < 0.2:
            b = a
        return nd(op, ks=[a, b])

    def quant_vars(self):
        return self.typed_vars(self.vars_(self.k("vs", self.r.choice([0, 1, 1, 2, 3]))))

    def deep(self, env, n):
        """A formula nested n levels deep."""
        if n <= 0:
            return self.gd(env, 1)
        op = self.r.choice([o for o in ["and", "not", "or", "imply", "forall", "exists"] if o in ("and", "not") or self.may(o)])
        if op in ("forall", "exists"):
            vs = self.quant_vars()
            e2 = dict(env)
            e2.update({v["n"]: v["t"] for v in vs})
            return nd(op, vs=vs, ks=[self.deep(e2, n - 1)])
        if op == "not":
            return nd("not", ks=[self.deep(env, n - 1)])
        ks = [self.deep(env, n - 1), self.gd(env, 1)]
        self.r.shuffle(ks)
        return nd(op, ks=ks)

    def gd(self, env, d=None):
        if d is None and self.k("deep", 0):
            return self.deep(env, self.r.randint(*BIG["deep"][:2]))
        d = self.depth if d is None else d
        x = self.r.random()
        if d <= 0 or x < 0.25:
            y = self.r.random()
            if y < 0.15 and self.may("eq"):
                return nd("eq", ts=[self.term(env), self.term(env)])
            if y < 0.3:
                return self.comp(env)
            return self.pred(env)
        if x < 0.45:
            return nd("and", ks=self.gds(env, d))
        if x < 0.6:
            return nd("or", ks=self.gds(env, d)) if self.may("or") else self.pred(env)
        if x < 0.7:
            return nd("not", ks=[self.gd(env, d - 1)])
        if x < 0.78:
            return nd("imply", ks=[self.gd(env, d - 1), self.gd(env, d - 1)]) if self.may("imply") else self.pred(env)
        q = self.r.choice(["forall", "exists"])
        if not self.may(q):
            return self.pred(env)
        vs = self.quant_vars()
        e2 = dict(env)
        e2.update({v["n"]: v["t"] for v in vs})
        return nd(q, vs=vs, ks=[self.gd(e2, d - 1)])

    def gds(self, env, d):
        ks = [self.gd(env, d - 1) for _ in range(self.k("ops", self.r.choice([0, 1, 2, 2, 3, 3, 4])))]
        if ks and self.r.random() < 0.25:
            ks.insert(self.r.randrange(len(ks) + 1), self.r.choice(ks))
        return ks

    def atom(self, env):
        if self.may("eq") and self.r.random() < 0.05:
            return nd("eq", ts=[self.term(env), self.term(env)])
        return self.pred(env)

    def p_eff(self, env):
        x = self.r.random()
        if x < 0.25:
            return nd("not", ks=[self.atom(env)])
        if x < 0.5:
            return nd(self.r.choice(["assign", "scale-up", "scale-down", "increase", "decrease"]), ks=[self.fn(env), self.exp(env)])
        return self.atom(env)

    def cond_eff(self, env):
        if self.r.random() < 0.5:
            return nd("and", ks=[self.p_eff(env) for _ in range(self.k("ops", self.r.randrange(4)))])
        return self.p_eff(env)

    def c_eff(self, env, d):
        x = self.r.random()
        if d <= 0 or x < 0.45:
            return self.p_eff(env)
        if x < 0.65:
            return nd("when", ks=[self.gd(env, d - 1), self.cond_eff(env)])
        if x < 0.85 or not self.may("oneof"):
            vs = self.quant_vars()
            e2 = dict(env)
            e2.update({v["n"]: v["t"] for v in vs})
            return nd("eforall", vs=vs, ks=[self.eff(e2, d - 1)])
        return nd("oneof", ks=[self.eff(env, d - 1) for _ in range(self.k("ops", self.r.choice([1, 2, 2, 3])))])

    def eff(self, env, d=None):
        d = self.depth if d is None else d
        if self.r.random() < 0.5:
            ks = [self.c_eff(env, d) for _ in range(self.k("ops", self.r.choice([0, 1, 2, 2, 3, 4])))]
            if ks and self.r.random() < 0.2:
                ks.append(self.r.choice(ks))
            return nd("and", ks=ks)
        return self.c_eff(env, d)

    # actions, derived predicates ---------------------------------------------
    def action(self, nm):
        ps = self.typed_vars(self.vars_(self.k("ps", self.r.choice([0, 1, 2, 2, 3, 4]))))
        env = {v["n"]: v["t"] for v in ps}
        pre = NONE if self.r.random() < 0.1 else self.gd(env)
        eff = NONE if self.r.random() < 0.1 else self.eff(env)
        return {"nm": nm, "ps": ps, "pre": pre, "eff": eff}

    def derived(self, decl):
        """A derived predicate for a declared one, with its declared types."""
        vs = self.vars_(len(decl["ts"]))
        ps = [V(n, t["t"]) for n, t in zip(vs, decl["ts"])]
        env = {v["n"]: v["t"] for v in ps}
        return {"h": nd("pred", decl["nm"], ps), "c": self.gd(env)}

    # domains, problems, plans ---------------------------------------------------
    def reqs(self):
        x = self.r.random()
        if x < 0.1:
            return []
        if x < 0.35:
            return sorted({":adl", ":fluents", ":non-deterministic", ":derived-predicates"} | set(self.r.sample(KEYS, 2)))
        return sorted(set(self.r.sample(KEYS, self.r.randint(1, 9))))

    def signature(self, reqs):
        self.cl = closure(reqs)
        types = self.type_forest()
        if ":typing" not in self.cl:
            types = [[t, ""] for t, _ in types]
            self.tagpool = []
        else:
            self.tagpool = sorted({t for t, _ in types} | {p for _, p in types if p} | {"object"})
        self.types = types
        consts = [[n, self.tag()] for n in self.names(self.k("consts", self.some(0, 4)))]
        self.consts = consts
        preds = []
        for n in self.names(self.k("preds", self.some(1, 5))):
            ps = self.typed_vars(self.vars_(self.k("ps", self.r.choice([0, 1, 1, 2, 2, 3, 5, 7]))))
            if ps and self.r.random() < 0.1:      # a variable repeated with the same types
                i = self.r.randrange(len(ps))
                ps.insert(i, ps[i])
            preds.append(nd("pred", n, ps))
        preds += self.overloads(preds)
        self.preds = [(p["nm"], len(p["ts"])) for p in preds]
        funs = []
        for n in self.names(self.k("funs", self.some(0, 3))):
            if ":numeric-fluents" in self.cl:
                funs.append([nd("fn", n, self.typed_vars(self.vars_(self.k("ps", self.r.choice([0, 1, 2, 3]))))), self.r.choice(["", "number"])])
        if funs:
            funs += [[f, self.r.choice(["", "number"])] for f in self.overloads([f for f, _ in funs])]
        if ":action-costs" in self.cl and self.r.random() < 0.5:
            funs.append([nd("fn", "total-cost"), self.r.choice(["", "number"])])
        self.funs = [(f["nm"], len(f["ts"])) for f, _ in funs]
        return types, consts, preds, funs

    def overloads(self, decls):
        """Now and then: a name declared again, with other types, other variables, or another number of them."""
        out = []
        if decls and self.r.random() < 0.15:
            for _ in range(self.r.randint(1, 2)):
                d = self.r.choice(decls)
                x = self.r.random()
                if x < 0.5:
                    ts = self.typed_vars([t["n"] for t in d["ts"]]) if len({t["n"] for t in d["ts"]}) == len(d["ts"]) else d["ts"]
                elif x < 0.7:
                    ts = [V(n, t["t"]) for n, t in zip(self.vars_(len(d["ts"])), d["ts"])]
                else:
                    ts = self.typed_vars(self.vars_(self.r.randrange(4)))
                o = nd(d["op"], d["nm"], ts)
                if o not in decls and o not in out:
                    out.append(o)
        return out

    def domain(self, reqs=None, nm=None):
        reqs = self.reqs() if reqs is None else reqs
        self.goal_mode = False
        types, consts, preds, funs = self.signature(reqs)
        once = [p for p in preds if sum(q["nm"] == p["nm"] for q in preds) == 1]
        dps = [self.derived(self.r.choice(once))
               for _ in range(self.k("dps", self.some(0, 2))) if once]
        dps = [d for d in dps if len({t["n"] for t in d["h"]["ts"]}) == len(d["h"]["ts"])]
        return {"nm": nm or self.name(), "reqs": reqs, "types": types, "consts": consts, "preds": preds, "funs": funs,
                "dps": dps, "acts": [self.action(n) for n in self.names(self.k("acts", self.some(0, 4)))]}

    def problem(self, d, nm=None):
        """A problem consistent with the domain d (generated by this generator just before)."""
        cnames = [c[0] for c in d["consts"]]
        objs = []
        k = self.k("objs", self.some(0, 6))
        glued = k <= len(GLUED) and self.r.random() < 0.1
        for n in self.r.sample(GLUED, k) if glued else self.names(k):
            if n not in cnames:
                objs.append([n, self.tag()])
        if d["consts"] and self.r.random() < 0.15:      # constants declared once more
            objs += [list(c) for c in self.r.sample(d["consts"], self.r.randint(1, min(2, len(d["consts"]))))]
            self.r.shuffle(objs)
        saved = self.consts
        self.consts = self.consts + objs or [["o1", ""]]
        ground = lambda f: dict(f, ts=[C(self.r.choice(self.consts)[0]) for _ in f["ts"]])
        init = []
        for _ in range(self.k("init", self.some(0, 8))):
            x = self.r.random()
            if x < 0.5:
                init.append(ground(self.pred({})))
            elif x < 0.65:
                init.append(nd("not", ks=[ground(self.pred({}))]))
            else:
                init.append(nd("f=", ks=[ground(self.fn({})), self.num()]))
        if init and self.r.random() < 0.2:
            init.append(self.r.choice(init))
        self.goal_mode = True
        fv, self.free_vars = self.free_vars, 0.02
        goal = self.gd({})
        self.free_vars = fv
        metric = NONE
        if self.r.random() < 0.5:
            e = self.exp({})
            metric = nd(self.r.choice(["minimize", "maximize"]), ks=[self._ground_exp(e)])
        self.goal_mode = False
        reqs = [r for r in d["reqs"] if self.r.random() < 0.7]
        self.consts = saved
        return {"nm": nm or self.name(), "dom": d["nm"], "reqs": reqs, "objs": objs, "init": init, "goal": goal, "metric": metric}

    def _ground_exp(self, e):
        if e["op"] == "fn":
            return dict(e, ts=[C(self.r.choice(self.consts)[0] if self.consts else "a") for _ in e["ts"]])
        return dict(e, ks=[self._ground_exp(k) for k in e["ks"]])

    def plan(self, d=None, p=None, n=None):
        """Steps; fitting d and p when they are given."""
        out = []
        acts = d["acts"] if d else []
        objs = ([o[0] for o in p["objs"]] if p else []) + ([c[0] for c in d["consts"]] if d else [])
        for _ in range(self.k("plan", self.r.choice([0, 1, 2, 3, 5, 8])) if n is None else n):
            if d:
                fit = [a for a in acts if objs or not a["ps"]]
                if not fit:
                    break
                a = self.r.choice(fit)
                out.append({"nm": a["nm"], "as": [self.r.choice(objs) for _ in a["ps"]]})
            else:
                pool = self.names(3) + ["%s-%d" % (self.name(), i) for i in range(self.r.choice([0, 0, 3, 12]))]
                k = self.r.choice([0, 1, 2, 3, 0, 1, 2, 3, 6, 15, 40])
                out.append({"nm": self.name(), "as": [self.r.choice(pool) if k > 3 or self.r.random() < 0.3 else self.name() for _ in range(k)]})
        if out and self.r.random() < 0.3:
            out.append(self.r.choice(out))
        return out


# ---------------------------------------------------------------------------
class Writer:
    """Values to token trees, choosing among the ways to write them."""

    def __init__(self, rng, vary=True):
        self.r = rng
        self.vary = vary

    def flip(self, p=0.5):
        return self.vary and self.r.random() < p

    def typed(self, items, ordered=True):
        """items: (tokens, types). Items without types can only be at the end."""
        items = list(items)
        if not ordered:
            if self.vary:
                self.r.shuffle(items)
            items.sort(key=lambda i: not i[1])
        out = []
        i = 0
        while i < len(items):
            t, ty = items[i]
            out.append(t)
            nxt = items[i + 1][1] if i + 1 < len(items) else None
            if ty and not (nxt is not None and sorted(nxt) == sorted(ty) and not self.flip(0.4)):
                out += ["-", self.type_exp(ty)]
            i += 1
        return out

    def type_exp(self, ty):
        ty = list(ty)
        if len(ty) == 1 and not self.flip(0.15):
            return ty[0]
        if self.vary:
            self.r.shuffle(ty)
            if self.flip(0.1):
                ty.append(self.r.choice(ty))
        return ["either"] + ty

    def tvars(self, vs, ordered=True):
        return self.typed([("?" + v["n"], v["t"]) for v in vs], ordered)

    def tnames(self, ps):
        ps = list(ps)
        if self.vary:
            self.r.shuffle(ps)
        ps.sort(key=lambda p: not p[1])
        # names take a single primitive type, never an either type
        out = []
        for i, (n, t) in enumerate(ps):
            out.append(n)
            if t and not (i + 1 < len(ps) and ps[i + 1][1] == t and not self.flip(0.4)):
                out += ["-", t]
        return out

    def term(self, t):
        return "?" + t["n"] if t["k"] == "v" else t["n"]

    def num(self, canon):
        x = self.r.random() if self.vary else 1
        if x < 0.1:
            return "0" + canon
        if x < 0.25:
            return canon + ("0" if "." in canon else "")
        return canon

    def head(self, f, bare_ok):
        ts = [self.term(t) for t in f["ts"]]
        if not ts and bare_ok and self.flip(0.4):
            return f["nm"]
        return [f["nm"]] + ts

    def node(self, f, left_of_eq=False):
        op, ks = f["op"], f["ks"]
        if op == "pred":
            return [f["nm"]] + [self.term(t) for t in f["ts"]]
        if op == "eq":
            return ["="] + [self.term(t) for t in f["ts"]]
        if op == "fn":
            return self.head(f, not left_of_eq)
        if op == "num":
            return self.num(f["nm"])
        if op == "f=":
            return ["=", self.node(ks[0], True), self.node(ks[1], True)]
        if op in ("forall", "exists", "eforall"):
            return [op.replace("eforall", "forall"), self.tvars(f["vs"], False), self.node(ks[0])]
        return [op] + [self.node(k) for k in ks]

    def empty_or(self, f):
        if f["op"] == "and" and not f["ks"] and self.flip():
            return []
        return self.node(f)

    def action(self, a):
        out = [":action", a["nm"], ":parameters", self.tvars(a["ps"])]
        if a["pre"]["op"] != "none":
            out += [":precondition", self.empty_or(a["pre"])]
        if a["eff"]["op"] != "none":
            out += [":effect", self.empty_or(a["eff"])]
        return out

    def sec(self, key, items):
        if not items and not (key in (":types", ":constants", ":objects") and self.flip(0.2)):
            return []
        return [[key] + items]

    def shuffled(self, xs):
        xs = list(xs)
        if self.vary:
            self.r.shuffle(xs)
        return xs

    def domain(self, d):
        funs = self.typed([([f["nm"]] + self.tvars(f["ts"]), [t] if t else []) for f, t in d["funs"]], False) if d["funs"] else []
        funs = ["number" if x == ["either", "number"] or x == ["either", "number", "number"] else x for x in funs]
        reqs = self.shuffled(d["reqs"])
        if reqs and self.flip(0.1):
            reqs.append(reqs[0])
        preds = [[p["nm"]] + self.tvars(p["ts"]) for p in self.shuffled(d["preds"])]
        body = self.sec(":requirements", reqs) + self.sec(":types", self.tnames(d["types"]))
        body += self.sec(":constants", self.tnames(d["consts"])) + self.sec(":predicates", preds) + self.sec(":functions", funs)
        st = [self.action(a) for a in d["acts"]]
        st += [[":derived", [x["h"]["nm"]] + self.tvars(x["h"]["ts"]) if self.derived_types(x) else
                [x["h"]["nm"]] + ["?" + t["n"] for t in x["h"]["ts"]], self.node(x["c"])] for x in d["dps"]]
        return ["define", ["domain", d["nm"]]] + body + self.shuffled(st)

    def derived_types(self, x):
        """Untyped arguments before typed ones cannot be written; leave all types to the declaration then."""
        seen = False
        for t in x["h"]["ts"]:
            if t["t"] and seen:
                return False
            seen = seen or not t["t"]
        return not self.flip(0.4)

    def problem(self, p):
        body = self.sec(":requirements", self.shuffled(p["reqs"])) + self.sec(":objects", self.tnames(p["objs"]))
        body += [[":init"] + [self.node(f, True) if f["op"] != "f=" else self.init_num(f) for f in self.shuffled(p["init"])]]
        body += [[":goal", self.node(p["goal"])]]
        if p["metric"]["op"] != "none":
            body += [[":metric", p["metric"]["op"], self.node(p["metric"]["ks"][0])]]
        return ["define", ["problem", p["nm"]], [":domain", p["dom"]]] + body

    def init_num(self, f):
        return ["=", self.head(f["ks"][0], True), self.num(f["ks"][1]["nm"])]

    def plan(self, steps):
        return [[s["nm"]] + s["as"] for s in steps]


# ---------------------------------------------------------------------------
def flat(sx):
    """Tokens of a token tree (or of a list of token trees given as a tuple)."""
    if isinstance(sx, str):
        return [sx]
    out = ["("]
    for x in sx:
        out += flat(x)
    return out + [")"]


COMMENTS = ["", " a comment", " (unbalanced", ") ) )", " ?x - object", "; ;", " define (domain z)", " \ttab", " \"quoted\" #$%&",
            " é ü λ"]


class Layout:
    def __init__(self, rng, style=None):
        self.r = rng
        self.style = rng.choice(["plain", "tight", "wild", "lines", "crlf"]) if style is None else style

    def gap(self, need):
        s = self.style
        if s == "plain":
            return " "
        if s == "tight":
            return " " if need else ""
        if s == "lines":
            return "\n" if need or self.r.random() < 0.3 else ""
        if s == "crlf":
            return self.r.choice([" ", "\r\n", "\r\n\t"]) if need or self.r.random() < 0.3 else ""
        x = self.r.random()
        if x < 0.12:
            return self.r.choice(["", " ", "\n"]) + ";" + self.r.choice(COMMENTS) + "\n"
        if x < 0.4 or need:
            return "".join(self.r.choice([" ", "\t", "\n", "  ", "\r\n", "\f", " \n \n"]) for _ in range(self.r.choice([1, 1, 2])))
        return ""

    def text(self, tokens):
        out = [self.gap(False) if self.style == "wild" else ""]
        prev = "("
        for t in tokens:
            # separation is needed between two words, never next to a parenthesis
            need = prev not in "()" and t not in "()"
            out.append(self.gap(need))
            if t[0] == "?" and len(t) > 1 and self.style == "wild" and self.r.random() < 0.03:
                t = "? " + t[1:]
            out.append(t)
            prev = t
        out.append(self.gap(False))
        if self.style == "wild" and self.r.random() < 0.3:
            out.append("; trailing comment" + self.r.choice(["", "\n", " )"]))
        return "".join(out)


# ---------------------------------------------------------------------------
VOCAB = {"(", ")", "-", "=", "<", "<=", ">", ">=", "+", "*", "/", "define", "domain", "problem", "and", "or", "not", "imply",
         "forall", "exists", "when", "oneof", "either", "object", "assign", "increase", "decrease", "scale-up", "scale-down",
         "minimize", "maximize", "total-cost", "number", "a", "b", "x", "foo", "?x", "?y", "0", "1", "2.5", "1.2.3",
         ":requirements", ":types", ":constants", ":predicates", ":functions", ":action", ":parameters", ":precondition",
         ":effect", ":derived", ":domain", ":objects", ":init", ":goal", ":metric", ":strips", ":typing", ":adl",
         ":equality", ":foo", ":object-fluents", ":constraints", "?and", "?object"}
VOCABL = sorted(VOCAB)


def mutate(rng, tokens):
    """One malformation (possibly harmless) of a token list."""
    t = list(tokens)
    if not t:
        return [rng.choice(VOCABL)]
    k = rng.choice(["del", "dup", "swap", "rep", "rep", "ins", "cut", "tail", "group", "dropgroup", "dupgroup", "swapgroup", "movegroup"])
    i = rng.randrange(len(t))
    if k == "del":
        del t[i]
    elif k == "dup":
        t.insert(i, t[i])
    elif k == "swap":
        j = rng.randrange(len(t))
        t[i], t[j] = t[j], t[i]
    elif k == "rep":
        t[i] = rng.choice(VOCABL) if rng.random() < 0.7 else rng.choice(t)
    elif k == "ins":
        t.insert(i, rng.choice(VOCABL) if rng.random() < 0.7 else rng.choice(t))
    elif k == "cut":
        t = t[:i]
    elif k == "tail":
        t = t + [rng.choice(VOCABL) for _ in range(rng.randint(1, 3))]
    else:
        gs = groups(t)
        if not gs:
            return t
        a, b = rng.choice(gs)
        g = t[a:b]
        if k == "group":
            t = t[:a] + ["("] + g + [")"] + t[b:]
        elif k == "dropgroup":
            t = t[:a] + t[b:]
        elif k == "dupgroup":
            t = t[:b] + g + t[b:]
        elif k == "swapgroup":
            c, e = rng.choice(gs)
            if b <= c:
                t = t[:a] + t[c:e] + t[b:c] + g + t[e:]
            elif e <= a:
                t = t[:c] + g + t[e:a] + t[c:e] + t[b:]
        else:
            rest = t[:a] + t[b:]
            j = rng.randrange(len(rest) + 1)
            t = rest[:j] + g + rest[j:]
    return t


def misspell(rng, tokens):
    """One occurrence of a name, variable or keyword written differently."""
    t = list(tokens)
    at = [i for i, x in enumerate(t) if any(c.isalpha() for c in x)]
    if not at:
        return t
    by = {}
    for i in at:
        by.setdefault(t[i], []).append(i)
    i = rng.choice(by[rng.choice(sorted(by))])
    x = t[i]
    alike = [y for y in by if y != x and y[0] in ":?" and y[0] == x[0] or y[0] not in ":?" and x[0] not in ":?"]
    more = [] if x[0] == ":" or x in VOCAB else [x + "s", x + "-", x + "_1", x + x]
    t[i] = rng.choice([x.upper(), x.swapcase(), x.capitalize(), x[:-1] or x] + more + alike[:8])
    return t


def groups(t):
    st, out = [], []
    for i, x in enumerate(t):
        if x == "(":
            st.append(i)
        elif x == ")" and st:
            out.append((st.pop(), i + 1))
    return out


def clone(j):
    return json.loads(json.dumps(j))


def rng_of(*key):
    return random.Random(repr(key))
