#!/usr/bin/env python3
"""Small systematic changes of the library, to look for behaviour no check observes.

mutants.py list                      number of mutants
mutants.py run OUT [every [offset]]  every n-th mutant: recorded sessions of all properties against the specification
"""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
FILES = ["_validation.py", "action.py", "core.py", "custom_types.py", "formatter.py", "requirements.py", "__main__.py", "__init__.py", "helpers/base.py",
         "helpers/cache_hash.py", "logic/base.py", "logic/effects.py", "logic/functions.py", "logic/helpers.py",
         "logic/predicates.py", "logic/terms.py", "parser/_update_type_tags.py", "parser/base.py", "parser/domain.py",
         "parser/plan.py", "parser/problem.py", "parser/typed_list_parser.py"]
CMP = {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt],
       ast.GtE: [ast.Gt], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}


def variants(n):
    """Replacements of an expression or statement."""
    if isinstance(n, ast.Compare):
        for i, o in enumerate(n.ops):
            for c in CMP.get(type(o), []):
                m = copy.deepcopy(n)
                m.ops[i] = c()
                yield m
    if isinstance(n, ast.BoolOp):
        m = copy.deepcopy(n)
        m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
        yield m
        for i in range(len(n.values)):
            m = copy.deepcopy(n)
            del m.values[i]
            yield m if len(m.values) > 1 else m.values[0]
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        yield n.operand
    if isinstance(n, ast.IfExp):
        yield n.body
        yield n.orelse
    if isinstance(n, ast.Constant) and type(n.value) is int:
        for v in (n.value + 1, n.value - 1):
            yield ast.Constant(v)
    if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value and not n.value[0].isupper():
        yield ast.Constant("")
    if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.BitAnd, ast.BitOr, ast.Sub, ast.Add)):
        yield n.left
        yield n.right
    if isinstance(n, ast.Call):
        f = n.func.id if isinstance(n.func, ast.Name) else ""
        if f == "sorted":
            yield ast.Call(ast.Name("list"), n.args[:1], [])
        if f in ("set", "frozenset", "list", "tuple", "dict", "reversed", "ensure_set", "ensure_sequence", "check_no_duplicates") and len(n.args) >= 1:
            yield n.args[0]
        if f in ("all", "any"):
            yield ast.Call(ast.Name("any" if f == "all" else "all"), n.args, [])
        for i in range(len(n.keywords)):
            m = copy.deepcopy(n)
            del m.keywords[i]
            yield m
        if len(n.args) >= 2:
            m = copy.deepcopy(n)
            m.args[0], m.args[1] = m.args[1], m.args[0]
            yield m
    if isinstance(n, (ast.Set, ast.Tuple, ast.List)) and isinstance(getattr(n, "ctx", ast.Load()), ast.Load) and len(n.elts) > 1:
        for i in range(len(n.elts)):
            m = copy.deepcopy(n)
            del m.elts[i]
            yield m
    if isinstance(n, ast.comprehension):
        for i in range(len(n.ifs)):
            m = copy.deepcopy(n)
            del m.ifs[i]
            yield m
    if isinstance(n, ast.If):
        for v in (True, False):
            m = copy.deepcopy(n)
            m.test = ast.Constant(v)
            yield m
    if isinstance(n, (ast.Raise, ast.Continue, ast.Break)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)) or isinstance(n, ast.AugAssign):
        yield ast.Pass()
    if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
        yield ast.Return(ast.Constant(None))
    if isinstance(n, ast.For):
        m = copy.deepcopy(n)
        m.iter = ast.Subscript(ast.Call(ast.Name("list"), [n.iter], []), ast.Slice(None, ast.Constant(1)), ast.Load())
        yield m
    if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.decorator_list:
        for i, d in enumerate(n.decorator_list):
            if ast.unparse(d) in ("property", "classmethod", "staticmethod", "abstractmethod", "wraps(fn)"):
                continue
            m = copy.deepcopy(n)
            del m.decorator_list[i]
            yield m


def dead(n):
    """Subtrees not worth changing."""
    return isinstance(n, (ast.Import, ast.ImportFrom, ast.AnnAssign)) or \
        (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)) or \
        (isinstance(n, ast.FunctionDef) and n.name in ("__repr__",)) or isinstance(n, ast.JoinedStr) or \
        (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id.endswith(("Error", "TypeVar")))


def python_mutants(rel):
    src = open(os.path.join(REPO, "pddl", rel)).read()
    tree = ast.parse(src)
    spots = []

    def walk(n):
        for field, old in ast.iter_fields(n):
            if field in ("annotation", "returns", "bases", "decorator_list"):
                continue
            for i, c in enumerate(old) if isinstance(old, list) else [(None, old)]:
                if not isinstance(c, ast.AST) or dead(c):
                    continue
                spots.append((n, field, i, c))
                walk(c)
    walk(tree)
    for n, field, i, c in spots:
        for v in variants(c):
            if i is None:
                setattr(n, field, v)
            else:
                getattr(n, field)[i] = v
            try:
                new = ast.unparse(ast.fix_missing_locations(tree))
                what = ast.unparse(ast.fix_missing_locations(ast.copy_location(v, c)))
            except Exception:
                new = None
            if i is None:
                setattr(n, field, c)
            else:
                getattr(n, field)[i] = c
            if new is not None:
                line = getattr(c, "lineno", 0)
                yield {"file": "pddl/" + rel, "line": line, "old": ast.unparse(c)[:160] if not isinstance(c, ast.comprehension) else "comprehension",
                       "new": what[:160], "text": new}


def grammar_mutants():
    rel = "pddl/parser/grammar.lark"
    lines = open(os.path.join(REPO, rel)).read().split("\n")
    import re
    for i, l in enumerate(lines):
        if not l.strip() or l.startswith(("%", "//")):
            continue
        opts = []
        for a, b in [("*", "+"), ("+", "*"), ("*", ""), ("+", ""), ("?", ""), ("[", ""), ("|", "")]:
            for m in re.finditer(re.escape(a), l):
                if '"' in l or "/" in l:
                    continue
                if a == "[":
                    j = l.find("]", m.start())
                    opts.append(l[:m.start()] + l[m.start() + 1:j] + l[j + 1:])
                    opts.append(l[:m.start()] + l[j + 1:])
                elif a == "|":
                    opts.append(l[:m.start()])
                else:
                    opts.append(l[:m.start()] + b + l[m.end():])
        if l.strip().startswith("|"):
            opts.append("")
        for o in opts:
            yield {"file": rel, "line": i + 1, "old": l, "new": o, "text": "\n".join(lines[:i] + [o] + lines[i + 1:])}


def all_mutants():
    ms = [m for f in FILES for m in python_mutants(f)] + list(grammar_mutants())
    seen, out = set(), []
    for m in ms:
        k = (m["file"], m["text"])
        if k not in seen:
            seen.add(k)
            out.append(m)
    random.Random(1).shuffle(out)
    return out


CHILD = r"""
import json, os, sys, time
HERE, REPO = sys.argv[1:3]
sys.dont_write_bytecode = True
sys.argv = ["check.py", "C01"]
os.environ["PDDL_REPO"] = REPO
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(HERE, "lib"))
import check, scen, rec, tlc, gen
import signal
signal.signal(signal.SIGALRM, rec._alarm)          # no memory limit: the model checker is started from here
_run = tlc.run
tlc.run = lambda *a, **k: _run(*a, **dict(k, heap='3g', workers=2))
rec.LIMIT_S = 4.0; rec._limit[0] = 4.0; rec.SHORT_S = 1.0
t0 = time.time()
for n, lo in ((6, 0), (30, 6)):
    ss = []
    for prop in sorted(scen.SCEN):
        for f, w in scen.SCEN[prop]:
            slow = prop in ("C20", "C21", "C22")
            for i in range(lo, n if not slow else max(lo // 3, n // 3)):
                s = check.record((prop, 1, f.__name__, i))
                s["prop"] = prop
                if s.get("error"):
                    print("ERROR", s["error"][-300:]); continue
                ss.append(s)
                if any(e["op"] == "flag" and not e["ok"] for e in s["events"]):
                    print("KILLED", prop, s["name"], [e["what"] for e in s["events"] if e["op"] == "flag" and not e["ok"]][:1]); sys.exit()
            if time.time() - t0 > 500: print("KILLED slow", prop); sys.exit()
    fails, _, _ = tlc.conform(ss)
    if fails:
        f = fails[0]; print("KILLED", sorted({ss[f["s"]-1]["prop"] for f in fails}), sorted(f["bad"])[:2]); sys.exit()
print("SURVIVED")
"""


def run_one(job):
    i, m = job
    d = tempfile.mkdtemp(prefix="pddl-mut-")
    try:
        shutil.copytree(os.path.join(REPO, "pddl"), os.path.join(d, "pddl"), ignore=shutil.ignore_patterns("__pycache__"))
        shutil.copytree(os.path.join(REPO, "tests", "fixtures"), os.path.join(d, "tests", "fixtures"))
        with open(os.path.join(d, m["file"]), "w") as f:
            f.write(m["text"])
        env = dict(os.environ, PYTHONHASHSEED="1", PDDL_REPO=d, JAVA_TOOL_OPTIONS="-XX:TieredStopAtLevel=1")
        try:
            p = subprocess.run(["nice", "-n", "5", "/opt/venv/bin/python", "-B", "-c", CHILD, HERE, d], env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=900)
            out = p.stdout.decode("utf8", "replace").strip().split("\n")
        except subprocess.TimeoutExpired:
            out = ["KILLED timeout"]
        last = next((l for l in reversed(out) if l.startswith(("KILLED", "SURVIVED"))), "BROKEN " + out[-1][:200])
        return dict({k: m[k] for k in ("file", "line", "old", "new")}, i=i, res=last)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ms = all_mutants()
    if sys.argv[1] == "list":
        from collections import Counter
        print(len(ms), Counter(m["file"] for m in ms))
        return
    import concurrent.futures
    step = int(sys.argv[3]) if len(sys.argv) > 3 else 1
    off = int(sys.argv[4]) if len(sys.argv) > 4 else 0
    jobs = [(i, m) for i, m in enumerate(ms) if i % step == off]
    with open(sys.argv[2], "a") as f, concurrent.futures.ThreadPoolExecutor(int(os.environ.get("JOBS", "6"))) as pool:
        for r in pool.map(run_one, jobs):
            f.write(json.dumps(r) + "\n")
            f.flush()


if __name__ == "__main__":
    main()
