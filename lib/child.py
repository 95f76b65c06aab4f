"""A helper process with its own hash seed. Reads one JSON request per line, answers with one JSON line."""
import base64
import json
import os
import pickle
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ.get("PDDL_REPO", "/repo"))

import build  # noqa: E402
import proj  # noqa: E402
import rec  # noqa: E402
from gen import rng_of  # noqa: E402


def same_hash(a, b):
    try:
        return hash(a) == hash(b) and (a in {b}) and ({b: 1}.get(a) == 1)
    except TypeError:
        return True


def load(q):
    o = pickle.loads(base64.b64decode(q["data"]))
    if q["kind"] == "req":
        return {"val": str(o), "eq": o == build.REQ[q["json"]], "hash": same_hash(o, build.REQ[q["json"]])}
    f = build.any_(q["kind"], q["json"])
    if q["dom"]:
        f.domain = build.domain(q["dom"])
    return {"val": proj.any_(q["kind"], o), "eq": bool(o == f) and bool(f == o), "hash": same_hash(o, f)}


def text(q):
    """Texts of freshly built values, the unordered parts supplied in different orders."""
    out = []
    for i in range(q["n"]):
        rng = rng_of(q["seed"], i)
        kind, j = q["kind"], q["json"]
        o = {"domain": build.domain, "problem": build.problem}[kind](j, rng) if kind in ("domain", "problem") else build.any_(kind, j)
        out.append(rec.TO_STRING[kind](o) if kind in rec.TO_STRING else str(o))
    return {"texts": out}


def main():
    rec.limits()
    for line in sys.stdin:
        q = json.loads(line)
        out, r = rec.guarded(lambda: {"load": load, "text": text}[q["op"]](q))
        print(json.dumps({"out": out, "r": r if out == "ok" else None, "exc": "" if out == "ok" else repr(r)[:300]}), flush=True)


if __name__ == "__main__":
    main()
