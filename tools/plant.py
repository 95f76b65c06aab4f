#!/usr/bin/env python3
"""Plant bugs from a Python file defining BUGS = {id: dict(property, needs, what, edits=[(file, old, new)], demo)}.

For each: build the patch in a scratch copy, check that it only replaces original lines, that the demonstration tells
the trees apart, that the tests pass, and run the check of the property.  Keeps the good ones in /verif/seeded."""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

BASE = "a1bfa91"
SEEDED = "/verif/seeded"
VER = []
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, env=None, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, **(env or {})), timeout=timeout)
    return p.returncode, p.stdout.decode("utf8", "replace")


def base_lines():
    out = sh(f"git log --format=%H {BASE}..HEAD", "/repo")[1].split()
    return set(out)


def main():
    spec = importlib.util.spec_from_file_location("bugs", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    only = sys.argv[2:]
    mine = base_lines()
    copy = tempfile.mkdtemp(prefix="plantver-")
    VER.append(os.path.join(copy, "verif"))
    sh(f"mkdir {VER[0]}; cp -a check.py known-findings.txt properties.jsonl lib spec {VER[0]}/", "/verif")     # keep editing while this runs
    try:
        loop(m, only, mine)
    finally:
        shutil.rmtree(copy)


def loop(m, only, mine):
    for bid, b in m.BUGS.items():
        if only and bid not in only:
            continue
        tmp = tempfile.mkdtemp(prefix="plant-")
        repo = os.path.join(tmp, "repo")
        try:
            sh(f"git worktree prune; cp -a /repo {repo}", "/repo")
            for f, old, new in b["edits"]:
                p = os.path.join(repo, f)
                s = open(p).read()
                if s.count(old) != 1:
                    print(bid, "EDIT matches", s.count(old), "times:", old[:60])
                    break
                open(p, "w").write(s.replace(old, new))
            else:
                run(bid, b, repo, tmp, mine)
        finally:
            shutil.rmtree(tmp)


def run(bid, b, repo, tmp, mine):
    patch = sh("git diff", repo)[1]
    foreign = []
    for f in {e[0] for e in b["edits"]}:
        blame = sh(f"git blame -l HEAD -- {f}", repo)[1].splitlines()
        import difflib
        a = open("/repo/" + f).read().splitlines()
        c = open(os.path.join(repo, f)).read().splitlines()
        for tag, i1, i2, _, _ in difflib.SequenceMatcher(None, a, c, autojunk=False).get_opcodes():
            if tag in ("replace", "delete"):
                foreign += [blame[i] for i in range(i1, i2) if blame[i].lstrip("^").split()[0] in mine]
    if foreign:
        print(bid, "CHANGES MY LINES", foreign[:2])
        return
    d = os.path.join(tmp, bid)
    os.makedirs(d)
    open(os.path.join(d, "patch.diff"), "w").write(patch)
    open(os.path.join(d, "demo.py"), "w").write("import os\nimport sys\n\nsys.dont_write_bytecode = True\nsys.path.insert(0, os.getcwd())\n" + b["demo"])
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    r0, o0 = sh(f"bash {d}/demo.sh", "/repo", {"PYTHONPATH": ""})
    r1, o1 = sh(f"bash {d}/demo.sh", repo, {"PYTHONPATH": ""})
    if r0 != 0 or r1 == 0:
        print(bid, "DEMO does not tell the trees apart", r0, r1, o0[-600:], o1[-600:])
        return
    t, o = sh(f"find . -name __pycache__ -prune -exec rm -rf {{}} + ; PYTHONPATH={repo}:/opt/vp/plugins PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 {PY} -m pytest -q --doctest-modules pddl tests "
              "-p vp_path_ids -p no:cacheprovider -p no:randomly -o log_cli=0 -n 8 --timeout=60 --continue-on-collection-errors", repo)
    if t != 0:
        print(bid, "TESTS FAIL", [l for l in o.splitlines() if l.startswith("FAILED") or l.startswith("ERROR")][:2], o[-200:])
        return
    c, o = sh(f"{PY} -B check.py {b['property']}", VER[0], {"PDDL_REPO": repo, "VERIF_SEED": "1"})
    v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
    print(bid, b["property"], "CAUGHT" if c == 1 and v else f"MISSED exit {c}", "\n   ", "\n    ".join(o.splitlines()[-4:])[:700], flush=True)
    shutil.rmtree(os.path.join(SEEDED, bid), ignore_errors=True)
    shutil.copytree(d, os.path.join(SEEDED, bid))


if __name__ == "__main__":
    main()
