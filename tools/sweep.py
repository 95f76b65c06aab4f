#!/usr/bin/env python3
"""Run the check of each planted bug's property on a scratch copy with the bug; write a table for DESIGN.md.

sweep.py OUT.jsonl [ids...]     run (all, or those)
sweep.py --table OUT.jsonl      put the table into DESIGN.md
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, "seeded")


def run(b):
    meta = json.load(open(os.path.join(SEED, b, "meta.json")))
    tmp = tempfile.mkdtemp(prefix="sweep-")
    try:
        repo = os.path.join(tmp, "repo")
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        subprocess.run(["git", "-C", repo, "apply", os.path.join(SEED, b, "patch.diff")], check=True)
        verif = os.path.join(tmp, "verif")
        os.makedirs(verif)
        for x in os.listdir(HERE):
            if x not in ("seeded", "out", "evidence", ".git"):
                subprocess.run(["cp", "-a", os.path.join(HERE, x), verif], check=True)
        p = subprocess.run([sys.executable, "-B", "check.py", meta["property"]], cwd=verif, env=dict(os.environ, PDDL_REPO=repo),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        last = p.stdout.strip().split("\n")[-1]
        where = [x.strip() for x in p.stdout.split("\n") if x.startswith("  ") and ", step " in x][:1]
        n = last.split(" violations")[0].split(" ")[-1] if " violations" in last else "?"
        return {"bug": b, "property": meta["property"], "caught": p.returncode == 1 and "VIOLATION property=" + meta["property"] in p.stdout,
                "code": p.returncode, "violations": n, "where": where}
    finally:
        shutil.rmtree(tmp)


def main():
    if sys.argv[1] == "--table":
        rows = {}
        for line in open(sys.argv[2]):
            x = json.loads(line)
            rows[x["bug"]] = x
        out = ["| bug | property | needs | breaks | its check reports |", "|---|---|---|---|---|"]
        for b in sorted(os.listdir(SEED)):
            m = json.load(open(os.path.join(SEED, b, "meta.json")))
            r = rows.get(b, {"caught": False, "where": [], "violations": "?"})
            w = r["where"][0].replace("|", "/")[:110] if r["where"] else ""
            out.append("| %s | %s | %s | %s | %s |" % (b, m["property"], m["needs"], m["what_it_breaks"],
                                                      w + " (%s)" % r["violations"] if r["caught"] else "missed"))
        p = os.path.join(HERE, "DESIGN.md")
        s = open(p).read()
        a, z = s.index("<!-- seeds -->"), s.index("<!-- end of seeds -->")
        open(p, "w").write(s[:a] + "<!-- seeds -->\n" + "\n".join(out) + "\n" + s[z:])
        return
    with open(sys.argv[1], "a") as f:
        for b in sys.argv[2:] or sorted(os.listdir(SEED)):
            x = run(b)
            f.write(json.dumps(x) + "\n")
            f.flush()
            print(b, x["property"], "caught" if x["caught"] else "MISSED %s" % x["code"], x["violations"], x["where"], flush=True)


main()
