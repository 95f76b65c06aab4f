"""Running TLC."""
import json
import os
import re
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "spec")
JARS = "/opt/veriftools/tla"


class TlcError(Exception):
    pass


def classpath():
    jars = [os.path.join(JARS, f) for f in sorted(os.listdir(JARS)) if f.endswith(".jar")]
    jars.sort(key=lambda p: not p.endswith("tla2tools.jar"))
    return ":".join(jars)


def run(module, cfg, env=None, workers=8, timeout=800, heap="6g", extra=()):
    """Run TLC on spec/<module>.tla with the given cfg text. Returns (exit code, stdout, states, distinct)."""
    tmp = tempfile.mkdtemp(prefix="pddl-tlc-")
    try:
        c = os.path.join(tmp, module + ".cfg")
        with open(c, "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss256m", "-Djava.io.tmpdir=" + tmp, "-cp", classpath(), "tlc2.TLC",
               "-workers", str(workers), "-deadlock", "-noGenerateSpecTE", "-metadir", os.path.join(tmp, "meta"), "-config", c]
        cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
        p = subprocess.run(cmd, cwd=tmp, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        out = p.stdout.decode("utf8", "replace")
        m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
        st = tuple(int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        return p.returncode, out, st[0], st[1]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def lines(out, mark):
    """Values printed with PrintT(mark \\o ToJson(..))."""
    r = []
    for l in out.splitlines():
        l = l.strip()
        if l.startswith('"' + mark):
            s = json.loads(l)          # a TLA+ string literal uses the JSON escapes
            r.append(json.loads(s[len(mark):]))
    return r


def conform(sessions, timeout=800):
    """Validate sessions. Returns (failures, states, transitions)."""
    tmp = tempfile.mkdtemp(prefix="pddl-trace-")
    try:
        path = os.path.join(tmp, "trace.ndjson")
        n = 0
        with open(path, "w") as f:
            for s in sessions:
                f.write(json.dumps({"events": s["events"]}) + "\n")
                n += len(s["events"])
        code, out, gen, distinct = run("Conform", "SPECIFICATION Spec\n", {"PDDL_TRACE": path}, timeout=timeout)
        fails = lines(out, "@@FAIL ")
        if code != 0 and not fails:
            raise TlcError(out[-2500:])
        want = n + len(sessions) - sum(len(sessions[f["s"] - 1]["events"]) - f["l"] for f in fails)
        if distinct != want and not (code != 0 and fails):
            raise TlcError(f"{distinct} states instead of {want} for {len(sessions)} sessions with {n} events\n" + out[-3000:])
        return fails, distinct, distinct - len(sessions)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
