#!/usr/bin/env python3
"""seedtest.py ID...: verifies planted bugs: patch applies, builds, stable tests pass, demo fails with it and passes without;
then runs the property's quick check against it.  Leaves /repo as it was."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def run(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def demo(i):
    d = tempfile.mkdtemp(prefix="demo_")
    for f in os.listdir(V + "/seeded/" + i):
        if not f.endswith((".diff", ".patch")) and f != "meta.json": shutil.copy(V + "/seeded/" + i + "/" + f, d)
    try: r = run(["bash", d + "/demo.sh"], cwd="/repo", timeout=300)
    except subprocess.TimeoutExpired: return 124, "timeout"
    finally: shutil.rmtree(d)
    return r.returncode, r.stdout.decode(errors="replace")[-300:]
def build(): return run(["bash", "/opt/vp/build.sh"]).returncode
def stable():
    run(["bash", "/opt/vp/test.sh", "/tmp/st.json"])
    b = json.load(open("/opt/vp/BASELINE.json")); o = set(json.load(open("/tmp/st.json"))["passed"])
    base = next(set(b[k]) for k in ("passed", "stable", "tests") if k in b) if isinstance(b, dict) else set(b)
    return sorted(base - o)[:3]
args = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(V + "/seeded"))
nocheck = "-n" in sys.argv
assert not run(["git", "-C", "/repo", "status", "--porcelain", "-uno"]).stdout.strip(), "dirty repo"
res = {}
for i in args:
    meta = json.load(open(V + "/seeded/%s/meta.json" % i))
    r = run(["git", "-C", "/repo", "apply", V + "/seeded/%s/patch.diff" % i])
    if r.returncode: print(i, "APPLY FAILED", r.stdout.decode()); continue
    try:
        out = []
        if build(): out.append("BUILD FAILED")
        else:
            m = stable()
            if m: out.append("TESTS FAIL %s" % m)
            rc, t = demo(i)
            out.append("demo rc=%d" % rc if rc else "DEMO PASSES WITH BUG")
            if not nocheck:
                c = run([sys.executable, V + "/check.py", meta["property"]])
                lines = c.stdout.decode(errors="replace").splitlines()
                out.append("caught by %s" % meta["property"] if c.returncode == 1 and any(l.startswith("VIOLATION") for l in lines) else "MISSED by %s (rc %d)" % (meta["property"], c.returncode))
                out.append(lines[-1][-40:] if lines else "")
    finally:
        run(["git", "-C", "/repo", "checkout", "--", "."])
    build()
    rc, t = demo(i)
    if rc: out.append("DEMO FAILS WITHOUT BUG rc=%d %s" % (rc, t))
    print(i, "|", "; ".join(out), flush=True)
