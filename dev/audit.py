#!/usr/bin/env python3
"""audit.py NAME...: every check must stay quiet on the behaviour-preserving
edits in dev/refactors (false-alarm audit). Env: SIM_SECS, CHECKS."""
import json, os, subprocess, sys, tempfile, shutil, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/dev")
import mkbug
base = json.load(open("/opt/vp/BASELINE.json"))
checks = os.environ.get("CHECKS", "").split() or [c["property"] if "property" in c else c["id"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
for name in sys.argv[1:] or sorted(os.path.basename(f)[:-3] for f in glob.glob(V + "/dev/refactors/*.py")):
    ns = {}
    exec(open(f"{V}/dev/refactors/{name}.py").read(), ns)
    work = tempfile.mkdtemp(prefix="audit-")
    tree = work + "/repo"
    subprocess.run(["cp", "-a", "/repo", tree], check=True)
    try:
        for f, a, b in ns["EDITS"]:
            s = open(f"{tree}/{f}").read()
            if s.count(a) != 1:
                sys.exit(f"{name}: {f} has {s.count(a)} x {a[:60]!r}")
            open(f"{tree}/{f}", "w").write(s.replace(a, b))
        r = mkbug.run(". /opt/vp/env.sh; go vet . ./commands ./tools ./edlisp ./edlisp/parser ./edlisp/testing", tree)
        if r.returncode:
            sys.exit(name + r.stderr)
        got = mkbug.tests(tree, work)
        bad = [t for t in base["tests"] if got.get(t) not in ("pass", "passed", True)] if "tests" in base and isinstance(got, dict) and "tests" not in got else None
        print(name, "tests:", {k: (len(v) if hasattr(v, "__len__") else v) for k, v in got.items()} if isinstance(got, dict) else len(got), flush=True)
        e = dict(os.environ, SIM_REPO=tree, SIM_DEV=work + "/dev")
        os.makedirs(work + "/dev")
        for c in checks:
            r = subprocess.run([V + "/check", c], cwd=V, env=e, capture_output=True, text=True)
            print(name, c, "quiet" if r.returncode == 0 else f"ALARM {r.returncode}\n" + r.stdout[-3000:] + r.stderr[-2000:], flush=True)
    finally:
        shutil.rmtree(work, ignore_errors=True)
