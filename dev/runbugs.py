#!/usr/bin/env python3
"""runbugs.py [ID...]: runs each planted bug's own check in a scratch copy."""
import json, os, subprocess, sys, tempfile, shutil, glob, re
V = "/verif"
ids = sys.argv[1:] or sorted(os.path.basename(d) for d in glob.glob(V + "/seeded/*"))
for i in ids:
    meta = json.load(open(f"{V}/seeded/{i}/meta.json"))
    work = tempfile.mkdtemp(prefix="runbug-")
    tree = work + "/repo"
    subprocess.run(["cp", "-a", "/repo", tree], check=True)
    r = subprocess.run(["git", "apply", f"{V}/seeded/{i}/patch.diff"], cwd=tree, capture_output=True, text=True)
    if r.returncode:
        print(i, "does not apply", r.stderr); continue
    e = dict(os.environ, SIM_REPO=tree); e.pop("SIM_DEV", None)
    r = subprocess.run([V + "/check", meta["property"]], cwd=V, env=e, capture_output=True, text=True)
    seeds = re.findall(r"quick: (\d+) of.* ([\d.]+) s", r.stdout)
    viol = [l[:150] for l in r.stdout.splitlines() if re.match(r"[a-z-]+: ", l)]
    print(f"{i:26} {'caught' if r.returncode == 1 and 'VIOLATION property=' + meta['property'] in r.stdout else 'MISSED %d' % r.returncode} {seeds} {viol[:2]} {r.stderr[-200:] if r.returncode > 1 else ''}", flush=True)
    shutil.rmtree(work, ignore_errors=True)
