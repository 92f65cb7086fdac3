#!/usr/bin/env python3
"""Runs the same seeds in processes that take them in different orders; every case must come to the same digest.

usage: SIM_DEV=dir dev/determ.py N [ID...]"""
import json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "sim"))
from plan import PLAN
D = os.environ["SIM_DEV"]
n = int(sys.argv[1])
ids = sys.argv[2:] or sorted(PLAN)


def go(a):
    p, first, stride, count, k = a
    d = os.path.join(D, f"det-{p}-{k}")
    os.makedirs(d, exist_ok=True)
    cfg = dict(prop=p, mode="digests", base=1, first=first, stride=stride, count=count, out=os.path.join(d, "out"), known=[])
    c = os.path.join(d, "cfg.json")
    json.dump(cfg, open(c, "w"))
    exe = os.path.join(D, "b", "sim")
    if not os.path.exists(exe):
        exe += "-race"
    r = subprocess.run([exe], cwd=d, env={"PATH": "/usr/bin:/bin", "HOME": d, "VERIF_WORK": c, "GODEBUG": "asyncpreemptoff=1", "TZ": "UTC", "LANG": "C.UTF-8"}, capture_output=True, text=True, errors="replace", timeout=1800)
    return {tuple(x.split()[1:3]): x for x in r.stdout.splitlines() if x.startswith("digest ")}


bad = 0
with ThreadPoolExecutor(7) as ex:
    jobs = {p: [ex.submit(go, (p, 0, 1, n, 0)), ex.submit(go, (p, n - 1, -1, -1, 1)), ex.submit(go, (p, n // 2, 1, n, 2))] for p in ids}
    for p in ids:
        a, b, c = [j.result() for j in jobs[p]]
        diff = [k for k in a if a[k] != b.get(k)] + [k for k in c if a.get(k) != c[k]]
        bad += bool(diff)
        print(p, len(a), len(b), len(c), "differ:", len(diff), [(a.get(k), b.get(k), c.get(k)) for k in diff[:3]], flush=True)
sys.exit(bad > 0)
