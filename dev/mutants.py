#!/usr/bin/env python3
"""mutants.py OUT FILE...: mechanical mutants of /repo's files that survive the
stable tests, and which checks see them. OUT.jsonl gets one line per survivor."""
import json, os, shutil, subprocess, sys, threading, queue, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [("edlisp/builtin_", "C02 C16"), ("edlisp/testing", "C19 C08"), ("edlisp/parser", "C20 C02 C10 C16 C09"), ("edlisp/writer", "C20 C10 C09"),
       ("edlisp/documentation", "C18 C12 C11 C05"), ("edlisp/", "C02 C16 C12 C20"), ("texted.go", "C02 C01 C06 C03 C14 C10"), ("commands/edit.go", "C02 C01 C06 C04 C10 C27 C05 C03"),
       ("commands/test.go", "C19 C18"), ("commands/parse.go", "C10 C20 C09"), ("commands/doc.go", "C18 C05 C10"), ("commands/mcp.go", "C11 C12"),
       ("tools/edit_file.go", "C06 C14 C15 C11 C01 C13"), ("tools/texted_eval.go", "C11 C12 C09 C05"), ("tools/texted_doc.go", "C11 C12 C18"), ("cmd/", "C10 C01")]
base = json.load(open("/opt/vp/BASELINE.json"))
want = base.get("stable") or base.get("passed") or base
out = sys.argv[1]
W = "/tmp/mut"
os.makedirs(W, exist_ok=True)
SRC = W + "/src"  # everything works on a copy, so /repo may change meanwhile
shutil.rmtree(SRC, ignore_errors=True)
subprocess.run(["cp", "-a", "/repo", SRC], check=True)
muts = []
subprocess.run(["bash", "-c", f". /opt/vp/env.sh && cd {VERIF}/dev && go build -o {W}/mutate mutate.go"], check=True)
for f in sys.argv[2:]:
    r = subprocess.run([W + "/mutate", SRC + "/" + f], capture_output=True, text=True, check=True)
    for l in r.stdout.splitlines():
        m = json.loads(l); m["file"] = f; muts.append(m)
seen = set()
if os.path.exists(out):
    for l in open(out):
        m = json.loads(l); seen.add((m["file"], m["Start"], m["End"], m["new"]))
print(len(muts), "mutants", flush=True)
q = queue.Queue()
for m in muts:
    if (m["file"], m["Start"], m["End"], m["new"]) not in seen: q.put(m)
surv = queue.Queue()
stat = {"build": 0, "tests": 0, "survive": 0}

def tester(i):
    tree = f"{W}/t{i}"
    shutil.rmtree(tree, ignore_errors=True)
    subprocess.run(["cp", "-a", SRC, tree], check=True)
    s = open("/opt/vp/test.sh").read().replace("cd /repo", f"cd {tree}").replace("-timeout 3m", "-timeout 40s")
    open(f"{W}/test{i}.sh", "w").write(s)
    while True:
        try: m = q.get_nowait()
        except queue.Empty: break
        p = os.path.join(tree, m["file"])
        src = open(SRC + "/" + m["file"], "rb").read()
        open(p, "wb").write(src[:m["Start"]] + m["new"].encode() + src[m["End"]:])
        r = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; go build ./..."], cwd=tree, capture_output=True)
        if r.returncode: stat["build"] += 1
        else:
            subprocess.run(["bash", f"{W}/test{i}.sh", f"{W}/o{i}.json"], capture_output=True)
            try: t = json.load(open(f"{W}/o{i}.json"))
            except Exception: t = {}
            got = t.get("passed") or t
            ok = all(x in got for x in want) if isinstance(got, list) else all(got.get(x) in ("pass", "PASS", True, "passed") for x in want)
            if ok: stat["survive"] += 1; surv.put(m)
            else: stat["tests"] += 1
        open(p, "wb").write(src)
    shutil.rmtree(tree, ignore_errors=True)

lanes = int(os.environ.get("LANES", "4"))
done = threading.Event()
wl = threading.Lock()

def checker(i):
    tree = f"{W}/c{i}"
    while True:
        try: m = surv.get(timeout=1)
        except queue.Empty:
            if done.is_set(): return
            continue
        shutil.rmtree(tree, ignore_errors=True)
        subprocess.run(["cp", "-a", SRC, tree], check=True)
        p = os.path.join(tree, m["file"]); src = open(p, "rb").read()
        open(p, "wb").write(src[:m["Start"]] + m["new"].encode() + src[m["End"]:])
        checks = next(c for k, c in MAP if m["file"].startswith(k)).split()
        res, tried = None, {}
        for c in checks:
            e = dict(os.environ, SIM_REPO=tree, SIM_DEV=f"{W}/dev{i}", SIM_SECS=os.environ.get("SIM_SECS", "6"), SIM_WORKERS="2")
            try: r = subprocess.run([VERIF + "/check", c], capture_output=True, text=True, env=e, timeout=400)
            except subprocess.TimeoutExpired: tried[c] = "timeout"; continue
            tried[c] = r.returncode
            if r.returncode == 1:
                k = r.stdout.splitlines()
                v = [l for l in k if l.startswith("VIOLATION")]
                res = c + ": " + (k[k.index(v[0]) - 1][:160] if v else "")
                break
            if r.returncode == 2: tried[c] = r.stderr[-300:]
        m["caught"] = res; m["tried"] = tried
        with wl:
            with open(out, "a") as f: f.write(json.dumps(m) + "\n")
            print("CAUGHT" if res else "MISSED", m["file"], m["line"], repr(m["old"][:60]), "->", repr(m["new"][:60]), res or tried, flush=True)
        subprocess.run(f"rm -rf {W}/dev{i}/w* {W}/dev{i}/case*", shell=True)

ths = [threading.Thread(target=tester, args=(i,)) for i in range(8)]
for t in ths: t.start()
for t in ths: t.join()
print(stat, flush=True)
done.set()
ths = [threading.Thread(target=checker, args=(i,)) for i in range(lanes)]
for t in ths: t.start()
for t in ths: t.join()
