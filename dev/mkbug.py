#!/usr/bin/env python3
"""mkbug.py BUGFILE...: turns a bug description into /verif/seeded/<id>/ after
confirming it in a scratch copy of /repo: it applies, builds, passes the stable
tests, and its demo fails with it and passes without it. Then runs the check.

A bug file is python: ID, PROP, NEEDS, BREAKS, EDITS = [(file, old, new)],
DEMO = bash text (cwd is the repository), FILES = {name: text} beside the demo."""
import json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


HDR = r"""
set -u
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
"""
MCP = r"""
ask() { # one JSON-RPC request per argument, fed to a fresh server
  (printf '%s\n' '{"jsonrpc":"2.0","id":"init","method":"initialize","params":{"protocolVersion":"2024-11-05","capabilities":{},"clientInfo":{"name":"d","version":"1"}}}' "$@"; sleep 1) | timeout -k 2 20 "$w/texted" mcp | grep -v '"id":"init"'
}
call() { printf '{"jsonrpc":"2.0","id":%s,"method":"tools/call","params":{"name":"%s","arguments":%s}}' "$1" "$2" "$3"; }
"""


def GOTEST(pkg):
    return HDR + f"""
printf '{{"Replace": {{"%s": "%s"}}}}' "$PWD/{pkg}/zz_demo_test.go" "$here/demo_test.go.txt" > "$w/o.json"
go test -overlay "$w/o.json" -run TestZZDemo -count=1 ./{pkg} || exit 1
"""


def run(cmd, cwd, timeout=600, env=None):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), executable="/bin/bash" if isinstance(cmd, str) else None, capture_output=True, text=True, timeout=timeout, env=env)


def tests(tree, work):
    out = os.path.join(work, "t.json")
    s = open("/opt/vp/test.sh").read().replace("cd /repo", f"cd {tree}")
    p = os.path.join(work, "test.sh")
    open(p, "w").write(s)
    run(["bash", p, out], tree)
    return json.load(open(out))


def main():
    base = json.load(open("/opt/vp/BASELINE.json"))
    rc = 0
    for bf in sys.argv[1:]:
        ns = {"HDR": HDR, "GOTEST": GOTEST, "MCP": MCP}
        exec(open(bf).read(), ns)
        work = tempfile.mkdtemp(prefix="mkbug-")
        tree = os.path.join(work, "repo")
        subprocess.run(["cp", "-a", "/repo", tree], check=True)
        try:
            d = os.path.join(work, "demo")
            os.makedirs(d)
            open(os.path.join(d, "demo.sh"), "w").write("#!/bin/bash\n" + ns["DEMO"].lstrip("\n"))
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            for n, t in ns.get("FILES", {}).items():
                open(os.path.join(d, n), "w").write(t)
            r = run(["bash", os.path.join(d, "demo.sh")], tree)
            if r.returncode:
                print(f"{ns['ID']}: demo fails on the unchanged tree: {r.stdout[-1500:]} {r.stderr[-1500:]}")
                rc = 1
                continue
            for f, a, b in ns["EDITS"]:
                p = os.path.join(tree, f)
                s = open(p).read()
                if s.count(a) != 1:
                    print(f"{ns['ID']}: {f} has {s.count(a)} x {a[:70]!r}")
                    rc = 1
                    break
                open(p, "w").write(s.replace(a, b))
            else:
                r = run(". /opt/vp/env.sh; gofmt -l commands edlisp tools texted.go cmd; go build ./...", tree)
                if r.returncode:
                    print(ns["ID"], "does not build", r.stderr)
                    rc = 1
                    continue
                if r.stdout.strip():
                    print(ns["ID"], "note: gofmt", r.stdout)
                t = tests(tree, work)
                want = base.get("stable") or base.get("passed") or base
                got = t.get("passed") or t
                miss = sorted(set(want) - set(got)) if isinstance(got, (list, dict)) else ["?"]
                if isinstance(got, dict):
                    miss = [x for x in want if got.get(x) not in ("pass", "PASS", True, "passed")]
                if miss:
                    print(ns["ID"], "breaks tests:", miss[:5])
                    rc = 1
                    continue
                r = run(["bash", os.path.join(d, "demo.sh")], tree)
                if r.returncode == 0:
                    print(ns["ID"], "demo does not notice")
                    rc = 1
                    continue
                diff = run("git diff", tree).stdout
                dst = os.path.join(VERIF, "seeded", ns["ID"])
                shutil.rmtree(dst, ignore_errors=True)
                shutil.copytree(d, dst)
                open(os.path.join(dst, "patch.diff"), "w").write(diff)
                json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(os.path.join(dst, "meta.json"), "w"), indent=1)
                e = dict(os.environ, SIM_REPO=tree)
                e.pop("SIM_DEV", None)
                r = run([os.path.join(VERIF, "check"), ns["PROP"]], VERIF, env=e)
                last = [l for l in r.stdout.splitlines() if l][-3:]
                print(f"{ns['ID']} {ns['PROP']}: {'CAUGHT' if r.returncode == 1 else 'MISSED ' + str(r.returncode)} | " + " | ".join(x[:230] for x in last) + r.stderr[-300:])
        finally:
            shutil.rmtree(work, ignore_errors=True)
    return rc


if __name__ == "__main__":
    sys.exit(main())
