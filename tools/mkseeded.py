#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from seeds.py: applies the edits in a scratch copy
of /repo, builds, runs the repository's tests and the demonstration with and
without the change, and keeps the change only if all of that is as it should be.

    mkseeded.py [ID...]
"""
import json, os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
from seeds import SEEDS
OUT = os.path.join(H, "..", "seeded")
ENV = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off")
BASE = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.strip()

DEMO_SH = '''#!/bin/bash
# Runs demo.go against the code in the current directory.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cp "$D/demo.go" "$T/main.go"
printf 'module demo\\n\\ngo 1.18\\n\\nrequire github.com/msaf1980/go-matcher v0.0.0\\n\\nreplace github.com/msaf1980/go-matcher => %%s\\n' "$R" >"$T/go.mod"
cd "$T" || exit 2
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
go build %s-o demo . || exit 2
%stimeout 120 ./demo
'''

def sh(cmd, cwd, t=300):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=t)

def main(ids):
    bad = []
    for s in SEEDS:
        if ids and s["id"] not in ids:
            continue
        T = tempfile.mkdtemp(prefix="seed-")
        try:
            r = os.path.join(T, "repo")
            sh(["git", "clone", "-q", "/repo", r], "/")
            err = ""
            d = os.path.join(T, s["id"])
            os.makedirs(d)
            race = s.get("race")
            open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH % ("-race " if race else "", "GORACE=halt_on_error=1 " if race else ""))
            open(os.path.join(d, "demo.go"), "w").write(s["demo"].lstrip())
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                      open(os.path.join(d, "meta.json"), "w"), indent=1)
            demo = ["bash", os.path.join(d, "demo.sh")]
            p = sh(demo, r)
            if p.returncode != 0:
                err = "demo fails on the clean tree: " + p.stdout[-800:] + p.stderr[-800:]
            # lines of the original repository only
            for f, old, new in s["edits"]:
                src = open(os.path.join(r, f)).read()
                if src.count(old) != 1:
                    err = err or "%s: %d places of %r" % (f, src.count(old), old)
                    continue
                open(os.path.join(r, f), "w").write(src.replace(old, new))
            if not err:
                diff = sh(["git", "diff"], r).stdout
                open(os.path.join(d, "patch.diff"), "w").write(diff)
                for f in {e[0] for e in s["edits"]}:
                    bl = sh(["git", "blame", "-s", "-l", "HEAD", "--", f], r).stdout.splitlines()
                    hunk = sh(["git", "diff", "-U0", "--", f], r).stdout
                    import re
                    for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", hunk, re.M):
                        a, n = int(m[1]), int(m[2] or 1)
                        for ln in bl[a - 1:a - 1 + n]:
                            if BASE[:30] not in ln.split()[0].lstrip("^") and not ln.startswith("^" + BASE[:20]):
                                err = err or "changes a line of a fix commit: " + ln
                p = sh(["go", "build", "./..."], r)
                if p.returncode:
                    err = err or "does not build " + p.stderr[-500:]
                p = sh(["go", "test", "-vet=off", "-count=1", "./..."], r)
                if p.returncode:
                    fl = [x for x in p.stdout.splitlines() if "--- FAIL" in x]
                    err = err or "tests fail: " + "; ".join(fl[:6])
                p = sh(demo, r)
                if p.returncode == 0:
                    err = err or "demo does not fail with the change"
                elif p.returncode == 2 and "panic" not in p.stderr:
                    err = err or "demo exits 2: " + p.stderr[-500:]
                sh(["git", "checkout", "--", "."], r)
                p2 = sh(["git", "apply", os.path.join(d, "patch.diff")], r)
                if p2.returncode:
                    err = err or "patch does not apply"
            if err:
                bad.append(s["id"])
                print("BAD ", s["id"], err[:600])
            else:
                o = os.path.join(OUT, s["id"])
                shutil.rmtree(o, ignore_errors=True)
                shutil.copytree(d, o)
                print("kept", s["id"], (p.stdout + p.stderr).strip().splitlines()[:1])
        finally:
            shutil.rmtree(T, ignore_errors=True)
    print("bad:", bad)

main(sys.argv[1:])
