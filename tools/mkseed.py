#!/usr/bin/env python3
"""Makes /verif/seeded/<id> from tools/seeds/<id>.py (planted bugs): the patch, the demonstration, and confirms both.

usage: mkseed.py ID...   (each ID.py defines PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], PKG, TEST)"""
import json, os, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/sh
# Runs demo_test.go.txt in the package through an overlay; fails if the property is broken.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
R=$(pwd)
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go.txt"}}' "$R/@PKG@" "$D" >"$T/o.json"
GOTOOLCHAIN=local GOPROXY=off go test -overlay "$T/o.json" -vet=off -count=1 -timeout 200s -run '^TestDemo$' ./@PKG@
RC=$?
rm -f "$T/o.json"
rmdir "$T"
exit $RC
"""


def sh(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def main(sid):
    s = runpy.run_path(os.path.join(V, "tools", "seeds", sid + ".py"))
    out = os.path.join(V, "seeded", sid)
    os.makedirs(out, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed-")
    try:
        r = os.path.join(w, "repo")
        subprocess.check_call(["cp", "-a", "/repo", r])
        with open(os.path.join(out, "demo.sh"), "w") as f:
            f.write(s.get("DEMO") or DEMO.replace("@PKG@", s["PKG"]))
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        if "TEST" in s:
            with open(os.path.join(out, "demo_test.go.txt"), "w") as f:
                f.write(s["TEST"])
        for n, c in s.get("FILES", {}).items():
            with open(os.path.join(out, n), "w") as f:
                f.write(c)
        a = sh("sh %s/demo.sh" % out, r)
        for f, old, new in s["EDITS"]:
            p = os.path.join(r, f)
            t = open(p).read()
            if t.count(old) != 1:
                return print(sid, "edit matches", t.count(old), "times:", old)
            open(p, "w").write(t.replace(old, new))
        fm = sh("gofmt -l .", r).stdout
        d = sh("git diff", r).stdout
        open(os.path.join(out, "patch.diff"), "w").write(d)
        orig = sh("git diff -U0 --no-color | grep -c '^[-+]'", r).stdout
        json.dump(dict(property=s["PROP"], needs=s["NEEDS"], what_it_breaks=s["BREAKS"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
        b = sh("sh %s/demo.sh" % out, r)
        bu = sh("go build ./... && go vet ./codec ./chancall ./network ./misc . 2>&1 | tail -3", r)
        fails = []
        for i in range(2):
            t = sh("go test -json -vet=off -count=1 -cpu 1 -timeout 2m . ; go test -json -vet=off -count=1 -timeout 2m $(go list -e ./... | grep -vx github.com/muguangyi/ferry)", r)
            for line in t.stdout.split("\n"):
                if '"Action":"fail"' in line:
                    fails.append(line[:200])
        print(sid, "OK" if a.returncode == 0 and b.returncode != 0 and bu.returncode == 0 and not fails else "BAD",
              dict(clean=a.returncode, bug=b.returncode, build=bu.returncode, fails=fails, fmt=fm.strip(), changed=orig.strip()))
        if a.returncode or os.environ.get("V"):
            print("CLEAN:", a.stdout[-1500:])
        if b.returncode == 0 or os.environ.get("V"):
            print("BUG:", b.stdout[-1500:])
        if bu.returncode:
            print(bu.stdout)
    finally:
        shutil.rmtree(w)


for x in sys.argv[1:]:
    main(x)
