#!/usr/bin/env python3
"""Runs checks against many small changes at once, each in namespaces of its own with a changed copy of /repo over it.

usage: mutate.py FILE [-j N] [ID...]      FILE defines M = [(id, props, [(file, old, new)...])...]
A change whose properties are "" is meant to keep the behaviour: all checks named by -p have to stay quiet."""
import concurrent.futures as cf, os, runpy, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, t=900):
    try:
        return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, 99, str(e.stdout or "")[-500:], "")


def one(m):
    mid, props, edits = m
    w = tempfile.mkdtemp(prefix="mut-")
    try:
        r, v = os.path.join(w, "repo"), os.path.join(w, "verif")
        subprocess.check_call(["cp", "-a", "/repo", r])
        os.mkdir(v)
        for x in ("check.py", "lib", "spec", "harness"):
            subprocess.check_call(["cp", "-a", os.path.join(V, x), v])
        for f, old, new in edits:
            p = os.path.join(r, f)
            t = open(p).read()
            if t.count(old) != 1:
                return mid, "EDIT matches %d times: %s" % (t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        b = sh("gofmt -w $(git diff --name-only) && go build ./...", r)
        if b.returncode:
            return mid, "BUILD " + b.stdout[-300:]
        res = []
        ns = "unshare -Urmn sh -c 'mount --bind %s /repo && mount --bind %s %s && ip link set lo up && cd %s && " % (r, v, V, V)
        t = sh(ns + "bash /opt/vp/test.sh %s/t.json >/dev/null 2>&1; cat %s/t.json'" % (w, w), "/", 400)
        import json
        try:
            d = json.loads(t.stdout)
            base = json.load(open("/opt/vp/BASELINE.json"))
            names = base.get("stable") or base.get("tests") or base
            bad = [n for n in names if n not in d.get("passed", d.get("pass", []))]
            tests = "tests ok" if not bad else "TESTS FAIL %s" % bad[:3]
        except Exception as e:
            tests = "TESTS? %r %s" % (e, t.stdout[:200])
        for p in props.split():
            s = time.time()
            c = sh(ns + "python3 check.py %s'" % p, "/")
            line = [x for x in c.stdout.split("\n") if x.strip()]
            res.append("%s rc=%d %ds %s" % (p, c.returncode, time.time() - s, (line[0] if c.returncode else "")[:150] if c.returncode < 2 else c.stdout[-400:]))
        return mid, tests + " | " + "; ".join(res)
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    a = sys.argv[1:]
    j, p = 2, ""
    if "-j" in a:
        i = a.index("-j")
        j = int(a[i + 1])
        del a[i:i + 2]
    if "-p" in a:
        i = a.index("-p")
        p = a[i + 1].replace(",", " ")
        del a[i:i + 2]
    ms = runpy.run_path(a[0])["M"]
    ms = [(x, y or p, z) for x, y, z in ms if not a[1:] or x in a[1:]]
    with cf.ThreadPoolExecutor(j) as ex:
        for mid, text in ex.map(one, ms):
            print(mid, ":", text, flush=True)


main()
