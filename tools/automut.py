#!/usr/bin/env python3
"""Runs checks against automatic one-place changes (tools/automut) until one reports them, and lists the changes none reports.

usage: automut.py [-j N] [-n COUNT] [-s SEED] [-t SECONDS] FILE..."""
import concurrent.futures as cf, json, os, random, shutil, subprocess, sys, tempfile, time
sys.argv, ARGS = sys.argv[:1] + ["/dev/null"], sys.argv[1:]
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = [("hub.go", "H04 H02 H01 H05 H03 W01 L01 L02"), ("dock.go", "D05 R03 D06 D01 R04 D03 L02 R06 D04 R01 L01 D02 R02"), ("rpc.go", "R06 R02 L02 D06 R03 R05"),
          ("slot.go", "G02 R06 R04 D03"), ("registry.go", "G02"), ("runtime.go", "D03 L01 L02 D02"), ("ferry.go", "D03 L01 L02 D02"), ("serializer.go", "W01 R05 N01 R04"),
          ("protocol.go", "W01 R05 R04"), ("chancall/", "C01 C02 C03 C04 R06"), ("network/mock.go", "N01 N02 N03 L01 D01"), ("network/", "N01 N02 N03 L01 D01 L02"),
          ("codec/", "K01 K02 K03 K04"), ("misc/", "M01"), ("tool/", "G01")]


def sh(cmd, cwd, t=900):
    try:
        return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, 99, str(e.stdout or "")[-500:], "")


def one(m):
    if time.time() > END:
        return None
    w = tempfile.mkdtemp(prefix="mut-")
    try:
        r, v = os.path.join(w, "repo"), os.path.join(w, "verif")
        subprocess.check_call(["cp", "-a", "/repo", r])
        os.mkdir(v)
        for x in ("check.py", "lib", "spec", "harness"):
            subprocess.check_call(["cp", "-a", os.path.join(V, x), v])
        p = os.path.join(r, m["file"])
        t = open(p, "rb").read()
        open(p, "wb").write(t[:m["off"]] + m["new"].encode() + t[m["end"]:])
        b = sh("gofmt -w %s && go build ./... && go vet ." % m["file"], r)
        if b.returncode:
            return m, "build"
        ns = "unshare -Urmn sh -c 'mount --bind %s /repo && mount --bind %s %s && ip link set lo up && cd %s && " % (r, v, V, V)
        t = sh(ns + "bash /opt/vp/test.sh %s/t.json >/dev/null 2>&1; cat %s/t.json'" % (w, w), "/", 120)
        try:
            d = json.loads(t.stdout)
            base = json.load(open("/opt/vp/BASELINE.json"))
            names = base.get("stable") or base.get("tests") or base
            if [n for n in names if n not in d.get("passed", d.get("pass", []))]:
                return m, "tests"
        except Exception:
            return m, "tests"
        if m["file"].startswith("tool/"):
            pass
        ps = next(c for f, c in CHECKS if m["file"].startswith(f) or os.path.basename(m["file"]) == f).split()
        odd = []
        for p in ps:
            c = sh(ns + "python3 check.py %s'" % p, "/")
            if c.returncode == 1:
                return m, "caught by %s %s" % (p, (c.stdout.split("\n")[0])[:100])
            if c.returncode:
                odd.append("%s rc=%d %s" % (p, c.returncode, c.stdout[-200:]))
        return m, "SURVIVED %s" % odd
    finally:
        shutil.rmtree(w, ignore_errors=True)


def opt(n, d):
    if n in ARGS:
        i = ARGS.index(n)
        d = int(ARGS[i + 1])
        del ARGS[i:i + 2]
    return d


j, n, s, t = opt("-j", 2), opt("-n", 40), opt("-s", 1), opt("-t", 3000)
END = time.time() + t
ms = json.loads(subprocess.run(["go", "run", os.path.join(V, "tools/automut/main.go"), "/repo"] + ARGS, stdout=subprocess.PIPE, text=True, check=True).stdout)
random.Random(s).shuffle(ms)
print(len(ms), "changes,", n, "tried", flush=True)
with cf.ThreadPoolExecutor(j) as ex:
    for f in cf.as_completed([ex.submit(one, m) for m in ms[:n]]):
        x = f.result()
        if x:
            m, res = x
            print(res.split(" ")[0], m["id"], repr(m["new"][:60]), "|", res, flush=True)
