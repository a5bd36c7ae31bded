"""G01: interfaces generated from the specification, the proxies the generator makes of them compiled and called; judged by ProxyTrace."""
import concurrent.futures as cf, json, os, shutil, subprocess, threading
import core
from p_hub import guarded

ASSUME = ["interfaces are exported or not, non-generic, with exported methods, and in packages that compile",
          "parameters and results are of boolean, integer, floating-point and string types; a results' value fits its type"]
GEN = os.path.join(core.HARNESS, "gen")
RANGE = {"int8": 7, "int16": 15, "int32": 31, "rune": 31, "int64": 63, "int": 63}
URANGE = {"uint8": 8, "byte": 8, "uint16": 16, "uint32": 32, "uint64": 64, "uint": 64, "uintptr": 64}
KIND = {"byte": "uint8", "rune": "int32"}
F32S = ["0", "1.5", "-0.25", "16777216", "3.4028234663852886e+38", "1e-45", "-1", "255"]
F64S = F32S[:5] + ["0.1", "1e+300", "-2.2250738585072014e-308", "123456789.125"]
STRS = ["", "a", "\u00fc\u4e2d\U0001f600", "x" * 300, "\x00", "nil", "0", "%s\n\"", "true"]
ZERO = {"bool": "false", "string": ""}


def text(rng, t):
    if t == "bool":
        return rng.choice(["true", "true", "false"])
    if t == "string":
        return rng.choice(STRS)
    if t == "float32":
        return rng.choice(F32S)
    if t == "float64":
        return rng.choice(F64S)
    if t in RANGE:
        b = RANGE[t]
        return str(rng.choice([0, 1, -1, (1 << b) - 1, -(1 << b), rng.randrange(-(1 << b), 1 << b), 100, -100]))
    return str(rng.choice([0, 1, (1 << URANGE[t]) - 1, rng.randrange(1 << URANGE[t]), 200]))


def val(rng, t):
    return [KIND.get(t, t), text(rng, t)]


def wire(rng, v):
    """The same value as another type, as another dock might answer."""
    t, x = v
    if t in ("bool", "string") or rng.random() < 0.3:
        return v
    if t == "float32":
        return [rng.choice(["float32", "float64"]), x]
    if t == "float64":
        return ["float64", x]
    n = int(x)
    fit = [k for k, b in RANGE.items() if k != "rune" and -(1 << b) <= n < 1 << b] + [k for k, b in URANGE.items() if k not in ("byte", "uintptr") and 0 <= n < 1 << b]
    return [rng.choice(fit), x]


# ---------------------------------------------------------------- Go source
CLASH = ["p", "err", "results", "slot", "reflect", "ferry", "arg0", "ret0", "arg1", "args", "string", "nil", "_"]


def fields(rng, types, style, result):
    """A parameter or result list. Returns Go text."""
    if style == "unnamed" or not types:
        return ", ".join(types)
    if style == "blank":
        names = ["_"] * len(types)
    elif style == "clash":
        pool = [c for c in CLASH if c not in types]
        rng.shuffle(pool)
        names = pool[:len(types)]
    else:
        names = [("r" if result else "a") + str(i) for i in range(len(types))]
    if style == "grouped" or style == "clash" and rng.random() < 0.5:
        parts, i = [], 0
        while i < len(types):
            j = i
            while j + 1 < len(types) and types[j + 1] == types[i]:
                j += 1
            parts.append(", ".join(names[i:j + 1]) + " " + types[i])
            i = j + 1
        return ", ".join(parts)
    return ", ".join(n + " " + t for n, t in zip(names, types))


def source(rng, ifaces, pkg):
    """A file that declares interfaces, among other things."""
    out = ["// Package %s was made for a check." % pkg, "package " + pkg, ""]
    if rng.random() < 0.4:
        out += ["import \"fmt\"", "", "var _ = fmt.Sprint", ""]
    decls = []
    for i in ifaces:
        body = []
        for m in i["methods"]:
            ps, rs = fields(rng, m["params"], m["ps"], False), fields(rng, m["results"], m["rs"], True)
            if "clash" in (m["ps"], m["rs"]):    # parameters and results are of one scope
                rs = fields(rng, m["results"], "unnamed", True) if m["ps"] == "clash" else rs
                ps = fields(rng, m["params"], "unnamed", False) if m["rs"] == "clash" and m["ps"] != "clash" else ps
            named = rs != ", ".join(m["results"])
            body.append("\t%s(%s)%s" % (m["name"], ps, "" if not rs else " (" + rs + ")" if len(m["results"]) > 1 or named or rng.random() < 0.3 else " " + rs))
            if rng.random() < 0.2:
                body.append("\t// nothing" if rng.random() < 0.5 else "")
        decls.append((i["name"], body))
    rng.shuffle(decls)
    if rng.random() < 0.3 and len(decls) > 1:
        out.append("type (")
        for n, b in decls:
            out += ["\t" + n + " interface {"] + b + ["\t}"]
        out.append("\tother%s struct{ x, y int }" % decls[0][0])
        out.append(")")
    else:
        for n, b in decls:
            out += ["// %s is an interface." % n, "type %s interface {" % n] + b + ["}", ""]
            if rng.random() < 0.2:
                out += ["func use%s(x %s) {" % (n, n), "\ttype local struct{ x int }", "\t_ = local{}", "}", ""]
    return "\n".join(out) + "\n"


def features(ifaces, exported=True):
    """Features that have the methods, for main."""
    out = ["package main", "", "import \"reflect\"", "", "// SUB", "", "var zzIfaces = map[string]reflect.Type{"]
    for i in ifaces:
        out.append("\t\"%s\": reflect.TypeOf((*%s)(nil)).Elem()," % (i["name"], i["ref"]))
    out += ["}", "", "var zzFeatures = map[string]func() interface{}{"]
    for i in ifaces:
        out.append("\t\"%s\": func() interface{} { return &zzF%s{zzBase{name: \"%s\"}} }," % (i["name"], i["name"], i["name"]))
    out += ["}"]
    for i in ifaces:
        out += ["", "type zzF%s struct{ zzBase }" % i["name"]]
        for m in i["methods"]:
            ps = ", ".join("a%d %s" % (k, t) for k, t in enumerate(m["params"]))
            rs = "(" + ", ".join(m["results"]) + ")" if m["results"] else ""
            args = "".join(", a%d" % k for k in range(len(m["params"])))
            out.append("func (f *zzF%s) %s(%s) %s {" % (i["name"], m["name"], ps, rs))
            if m["results"]:
                out.append("\tr := zzExec(\"%s\", \"%s\"%s)" % (i["name"], m["name"], args))
                out.append("\treturn " + ", ".join("r[%d].(%s)" % (k, t) for k, t in enumerate(m["results"])))
            else:
                out.append("\tzzExec(\"%s\", \"%s\"%s)" % (i["name"], m["name"], args))
            out.append("}")
    return "\n".join(out) + "\n"


UNSUPPORTED = ["type Zz%d interface { M(x []int) }", "type Zz%d interface { M(x map[string]int) int }", "type Zz%d interface { M(x ...int) }",
               "type Zz%d interface { M() *int }", "type Zz%d interface { M(f func(int) int) }", "type Zz%d interface { M(x interface{}) }",
               "type Zz%d interface { fmtStringer; M() }", "type Zz%d struct { M int }", "type Zz%d func(x int) int", "type Zz%d interface {}"]
NAMES = ["IGame", "Igame", "IMath", "A", "B", "Server2", "X_Y", "IProxy", "Proxy", "Slot", "IFeature", "ISlot", "Target", "Ferry", "Main", "Results"]
LOWER = ["lower", "game", "iface", "target"]
METHODS = ["A", "B", "Do", "Get", "Set", "Start", "Run", "Call", "Visit", "CallWithResult", "SetTimeout", "String", "Proxy", "Init", "Ferry"]


def batch(rng, hists, n):
    """Files and interfaces of one program."""
    names = rng.sample(NAMES, len(hists))
    ifaces = []
    for k, h in enumerate(hists):
        ms = rng.sample(METHODS, len(h))
        sub = rng.random() < 0.2
        name = names[k] if sub or rng.random() < 0.8 or not LOWER[k:] else LOWER[k]
        ifaces.append(dict(name=name, ref="sub." + name if sub else name, sub=sub,
                           methods=[dict(name=m, params=x["params"], results=x["results"], ps=x["ps"], rs=x["rs"]) for m, x in zip(ms, h)]))
    files = {}
    main = [i for i in ifaces if not i["sub"]]
    subs = [i for i in ifaces if i["sub"]]
    cut = rng.randrange(len(main) + 1)
    for f, part in (("a.go", main[:cut]), ("game.go", main[cut:])):
        files[f] = source(rng, part, "main")
    if subs:
        files["sub/deep.go"] = source(rng, subs, "sub")
    if rng.random() < 0.6:
        files["b.go"] = "package main\n\ntype fmtStringer interface{ String() string }\n\n" + "\n".join(rng.choice(UNSUPPORTED) % k for k in range(3)) + "\n"
    return dict(ifaces=ifaces, files=files, subs=bool(subs), again=rng.random() < 0.3)


# ---------------------------------------------------------------- running
def mod(ferry, ver):
    return "module gen\n\ngo %s\n\nrequire github.com/muguangyi/ferry v0.0.0\n\nreplace github.com/muguangyi/ferry => %s\n" % (ver, ferry)


def put(path, s):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(s)


def calls(rng, ifaces, mode, n):
    cs = []
    for i in ifaces:
        for m in i["methods"]:
            for k in range(n):
                ok = k > 0
                if mode == "real" and k == 0 and (m["name"] not in i["late"]):
                    continue
                res = [val(rng, t) for t in m["results"]]
                if mode == "standin":
                    res = [wire(rng, v) for v in res]
                cs.append(dict(id=0, iface=i["name"], m=m["name"], args=[val(rng, t) for t in m["params"]], ok=ok, res=res))
    rng.shuffle(cs)
    return cs


def gorun(cmd, d):
    return core.sh(cmd, cwd=d, env=dict(core.GOENV, GOFLAGS="-mod=mod"))


def one(ctx, b, seed, k):
    """Generates, compiles and runs one program both ways. Returns results for judge."""
    import random
    rng = random.Random(seed)
    d = os.path.join(ctx.dir, "gen%d" % k)
    src = os.path.join(d, "src")
    for f, s in b["files"].items():
        put(os.path.join(src, f), s)
    ifaces = b["ifaces"]
    for i in ifaces:
        i["local"] = any("uintptr" in m["params"] + m["results"] for m in i["methods"]) or rng.random() < 0.4
        i["late"] = [m["name"] for m in i["methods"] if rng.random() < 0.15]
    events, res = [], []
    res_of = lambda mode, evs, status="ok", err="": dict(scn=dict(mode=mode, files=b["files"], ifaces=ifaces, virtual=True), which="plain", status=status, events=evs, stderr=err)
    for _ in range(2 if b["again"] else 1):
        r = gorun([ctx.tool], src)
        events = [dict(e="Tool", ok=r.returncode == 0 and os.path.exists(os.path.join(src, "proxy.gen.go")), out=r.stdout[-500:])]
        if not events[0]["ok"]:
            return [res_of("tool", events)]
    for mode, ferry in (("standin", os.path.join(d, "ferry")), ("real", core.REPO)):
        p = os.path.join(d, mode)
        shutil.copytree(src, p)
        put(os.path.join(p, "go.mod"), mod(ferry, "1.21"))
        evs = list(events)
        put(os.path.join(p, "zz_min.go"), "package main\n\nfunc main() {}\n")
        if mode == "standin":
            put(os.path.join(ferry, "go.mod"), "module github.com/muguangyi/ferry\n\ngo 1.21\n")
            shutil.copy(os.path.join(GEN, "ferry_standin.go.txt"), os.path.join(ferry, "ferry.go"))
        else:      # is it the generated code?
            r = gorun(["go", "build", "-o", os.devnull, "."], p)
            evs.append(dict(e="Compiled", ok=r.returncode == 0, out=r.stdout[-800:]))
            if r.returncode != 0:
                res.append(res_of(mode, evs))
                continue
        os.remove(os.path.join(p, "zz_min.go"))
        fs = features(ifaces)
        if b["subs"]:
            fs = fs.replace("// SUB", "import \"gen/sub\"")
        if mode == "standin":
            fs += "\ntype zzBase struct{ name string }\n"
        put(os.path.join(p, "zz_feats.go"), fs)
        for f in ("zz_common", "zz_" + mode):
            shutil.copy(os.path.join(GEN, f + ".go.txt"), os.path.join(p, f + ".go"))
        r = gorun(["go", "build", "-o", "prog", "."], p)
        if r.returncode != 0:
            if mode == "standin":
                ctx.note("generated code needs more of ferry than the stand-in has, only whole systems were run")
                ctx.count("standin_not_compiled")
                continue
            raise core.HarnessError("building a program with proxies failed:\n" + r.stdout[-2000:])
        scn = dict(ifaces=[dict(name=i["name"], local=i["local"]) for i in ifaces], calls=calls(rng, ifaces, mode, 4),
                   limits=[dict(iface=i["name"], m=m["name"], sec=0.1 if m["name"] in i["late"] else 60) for i in ifaces for m in i["methods"]])
        if mode == "real":      # those that are to be late are always late
            for c in scn["calls"]:
                c["ok"] = c["m"] not in next(i for i in ifaces if i["name"] == c["iface"])["late"]
            late = [c for c in scn["calls"] if not c["ok"]]
            scn["calls"] = [c for c in scn["calls"] if c["ok"] or c in late[:4]]
        put(os.path.join(p, "scn.json"), json.dumps(scn))
        out = os.path.join(p, "out.json")
        try:
            q = subprocess.run([os.path.join(p, "prog")], cwd=p, env=dict(os.environ, SCN=os.path.join(p, "scn.json"), OUT=out), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, errors="replace", timeout=120)
            rc, err = q.returncode, q.stdout
        except subprocess.TimeoutExpired as x:
            rc, err = -1, "timed out"
        if "HARNESS-ERROR" in err:
            raise core.HarnessError("generated program: " + err[:1000])
        try:
            for line in open(out):
                evs.append(json.loads(line))
        except (FileNotFoundError, ValueError):
            pass
        if rc != 0 and not (evs and evs[-1]["e"] == "Proxy" and not evs[-1]["ok"]):
            evs.append(dict(e="Crash", what=err[-600:]))
        res.append(res_of(mode, evs, err=err))
    shutil.rmtree(d, ignore_errors=True)
    return res


def make(r):
    return dict(ifaces=[dict(name=i["name"], methods=i["methods"]) for i in r["scn"]["ifaces"]])


def run(ctx):
    rng = ctx.rng
    mc = threading.Thread(target=lambda: guarded(ctx, lambda: ctx.model_check("MCProxy", "MCProxy.cfg", workers=2, timeout=800)))
    mc.start()
    ctx.tool = os.path.join(ctx.dir, "tool")
    r = gorun(["go", "build", "-o", ctx.tool, os.path.join(core.REPO, "tool", "ferry.gen.go")], core.REPO)
    if r.returncode != 0:
        r = gorun(["go", "build", "-o", ctx.tool, "./tool"], core.REPO)
        if r.returncode != 0:
            raise core.HarnessError("building the generator failed:\n" + r.stdout[-2000:])
    hs = [h for h in ctx.generate("MCProxy", ctx.n(120, 900), 90, cfg="ProxyGen.cfg") if h]
    rng.shuffle(hs)
    bs = []
    while hs and len(bs) < ctx.n(16, 150):
        n = rng.choice([1, 2, 4, 6])
        bs.append(batch(rng, hs[:n], len(bs)))
        hs = hs[n:]
    res = []
    with cf.ThreadPoolExecutor(6) as ex:
        for x in ex.map(lambda kb: one(ctx, kb[1], "%s-%d" % (ctx.seed, kb[0]), kb[0]), enumerate(bs)):
            res += x
    ctx.count("programs", len(bs))
    ctx.count("interfaces", sum(len(b["ifaces"]) for b in bs))
    ctx.judge("ProxyTrace", res, make, chunk=8)
    mc.join()
    if ctx.errors:
        raise ctx.errors[0]
    return ctx.finish(assumptions=ASSUME)
