"""R01-R03, R05, R06: a real hub and several real docks; judged by RpcTrace. R01-R03 also as one dock among fakes (p_dock)."""
import random, threading
import p_dock
from p_hub import guarded, vy

ASSUME = p_dock.ASSUME + ["calls nest without cycles"]
FEATS = ["Alpha", "Beta", "Gamma", "Delta", "Eps", "Zeta"]
I64 = [0, 1, -1, 127, 128, -127, -128, -129, 255, 256, 32767, -32768, 65535, 65536, 2147483647, -2147483648, 4294967296, 9223372036854775807, -9223372036854775808]


def world(rng, ndocks=None, nfeats=None, replicas=True):
    """Docks with features; some features are carried by more than one dock."""
    ndocks = ndocks or rng.choice([2, 2, 3, 4])
    docks = [dict(name="d%d" % i, feats=[]) for i in range(ndocks)]
    pool = FEATS[:nfeats or rng.choice([2, 3, 5])]
    for i, f in enumerate(pool):
        for d in rng.sample(docks, 2 if replicas and ndocks > 2 and rng.random() < 0.35 else 1):
            d["feats"].append(dict(id=f, disc=rng.random() < 0.85))
    for d in docks:
        if not d["feats"]:
            d["feats"].append(dict(id="Solo" + d["name"], disc=rng.random() < 0.5))
        for f in d["feats"]:
            f["limits"] = {"Fwd": 30.0}
    return docks


def callers(docks):
    return [(d["name"], f["id"]) for d in docks for f in d["feats"]]


def provided(docks, d):
    """Features dock d can call."""
    own = {f["id"] for x in docks if x["name"] == d for f in x["feats"]}
    return sorted(own | {f["id"] for x in docks for f in x["feats"] if f["disc"]})


def width(rng, v):
    ws = [w for w, b in (("i8", 7), ("i16", 15), ("i32", 31)) if -(1 << b) <= v < (1 << b)] + ["i64", "i"]
    return rng.choice(ws)


def vary(rng, op):
    """Passes integers in any width."""
    op["args"] = [[width(rng, int(v)), v] if t == "i64" else [t, v] for t, v in op["args"]]
    return op


def allargs(rng, cid):
    def s(b):
        return str(rng.choice([v for v in I64 if -(1 << b - 1) <= v < (1 << b - 1)] + [rng.randrange(-(1 << b - 1), 1 << b - 1)]))

    def u(b):
        return str(rng.choice([0, 1, (1 << b) - 1, 1 << (b - 1), min(255, (1 << b) - 1), rng.randrange(1 << b)]))
    f = rng.choice(["0000000000000000", "8000000000000000", "3ff0000000000000", "7ff0000000000000", "fff0000000000000", "400921fb54442d18", "0000000000000001",
                    "41f0000000000000", "40d5555540000000", "4170000010000000", "7e37e43c8800759c", "c340000000000001", "4008000000000000", "3fb999999999999a", "%016x" % (rng.getrandbits(64) & 0xbfffffffffffffff)])
    txt = rng.choice([["s", ""], ["s", "text"], ["s", "\u0000\u00fc\u4e2d"], ["rep", str(rng.choice([200, 511, 512, 600, 3000, 70000]))]])
    return [["i64", str(cid)], ["b", rng.random() < 0.5], ["i", s(64)], ["i8", s(8)], ["i16", s(16)], ["i32", s(32)], ["i64", s(64)],
            ["u", u(64)], ["u8", u(8)], ["u16", u(16)], ["u32", u(32)], ["u64", u(64)], ["f64", f], txt]


def values_op(rng, cid, d, f, to):
    k = rng.randrange(10)
    op = dict(op="call", d=d, f=f, to=to, id=cid, ms=0, wr=True)
    if k < 5:
        op.update(m="All", args=allargs(rng, cid))
    elif k < 7:
        fb = rng.choice(["3ff8000000000000", "3fb99999a0000000", "36a0000000000000", "47efffffe0000000", "bff0000000000000", "7ff0000000000000", "0000000000000000"])
        op.update(m="F32", args=[["i64", str(cid)], [rng.choice(["f32", "f64"]), fb]])
    elif k < 8:
        op.update(m="Many", args=[["i64", str(cid)]] + [rng.choice([["s", "p%d" % j], ["s", ""], ["rep", str(100 * j + 57)]]) for j in range(5)])
    else:
        op.update(m="Pair", args=[["i64", str(cid)], ["i8", "0"], ["rep", str(rng.choice([1, 127, 128, 255, 256, 1000, 65536]))]])
    return op


def scn(rng, net, docks, steps, quiet=None, at=None, which=None):
    s = dict(kind="sys", net=net, virtual=net == "mock", seed=rng.randrange(1 << 30), docks=docks, ends=[], steps=steps)
    s["hubcfg"] = dict(real=True, listen=rng.choice(["127.0.0.1:@0", "0.0.0.0:@0"]) if net == "tcp" else "127.0.0.1:@0", at=at or "127.0.0.1:@0", black=[])
    if net == "mock":
        import core
        s.update(base=27000, vy=vy(rng), quiet=quiet or 2600)
        core.subst(s, s["base"])
    else:
        s["hubcfg"]["blackto"] = "@20"
        if quiet:
            s["quiet"] = quiet
    return s


def system(rng, net, ncalls=None, values=False, bad=0.0, limit=None, docks=None, quiet=None, ms=(0, 0, 0, 1, 5), fwd=0.15, lost=0.0):
    docks = docks or world(rng)
    if limit:
        for d in docks:
            for f in d["feats"]:
                f["limits"]["Note"] = limit / 1000.0
    lim = limit or 1000
    order = [d["name"] for d in docks]
    rng.shuffle(order)
    n = ncalls or rng.choice([4, 8, 14])
    byname = {d["name"]: d for d in docks}
    cid = 0

    def one(d):
        nonlocal cid
        cid += 1
        f = rng.choice(byname[d]["feats"])["id"]
        to = rng.choice(provided(docks, d))
        if values:
            return values_op(rng, cid, d, f, to)
        if rng.random() < fwd:
            # call something that calls something else
            inner = "Add"
            hosts = [x for x in docks if any(y["id"] == to for y in x["feats"])]
            common = [z for z in provided(docks, hosts[0]["name"]) if z > to and all(z in provided(docks, h["name"]) for h in hosts)]
            if common:
                return dict(op="call", d=d, f=f, to=to, m="Fwd", id=cid, ms=0, wr=True,
                            args=[["i64", str(cid)], ["s", rng.choice(common)], ["i64", str(5000 + cid)], ["i64", rng.choice(["0", "1"])]])
        op = vary(rng, p_dock.callop(rng, cid, d, f, to, ms=rng.choice(ms)))
        if rng.random() < bad:
            op = p_dock.badreq(rng, op, lim)
            k = rng.random()
            if k < 0.3:
                op.update(m="Add", args=[["i64", str(cid)], ["i64", "0"], ["odd", rng.choice(["nil", "arr", "struct", "chan", "func", "ptr", "map", "nest"])]], ms=0)
            elif k < 0.4:
                op.update(m="Odd", args=[["i64", str(cid)], ["i64", "0"]], ms=0)
        return op
    # docks start one after the other or together; calls are made from the first on
    lanes, left = [], n
    together = rng.random() < 0.3
    for i, d in enumerate(order):
        lane = [dict(op="sleep", ms=0 if together else rng.choice([0, 0, 2, 5]) * i), dict(op="start", d=d)]
        for _ in range(left // (len(order) - i)):
            left -= 1
            if rng.random() < 0.4:
                lane.append(dict(op="sleep", ms=rng.choice([0, 1, 3, 12])))
            op = one(d)
            op["wait"] = False
            if rng.random() < lost:      # calls that nobody may answer
                hidden = sorted({f["id"] for x in docks for f in x["feats"]} - set(provided(docks, d)))
                lane.append(p_dock.callop(rng, 3000 + cid, d, op["f"], rng.choice(hidden + ["Nobody", "Nobody2"]), ms=0))
            lane.append(op)
        lanes.append(lane)
    # calls made while the features start
    for d in docks:
        for f in d["feats"]:
            if rng.random() < 0.2:
                cid += 1
                f["onstart"] = [vary(rng, p_dock.callop(rng, 2000 + cid, d["name"], f["id"], rng.choice(provided(docks, d["name"])), ms=0))]
    if rng.random() < 0.3:      # one after the other
        steps = []
        for lane in lanes:
            steps += lane + [dict(op="settle")]
    else:
        steps = [dict(op="par", par=lanes), dict(op="settle")]
    last = [one(rng.choice(order)) for _ in range(3)]
    steps += [dict(op="par", par=[[x] for x in last]), dict(op="settle")]
    q = quiet or (2600 if net == "mock" else (max(1500, 3 * lim) if bad else None))
    return scn(rng, net, docks, steps, quiet=q)


def slow(rng, net):
    """R06: methods slower and faster than their limits, called from inside and outside."""
    docks = [dict(name="d0", feats=[dict(id="Alpha", disc=True, limits={})]), dict(name="d1", feats=[dict(id="Beta", disc=True, limits={}), dict(id="Gamma", disc=False, limits={})])]
    cases = [(0.3, 100, 700), (None, 400, 2200), (1.5, 700, 3200), (0.06, 10, 200), (0.25, 60, 600)]
    rng.shuffle(cases)
    lims = {}
    for d in docks:
        for f in d["feats"]:
            for m, c in zip(["Note", "Add", "Pair"], cases[:3]):
                if c[0] is not None:
                    f["limits"][m] = c[0]
                lims[f["id"], m] = c
            rng.shuffle(cases)
    lanes = []
    cid = 0
    for d, f in callers(docks):
        lane = []
        for _ in range(rng.choice([2, 3])):
            cid += 1
            to = rng.choice([x for x in provided(docks, d)])
            m = rng.choice(["Note", "Add", "Pair"])
            fast = rng.random() < 0.5
            lane.append(p_dock.callop(rng, cid, d, f, to, m=m, ms=lims[to, m][1 if fast else 2], wait=rng.random() < 0.7))
        lanes.append(lane)
    steps = [dict(op="start", d="d0"), dict(op="start", d="d1"), dict(op="up", d="d0"), dict(op="up", d="d1"), dict(op="par", par=lanes), dict(op="settle")]
    steps += [p_dock.callop(rng, 90 + i, "d0", "Alpha", to, ms=0, m="Many") for i, to in enumerate(["Alpha", "Beta"])] + [dict(op="settle")]
    return scn(rng, net, docks, steps, quiet=4000)


def from_spec(rng, hist, net):
    docks = [dict(name="d1", feats=[dict(id="A", disc=True), dict(id="H", disc=False)]), dict(name="d2", feats=[dict(id="B", disc=True)]),
             dict(name="d3", feats=[dict(id="B", disc=True), dict(id="C", disc=True)])]
    steps, group = [], []

    def flush(settle):
        nonlocal group
        if group:
            steps.extend(group[0] if len(group) == 1 else [dict(op="par", par=group)])
            if settle:
                steps.append(dict(op="settle"))
        group = []
    settle = net == "mock" or rng.random() < 0.3
    for o in hist:
        if o["idle"] or len(group) > 6:
            flush(settle)
        if o["op"] == "start":
            group.append([dict(op="start", d=o["d"])])
        else:
            fs = [x for x in docks if x["name"] == o["d"]][0]["feats"]
            op = vary(rng, p_dock.callop(rng, o["id"], o["d"], rng.choice(fs)["id"], o["to"]))
            group.append([dict(op="sleep", ms=rng.choice([0, 1, 2])), op] if rng.random() < 0.4 else [op])
    flush(True)
    return scn(rng, net, docks, steps + [dict(op="settle")])


def storm(rng, net, n=60):
    """Very many calls to the same and different features at once, most before there is a provider."""
    docks = [dict(name="d0", feats=[dict(id="Alpha", disc=True, limits={})]),
             dict(name="d1", feats=[dict(id="Beta", disc=True, limits={}), dict(id="Gamma", disc=True, limits={})]),
             dict(name="d2", feats=[dict(id="Delta", disc=True, limits={})])]
    calls = [p_dock.callop(rng, i + 1, "d0", "Alpha", rng.choice(["Beta", "Gamma", "Delta"]), m=rng.choice(["Add", "Pair", "Many"]), ms=0, wr=True) for i in range(n)]
    back = [p_dock.callop(rng, n + i + 1, rng.choice(["d1"]), "Beta", "Alpha", m="Add", ms=0, wr=True) for i in range(n // 4)]
    steps = [dict(op="start", d="d0"), dict(op="up", d="d0")] + calls[:n // 2]
    steps += [dict(op="par", par=[[dict(op="start", d="d1")] + back, [dict(op="start", d="d2")], calls[n // 2:]]), dict(op="settle")]
    return scn(rng, net, docks, steps)


def beside(rng, net):
    """R03: calls to features that nobody has, or that don't come for long, don't hold up others; only one dock calls."""
    others = [dict(name="d%d" % (i + 1), feats=[dict(id=f, disc=True, limits={})]) for i, f in enumerate(["Beta", "Delta", "Gamma"][:rng.choice([1, 2, 3])])]
    docks = [dict(name="d0", feats=[dict(id="Alpha", disc=True, limits={})])] + others
    to = [d["feats"][0]["id"] for d in others]
    n = 0

    def call(f):
        nonlocal n
        n += 1
        return p_dock.callop(rng, n, "d0", "Alpha", f, ms=0)
    ups = [x for d in others for x in (dict(op="start", d=d["name"]), dict(op="up", d=d["name"]))]
    lost = [call(rng.choice(["Nobody", "Nobody2", "beta"])) for _ in range(rng.choice([1, 2, 5]))]
    late = [call(f) for f in to if rng.random() < 0.5]
    first = [dict(op="start", d="d0"), dict(op="up", d="d0")]
    if rng.random() < 0.5:
        steps = ups + first + lost + [dict(op="settle")]
    else:
        steps = first + lost + late + [dict(op="settle")] + ups
    steps += [call(f) for f in to] + [dict(op="settle")] + [call(f) for f in to + ["Nobody"]] + [dict(op="settle")]
    return scn(rng, net, docks, steps)


def long(rng, net, sizes):
    """Long texts as arguments and results, there and back, within a dock and between docks."""
    lim = {m: 100.0 for m in ("Pair", "Many", "All")}
    docks = [dict(name="d0", feats=[dict(id="Alpha", disc=True, limits=lim)]), dict(name="d1", feats=[dict(id="Beta", disc=True, limits=lim), dict(id="Gamma", disc=False, limits=lim)])]
    ways = [("d0", "Alpha", "Beta"), ("d1", "Gamma", "Alpha"), ("d1", "Beta", "Alpha"), ("d1", "Gamma", "Beta")]
    calls = []
    for n in sizes:
        d, f, to = rng.choice(ways[:3])
        i = len(calls) + 1
        s = lambda k: ["rep", str(k)]
        k = rng.randrange(3) if n < 5000000 else 0
        args = [[["i64", str(i)], ["i64", "0"], s(n)], [["i64", str(i)], s(n), ["s", ""], s(n // 2), s(3), s(n)], allargs(rng, i)[:-1] + [s(n)]][k]
        calls.append(dict(op="call", d=d, f=f, to=to, id=i, ms=0, wr=True, m=["Pair", "Many", "All"][k], args=args))
    for d, f, to in ways:
        i = len(calls) + 1
        calls.append(dict(op="call", d=d, f=f, to=to, id=i, ms=0, wr=True, m="All", args=allargs(rng, i)))
    steps = [dict(op="start", d="d0"), dict(op="start", d="d1"), dict(op="up", d="d0"), dict(op="up", d="d1")]
    if rng.random() < 0.5:
        rng.shuffle(calls)
        steps += [dict(op="par", par=[[x] for x in calls])]
    else:
        steps += [dict(x, wait=True) for x in calls]
    return scn(rng, net, docks, steps + [dict(op="settle")], quiet=2500)


def scenarios(ctx, prop):
    rng = ctx.rng
    k = ctx.n(1, 6)
    v, t = [], []
    hs = ctx.generate("FerryGen", 16 * k, 300)
    rng.shuffle(hs)
    for h in hs[:8 * k]:
        v.append(from_spec(rng, h, "mock"))
    for h in hs[8 * k:10 * k]:
        t.append(from_spec(rng, h, "tcp"))
    a, b = (10, 3) if prop in ("R05", "R06") else (12, 4)
    for _ in range(a * k):
        v.append(system(rng, "mock", lost=rng.choice([0, 0.3]) if prop == "R03" else 0.0, values=rng.random() < {"R05": 0.8, "R06": 0.15}.get(prop, 0), bad=0.35 if prop == "R06" else 0.05, limit=rng.choice([None, 50, 300]) if prop == "R06" else None))
    for _ in range(b * k):
        t.append(system(rng, "tcp", lost=rng.choice([0, 0.3]) if prop == "R03" else 0.0, values=rng.random() < {"R05": 0.8, "R06": 0.15}.get(prop, 0), bad=0.3 if prop == "R06" else 0.0, limit=rng.choice([None, 300]) if prop == "R06" else None))
    if prop == "R05":
        v += [long(rng, "mock", [32767, 32768, 65535, 65536, 65537, 70000, 131072, rng.randrange(65000, 300000)]) for _ in range(2 * k)]
        t += [long(rng, "tcp", [65535, 65536, 1200000, (1 << 24) + 5] if ctx.quick() or i % 2 else [1 << 17, (1 << 20) - 3, 1 << 23, (1 << 24) - 70, 1 << 25]) for i in range(k)]
    if prop == "R06":
        for _ in range(6 * k):
            v.append(slow(rng, "mock"))
        for _ in range(2 * k):
            t.append(slow(rng, "tcp"))
    if prop in ("R01", "R02", "R03"):
        for _ in range(3 * k):
            v.append(storm(rng, "mock", 30))
            if prop == "R03":
                v.append(beside(rng, "mock"))
        for _ in range(2 * k):
            t.append(storm(rng, "tcp", 150))
            if prop == "R03":
                t.append(beside(rng, "tcp"))
    return v, t


def make(r):
    ds = r["scn"]["docks"]
    lim = [[f["id"], m, int(round(x * 1000))] for d in ds for f in d["feats"] for m, x in (f.get("limits") or {}).items()]
    return dict(carried=[[d["name"], f["id"], f["disc"]] for d in ds for f in d["feats"]], limits=lim)


def run(ctx):
    ctx.build()
    cfgs = {"R03": ["MCFerryLive.cfg"]}.get(ctx.prop, ["MCFerryQuick.cfg"])
    if not ctx.quick():
        cfgs = ["MCFerryQuick.cfg", "MCFerry.cfg", "MCFerryR.cfg", "MCFerryR2.cfg", "MCFerryLive.cfg", "MCFerryLiveR.cfg", "MCFerryLiveT.cfg"]
    mc = threading.Thread(target=lambda: guarded(ctx, lambda: [ctx.model_check("MCFerry", c, workers=4, timeout=800) for c in cfgs]))
    mc.start()
    v, t = scenarios(ctx, ctx.prop)
    rv = ctx.run(v, "vy")
    rt = ctx.run(t, "plain", par=6)
    ctx.judge("RpcTrace", rv, make, chunk=12)
    ctx.judge("RpcTrace", rt, make, chunk=6, confirm=p_dock.again(ctx))
    if ctx.prop in ("R01", "R02", "R03"):
        p_dock.open_system(ctx)
    mc.join()
    if ctx.errors:
        raise ctx.errors[0]
    return ctx.finish(assumptions=ASSUME)
