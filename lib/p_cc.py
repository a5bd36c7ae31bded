"""C01-C04: callers and callees of chancall as such; judged by ChanCallTrace."""
import random, threading
from p_hub import guarded, vy

ASSUME = ["the methods of features return", "values are compared as recorded by an independent reader of Go values",
          "times are those of virtual time where the scenario is virtual"]
UNIT = 250000


def i64(v):
    return ["i64", str(v)]


def call(rng, cid, obj, m, dur=0, caller=None, wr=None, a=True, args=None):
    if args is None:
        args = [i64(cid), i64(dur)]
    if wr is None:
        wr = m != "Quiet" and rng.random() < 0.7
    return dict(op="call", id=cid, obj=obj, caller=caller or "c%d" % cid, m=m, dur=dur, args=args, wr=wr, **{"async": a})


def scn(rng, objs, lanes, mode, quiet=20000):
    s = dict(kind="cc", net="none", virtual=mode != "real", seed=rng.randrange(1 << 30), objs=[dict(name=n, kind=k) for n, k in objs], lanes=lanes, quiet=quiet, mode=mode)
    if mode == "vy":
        s["vy"] = vy(rng)
    return s


def from_spec(rng, hist, mode):
    kind = rng.choice(["ptr", "ptr", "val", "emb"])
    lane = []
    for o in hist:
        lane.append(dict(op="at", us=o["t"] * UNIT + rng.choice([0, 0, 1, 1000])))
        if o["op"] == "call":
            lane.append(call(rng, o["id"], "o", o["m"], o["d"] * UNIT, "c%d" % o["c"]))
        else:
            lane.append(dict(op="limit", obj="o", m=o["m"], sec=repr(o["d"] * UNIT / 1e6)))
    # ChangeLimit of one method only once in a behaviour, at any time
    return scn(rng, [("o", kind)], [lane], mode, 30000)


PLAIN = ["String", "Error", "Größe", "Name", "OnStart", "M_1", "AMethodWithAVeryLongNameThatGoesOnAndOnAndOnForMoreThanSixtyFourCharacters"]
LIMS = ["0.1", "0.0005", "0.25", "0.5", "5.5", "1.75", "2", "1", "3.999", "0.015625", "12.5", "0.9", "20.25"]


def limits(rng, mode):
    """Each method with its own limit, methods a bit faster and slower than it."""
    objs = [("o", rng.choice(["ptr", "val", "emb"])), ("p", "ptr")]
    sep = 1 if mode == "exact" else 150000
    lane, t, cid, lims = [], 0, 0, {}
    ms = ["Work", "Work2", "Wor", "WOrk", "X", "Quiet"]
    if objs[0][1] != "val":
        ms = ms + rng.sample(PLAIN, 2)
    pool = [x for x in LIMS if mode == "exact" or float(x) >= 0.25] if mode != "real" else ["0.25", "0.4", "0.7", "1.2"]
    for _ in range(rng.choice([2, 4, 6])):
        o, m = rng.choice("op"), rng.choice(ms)
        lims[o, m] = rng.choice(pool)
        lane.append(dict(op="limit", obj=o, m=m, sec=lims[o, m]))
        if rng.random() < 0.2:
            lane.append(dict(op="limit", obj=o, m="Nope", sec="0.3"))
        for _ in range(rng.choice([1, 2]) if mode != "real" else 1):
            cid += 1
            o2, m2 = rng.choice([(o, m), (o, m), (rng.choice("op"), rng.choice(ms))])
            lim = int(float(lims.get((o2, m2), "1")) * 1e6)
            if mode == "exact":
                dur = max(0, lim + rng.choice([-lim // 2, -1000, -10, 10, 1000, lim // 2, lim * 2]))
                if abs(dur - lim) < 5:
                    dur = lim + 10
            else:
                g = 400000 if mode == "real" else 300000
                dur = rng.choice([max(0, lim - g), lim // 4 if lim > 4 * g else 0, lim + g])
            lane.append(call(rng, cid, o2, m2, dur, a=False))
            lane.append(dict(op="sleep", us=max(dur, lim) + 1000000 if mode != "real" else dur + 50000))
    return scn(rng, objs, [lane], mode, 500000 if mode != "real" else 30000)


def far_limits(rng, mode, unit=1):
    """Very short and very long limits."""
    lane, cid = [], 0
    pool = [["0.000002", "0.00005", "0.003", "0.0099"], ["31", "61.25", "95"]] if unit == 1 else [["0.5", "3000.5"], ["4000", "2500.25", "9000"]]
    for ls in pool * 2:
        m, sec = rng.choice(["Work", "Work2", "Wor", "X", "String"]), rng.choice(ls)
        lim = int(float(sec) * 1e6)
        lane.append(dict(op="limit", obj="o", m=m, sec=sec))
        for dur in rng.sample([lim * 99 // 100 - 100 * unit, lim * 101 // 100 + 100 * unit, lim * 2 + 1000 * unit], 2):
            cid += 1
            lane.append(call(rng, cid, "o", m, max(dur, 0), a=False))
            lane.append(dict(op="sleep", us=max(dur, lim) + 1000000))
    wait = sum(o.get("us", 0) + o.get("dur", 0) for o in lane) // 1000 + 100000
    return dict(scn(rng, [("o", "ptr")], [lane], mode, 100000 * unit), unit=unit, wait=wait)


def crowd(rng, mode):
    """Many routines call the same objects, one caller shared by several."""
    objs = [("o", rng.choice(["ptr", "val", "emb"])), ("p", "emb")]
    shared = rng.random() < 0.6
    lanes, cid = [], 0
    for k in range(rng.choice([2, 4, 8])):
        lane = []
        for _ in range(rng.choice([2, 4])):
            cid += 1
            o = rng.choice(["o", "o", "p"])
            dur = rng.choice([0, 0, 1000, 30000, 200000] + ([1500000] if rng.random() < 0.3 else []))
            if mode == "real":
                dur = min(dur, 200000) if rng.random() < 0.9 else 1600000
            if rng.random() < 0.5:
                lane.append(dict(op="sleep", us=rng.choice([0, 1, 1000, 110000, 150000, 400000]) if mode != "real" else rng.choice([0, 1000, 20000, 350000])))
            lane.append(call(rng, cid, o, rng.choice(["Work", "Work2", "Wor", "WOrk", "X", "Quiet"]), dur, "s" if shared and rng.random() < 0.8 else None, a=rng.random() < 0.4))
        lanes.append(lane)
    return scn(rng, objs, lanes, mode, 60000 if mode != "real" else 30000)


def late(rng, mode):
    """Calls that time out, and others through the same caller before and after their results come."""
    lane, cid = [dict(op="limit", obj="o", m="Work", sec="0.4")], 0
    for _ in range(rng.choice([2, 4])):
        cid += 1
        lane.append(call(rng, cid, "o", "Work", 900000, "s", wr=True, a=False))
        for _ in range(rng.choice([1, 2, 3])):
            cid += 1
            lane.append(call(rng, cid, "o", rng.choice(["Work", "Work2", "X"]), rng.choice([0, 0, 30000]), "s", wr=True, a=rng.random() < 0.4))
        lane.append(dict(op="sleep", us=rng.choice([0, 300000, 700000, 1500000])))
    return scn(rng, [("o", "ptr")], [lane], mode, 20000 if mode != "real" else 30000)


def typed_args(rng, cid):
    """A method and arguments for it, of the same or other types."""
    ints = ["i", "i8", "i16", "i32", "i64", "u", "u8", "u16", "u32", "u64"]

    def num(bits, signed, f=False):
        src = rng.choice(ints)
        sb = {"i": 64, "u": 64}.get(src) or int(src[1:])
        lo = -(1 << min(bits, sb) - 1) if signed and src[0] == "i" else 0
        top = min(bits if not signed else bits - 1, sb if src[0] == "u" else sb - 1)
        hi = (1 << top) - 1
        v = rng.choice([lo, hi, 0, 1, hi // 2, rng.randint(lo, hi)])
        if f:
            v = rng.choice([x for x in (0, 1, 2, 7, -3, 1000) if lo <= x <= hi])
        return [src, str(v)]

    def flt(bits):
        if rng.random() < 0.3:
            return num(16, True, True)
        if bits == 32:
            return [rng.choice(["f32", "f64"]), rng.choice(["3ff8000000000000", "3fb99999a0000000", "36a0000000000000", "bff0000000000000", "7ff0000000000000"])]
        return rng.choice([["f64", "400921fb54442d18"], ["f64", "0000000000000001"], ["f32", "3ff8000000000000"], ["f64", "fff0000000000000"]])

    def st():
        return rng.choice([["s", ""], ["s", "x"], ["s", "h\u00e9llo\u0000"], ["rep", "1000"], ["named", "nm"]])

    def anyv(d=0):
        return rng.choice([["nil"], st(), num(64, True), ["f64", "3ff8000000000000"], ["b", True], ["strs", ["a", ""]], ["smap", ["k", "l"]], ["bytes", "by"]] +
                          ([["list", [anyv(1), anyv(1)]], ["list", []]] if not d else []))
    m = rng.choice(["Ints", "Uints", "Floats", "Strs", "Any", "Coll", "Named", "Var", "Bool", "One", "Quiet", "Zero", "Big", "Fail", rng.choice(PLAIN)])
    a = [num(7, False)]
    a[0][1] = str(cid % 120)
    a[0] = [rng.choice(ints), str(cid)]
    if a[0][0] in ("i8", "u8") and cid > 120:
        a[0][0] = "i64"
    if m == "Ints":
        a += [num(64, True), num(8, True), num(16, True), num(32, True), num(64, True)]
    elif m == "Uints":
        a += [num(64, False), num(8, False), num(16, False), num(32, False), num(64, False)]
    elif m == "Floats":
        a += [flt(32), flt(64)]
    elif m == "Strs":
        a += [st(), st(), st(), st()]
    elif m == "Any":
        a += [anyv(), anyv()]
    elif m == "Coll":
        a += [rng.choice([["list", [anyv(1), st(), num(64, True)]], ["list", []], ["nil"]]), rng.choice([["strs", ["p", "q", ""]], ["nil"], ["strs", []]]),
              rng.choice([["smap", ["one", "two"]], ["nil"]]), rng.choice([["bytes", "xyz"], ["nil"]])]
    elif m == "Named":
        a += [st(), st(), num(16, True)]
    elif m == "Var":
        a += [st()] + [num(32, True) for _ in range(rng.choice([0, 1, 2, 5, 11, 20]))]
    elif m == "Bool":
        a += [["b", rng.random() < 0.5] for _ in range(3)]
    elif m == "Zero":
        a = []
    elif m == "Big":
        a += [num(32, True) for _ in range(11)] + [st()]
    elif m == "Quiet" or m in PLAIN:
        a += [i64(0)]
    return m, a


def conversions(rng, mode):
    kind = rng.choice(["ptr", "ptr", "emb", "val"])
    lane, cid = [], 0
    for _ in range(rng.choice([10, 25])):
        cid += 1
        m, a = typed_args(rng, cid)
        if rng.random() < 0.3:    # make it unfit
            k = rng.randrange(6)
            if k == 0:
                m = rng.choice(["Nope", "", m.lower(), m.upper(), m + "x", m[:-1] + "?", " " + m])
            elif k == 1 and m != "Var":
                a = a + [i64(1)]
            elif k == 2 and a:
                a = a[:rng.randrange(0, min(len(a), 2) if m == "Var" else len(a))]
            elif k == 3 and a:
                a = [["s", "1"]] + a[1:]
            elif k == 4 and m in ("Ints", "Uints", "Floats", "Named", "Bool"):
                j = rng.randrange(1, len(a))
                a = a[:j] + [rng.choice([["nil"], ["list", []], ["smap", ["a"]], ["strs", ["a"]]])] + a[j + 1:]
            elif k == 5 and m in ("Ints", "Floats", "Uints"):
                j = rng.randrange(1, len(a))
                a = a[:j] + [rng.choice([["s", "5"], ["b", True]])] + a[j + 1:]
        op = call(rng, cid, rng.choice(["o", "q"]), m, 0, rng.choice(["s", "t"]), args=a, wr=rng.random() < 0.8, a=False)
        lane.append(op)
    return scn(rng, [("o", kind), ("q", "ptr")], [lane], mode, 3000 if mode != "real" else 30000)


TOL = {"exact": dict(sep=0, lo=2, hi=20000, permille=10, slack=3),
       "vy": dict(sep=100000, lo=60000, hi=60000, permille=50, slack=60000),
       "real": dict(sep=200000, lo=60000, hi=350000, permille=50, slack=250000)}


def make(r):
    s = r["scn"]
    u = s.get("unit", 1)
    tol = {k: v if k == "permille" else (v + u - 1) // u + (2 if u > 1 else 0) for k, v in TOL[s["mode"]].items()}
    return dict(objs=[[o["name"], o["kind"]] for o in s["objs"]], second=1000000 // u, **tol)


def scenarios(ctx, prop):
    rng = ctx.rng
    k = ctx.n(1, 8)
    res = {"exact": [], "vy": [], "real": []}
    hs = ctx.generate("CCGen", 40 * k, 400)
    rng.shuffle(hs)
    for i, h in enumerate(hs[:30 * k]):
        mode = ["exact", "exact", "vy"][i % 3]
        res[mode].append(from_spec(rng, h, mode))
    for _ in range(6 * k):
        for f, ps in ((limits, ("C03",)), (crowd, ("C01", "C02")), (late, ("C02", "C03")), (conversions, ("C04",))):
            n = 3 if prop in ps else 1
            for _ in range(n):
                mode = rng.choice(["exact", "exact", "vy"])
                res[mode].append(f(rng, mode))
    for _ in range((4 if prop == "C03" else 1) * k):
        res["exact"] += [far_limits(rng, "exact"), far_limits(rng, "exact", 1000)]
    for f, ps in ((limits, ("C03",)), (crowd, ("C01", "C02")), (late, ("C02", "C03")), (conversions, ("C04",))):
        for _ in range((4 if prop in ps else 1) * k):
            res["real"].append(f(rng, "real"))
    return res


def again(ctx):
    def f(r):
        return ctx.run_one(r["scn"], r["which"], 150)
    return f


def run(ctx):
    ctx.build()
    cfgs = ["MCChanCallQ.cfg"] if ctx.quick() else ["MCChanCallQ.cfg", "MCChanCallQ2.cfg", "MCChanCall.cfg"]
    mc = threading.Thread(target=lambda: guarded(ctx, lambda: [ctx.model_check("MCChanCall", c, workers=4, timeout=800) for c in cfgs]))
    mc.start()
    s = scenarios(ctx, ctx.prop)
    done = ctx.run(s["exact"], "plain") + ctx.run(s["vy"], "vy")
    real = ctx.run(s["real"], "plain", par=4)
    ctx.judge("ChanCallTrace", done, make, chunk=15)
    ctx.judge("ChanCallTrace", real, make, chunk=8, confirm=again(ctx))
    mc.join()
    if ctx.errors:
        raise ctx.errors[0]
    return ctx.finish(assumptions=ASSUME)
