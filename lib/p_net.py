"""N01-N03: sockets and connections of package network as such; judged by NetTrace."""
import random, threading
from p_hub import guarded, vy

ASSUME = ["packets arrive on connections that stay open (loopback TCP and the mock network)", "sinks return from their callbacks"]
SIZES = [[1], [5, 20], [100], [10235, 3], [10236], [10240, 10241, 1], [20480], [1, 60000, 7], [9, 10, 11, 300], [4096], [-1], [-1, 20], [12, -1, -1]]     # -1: the shortest packet there is
CUTS = [[1], [2], [3], [4], [5], [7, 1, 30], [10239], [10240], [10241], [1, 2, 3, 4, 5, 6, 7, 8], [1000, 1], [50000], [], [20480, 3]]


def scn(rng, net, steps, ser=None, rest=None, which=None, **kw):
    s = dict(kind="net", net=net, virtual=net == "mock", seed=rng.randrange(1 << 30), ser=ser or rng.choice(["txt", "len", "keep"]), steps=steps,
             rest=rest if rest is not None else (3000 if net == "mock" else 250), which=which or "plain", **kw)
    if which == "vy":
        s["vy"] = vy(rng)
        if net == "tcp":
            s["ser"] = rng.choice(["len", "keep"])    # txt's loop over the bytes would sleep for each
            s["vy"].update(scale=rng.choice([20000, 100000]), every=1, mode=rng.choice([1, 3, 4]))
            if count(steps) > 100:
                s["vy"].update(scale=5000, mode=1, every=4)
        else:
            s["rest"] = rest or 60000
            if s["ser"] == "txt":
                s["vy"].update(mode=1, scale=1000)
    if net == "mock":
        import core
        s["base"] = 27000
        core.subst(s, 27000)
    return s


def count(steps):
    return sum((o.get("n", 0) if o["op"] != "sendempty" else 1) + sum(count(x) for x in o.get("par", [])) for o in steps)


def a(n=1):
    return "127.0.0.1:@%d" % n


def size_of(rng, cuts):
    """Not too many pieces."""
    small = cuts and max(cuts) < 50
    return rng.choice([x for x in SIZES if not small or max(x) <= 300])


def fragments(rng, net, which=None):
    """N01: streams in pieces, to sockets that listen and sockets that dialed."""
    steps, raws = [dict(op="listen", s="S", to=a(1))], []
    for i in range(rng.choice([1, 1, 2])):
        steps.append(dict(op="rawdial", r="d%d" % i, to=a(1)))
        raws.append("d%d" % i)
    if rng.random() < 0.5:
        steps += [dict(op="rawlisten", r="l0", to=a(2)), dict(op="dial", s="A", to=a(2))]
        raws.append("l0")
    lanes = []
    for r in raws:
        lane = []
        for _ in range(rng.choice([1, 2, 4])):
            cuts = list(rng.choice(CUTS)) if rng.random() < 0.7 else [rng.choice([1, 2, 3, 5, 9, 100, 5000, 10240, 15000]) for _ in range(6)]
            sz = size_of(rng, cuts)
            n = rng.choice([1, 2, 3, 6]) * (3 if sz[0] < 0 else 1)
            lane.append(dict(op="feed", r=r, n=n, sizes=sz, cuts=cuts, us=rng.choice([0, 0, 100, 2000]) if net == "mock" or len(cuts) and min(cuts) < 20 else rng.choice([0, 200, 3000])))
            if rng.random() < 0.3:
                lane.append(dict(op="rest"))
        lanes.append(lane)
    if len(lanes) == 1 or rng.random() < 0.5:
        for x in lanes:
            steps += x
    else:
        steps.append(dict(op="par", par=[[o for o in x if o["op"] != "rest"] for x in lanes]))
    if rng.random() < 0.3:
        steps += [dict(op="send", s="S", nth=0, lane="x", n=rng.choice([1, 5]), sizes=[30])]
    return scn(rng, net, steps, which=which, slow={"S": rng.choice([0, 0, 0, 1, 20])} if net == "mock" else {})


def halves(rng, net, which=None):
    """N01: rests inside a packet, at every offset of a short one."""
    steps = [dict(op="listen", s="S", to=a(1)), dict(op="rawdial", r="d0", to=a(1))]
    for _ in range(4):
        c = rng.choice([1, 2, 3, 4, 5, 9, 14])
        steps += [dict(op="feed", r="d0", n=rng.choice([1, 2]), sizes=rng.choice([[12, 30], [12, -1], [-1]]), cuts=[c, 1000], ms=400 if net == "mock" else 30)]
    return scn(rng, net, steps, which=which)


def bursts(rng, net, which=None):
    """N01: hundreds of packets in one piece, and packets of more than a megabyte."""
    raws = ["d0"] + (["l0"] if rng.random() < 0.6 else [])
    steps = [dict(op="listen", s="S", to=a(1)), dict(op="rawdial", r="d0", to=a(1))]
    if "l0" in raws:
        steps += [dict(op="rawlisten", r="l0", to=a(2)), dict(op="dial", s="A", to=a(2))]
    many = rng.random() < 0.6
    for r in raws:
        if many:
            for n in (rng.choice([258, 300, 640]), rng.choice([1, 900, 1100])):
                steps += [dict(op="feed", r=r, n=n, sizes=rng.choice([[1], [1], [12, 1]]), cuts=rng.choice([[], [], [10240], [20000]])), dict(op="rest")]
        else:
            sz = [rng.choice([1 << 16, 1 << 20, 1500000]) + rng.choice([-20, 0, 1, 1000]), rng.choice([1, 70000])]
            steps += [dict(op="feed", r=r, n=rng.choice([1, 2, 3]), sizes=sz, cuts=rng.choice([[], [200000], [1 << 20, 1]])), dict(op="rest")]
    return scn(rng, net, steps, which=which, ser="len" if not many else None)


def backlog(rng, net, which=None):
    """N02: thousands of packets wait to be sent, as nobody takes them."""
    n = rng.choice([4200, 5000])
    steps = [dict(op="listen", s="S", to=a(1)), dict(op="dial", s="A0", to=a(1)), dict(op="sleep", ms=20)]
    if rng.random() < 0.5:
        steps.append(dict(op="send", s="A0", nth=0, lane="n1", n=n, sizes=[10]))
    else:
        steps.append(dict(op=rng.choice(["send", "sendall"]), s="S", nth=0, lane="n1", n=n, sizes=[10]))
    steps += [dict(op="send", s="A0", nth=0, lane="n2", n=3, sizes=[10]), dict(op="sleep", ms=n + 1000), dict(op="rest")]
    return scn(rng, net, steps, which=which, ser=rng.choice(["len", "keep"]), slow={"S": 1, "A0": 1})


def slowly(rng, net, which=None, big=0):
    """N02: the other side takes its time, longer than the connection can hold what is sent; long packets and pauses."""
    n = 4 if big == 6000000 else 12
    frm = rng.choice(["A0", "S"])
    steps = [dict(op="listen", s="S", to=a(1)), dict(op="dial", s="A0", to=a(1)), dict(op="sleep", ms=20),
             dict(op="par", par=[[dict(op="send", s=frm, nth=0, lane="n1", n=n, sizes=[big, 20] if big < 6000000 else [big]), dict(op="sleep", ms=300),
                                  dict(op="send", s=frm, nth=0, lane="n1", n=2, sizes=[20])],
                                 [dict(op="sleep", ms=150), dict(op="send", s=frm, nth=0, lane="n2", n=1, sizes=[big]), dict(op="sleep", ms=250),
                                  dict(op="send", s=frm, nth=0, lane="n2", n=2, sizes=[20])]])]
    return scn(rng, net, steps, which=which, ser="len", slow={"S" if frm == "A0" else "A0": rng.choice([700, 1200]) if big == 6000000 else 60}, rest=60000 if net == "mock" else 3500)


def cut_off(rng, net, which=None):
    """N03: the other side closes within a packet, or while packets are being delivered, or the sink does it by itself."""
    steps = [dict(op="listen", s="S", to=a(1)), dict(op="rawlisten", r="l0", to=a(2)), dict(op="dial", s="A0", to=a(2)), dict(op="rawdial", r="d0", to=a(1)), dict(op="sleep", ms=5)]
    lanes = []
    for r, s in (("l0", "A0"), ("d0", "S")):
        n = rng.choice([1, 2, 8, 30])
        lane = [dict(op="feed", r=r, n=n, sizes=[20, 40], cuts=rng.choice([[], [9], [45]]), drop=rng.choice([0, 1, 3, 15, 22, 23]))]
        if rng.random() < 0.5:
            lane.append(dict(op="rest"))
        lane.append(dict(op="rawclose", r=r) if rng.random() < 0.6 else dict(op="close", s=s))
        lanes.append(lane)
    if rng.random() < 0.5:
        steps += [o for x in lanes for o in x]
    else:
        steps.append(dict(op="par", par=[[o for o in x if o["op"] != "rest"] for x in lanes]))
    steps += [dict(op="rest"), dict(op="close", s="S"), dict(op="close", s="A0"), dict(op="rest")]
    return scn(rng, net, steps, which=which, stop={"S": rng.choice([0, 1, 2, 5]), "A0": rng.choice([0, 1, 2, 5])},
               slow={"S": rng.choice([0, 0, 2]), "A0": rng.choice([0, 2])}, ser=rng.choice(["len", "keep"]))


def traffic(rng, net, which=None, big=False, close=0.0):
    """N02: packets both ways on several connections, from several routines, and broadcasts."""
    nd = rng.choice([1, 2, 3, 5])
    nb = 600 if net == "tcp" and which != "vy" else 60
    steps = [dict(op="listen", s="S", to=a(1))]
    dial = [[dict(op="dial", s="A%d" % i, to=a(1))] for i in range(nd)]
    steps += [x[0] for x in dial] if rng.random() < 0.6 else [dict(op="par", par=dial)]
    raw = rng.random() < 0.4
    if raw:
        steps.append(dict(op="rawdial", r="d0", to=a(1)))
    if rng.random() < 0.5:
        steps.append(dict(op="sleep", ms=20))
    lanes, ln = [], 0
    for _ in range(rng.choice([1, 2, 4, 6])):
        lane = []
        ln += 1
        k = rng.random()
        for _ in range(rng.choice([1, 2, 3])):
            n = rng.choice([1, 2, 5, 20, nb]) if not big else rng.choice([nb, nb * 3])
            op = dict(op="send", lane="n%d" % ln, n=n, sizes=rng.choice([[20], [20, 300], [10240, 8], [1]]) if n < 50 else [20, 40], us=rng.choice([0, 0, 0, 50]))
            if k < 0.4:
                op.update(s="A%d" % ((ln * 7) % nd), nth=0)
            elif k < 0.75:
                op.update(s="S", nth=(ln * 5) % (nd + raw))
            else:
                op.update(op="sendall", s="S")
            lane.append(op)
            if rng.random() < 0.25 and op["op"] == "send":
                lane.append(dict(op, op="sendempty"))
            if rng.random() < 0.3:
                lane.append(dict(op="sleep", ms=rng.choice([1, 3, 20])))
        lanes.append(lane)
    if raw and rng.random() < 0.5:
        lanes.append([dict(op="feed", r="d0", n=5, sizes=[30, 200], cuts=[rng.choice([3, 50, 500])])])
    if rng.random() < close:
        n = rng.choice(["S"] + ["A%d" % i for i in range(nd)])
        lanes.append([dict(op="sleep", ms=rng.choice([0, 0, 1, 3, 10]))] + [dict(op="close", s=n)] * rng.choice([1, 1, 2]))
        if rng.random() < 0.4:
            lanes.append([dict(op="sleep", ms=rng.choice([0, 1, 3])), dict(op="close", s=rng.choice(["S"] + ["A%d" % i for i in range(nd)]))])
    steps.append(dict(op="par", par=lanes))
    if rng.random() < close:
        steps += [dict(op="rest"), dict(op="close", s=rng.choice(["S", "A0"]))]
        if raw and rng.random() < 0.5:
            steps += [dict(op="rawclose", r="d0")]
    slow = {"S": rng.choice([0, 0, 1]), "A0": rng.choice([0, 0, 1])} if not big and net == "mock" else {}
    hello = {"S": 2, "A0": 3} if rng.random() < 0.3 else {}
    return scn(rng, net, steps, which=which, slow=slow, hello=hello)


def closing(rng, net, which=None):
    """N03: connecting and closing at any time from any side."""
    nd = rng.choice([1, 2, 3])
    lanes = [[dict(op="sleep", us=rng.choice([0, 0, 500, 3000])), dict(op="dial", s="A%d" % i, to=a(1))] for i in range(nd)]
    for i in range(nd):
        if rng.random() < 0.6:
            lanes[i] += [dict(op="send", s="A%d" % i, nth=0, lane="n%d" % i, n=rng.choice([1, 3]), sizes=[20])] * rng.choice([0, 1])
            lanes[i] += [dict(op="sleep", us=rng.choice([0, 0, 500, 3000])), dict(op="close", s="A%d" % i)]
    k = rng.random()
    if k < 0.5:
        lanes.append([dict(op="sleep", us=rng.choice([0, 200, 800, 3000])), dict(op="close", s="S")])
    if rng.random() < 0.4:
        lanes.append([dict(op="rawdial", r="d0", to=a(1)), dict(op="feed", r="d0", n=3, sizes=[20], cuts=[7])] +
                     ([dict(op="rawclose", r="d0")] if rng.random() < 0.7 else []))
        if k < 0.5:
            lanes.pop(-2)
    steps = [dict(op="listen", s="S", to=a(1)), dict(op="par", par=lanes), dict(op="rest")]
    if k >= 0.5 and rng.random() < 0.7:
        steps += [dict(op="close", s=rng.choice(["S", "A0"])), dict(op="rest")]
    up = {"S": rng.choice([0, 5, 50]), "A0": rng.choice([0, 5, 50])} if rng.random() < 0.3 else {}
    return scn(rng, net, steps, which=which, upms=up, hello={"S": 1} if rng.random() < 0.3 else {})


def from_spec(rng, hist, net, which=None):
    steps, group, order = [dict(op="listen", s="S", to=a(1))], {}, []

    def flush(rest):
        nonlocal group
        if group:
            steps.extend(next(iter(group.values())) if len(group) == 1 else [dict(op="par", par=list(group.values()))])
            if rest and net == "mock":
                steps.append(dict(op="rest"))
        group = {}
    dialed = []
    for o in hist:
        if o["idle"]:
            flush(True)
        k = o["op"]
        if k == "dial":
            flush(False)
            steps.append(dict(op="dial", s=o["k"], to=a(1)))
            steps.append(dict(op="sleep", ms=1 if net == "mock" else 10))
            dialed.append(o["k"])
        elif k == "send":
            x = dict(op="send", lane="%s%s" % (o["k"], o["side"]), n=rng.choice([1, 1, 2, 5]), sizes=rng.choice([[20], [3000], [10230, 11]]))
            x.update(s=o["k"], nth=0) if o["side"] == "d" else x.update(s="S", nth=dialed.index(o["k"]))
            group.setdefault(x["lane"], []).append(x)
        elif k == "sendall":
            group.setdefault("all", []).append(dict(op="sendall", s="S", lane="all", n=rng.choice([1, 2]), sizes=[20]))
        elif k == "close":
            group.setdefault("close" + o["n"], []).append(dict(op="close", s=o["n"]))
    flush(True)
    return scn(rng, net, steps, which=which)


def merged(events):
    """Runs of packets as one event; packets of different connections commute."""
    res, part = [], {}

    def flush():
        for run in part.values():
            res.extend(run)
        part.clear()
    for e in events:
        if e["e"] != "Pkt":
            flush()
            res.append(e)
            continue
        run = part.setdefault((e["k"], e["side"]), [])
        if run and run[-1]["lane"] == e["lane"] and run[-1]["n"] + run[-1]["count"] == e["n"]:
            run[-1]["count"] += 1
        else:
            run.append(dict(e, count=1))
    flush()
    return res


def streams(s):
    """Where the packets of the raw streams end."""
    next_, off, ends = {}, {}, {}

    def walk(ops):
        for o in ops:
            if o["op"] == "par":
                for x in o["par"]:
                    walk(x)
            elif o["op"] == "feed":
                r = o["r"]
                for _ in range(o["n"]):
                    n = next_.get(r, 0) + 1
                    next_[r] = n
                    sz = o["sizes"][n % len(o["sizes"])]
                    ln = (1 if s["ser"] == "txt" else 4) if sz < 0 else max(len("%s:%d:%d:" % (r, n, sz)), sz) + (1 if s["ser"] == "txt" else 4)
                    off[r] = off.get(r, 0) + ln
                    ends.setdefault(r, []).append(off[r])
                off[r] = off.get(r, 0) - o.get("drop", 0)
    walk(s["steps"])
    return [[r, e] for r, e in ends.items()]


def make(r):
    return dict(streams=streams(r["scn"]))


def scenarios(ctx, prop):
    rng = ctx.rng
    k = ctx.n(1, 8)
    res = []
    hs = ctx.generate("NetGen", 30 * k, 300)
    rng.shuffle(hs)
    for i, h in enumerate(hs[:16 * k]):
        res.append(from_spec(rng, h, "tcp" if i % 4 == 3 else "mock", "vy" if i % 4 in (0, 1) else "plain"))
    for _ in range(k):
        for net, which, n in (("mock", "plain", 6), ("mock", "vy", 6), ("tcp", "plain", 6), ("tcp", "vy", 3)):
            for f, ps in ((fragments, ("N01",)), (halves, ("N01",)), (traffic, ("N02",)), (closing, ("N03",))):
                for _ in range(n * 2 if prop in ps else max(1, n // 3)):
                    res.append(f(rng, net, which))
            if prop == "N01" and which == "plain":
                for _ in range(n):
                    res.append(bursts(rng, net, which))
            if prop == "N03":
                for _ in range(n):
                    res.append(cut_off(rng, net, which))
            if prop == "N02" and which == "plain":
                if net == "mock":
                    res.append(backlog(rng, net, which))
                for big in (6000000, 100000, 1200000) if net == "tcp" else (100000,):
                    res.append(slowly(rng, net, which, big))
            if prop in ("N02", "N03"):
                for _ in range(n):
                    res.append(traffic(rng, net, which, close=0.9 if prop == "N03" else 0.2))
            if prop == "N02":
                for _ in range(2):
                    res.append(traffic(rng, net, which, big=True))
    return res


def again(ctx):
    def f(r):
        s = ctx.ports.rebase(r["scn"]) if r["scn"]["net"] == "tcp" else dict(r["scn"])
        if not s["virtual"]:
            s["rest"] = 2500
        r2 = ctx.run_one(s, r["which"], 150)
        r2["events"] = merged(r2["events"])
        return r2
    return f


def run(ctx):
    ctx.build()
    cfgs = ["MCNet.cfg"] if ctx.quick() else ["MCNet.cfg", "MCNet2.cfg"]
    mc = threading.Thread(target=lambda: guarded(ctx, lambda: [ctx.model_check("MCNet", c, workers=4, timeout=800) for c in cfgs]))
    mc.start()
    s = scenarios(ctx, ctx.prop)
    done = []
    for net, which, par in (("mock", "plain", 8), ("mock", "vy", 8), ("tcp", "plain", 4), ("tcp", "vy", 4)):
        done += ctx.run([x for x in s if x["net"] == net and x["which"] == which], which, par=par)
    for r in done:
        r["events"] = merged(r["events"])
    ctx.judge("NetTrace", done, make, chunk=12, confirm=again(ctx))
    mc.join()
    if ctx.errors:
        raise ctx.errors[0]
    return ctx.finish(assumptions=ASSUME)
