"""L01, L02: everything closed at once, and started again; judged by LifeTrace."""
import threading
import core
from p_hub import guarded, vy

ASSUME = ["no port is used twice at the same time", "features that are being destroyed make no calls", "when nothing has moved for a while (3 s of virtual time, 0.3 s and on doubt 4 s over TCP) closing has had its effects",
          "loopback TCP and the mock network; the process isn't ended by a signal"]


def base(rng, net, ops, which, fake=True, **kw):
    s = dict(kind="life", net=net, virtual=net == "mock", seed=1, ops=ops, quiet=3000 if net == "mock" else 300, which=which,
             fakehub="127.0.0.1:@0" if fake else "", end="127.0.0.1:@1", **kw)
    if which == "vy":
        s["vy"] = vy(rng)
        if net == "tcp":
            s["vy"].update(scale=rng.choice([2000, 10000]), every=rng.choice([1, 2]), mode=rng.choice([1, 2, 3, 4, 5]))
    if net == "mock":
        s["base"] = 27000
        core.subst(s, 27000)
    return s


class Ids:
    def __init__(self):
        self.c = self.call = 0


def from_spec(rng, h, net, which):
    """A behaviour of MCLife: what happens between two rests goes one after another, or at once."""
    ids, kind, ops, seg = Ids(), {}, [], []
    used = set()    # ports of what may run
    h = h[:40]

    def op(x, racing):
        o, i, p = x
        if o == "start":
            kind[i] = rng.choice(["hub", "dock", "dock"])
            if kind[i] == "hub":
                return [dict(op="hub", i=i, addr="127.0.0.1:@%d" % (p + 1), racing=racing)] + ([] if racing else [dict(op="await", i=i)])
            return [dict(op="dock", i=i, addr="127.0.0.1:@0", port="@%d" % (p + 1), racing=racing)] + ([] if racing else [dict(op="await", i=i)])
        if o == "dial":
            ids.c += 1
            r = [dict(op="dial", i=i, c=ids.c, ms=rng.choice([0, 300, 300]))]
            return r + ([dict(op="talk", c=ids.c, i=i)] if rng.random() < 0.5 else [])
        if o == "call" and kind.get(i) == "dock":
            ids.call += 1
            return [dict(op="call", id=ids.call, i=i)]
        return [dict(op="close")] if o == "close" else []

    for x in h + [["rest", 0, 0]]:
        if x[0] != "rest":
            seg.append(x)
            continue
        seg = [y for y in seg if y[0] != "closed"]
        if not seg:
            continue
        closes = any(y[0] == "close" for y in seg)
        ports = [y[2] for y in seg if y[0] == "start"]
        free = not used & set(ports) and len(set(ports)) == len(ports)
        used = set() if closes else used | set(ports)
        if free and rng.random() < 0.6 and len(seg) > 1:
            lanes = []
            for y in seg:
                o = op(y, closes)
                if o:
                    lanes.append([dict(op="sleep", ms=rng.choice([0, 0, 1, 3, 10, 40, 100]))] + o)
            ops.append(dict(op="par", par=lanes))
            if closes:
                ops += [dict(op="rest"), dict(op="close")]
        else:
            for y in seg:
                ops += op(y, False)
        ops += [dict(op="rest"), dict(op="probe")]
        seg = []
    ops += [dict(op="close"), dict(op="rest"), dict(op="probe")]
    return base(rng, net, ops, which)


def rounds(rng, net, which):
    """A real hub and docks that call each other, closed and started again on the same addresses."""
    ids, ops, n = Ids(), [], rng.choice([1, 2, 3])
    nrounds = rng.choice([2, 3])
    for r in range(nrounds):
        H = 10 * r + 1
        docks = [H + 1 + k for k in range(n)]
        ops += [dict(op="hub", i=H, addr="127.0.0.1:@2", racing=False, **(dict(upto="@29") if net == "tcp" else {})), dict(op="await", i=H)]
        starts = [[dict(op="sleep", ms=rng.choice([0, 0, 5, 50])), dict(op="dock", i=d, addr="127.0.0.1:@2", racing=False)] for d in docks]
        ops += [dict(op="par", par=starts)] if rng.random() < 0.7 else [o for s in starts for o in s]
        ops += [dict(op="await", i=d) for d in docks] + [dict(op="rest"), dict(op="probe")]
        lanes = []
        for _ in range(rng.choice([1, 3, 6])):
            a = rng.choice(docks)
            ids.call += 1
            lanes.append([dict(op="call", id=ids.call, i=a, j=rng.choice([d for d in docks if d != a] or [a]))])
        ops += [dict(op="par", par=lanes), dict(op="rest")]
        lanes = []
        for _ in range(rng.choice([0, 2, 4])):
            ids.c += 1
            i = rng.choice([H] + docks)
            lanes.append([dict(op="dial", i=i, c=ids.c, ms=300)] + ([dict(op="talk", c=ids.c, i=i)] if rng.random() < 0.6 else []))
        ids.call += 1
        if rng.random() < 0.7:      # for a feature nobody has
            lanes.append([dict(op="call", id=ids.call, i=rng.choice(docks), j=0)])
        if lanes:
            ops.append(dict(op="par", par=lanes))
        if rng.random() < 0.5:
            ops.append(dict(op="sleep", ms=rng.choice([1, 50, 300])))
        lanes = [[dict(op="close")]]
        if rng.random() < 0.5:
            for _ in range(4):
                ids.call += 1
                lanes.append([dict(op="sleep", ms=rng.choice([0, 1, 5, 20])), dict(op="call", id=ids.call, i=rng.choice(docks), j=rng.choice([0] + docks))])
        ops += [dict(op="par", par=lanes), dict(op="rest"), dict(op="probe")]
        for _ in range(2):      # calls of closed docks
            ids.call += 1
            ops.append(dict(op="call", id=ids.call, i=rng.choice(docks), j=rng.choice([0] + docks)))
        ops += [dict(op="rest")]
    return base(rng, net, ops, which, fake=False)


def slow_close(rng, net, which):
    """Features take their time to be destroyed, and others are started meanwhile."""
    ids, ops = Ids(), []
    n = rng.choice([2, 3, 4])
    for r in range(2):
        kinds = [rng.random() < 0.6 for _ in range(n)]
        kinds[rng.randrange(1, n)] = True
        slow = lambda: rng.choice([0, 60, 120])
        start = lambda i, k, port, racing, s: dict(op="dock", i=i, addr="127.0.0.1:@0", port="@%d" % port, racing=racing, slow=s) if k else dict(op="hub", i=i, addr="127.0.0.1:@%d" % port, racing=racing)
        last = max(i for i, k in enumerate(kinds) if k)
        for i, k in enumerate(kinds):
            ops += [start(10 * r + i + 1, k, i + 2, False, 120 if i == last else slow()), dict(op="await", i=10 * r + i + 1)]
        ops.append(dict(op="rest"))
        for i in range(n):
            ids.c += 1
            ops.append(dict(op="dial", i=10 * r + i + 1, c=ids.c, ms=300))
        if rng.random() < 0.5:
            ids.call += 1
            ops.append(dict(op="call", id=ids.call, i=10 * r + last + 1, j=0))
        lanes = [[dict(op="close")]]
        m = rng.choice([1, 2, n])
        for k in range(m):      # on other ports
            lanes.append([dict(op="sleep", ms=rng.choice([100, 300, 600])), start(10 * r + n + k + 1, rng.random() < 0.5, n + k + 2, True, 0)])
        ops += [dict(op="par", par=lanes), dict(op="rest"), dict(op="probe")]
        ops += [dict(op="close"), dict(op="rest"), dict(op="probe")]
    return base(rng, net, ops, which)


def crowd(rng, net, which):
    """Many started at once, and closed; then once more."""
    ids, ops = Ids(), []
    for r in range(2):
        lanes = []
        for k in range(6):
            i = 10 * r + k + 1
            lanes.append(([dict(op="sleep", ms=rng.choice([0, 0, 1]))] if rng.random() < 0.5 else []) +
                         [dict(op="dock", i=i, addr="127.0.0.1:@0", port="@%d" % (k + 2), racing=False) if k % 2 else dict(op="hub", i=i, addr="127.0.0.1:@%d" % (k + 2), racing=False)])
        ops += [dict(op="par", par=lanes)] + [dict(op="await", i=10 * r + k + 1) for k in range(6)] + [dict(op="rest"), dict(op="probe")]
        lanes = []
        for _ in range(6):
            ids.c += 1
            i = 10 * r + rng.randrange(1, 7)
            lanes.append([dict(op="dial", i=i, c=ids.c, ms=rng.choice([0, 300]))] + ([dict(op="talk", c=ids.c, i=i)] if rng.random() < 0.5 else []))
            ids.call += 1
            lanes.append([dict(op="call", id=ids.call, i=10 * r + rng.choice([2, 4, 6]), j=0)])
        close = [[dict(op="sleep", ms=rng.choice([0, 1, 10])), dict(op="close")]]
        ops += [dict(op="par", par=lanes + close)] if rng.random() < 0.5 else [dict(op="par", par=lanes)] + close[0]
        ops += [dict(op="rest"), dict(op="close"), dict(op="rest"), dict(op="probe")]
        ids.call += 1
        ops += [dict(op="call", id=ids.call, i=10 * r + 2, j=0), dict(op="rest")]
    return base(rng, net, ops, which)


def again(ctx):
    def f(r):
        s = ctx.ports.rebase(r["scn"]) if r["scn"]["net"] == "tcp" else dict(r["scn"])
        if not s["virtual"]:
            s["quiet"] = 4000
        return ctx.run_one(s, r["which"], 150)
    return f


def run(ctx):
    ctx.build()
    rng = ctx.rng
    mc = threading.Thread(target=lambda: guarded(ctx, lambda: ctx.model_check("MCLife", "MCLife.cfg", workers=3, timeout=800)))
    mc.start()
    hs = ctx.generate("MCLife", ctx.n(60, 600), 120, cfg="LifeGen.cfg")
    rng.shuffle(hs)
    k = ctx.n(1, 8)
    todo = []
    for i, h in enumerate(hs[:40 * k]):
        net, which = [("mock", "vy"), ("mock", "vy"), ("tcp", "plain"), ("tcp", "vy")][i % 4]
        todo.append(from_spec(rng, h, net, which))
    for f in (rounds, crowd, slow_close):
        for net, which, n in (("mock", "vy", 8), ("tcp", "plain", 6), ("tcp", "vy", 4 * (f is not rounds))): # the list of ports takes long
            todo += [f(rng, net, which) for _ in range(n * k)]
    res = []
    for which in ("plain", "vy"):
        part = [s for s in todo if s["which"] == which]
        res += ctx.run(part, which, par=20)
    ctx.judge("LifeTrace", res, lambda r: {}, chunk=15, confirm=again(ctx))
    mc.join()
    if ctx.errors:
        raise ctx.errors[0]
    return ctx.finish(assumptions=ASSUME)
