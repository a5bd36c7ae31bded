"""H01-H05: a real hub, fake docks; judged by HubTrace."""
import copy, random

ASSUME = ["messages of one connection are handled in their order of arrival",
          "when nothing has moved for seconds (virtual: exactly; TCP: 12 s limit) the hub has done all it is going to do",
          "a dock sends its readiness announcement after it was told its port, and registers once per connection"]


def to_steps(hist, limit=5):
    """Turns a behaviour of HubGen into driver steps: what happens between idle moments runs concurrently."""
    steps, group, n = [], {}, 0

    def flush(settle):
        nonlocal group, n
        if group:
            if len(group) == 1:
                steps.extend(next(iter(group.values())))
            else:
                steps.append(dict(op="par", par=list(group.values())))
            if settle:
                steps.append(dict(op="settle"))
        group, n = {}, 0
    for op in hist:
        op = dict(op)
        idle = op.pop("idle")
        if op["op"] == "conn":
            if n:
                flush(idle)
            steps.append(op)
            continue
        if idle or n >= limit:
            flush(True)
        group.setdefault(op["c"], []).append(op)
        n += 1
    flush(True)
    return steps


def vy(rng):
    return dict(mode=rng.choice([1, 2, 3, 3, 4, 5]), seed=rng.randrange(1 << 40), scale=rng.choice([200, 1000, 1000, 3000]), every=rng.choice([2, 3, 6]))


def virt(rng, steps, black=(), **kw):
    return dict(kind="hub", net="mock", virtual=True, seed=rng.randrange(1 << 30), vy=vy(rng), hub="127.0.0.1:9000", at="127.0.0.1:9000",
                black=list(black), steps=steps, exhaust=False, **kw)


def tcp(rng, steps, black=(), v6=False, **kw):
    return dict(kind="hub", net="tcp", virtual=False, seed=rng.randrange(1 << 30), hub="[::1]:@0" if v6 else "0.0.0.0:@0",
                at="[::1]:@0" if v6 else "127.0.0.1:@0", black=list(black), steps=steps, exhaust=False, **kw)


def conns(rng, n, hosts=("127.0.0.1",)):
    return [dict(op="conn", c=i + 1, h=rng.choice(hosts)) for i in range(n)]


HOSTS = ("127.0.0.1", "127.0.0.2", "127.0.0.7", "127.1.0.1")


def reg_storm(rng, n, hosts=HOSTS, per=1):
    """n docks register at the same time, with features of their own."""
    cs = conns(rng, n, hosts)
    return cs + [dict(op="par", par=[[dict(op="reg", c=c["c"], s=["S%d" % c["c"]] if k == 0 else []) for k in range(per)] for c in cs]),
                 dict(op="settle")]


def black_list(rng):
    k = rng.randrange(5)
    if k == 0:
        return []
    if k == 1:
        return list(range(20001, 20001 + rng.randrange(1, 6)))
    if k == 2:
        return [20000 + i for i in range(1, 40) if rng.random() < 0.5]
    if k == 3:
        return [20002, 20003, 20005, 1, 49000, 60000]
    return [20001 + 2 * i for i in range(10)]


def providers(rng, n, hosts=HOSTS, slots=("A",), close=True, queries=8):
    """Providers of the same feature come and go one after the other; queries in between."""
    steps, alive, asker, c, q = conns(rng, 1, hosts), [], 1, 1, 0
    reg, rdy = [], []
    ops = ["new"] * n + ["ready"] * n + ["query"] * queries + (["close"] * (n // 2) if close else [])
    rng.shuffle(ops)
    for op in ops:
        if op == "new":
            c += 1
            steps += [dict(op="conn", c=c, h=rng.choice(hosts)), dict(op="reg", c=c, s=list(slots)), dict(op="settle")]
            reg.append(c)
        elif op == "ready" and reg:
            x = reg.pop(rng.randrange(len(reg)))
            rdy.append(x)
            steps += [dict(op="ready", c=x, s=list(slots)), dict(op="settle")]
        elif op == "close" and rdy and rng.random() < 0.8:
            x = rdy.pop(rng.randrange(len(rdy)))
            steps += [dict(op="close", c=x), dict(op="settle")]
        elif op == "query":
            who = rng.choice([asker] + reg + rdy)
            steps += [dict(op="query", c=who, s=[rng.choice(slots)]), dict(op="settle")]
    # a query for which there is an answer at the end
    c += 1
    steps += [dict(op="conn", c=c, h=rng.choice(hosts)), dict(op="reg", c=c, s=list(slots)), dict(op="settle"), dict(op="query", c=asker, s=[slots[0]]),
              dict(op="ready", c=c, s=list(slots)), dict(op="settle")]
    return steps


def recency(rng, n):
    """Several providers of the same features, from few hosts, become ready one after the other; each time somebody asks."""
    hosts = HOSTS[:2]
    cs = conns(rng, n + 3, hosts)
    if rng.random() < 0.5:
        for c in cs:
            c["h"] = hosts[c["c"] % 2]
    steps = cs[:]

    def ask():
        return [dict(op="query", c=c, s=[s]) for c, s in rng.sample([(n + 1, "A"), (n + 1, "B"), (n + 2, "A"), (n + 3, "A"), (n + 3, "B")], rng.choice([1, 2, 3]))] + [dict(op="settle")]
    for c in range(1, n + 1):
        steps += [dict(op="reg", c=c, s=["A", "B"] if rng.random() < 0.7 else ["A"]), dict(op="settle")]
    order = list(range(1, n + 1))
    rng.shuffle(order)
    for c in order:
        steps += [dict(op="ready", c=c, s=["A", "B"] if rng.random() < 0.7 else ["A"]), dict(op="settle")] + ask()
    rng.shuffle(order)
    for c in order[:rng.randrange(n + 1)]:
        steps += [dict(op="close", c=c), dict(op="settle")] + ask()
    return steps


def patience(rng, long):
    """Queries that wait for long until somebody can answer them, others that need not."""
    cs = conns(rng, 3, HOSTS)
    steps = cs + [dict(op="query", c=1, s=["A"]), dict(op="reg", c=2, s=["A", "B"]), dict(op="settle"), dict(op="sleep", ms=long),
                  dict(op="query", c=3, s=["B"]), dict(op="sleep", ms=rng.choice([1, 50, 3000]))]
    steps += [dict(op="ready", c=2, s=["A", "B"]), dict(op="settle"), dict(op="query", c=1, s=["B"]), dict(op="settle")]
    return steps


def departures(rng, n):
    """Docks that have registered several features, some of them not ready, leave one by one; others of the same hosts stay."""
    slots = ["A", "B", "C"]
    cs = conns(rng, n + 1, HOSTS[:2])
    steps, own = cs[:], {}
    for c in range(1, n + 1):
        own[c] = rng.sample(slots, rng.choice([1, 2, 3]))
        steps += [dict(op="reg", c=c, s=own[c]), dict(op="settle")]
    late = []
    for c in range(1, n + 1):
        if rng.random() < 0.3:
            late.append(c)
        else:
            steps += [dict(op="ready", c=c, s=own[c]), dict(op="settle")]
    out = rng.sample(range(1, n + 1), rng.randrange(1, n))
    for c in out:
        if c in late and rng.random() < 0.5:
            steps += [dict(op="query", c=n + 1, s=[rng.choice(own[c])])]
        steps += [dict(op="close", c=c), dict(op="settle")]
        steps += [dict(op="query", c=n + 1, s=[s]) for s in rng.sample(slots, 2)] + [dict(op="settle")]
    for c in late:
        if c not in out:
            steps += [dict(op="ready", c=c, s=own[c]), dict(op="settle")] + [dict(op="query", c=n + 1, s=[s]) for s in own[c]] + [dict(op="settle")]
    return steps


def mixed(rng, nslots=4, nprov=4, nquery=12, hosts=HOSTS):
    """Providers of overlapping sets of features; queries from everywhere, many pending at once."""
    slots = ["F%d" % i for i in range(nslots)]
    cs = conns(rng, nprov + 2, hosts)
    steps = list(cs)
    own = {c["c"]: sorted(rng.sample(slots, rng.randrange(1, nslots))) for c in cs[:nprov]}
    todo = [("reg", c) for c in own] + [("query", rng.choice(cs)["c"]) for _ in range(nquery)]
    rng.shuffle(todo)
    for op, c in todo:
        if op == "reg":
            steps += [dict(op="reg", c=c, s=own[c]), dict(op="settle"), dict(op="ready", c=c, s=own[c])]
        else:
            steps += [dict(op="query", c=c, s=[rng.choice(slots)])]
        if rng.random() < 0.6:
            steps.append(dict(op="settle"))
    return steps + [dict(op="settle")]


def pending_storm(rng, n, hosts=HOSTS):
    """Very many queries wait for features nobody has, others are to be answered all the same."""
    steps = conns(rng, 4, hosts)
    steps += [dict(op="query", c=1, s=["none%d" % i]) for i in range(n)]
    steps += [dict(op="reg", c=2, s=["A"]), dict(op="settle"), dict(op="query", c=3, s=["A"]), dict(op="ready", c=2, s=["A"]), dict(op="settle"),
              dict(op="query", c=3, s=["A"]), dict(op="query", c=1, s=["A"]), dict(op="settle")]
    steps += [dict(op="reg", c=4, s=["none0", "none1"]), dict(op="settle"), dict(op="ready", c=4, s=["none0", "none1"]), dict(op="settle")]
    return steps


def query_storm(rng, n, hosts=HOSTS):
    """Many queries for one feature from several docks at once, before and while it becomes ready."""
    cs = conns(rng, n + 1, hosts)
    return cs + [dict(op="par", par=[[dict(op="query", c=c["c"], s=["A"])] for c in cs[:n // 2]] + [[dict(op="reg", c=n + 1, s=["A"])]]), dict(op="settle"),
                 dict(op="par", par=[[dict(op="query", c=c["c"], s=["A"])] for c in cs[n // 2:n]] + [[dict(op="ready", c=n + 1, s=["A"])]]), dict(op="settle")]


def scenarios(ctx, prop):
    rng = ctx.rng
    v, t = [], []
    k = ctx.n(1, 6)
    for hist in ctx.generate("HubGen", 12 * k, 70):
        v.append(virt(rng, to_steps(hist), [20002] if rng.random() < 0.5 else []))
    hs = ctx.generate("HubGen", 3 * k, 70)
    rng.shuffle(hs)
    for hist in hs[:3 * k]:
        t.append(tcp(rng, to_steps(hist), [20002] if rng.random() < 0.5 else []))
    if prop == "H01":
        for _ in range(10 * k):
            v.append(virt(rng, reg_storm(rng, rng.choice([3, 5, 6])), black_list(rng)))
        for _ in range(4 * k):
            t.append(tcp(rng, reg_storm(rng, rng.choice([4, 6])) , black_list(rng)))
            t.append(tcp(rng, reg_storm(rng, 4, ("127.0.0.1",), per=2), black_list(rng)))
        # up to the end of the range
        for last in (48990, 48998):
            bl = list(range(20004, last))
            steps = conns(rng, 1) + [dict(op="regburst", c=1, n=49000 - last + 1 + 3, s=[])] + [dict(op="conn", c=2, h="127.0.0.9"), dict(op="reg", c=2, s=["A"]), dict(op="settle")]
            t.append(tcp(rng, copy.deepcopy(steps), bl))
            s = tcp(rng, steps + [dict(op="reg", c=1, s=["Z"]), dict(op="settle")], bl)
            s["exhaust"] = True
            t.append(s)
        t.append(tcp(rng, conns(rng, 2) + [dict(op="regburst", c=1, n=ctx.n(3000, 28990), s=["A"]), dict(op="regburst", c=2, n=5, s=[])], [20002, 20003]))
        for _ in range(2 * k):
            # registrations after docks of the same host have left
            steps = []
            for c in range(1, 6):
                steps += [dict(op="conn", c=c, h="127.0.0.1"), dict(op="reg", c=c, s=["A"]), dict(op="settle"), dict(op="ready", c=c, s=["A"])]
                if rng.random() < 0.6:
                    steps += [dict(op="close", c=c), dict(op="settle")]
            t.append(tcp(rng, steps, black_list(rng)))
            v.append(virt(rng, steps, black_list(rng)))
    if prop in ("H02", "H03", "H05"):
        for _ in range(8 * k):
            v.append(virt(rng, providers(rng, rng.choice([2, 3, 4]), slots=rng.choice([("A",), ("A", "B")]), close=prop != "H03" or rng.random() < 0.3)))
        for _ in range(5 * k):
            t.append(tcp(rng, providers(rng, rng.choice([2, 3, 4]), slots=rng.choice([("A",), ("A", "B")]), close=prop != "H03" or rng.random() < 0.3), black_list(rng)))
        for _ in range(6 * k):
            v.append(virt(rng, recency(rng, rng.choice([3, 4, 5]))))
        for _ in range(6 * k):
            t.append(tcp(rng, recency(rng, rng.choice([3, 4, 5]))))
    if prop in ("H02", "H04"):
        for _ in range(6 * k):
            v.append(virt(rng, mixed(rng)))
        for _ in range(4 * k):
            t.append(tcp(rng, mixed(rng)))
        if ipv6():
            t.append(tcp(rng, mixed(rng, hosts=("::1",)), v6=True))
    if prop == "H04":
        for long in (30000, 100000, ctx.n(400000, 4000000)):
            x = virt(rng, patience(rng, long))
            x["vy"]["every"] = 1000000      # the delays of the code that waits add up
            v.append(x)
        v.append(virt(rng, pending_storm(rng, 20)))
        t.append(tcp(rng, pending_storm(rng, ctx.n(200, 600))))
        for _ in range(5 * k):
            v.append(virt(rng, query_storm(rng, rng.choice([3, 4]))))
            t.append(tcp(rng, query_storm(rng, rng.choice([3, 4]))))
    if prop == "H05":
        for _ in range(6 * k):
            v.append(virt(rng, departures(rng, rng.choice([2, 3, 4]))))
            t.append(tcp(rng, departures(rng, rng.choice([2, 3, 4]))))
        for _ in range(5 * k):
            v.append(virt(rng, leave_races(rng)))
            t.append(tcp(rng, leave_races(rng)))
    return v, t


def leave_races(rng):
    """A provider leaves while others register, become ready, or are asked for; afterwards nobody is sent to it."""
    cs = conns(rng, 4, HOSTS)
    steps = cs + [dict(op="reg", c=1, s=["A", "B"]), dict(op="settle"), dict(op="reg", c=2, s=["A"]), dict(op="settle"),
                  dict(op="ready", c=1, s=["A", "B"]), dict(op="ready", c=2, s=["A"]), dict(op="settle")]
    par = [[dict(op="close", c=2)], [dict(op="query", c=3, s=["A"])], [dict(op="reg", c=4, s=["A"])] + ([dict(op="ready", c=4, s=["A"])] if rng.random() < 0.5 else [])]
    rng.shuffle(par)
    steps += [dict(op="par", par=par[:rng.choice([1, 2, 3])]), dict(op="settle"), dict(op="query", c=3, s=["A"]), dict(op="settle")]
    if rng.random() < 0.5:
        steps += [dict(op="close", c=1), dict(op="settle"), dict(op="query", c=3, s=["B"]), dict(op="query", c=3, s=["A"]), dict(op="settle"),
                  dict(op="conn", c=9, h="127.0.0.3"), dict(op="reg", c=9, s=["B"]), dict(op="settle"), dict(op="ready", c=9, s=["B"]), dict(op="settle")]
    # an unused connection closing must not matter
    steps += [dict(op="conn", c=8, h="127.0.0.1"), dict(op="settle"), dict(op="close", c=8), dict(op="settle"), dict(op="query", c=3, s=["A"]), dict(op="settle")]
    ok, gone = [], set()
    for s in steps:      # nothing is sent on a connection after it was closed, nor on one that doesn't exist
        ok.append(s)
    return ok


def ipv6():
    import socket
    try:
        s = socket.socket(socket.AF_INET6)
        s.bind(("::1", 0))
        s.close()
        return True
    except OSError:
        return False


def runs(ports):
    res = []
    for p in sorted(set(ports)):
        if res and res[-1][1] + 1 == p:
            res[-1][1] = p
        else:
            res.append([p, p])
    return res


def make(r):
    return dict(black=runs(r["scn"]["black"]), exhaust=r["scn"]["exhaust"])


def run(ctx):
    import threading
    ctx.build()
    mc = threading.Thread(target=lambda: guarded(ctx, lambda: ctx.model_check("MCHub", ctx.n("MCHubQuick.cfg", "MCHub.cfg"), workers=4, timeout=800)))
    mc.start()
    v, t = scenarios(ctx, ctx.prop)
    rv = ctx.run(v, "vy")
    rt = ctx.run(t, "plain", par=6)
    ctx.judge("HubTrace", rv, make, chunk=12)
    ctx.judge("HubTrace", rt, make, chunk=6, confirm=lambda r: ctx.run_one(ctx.ports.rebase(r["scn"]), "plain", 120))
    mc.join()
    if ctx.errors:
        raise ctx.errors[0]
    return ctx.finish(assumptions=ASSUME)


def guarded(ctx, f):
    try:
        f()
    except Exception as e:
        ctx.errors.append(e)
