"""W01: the bytes of messages; judged by WireTrace."""
import threading
import core
from p_hub import guarded, vy
from p_codec import value, gtype, write, of_tree, signed, unsigned, text, F32, F64, SCALARS

ASSUME = ["frames are valid messages (no malformed ones)", "map keys are nil, booleans, numbers or strings, and differ as numbers",
          "when nothing has moved for a while (a minute of virtual time, 1.5 s and on doubt 5 s over TCP) all messages have been handled"]


def b8(n):
    return list((n & ((1 << 64) - 1)).to_bytes(8, "big"))


def num(n):
    return ["i", 8, b8(n)]


def st(b):
    return ["s", list(b) if not isinstance(b, str) else list(b.encode())]


def tree(rng, depth):
    """A value of the specification."""
    k = rng.random()
    if depth > 0 and k < 0.35:
        return ["a", [tree(rng, depth - 1) for _ in range(rng.choice([0, 1, 2, 3, 6]))]]
    if depth > 0 and k < 0.5:
        keys = {}
        for _ in range(rng.choice([0, 1, 2, 4])):
            x = rng.choice([lambda: ["n"], lambda: ["b", rng.random() < 0.5], lambda: ["s", text(rng)], lambda: num(signed(rng, 64)), lambda: ["u", 8, b8(unsigned(rng, 64))]])()
            keys[str(x)] = x
        return ["m", [[x, tree(rng, depth - 1)] for x in keys.values()]]
    return rng.choice([lambda: ["n"], lambda: ["b", rng.random() < 0.5], lambda: ["s", text(rng)], lambda: num(signed(rng, 64)), lambda: ["u", 8, b8(unsigned(rng, 64))],
                       lambda: ["f", 8, b8(rng.choice(F64 + [rng.getrandbits(64)])), []],
                       lambda: ["f", 4, [], list(rng.choice(F32 + [rng.getrandbits(32)]).to_bytes(4, "big"))]])()


NAMES = ["", "A", "Bb", "x.y/z", "\u00fc\u4e2d\U0001f600", "\x00", "Feature", "a" * 255, "b" * 256, "c" * 300]


def name(rng, big=0.02):
    k = rng.random()
    if k < big:
        return [97 + i % 26 for i in range(rng.choice([65530, 65536, 70001]))]
    if k < 0.3:
        return text(rng)
    return list(rng.choice(NAMES).encode())


def names(rng, many=0.05):
    n = rng.choice([300, 700]) if rng.random() < many else rng.choice([0, 1, 1, 2, 3, 7])
    if n > 20:
        return ["a", [st(b"n%d" % i) for i in range(min(n, 350))]]
    return ["a", [["s", name(rng)] for _ in range(n)]]


def message(rng, big=0.03):
    """A message of the specification: code and fields."""
    c = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 7, 7, 8, 8, 8])
    s = lambda: ["s", name(rng, big)]
    idx = num(rng.choice([0, 1, 127, 128, 255, 256, -1, 32768, 65536, 1 << 31, 1 << 32, 1 << 40, (1 << 63) - 1, -(1 << 63), rng.getrandbits(62)]))
    args = ["a", [tree(rng, rng.choice([0, 0, 1, 2])) for _ in range(rng.choice([0, 1, 2, 3, 5, 12]))]]
    f = {0: lambda: [s()], 1: lambda: [], 2: lambda: [names(rng)], 3: lambda: [names(rng)],
         4: lambda: [num(rng.choice([0, 1, 255, 256, 20001, 32767, 32768, 49000, 65535, 65536, -1]))], 5: lambda: [s()], 6: lambda: [s()],
         7: lambda: [idx, s(), s(), args, ["b", rng.random() < 0.5]], 8: lambda: [idx, s(), s(), args, s()]}[c]()
    return c, f


def frame(rng, c, f):
    body = [0xcc, c] + [b for v in f for b in write(rng, v)]
    return list(len(body).to_bytes(4, "little")) + body


def cuts(rng, n):
    k = rng.random()
    if k < 0.4:
        return []
    if k < 0.6:
        return [rng.choice([1, 2, 3, 4, 5, 6])]
    if k < 0.8:
        return sorted(rng.randrange(1, n) for _ in range(3)) if n > 1 else []
    return [1, 2, 3, 4, 5, 6, 7, n - 1]


def base(rng, net, mode, quiet=None):
    s = dict(kind="wire", mode=mode, net=net, virtual=net == "mock", seed=rng.randrange(1 << 30), hub="127.0.0.1:@0", addr="127.0.0.1:@1", end="127.0.0.1:@2",
             port="@5", quiet=quiet or (60000 if net == "mock" else 1500), disc=[])
    if mode == "echo":
        s["blackto"] = "@20"
    if net == "mock":
        s.update(base=27000, vy=vy(rng))
        core.subst(s, s["base"])
    return s


def echo(rng, net, ser, msgs):
    s = base(rng, net, "echo")
    s["ser"] = ser
    ops = []
    if net == "mock":
        s["vy"] = dict(mode=0, seed=1, scale=0, every=1)
    i = 0
    while i < len(msgs):
        n = rng.choice([1, 1, 1, 2, 5])      # so many at once
        b = [frame(rng, c, f) for c, f in msgs[i:i + n]]
        i += n
        for x in b:
            ops.append(dict(op="send", c=1, bytes=x, cut=cuts(rng, len(x)) if rng.random() < 0.3 else []))
    s["ops"] = ops
    return s


def echo_long(rng, net, ser, sizes):
    """Messages with a text of so many bytes, and short ones between."""
    s = echo(rng, net, ser, [])
    be = lambda n: list(n.to_bytes(4, "big"))
    txt = lambda b: ["s", list(b)]
    enc = lambda v: [0xdb] + be(len(v[1])) + v[1] if v[0] == "s" else [0xc3 if v[1] else 0xc2] if v[0] == "b" else [0xd0, v[2][7]] if v[0] == "i" else [0xdd] + be(len(v[1])) + [b for x in v[1] for b in enc(x)]
    for n in sizes:
        c, at = rng.choice([(0, 0), (5, 0), (6, 0), (7, 1), (7, 2), (7, 3), (8, 2), (8, 3), (8, 4)])
        pre, post, byte = list(rng.choice([b"x", b"head of it"])), list(rng.choice([b"", b"tail"])), rng.choice([0, 97, 255, 204])
        f = {0: [None], 5: [None], 6: [None], 7: [num(5), txt(b"A"), txt(b"m"), ["a", [txt(b"one"), num(2)]], ["b", True]],
             8: [num(5), txt(b"A"), txt(b"m"), ["a", [txt(b"one"), num(2)]], txt(b"")]}[c]
        long = ["sl", pre, byte, n, post]
        head, tail = [0xcc, c], []
        for i, v in enumerate(f):
            if i < at:
                head += enc(v)
            elif i > at:
                tail += enc(v)
            else:
                k = rng.randrange(3) if c in (7, 8) and at == 3 else None
                if k is not None:      # one of three values
                    l = [txt(b"one"), txt(b""), ["b", False]]
                    l[k] = long
                    head += [0xdd] + be(3) + [b for x in l[:k] for b in enc(x)]
                    tail += [b for x in l[k + 1:] for b in enc(x)]
                    f = f[:at] + [["a", l]] + f[at + 1:]
                else:
                    f = f[:at] + [long] + f[at + 1:]
                head += [0xdb] + be(len(pre) + n + len(post)) + pre
                tail = post + tail
        size = len(head) + n + len(tail)
        head = list(size.to_bytes(4, "little")) + head
        s["ops"].append(dict(op="send", c=1, bytes=head, fill=[byte, n], tail=tail, msg=dict(id=c, f=f), cut=rng.choice([[], [3], [n // 2, n // 2 + 100]])))
        for _ in range(rng.choice([0, 2])):
            c, f = message(rng, 0)
            s["ops"].append(dict(op="send", c=1, bytes=frame(rng, c, f), cut=[]))
    return s


def goval(rng):
    t = "any" if rng.random() < 0.2 else gtype(rng, 1) if rng.random() < 0.4 else rng.choice(SCALARS)
    return value(rng, t, 1) if t == "any" else dict(t=t, v=value(rng, t, 1))


def dock(rng, net):
    s = base(rng, net, "dock")
    fs, seen = [], set()
    for _ in range(rng.choice([1, 2, 4])):
        n = name(rng, 0)
        if str(n) not in seen:
            seen.add(str(n))
            fs.append(dict(id=n, disc=rng.random() < 0.6))
    s["feats"] = fs
    s["disc"] = [f["id"] for f in fs if f["disc"]]
    slots = []
    for _ in range(rng.choice([1, 3])):
        n = name(rng, 0.05)
        if str(n) not in seen:
            seen.add(str(n))
            slots.append(n)
    slots.append(list(b"R"))
    s["slots"] = slots
    s["resps"] = [dict(wide=rng.random() < 0.3, res=write(rng, ["a", [tree(rng, rng.choice([0, 1, 2])) for _ in range(rng.choice([0, 1, 2, 4]))]]),
                       err=write(rng, ["s", rng.choice([[], [], [], list(b"failed"), name(rng, 0)])]), ms=rng.choice([0, 0, 1, 5])) for _ in range(7)]
    lanes = []
    for i in range(rng.choice([2, 6, 10])):
        lanes.append(dict(op="call", id=i, to=rng.choice(slots), m=list(b"M%d" % i) + rng.choice([[], [], name(rng, 0.02)]),
                          args=[goval(rng) for _ in range(rng.choice([0, 1, 2, 3, 6]))], wr=rng.random() < 0.7))
    reqs = []
    for i in range(rng.choice([0, 3, 6])):
        m = rng.choice([b"Echo", b"Two", b"Zero"])
        args = [tree(rng, rng.choice([0, 1, 2])) for _ in range({b"Echo": 1, b"Two": 2, b"Zero": 0}[m])]
        idx = num(rng.choice([i, i + 1000, (1 << 40) + i, -i - 1, (1 << 63) - 1 - i]))
        b = frame(rng, 7, [idx, ["s", rng.choice(fs)["id"]], st(m), ["a", args], ["b", rng.random() < 0.7]])
        reqs.append(dict(op="send", c=50, bytes=b, cut=cuts(rng, len(b))))
    s["ops"] = [dict(op="up"), dict(op="par", par=[[x] for x in lanes] + ([[dict(op="dialdock", c=50), dict(op="sleep", ms=20)] + reqs] if reqs else []))]
    return s


def hub(rng, net):
    s = base(rng, net, "hub")
    pool = []
    for _ in range(6):
        n = name(rng, 0.05)
        if n not in pool:
            pool.append(n)
    ops, nc = [], rng.choice([2, 3, 4])
    s["black"] = sorted(rng.sample(range(20001, 20010), rng.choice([0, 2])))
    if rng.random() < 0.5:
        s["blackto"] = str(rng.choice([20200, 20255, 20256, 25000, 32766, 32767, 32768, 40000]))
    mine = {}
    for c in range(1, nc + 1):
        ops.append(dict(op="dial", c=c, host=rng.choice(["", "", "127.0.0.2", "127.0.0.3"])))
        mine[c] = rng.sample(pool, rng.randrange(0, len(pool) + 1))
        extra = [["s", list(b"n%d" % i)] for i in range(rng.choice([0, 0, 300]))]
        r = ["a", [["s", x] for x in mine[c]] + extra]
        for b in (frame(rng, 3, [r]), frame(rng, 2, [r])):
            if b[5] == 2 and rng.random() < 0.2:
                continue
            ops.append(dict(op="send", c=c, bytes=b, cut=cuts(rng, len(b)) if len(b) < 5000 else []))
        for _ in range(rng.choice([0, 2, 4])):
            b = frame(rng, 5, [["s", rng.choice(pool)]])
            ops.append(dict(op="send", c=rng.randrange(1, c + 1), bytes=b, cut=cuts(rng, len(b)) if len(b) < 5000 else []))
    s["ops"] = ops
    return s


def scenarios(ctx):
    rng = ctx.rng
    k = ctx.n(1, 6)
    gen = ctx.generate_all("MCWire", "WireGen.cfg")
    rng.shuffle(gen)
    msgs = [(g["id"], g["f"]) for g in gen[:ctx.n(500, len(gen))]]
    msgs += [message(rng) for _ in range(ctx.n(250, 2500))]
    rng.shuffle(msgs)
    e = [(net, ser, msgs[i:i + 25]) for i in range(0, len(msgs), 25) for net in [rng.choice(["tcp", "tcp", "mock"])] for ser in [rng.choice(["seek", "ferry"])]]
    return e, [dock(rng, "mock") for _ in range(14 * k)], [dock(rng, "tcp") for _ in range(4 * k)], [hub(rng, "tcp") for _ in range(8 * k)]


def again(ctx):
    def f(r):
        s = ctx.ports.rebase(r["scn"]) if r["scn"]["net"] == "tcp" else dict(r["scn"])
        if not s["virtual"]:
            s["quiet"] = 5000
        return ctx.run_one(s, r["which"], 150)
    return f


def make(r):
    return dict(mode=r["scn"]["mode"], disc=r["scn"]["disc"])


def run(ctx):
    ctx.build()
    mc = threading.Thread(target=lambda: guarded(ctx, lambda: ctx.model_check("MCWire", "MCWire.cfg", workers=3, timeout=800)))
    mc.start()
    # do sockets with the serializers of hubs and docks go by these names here?
    probe = [echo(ctx.rng, "tcp", s, [(1, [])]) for s in ("seek", "ferry")]
    usable = [s for s, r in zip(("seek", "ferry"), ctx.run(probe, "plain")) if r["status"] == "ok"]
    e, dm, dt, ht = scenarios(ctx)
    if usable:
        es = [echo(ctx.rng, net, ser if ser in usable else usable[0], m) for net, ser, m in e]
        quick = ctx.quick()
        es.append(echo_long(ctx.rng, "tcp", ctx.rng.choice(usable), [1200000, (1 << 24) + 5000] if quick else [1 << 20, (1 << 24) - 200, (1 << 24) + 5000, (1 << 25) + 3]))
        es.append(echo_long(ctx.rng, "mock", ctx.rng.choice(usable), [400000, (1 << 20) + 9] if quick else [400000, (1 << 20) + 9, 3000000, (1 << 24) + 77]))
    else:
        es = []
        ctx.note("no socket could be made with the serializer of hubs or docks: only whole hubs and docks were observed")
    tcp = [s for s in es if s["net"] == "tcp"] + dt + ht
    rt = ctx.run(tcp, "plain")
    rm = ctx.run([s for s in es if s["net"] == "mock"] + dm, "vy")
    ctx.judge("WireTrace", rm, make, chunk=6, confirm=again(ctx))
    ctx.judge("WireTrace", rt, make, chunk=6, confirm=again(ctx))
    mc.join()
    if ctx.errors:
        raise ctx.errors[0]
    return ctx.finish(assumptions=ASSUME)
