"""K01-K04: values, their encodings, and typed access; judged by CodecTrace."""
import struct, threading
from p_hub import guarded

ASSUME = ["map keys are nil, booleans, numbers or strings, and differ as numbers", "values are recorded by an independent reader of Go values"]
MODES = ["", "", "one", "half", "eof", "buf"]
SIGNED = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "i": 64, "ni": 32}
UNSIGNED = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u": 64, "nu": 16}
SCALARS = ["b", "s", "f32", "f64", "ns", "nb", "nf"] + list(SIGNED) + list(UNSIGNED)


def signed(rng, bits):
    k = rng.random()
    if k < 0.5:
        e = rng.choice([0, 1, 7, 8, 15, 16, 31, 32, 62, 63])
        n = rng.choice([1, -1]) * (1 << e) + rng.choice([-2, -1, 0, 1])
    elif k < 0.7:
        n = rng.choice([0, 1, -1, 100, -100])
    else:
        n = rng.getrandbits(rng.choice([6, 8, 14, 20, 31, 40, 63])) * rng.choice([1, -1])
    lo, hi = -(1 << bits - 1), (1 << bits - 1) - 1
    return max(lo, min(hi, n))


def unsigned(rng, bits):
    k = rng.random()
    if k < 0.6:
        e = rng.choice([0, 7, 8, 15, 16, 31, 32, 63, 64])
        n = (1 << e) + rng.choice([-2, -1, 0, 1])
    else:
        n = rng.getrandbits(rng.choice([1, 6, 8, 14, 20, 31, 40, 64]))
    return max(0, min((1 << bits) - 1, n))


F64 = [0, 1 << 63, 1, 255, 256, 65535, 65536, 1 << 32, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000001, 0x3ff0000000000000,
       0xbff8000000000000, 0x3fb999999999999a, 0x7fefffffffffffff, 0x0010000000000000, 0x47efffffe0000000, 0x47efffffe0000001, 0x36a0000000000000,
       0x4170000010000000, 0x41dfffffffc00000, 0xc340000000000001, 0x43dfffffffffffff, 0x4330000000000001, 0x7e37e43c8800759c, 0x4008000000000000]
F32 = [0, 1 << 31, 1, 255, 256, 65535, 65536, 0x7f800000, 0xff800000, 0x7fc00000, 0x3f800000, 0xbfc00000, 0x3dcccccd, 0x7f7fffff, 0x00800000]


def text(rng):
    return rng.choice([[], [0], list(b"abc"), list("äß中😀".encode()), [255, 254], [rng.randrange(256) for _ in range(rng.choice([1, 10, 255, 256, 300]))]])


def value(rng, t, depth, keys=False):
    """The value of a type, for the driver."""
    if t == "any":
        k = rng.random()
        if k < 0.12:
            return dict(t="nil")
        tt = gtype(rng, depth - 1) if depth > 0 and k < 0.5 else rng.choice(SCALARS)
        return dict(t=tt, v=value(rng, tt, depth - 1))
    if isinstance(t, str):
        if t in ("b", "nb"):
            return rng.random() < 0.5
        if t in ("s", "ns"):
            return text(rng)
        if t in SIGNED:
            return str(signed(rng, SIGNED[t]))
        if t in UNSIGNED:
            return str(unsigned(rng, UNSIGNED[t]))
        if t == "f32":
            return "%08x" % rng.choice(F32 + [rng.getrandbits(32)])
        if t in ("f64", "nf"):
            whole = struct.unpack(">Q", struct.pack(">d", float(signed(rng, 64))))[0]
            return "%016x" % rng.choice(F64 + [rng.getrandbits(64), whole, whole])
        if t == "nl":
            return [str(signed(rng, 16)) for _ in range(rng.choice([0, 1, 5]))]
        if t == "nm":
            return [[list(b"k%d" % i), str(unsigned(rng, 8))] for i in range(rng.choice([0, 1, 3]))]
    if t[0] == "[]":
        if rng.random() < 0.06:
            return None
        return [value(rng, t[1], depth - 1) for _ in range(rng.choice([0, 1, 2, 3, 3, 20]) if depth > 0 else rng.choice([0, 1, 3, 40]))]
    if t[0] == "[n]":
        return [value(rng, t[1], depth - 1) for _ in range(t[2])]
    if t[0] == "map":
        if rng.random() < 0.06:
            return None
        res, seen = [], set()
        for _ in range(rng.choice([0, 1, 2, 3, 5, 12])):
            k = value(rng, t[1], 0)
            i = ident(k["t"], k.get("v")) if t[1] == "any" else ident(t[1], k)
            if i is None or i in seen:
                continue
            seen.add(i)
            res.append([k, value(rng, t[2], depth - 1)])
        return res
    raise ValueError(t)


def ident(t, v):
    """What a map key is as a number; None for what can't be a key here."""
    if t == "nil":
        return "nil"
    if t in ("b", "nb"):
        return ("b", v)
    if t in ("s", "ns"):
        return ("s", bytes(v))
    if t in SIGNED:
        return ("i", int(v))
    if t in UNSIGNED:
        return ("u", int(v))
    if t in ("f32", "f64", "nf"):
        f = struct.unpack(">f", bytes.fromhex(v))[0] if t == "f32" else struct.unpack(">d", bytes.fromhex(v))[0]
        return None if f != f else ("f", f)
    return None


def gtype(rng, depth):
    k = rng.random()
    if depth <= 0 or k < 0.15:
        return rng.choice(SCALARS + ["nl", "nm"])
    e = lambda: "any" if rng.random() < 0.4 else gtype(rng, depth - 1)
    if k < 0.6:
        return ["[]", e()]
    if k < 0.7:
        return ["[n]", e(), rng.choice([0, 1, 2, 4])]
    return ["map", rng.choice(["s", "i", "u8", "i16", "any", "any", "b", "f64", "f32", "ns", "u64", "i64"]), e()]


def of_tree(rng, v):
    """A Go value that is value v of the specification."""
    k = v[0]
    if k == "n":
        return dict(t="nil")
    if k == "b":
        return dict(t=rng.choice(["b", "nb"]), v=v[1])
    if k == "s":
        return dict(t=rng.choice(["s", "s", "ns"]), v=v[1])
    if k == "i":
        n = int.from_bytes(bytes(v[2]), "big", signed=True)
        return dict(t=rng.choice([t for t, b in SIGNED.items() if -(1 << b - 1) <= n < 1 << b - 1]), v=str(n))
    if k == "u":
        n = int.from_bytes(bytes(v[2]), "big")
        return dict(t=rng.choice([t for t, b in UNSIGNED.items() if n < 1 << b]), v=str(n))
    if k == "f":
        return dict(t="f32", v=bytes(v[3]).hex()) if v[1] == 4 else dict(t="f64", v=bytes(v[2]).hex())
    if k == "a":
        l = [of_tree(rng, x) for x in v[1]]
        ts = {str(x["t"]) for x in l}
        if len(ts) == 1 and l[0]["t"] not in ("nil",) and isinstance(l[0]["t"], str) and rng.random() < 0.5:
            return dict(t=["[]", l[0]["t"]], v=[x["v"] for x in l])
        return dict(t=rng.choice([["[]", "any"], ["[n]", "any", len(l)]]), v=l)
    if k == "m":
        return dict(t=["map", "any", "any"], v=[[of_tree(rng, x), of_tree(rng, y)] for x, y in v[1]])
    raise ValueError(k)


def write(rng, v, depth=0):
    """Bytes that encode a value of the specification, with any widths that hold its numbers."""
    k = v[0]
    if k in "iu":
        n = int.from_bytes(bytes(v[2]), "big", signed=k == "i")
        for w in rng.sample([0, 1, 2, 3], 4):
            bits = 8 << w
            if (-(1 << bits - 1) <= n < 1 << bits - 1) if k == "i" else n < 1 << bits:
                return [(0xd0 if k == "i" else 0xcc) + w] + list(n.to_bytes(1 << w, "big", signed=k == "i"))
    if k == "f":
        b = v[3] if v[1] == 4 else v[2]
        return [0xca if v[1] == 4 else 0xcb] + write(rng, ["u", 8, [0] * (8 - len(b)) + list(b)])
    if k == "n":
        return [0xc0]
    if k == "b":
        return [0xc3 if v[1] else 0xc2]
    ln = lambda n: list(n.to_bytes(4, "big"))
    if k == "s":
        return [0xdb] + ln(len(v[1])) + list(v[1])
    if k == "a":
        return [0xdd] + ln(len(v[1])) + [b for x in v[1] for b in write(rng, x)]
    if k == "m":
        return [0xdf] + ln(len(v[1])) + [b for x, y in v[1] for b in write(rng, x) + write(rng, y)]
    raise ValueError(k)


def corrupt(rng, b):
    b = list(b)
    for _ in range(rng.choice([1, 1, 1, 2])):
        i = rng.randrange(len(b)) if b else 0
        k = rng.random()
        x = rng.choice([0, 1, 2, 127, 128, 255, 192, 193, 194, 195, 196, 202, 203, 204, 207, 208, 211, 217, 219, 220, 221, 222, 223, rng.randrange(256)])
        if k < 0.6 and b:
            b[i] = x
        elif k < 0.8 and b:
            del b[i]
        else:
            b.insert(i, x)
    return b


def case(rng, val, prop, size=0):
    """What is done with one value."""
    h = rng.choice(["x", "x", "y", "n%d" % rng.randrange(10 ** 6)])
    ops = [dict(op="enc", val=val)]
    if prop in ("K01", "K03") or rng.random() < 0.5:
        ops.append(dict(op="back", h=h, mode=rng.choice(MODES), bytes=rng.choice([[], [], [192], [0, 1, 2]])))
        if prop == "K04" or rng.random() < 0.3:
            ops.append(dict(op="gets", h=h))
        if rng.random() < 0.2:
            ops += [dict(op="again", h=h), dict(op="back", h=h, mode="")]
    if prop == "K02" or rng.random() < 0.1:
        ops.append(dict(op="cut", mode=rng.choice(MODES), **({"at": sorted(rng.sample(range(size), 20)) + [1, 2, 3, 4, 5, size - 1]} if size else {})))
    return ops


def read(rng, b, prop):
    h = rng.choice(["x", "x", "y", "n%d" % rng.randrange(10 ** 6)])
    ops = [dict(op="dec", h=h, bytes=b, mode=rng.choice(MODES))]
    if prop == "K04" or rng.random() < 0.1:
        ops.append(dict(op="gets", h=h))
    return ops


def edges(t):
    """The values of a type that are most likely to go wrong."""
    if t in SIGNED:
        b = SIGNED[t]
        return [str(n) for n in sorted({s * (1 << e) + d for e in (0, 5, 7, 8, 15, 16, 24, 31, 32, 40, 53, 63) for s in (1, -1) for d in (-2, -1, 0, 1)}) if -(1 << b - 1) <= n < 1 << b - 1]
    if t in UNSIGNED:
        b = UNSIGNED[t]
        return [str(n) for n in sorted({(1 << e) + d for e in (0, 5, 7, 8, 15, 16, 24, 31, 32, 40, 53, 63, 64) for d in (-2, -1, 0, 1)}) if 0 <= n < 1 << b]
    if t == "f32":
        return ["%08x" % x for x in F32]
    if t in ("f64", "nf"):
        return ["%016x" % x for x in F64]
    return [False, True] if t in ("b", "nb") else [[], [0], list(b"text"), [255] * 256]


def long_text(rng, n):
    c = rng.choice([0, 65, 255, 192])
    x = [1, 2, 3, 77, 90]
    return dict(fill=[[x[rng.randrange(5)] for _ in range(rng.choice([1, 3, 9]))], c, n, [x[rng.randrange(5)] for _ in range(rng.choice([0, 2, 7]))]])


def scenarios(ctx, prop):
    rng = ctx.rng
    ops = []
    gen = ctx.generate_all("MCCodec", "CodecGen.cfg")
    rng.shuffle(gen)
    gen = gen[:ctx.n(700, len(gen))]
    for g in gen:
        v = g["v"]
        if prop in ("K01", "K03", "K04") or rng.random() < 0.5:
            ops += case(rng, of_tree(rng, v), prop)
        if prop in ("K03", "K04"):
            ops += read(rng, write(rng, v), prop)
        if prop in ("K02", "K04", "K03"):
            for b in rng.sample(g["bad"], min(len(g["bad"]), ctx.n(3, 8) if prop == "K02" else 1)):
                ops += read(rng, b, prop)
    for _ in range(ctx.n(300, 2500)):
        t = "any" if rng.random() < 0.3 else gtype(rng, rng.choice([0, 1, 2, 3]))
        v = value(rng, t, 2)
        ops += case(rng, v if t == "any" else dict(t=t, v=v), prop)
        if prop == "K02":
            b = write(rng, rng.choice(gen)["v"])
            ops += read(rng, corrupt(rng, b), prop)
            ops += read(rng, corrupt(rng, [rng.choice([0xdd, 0xdf, 0xdb, 0xca, 0xcb])] + [rng.choice([0, 0, 255, 127])] + [0, 0, rng.choice([1, 2, 3])] + b), prop)
            ops += read(rng, [rng.choice([0xdd, 0xdf, 0xdb, 0xc0, 0xcc, 0xcf, 0xca, 0xcb, 0xd3] + [rng.randrange(256)]) if rng.random() < 0.5 else rng.randrange(256)
                              for _ in range(rng.choice([0, 1, 2, 4, 6, 9, 15, 30]))], prop)
        if prop == "K03":
            b = [x for _ in range(rng.choice([2, 3, 6])) for x in write(rng, rng.choice(gen)["v"])]
            if len(b) < 1000:
                ops.append(dict(op="stream", h="st", bytes=b, mode=rng.choice(MODES)))
    scalars = [(t, v) for t in SCALARS for v in edges(t)]
    if ctx.quick() and prop == "K02":
        scalars = rng.sample(scalars, 60)
    for t, v in scalars:
        ops += case(rng, dict(t=t, v=v), prop)
        if rng.random() < 0.2:      # within something
            ops += case(rng, rng.choice([dict(t=["[]", "any"], v=[dict(t=t, v=v)]), dict(t=["[]", t], v=[v, v]), dict(t=["map", "s", "any"], v=[[[97], dict(t=t, v=v)]]), dict(t=["map", "s", t], v=[[[97], v]])]), prop)
    if prop == "K02":
        for c in (0xdb, 0xdd, 0xdf):
            for n in ([255] * 4, [127, 255, 255, 255], [128, 0, 0, 0], [1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 2]):
                ops += read(rng, [c] + n + rng.choice([[], [192], [97] * 300]), prop)
    big = []
    for n in ([65535, 65536, 70000] if not ctx.quick() else [65536 + rng.randrange(500)]):
        big.append(dict(t="s", v=dict(rep=n)))
        big.append(dict(t=["[]", "any"], v=dict(rep=n, of=dict(t="nil"))))
        big.append(dict(t=["[]", "u8"], v=dict(rep=n // 200, of="200")))
        big.append(dict(t=["map", "u32", "any"], v=dict(keys=n if not ctx.quick() else 16640)))
        big.append(dict(t=["[]", "i32"], v=dict(rep=n // 5, of="-70000")))
    if not ctx.quick():
        big.append(dict(t="s", v=dict(rep=200000)))
    far = []
    for n in ([(1 << 24) + 5, 1 << 24, (1 << 20) + 9, 1 << 25] if not ctx.quick() else []) + [(3 << 23) + rng.getrandbits(22)]:
        far.append(dict(t="s", v=long_text(rng, n)))
    for n in ([(1 << 24) + 5, (1 << 20) + 9, 300000] if not ctx.quick() else []) + [(1 << 23) + rng.getrandbits(20) * 2 + 1]:
        far.append(dict(t=["[]", "any"], v=dict(rep=n, of=dict(t="nil"))))   # the last byte of n isn't that of nil
    n = rng.choice([1 << 19, (1 << 20) + 77, 3000000])
    far += [dict(t=["[]", "any"], v=[dict(t="u8", v="7"), dict(t="s", v=long_text(rng, n)), dict(t="b", v=True)]),
            dict(t=["map", "s", "any"], v=[[list(b"k"), dict(t="s", v=long_text(rng, n + 1))]])]
    if prop not in ("K01", "K02", "K03"):
        far = []
    scns, cur = [], []
    for o in ops:
        if len(cur) > 250 and o["op"] in ("enc", "dec", "stream"):
            scns.append(cur)
            cur = []
        cur.append(o)
    scns.append(cur)
    scns += [case(rng, v, prop, 16000) for v in big]
    for v in far:
        o = [dict(op="enc", val=v, long=True)]
        if prop != "K02":
            o.append(dict(op="backlong", mode=rng.choice(["", "half", "buf"]), bytes=rng.choice([[], [192], [0, 1, 2]])))
        else:
            o.append(dict(op="cutlong", mode=rng.choice(["", "half", "buf"]), at=[-1, rng.randrange(10, 100000), -rng.randrange(2, 100000)]))
        scns.append(o)
    return [dict(kind="codec", net="none", virtual=False, seed=1, ops=x) for x in scns]


def run(ctx):
    ctx.build(want=("plain",))
    mc = threading.Thread(target=lambda: guarded(ctx, lambda: ctx.model_check("MCCodec", "MCCodec.cfg", workers=2, timeout=800)))
    mc.start()
    done = ctx.run(scenarios(ctx, ctx.prop), "plain")
    ctx.judge("CodecTrace", done, lambda r: {}, chunk=4)
    mc.join()
    if ctx.errors:
        raise ctx.errors[0]
    return ctx.finish(assumptions=ASSUME)
