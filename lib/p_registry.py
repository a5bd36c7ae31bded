"""G02: registered makers and visits; judged by RegistryTrace."""
import threading
from p_hub import guarded, vy

ASSUME = ["makers aren't registered while features are visited", "makers return something, and don't visit features themselves"]
NAMES = ["F", "f", "F ", "", "FF", "\u00fc", "\U0001f600", "a.b", "IGame", "IGam", "IGames", "nil", "\x00", "F\x00", "carrieda", "x" * 300]


def scn(rng, ops, names, dock):
    s = dict(kind="registry", net="mock" if dock != "tcp" else "tcp", virtual=True, seed=1, names=names, slots=[rng.random() < 0.5 for _ in range(4)],
             dock="127.0.0.1:27000" if dock == "mock" else "", ops=ops, quiet=0)
    s["vy"] = vy(rng)
    return s


def storm(rng, real):
    """Many visits at once, in rounds."""
    names = rng.sample(NAMES, 8)
    ops, c = [], 0
    for i in range(rng.choice([2, 4])):
        for n in rng.sample(range(1, 9), rng.choice([1, 3, 6])):
            ops.append(["register", n, c % 50 + 1])
            c += 1
        ops.append(["storm", rng.sample([1, 2, 3, 4], rng.choice([1, 2, 4])), rng.sample(range(1, 9), rng.choice([1, 4, 8])), rng.choice([2, 3, 8]) if not real else 16, i + 1])
    return ops, names


def many(rng, dock):
    """Many names, each visited by a few slots, and again."""
    n = rng.choice([40, 70, 140, 300])
    names = NAMES + ["%s%d" % (rng.choice(["I", "i", "Game"]), i) for i in range(n)]
    order = list(range(1, len(names) + 1))
    rng.shuffle(order)
    ops = [["register", x, i % 50 + 1] for i, x in enumerate(order)]
    slots, v = rng.sample([1, 2, 3, 4], 2), 0
    for _ in range(2):
        rng.shuffle(order)
        for x in order:
            for s in slots:
                v += 1
                ops += [["visit", v, s, x], ["ret", v]]
    ops += [["register", x, 50] for x in order[:5]] + [["storm", slots, order[:20], 2, 1]]
    return scn(rng, ops, names, dock)


def run(ctx):
    ctx.build()
    rng = ctx.rng
    mc = threading.Thread(target=lambda: guarded(ctx, lambda: ctx.model_check("MCRegistry", "MCRegistryQ.cfg" if ctx.quick() else "MCRegistry.cfg", workers=3, timeout=800)))
    mc.start()
    vs, rs = [], []
    hs = ctx.generate("MCRegistry", ctx.n(60, 600), 80, cfg="RegistryGen.cfg")
    rng.shuffle(hs)
    for h in hs[:ctx.n(120, 2000)]:
        vs.append(scn(rng, h, rng.sample(NAMES, 4), rng.choice(["", "", "mock"])))
    for _ in range(ctx.n(40, 400)):
        ops, names = storm(rng, False)
        vs.append(scn(rng, ops, names, rng.choice(["", "mock"])))
    vs += [many(rng, d) for d in ["", "mock"] * ctx.n(1, 6)]
    for _ in range(ctx.n(24, 200)):
        ops, names = storm(rng, True)
        s = scn(rng, ops, names, "")
        s.update(virtual=False, net="tcp")
        rs.append(s)
    done = ctx.run(vs, "vy") + ctx.run(rs, "plain")
    ctx.judge("RegistryTrace", done, lambda r: {}, chunk=12)
    mc.join()
    if ctx.errors:
        raise ctx.errors[0]
    return ctx.finish(assumptions=ASSUME)
