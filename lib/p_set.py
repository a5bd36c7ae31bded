"""M01: sets; judged by SetTrace."""
import threading
from p_hub import guarded

ASSUME = ["items are comparable and equal to themselves (no NaN)", "one routine at a time uses a set"]
TABLE = 54


def items(rng, n):
    """Numbers of the specification's items in the driver's table; nil is there twice."""
    k = rng.random()
    if k < 0.2:
        return list(range(1000, 1000 + n))
    if k < 0.4:
        return rng.sample(range(3, 19), n)    # ones of different types
    return rng.sample([i for i in range(TABLE) if i != 42], n)


def from_spec(rng, h, step, every):
    ops = [["new", 1]] + ([["new", 2]] if any(o[1] == 2 for o in h) else [])
    it = items(rng, 6)
    for i, (op, s, x) in enumerate(h):
        ops.append([op, s, it[x - 1]])
        if i % every == every - 1 or i == len(h) - 1:
            ops.append(["list", s])
    return ops


def large(rng, n):
    ops, xs = [["new", 1]], list(range(1000, 1000 + n))
    rng.shuffle(xs)
    ops += [["add", 1, x] for x in xs] + [["list", 1]]
    for _ in range(n // 2):
        ops.append([rng.choice(["add", "remove"]), 1, rng.choice(xs)])
    ops.append(["list", 1])
    rng.shuffle(xs)
    ops += [["remove", 1, x] for x in xs] + [["list", 1]]
    return ops


def run(ctx):
    ctx.build(["plain"])
    rng = ctx.rng
    mc = threading.Thread(target=lambda: guarded(ctx, lambda: ctx.model_check("MCSet", "MCSet.cfg", workers=3, timeout=800)))
    mc.start()
    hs = [from_spec(rng, h, 1, 1) for h in ctx.generate_all("MCSet", "SetGen.cfg")]
    hs += [from_spec(rng, h, 1, rng.choice([1, 3, 10])) for h in ctx.generate("MCSet", ctx.n(100, 1500), 62, cfg="SetSim.cfg")]
    hs += [from_spec(rng, [[rng.choice(["add", "add", "remove"]), rng.choice([1, 2]), rng.randrange(1, 7)] for _ in range(40)], 1, 1) for _ in range(ctx.n(60, 1000))]
    rng.shuffle(hs)
    scns = [dict(kind="set", net="tcp", virtual=False, seed=1, ops=[o for h in hs[i:i + 120] for o in h]) for i in range(0, len(hs), 120)]
    scns += [dict(kind="set", net="tcp", virtual=False, seed=1, ops=large(rng, n)) for n in [ctx.n(400, 1500), rng.randrange(1025, 1600)]]
    ctx.judge("SetTrace", ctx.run(scns, "plain"), lambda r: {}, chunk=2)
    mc.join()
    if ctx.errors:
        raise ctx.errors[0]
    return ctx.finish(assumptions=ASSUME)
