"""D01-D06, R04: a real dock, fake hub and docks; judged by DockTrace."""
import random, threading
from p_hub import guarded, vy

ASSUME = ["messages of one connection are handled in their order of arrival",
          "when nothing has moved for 2.6 s (virtual) or 0.8 s and, on doubt, 3 s (TCP) the dock has done all it is going to do",
          "methods that take less than half of their time limit are in time, those that take twice the limit are not"]

METHODS = ["Add", "Pair", "Note", "Many"]


def args(rng, cid, m, ms=0):
    i = ["i64", str(cid)]
    w = ["i64", str(ms)]
    if m == "Add":
        return [i, w, ["i64", str(rng.choice([0, 1, -1, 7, 250, -300, 70000, 1 << 40]))]]
    if m == "Pair":
        return [i, w, ["s", rng.choice(["", "x", "hello", "\u00e4\u4e2d", "a" * 40])]]
    if m == "Note":
        return [i, w]
    if m == "Many":
        return [i] + [["s", "%d-%d" % (cid, k)] for k in range(5)]
    raise KeyError(m)


def callop(rng, cid, d, f, to, m=None, ms=None, wr=None, wait=False):
    m = m or rng.choice(METHODS)
    ms = rng.choice([0, 0, 0, 1, 5]) if ms is None else ms
    if m == "Many":
        ms = 0
    return dict(op="call", d=d, f=f, to=to, m=m, id=cid, ms=ms, args=args(rng, cid, m, ms), wr=rng.random() < 0.7 if wr is None else wr, wait=wait)


def reqop(rng, e, n, cid, to, m=None, ms=None, wr=None, idx=None):
    m = m or rng.choice(METHODS)
    ms = rng.choice([0, 0, 0, 1, 5]) if ms is None else ms
    if m == "Many":
        ms = 0
    return dict(op="freq", e=e, n=n, id=cid, to=to, m=m, ms=ms, args=args(rng, cid, m, ms), wr=rng.random() < 0.7 if wr is None else wr,
                idx=str(idx if idx is not None else rng.choice([cid, cid + 1000, cid * 7 + 3, (1 << 40) + cid])))


def badreq(rng, op, limit=1000):
    """Makes a call or request that has to fail."""
    k = rng.randrange(5)
    i = op["args"][0]
    op["ms"] = 0
    if k == 0:
        op["m"] = rng.choice(["Nope", "add", "", "Ad", "exec", "Add ", " Note", "Many\t", "Pair\u0000", "ADD", "Note" * 80, "OnStart", "OnDestroy", "Add.Add"])
    elif k == 1:
        op["m"], op["args"] = "Add", [i, ["i64", "0"]]
    elif k == 2:
        op["m"], op["args"] = "Add", [i, ["i64", "0"], ["i64", "1"], ["i64", "2"]]
    elif k == 3:
        op["m"], op["args"] = "Add", [i, ["i64", "0"], ["s", "7"]]
    else:
        ms = limit * 2
        op["m"], op["args"], op["ms"] = "Note", [i, ["i64", str(ms)]], ms
    return op


def feat(fid, disc, **kw):
    return dict(id=fid, disc=disc, **kw)


def end(e, slots, reg=True, ready=True, resp=True, late=False, **kw):
    return dict(e=e, addr="127.0.0.1:@%d" % (10 + e), slots=slots, reg=reg, ready=ready, resp=resp, late=late, **kw)


def scn(rng, net, feats, ends, steps, assign=(), auto=None, delay=0, dialin=(), probe=False, quiet=None, which=None):
    s = dict(kind="sys", net=net, virtual=net == "mock", seed=rng.randrange(1 << 30), docks=[dict(name="dock", feats=feats)], ends=ends, probe=probe, steps=steps)
    if net == "mock":
        s.update(base=27000, vy=vy(rng), quiet=quiet or 2600)
    elif quiet:
        s["quiet"] = quiet
    if which == "vytcp":
        s["vy"] = dict(mode=rng.choice([1, 3, 4, 4]), seed=rng.randrange(1 << 40), scale=rng.choice([20000, 100000]), every=1)
    s["hubcfg"] = dict(real=False, listen="127.0.0.1:@0", at="127.0.0.1:@0", assign=list(assign), auto=auto or {}, delay=delay, dialin=list(dialin))
    if net == "mock":
        import core
        core.subst(s, s["base"])
    return s


# ------------------------------------------------------------------ behaviours of the specification
def from_spec(rng, hist, net):
    feats = [feat("L", True), feat("P", False)]
    ends = [end(e, ["R", "S"], reg=False, ready=False, resp=False) for e in (1, 2)]
    steps, group, n = [dict(op="start", d="dock"), dict(op="settle")], {}, 0

    def flush(settle):
        nonlocal group, n
        if group:
            steps.extend(next(iter(group.values())) if len(group) == 1 else [dict(op="par", par=list(group.values()))])
            if settle:
                steps.append(dict(op="settle"))
        group, n = {}, 0
    settle = net == "mock" or rng.random() < 0.4
    for o in hist:
        k = o["op"]
        if o["idle"] or n >= 5:
            flush(settle)
        if k == "assign":
            op, key = dict(op="assign", port="@5"), "hub"
        elif k == "answer":
            op, key = dict(op="answer", s=[o["s"]], e=o["e"]), "hub"
        elif k in ("freg", "fready"):
            op, key = dict(op=k, e=o["e"], n=o["n"], s=["R", "S"]), ("l", o["e"], o["n"])
        elif k == "fclose":
            op, key = dict(op=k, e=o["e"], n=o["n"]), ("l", o["e"], o["n"])
        elif k == "freq":
            op, key = reqop(rng, o["e"], o["n"], o["id"], o["to"]), ("l", o["e"], o["n"])
        elif k == "fresp":
            op, key = dict(op="fresp", id=o["id"], err="no" if rng.random() < 0.2 else ""), ("r", o["id"])
        elif k in ("dialin", "unlisten"):
            op, key = dict(op=k, e=o["e"]), ("d", o["e"])
        elif k == "call":
            op, key = callop(rng, o["id"], "dock", rng.choice(["L", "P"]), o["to"]), ("c", o["id"])
        if rng.random() < 0.3:
            op = [dict(op="sleep", ms=rng.choice([0, 1, 1, 2])), op]
        else:
            op = [op]
        group.setdefault(key, []).extend(op)
        n += 1
    flush(True)
    return feats, ends, steps


# ------------------------------------------------------------------ random environments
NAMES = ["A", "Bb", "Feature", "x.y", "Z9", "\u00fc"]


def feats_of(rng, n=None, sleepy=False):
    n = n or rng.choice([1, 2, 3, 5])
    res = []
    for f in rng.sample(NAMES, n):
        kw = {}
        if sleepy and rng.random() < 0.5:
            kw["startms"] = rng.choice([1, 5, 30])
        res.append(feat(f, rng.random() < 0.6, **kw))
    return res


def startup(rng, net, which=None):
    """D01, D03: what happens around the start of a dock."""
    feats = feats_of(rng, sleepy=True)
    steps = [dict(op="start", d="dock")]
    assign = ["@5"]
    delay = rng.choice([0, 0, 1, 20])
    if rng.random() < 0.4:
        assign, steps = [], steps + [dict(op="settle"), dict(op="sleep", ms=rng.choice([0, 3])), dict(op="assign", port="@5")]
    ends = [end(1, ["R"]), end(2, ["S"], late=True)]
    steps += [dict(op="settle")]
    for i in range(rng.choice([0, 2])):
        steps.append(dict(op="dialin", e=1))
    steps += [callop(rng, 1, "dock", feats[0]["id"], rng.choice([f["id"] for f in feats])), dict(op="settle")]
    k = rng.randrange(4)
    if k:
        steps += [dict(op="close")] + [dict(op="close")] * rng.choice([0, 1]) + [dict(op="settle")]
        if k == 3:
            steps += [dict(op="par", par=[[dict(op="close")], [dict(op="close")]]), dict(op="settle")]
    return scn(rng, net, feats, ends, steps, assign=assign, delay=delay, dialin=rng.choice([[], [2], [1, 2, 1]]), probe=net == "tcp", which=which,
               auto={"R": [1], "S": [2]})


def early_close(rng, net):
    """D03: closing at any moment of the start."""
    feats = feats_of(rng)
    steps = [dict(op="start", d="dock"), dict(op="up", d="dock")] + ([dict(op="sleep", ms=rng.choice([0, 1, 2]))] if rng.random() < 0.5 else [])
    steps += [callop(rng, i + 1, "dock", feats[0]["id"], rng.choice([feats[0]["id"], "R"]), ms=rng.choice([0, 3])) for i in range(rng.choice([0, 1, 3]))]
    steps += [dict(op="close"), dict(op="settle")]
    return scn(rng, net, feats, [end(1, ["R"])], steps, assign=["@5"], auto={"R": [1]})


def traffic(rng, net, bad=0.0, close=0.0, dead=0.0, ncalls=None, nreqs=None, limit=None, which=None):
    """Calls out, requests in, connections both ways, at random times."""
    feats = feats_of(rng, rng.choice([1, 2, 3]))
    ids = [f["id"] for f in feats]
    lim = limit or 1000
    if limit:
        for f in feats:
            f["limits"] = {"Note": limit / 1000.0}
    remote = remotes(rng, ids)[:rng.choice([1, 2, 4])]
    ne = rng.choice([1, 2, 3])
    ends, auto = [], {}
    for e in range(1, ne + 1):
        slots = remote if e == 1 else sorted(rng.sample(remote, rng.randrange(1, len(remote) + 1)))
        if rng.random() < 0.3:      # other docks may carry what this one carries, too
            slots = slots + rng.sample(ids, 1)
        ends.append(end(e, slots, regms=rng.choice([0, 0, 1, 4]), readyms=rng.choice([0, 0, 1, 4]), respms=rng.choice([[0], [0, 3, 1], [5, 0, 0, 2]])))
    for s in remote:
        auto[s] = [x["e"] for x in ends if s in x["slots"]]
        rng.shuffle(auto[s])
    ends.append(end(8, ["W"] + (ids if rng.random() < 0.3 else []), late=True))            # connects only to us
    if rng.random() < dead:
        ends.append(end(9, remote, late=True))       # can't be reached
        for s in remote:
            if rng.random() < 0.7:
                auto[s].insert(rng.randrange(len(auto[s]) + 1), 9)
    decoy = end(7, remote)
    ends.append(decoy)
    local_only = rng.random() < 0.15
    cid = 0
    lanes = []
    for _ in range(ncalls if ncalls is not None else rng.choice([2, 5, 9])):
        cid += 1
        to = rng.choice(ids) if local_only or rng.random() < 0.3 else rng.choice(remote)
        op = callop(rng, cid, "dock", rng.choice(ids), to)
        if rng.random() < bad and to in ids:
            op = badreq(rng, op, lim)
        lanes.append([dict(op="sleep", ms=rng.choice([0, 0, 1, 2, 8]))] * (rng.random() < 0.5) + [op])
    rid = 100
    lin = rng.choice([0, 1, 2]) if nreqs is None else max(1, rng.choice([1, 2]))
    who = [8, 8] if lin == 2 and rng.random() < 0.5 else [8, 7]
    for j in range(lin):
        e = who[j]
        n = sum(1 for x in who[:j] if x == e)
        lane = [dict(op="dialin", e=e)]
        for _ in range(nreqs if nreqs is not None else rng.choice([0, 2, 4])):
            rid += 1
            op = reqop(rng, e, n, rid, rng.choice(ids), idx=rng.choice([None, rid, rid % 3 + 1000 * rid]))
            if rng.random() < bad:
                op = badreq(rng, op, lim)
            if rng.random() < 0.3:
                lane.append(dict(op="sleep", ms=rng.choice([0, 1, 3])))
            lane.append(op)
        if rng.random() < 0.3:
            lane.insert(rng.randrange(1, len(lane) + 1), dict(op="freg", e=e, n=n, s=["W", "more"]))
        if rng.random() < close / 2:
            lane.append(dict(op="fclose", e=e, n=n))
        lanes.append(lane)
    if rng.random() < close:
        for _ in range(rng.choice([1, 1, 2])):
            lanes.append([dict(op="sleep", ms=rng.choice([0, 1, 2, 4, 8, 12])), dict(op="fclose", e=rng.randrange(1, ne + 1), n=0)])
    rng.shuffle(lanes)
    steps = [dict(op="start", d="dock"), dict(op="up", d="dock"), dict(op="par", par=lanes), dict(op="settle")]
    # once more, when it's all over
    if rng.random() < close:
        steps += [dict(op="fclose", e=rng.randrange(1, ne + 1), n=rng.choice([0, 0, 1])), dict(op="settle")]
    for s in rng.sample(remote, min(2, len(remote))) + [rng.choice(ids)]:
        cid += 1
        steps += [callop(rng, cid, "dock", rng.choice(ids), s)]
    steps += [dict(op="settle")]
    quiet = 2600 if net == "mock" else (max(1500, 3 * lim) if bad else None)
    return scn(rng, net, feats, ends, steps, assign=["@5"], auto=auto, delay=rng.choice([0, 0, 1, 5]), quiet=quiet, which=which)


def remotes(rng, ids):
    """Names of features of other docks, maybe much like those of our own."""
    if rng.random() < 0.6:
        return ["R", "S", "T", "u.V"]
    ns = []
    for f in ids:
        ns += [f + "2", f.swapcase(), "x" + f, f + " ", f * 2, f[:-1] + "_", f + "." + f]
    ns = sorted({n for n in ns if n and n not in ids and n not in NAMES and n not in ("W", "more")})
    rng.shuffle(ns)
    return ns[:3] + ["R"]


def lost_in_handshake(rng, net):
    """A connection that calls wait for closes before the other side has said all it has to."""
    feats = feats_of(rng, 1)
    f = feats[0]["id"]
    stage = rng.choice(["none", "none", "reg", "regready"])
    ends = [end(1, ["R"], reg=stage != "none", ready=stage == "regready", resp=False), end(2, ["R", "S"], respms=[0, 2])]
    n = rng.choice([1, 1, 2, 6])
    calls = [callop(rng, i + 1, "dock", f, "R", ms=0) for i in range(n)]
    # all answers name the first dock as long as it's there
    steps = [dict(op="start", d="dock"), dict(op="up", d="dock")] + ([dict(op="par", par=[[c] for c in calls])] if rng.random() < 0.5 else calls)
    if rng.random() < 0.5:
        steps.append(dict(op="settle"))
    closes = [[dict(op="sleep", ms=rng.choice([0, 0, 1, 7])), dict(op="fclose", e=1, n=k)] for k in range(n)]
    steps += [dict(op="par", par=closes), dict(op="settle"), callop(rng, 90, "dock", f, "R", ms=0), dict(op="settle")]
    auto = {"R": [1] * n + [2]}
    if rng.random() < 0.4:
        auto, steps = {"R": [2]}, steps[:2]
        # the hub's answers are given one by one
        steps += calls[:1] + [dict(op="settle")]
        auto = {}
        steps += [dict(op="answer", s=["R"], e=1), dict(op="settle"), dict(op="fclose", e=1, n=0), dict(op="settle"),
                  dict(op="answer", s=["R"], e=2), dict(op="settle")]
    return scn(rng, net, feats, ends, steps, assign=["@5"], auto=auto)


def lost_calls(rng, net):
    """Calls are outstanding when a connection closes; others have nothing to do with it; the hub names another dock afterwards."""
    feats = feats_of(rng, rng.choice([1, 2]))
    ids = [f["id"] for f in feats]
    again = rng.random() < 0.5
    ends = [end(1, ["R", "Q"], resp=False), end(2, ["S"], respms=[rng.choice([0, 5, 40])]), end(3, ["R", "Q"], resp=not again or rng.random() < 0.5)]
    n = rng.choice([1, 3, 8])
    lanes = [[callop(rng, i + 1, "dock", rng.choice(ids), rng.choice(["R", "R", "Q"]), ms=0)] for i in range(n)]
    lanes += [[callop(rng, 50 + i, "dock", rng.choice(ids), "S", ms=0)] for i in range(rng.choice([0, 2, 5]))]
    steps = [dict(op="start", d="dock"), dict(op="up", d="dock"), callop(rng, 30, "dock", ids[0], "R", ms=0), dict(op="settle"),
             dict(op="par", par=lanes)] + ([dict(op="settle")] if rng.random() < 0.5 else [])
    # each of these connections may be the one that is used
    for k in range(rng.choice([1, n + 1])):
        steps.append(dict(op="par", par=[[dict(op="fclose", e=1, n=k)], [callop(rng, 60 + k, "dock", rng.choice(ids), "S", ms=0)]]))
    steps += [dict(op="settle")]
    for k in range(3):
        steps += [callop(rng, 80 + k, "dock", rng.choice(ids), rng.choice(["R", "Q"]), ms=0), dict(op="settle")]
    if again:
        steps += [dict(op="fclose", e=3, n=0), dict(op="settle"), callop(rng, 95, "dock", ids[0], "R", ms=0), dict(op="settle")]
    return scn(rng, net, feats, ends, steps, assign=["@5"], auto={"R": [1] * rng.choice([1, n]) + [3] * 20, "Q": [1] + [3] * 20, "S": [2]})


def long_wait(rng, net, n, others=0):
    """Some calls wait for their responses while very many others come and go."""
    feats = feats_of(rng, 1)
    f = feats[0]["id"]
    ends = [end(1, ["R"], resp=False), end(2, ["S"])]
    steps = [dict(op="start", d="dock"), dict(op="up", d="dock"), callop(rng, 1, "dock", f, "R", m="Add", ms=0, wr=True), dict(op="settle")]
    waiting = [1]
    for i in range(2, n + 2):
        if others and i in (n // 3, 2 * n // 3):
            steps += [dict(op="settle"), dict(op="others", d="dock", f=f, to="S", n=others), dict(op="settle")]
        if rng.random() < 0.3:
            waiting.append(i)
            steps.append(callop(rng, i, "dock", f, "R", m="Add", ms=0, wr=True))
        else:
            steps.append(dict(callop(rng, i, "dock", f, rng.choice(["S"] * 9 + [f]), m=rng.choice(["Add", "Note"]), ms=0, wr=True), wait=True))
    rng.shuffle(waiting)
    steps += [dict(op="settle")] + [dict(op="fresp", id=i, err="") for i in waiting] + [dict(op="settle")]
    return scn(rng, net, feats, ends, steps, assign=["@5"], auto={"R": [1], "S": [2]})


def flash(rng, net):
    """D06: connections that close right after the registration on them, in both directions."""
    feats = feats_of(rng, 1)
    f = feats[0]["id"]
    ends = [end(1, ["R"], reg=False, ready=False, resp=False), end(2, ["R", "S", "W"], respms=[0, 1]), end(3, ["W"], reg=False, ready=False, late=True)]
    steps = [dict(op="start", d="dock"), dict(op="up", d="dock")]
    n = rng.choice([1, 2, 3])
    for k in range(n):
        lane = [dict(op="dialin", e=3), dict(op="freg", e=3, n=k, s=["W", "R"])] + [dict(op="fready", e=3, n=k, s=["W", "R"])] * rng.choice([0, 1])
        lane += [dict(op="sleep", ms=rng.choice([0, 1]))] * rng.choice([0, 0, 1]) + [dict(op="fclose", e=3, n=k)]
        steps += lane + ([dict(op="settle")] if rng.random() < 0.5 else [])
    if rng.random() < 0.6:
        steps += [callop(rng, 1, "dock", f, "R", ms=0), dict(op="freg", e=1, n=0, s=["R"]), dict(op="fclose", e=1, n=0)]
    steps += [dict(op="settle"), callop(rng, 90, "dock", f, "W", ms=0), callop(rng, 91, "dock", f, "R", ms=0), dict(op="settle")]
    return scn(rng, net, feats, ends, steps, assign=["@5"], auto={"R": [1] + [2] * 20, "W": [2], "S": [2]} if rng.random() < 0.7 else {"R": [2], "W": [2]})


def handshakes(rng, net):
    """D05: many connections, registrations in any order and number."""
    feats = feats_of(rng, rng.choice([1, 3]))
    ends = [end(e, ["R%d" % e], reg=True, ready=rng.random() < 0.7, regms=rng.choice([0, 0, 3])) if rng.random() < 0.6 else
            end(e, ["R%d" % e], reg=False, ready=False) for e in (1, 2, 3)]
    ends.append(end(4, []))         # provides nothing
    ins = [rng.choice([1, 2, 3, 4]) for _ in range(rng.choice([1, 3, 5]))]
    lanes = [[dict(op="dialin", e=e)] for e in ins]
    lanes += [[callop(rng, e, "dock", feats[0]["id"], "R%d" % e)] for e in (1, 2, 3) if rng.random() < 0.6]
    for e in (1, 2, 3):
        for n in range(ins.count(e)):
            for _ in range(rng.choice([0, 1, 1, 3])):
                lanes.append([dict(op="sleep", ms=rng.choice([0, 1, 2])), dict(op="freg", e=e, n=n, s=rng.choice([[], ["R%d" % e], ["R%d" % e, "Q"], ["R%d" % e, "Q", "W"]])),
                              ] + [dict(op="fready", e=e, n=n, s=["R%d" % e])] * rng.choice([0, 1]))
    rng.shuffle(lanes)
    steps = [dict(op="start", d="dock"), dict(op="up", d="dock"), dict(op="par", par=lanes), dict(op="settle")]
    return scn(rng, net, feats, ends, steps, assign=["@5"], auto={"R%d" % e: [e] for e in (1, 2, 3)})


def local_only(rng, net):
    """D04: nothing but calls inside the dock."""
    feats = feats_of(rng, rng.choice([2, 3, 5]))
    ids = [f["id"] for f in feats]
    calls = [callop(rng, i + 1, "dock", rng.choice(ids), rng.choice(ids)) for i in range(12)]
    for f in feats[1:]:
        if rng.random() < 0.4:
            f["onstart"] = [callop(rng, 50 + ids.index(f["id"]), "dock", f["id"], feats[0]["id"])]
    steps = [dict(op="start", d="dock"), dict(op="up", d="dock"), dict(op="par", par=[[c] for c in calls[:8]])] + calls[8:] + [dict(op="settle")]
    return scn(rng, net, feats, [end(1, ids), end(2, ["R"])], steps, assign=["@5"], auto={i: [1] for i in ids}, dialin=rng.choice([[], [1]]))


def many_waiting(rng, net, n=40):
    """R03: very many calls wait for the same feature."""
    feats = feats_of(rng, 1)
    calls = [callop(rng, i + 1, "dock", feats[0]["id"], rng.choice(["R", "R", "S"]), m="Add", ms=0) for i in range(n)]
    late = rng.random() < 0.5
    steps = [dict(op="start", d="dock"), dict(op="up", d="dock")] + calls + ([dict(op="settle")] if late else [])
    if late:
        steps += [dict(op="answer", s=["R"], e=1), dict(op="answer", s=["S"], e=2)]
        steps += [dict(op="settle")] + sum([[dict(op="answer", s=[s], e=e)] for s, e in [("R", 1), ("S", 2)]], [])
    steps += [dict(op="settle")]
    return scn(rng, net, feats, [end(1, ["R"], respms=[0, 2, 1]), end(2, ["S"])], steps, assign=["@5"], auto={} if late else {"R": [1], "S": [2]})


def scenarios(ctx, prop):
    rng = ctx.rng
    v, t, tv = [], [], []
    k = ctx.n(1, 6)
    hs = ctx.generate("DockGen", 20 * k, 200)
    rng.shuffle(hs)
    for h in hs[:10 * k]:
        v.append(scn(rng, "mock", *from_spec(rng, h, "mock")))
    for h in hs[10 * k:13 * k]:
        t.append(scn(rng, "tcp", *from_spec(rng, h, "tcp")))
    if prop in ("D01", "D03"):
        for _ in range(14 * k):
            v.append(startup(rng, "mock"))
        for _ in range(4 * k):
            t.append(startup(rng, "tcp"))
        for _ in range((20 if prop == "D01" else 10) * k):
            tv.append(startup(rng, "tcp", "vytcp"))
    if prop == "D03":
        for _ in range(8 * k):
            v.append(early_close(rng, "mock"))
        for _ in range(4 * k):
            t.append(early_close(rng, "tcp"))
    if prop in ("D02", "D04", "D05"):
        for _ in range(10 * k):
            v.append(traffic(rng, "mock"))
        for _ in range(4 * k):
            t.append(traffic(rng, "tcp"))
    if prop in ("D02", "D04"):
        for _ in range(6 * k):
            v.append(local_only(rng, "mock"))
        for _ in range(4 * k):
            t.append(local_only(rng, "tcp"))
    if prop == "D05":
        for _ in range(14 * k):
            v.append(handshakes(rng, "mock"))
        for _ in range(5 * k):
            t.append(handshakes(rng, "tcp"))
    if prop == "D06":
        for _ in range(24 * k):
            v.append(traffic(rng, "mock", close=0.9, dead=0.3))
        for _ in range(8 * k):
            t.append(traffic(rng, "tcp", close=0.9, dead=0.3))
        for _ in range(6 * k):
            v.append(lost_in_handshake(rng, "mock"))
            v.append(lost_calls(rng, "mock"))
        for _ in range(10 * k):
            v.append(flash(rng, "mock"))
        for _ in range(2 * k):
            t.append(flash(rng, "tcp"))
            t.append(lost_in_handshake(rng, "tcp"))
            t.append(lost_calls(rng, "tcp"))
    if prop == "R04":
        for _ in range(20 * k):
            v.append(traffic(rng, "mock", bad=0.4, close=0.2, ncalls=rng.choice([0, 3]), nreqs=rng.choice([3, 6]), limit=rng.choice([None, 40, 300])))
        for _ in range(8 * k):
            t.append(traffic(rng, "tcp", bad=0.4, close=0.2, ncalls=2, nreqs=4, limit=rng.choice([None, 200])))
    if prop in ("R01", "R02", "R03"):
        for _ in range(10 * k):
            v.append(traffic(rng, "mock", close=0.2 if prop == "R03" else 0.4, dead=0.2, ncalls=rng.choice([5, 9, 14])))
        for _ in range(3 * k):
            t.append(traffic(rng, "tcp", close=0.3, dead=0.2, ncalls=rng.choice([5, 9, 14])))
    if prop in ("R01", "R02", "R03"):
        for _ in range(4 * k):
            v.append(lost_calls(rng, "mock"))
            v.append(lost_in_handshake(rng, "mock"))
        t.append(lost_calls(rng, "tcp"))
        t.append(lost_in_handshake(rng, "tcp"))
        t.append(long_wait(rng, "tcp", ctx.n(420, 1300)))
        t.append(long_wait(rng, "tcp", 60, 33000))
    if prop == "R03":
        for _ in range(6 * k):
            v.append(many_waiting(rng, "mock"))
        for _ in range(2 * k):
            t.append(many_waiting(rng, "tcp", 100))
    return v, t, tv


def make(r):
    d = r["scn"]["docks"][0]
    lim = [[f["id"], m, int(round(x * 1000))] for f in d["feats"] for m, x in (f.get("limits") or {}).items()]
    return dict(carried=[[f["id"], f["disc"]] for f in d["feats"]], limits=lim)


def again(ctx):
    def f(r):
        s = ctx.ports.rebase(r["scn"]) if r["scn"]["net"] == "tcp" else dict(r["scn"])
        if not s["virtual"]:
            s["quiet"] = max(3000, s.get("quiet") or 0)
        return ctx.run_one(s, r["which"], 150)
    return f


MC = {"D01": "MCDockB.cfg", "D02": "MCDockB.cfg", "D03": "MCDockB.cfg", "D04": "MCDockA.cfg", "D05": "MCDockA.cfg", "D06": "MCDockD.cfg",
      "R01": "MCDockA.cfg", "R02": "MCDockA.cfg", "R03": "MCDockL.cfg", "R04": "MCDockB.cfg"}


def open_system(ctx):
    v, t, tv = scenarios(ctx, ctx.prop)
    rv = ctx.run(v, "vy")
    rt = ctx.run(t, "plain", par=6) + (ctx.run(tv, "vy", par=6) if tv else [])
    ctx.judge("DockTrace", rv, make, chunk=12)
    ctx.judge("DockTrace", rt, make, chunk=8, confirm=again(ctx))


def run(ctx):
    ctx.build()
    cfgs = [MC[ctx.prop]] if ctx.quick() else ["MCDockA.cfg", "MCDockB.cfg", "MCDockC.cfg", "MCDockD.cfg", "MCDockL.cfg"]
    mc = threading.Thread(target=lambda: guarded(ctx, lambda: [ctx.model_check("MCDock", c, workers=4, timeout=800) for c in cfgs]))
    mc.start()
    open_system(ctx)
    mc.join()
    if ctx.errors:
        raise ctx.errors[0]
    return ctx.finish(assumptions=ASSUME)
