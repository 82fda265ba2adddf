"""C04: one consistent total order."""
import heapq

from checks.c03 import LOCALS
from lib import core, world
from lib import entries as en

OPS = [lambda a, b: a < b, lambda a, b: a > b, lambda a, b: a <= b, lambda a, b: a >= b]


def compare(a, b):
    res = []
    for op in OPS:
        try:
            r = op(a, b)
            res.append(r if isinstance(r, bool) else repr(r))
        except Exception as e:
            res.append(type(e).__name__)
    return res


class Foreign:
    pass


def session(args):
    seed, n, dst, local, mode = args
    import random

    r0 = random.Random(repr(seed))
    k = r0.choice([2, 3, 5, 8])
    if mode == "span":
        kinds = ["span"] * k
    else:
        kinds = [r0.choice(["event", "event", "todo"]) for _ in range(k)]
    w = world.World(seed, dst, local, kinds)
    rng = w.rng
    for i in range(k):
        w.edit(i, 0.25)
    for _ in range(n):
        r = rng.random()
        if r < 0.3:
            w.edit(rng.randrange(k), 0.25)
        elif r < 0.75:
            i, j = rng.randrange(k), rng.randrange(k)
            a, b = w.ents[i], w.ents[j]
            if mode == "timespan" and rng.random() < 0.5:
                pass
            res = compare(a, b)
            w.rec(op="cmp", i=i + 1, j=j + 1, res=res)
        elif r < 0.95:
            idx = [rng.randrange(k) for _ in range(rng.choice([2, 3, 6, 10]))]
            items = [w.ents[i] for i in idx]
            pos = {}
            for i, e in enumerate(w.ents):
                pos[id(e)] = i + 1
            m = rng.random()
            out = []

            def run():
                if m < 0.4:
                    out.extend(sorted(items))
                elif m < 0.55:
                    out.extend(reversed(sorted(items, reverse=True)))
                elif m < 0.7:
                    h = list(items)
                    heapq.heapify(h)
                    while h:
                        out.append(heapq.heappop(h))
                elif m < 0.85:
                    out.append(min(items))
                else:
                    out.append(max(items))

            ok, _ = en.call(run)
            res = [pos.get(id(e), 0) for e in out]
            src = [i + 1 for i in idx]
            if m < 0.7:
                w.rec(op="sort", res=res, ok=ok, **{"in": src})
            else:
                w.rec(op="min", res=res[0] if res else 0, ok=ok, max=m >= 0.85, **{"in": src})
        else:
            i = rng.randrange(k)
            a = w.ents[i]
            other = rng.choice([1, None, "x", Foreign(), a.begin if mode != "span" else 3,
                                a.timespan if mode != "span" else world.build(
                                    {"k": "event", "b": [], "e": [], "d": [], "day": False}),
                                (), object()])
            op = rng.choice(OPS)
            x, y = (a, other) if rng.random() < 0.7 else (other, a)
            try:
                out = repr(op(x, y))
            except Exception as e:
                out = type(e).__name__
            w.rec(op="foreign", res=out, what=repr(other)[:60])
    return w.session()


def sessions(chunk):
    return [session(a) for a in chunk]


def replay(chunk):
    bad = []
    for p, local in chunk:
        core.set_local_tz(LOCALS[local])
        x, y = world.build(p["x"]), world.build(p["y"])
        got = compare(x, y)
        gts = compare(getattr(x, "timespan", x), getattr(y, "timespan", y))
        if got != p["cmp"] or gts != p["cmp"]:
            bad.append({"x": p["x"], "y": p["y"], "expected": p["cmp"], "got": got,
                        "got_spans": gts, "local": local})
        core.set_local_tz("UTC")
    return bad[:20]


def run(ctx):
    en.init_zones()
    for zones, local in ctx.pick([('{"", "A"}', "B")],
                                 [('{"", "A"}', "B"), ('{"", "UTC", "C"}', "C"), ('{"A", "F"}', "UTC")]):
        for kinds in ('{"event", "todo"}', '{"span"}'):
            ps = world.pairs(ctx, kinds, zones, "{737425, 737426}",
                             ctx.pick("{0, 64800}", "{0, 64800}"), local,
                             ["Trichotomy"] + ctx.pick([], ["Transitive"] if "span" in kinds else []))
            for b in core.parallel(replay, core.split([(p, local) for p in ps], 32)):
                ctx.mismatch("a comparison of the model is not reproduced by the code", **b)
            ctx.cov["replayed_model_behaviours"] += len(ps)
    n = ctx.pick(1500, 20000)
    dst = sorted(en.DST)
    jobs = [(ctx.rng.random(), ctx.rng.choice([10, 20]),
             ctx.rng.choice(dst) if i % 3 == 0 else None, ctx.rng.choice(sorted(LOCALS)),
             ("entry", "entry", "span")[i % 3]) for i in range(n)]
    logs = core.parallel(sessions, core.split(jobs))
    ctx.validate("EntriesTrace", logs, " Zones <- HdrZones",
                 header={"zones": en.header_zones(dst)},
                 describe=lambda s, p, c: s["kinds"])
    with en.scaled(2):
        jobs = [(ctx.rng.random(), 20, None, ctx.rng.choice(["UTC", "B", "C"]), *j[4:])
                for j in jobs[:n // 5]]
        logs = core.parallel(sessions, core.split(jobs))
        ctx.validate("EntriesTrace", logs, en.HALF, header={"zones": en.header_zones()},
                     describe=lambda s, p, c: s["kinds"])
    ctx.assumptions += ["values of whole and half seconds", "no skipped or repeated local times"]
