"""C05: half-open interval predicates."""
import random

from checks.c03 import LOCALS
from lib import core, world
from lib import entries as en

NAMES = {"starts_within": "sw", "ends_within": "ew", "intersects": "is",
         "includes": "ic", "is_included_in": "ii"}


def ask(name, a, b, rng=None):
    r = rng.random() if rng else 1
    if name == "ends_within" and hasattr(a, "due_within") and r < 0.3:
        return world.answer(a.due_within, b)
    if name == "includes" and not hasattr(a, "timespan") and r < 0.3:
        return world.answer(lambda: b in a)
    return world.answer(getattr(a, name), b)


def session(args):
    seed, n, dst, local = args
    r0 = random.Random(repr(seed))
    k = r0.choice([2, 3, 4])
    kinds = [r0.choice(["event", "event", "todo", "span"]) for _ in range(k)]
    w = world.World(seed, dst, local, kinds)
    rng = w.rng
    for i in range(k):
        w.edit(i)
    for _ in range(n):
        r = rng.random()
        if r < 0.25:
            w.edit(rng.randrange(k))
        elif r < 0.85:
            i, j = rng.randrange(k), rng.randrange(k)
            name = rng.choice(sorted(NAMES))
            a, b = w.ents[i], w.ents[j]
            if kinds[i] == "span":
                b = getattr(b, "timespan", b)
            elif rng.random() < 0.3:
                b = getattr(b, "timespan", b)
            w.rec(op="pred", i=i + 1, j=j + 1, name=name, res=ask(name, a, b, rng))
        else:
            i = rng.randrange(k)
            t = w.dt()
            x = w.ents[i]
            if rng.random() < 0.7:
                t = w.near(x)
            w.rec(op="instant", i=i + 1, t=t,
                  res=world.answer(x.includes, en.dec_dt([t])))
    return w.session()


def sessions(chunk):
    return [session(a) for a in chunk]


def replay(chunk):
    bad = []
    for p, local in chunk:
        core.set_local_tz(LOCALS[local])
        x, y = world.build(p["x"]), world.build(p["y"])
        ts = getattr(y, "timespan", y)
        for name, f in NAMES.items():
            for other in ([y] if not hasattr(x, "timespan") else [y, ts]):
                if not hasattr(x, "timespan"):
                    other = ts
                got = ask(name, x, other)
                if got != p[f]:
                    bad.append({"x": p["x"], "y": p["y"], "predicate": name,
                                "expected": p[f], "got": got, "local": local})
        core.set_local_tz("UTC")
    return bad[:20]


def run(ctx):
    en.init_zones()
    for zones, local in ctx.pick([('{"", "A"}', "B")],
                                 [('{"", "A"}', "B"), ('{"", "UTC", "C"}', "C"), ('{"A", "F"}', "UTC")]):
        ps = world.pairs(ctx, '{"event", "todo", "span"}', zones, "{737425, 737426}",
                         ctx.pick("{0, 64800}", "{0, 64800}"), local,
                         ["IntersectsSymmetric", "IncludesIntersects"]
                         + ctx.pick([], ["EquivalentForms"]))
        for b in core.parallel(replay, core.split([(p, local) for p in ps], 32)):
            ctx.mismatch("a predicate of the model is not reproduced by the code", **b)
        ctx.cov["replayed_model_behaviours"] += len(ps)
    n = ctx.pick(1500, 20000)
    dst = sorted(en.DST)
    jobs = [(ctx.rng.random(), ctx.rng.choice([15, 30]),
             ctx.rng.choice(dst) if i % 3 == 0 else None, ctx.rng.choice(sorted(LOCALS)))
            for i in range(n)]
    logs = core.parallel(sessions, core.split(jobs))
    ctx.validate("EntriesTrace", logs, " Zones <- HdrZones",
                 header={"zones": en.header_zones(dst)},
                 describe=lambda s, p, c: s["kinds"])
    with en.scaled(2):
        jobs = [(ctx.rng.random(), 20, None, ctx.rng.choice(["UTC", "B", "C"]), *j[4:])
                for j in jobs[:n // 5]]
        logs = core.parallel(sessions, core.split(jobs))
        ctx.validate("EntriesTrace", logs, en.HALF, header={"zones": en.header_zones()},
                     describe=lambda s, p, c: s["kinds"])
    ctx.assumptions += ["values of whole and half seconds", "no skipped or repeated local times"]
