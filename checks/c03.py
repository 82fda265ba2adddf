"""C03: timezone replacement, conversion and normalization."""
import random

from checks import c01
from lib import core
from lib import entries as en

LOCALS = {"UTC": "UTC", "Berlin": "Europe/Berlin", "NewYork": "America/New_York",
          "B": "VPB5", "C": "VPC-13:45"}
ACT = {"ignore": [0, False], "replace": [1], "convert": [2, True]}


def new_entry(kind, i):
    from ics import Event, Todo

    e = (Event if kind == "event" else Todo)(summary=f"S{i}", description="d\n",
                                             location="here", uid=f"u{i}")
    if kind == "event":
        e.categories = ["a", "b"]
    else:
        e.percent = 30
    return e


def rest(e):
    import attr

    return {a.name: repr(getattr(e, a.name)) for a in attr.fields(type(e))
            if a.name != "timespan"}


def make_norm(n, rng):
    """(arguments for Normalization, check that a callable was used)"""
    from ics.timespan import NormalizationAction as NA

    def act(a):
        x = rng.choice(ACT[a])
        return x if isinstance(x, bool) else NA(x)

    z = en.ZONES[n["z"]] if n["z"] else None
    r = z if rng.random() < 0.6 else (lambda: z)
    k = rng.random()
    if n["fl"] == n["tz"] == "convert" and k < 0.4:
        return (r,), {}
    if k < 0.6:
        return (r,), {"normalize_floating": act(n["fl"]), "normalize_with_tz": act(n["tz"])}
    return (r, act(n["fl"]), act(n["tz"])), {}


def session(args):
    from ics import Calendar
    from ics.timespan import Normalization

    seed, n, dst, local = args
    core.set_local_tz(LOCALS[local])
    rng = random.Random(seed)
    if dst or local in en.DST:
        used = sorted({z for z in (dst, local) if z in en.DST})
        days = en.transition_days(used)
        # a week and more off any transition, but spans may lie across one
        t = rng.choice(days[1:-1])
        anchor = t + rng.choice([-9, 9])
        zones = ["", dst or "A", rng.choice(["A", "B", "UTC", "C"]), local]
    else:
        anchor = rng.choice(c01.ANCHORS)
        if local == "B" and anchor < 1000:
            anchor = 719163
        zones = rng.choice([["", "A"], ["A", "B", "UTC"], ["", "C", "D"], ["", "E", "F"]])
    repeated = None
    if dst and local in {dst} | set(en.FIXED) and rng.random() < 0.5:
        # around a repeated hour
        repeated = rng.choice(en.repeated_hours(dst))
        zones = ["", dst, dst, rng.choice(["A", "B", "UTC", "C"])]
    kinds = [rng.choice(["event", "event", "todo"]) for _ in range(rng.choice([1, 2, 3, 4]))]
    ents = [new_entry(k, i) for i, k in enumerate(kinds)]
    cal = Calendar(events=[e for e, k in zip(ents, kinds) if k == "event"],
                   todos=[e for e, k in zip(ents, kinds) if k == "todo"])
    steps = []

    def dt():
        if repeated:
            day, a, b = repeated
            return {"w": [day, rng.choice([a, b - 1, b, a - 1, (a + b) // 2, rng.randrange(a, b)])],
                    "f": rng.choice([0, 1, 1]), "z": rng.choice(zones)}
        return c01.rand_dt(rng, anchor, zones)

    def norm():
        fl, tz = rng.choice(["ignore", "replace", "convert"]), rng.choice(
            ["ignore", "replace", "convert"])
        if rng.random() < 0.25:
            fl = tz = "convert"
        z = rng.choice([z for z in zones if z])
        if rng.random() < 0.15 and fl != "convert" and tz != "convert":
            z = ""
        return {"fl": fl, "tz": tz, "z": z}

    moves = 0
    for _ in range(n):
        i = rng.randrange(len(ents))
        e, kind = ents[i], kinds[i]
        r = rng.random()
        before = rest(e)
        rec = {"i": i + 1}
        if moves >= 3 and r >= 0.5:
            r *= 0.5
        if r < 0.4:
            b = [] if rng.random() < 0.1 else [dt()]
            e2, d = [], []
            if rng.random() < 0.5:
                e2 = [dt()]
                if b:
                    e2[0]["w"][0] = b[0]["w"][0] + rng.choice([0, 1, 2, 18])
                    if rng.random() < 0.7 or repeated:
                        e2[0]["z"] = b[0]["z"]
                    if repeated and rng.random() < 0.8:
                        e2[0]["w"] = max(b[0]["w"], [b[0]["w"][0], e2[0]["w"][1]])
            elif rng.random() < 0.7:
                d = [c01.rand_td(rng)]
            # through the time span, so that the entry stays the same object
            ok, _ = en.call(set_span, e, kind, b, e2, d)
            rec.update(op="build", v=[b, e2, d], ok=ok, obs=en.observe(e),
                       rest=rest(e) == before)
        elif r < 0.5:
            op, v = rng.choice([("allday", []), ("unset", []), ("convert", ["end"]),
                                ("convert", ["duration"])])
            _, ok, obs = c01.step(e, kind, op, v)
            rec.update(op=op, v=v, ok=ok, obs=obs, rest=rest(e) == before)
        elif r < 0.66:
            if rng.random() < (0.7 if repeated else 0.5):
                op, v = "replacetz", [rng.choice(zones)]
            else:
                op, v = "converttz", [rng.choice([z for z in zones if z])]
            moves += 1
            _, ok, obs = c01.step(e, kind, op, v)
            rec.update(op=op, v=v, ok=ok, obs=obs, rest=rest(e) == before)
        else:
            nm = norm()
            a, k = make_norm(nm, rng)
            rec["n"] = nm
            if r < 0.74:
                v = [] if rng.random() < 0.05 else [dt()]
                val = c01.like(en.dec_dt(v), rng.choice([0, 4]))
                out = []
                ok, _ = en.call(lambda: out.append(Normalization(*a, **k).normalize(val)))
                rec.update(op="normvalue", v=v, ok=ok, res=en.enc_dt(out[0]) if ok else [])
            elif r < 0.82:
                out = []
                ok, _ = en.call(lambda: out.append(
                    Normalization(*a, **k).normalize(e.timespan)))
                rec.update(op="normspan", ok=ok, obs=en.observe(e),
                           res=obs_span(out[0]) if ok else {})
            elif r < 0.91:
                out = []
                moves += 1
                ok, _ = en.call(lambda: out.append(Normalization(*a, **k).normalize(e)))
                if ok and out[0] is not e:
                    ok = False
                rec.update(op="normentry", ok=ok, obs=en.observe(e), rest=rest(e) == before)
            else:
                before = [rest(x) for x in ents]
                moves += 1
                if rng.random() < 0.5:
                    ok, _ = en.call(lambda: cal.normalize(*a, **k))
                else:
                    ok, _ = en.call(lambda: cal.normalize(Normalization(*a, **k)))
                lists = [x for x, kk in zip(ents, kinds) if kk == "event"], \
                    [x for x, kk in zip(ents, kinds) if kk == "todo"]
                order = (len(cal.events) == len(lists[0]) and len(cal.todos) == len(lists[1])
                         and all(x is y for x, y in zip(cal.events, lists[0]))
                         and all(x is y for x, y in zip(cal.todos, lists[1])))
                rec.update(op="normcal", ok=ok, order=order,
                           obs=[en.observe(x) for x in ents],
                           rest=before == [rest(x) for x in ents])
        steps.append(rec)
    core.set_local_tz("UTC")
    return {"kinds": kinds, "local": local, "steps": steps, "anchor": anchor}


def obs_span(ts):
    try:
        return {"b": en.enc_dt(ts.get_begin()), "e": en.enc_dt(ts.get_effective_end()),
                "d": en.enc_td(ts.get_effective_duration()), "day": ts.is_all_day(),
                "rep": en.rep_of(ts.get_end_representation())}
    except Exception as ex:
        return {"b": [], "e": [], "d": [], "day": False, "rep": f"?{type(ex).__name__}"}


def set_span(e, kind, b, e2, d):
    from ics import EventTimespan, TodoTimespan

    T = EventTimespan if kind == "event" else TodoTimespan
    e.timespan = T(en.dec_dt(b), en.dec_dt(e2), en.dec_td(d))


def sessions(chunk):
    return [session(a) for a in chunk]


def run(ctx):
    en.init_zones()
    dst = sorted(en.DST)
    for zones, days in ctx.pick([('"", "A", "Berlin"', "{737512, 737514}")],
                                [('"", "A", "B", "Berlin"', "{737512, 737514}"),
                                 ('"", "E", "F", "NewYork"', "{737490, 737494}"),
                                 ('"", "B", "Sydney"', "{737701, 737703}")]):
        consts = f"""Kinds = {{"event", "todo"}}
 Days = {days}
 TimesOfDay = {{0, 43200}}
 ZoneIds = {{{zones}}}
 Durs <- MCDurs
 MaxZoneOps = 2
 Low = {days[1:7]}
 OpNames = {{"build", "allday", "unset", "replacetz", "converttz"}}
"""
        c01.explore(ctx, consts, ["AlwaysValid", "ZoneReplaceKeepsWall",
                                  "ZoneConvertKeepsInstant", "ZoneOpsKeepForm"],
                    "a timezone change of the model is not reproduced by the code",
                    dst=[z for z in dst if z in zones])
    n = ctx.pick(2400, 24000)
    jobs = [(ctx.rng.random(), ctx.rng.choice([6, 10, 16]),
             ctx.rng.choice(dst) if i % 2 else None,
             ctx.rng.choice(sorted(LOCALS))) for i in range(n)]
    logs = core.parallel(sessions, core.split(jobs))
    ctx.validate("C03Trace", logs, " Zones <- HdrZones",
                 header={"zones": en.header_zones(dst)},
                 describe=lambda s, p, c: s["kinds"])
    with en.scaled(2):
        jobs = [(ctx.rng.random(), 12, None, ctx.rng.choice(["UTC", "B", "C"]))
                for _ in range(n // 6)]
        logs = core.parallel(sessions, core.split(jobs))
        ctx.validate("C03Trace", logs, en.HALF, header={"zones": en.header_zones()},
                     describe=lambda s, p, c: s["kinds"])
    ctx.assumptions += ["values of whole and half seconds", "no skipped local times"]
