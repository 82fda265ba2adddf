"""C01: every edit history keeps the time span valid."""
import datetime as dtm

from lib import core
from lib import entries as en


def new_entry(kind):
    from ics import Event, Todo

    return Event() if kind == "event" else Todo()


def bogus(op):
    """unparseable values for a setter"""
    return object()


def apply(e, kind, op, v, form=0):
    """perform one operation on the real entry; returns the entry"""
    if op == "begin":
        e.begin = like(en.dec_dt(v), form)
    elif op == "end":
        if kind == "todo" and form & 1:
            e.due = like(en.dec_dt(v), form)
        else:
            e.end = like(en.dec_dt(v), form)
    elif op == "duration":
        e.duration = like_td(en.dec_td(v), form)
    elif op == "convert":
        t = {"none": None}.get(v[0], v[0])
        if kind == "todo":
            if t == "end" and form & 1:
                t = "due"
            (e.convert_due if form & 2 else e.convert_end)(t)
        else:
            e.convert_end(t)
    elif op == "allday":
        e.make_all_day()
    elif op == "unset":
        e.unset_all_day()
    elif op == "replacetz":
        e.replace_timezone(en.ZONES[v[0]] if v[0] else None)
    elif op == "converttz":
        e.convert_timezone(en.ZONES[v[0]] if v[0] else None)
    elif op == "build":
        return build(kind, v, form)
    else:
        raise core.MachineryError(op)
    return e


def build(kind, v, form):
    from ics import Event, EventTimespan, Todo, TodoTimespan

    b, e, d = (like(en.dec_dt(v[0]), form), like(en.dec_dt(v[1]), form),
               like_td(en.dec_td(v[2]), form))
    if form & 8:
        T = EventTimespan if kind == "event" else TodoTimespan
        ts = T(en.dec_dt(v[0]), en.dec_dt(v[1]), en.dec_td(v[2]))
        return (Event if kind == "event" else Todo)(timespan=ts)
    if kind == "event":
        return Event("x", b, e, d) if form & 1 else Event(begin=b, end=e, duration=d)
    return Todo(b, e, d) if form & 1 else Todo(begin=b, due=e, duration=d)


def like(v, form):
    """one of the accepted spellings of a date-time"""
    if v is None or v.fold:
        return v
    m = form & 4
    if not m:
        return v
    if v.tzinfo is None and v.time() == dtm.time():
        return v.date()
    if v.tzinfo is None:
        return tuple(v.timetuple()[:6]) + ((v.microsecond,) if v.microsecond else ())
    return dict(year=v.year, month=v.month, day=v.day, hour=v.hour,
                minute=v.minute, second=v.second, microsecond=v.microsecond, tzinfo=v.tzinfo)


def like_td(v, form):
    if v is None or not form & 4:
        return v
    us = {"microseconds": v.microseconds} if v.microseconds else {}
    return (v.days, v.seconds, *us.values()) if form & 1 else \
        {"days": v.days, "seconds": v.seconds, **us}


def extras(e, kind):
    """redundant views that must agree with the observed span"""
    if kind == "todo":
        if e.due != e.end or e.due_representation != e.end_representation:
            return False
        if e.has_explicit_due != e.has_explicit_end:
            return False
    if e.has_explicit_end != (e.end_representation is not None):
        return False
    ts = e.timespan
    return (ts.get_begin() == e.begin and ts.get_effective_end() == e.end and
            ts.get_effective_duration() == e.duration)


def step(e, kind, op, v, form=0):
    """returns (entry, ok, observation)"""
    box = [e]

    def go():
        box[0] = apply(e, kind, op, v, form)

    ok, exc = en.call(go)
    e2 = box[0] if ok else e
    obs = en.observe(e2)
    try:
        if not extras(e2, kind):
            obs["rep"] = "?inconsistent views"
    except Exception as ex:
        obs["rep"] = f"?{type(ex).__name__}"
    if exc == "Hang":
        obs["rep"] = "?hang"
    return e2, ok, obs


# ------------------------------------------------------- model -> code

def spec_obs(ts):
    """Obs of Timespan.tla is part of the printed target via model `o`."""
    return ts["o"]


def replay(chunk):
    bad = []
    for path, edges in chunk:
        for edge in edges:
            kind = edge["s"]["k"]
            e = new_entry(kind)
            for p in path:
                e, _, _ = step(e, kind, p["op"]["op"], p["op"]["v"])
            e, ok, obs = step(e, kind, edge["op"]["op"], edge["op"]["v"])
            if ok != edge["ok"] or obs != edge["o"]:
                bad.append({"path": [p["op"] for p in path], "kind": kind,
                            "step": edge["op"], "expected": {"ok": edge["ok"], **edge["o"]},
                            "got": {"ok": ok, **obs}})
                if len(bad) > 20:
                    return bad
    return bad


def explore(ctx, consts, invariants, clause, dst=()):
    if en.SCALE == 2:
        consts += " DAY <- HalfDay\n"
    edges = ctx.explore("MC_Timespan", consts + " Zones <- MCZones", invariants,
                        header={"zones": en.header_zones(dst, short=True)})
    edges = list({core.canon(e): e for e in edges}.values())
    roots = [e["s"] for e in edges if e["s"]["b"] == [] and e["s"]["e"] == []
             and e["s"]["d"] == [] and not e["s"]["day"]]
    g = core.Graph(edges, roots)
    work = [(g.path[s], g.out[s]) for s in g.states if s in g.out]
    n = sum(len(w[1]) for w in work)
    if n != len(edges):
        raise core.MachineryError(f"replayed {n} of {len(edges)} transitions")
    work = [(p, es[i:i + 40]) for p, es in work for i in range(0, len(es), 40)]
    bad = core.parallel(replay, core.split(work, 64))
    for b in bad:
        ctx.mismatch(clause, **b)
    ctx.cov["replayed_model_behaviours"] += n
    return g


# ------------------------------------------------------- code -> model

ANCHORS = [737425, 737426, 738000, 1, 2, 3651900, 719163, 737483]
LAST = 3652056         # three days before the end of the year 9999


def rand_dt(rng, anchor, zones, wide=False):
    d = anchor + rng.choice([0, 0, 0, 1, 1, 2, -1 if anchor > 5 else 0, 3])
    d = min(max(d, 3), 3652058 if anchor == LAST else 3652000)
    day = 86400 * en.SCALE
    s = rng.choice([0, 0, 0, 1, day // 2, day - 1, 3600 * en.SCALE, rng.randrange(day)])
    return {"w": [d, s], "f": 0, "z": rng.choice(zones)}


def rand_td(rng):
    d = rng.choice([0, 0, 1, 1, 2, 7, -1, rng.randrange(-3, 40)])
    day = 86400 * en.SCALE
    s = rng.choice([0, 0, 0, 1, 3600 * en.SCALE, day // 2, day - 1, rng.randrange(day)])
    if s and s < en.SCALE:
        s = en.SCALE + 1       # half a second is within the tolerance of the precision
    return [d, s]


def rand_op(rng, anchor, zones, zone_ops=False):
    def odt(p=0.12):
        return [] if rng.random() < p else [rand_dt(rng, anchor, zones)]

    k = rng.random()
    if k < 0.25:
        return "begin", odt()
    if k < 0.45:
        return "end", odt()
    if k < 0.62:
        return "duration", [] if rng.random() < 0.12 else [rand_td(rng)]
    if k < 0.78:
        return "convert", [rng.choice(["end", "duration", "none", "end", "duration"])]
    if k < 0.85:
        return "allday", []
    if k < 0.91:
        return "unset", []
    if zone_ops and k < 0.97:
        return rng.choice([("replacetz", [rng.choice(zones)]),
                           ("converttz", [rng.choice([z for z in zones if z] or ["UTC"])])])
    return "build", [odt(0.2), odt(0.4), [] if rng.random() < 0.5 else [rand_td(rng)]]


def session(args):
    kind, seed, n, local, zone_ops = args
    import random

    rng = random.Random(seed)
    anchor = rng.choice([*ANCHORS, LAST])
    zones = rng.choice([[""], ["", "A"], ["", "", "UTC", "A"], ["A", "B", "C", "D"], ["UTC"]])
    e = new_entry(kind)
    steps = []
    for _ in range(n):
        op, v = rand_op(rng, anchor, zones, zone_ops)
        form = rng.randrange(16)
        e, ok, obs = step(e, kind, op, v, form)
        steps.append({"op": op, "v": v, "ok": ok, "obs": obs, "form": form})
    return {"kind": kind, "local": local, "steps": steps}


def sessions(chunk):
    return [session(a) for a in chunk]


def run(ctx):
    en.init_zones()
    q = not ctx.thorough
    days = "{737425, 737426}" if q else "{737425, 737426, 737427}"
    tods = "{0, 43200}"
    consts = f"""Kinds = {{"event", "todo"}}
 Days = {days}
 TimesOfDay = {tods}
 ZoneIds = {{"", "A", "B"}}
 Durs <- MCDurs
 MaxZoneOps = 0
 Low = 737425
 OpNames = {{"begin", "end", "duration", "convert", "allday", "unset", "build"}}
"""
    explore(ctx, consts, ["AlwaysValid", "EndIsBeginPlusDuration", "ConversionPreserves"],
            "an edit history of the model is not reproduced by the code")
    n = ctx.pick(1500, 20000)
    jobs = [(("event", "todo")[i % 2], ctx.rng.random(), ctx.rng.choice([5, 12, 25, 40]),
             "UTC", False) for i in range(n)]
    logs = core.parallel(sessions, core.split(jobs))
    ctx.validate("C01Trace", logs, " Zones <- HdrZones", header={"zones": en.header_zones()},
                 describe=lambda s, p, c: s["kind"])
    with en.scaled(2):
        logs = core.parallel(sessions, core.split(jobs[:n // 4]))
        ctx.validate("C01Trace", logs, en.HALF, header={"zones": en.header_zones()},
                     describe=lambda s, p, c: s["kind"])
    ctx.assumptions += ["values of whole and half seconds", "zones with fixed offsets"]
