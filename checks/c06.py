"""C06: timeline queries."""
import datetime as dtm
import random
import time

from checks.c03 import LOCALS, make_norm
from lib import core, world
from lib import entries as en

FIXED_LOCALS = ["UTC", "B", "C"]


def snapshot(cal):
    return [id(e) for e in cal.events], [repr(e) for e in cal.events], \
        len(cal.todos), repr(cal.extra)


class Queries:
    def __init__(self, w, cal, norm=None, normkw=None):
        from ics.timeline import Timeline

        self.w, self.cal = w, cal
        self.norm = norm
        if norm is None:
            self.tl = cal.timeline
        else:
            from ics.timespan import Normalization

            a, k = normkw
            self.tl = Timeline(cal, Normalization(*a, **k))
        self.pos = {id(e): i + 1 for i, e in enumerate(w.ents)}

    def dt(self):
        w = self.w
        if w.rng.random() < 0.4:
            return w.near(w.rng.choice(w.ents))
        t = w.dt()
        if w.rng.random() < 0.3:
            t["z"] = ""
        return t

    def span(self):
        """encoded span and call arguments"""
        from ics import Timespan

        w = self.w
        if w.rng.random() < 0.25:
            e = w.rng.choice(w.ents)
            if e.begin is not None:
                ts = e.timespan
                return {"k": "event", "b": en.enc_dt(ts.begin_time),
                        "e": en.enc_dt(ts.end_time), "d": en.enc_td(ts.duration),
                        "day": ts.is_all_day()}, (ts,)
        while True:
            a, b = self.dt(), self.dt()
            if w.rng.random() < 0.4 and a["w"] <= b["w"]:
                a["w"][0] -= w.rng.choice([0, 1])
                b["w"][0] += w.rng.choice([1, 2, 3])
            if (a["z"] == "") != (b["z"] == ""):
                b["z"] = a["z"]
            x, y = en.dec_dt([a]), en.dec_dt([b])
            if x > y:
                a, b, x, y = b, a, y, x
            sp = {"k": "span", "b": [a], "e": [b], "d": [], "day": False}
            if self.norm and self.norm["n"]["fl" if a["z"] == "" else "tz"] == "replace" \
                    and a["w"] > b["w"]:
                continue
            return sp, ((x, y) if w.rng.random() < 0.6 else (Timespan(x, y),))

    def make(self):
        """(recorded fields, thunk returning the iterator)"""
        rng, tl = self.w.rng, self.tl
        q = rng.choice(["all", "included", "overlapping", "overlapping",
                        "start_after", "at", "on", "on"])
        rec = {"op": "query", "q": q, "n": [self.norm["n"]] if self.norm else []}
        if q == "all":
            go = (lambda: iter(tl)) if rng.random() < 0.7 else \
                (lambda: (e for _, e in tl.iterator()))
        elif q in ("included", "overlapping"):
            rec["span"], args = self.span()
            go = lambda: getattr(tl, q)(*args)
        else:
            rec["t"] = self.dt()
            v = en.dec_dt([rec["t"]])
            if q == "on":
                rec["strict"] = rng.random() < 0.4
                if rec["t"]["z"] == "" and rng.random() < 0.4:
                    v = v.date()
                go = (lambda: tl.on(v, strict=True)) if rec["strict"] else (lambda: tl.on(v))
            else:
                go = lambda: getattr(tl, q)(v)
        return rec, go

    def finish(self, rec, before, out, ok, exc=""):
        rec.update(ok=ok, exc=exc, same=snapshot(self.cal) == before,
                   res=[self.pos.get(id(e), 0) for e in out])
        self.w.steps.append(rec)

    def one(self):
        rec, go = self.make()
        before = snapshot(self.cal)
        out = []
        ok, exc = en.call(lambda: out.extend(go()))
        self.finish(rec, before, out, ok, exc)

    def interleaved(self):
        rng = self.w.rng
        n = rng.choice([2, 3])
        recs = [self.make() for _ in range(n)]
        before = snapshot(self.cal)
        outs = [[] for _ in range(n)]
        oks = [True] * n
        excs = [""] * n
        its = [None] * n
        live = list(range(n))
        while live:
            i = rng.choice(live)

            def stepit():
                if its[i] is None:
                    its[i] = iter(recs[i][1]())
                try:
                    outs[i].append(next(its[i]))
                except StopIteration:
                    live.remove(i)

            ok, exc = en.call(stepit)
            if not ok:
                oks[i], excs[i] = False, exc
                live.remove(i)
        for i in range(n):
            self.finish(recs[i][0], before, outs[i], oks[i], excs[i])


def session(args):
    from ics import Calendar, Todo

    seed, n, dst, local, mode = args
    r0 = random.Random(repr(seed))
    k = r0.choice([1, 3, 5, 7]) if r0.random() < 0.96 else r0.choice([16, 30, 60])
    w = world.World(seed, dst, local, ["event"] * k)
    rng = w.rng
    cal = Calendar()
    if rng.random() < 0.3:
        cal.todos.append(Todo(begin=dtm.datetime(2020, 1, 1)))
    idx = []
    qs = [Queries(w, cal)]
    if mode == "norm":
        fl, tz = rng.choice([("replace", "convert"), ("convert", "convert"),
                             ("replace", "ignore"), ("replace", "replace"),
                             ("ignore", "convert")])
        n0 = {"fl": fl, "tz": tz, "z": rng.choice([z for z in w.zones if z] or ["A"])}
        if tz == "replace":        # keep spans of one zone, replacing may invert others
            w.zones = ["", rng.choice(["A", "E"])]
        # a time line keeps entries of one zone comparable
        qs = [Queries(w, cal, {"n": n0}, make_norm(n0, rng))]

    def put():
        cal_ev = cal.events
        r = rng.random()
        if r < 0.6 or not idx:
            i = rng.randrange(k)
            p = rng.randrange(len(idx) + 1)
            cal_ev.insert(p, w.ents[i])
            idx.insert(p, i)
        elif r < 0.75:
            p = rng.randrange(len(idx))
            del cal_ev[p]
            idx.pop(p)
        else:
            rng.shuffle(idx)
            cal.events = [w.ents[i] for i in idx]
        w.rec(op="cal", v=[i + 1 for i in idx])

    for i in range(k):
        w.edit(i)
    idx.extend(rng.sample(range(k), k))
    if rng.random() < 0.3:
        idx.append(rng.randrange(k))
    cal.events.extend(w.ents[i] for i in idx)
    w.rec(op="cal", v=[i + 1 for i in idx])
    for _ in range(n):
        r = rng.random()
        if r < 0.2:
            w.edit(rng.randrange(k))
        elif r < 0.35:
            put()
        elif r < 0.85:
            rng.choice(qs).one()
        else:
            rng.choice(qs).interleaved()
    return w.session()


def now_session(args):
    """today() and now(), relative to the real clock"""
    from ics import Calendar, Event

    seed, local = args
    core.set_local_tz(LOCALS[local])
    rng = random.Random(seed)
    utc = dtm.timezone.utc
    off = en.FIXED.get(local, 0)

    def clock():
        u = dtm.datetime.now(utc).replace(microsecond=0)
        return u, (u + dtm.timedelta(seconds=off)).replace(tzinfo=None)

    u, here = clock()
    zones = ["", "UTC", "A", "B", "C", local]
    steps, ents = [], []
    for i in range(8):
        z = rng.choice(zones)
        t = u + dtm.timedelta(hours=rng.choice([-30, -14, -6, -3, -1, 1, 3, 6, 14, 30]))
        t2 = t + dtm.timedelta(hours=rng.choice([0, 2, 4, 12, 26, 48, 72]))
        v = [[{"w": en.enc_naive((x + dtm.timedelta(
            seconds=en.FIXED[z] if z else off)).replace(tzinfo=None)), "f": 0, "z": z}]
            for x in (t, t2)]
        e = Event()
        ok, _ = en.call(lambda: setattr(e, "timespan", Event(
            begin=en.dec_dt(v[0]), end=en.dec_dt(v[1])).timespan))
        steps.append({"op": "build", "i": i + 1, "v": [v[0], v[1], []], "ok": ok,
                      "obs": en.observe(e)})
        if rng.random() < 0.25:
            e.make_all_day()
            steps.append({"op": "allday", "i": i + 1, "v": [], "ok": True,
                          "obs": en.observe(e)})
        ents.append(e)
    cal = Calendar(events=ents)
    steps.append({"op": "cal", "v": list(range(1, 9))})
    pos = {id(e): i + 1 for i, e in enumerate(ents)}
    t = {"w": en.enc_naive(here), "f": 0, "z": ""}
    for q in ("now", "today", "strict"):
        before = snapshot(cal)
        out = []
        ok, exc = en.call(lambda: out.extend(
            cal.timeline.now() if q == "now" else
            cal.timeline.today() if q == "today" else cal.timeline.today(strict=True)))
        rec = {"op": "query", "n": [], "ok": ok, "exc": exc, "same": snapshot(cal) == before,
               "res": [pos.get(id(x), 0) for x in out],
               "t": {"w": en.enc_naive(u.replace(tzinfo=None)), "f": 0, "z": "UTC"}
               if q == "now" else t}
        rec["q"] = "at" if q == "now" else "on"
        if q != "now":
            rec["strict"] = q == "strict"
        steps.append(rec)
    _, later = clock()
    core.set_local_tz("UTC")
    # near midnight today() is ambiguous, and slow runs move past an end point
    if later.date() != here.date() or later - here > dtm.timedelta(minutes=20):
        return None
    return {"kinds": ["event"] * 8, "local": local, "steps": steps}


def replay(chunk):
    """calendars of the model, with the model's answers"""
    import itertools

    from ics import Calendar

    bad = []
    for c, local in chunk:
        core.set_local_tz(LOCALS[local])
        evs = [world.build(s) for s in c["cal"]]
        cal = Calendar(events=evs)
        before = snapshot(cal)
        for q, hits in itertools.zip_longest(c["q"], c["hits"]):
            tl, out = cal.timeline, []
            if q["op"] == "all":
                fn = lambda: out.extend(tl)
            elif q["op"] in ("at", "start_after"):
                fn = lambda: out.extend(getattr(tl, q["op"])(en.dec_dt([q["t"]])))
            else:
                fn = lambda: out.extend(getattr(tl, q["op"])(world.build(q["span"])))
            ok, exc = en.call(fn)
            got = [next(i + 1 for i, e in enumerate(evs) if e is x) for x in out]
            keys = [c["keys"][i - 1] for i in got]
            if not ok or sorted(got) != hits or keys != sorted(keys) \
                    or snapshot(cal) != before:
                bad.append({"cal": c["cal"], "query": q, "expected": hits, "got": got,
                            "exception": exc, "local": local})
        core.set_local_tz("UTC")
    return bad[:20]


def sessions(chunk):
    return [session(a) for a in chunk]


def now_sessions(chunk):
    return [now_session(a) for a in chunk]


def run(ctx):
    en.init_zones()
    for zones, local in ctx.pick([('{"", "A"}', "B")],
                                 [('{"", "A"}', "B"), ('{"", "C"}', "UTC")]):
        cals = ctx.explore("MC_Timeline", f"""Days = {{737425, 737426}}
 TimesOfDay = {ctx.pick("{43200}", "{0, 43200}")}
 ZoneIds = {zones}
 Durs <- MCDurs
 Local = "{local}"
 MaxEvents = {ctx.pick(3, 2)}
 Zones <- MCZones""", ["Report", "AtImpliesOverlap", "IncludedImpliesOverlap"],
                           header={"zones": en.header_zones()})
        for b in core.parallel(replay, core.split([(c, local) for c in cals], 32)):
            ctx.mismatch("an answer of the model's timeline is not reproduced by the code", **b)
        ctx.cov["replayed_model_behaviours"] += sum(len(c["q"]) for c in cals)
    n = ctx.pick(1200, 20000)
    dst = sorted(en.DST)
    jobs = []
    for i in range(n):
        mode = "norm" if i % 4 == 3 else "plain"
        jobs.append((ctx.rng.random(), ctx.rng.choice([6, 12, 20]),
                     ctx.rng.choice(dst) if i % 3 == 0 and mode == "plain" else None,
                     ctx.rng.choice(sorted(LOCALS) if mode == "plain" else FIXED_LOCALS), mode))
    logs = core.parallel(sessions, core.split(jobs))
    now = [(ctx.rng.random(), ctx.rng.choice(FIXED_LOCALS))
           for _ in range(ctx.pick(150, 1000))]
    logs += [s for s in core.parallel(now_sessions, core.split(now)) if s]
    ctx.validate("EntriesTrace", logs, " Zones <- HdrZones",
                 header={"zones": en.header_zones(dst)},
                 describe=lambda s, p, c: s["local"])
    with en.scaled(2):
        jobs = [(ctx.rng.random(), 12, None, ctx.rng.choice(FIXED_LOCALS), j[4])
                for j in jobs[:n // 5]]
        logs = core.parallel(sessions, core.split(jobs))
        ctx.validate("EntriesTrace", logs, en.HALF, header={"zones": en.header_zones()},
                     describe=lambda s, p, c: s["local"])
    ctx.assumptions += ["values of whole and half seconds", "no skipped or repeated local times",
                        "now/today: the clock is read again after the queries"]
