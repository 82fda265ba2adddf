"""C16: timezones defined by observances answer from their definition alone."""
import random

from lib import core, zones
from lib.core import cps


def catalogue():
    """definitions for the bounded model, with the years to look at"""
    def obs(kind, start, frm, to, *more):
        return [f"BEGIN:{kind}", f"DTSTART:{start}", f"TZOFFSETFROM:{frm}", f"TZOFFSETTO:{to}",
                *more, f"END:{kind}"]

    def yearly(rest):
        return "RRULE:FREQ=YEARLY;" + rest
    S, L = "STANDARD", "DAYLIGHT"
    north = [obs(L, "20190331T020000", "+0100", "+0200", yearly("BYMONTH=3;BYDAY=-1SU"),
                 "TZNAME:CEST"),
             obs(S, "20191027T030000", "+0200", "+0100", yearly("BYMONTH=10;BYDAY=-1SU"),
                 "TZNAME:CET")]
    eras = [obs(L, "20050403T020000", "-0500", "-0400", "TZNAME:EDT",
                yearly("UNTIL=20060402T070000Z;BYMONTH=4;BYDAY=1SU")),
            obs(S, "20051030T020000", "-0400", "-0500", "TZNAME:EST",
                yearly("UNTIL=20061029T060000Z;BYMONTH=10;BYDAY=-1SU")),
            obs(L, "20070311T020000", "-0500", "-0400", "TZNAME:EDT2",
                yearly("BYMONTH=3;BYDAY=2SU")),
            obs(S, "20071104T020000", "-0400", "-0500", "TZNAME:EST2",
                yearly("BYMONTH=11;BYDAY=1SU"))]
    defs = [
        (north, 2019, 2021), (eras, 2005, 2008),
        # southern, and half an hour
        ([obs(S, "20200405T020000", "+1100", "+1030", yearly("BYMONTH=4;BYDAY=1SU")),
          obs(L, "20201004T020000", "+1030", "+1100", yearly("BYMONTH=10;BYDAY=1SU"))], 2020, 2021),
        # negative DST
        ([obs(L, "20191027T020000", "+0100", "+0000", yearly("BYMONTH=10;BYDAY=-1SU"), "TZNAME:GMT"),
          obs(S, "20200329T010000", "+0000", "+0100", yearly("BYMONTH=3;BYDAY=-1SU"), "TZNAME:IST")],
         2019, 2021),
        # single dates, two hours
        ([obs(L, "20200601T120000", "+0000", "+0200", "RDATE:20210601T120000,20220601T120000"),
          obs(S, "20200901T120000", "+0200", "+0000", "RDATE:20210901T120000")], 2020, 2022),
        # constant, with and without a name
        ([obs(S, "20200101T000000", "+0000", "+0545", "TZNAME:x")], 2020, 2020),
        # daylight only
        ([obs(L, "20200401T000000", "+0100", "+0200")], 2020, 2020),
        # leap days, counted
        ([obs(L, "20160229T000000", "+0100", "+0230", yearly("COUNT=2")),
          obs(S, "20160601T000000", "+0230", "+0100", yearly("BYMONTHDAY=1;BYMONTH=6;INTERVAL=4"))],
         2016, 2021),
        # rules that do not fit together
        ([obs(S, "20200301T030000", "+0300", "+0100"), obs(S, "20200301T020000", "+0500", "+0200"),
          obs(L, "20200301T023000", "+0200", "+0400")], 2020, 2020),
        # the standard observance behind daylight observances, both later
        ([obs(L, "20200401T000000", "+0200", "+0300", "TZNAME:d"),
          obs(L, "20200701T000000", "+0300", "+0430", "TZNAME:e"),
          obs(S, "20201001T000000", "+0430", "+0200", "TZNAME:s")], 2020, 2020),
        # the first Sunday from a day on, counted from the end of the month
        ([obs(L, "20200308T020000", "-0800", "-0700",
              yearly("BYMONTH=3;BYDAY=SU;BYMONTHDAY=8,9,10,11,12,13,14")),
          obs(S, "20201030T020000", "-0700", "-0800", yearly("BYMONTH=10;BYMONTHDAY=-2"))],
         2020, 2021),
        # excluded onsets: the first of a counted rule, one in between, a date
        ([obs(L, "20200301T020000", "+0100", "+0200", yearly("COUNT=3;BYMONTH=3;BYMONTHDAY=1"),
              "EXDATE:20200301T020000,20220301T020000", "TZNAME:d"),
          obs(S, "20200901T030000", "+0200", "+0100", yearly("BYMONTH=9;BYMONTHDAY=1"),
              "EXDATE:20210901T030000", "EXDATE:20200901T020000", "RDATE:20210601T000000",
              "TZNAME:s")], 2020, 2023),
        # an observance that never sets in
        ([obs(L, "20200401T000000", "+0200", "+0300", "TZNAME:d"),
          obs(S, "20200701T000000", "+0300", "+0100", "EXDATE:20200701T000000", "TZNAME:n"),
          obs(S, "20201001T000000", "+0300", "+0200", "TZNAME:s")], 2020, 2020),
    ]
    texts = ["\r\n".join(["BEGIN:VTIMEZONE", f"TZID:Z{i % 3}"] + [x for l in o for x in l]
                         + ["END:VTIMEZONE"]) for i, (o, _, _) in enumerate(defs)]
    return texts, [[a, b] for _, a, b in defs]


def pool(day, secs):
    return [{"t": [day, s], "f": f} for s in secs for f in (0, 1)]


HEAD = {}


def header(ctx):
    import datetime as D

    texts, years = catalogue()
    d = D.date.toordinal
    fall, spring = d(D.date(2020, 10, 25)), d(D.date(2020, 3, 29))
    p = [pool(fall, [7199, 9000, 10799, 10800]) for _ in texts]
    p[1] = pool(d(D.date(2006, 10, 29)), [3599, 3600, 5400, 7200])
    p[2] = pool(d(D.date(2021, 4, 4)), [5399, 5400, 6000, 7200])
    p[3] = pool(fall, [3599, 5400, 7199, 7200])
    p[8] = pool(d(D.date(2020, 3, 1)), [7200, 9000, 10800, 5400])
    return {"texts": [cps(t) for t in texts], "years": years, "pool": p,
            "span": ctx.pick(12, 40),
            "pairs": [[1, 4], [1, 1], [2, 3], [4, 9]] if ctx.thorough else [[1, 4], [2, 9]]}


def answer(r):
    return {k: r[k] for k in ("off", "dst", "name")}


def same(got, wanted):
    return got["ok"] and answer(got) in wanted


def replay_table(chunk):
    core.setup_impl()
    texts = catalogue()[0]
    tzs, bad = {}, []
    for r in chunk:
        z, h = r["p"][0], r["h"][0]
        tz = tzs.get(z) or tzs.setdefault(z, zones.load(texts[z - 1]))
        t = h["t"]
        got = {"a0": zones.ask(tz, t, 0), "a1": zones.ask(tz, t, 1)}
        if not same(got["a0"], h["a0"]) or not same(got["a1"], h["a1"]):
            bad.append({"what": "not the observance in force", "def": z, "row": h, "got": got})
            continue
        if h["cons"]:
            got = zones.local(tz, t)
            if not got["ok"] or got["t"] != h["local"]["t"] or (
                    h["rep"] and got["f"] != h["local"]["f"]):
                bad.append({"what": "an instant is converted to another local time", "def": z,
                            "row": h, "got": got})
            else:
                back = zones.to_utc(tz, got["t"], got["f"])
                if back.get("u") != t:
                    bad.append({"what": "to local time and back is another instant", "def": z,
                                "row": h, "got": got, "back": back})
    return bad[:20]


def replay_histories(chunk):
    import ics
    from ics.contentline import string_to_container

    core.setup_impl()
    texts = [string_to_container(t) for t in catalogue()[0]]
    pools = HEAD["pool"]
    bad = []
    for r in chunk:
        tzs = [ics.Timezone.from_container(texts[z - 1]) for z in r["p"]]
        for n, q in enumerate(r["h"]):
            p = pools[r["p"][q["z"] - 1] - 1][q["k"] - 1]
            got = zones.ask(tzs[q["z"] - 1], p["t"], p["f"])
            if not same(got, q["as"]):
                bad.append({"what": "an answer depends on what was asked before", "pair": r["p"],
                            "history": r["h"], "at": n + 1, "asked": p, "got": got})
                break
    return bad[:20]


# ------------------------------------------------------------------ sessions

def session(args):
    import ics

    seed, n, builtin = args
    rng = random.Random(seed)
    zs, steps = [], []

    def add(step, go, marks):
        r = zones.outcome(go)
        steps.append(step | {"ok": r["ok"], "exc": r["exc"]})
        if r["ok"]:
            zs.append((r["res"], marks))
        return r["ok"]

    for i in range(rng.choice([1, 2, 2, 3])):
        if builtin:
            name, f = rng.choice(zones.builtin_files())
            text = open(f).read()
            year = rng.choice([1980, 2020, 2023, 2035])
            import datetime as D
            marks = [(D.datetime(year, rng.randrange(1, 13), 1), 0, 3600) for _ in range(2)]
            import zoneinfo
            try:
                zi = zoneinfo.ZoneInfo(name)
            except Exception:
                zi = None
            if zi:        # points near the changes of the real zone
                b, last = D.datetime(year, 1, 1), None
                for k in range(366):
                    o = (b + D.timedelta(days=k)).replace(tzinfo=zi).utcoffset()
                    if last is not None and o != last:
                        s = [round(x.total_seconds()) for x in (last, o)]
                        for h in range(0, 25):
                            marks.append((b + D.timedelta(days=k - 1, hours=h), *s))
                    last = o
            step = {"op": "load", "text": cps(text), "name": name}
            ok = add(step, lambda: ics.Timezone.from_tzid(name), marks)
        else:
            tzid = rng.choice(["A", "A", "B/c", "Europe/Berlin"])
            v, marks = zones.zone(rng, tzid)
            text = zones.calendar(rng, v, tzid) if rng.random() < 0.4 else v
            ok = add({"op": "load", "text": cps(text)}, lambda: zones.load(text), marks)
        if not ok:
            return {"steps": steps}
    pools = [[(zones.near(rng, m), rng.randrange(2)) for _ in range(rng.choice([2, 6, 14]))]
             for _, m in zs]
    for _ in range(n):
        z = rng.randrange(len(zs))
        tz, marks = zs[z]
        op = rng.choice(["ask"] * 6 + ["toutc", "local", "local", "write", "reload", "copy"])
        st = {"op": op, "z": z + 1}
        if op in ("ask", "toutc"):
            if rng.random() < 0.15:
                pools[z][rng.randrange(len(pools[z]))] = (zones.near(rng, marks), rng.randrange(2))
            t, f = rng.choice(pools[z])
            if rng.random() < 0.3:
                f = 1 - f
            st |= {"t": t, "f": f} | (zones.ask if op == "ask" else zones.to_utc)(tz, t, f)
        elif op == "local":
            m, frm, to = rng.choice(marks)
            u = zones.near(rng, [(m, frm, to)])
            u = zones.enc(zones.wall(u) - zones.D.timedelta(seconds=rng.choice([frm, to])))
            st |= {"u": u} | zones.local(tz, u)
        elif op == "copy" and len(zs) < 4:
            add(st, tz.clone, marks)
            pools.append(pools[z])
            if not steps[-1]["ok"]:
                return {"steps": steps}
            continue
        elif op in ("write", "reload"):
            r = zones.outcome(lambda: tz.serialize())
            steps.append({"op": "write", "z": z + 1, "ok": r["ok"], "exc": r["exc"],
                          "text": cps(r["res"]) if r["ok"] else []})
            if op == "reload" and r["ok"] and len(zs) < 4:
                if not add({"op": "load", "text": cps(r["res"])},
                           lambda: zones.load(r["res"]), marks):
                    return {"steps": steps}
                pools.append(pools[z])
            continue
        else:
            continue
        steps.append(st)
    return {"steps": steps}


def sessions(chunk):
    core.setup_impl()
    return [session(a) for a in chunk]


def run(ctx):
    core.setup_impl()
    head = header(ctx)
    HEAD.update(head)
    inv = ["CacheTransparent", "RoundTripUtc", "RoundTripWall", "FoldsBack", "Report"]
    rows = ctx.explore("MC_Observances", 'Mode = "table"\n MaxLen = 1\n Cap = 2', inv, header=head)
    for b in core.parallel(replay_table, core.split(rows)):
        ctx.mismatch(b["what"], **b)
    hs = ctx.explore("MC_Observances",
                     f'Mode = "history"\n MaxLen = {ctx.pick(3, 4)}\n Cap = 2', inv, header=head)
    for b in core.parallel(replay_histories, core.split(hs)):
        ctx.mismatch(b["what"], **b)
    ctx.cov["replayed_model_behaviours"] += len(rows) + len(hs)
    jobs = [(ctx.rng.random(), 40, i % 5 == 0) for i in range(ctx.pick(300, 5000))]
    logs = core.parallel(sessions, core.split(jobs))
    ctx.validate("ObservanceTrace", logs)
    ctx.assumptions += ["definitions are not edited after they were read",
                        "yearly rules by month, weekday and day of the month"]
