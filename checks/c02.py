"""C02: switching to all-day and back."""
import random

from checks import c01
from lib import core
from lib import entries as en


def session(args):
    kind, seed, n, dst = args
    rng = random.Random(seed)
    zones = rng.choice([[""], ["", "A"], ["A", "B"], ["C", "D"], ["E", "F"],
                        ["UTC", "E"], ["", "UTC"]])
    if en.SCALE > 1:
        dst = None
    if dst:
        # around transitions, wall-clock arithmetic must not shift the days
        zones = [dst]
        anchor = rng.choice(en.transition_days([dst])) - rng.choice([0, 1, 2])
    else:
        anchor = rng.choice(c01.ANCHORS)
    e = c01.new_entry(kind)
    steps = []

    def do(op, v):
        nonlocal e
        form = rng.randrange(16)
        e, ok, obs = c01.step(e, kind, op, v, form)
        steps.append({"op": op, "v": v, "ok": ok, "obs": obs, "form": form})

    def dt():
        x = c01.rand_dt(rng, anchor, zones)
        if dst and 3600 <= x["w"][1] <= 4 * 3600:
            x["w"][1] = 5 * 3600 + 1
        return x

    for _ in range(n):
        r = rng.random()
        if r < 0.4:
            b = [] if rng.random() < 0.1 else [dt()]
            e2, d = [], []
            if rng.random() < 0.45:
                e2 = [dt()]
                if b:
                    e2[0]["w"][0] = b[0]["w"][0] + rng.choice([0, 0, 1, 2, 5])
                    if rng.random() < 0.3:
                        e2[0]["w"][1] = 0
            elif rng.random() < 0.7:
                d = [c01.rand_td(rng)]
            do("build", [b, e2, d])
            do("allday", [])
            if rng.random() < 0.6:
                do("allday", [])
            if rng.random() < 0.6:
                do("unset", [])
        elif r < 0.6:
            do("allday", [])
        elif r < 0.75:
            do("unset", [])
        elif r < 0.85:
            do("convert", [rng.choice(["end", "duration", "none"])])
        else:
            op = rng.choice(["begin", "end"])
            do(op, [dt()])
    return {"kind": kind, "local": "UTC", "steps": steps}


def sessions(chunk):
    return [session(a) for a in chunk]


def run(ctx):
    en.init_zones()
    for zones in ctx.pick(['"", "A", "B"', '"E", "F"'],
                          ['"", "A", "B"', '"E", "F"', '"C", "D", ""']):
        consts = f"""Kinds = {{"event", "todo"}}
 Days = {{737425, 737426, 737427}}
 TimesOfDay = {ctx.pick("{0, 1, 86399}", "{0, 1, 43200, 86399}")}
 ZoneIds = {{{zones}}}
 Durs <- MCDurs
 MaxZoneOps = 0
 Low = 737425
 OpNames = {{"build", "allday", "unset"}}
"""
        c01.explore(ctx, consts, ["AlwaysValid", "EndIsBeginPlusDuration",
                                  "AllDayIdempotent", "AllDayCovers", "UnsetKeeps"],
                    "an all-day switch of the model is not reproduced by the code")
    with en.scaled(2):
        consts = f"""Kinds = {{"event", "todo"}}
 Days = {{737425, 737426}}
 TimesOfDay = {{0, 1, 172799}}
 ZoneIds = {{"", "A"}}
 Durs <- MCDurs
 MaxZoneOps = 0
 Low = 737425
 OpNames = {{"build", "allday", "unset"}}
"""
        c01.explore(ctx, consts, ["AlwaysValid", "EndIsBeginPlusDuration",
                                  "AllDayIdempotent", "AllDayCovers", "UnsetKeeps"],
                    "an all-day switch of the model is not reproduced by the code (half seconds)")
    n = ctx.pick(1500, 20000)
    dst = sorted(en.DST)
    jobs = [(("event", "todo")[i % 2], ctx.rng.random(), ctx.rng.choice([4, 8, 16]),
             ctx.rng.choice(dst) if i % 3 == 0 else None) for i in range(n)]
    logs = core.parallel(sessions, core.split(jobs))
    ctx.validate("C01Trace", logs, " Zones <- HdrZones",
                 header={"zones": en.header_zones(dst)},
                 describe=lambda s, p, c: s["kind"])
    with en.scaled(2):
        logs = core.parallel(sessions, core.split(jobs[:n // 3]))
        ctx.validate("C01Trace", logs, en.HALF, header={"zones": en.header_zones()},
                     describe=lambda s, p, c: s["kind"])
    ctx.assumptions += ["values of whole and half seconds", "begin and end are not in a skipped hour"]
