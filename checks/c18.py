"""C18: assignment checks and converts like construction."""
import datetime as dtm
import random

from lib import compgen as gen
from lib import comps, core
from lib.core import cps, txt
from lib.texts import outcome

W = [gen.DAY, 36000]
LISTRULE = {"many"}


def raws():
    dt, T = gen.dt, gen.T
    p = {"who": "organizer", "e": cps("mailto:a"), "x": [{"n": "CN", "vals": ["c"]}]}
    r = [{"none": True}, T("x"), T(""), T("confirmed"), T("TENTATIVE"), T("Maybe"), T("cancelled "),
         {"int": 0}, {"int": 5}, {"int": 9}, {"int": 10}, {"int": 100}, {"int": 101}, {"int": -1},
         {"bool": True}, {"float": "2.0"}, {"float": "0.5"}, {"bytes": [1, 2]},
         {"uri": cps("http://a/b")}, {"obj": True},
         {"dt": dt(0, 36000, "")}, {"dt": dt(0, 36000, "UTC")},
         {"dt": dt(0, 3600, "America/New_York")}, {"dt": dt(0, 3600, "Europe/Berlin")},
         {"dtlike": {"form": "date", "w": [[gen.DAY, 0]]}},
         {"dtlike": {"form": "tuple", "w": [W]}}, {"dtlike": {"form": "tuple", "w": []}},
         {"dtlike": {"form": "dict", "w": [W]}}, {"dtlike": {"form": "dict", "w": []}},
         {"dur": [0, 300]}, {"dur": [-1, 0]}, {"durlike": {"form": "tuple", "d": [[1, 5]]}},
         {"durlike": {"form": "dict", "d": [[1, 5]]}}, {"durlike": {"form": "dict", "d": []}},
         {"geo": {"form": "geo", "v": [1500000, -2000000]}},
         {"geo": {"form": "tuple", "v": [0, 1]}}, {"geo": {"form": "dict", "v": [5, 0]}},
         {"person": p}, {"person": {**p, "who": "attendee"}},
         gen.span("event", dt(0, 0, "")), gen.span("todo", None, dt(0, 0, "UTC")),
         {"span": {**gen.span("event", dt(0, 0, ""))["span"], "k": "base"}},
         {"comp": gen.comp("event")}, {"comp": gen.comp("none")}]
    for form in ("list", "tuple", "iter"):
        r += [{"list": {"form": form, "xs": xs}} for xs in
              ([], [T("a"), T("b")], [{"person": {**p, "who": "attendee"}}],
               [{"uri": cps("http://a")}, {"bytes": [3]}])]
    r += [{"list": {"form": "list", "xs": [{"comp": gen.comp(c)}]}}
          for c in ("event", "todo", "display")]
    return r


SHORT = ["none", "text", "int", "dt", "dur", "geo", "person", "list"]


def real(r, pick=0):
    """a fresh Python value for a raw value"""
    import ics
    from ics.geo import Geo

    (k, v), = r.items()
    if k == "none":
        return None
    if k == "obj":
        return object()
    if k == "float":
        return float(v)
    if k == "dtlike":
        if v["form"] == "date":
            return dtm.date.fromordinal(v["w"][0][0])
        if not v["w"]:
            return (2020, 13, 1) if v["form"] == "tuple" else {"year": 2020}
        d = dtm.datetime.fromordinal(v["w"][0][0]) + dtm.timedelta(seconds=v["w"][0][1])
        t = (d.year, d.month, d.day, d.hour, d.minute, d.second)
        return t if v["form"] == "tuple" else dict(
            zip(("year", "month", "day", "hour", "minute", "second"), t))
    if k == "durlike":
        if not v["d"]:
            return {"bananas": 1}
        d = v["d"][0]
        return tuple(d) if v["form"] == "tuple" else {"days": d[0], "seconds": d[1]}
    if k == "geo":
        g = (v["v"][0] / 1000000, v["v"][1] / 1000000)
        return Geo(*g) if v["form"] == "geo" else g if v["form"] == "tuple" else {
            "latitude": g[0], "longitude": g[1]}
    if k == "person":
        T = ics.Organizer if v["who"] == "organizer" else ics.Attendee
        return T(txt(v["e"]), extra=comps.dec_params(v["x"]))
    if k == "span":
        T = {"event": ics.EventTimespan, "todo": ics.TodoTimespan, "base": ics.Timespan}[v["k"]]
        return T(*[comps.dec_dt(v[f][0], pick) if v[f] else None for f in "be"],
                 dtm.timedelta(*v["d"][0]) if v["d"] else None, "day" if v["day"] else "second")
    if k == "list":
        xs = [real(x, pick) for x in v["xs"]]
        return xs if v["form"] == "list" else tuple(xs) if v["form"] == "tuple" else iter(xs)
    return comps.dec_val(r, "", "", pick)


SIMPLE = (int, float, str, bytes, tuple, dict, dtm.date, dtm.timedelta)


def enc_any(v, cls):
    try:
        r = comps.enc_val(v, cls)
    except Exception:
        r = {"other": "odd " + type(v).__name__}
    if "other" in r and not isinstance(v, SIMPLE):
        return {"other": type(v).__name__}
    return r


def enc_attrs(o, cls, own):
    res = {}
    for n in comps.ATTRS[cls] + list(own):
        v = getattr(o, n)
        if isinstance(v, list) and ((cls, n) in comps.LISTS or own.get(n) in LISTRULE):
            res[n] = [enc_any(i, cls) for i in v]
        else:
            res[n] = [] if v is None else [enc_any(v, cls)]
    return res


NEEDED = {"event": ["timespan"], "todo": ["timespan"], "calendar": ["version", "prodid"]}


def subclass(base, own, wrap):
    """a subclass with attributes of its own"""
    import attr
    from attr.converters import optional as c_optional
    from attr.validators import in_
    from attr.validators import optional as v_optional

    from ics.utils import ensure_datetime

    make = {"rank": lambda: attr.ib(default=None, validator=v_optional(in_(range(4)))),
            "tag": lambda: attr.ib(default=None, converter=c_optional(str.upper)),
            "moment": lambda: attr.ib(default=None, converter=ensure_datetime),
            "many": lambda: attr.ib(factory=list, converter=list),
            "free": lambda: attr.ib(default=None)}
    T = type("Sub", (base,), {n: make[r]() for n, r in own.items()})
    return attr.s(eq=True, order=False)(T) if wrap else T


def kwargs(cls, given, plain):
    """what a constructor needs besides the given values"""
    import ics

    need = {"timespan": {"event": ics.EventTimespan, "todo": ics.TodoTimespan}.get(cls),
            "version": lambda: "2.0", "prodid": lambda: "p"}
    return {n: need[n]() for n in NEEDED.get(cls, []) if n not in given and not plain}


def construct(T, cls, kw, plain):
    import ics

    with ics.event.deterministic_event_data("gen"):
        return T(**kwargs(cls, kw, plain), **kw)


def replay(args):
    chunk, rw, local = args
    core.set_local_tz(local)
    comps.init()
    bad = []
    for r in chunk:
        cls, n = r["cls"], r["n"]
        T = comps.classes()[cls]
        o = construct(T, cls, {}, True)
        for i, out in zip(r["given"], r["out"]):
            raw = rw[i - 1]
            before = enc_attrs(o, cls, {})
            w = outcome(lambda: setattr(o, n, real(raw)))
            after = enc_attrs(o, cls, {})
            what = ""
            if out["k"] == "ok":
                if not w["ok"]:
                    what = "an assignment rejected a valid value"
                elif {**before, n: out["v"]} != after:
                    what = "an assignment stored something else"
            elif out["k"] != "free" and w["ok"]:
                what = "an assignment accepted an invalid value"
            elif out["k"] not in ("free", "error") and w["exc"] != out["k"]:
                what = "an assignment raised the wrong kind of error"
            elif not w["ok"] and before != after:
                what = "a rejected assignment changed the object"
            if not what and not ("none" in raw and n in ("events", "todos")):
                t = outcome(lambda: construct(T, cls, {n: real(raw)}, True), lambda x: [x])
                if (t["ok"], t["exc"]) != (w["ok"], w["exc"]) or t["ok"] and \
                        enc_attrs(t["res"][0], cls, {})[n] != after[n]:
                    what = "assignment and construction treat a value differently"
                    w = {"assign": [w["ok"], w["exc"]], "construct": [t["ok"], t["exc"]]}
            if what:
                bad.append({"what": what, "class": cls, "attribute": n, "value": raw,
                            "expected": out, "seen": after[n], "outcome": str(w)})
                break
    return bad[:20]


def session(args):
    seed, n = args
    rng = random.Random(seed)
    local = rng.choice(["UTC", "UTC", "Europe/Berlin", "America/New_York"])
    core.set_local_tz(local)
    pool = raws()
    classes, types, plain = [], [], []
    for _ in range(rng.choice([1, 2, 4])):
        if classes and rng.random() < 0.6:
            b = rng.randrange(len(classes))
            base, cls, own = types[b], classes[b]["cls"], classes[b]["own"]
        else:
            cls = rng.choice(list(comps.ATTRS))
            base, own, b = comps.classes()[cls], {}, None
        names = rng.sample([f"own_{x}{len(classes)}" for x in
                            ("rank", "tag", "moment", "many", "free")], rng.choice([0, 1, 2]))
        if cls == "calendar":
            names = []
        add = {x: x[4:-1] for x in names}
        wrap = bool(names)
        if b is None and rng.random() < 0.4:
            types.append(base)
            add = {}
            plain.append(True)
        else:
            types.append(subclass(base, add, wrap))
            plain.append(not wrap and (b is None or plain[b]))
        classes.append({"cls": cls, "own": {**own, **add}})
    objs, steps, lists = [], [], []

    def dump():
        return [enc_attrs(o, classes[c]["cls"], classes[c]["own"]) for c, o in objs]

    def value(ci, a):
        cls = classes[ci]["cls"]
        if rng.random() < 0.45 and a in comps.ATTRS[cls]:
            vals = gen.rcomp(rng, cls, 0.9, 0)["a"].get(a, [])
            if (cls, a) in comps.LISTS:
                vals = [{"person": {**v["person"], "who": "attendee"}} if "person" in v else v
                        for v in vals]
                return {"list": {"form": rng.choice(["list", "list", "tuple", "iter"]), "xs": vals}}
            if vals:
                (k, v), = vals[0].items()
                return {"geo": {"form": rng.choice(["geo", "tuple", "dict"]), "v": v}} if k == "geo" \
                    else {"person": {**v, "who": "organizer"}} if k == "person" else vals[0]
        if rng.random() < 0.2:
            return rng.choice([{"int": rng.randrange(-3, 12)}, {"int": rng.randrange(-2, 120)},
                               gen.rtext(rng), {"dt": gen.rdt(rng)}, {"dur": gen.rdur(rng, True)},
                               gen.rspan(rng, rng.choice(["event", "todo"]))])
        return rng.choice(pool)

    def names(ci):
        c = classes[ci]
        return [a for a in comps.ATTRS[c["cls"]] if a != "action"] + list(c["own"])

    def lists_none(ci, a, raw):
        return classes[ci]["cls"] == "calendar" and a in ("events", "todos") and "none" in raw

    for _ in range(n):
        op = rng.choice(["new", "assign", "assign", "assign", "assign", "touch"])
        if op == "new" or not objs:
            ci = rng.randrange(len(classes))
            kw = {a: value(ci, a) for a in rng.sample(names(ci), rng.choice([0, 1, 1, 2, 3]))}
            kw = {a: v for a, v in kw.items() if not lists_none(ci, a, v)}
            made = outcome(lambda: construct(types[ci], classes[ci]["cls"],
                                             {a: real(v) for a, v in kw.items()}, plain[ci]),
                           lambda x: [x])
            if made["ok"]:
                objs.append((ci, made["res"][0]))
            steps.append({"op": "new", "ci": ci + 1, "kw": kw, "ok": made["ok"], "exc": made["exc"],
                          "obs": dump()})
        elif op == "touch":
            if not lists:
                continue
            rng.choice(lists).append("touched")
            steps.append({"op": "touch", "obs": dump()})
        else:
            i = rng.randrange(len(objs))
            ci, o = objs[i]
            # the same few attributes again and again, own ones often
            own = list(classes[ci]["own"])
            a = rng.choice(own) if own and rng.random() < 0.4 else rng.choice(names(ci))
            raw = value(ci, a)
            v = real(raw, rng.randrange(6))
            if isinstance(v, list):
                lists.append(v)
            w = outcome(lambda: setattr(o, a, v))
            twin = []
            if not lists_none(ci, a, raw):
                t = outcome(lambda: construct(types[ci], classes[ci]["cls"], {a: real(raw)},
                                              plain[ci]), lambda x: [x])
                tv = []
                if t["ok"]:
                    tv = enc_attrs(t["res"][0], classes[ci]["cls"], classes[ci]["own"])[a]
                twin = [{"ok": t["ok"], "exc": t["exc"], "v": tv}]
            steps.append({"op": "assign", "i": i + 1, "n": a, "raw": raw, "ok": w["ok"],
                          "exc": w["exc"], "twin": twin, "obs": dump()})
    return {"local": local, "classes": classes, "steps": steps}


def sessions(chunk):
    comps.init()
    return [session(a) for a in chunk]


def run(ctx):
    comps.init()
    comps.zones()
    rw = raws()
    short = [i + 1 for i, r in enumerate(rw) if list(r)[0] in SHORT and i % 2 == 0]
    for local in ctx.pick(["Europe/Berlin"], ["Europe/Berlin", "UTC", "America/New_York"]):
        rs = ctx.explore("MC_Assign", " Zones <- MCZones",
                         ["Report", "StoredIsStable", "TypesHold", "StampsAreUTC"],
                         header=comps.header(raws=rw, short=short, local=local))
        for b in core.parallel(replay, [(c, rw, local) for c in core.split(rs)]):
            ctx.mismatch(f"{b['what']} ({b['class']}.{b['attribute']})", **b)
        ctx.cov["replayed_model_behaviours"] += len(rs)
    jobs = [(ctx.rng.random(), rn) for rn in [5, 12, 25] for _ in range(ctx.pick(150, 1500))]
    ctx.rng.shuffle(jobs)
    logs = core.parallel(sessions, core.split(jobs))
    ctx.validate("AssignTrace", logs, header=comps.header(), constants=" Zones <- TraceZones")
    ctx.assumptions += [
        "attributes without declared check: values of other types are only required to be "
        "treated alike by assignment and construction",
        "None for a calendar's events and todos means 'none given' to the constructor only"]
