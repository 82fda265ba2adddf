"""C20: a clone is equal to its original and independent of it."""
import copy
import hashlib
import random

from checks import c13, c14
from lib import compgen as gen
from lib import comps, core
from lib.core import cps, txt
from lib.texts import outcome

OBS = []          # observances by number; sub-objects of timezones are opaque


def obs_pool():
    import datetime as dtm

    import dateutil.rrule as rr
    from ics.timezone import (Timezone, TimezoneDaylightObservance,
                              TimezoneStandardObservance)
    if OBS:
        return
    h = dtm.timedelta(hours=1)
    for n in ("Europe/Berlin", "America/New_York"):
        OBS.extend(Timezone.from_tzid(n).observances)
    OBS.append(TimezoneStandardObservance(
        h, h, rr.rrule(rr.YEARLY, dtstart=dtm.datetime(1970, 1, 1), count=1), "X", "c"))
    OBS.append(TimezoneDaylightObservance(
        h, 2 * h, rr.rrule(rr.YEARLY, dtstart=dtm.datetime(1970, 6, 1)), "Y"))


def obs_no(o):
    return next((i for i, p in enumerate(OBS) if p is o), -1)


def enc_p(ps):
    def one(d):
        return {str(k): [comps.canonical(str(v)) if k == "TZID" else str(v) for v in vs]
                for k, vs in d.items()}
    return {k: {"m": isinstance(v, list), "ps": [one(d) for d in (v if isinstance(v, list) else [v])]}
            for k, v in ps.items()}


def enc(o):
    from ics.contentline import Container, ContentLine
    from ics.timezone import Timezone, TimezoneObservance

    if isinstance(o, ContentLine):
        return {"cls": "line", "a": {"name": [{"text": cps(o.name)}], "value": [{"text": cps(o.value)}]},
                "xn": "", "x": [], "p": enc_p({"params": o.params})}
    if isinstance(o, Container):
        return {"cls": "container", "a": {}, "xn": o.name, "x": comps.items(o), "p": {}}
    if isinstance(o, Timezone):
        a = {"tzid": [comps.enc_val(o.tzid)], "observances": [{"int": obs_no(i)} for i in o.observances],
             "tzurl": [] if o.tzurl is None else [comps.enc_val(o.tzurl)],
             "last_modified": [] if o.last_modified is None else [comps.enc_val(o.last_modified)]}
        cls = "tz"
    elif isinstance(o, TimezoneObservance):
        a = {"from": [comps.enc_val(o.tzoffsetfrom)], "to": [comps.enc_val(o.tzoffsetto)],
             "tzname": [] if o.tzname is None else [comps.enc_val(o.tzname)],
             "comment": [] if o.comment is None else [comps.enc_val(o.comment)]}
        cls = "obs"
    else:
        e = comps.enc(o)
        cls, a = e["cls"], e["a"]
    return {"cls": cls, "a": a, "xn": o.extra.name, "x": comps.items(o.extra), "p": enc_p(o.extra_params)}


def dump(o):
    import ics

    t = outcome(lambda: o.serialize())
    tl = -1
    if isinstance(o, ics.Calendar):
        tl = outcome(lambda: len(list(o.timeline)), lambda x: x).get("res", -2)
        tl = tl if isinstance(tl, int) else -2
    return {"o": enc(o), "t": type(o).__qualname__,
            "text": hashlib.md5(t["res"].encode("utf8", "surrogatepass")).hexdigest() if t["ok"]
            else t["exc"], "tl": tl}


def elements(o, n, vals):
    if n == "observances":
        return [OBS[v["int"]] for v in vals]
    cls = comps.cls_of(o)
    return [comps.dec_val(v, cls, n) for v in vals]


def edit_list(lst, op, vals):
    how = op["how"]
    if how == "append":
        lst.append(vals[0])
    elif how == "extend":
        lst.extend(vals)
    elif how == "insert":
        lst.insert(op["at"] - 1, vals[0])
    elif how == "delete":
        del lst[op["at"] - 1]
    elif how == "replace":
        lst[op["at"] - 1] = vals[0]
    elif how == "clear":
        lst.clear()
    else:
        lst.reverse()


def edit_params(o, op):
    line = not hasattr(o, "extra_params")
    how = op["how"]
    if how == "set":
        e = copy.deepcopy(op["entry"])
        if line:
            o.params = e["ps"][0]
        else:
            o.extra_params[op["key"]] = e["ps"] if e["m"] else e["ps"][0]
        return
    ps = {"params": o.params} if line else o.extra_params
    if how == "delete":
        del ps[op["key"]]
    elif how == "clear":
        ps.clear()
    elif how == "push":
        ps[op["key"]].append({op["pn"]: list(op["pvals"])})
    else:
        e = ps[op["key"]]
        d = e[op["at"] - 1] if isinstance(e, list) else e
        if how == "param":
            if line:
                o[op["pn"]] = op["pvals"]
            else:
                d[op["pn"]] = list(op["pvals"])
        elif how == "noparam":
            del d[op["pn"]]
        else:
            d[op["pn"]].extend(op["pvals"])


def apply(o, op):
    k = op["k"]
    if k == "set":
        n = op["n"]
        if hasattr(o, "extra"):
            setattr(o, n, comps.decoded({"cls": comps.cls_of(o), "a": {n: op["vals"]}}, n))
        else:
            setattr(o, n, txt(op["vals"][0]["text"]))
    elif k == "list":
        edit_list(getattr(o, op["n"]), op, elements(o, op["n"], op.get("vals", [])))
    elif k == "extra":
        edit_list(getattr(o, "extra", o), op, [comps.dec_item(v) for v in op.get("vals", [])])
    elif k == "rename":
        getattr(o, "extra", o).name = op["to"]
    elif k == "params":
        edit_params(o, op)
    elif k == "strip":
        o.strip_extras(extra_properties=op["props"], extra_params=op["params"],
                       property_merging=op["merging"])
    else:
        how, v = op["how"], op["v"]
        if how in ("begin", "end", "due", "duration"):
            setattr(o, how, comps.dec_dt(v) if how != "duration" else
                    __import__("datetime").timedelta(*v))
        else:
            getattr(o, how)()


# ------------------------------------------------------------ model histories

def seeds():
    """builders of start objects, with the edits to try on them"""
    import ics
    from ics.contentline import Container, ContentLine
    from ics.timezone import Timezone

    p2 = gen.person("b", X_Y=["q:r"])
    al = gen.C(gen.comp("display", description=[gen.T("d")]))
    uri = {"uri": cps("http://x")}

    def dress(o, multi):
        o.extra.append(ContentLine("X-A", {"P": ["1"]}, "v"))
        o.extra.append(Container("X-C", [ContentLine("X-B")]))
        o.extra_params["SUMMARY"] = {"LANGUAGE": ["en", "de"]}
        if multi:
            o.extra_params[multi] = [{"X": ["1"], "__merge_next": ["TRUE"]}, {}]
        return o

    def event():
        return dress(comps.dec(gen.comp("event", attendees=[p2], categories=[gen.T("a"), gen.T("b")],
                                        alarms=[al], attach=[uri])), "CATEGORIES")

    def todo():
        return dress(comps.dec(gen.comp("todo", summary=[gen.T("s")], alarms=[al])), None)

    def cal():
        return dress(comps.dec(gen.comp("calendar", events=[gen.C(gen.comp("event"))])), None)

    def email():
        return dress(comps.dec(gen.comp("email", attendees=[p2], attach=[uri])), "ATTACH")

    def custom():
        return dress(comps.dec(gen.comp("custom", action=[gen.T("X-DO")], repeat=[{"int": 1}])), None)

    def tz():
        return dress(Timezone("X/Y", OBS[:2], None, None), None)

    def line():
        return ContentLine("X-A", {"P": ["1", "2"], "Q": ["3"]}, "v")

    class Mine(ics.Event):
        NAME = "VEVENT"

    def mine():
        return dress(Mine(uid="u", dtstamp=c13.gen_stamp(), summary="s"), None)

    def box():
        return Container("X-C", [line(), Container("X-D", [line()])])

    x = gen.L("X-Z", "9", P=["1"])
    common = [{"k": "extra", "how": "append", "vals": [x]}, {"k": "extra", "how": "delete", "at": 1},
              {"k": "extra", "how": "clear"}, {"k": "extra", "how": "replace", "at": 2, "vals": [x]},
              {"k": "rename", "to": "X-N"}]
    params = [{"k": "params", "how": "delete", "key": "SUMMARY"},
              {"k": "params", "how": "set", "key": "UID", "entry": {"m": False, "ps": [{"X": ["1"]}]}},
              {"k": "params", "how": "param", "key": "SUMMARY", "at": 1, "pn": "N", "pvals": ["1"]},
              {"k": "params", "how": "noparam", "key": "SUMMARY", "at": 1, "pn": "LANGUAGE"},
              {"k": "params", "how": "value", "key": "SUMMARY", "at": 1, "pn": "LANGUAGE", "pvals": ["x"]},
              {"k": "strip", "props": True, "params": True, "merging": True},
              {"k": "strip", "props": False, "params": False, "merging": True},
              {"k": "params", "how": "clear"}]

    def several(key):
        return [{"k": "params", "how": "param", "key": key, "at": 1, "pn": "N", "pvals": ["1"]},
                {"k": "params", "how": "value", "key": key, "at": 1, "pn": "X", "pvals": ["z"]},
                {"k": "params", "how": "noparam", "key": key, "at": 1, "pn": "__merge_next"},
                {"k": "params", "how": "push", "key": key, "pn": "Y", "pvals": ["z"]}]

    def lists(n, v):
        return [{"k": "list", "n": n, "how": "append", "vals": [v]},
                {"k": "list", "n": n, "how": "delete", "at": 1}, {"k": "list", "n": n, "how": "clear"},
                {"k": "list", "n": n, "how": "replace", "at": 1, "vals": [v]}]

    def sets(n, *v):
        return {"k": "set", "n": n, "vals": list(v)}

    return [
        (event, common + params + several("CATEGORIES") + lists("categories", gen.T("z"))
         + lists("attendees", gen.person("c"))[:2] + lists("alarms", gen.C(gen.comp("none")))[:2]
         + lists("attach", {"bytes": [1]})[:2] + [sets("summary", gen.T("n")), sets("uid", gen.T("w")),
                                                  sets("categories", gen.T("k"))]),
        (todo, common + params + lists("alarms", gen.C(gen.comp("none"))) + [sets("percent", {"int": 3})]),
        (cal, common + params + lists("events", gen.C(gen.comp("event", summary=[gen.T("2")])))
         + lists("todos", gen.C(gen.comp("todo")))[:1] + [sets("prodid", gen.T("n"))]),
        (email, common + params + several("ATTACH") + lists("attendees", gen.person("c"))
         + lists("attach", {"bytes": [1]}) + [sets("summary", gen.T("n"))]),
        (custom, common + params + [sets("repeat", {"int": 3})]),
        (tz, common + params + lists("observances", {"int": 3})
         + [{"k": "list", "n": "observances", "how": "reverse"}]),
        (line, [{"k": "params", "how": "param", "key": "params", "at": 1, "pn": "P", "pvals": ["7"]},
                {"k": "params", "how": "param", "key": "params", "at": 1, "pn": "N", "pvals": ["7", "8"]},
                {"k": "params", "how": "noparam", "key": "params", "at": 1, "pn": "P"},
                {"k": "params", "how": "value", "key": "params", "at": 1, "pn": "P", "pvals": ["9"]},
                {"k": "params", "how": "set", "key": "params", "entry": {"m": False, "ps": [{"R": ["1"]}]}},
                sets("value", gen.T("w")), sets("name", gen.T("X-N"))]),
        (mine, common + params + [sets("summary", gen.T("n"))] + lists("categories", gen.T("z"))),
        (box, common)]


def norm(o):
    return {**o, "a": o["a"] or {}, "p": {k: {**v, "ps": [d or {} for d in v["ps"]]}
                                          for k, v in (o["p"] or {}).items()}}


def replay(chunk):
    comps.init()
    obs_pool()
    sds = seeds()
    bad = []
    for r in chunk:
        build, ops = sds[r["seed"] - 1]
        objs = [build()]
        what = ""
        for i, j in r["hist"]:
            o = objs[i - 1]
            if j:
                w = outcome(lambda: apply(o, ops[j - 1]))
            else:
                t0 = dump(o)
                w = outcome(lambda: objs.append(o.clone()))
                if w["ok"] and not (objs[-1] is not o and objs[-1] == o and o == objs[-1]):
                    what = "a clone is not a new equal object"
                elif w["ok"] and not dump(o) == dump(objs[-1]) == t0:
                    what = "a clone differs from its original"
            if not w["ok"]:
                what = f"a call raised {w['exc']}"
            if what:
                break
        got = [enc(o) for o in objs]
        if not what and got != [norm(o) for o in r["objs"]]:
            what = "the objects differ from the model"
        if what:
            bad.append({"what": what, "class": build.__name__, "real": got, "model": r["objs"],
                        "history": [ops[j - 1] | {"on": i} if j else f"clone {i}" for i, j in r["hist"]]})
    return bad[:10]


# ------------------------------------------------------------------ sessions

def start(rng):
    """an object to begin with"""
    import ics
    from ics.timezone import Timezone

    r = rng.random()
    if r < 0.12:
        ps = {p["n"]: p["vals"] for p in gen.rparams(rng, 3)}
        return ics.contentline.ContentLine(rng.choice(["X-A", "dtstart"]), ps, rng.choice(["", "v" * 90]))
    if r < 0.25:
        k = rng.randrange(len(OBS))
        o = rng.choice([lambda: Timezone("Z/" + str(k), rng.sample(OBS, rng.randrange(1, 4)),
                                         rng.choice([None, "http://tz"]),
                                         rng.choice([None, c13.gen_stamp()])),
                        lambda: Timezone.from_tzid("Europe/Berlin").clone(),
                        lambda: OBS[k].clone()])()
        for _ in range(rng.randrange(3)):
            o.extra.append(comps.dec_item(gen.ritem(rng)))
        return o
    if r < 0.6:
        src = gen.rcomp(rng, "calendar", rng.choice([0.2, 0.5]), 0.5)
        items = comps.read_tree(comps.dec(src).serialize())[0][0]["items"]
        items = copy.deepcopy(c14.decorate(rng, copy.deepcopy(items), "calendar", False))
        rec = c14.read([gen.K("VCALENDAR", *items)])
        if rec["ok"]:
            cal = rec["res"][0]
            return c14.reach(cal, rng.choice(list(c14.paths(comps.enc(cal))))[0])
    cls = rng.choice(["event", "todo", "calendar", *comps.ALARMS])
    o = comps.dec(gen.rcomp(rng, cls, 0.5, 0.6))
    if rng.random() < 0.3 and cls in ("event", "todo", "calendar"):
        T = comps.classes()[cls]

        class Mine(T):
            NAME = T.NAME
        m = Mine(**{n: getattr(o, n) for n in comps.ATTRS[cls]})
        m.extra.extend(o.extra)
        return m
    return o


def rop(rng, o, e):
    r = rng.random()
    cls = e["cls"]
    if r < 0.15:
        return {"k": "clone"}
    lists = [n for n in e["a"] if (cls, n) in comps.LISTS or n == "observances"]
    if r < 0.4 and lists:
        n = rng.choice(lists)
        have = e["a"][n]
        if n == "observances":
            vals = [{"int": rng.randrange(len(OBS))} for _ in range(2)]
        else:
            vals = []
            while not vals:
                vals = gen.rcomp(rng, cls, 0.9, 0.2)["a"][n]
        return rlist(rng, {"k": "list", "n": n}, have, vals)
    if r < 0.55 and (cls not in ("tz", "obs")):
        if cls == "line":
            n = rng.choice(["name", "value"])
            return {"k": "set", "n": n, "vals": [gen.T(rng.choice(["X-B", "Z", "LINE"]))]}
        n = rng.choice([a for a in comps.ATTRS[cls] if a != "action"])
        return {"k": "set", "n": n, "vals": gen.rcomp(rng, cls, 0.8, 0)["a"].get(n, [])}
    if r < 0.62 and cls in ("event", "todo"):
        how = rng.choice(["begin", "end" if cls == "event" else "due", "duration", "make_all_day",
                          "unset_all_day"])
        v = gen.rdur(rng) if how == "duration" else gen.rdt(rng)
        return {"k": "span", "how": how, "v": v}
    if r < 0.78 and cls != "line":
        if rng.random() < 0.15:
            return {"k": "rename", "to": rng.choice(["X-N", "VEVENT", "FOO"])}
        return rlist(rng, {"k": "extra"}, e["x"], [gen.ritem(rng), gen.ritem(rng)])
    if r < 0.84 and cls != "line":
        f = [rng.random() < 0.5 for _ in range(3)]
        f[rng.randrange(3)] = True
        return {"k": "strip", "props": f[0], "params": f[1], "merging": f[2]}
    keys = list(e["p"])
    how = rng.choice(["set", "delete", "param", "noparam", "value", "push", "clear"])
    pn, pvals = rng.choice(gen.PNAMES), [rng.choice(gen.PVALS)]
    if how == "set" or not keys:
        m = cls != "line" and rng.random() < 0.5
        ps = [{q["n"]: q["vals"] for q in gen.rparams(rng)} for _ in range(rng.choice([1, 2]) if m else 1)]
        key = "params" if cls == "line" else rng.choice(["SUMMARY", "UID", "X-K", "CATEGORIES"] + keys)
        return {"k": "params", "how": "set", "key": key, "entry": {"m": m, "ps": ps}}
    key = rng.choice(keys)
    ent = e["p"][key]
    if how == "clear" and cls != "line":
        return {"k": "params", "how": "clear"}
    if how == "delete" and cls != "line":
        return {"k": "params", "how": "delete", "key": key}
    if how == "push" and ent["m"]:
        return {"k": "params", "how": "push", "key": key, "pn": pn, "pvals": pvals}
    if not ent["ps"]:
        return {"k": "clone"}
    at = rng.randrange(len(ent["ps"])) + 1
    have = list(ent["ps"][at - 1])
    if how in ("noparam", "value") and have:
        pn = rng.choice(have)
    else:
        how = "param"
    return {"k": "params", "how": how, "key": key, "at": at, "pn": pn, "pvals": pvals}


def rlist(rng, op, have, vals):
    how = rng.choice(["append", "append", "extend", "insert", "delete", "replace", "clear", "reverse"])
    if not have and how in ("delete", "replace"):
        how = "append"
    at = rng.randrange(len(have) + (how == "insert")) + 1 if how in ("insert", "delete", "replace") else 1
    return {**op, "how": how, "at": at, "vals": vals}


def session(args):
    seed, n = args
    rng = random.Random(seed)
    objs = [start(rng)]
    first = dump(objs[0])
    steps, cur = [], [first]
    for k in range(rng.randrange(2, n + 1)):
        if k == 0 and rng.random() < 0.7:
            i, op = 1, {"k": "clone"}
        else:
            i = rng.randrange(len(objs)) + 1
            op = rop(rng, objs[i - 1], cur[i - 1]["o"])
        if op["k"] == "clone" and len(objs) == 4:
            continue
        o = objs[i - 1]
        st = {"i": i, "op": op, "fresh": True, "eq": True}
        if op["k"] == "clone":
            w = outcome(lambda: objs.append(o.clone()))
            if w["ok"]:
                st["fresh"] = all(objs[-1] is not p for p in objs[:-1])
                st["eq"] = bool(o == objs[-1]) and bool(objs[-1] == o) and not o != objs[-1]
        else:
            w = outcome(lambda: apply(o, op))
        st["ok"], st["exc"] = w["ok"], w["exc"]
        st["obs"] = cur = [dump(p) for p in objs]
        steps.append(st)
    return {"start": [first], "steps": steps}


def sessions(chunk):
    comps.init()
    obs_pool()
    return [session(a) for a in chunk]


def run(ctx):
    comps.init()
    comps.zones()
    obs_pool()
    sds = seeds()
    head = {"seeds": [enc(b()) for b, _ in sds], "ops": [o for _, o in sds]}
    rs = ctx.explore("MC_Clones", f"Depth = {ctx.pick(3, 4)}", ["Report"], ["Independent"], header=head)
    if ctx.thorough and len(rs) > 400000:
        rs = [r for r in rs if len(r["hist"]) < 4] + ctx.rng.sample(
            [r for r in rs if len(r["hist"]) == 4], 300000)
    for b in core.parallel(replay, core.split(rs, core.NCPU * 4)):
        ctx.mismatch(f"{b['what']} ({b['class']})", **b)
    ctx.cov["replayed_model_behaviours"] += len(rs)
    jobs = [(ctx.rng.random(), 9) for _ in range(ctx.pick(500, 3000))]
    logs = core.parallel(sessions, core.split(jobs))
    ctx.validate("CloneTrace", logs)
    ctx.assumptions += ["sub-components, persons, observances and lines shared by a shallow clone "
                        "are not edited in place"]
