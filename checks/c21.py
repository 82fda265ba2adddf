"""C21: attendee and organizer properties mirror their parameters."""
import random

from lib import comps, core
from lib.core import txt
from lib.texts import outcome

COMMON = [("sent_by", "SENT-BY", "uri"), ("common_name", "CN", "text"), ("directory", "DIR", "uri")]
ATT = COMMON + [("user_type", "CUTYPE", "text"), ("member", "MEMBER", "uris"), ("role", "ROLE", "text"),
                ("status", "PARTSTAT", "text"), ("rsvp", "RSVP", "bool"),
                ("delegated_to", "DELEGATED-TO", "uris"), ("delegated_from", "DELEGATED-FROM", "uris")]
PROPS = {"attendee": ATT, "organizer": COMMON}
TEXTS = ["", "x", "Jim \"Q\" D, jr; x:y", "^n^^", "line\nbreak", "\u00fc\U0001f600", "a" * 90, " ", "TRUE",
         "CHAIR", "tab\t", "=", "ACCEPTED", "declined"]
URIS = ["mailto:a@b", "http://h/p?q=1,2;3#f", "ldap://host:6666/o=ABC%20Industries,c=US???(cn=Jim)", "",
        "CID:x".lower(), "urn:uuid:1"]


def cls(who):
    import ics

    return ics.Attendee if who == "attendee" else ics.Organizer


def email(e):
    return e if isinstance(e, str) else e.geturl()


def enc_p(p):
    import ics

    who = "attendee" if type(p) is ics.Attendee else "organizer" if type(p) is ics.Organizer else "?"
    return {"who": who, "e": email(p.email), "x": {str(k): [str(v) for v in vs] for k, vs in p.extra.items()}}


def get(p, n, ty):
    from urllib.parse import ParseResult

    def one(v):
        if ty in ("uri", "uris"):
            return v.geturl() if isinstance(v, ParseResult) else f"?{v!r}"
        if ty == "bool":
            return {True: "TRUE", False: "FALSE"}[v] if isinstance(v, bool) else f"?{v!r}"
        return v if isinstance(v, str) else f"?{v!r}"
    try:
        v = getattr(p, n)
    except Exception as e:
        return {"k": core.exc_name(e), "v": []}
    if v is None:
        return {"k": "none", "v": []}
    if ty == "uris":
        return {"k": "ok", "v": [one(x) for x in v]} if isinstance(v, list) else {"k": "?", "v": []}
    return {"k": "ok", "v": [one(v)]}


def reads(p):
    return [get(p, n, ty) for n, _, ty in PROPS[enc_p(p)["who"]]]


def dump(ps):
    return [{"p": enc_p(p), "r": reads(p)} for p in ps]


def value(ty, vals, pick=0):
    from urllib.parse import urlparse

    if ty == "text":
        return vals[0]
    if ty == "bool":
        return vals[0] == "TRUE"
    f = urlparse if pick % 2 else str
    if ty == "uri":
        return f(vals[0])
    return [list, tuple, iter][pick % 3]([f(v) for v in vals])


def do(p, op, pick=0):
    types = {n: ty for n, _, ty in PROPS[enc_p(p)["who"]]}
    if op["k"] == "set":
        setattr(p, op["n"], value(types[op["n"]], op["vals"], pick))
    elif op["k"] == "del":
        delattr(p, op["n"])
    elif op["k"] == "fill":
        p.extra[op["n"]] = list(op["vals"])
    elif op["k"] == "unfill":
        p.extra.pop(op["n"], None)
    elif op["k"] == "email":
        p.email = op["vals"][0]
    else:
        try:
            v = getattr(p, op["n"])
        except ValueError:
            return
        if isinstance(v, list):
            v.append("x")


def trip(ps, alarm=False, home=None):
    """write and read the persons; their lines, the persons read, and the calendar they are in

    home: the calendar the persons came from, written again instead of building a new one"""
    import ics

    att = [p for p in ps if isinstance(p, ics.Attendee)]
    org = [p for p in ps if not isinstance(p, ics.Attendee)]
    if home:
        alarm = bool(home.events[0].alarms)
    else:
        e = ics.Event(uid="u")
        if alarm and not org:
            e.alarms.append(ics.EmailAlarm(attendees=att))
            events = [e]
        else:
            e.attendees = att
            events = [e] + [ics.Event(uid="v", organizer=o) for o in org]
        home = ics.Calendar(events=events)
    text = home.serialize()
    lines = []

    def walk(items):
        for i in items:
            if i["t"] == "comp":
                walk(i["items"])
            elif i["n"] in ("ATTENDEE", "ORGANIZER"):
                lines.append({"n": i["n"], "e": txt(i["v"]), "x": {q["n"]: q["vals"] for q in i["ps"]}})
    walk(comps.read_tree(text)[0])
    cal = ics.Calendar(text)
    got = cal.events
    if alarm and not org:
        ga, go = list(got[0].alarms[0].attendees), []
    else:
        ga, go = list(got[0].attendees), [x.organizer for x in got[1:]]
    la = [x for x in lines if x["n"] == "ATTENDEE"]
    lo = [x for x in lines if x["n"] == "ORGANIZER"]

    def order(a, o):
        a, o = iter(a), iter(o)
        r = [next(a if isinstance(p, ics.Attendee) else o) for p in ps]
        return r
    if len(la) != len(att) or len(lo) != len(org) or len(ga) != len(att):
        return [], ga + go, None
    return order(la, lo), order(ga, go), cal


def replay(chunk):
    comps.init()
    pres = prefilled()
    bad = []
    for k, r in enumerate(chunk):
        p = cls(r["who"])("mailto:a@b", extra={n: list(v) for n, v in pres[r["pre"] - 1].items()})
        w = {"ok": True}
        for j, op in enumerate(r["hist"]):
            w = outcome(lambda: do(p, op, k + j))
            if not w["ok"]:
                break
        what = "" if w["ok"] else f"a call raised {w['exc']}"
        want = dict(r["p"], x=r["p"]["x"] or {})
        if not what and enc_p(p) != want:
            what = "stored parameters"
        if not what and not same_reads(r["reads"], reads(p)):
            what = "property values"
        got = None
        if not what:
            t = outcome(lambda: trip([p], k % 2), lambda x: [x])
            if not t["ok"]:
                what = f"writing and reading raised {t['exc']}"
            else:
                lines, got, home = t["res"][0]
                back = dict(r["back"], x=r["back"]["x"] or {})
                if len(lines) != 1 or lines[0]["e"] != back["e"] or lines[0]["x"] != back["x"]:
                    what = "written line"
                elif len(got) != 1 or enc_p(got[0]) != back:
                    what = "person read back"
                elif not same_reads(r["again"], reads(got[0])):
                    what = "property values after reading back"
                elif enc_p(p) != want:
                    what = "writing changed the person"
                else:
                    what = edited(got[0], home)
        if what:
            bad.append({"what": what, "case": r, "person": enc_p(p), "reads": reads(p), "back": repr(got)})
    return bad[:10]


def edited(p, home):
    """drop the parameters of a person that was read, give it one, and write its calendar again"""
    for x in ({}, {"X-N": ["1"]}):
        p.extra.clear()
        p.extra.update(x)
        t = outcome(lambda: trip([p], home=home), lambda x: [x])
        if not t["ok"]:
            return f"writing again raised {t['exc']}"
        if [y["x"] for y in t["res"][0][0]] != [x]:
            return "parameters written after an edit"
    return ""


def same_reads(want, got):
    return len(want) == len(got) and all(
        w["k"] == "free" or (w["k"] == g["k"] and (w["k"] != "ok" or w["v"] == g["v"]))
        for w, g in zip(want, got))


def prefilled():
    return [{}, {"X-A": ["1", "b,c"], "CN": ["old"]},
            {n: ["1", "2"] for _, n, _ in ATT}, {"RSVP": ["true"], "ROLE": [""], "X-A": ["\n"]}]


def ops():
    r = []
    for n, param, ty in ATT:
        vals = {"text": [["x"], ["a,b\"c"]], "uri": [["mailto:q@r"], ["http://a,b"]],
                "bool": [["TRUE"], ["FALSE"]], "uris": [["mailto:q@r", "b"], []]}[ty]
        r += [{"k": "set", "n": n, "vals": v} for v in vals] + [{"k": "del", "n": n}]
        r.append({"k": "fill", "n": param, "vals": ["TRUE", "y"]})
        if ty == "uris":
            r.append({"k": "touch", "n": n})
    return r + [{"k": "email", "vals": ["mailto:z"]}, {"k": "fill", "n": "X-Q", "vals": ["1"]},
                {"k": "unfill", "n": "X-A"}]


def rset(rng, who):
    n, _, ty = rng.choice(PROPS[who])
    vals = {"text": lambda: [rng.choice(TEXTS)], "uri": lambda: [rng.choice(URIS)],
            "bool": lambda: [rng.choice(["TRUE", "FALSE"])],
            "uris": lambda: [rng.choice(URIS) for _ in range(rng.choice([0, 1, 2, 3]))]}[ty]()
    return {"k": "set", "n": n, "vals": vals}


def rfill(rng):
    n = rng.choice(["X-A", "X-B", "LANGUAGE", "SCHEDULE-AGENT"] + [p for _, p, _ in ATT])
    uri = any(p == n and ty.startswith("uri") for _, p, ty in ATT)
    return {"k": "fill", "n": n, "vals": [rng.choice(URIS if uri else TEXTS) for _ in range(rng.choice([1, 1, 2]))]}


def session(args):
    seed, n = args
    rng = random.Random(seed)
    ps, steps, home = [], [], None
    for _ in range(n):
        r = rng.random()
        if not ps or (r < 0.15 and len(ps) < 3):
            who = rng.choice(["attendee", "attendee", "organizer"])
            e = rng.choice(["mailto:a@b", "b", "mailto:c,d;e@f"])
            x = {f["n"]: f["vals"] for f in (rfill(rng) for _ in range(rng.choice([0, 0, 1, 3])))}
            kw = {s["n"]: s for s in (rset(rng, who) for _ in range(rng.choice([0, 0, 1, 3])))}
            types = {a: ty for a, _, ty in PROPS[who]}
            home = None
            st = {"op": "new", "who": who, "e": e, "x": x, "kw": list(kw.values())}
            vals = {a: value(types[a], s["vals"], rng.randrange(6)) for a, s in kw.items()}

            def make():
                extra = {k: list(v) for k, v in x.items()}
                args = {"extra": extra} if extra or rng.random() < 0.5 else {}
                ps.append(cls(who)(e, **args, **vals))
            w = outcome(make)
        elif r < 0.8:
            i = rng.randrange(len(ps)) + 1
            who = enc_p(ps[i - 1])["who"]
            s = rset(rng, who)
            op = rng.choice([s, s, s, {"k": "del", "n": s["n"]}, {"k": "del", "n": s["n"]}, rfill(rng),
                             {"k": "unfill", "n": rfill(rng)["n"]}, {"k": "touch", "n": s["n"]},
                             {"k": "email", "vals": [rng.choice(["mailto:q", "z", "http://h/,"])]}])
            st = {"op": "do", "i": i, "do": op}
            w = outcome(lambda: do(ps[i - 1], op, rng.randrange(6)))
        else:
            st = {"op": "trip", "lines": []}
            before = dump(ps)
            if rng.random() < 0.3:
                home = None
            w = outcome(lambda: trip(ps, rng.random() < 0.5, home), lambda x: [x])
            st["before"] = dump(ps)
            if w["ok"]:
                st["lines"], ps, home = w["res"][0]
        st["ok"], st["exc"] = w["ok"], w["exc"]
        st["obs"] = dump(ps)
        steps.append(st)
        if not w["ok"]:
            break
    return {"steps": steps}


def sessions(chunk):
    comps.init()
    return [session(a) for a in chunk]


def run(ctx):
    comps.init()
    head = {"pre": prefilled(), "ops": ops()}
    rs = ctx.explore("MC_Persons", f"Depth = {ctx.pick(2, 3)}", ["Report", "Survives"], ["Mirrors"],
                     header=head)
    if len(rs) > 120000:
        rs = ctx.rng.sample(rs, 120000)
    for b in core.parallel(replay, core.split(rs)):
        ctx.mismatch(b["what"], **b)
    ctx.cov["replayed_model_behaviours"] += len(rs)
    jobs = [(ctx.rng.random(), 12) for _ in range(ctx.pick(600, 8000))]
    logs = core.parallel(sessions, core.split(jobs))
    ctx.validate("PersonTrace", logs)
    ctx.assumptions += ["values of the declared types only (text, boolean, URL or its text)",
                        "every person has its own parameter dictionary",
                        "URIs in normalised form"]
