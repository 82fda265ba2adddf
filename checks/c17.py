"""C17: deterministic event data applies exactly to its scope."""
import asyncio
import contextvars
import datetime as dtm
import queue
import random
import threading

from lib import compgen as gen
from lib import comps, core
from lib import entries as en
from lib.texts import outcome

EXCS = [ValueError, KeyboardInterrupt, StopIteration, GeneratorExit, asyncio.CancelledError, RuntimeError]


class Boom(Exception):
    pass


UIDS = ["uid-0", "uid-1", "uid-2", "uid-3", "", " a b ", "X@Y,;\u00e9", "0"]
DEFAULT = {"uid": "deterministic_uid@example.org",
           "stamp": {"w": [dtm.date(2000, 1, 1).toordinal(), 43200], "f": 0, "z": "UTC"}}


def scope(pick, kw):
    from ics.event import deterministic_event_data

    if pick % 2 and len(kw) == 2:
        return deterministic_event_data(*kw.values())
    return deterministic_event_data(**kw)


class World:
    """agents of all kinds, driven one step at a time"""

    def __init__(self):
        self.loop = asyncio.new_event_loop()
        ctx = contextvars.Context()
        self.agents = [ContextAgent(self, ctx)]

    def spawn(self, i, kind):
        T = {"thread": ThreadAgent, "task": TaskAgent, "copy": ContextAgent}[kind]
        self.agents.append(self.agents[i].call(lambda: T(self)))

    def close(self):
        for a in reversed(self.agents):
            a.stop()
        self.loop.close()


class ContextAgent:
    def __init__(self, world, ctx=None):
        self.ctx = ctx or contextvars.copy_context()
        self.stack = []

    def call(self, f):
        return self.ctx.run(f)

    def enter(self, cm, decorate=False):
        self.ctx.run(cm.__enter__)
        self.stack.append(cm)

    def leave(self, n, exc=None):
        for _ in range(n):
            cm = self.stack.pop()
            if exc is None:
                self.ctx.run(cm.__exit__, None, None, None)
                continue
            e = exc()
            try:
                if self.ctx.run(cm.__exit__, type(e), e, None):
                    raise Boom("exception swallowed")
            except Boom:
                raise
            except BaseException as x:
                if x is not e and x.__cause__ is not e and not isinstance(e, GeneratorExit):
                    raise

    def stop(self):
        try:
            self.leave(len(self.stack))
        except Exception:
            pass


class ThreadAgent:
    def __init__(self, world):
        self.inbox, self.outbox = queue.Queue(), queue.Queue()
        self.thread = threading.Thread(target=self.top, daemon=True)
        self.thread.start()

    def top(self):
        while self.body(0) != "stop":
            pass

    def body(self, level):
        while True:
            f = self.inbox.get()
            if f is None:
                return "stop"
            if isinstance(f, tuple) and f[0] == "leave":
                self.raising = (f[1], f[2])
            elif isinstance(f, tuple):
                cm = f[1]
                self.outbox.put((True, None))
                try:
                    if f[2]:
                        r = cm(lambda: self.body(level + 1))()
                    else:
                        with cm:
                            r = self.body(level + 1)
                    if r == "stop":
                        return r
                except BaseException as e:
                    if not getattr(e, "vp", False) and not getattr(e.__cause__, "vp", False):
                        self.outbox.put((False, e))
                        continue
            else:
                try:
                    self.outbox.put((True, f()))
                except BaseException as e:
                    self.outbox.put((False, e))
                continue
            n, exc = getattr(self, "raising", (0, None))
            if n > 0:
                self.raising = (n - 1, exc)
                if exc is None:
                    return None
                e = exc("x")
                e.vp = True
                raise e
            if isinstance(f, tuple) and f[0] == "leave" or n == 0:
                if hasattr(self, "raising"):
                    del self.raising
                    self.outbox.put((True, None))

    def ask(self, f):
        self.inbox.put(f)
        ok, r = self.outbox.get(timeout=20)
        if not ok:
            raise r
        return r

    def call(self, f):
        return self.ask(f)

    def enter(self, cm, decorate=False):
        self.ask(("enter", cm, decorate))

    def leave(self, n, exc=None):
        self.ask(("leave", n, exc))

    def stop(self):
        self.inbox.put(None)
        self.thread.join(20)


class TaskAgent:
    def __init__(self, world):
        self.loop = world.loop
        self.inbox = []
        self.wake = None
        self.out = None
        self.task = self.loop.create_task(self.top())

    async def get(self):
        while not self.inbox:
            await asyncio.sleep(0)
        return self.inbox.pop(0)

    async def top(self):
        while await self.body(0) != "stop":
            pass

    async def body(self, level):
        while True:
            f = await self.get()
            if f is None:
                return "stop"
            if isinstance(f, tuple) and f[0] == "leave":
                self.raising = (f[1], f[2])
            elif isinstance(f, tuple):
                self.out = (True, None)
                try:
                    with f[1]:
                        r = await self.body(level + 1)
                    if r == "stop":
                        return r
                except BaseException as e:
                    if not getattr(e, "vp", False) and not getattr(e.__cause__, "vp", False):
                        self.out = (False, e)
                        continue
            else:
                try:
                    self.out = (True, f())
                except BaseException as e:
                    self.out = (False, e)
                continue
            n, exc = getattr(self, "raising", (0, None))
            if n > 0:
                self.raising = (n - 1, exc)
                if exc is None:
                    return None
                if exc is asyncio.CancelledError:
                    self.task.cancel()
                    try:
                        await asyncio.sleep(0)
                    except asyncio.CancelledError as e:
                        self.task.uncancel()
                        e.vp = True
                        raise
                e = (exc if exc is not StopIteration else ValueError)("x")
                e.vp = True
                raise e
            if hasattr(self, "raising"):
                del self.raising
                self.out = (True, None)

    def ask(self, f):
        self.out = None
        self.inbox.append(f)

        async def wait():
            for _ in range(1000):
                if self.out is not None or self.task.done():
                    return
                await asyncio.sleep(0)
        self.loop.run_until_complete(wait())
        if self.out is None:
            if self.task.done():
                self.task.result()
            raise core.MachineryError("no answer from a task")
        ok, r = self.out
        if not ok:
            raise r
        return r

    call = ask

    def enter(self, cm, decorate=False):
        self.ask(("enter", cm))

    def leave(self, n, exc=None):
        self.ask(("leave", n, exc))

    def stop(self):
        if not self.task.done():
            self.inbox.append(None)

            async def wait():
                await asyncio.wait([self.task], timeout=20)
            self.loop.run_until_complete(wait())


def stamp_of(v):
    """a real date-time, named by the specification's [w, f, z]"""
    return comps.dec_dt(v)


def enc_entry(e):
    u = e.dtstamp.astimezone(dtm.timezone.utc)
    from ics.timezone import is_utc

    return {"uid": e.uid, "stamp": en.enc_naive(u.replace(tzinfo=None, microsecond=0)),
            "utc": bool(is_utc(e.dtstamp)) and e.dtstamp.utcoffset() == dtm.timedelta(0)}


TEXT = ("BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:p\r\nBEGIN:{0}\r\nSUMMARY:x\r\nEND:{0}\r\nEND:VCALENDAR")


def create(how, uid, stamp):
    import ics

    kw = {}
    if uid:
        kw["uid"] = uid[0]
    if stamp:
        kw["dtstamp"] = stamp_of(stamp[0])
    if how == "event":
        return ics.Event(**kw)
    if how == "todo":
        return ics.Todo(**kw)
    if how == "sub":
        class Mine(ics.Event):
            NAME = "VEVENT"
        return Mine(summary="x", **kw)
    if how == "readtodo":
        return ics.Calendar(TEXT.format("VTODO")).todos[0]
    return ics.Calendar(TEXT.format("VEVENT")).events[0]


def replay(chunk):
    comps.init()
    bad = []
    for k, r in enumerate(chunk):
        what, got, made = "", [], []
        w = World()
        try:
            for j, op in enumerate(r["hist"]):
                i = op["i"] - 1
                a = w.agents[i]
                if op["k"] == "enter":
                    uid, st = f"s{op['n']}", dtm.datetime.fromordinal(730000 + op["n"]).replace(
                        second=op["n"], tzinfo=dtm.timezone.utc)
                    o = outcome(lambda: a.enter(a.call(lambda: scope(k, {"uid": uid, "dtstamp": st})), (k + j) % 2))
                elif op["k"] == "leave":
                    o = outcome(lambda: a.leave(1))
                elif op["k"] == "raise":
                    o = outcome(lambda: a.leave(op["n"], EXCS[(k + j) % len(EXCS)]))
                else:
                    o = outcome(lambda: w.spawn(i, op["k"]))
                if not o["ok"]:
                    what = f"a call raised {o['exc']}"
                    break
            if not what:
                t0 = dtm.datetime.now(dtm.timezone.utc).replace(microsecond=0)
                for a in w.agents:
                    made.append(a.call(lambda: create(["event", "todo", "read"][k % 3], [], [])))
                t1 = dtm.datetime.now(dtm.timezone.utc)
                got = [enc_entry(e) for e in made]
                fresh = [e.uid for e, u in zip(made, r["uids"]) if u["how"] == "fresh"]
                if len(set(fresh)) < len(fresh) or any(u.startswith("s") for u in fresh):
                    what = "uids outside any scope"
                for e, g, u, s in zip(made, got, r["uids"], r["stamps"]):
                    if u["how"] == "scope" and g["uid"] != u["v"]:
                        what = "uid in force"
                    if s["how"] == "scope" and g["stamp"] != s["v"]:
                        what = "time stamp in force"
                    if s["how"] == "now" and not t0 <= e.dtstamp <= t1:
                        what = "current time"
                    if not g["utc"]:
                        what = "time stamp not in UTC"
        finally:
            w.close()
        if what:
            bad.append({"what": what, "case": r, "entries": got})
    return bad[:10]


def session(args):
    seed, n, local = args
    rng = random.Random(seed)
    core.set_local_tz(local)
    w = World()
    depth = [0]
    entries, steps, shared = [], [], []
    for _ in range(2):       # used as decorators, many times and by many agents
        s = {"uid": rng.choice(UIDS), "stamp": gen.rdt(rng)}
        shared.append((s, scope(0, {"uid": s["uid"], "dtstamp": stamp_of(s["stamp"])})))

    def log(st, o):
        steps.append({**st, "ok": o["ok"], "exc": o["exc"], "obs": [enc_entry(e) for e in entries]})
        return o["ok"]

    try:
        for _ in range(n):
            r = rng.random()
            i = rng.randrange(len(w.agents))
            a = w.agents[i]
            if r < 0.3:
                s = {"uid": rng.choice(UIDS), "stamp": gen.rdt(rng)}
                kw = {"uid": s["uid"], "dtstamp": stamp_of(s["stamp"])}
                pick, deco = rng.randrange(6), rng.random() < 0.4
                if pick == 0:
                    s["stamp"] = DEFAULT["stamp"]
                    del kw["dtstamp"]
                elif pick == 1:
                    s["uid"] = DEFAULT["uid"]
                    del kw["uid"]
                reuse = pick == 2 and type(a) is ThreadAgent
                if reuse:
                    s, cm0 = rng.choice(shared)
                    deco = True
                st = {"op": "enter", "i": i + 1, "scope": s}

                def go():
                    a.enter(cm0 if reuse else a.call(lambda: scope(pick, kw)), deco)
                o = outcome(go)
                depth[i] += 1
            elif r < 0.5:
                if not depth[i]:
                    continue
                exc = rng.choice(EXCS) if rng.random() < 0.5 else None
                m = rng.randrange(depth[i]) + 1
                st = {"op": "leave", "i": i + 1, "n": m}
                o = outcome(lambda: a.leave(m, exc))
                depth[i] -= m
            elif r < 0.62:
                if len(w.agents) == 5:
                    continue
                kind = rng.choice(["thread", "task", "copy"])
                st = {"op": "spawn", "i": i + 1, "kind": kind}
                o = outcome(lambda: w.spawn(i, kind))
                depth.append(0)
            else:
                how = rng.choice(["event", "todo", "sub", "read", "readtodo"])
                wrap = rng.choice(shared) if rng.random() < 0.25 else None
                given = not how.startswith("read")
                uid = [rng.choice(UIDS)] if given and rng.random() < 0.2 else []
                stamp = [gen.rdt(rng)] if given and rng.random() < 0.2 else []
                st = {"op": "new", "i": i + 1, "uid": uid, "stamp": stamp, "how": how}
                lo = dtm.datetime.now(dtm.timezone.utc)
                f = lambda: create(how, uid, stamp)  # noqa: E731
                if wrap:
                    log({"op": "enter", "i": i + 1, "scope": wrap[0]}, {"ok": True, "exc": ""})
                    f = wrap[1](f)
                o = outcome(lambda: entries.append(a.call(f)))
                hi = dtm.datetime.now(dtm.timezone.utc)
                st["lo"], st["hi"] = (en.enc_naive(x.replace(tzinfo=None, microsecond=0)) for x in (lo, hi))
            if not log(st, o):
                break
            if st["op"] == "new" and wrap:
                log({"op": "leave", "i": i + 1, "n": 1}, o)
    finally:
        w.close()
        core.set_local_tz("UTC")
    return {"local": local, "steps": steps}


def sessions(chunk):
    comps.init()
    return [session(a) for a in chunk]


def crowd(args):
    """uids of many entries created outside any scope, by several threads"""
    n, m = args
    comps.init()
    res = [[] for _ in range(m)]

    def work(i):
        hows = ["event", "todo", "sub", "event", "read"]
        for j in range(n // m):
            res[i].append(create(hows[j % len(hows)], [], []).uid)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(m)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return [u for r in res for u in r]


def run(ctx):
    comps.init()
    comps.zones()
    rs = ctx.explore("MC_Scopes", f" Depth = {ctx.pick(5, 6)}\n MaxAgents = {ctx.pick(3, 4)}\n Zones <- MCZones",
                     ["Report"], ["Isolated", "Restored"])
    if len(rs) > 60000:
        rs = ctx.rng.sample(rs, 60000)
    for b in core.parallel(replay, core.split(rs)):
        ctx.mismatch(f"{b['what']} differs from the model", **b)
    ctx.cov["replayed_model_behaviours"] += len(rs)
    # fresh means never used before, by however many entries
    jobs = [(ctx.rng.random(), rn, local) for rn in (12, 40)
            for local in ("UTC", "America/New_York", "Europe/Berlin") for _ in range(ctx.pick(60, 1500))]
    ctx.rng.shuffle(jobs)
    logs = core.parallel(sessions, core.split(jobs))
    crowds = core.parallel(crowd, [(ctx.pick(500, 2500), 3)] * ctx.pick(16, 32))
    logs.append({"local": "UTC", "steps": [{"op": "crowd", "uids": crowds}]})
    ctx.validate("ScopeTrace", logs, header=comps.header(), constants=" Zones <- TraceZones")
    ctx.assumptions += ["scopes are left in the context in which they were entered, innermost first",
                        "threads start without any scope, tasks and copied contexts with the one in force"]
