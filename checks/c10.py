"""C10: containers as typed lists."""
import itertools
import random

from lib import core


class World:
    """The objects of one history, known by their heap reference."""

    def __init__(self, heap):
        from ics.contentline import Container, ContentLine

        self.objs = []
        self.refs = {}
        for o in heap:
            if o["t"] == "line":
                x = ContentLine(o["n"], {"P": [str(p) for p in o["ps"]]}, str(o["v"]))
            else:
                x = Container(o["n"])
            self.add(x)
        for o, x in zip(heap, self.objs):
            if o["t"] == "comp":
                x.extend(self.obj(i) for i in o["xs"])

    def add(self, x):
        self.objs.append(x)
        self.refs[id(x)] = len(self.objs)

    def obj(self, r, rng=None):
        if r == 0:
            pool = ["X:1", None, 3, {}, [], b"x", object(), self.objs[:1]]
            return pool[0] if rng is None else rng.choice(pool)
        return self.objs[r - 1]

    def ref(self, x):
        from ics.contentline import Container

        if id(x) not in self.refs:
            self.add(x)
            if isinstance(x, Container):
                for i in list(x):
                    self.ref(i)
        return self.refs[id(x)]

    def dump(self):
        from ics.contentline import Container, ContentLine

        res = []
        for x in list(self.objs):
            if isinstance(x, Container):
                res.append({"t": "comp", "n": x.name,
                            "xs": [self.refs.get(id(i), 0) for i in itertools.islice(x, 500)]})
            elif isinstance(x, ContentLine):
                res.append({"t": "line", "n": x.name, "v": int(x.value),
                            "ps": [int(p) for p in x.params["P"]]})
            else:
                res.append({"t": "other"})
        return res

    def source(self, ev, rng):
        """the iterable of items, in different guises"""
        xs = [self.obj(r, rng) for r in ev["ys"]]

        def gen():
            yield from xs
            raise RuntimeError("boom")

        if ev["boom"]:
            return gen()
        k = rng.randrange(4) if rng else 0
        if ev.get("alias"):
            return self.obj(ev["alias"])
        return [xs, tuple(xs), iter(xs), (x for x in xs)][k]

    def do(self, ev, rng=None):
        from ics.contentline import Container

        op = ev["op"]
        c = self.obj(ev["c"]) if ev["c"] else None
        i, j, s = (v[0] if v else None for v in (ev["i"], ev["j"], ev["s"]))
        x = self.obj(ev["x"], rng)
        r = self.ref
        if op == "new":
            src = self.source(ev, rng)
            n = Container(ev["nm"], src)
            if isinstance(src, list):
                src.clear()
            return [r(n)]
        if op == "append":
            c.append(x)
        elif op == "insert":
            c.insert(i, x)
        elif op == "extend":
            c.extend(self.source(ev, rng))
        elif op == "iadd":
            d = c
            d += self.source(ev, rng)
            if d is not c:
                raise RuntimeError("+= made another container")
        elif op == "set":
            c[i] = x
        elif op == "setslice":
            c[i:j:s] = self.source(ev, rng)
        elif op == "del":
            del c[i]
        elif op == "delslice":
            del c[i:j:s]
        elif op == "delname":
            del c[ev["nm"]]
        elif op == "pop":
            return [r(c.pop() if i is None else c.pop(i))]
        elif op == "remove":
            c.remove(x)
        elif op == "reverse":
            c.reverse()
        elif op == "clear":
            c.clear()
        elif op == "get":
            return [r(c[i])]
        elif op == "slice":
            return [r(c[i:j:s])]
        elif op == "named":
            return [r(v) for v in c[ev["nm"]]]
        elif op == "iter":
            return [r(v) for v in c]
        elif op == "reversed":
            return [r(v) for v in reversed(c)]
        elif op == "len":
            return [len(c)]
        elif op == "in":
            return [int(x in c)]
        elif op == "count":
            return [c.count(x)]
        elif op == "index":
            if j is not None:
                return [c.index(x, 0 if i is None else i, j)]
            return [c.index(x) if i is None else c.index(x, i)]
        elif op == "eq":
            a, b = c == x, not (c != x)
            if a != b:
                raise RuntimeError("== and != disagree")
            return [int(a)]
        elif op == "clone":
            return [r(c.clone())]
        elif op == "deepclone":
            return [r(c.clone(deep=True))]
        elif op == "cloneitems":
            return [r(c.clone(self.source(ev, rng)))]
        elif op == "setvalue":
            x.value = str(i)
        elif op == "addparam":
            x.params["P"].append(str(i))
        else:
            raise core.MachineryError(op)
        return []

    def record(self, ev, rng=None):
        try:
            with core.limit(20):
                out = {"ok": True, "res": self.do(ev, rng), "exc": ""}
        except core.Hang:
            out = {"ok": False, "res": [], "exc": "Hang"}
        except core.MachineryError:
            raise
        except Exception as e:
            out = {"ok": False, "res": [], "exc": core.exc_name(e)}
        out["heap"] = self.dump()
        return out


def replay(chunk):
    bad = []
    for r in chunk:
        heap = [dict(o) for o in HEAP0]
        heap[0]["xs"] = r["xs"]
        w = World(heap)
        o = w.record(r["ev"])
        want = r["w"]
        ok = (o["ok"] == want["ok"] and o["heap"] == want["h"] and
              (o["res"] == want["r"] if o["ok"] else ("any" in r["k"] or o["exc"] in r["k"])))
        if not ok:
            bad.append({"items": r["xs"], "call": r["ev"], "got": o, "expected": want})
    return bad[:20]


HEAP0 = [{"t": "comp", "n": "M", "xs": []},
         {"t": "line", "n": "A", "v": 1, "ps": [1]},
         {"t": "line", "n": "A", "v": 1, "ps": [1]},
         {"t": "line", "n": "B", "v": 2, "ps": [1]},
         {"t": "comp", "n": "B", "xs": [2]}]

EDITS = ["append", "insert", "extend", "iadd", "set", "setslice", "del", "delslice",
         "delname", "pop", "remove", "reverse", "clear"]
QUERIES = ["get", "slice", "named", "iter", "reversed", "len", "in", "count", "index", "eq"]
COPIES = ["new", "clone", "deepclone", "cloneitems", "setvalue", "addparam"]


def below(heap, r):
    """references reachable from r"""
    res, todo = set(), [r]
    while todo:
        k = todo.pop()
        if k not in res:
            res.add(k)
            if k and heap[k - 1]["t"] == "comp":
                todo += heap[k - 1]["xs"]
    return res


def session(args):
    seed, n = args
    rng = random.Random(seed)
    names = ["A", "B", "C"]
    heap = [{"t": "comp", "n": "M", "xs": []}]
    for _ in range(rng.randrange(2, 6)):
        heap.append({"t": "line", "n": rng.choice(names), "v": rng.randrange(2),
                     "ps": [rng.randrange(2)]})
    for _ in range(rng.randrange(1, 3)):
        heap.append({"t": "comp", "n": rng.choice(names),
                     "xs": [rng.randrange(2, len(heap) + 1) for _ in range(rng.randrange(3))]})
    heap[0]["xs"] = [rng.randrange(2, len(heap) + 1) for _ in range(rng.randrange(5))]
    w = World(heap)
    start = w.dump()
    cur = start
    steps = []
    most = 12 if rng.random() < 0.9 else 60
    for _ in range(n):
        k = rng.random()
        op = rng.choice(EDITS if k < 0.6 else QUERIES if k < 0.8 else COPIES)
        if len(cur) > 30 and op in COPIES + ["slice"]:
            op = rng.choice(EDITS)
        comps = [i + 1 for i, o in enumerate(cur) if o["t"] == "comp"]
        c = 1 if rng.random() < 0.6 else rng.choice(comps)
        # never build cycles
        safe = [i + 1 for i in range(len(cur)) if c not in below(cur, i + 1)]
        ln = len(cur[c - 1]["xs"])

        def item(p=0.12):
            if rng.random() < p or not safe:
                return 0
            return rng.choice(safe)

        def idx(p=0.25):
            if rng.random() < p:
                return []
            return [rng.randrange(-ln - 2, ln + 3)]

        ev = {"op": op, "c": c, "i": [], "j": [], "s": [], "x": 0, "ys": [], "nm": "",
              "boom": False}
        if op in ("append", "remove", "in", "count", "insert", "set", "index", "eq"):
            ev["x"] = item()
        if op in ("remove", "in", "count", "index") and rng.random() < 0.6 and ln:
            ev["x"] = rng.choice(cur[c - 1]["xs"])
        if op == "eq":
            ev["x"] = rng.choice(comps) if rng.random() < 0.8 else item()
        if op in ("insert", "set", "del", "get"):
            ev["i"] = idx(0)
        elif op == "pop":
            ev["i"] = idx()
        elif op in ("slice", "setslice", "delslice"):
            ev["i"], ev["j"] = idx(), idx()
            ev["s"] = rng.choice([[], [], [], [1], [-1], [2], [-2], [3], [0]])
        elif op == "index":
            ev["i"], ev["j"] = idx(), idx()
        if op in ("extend", "iadd", "setslice", "new", "cloneitems"):
            m = rng.randrange(4) if most == 12 else rng.choice([0, 1, 3, 12, 30])
            if op == "setslice" and ev["s"] not in ([], [1]) and rng.random() < 0.8:
                st = ev["s"][0]
                if st:
                    m = len(range(*slice(ev["i"][0] if ev["i"] else None,
                                         ev["j"][0] if ev["j"] else None, st).indices(ln)))
            ev["ys"] = [item(0.06) for _ in range(m)]
            ev["boom"] = rng.random() < 0.1
            if op in ("extend", "iadd", "setslice") and rng.random() < 0.1:
                a = rng.choice([c] + [k for k in safe if cur[k - 1]["t"] == "comp"])
                ev.update(boom=False, alias=a, ys=cur[a - 1]["xs"])
        if ln > most and op in ("extend", "iadd", "append", "insert"):
            ev.update(op="delslice", i=[2], j=[], s=[])
        if op in ("named", "delname", "new"):
            ev["nm"] = rng.choice(names + ["Z"])
            if op == "new" and rng.random() < 0.1:
                ev["nm"] = ""
        if op in ("setvalue", "addparam"):
            ls = [i + 1 for i, o in enumerate(cur) if o["t"] == "line"]
            ev["x"], ev["i"] = rng.choice(ls), [rng.randrange(3)]
        ev.update(w.record(ev, rng))
        steps.append(ev)
        if ev["exc"] in ("Hang", "MemoryError"):
            break
        cur = ev["heap"]
    return {"heap": start, "steps": steps}


def sessions(chunk):
    return [session(a) for a in chunk]


def run(ctx):
    quick = not ctx.thorough
    for part, ln in (("plain", 3), ("slices", 3 if quick else 4)):
        idx = "SparseIndices" if part == "slices" and quick else "AllIndices"
        rs = ctx.explore("MC_Containers", f'MaxLen = {ln}\n Indices <- {idx}\n'
                         f' Steps <- {"FewSteps" if quick else "ManySteps"}\n'
                         f' Part = "{part}"',
                         ["AllTyped", "Laws", "DeepDisjoint"])
        for b in core.parallel(replay, core.split(rs)):
            ctx.mismatch(f"a container does not do {b['call']['op']} as the list of the model",
                         **b)
        ctx.cov["replayed_model_behaviours"] += len(rs)
    jobs = [(ctx.rng.random(), 30) for _ in range(ctx.pick(800, 12000))]
    logs = core.parallel(sessions, core.split(jobs))
    ctx.validate("ContainerTrace", logs)
    ctx.assumptions += ["histories never put a container into itself"]
