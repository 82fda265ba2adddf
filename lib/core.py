"""Shared machinery: TLC runs, trace validation, evidence, verdicts."""
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
SPEC = os.path.join(ROOT, "spec")
CP = ("/opt/veriftools/tla/tla2tools.jar:"
      "/opt/veriftools/tla/CommunityModules-deps.jar")
NCPU = min(8, os.cpu_count() or 1)


class MachineryError(Exception):
    pass


class Hang(BaseException):
    """Raised by the watchdog when the code under test does not return."""


def _alarm(signum, frame):
    raise Hang()


class limit:
    """Run a block of code under test with a wall-clock limit."""

    def __init__(self, seconds=10):
        self.seconds = seconds

    def __enter__(self):
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        return False


def setup_impl(tz="UTC"):
    sys.dont_write_bytecode = True
    src = os.path.join(REPO, "src")
    if src not in sys.path:
        sys.path.insert(0, src)
    warnings.simplefilter("ignore")
    set_local_tz(tz)
    import ics

    where = os.path.realpath(ics.__file__)
    if not where.startswith(os.path.realpath(src)):
        raise MachineryError(f"imported ics from {where}")
    ics.initialize_converters()
    return ics


def set_local_tz(tz):
    if os.environ.get("TZ") != tz:
        os.environ["TZ"] = tz
    time.tzset()


def cps(s):
    """text -> sequence of code points"""
    return [ord(c) for c in s]


def txt(seq):
    return "".join(map(chr, seq))


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random(f"{prop}:{self.seed}")
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f"vp-{prop}-")
        self.cov = {"states": 0, "transitions": 0,
                    "traces_validated_against_impl": 0, "samples": [],
                    "model_runs": [], "replayed_model_behaviours": 0,
                    "recorded_calls": 0}
        self.assumptions = []
        self.viols = []     # (key, text, replay payload)
        self.known = load_known(prop)
        self.hit_known = {}
        self.level = "model_checking"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---------------------------------------------------------------- TLC

    def tlc(self, module, cfg, env=None, workers=NCPU, timeout=800, name=None):
        d = tempfile.mkdtemp(prefix="tlc-", dir=self.scratch)
        cfgf = os.path.join(d, module + ".cfg")
        with open(cfgf, "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        cmd = ["java", "-Xmx12g", "-Xss512m", "-XX:+UseParallelGC",
               "-Djava.io.tmpdir=" + d,
               "-cp", CP, "tlc2.TLC", "-workers", str(workers),
               "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
               "-deadlock", "-nowarning", "-config", cfgf,
               os.path.join(SPEC, module + ".tla")]
        out = os.path.join(d, "out")
        t = time.time()
        with open(out, "w") as f:
            p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT,
                                 env=e, cwd=d, start_new_session=True)
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                raise MachineryError(f"TLC timed out on {module}")
        with open(out, errors="replace") as f:
            text = f.read()
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, "
                      r"(\d+) states left", text)
        res = {"rc": rc, "out": text, "wall": time.time() - t,
               "generated": int(m.group(1)) if m else None,
               "distinct": int(m.group(2)) if m else None,
               "complete": bool(m) and m.group(3) == "0" and
               "Model checking completed. No error has been found" in text}
        if m:
            self.cov["states"] += res["distinct"]
            self.cov["transitions"] += res["generated"]
        self.cov["model_runs"].append(
            {"spec": name or module, "generated": res["generated"],
             "distinct": res["distinct"], "wall_s": round(res["wall"], 1),
             "complete": res["complete"]})
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        return res

    def explore(self, module, constants="", invariants=(), properties=(),
                spec="Spec", extra="", env=None, timeout=800, must_complete=True,
                header=None):
        """Exhaustively check a bounded model; returns what it printed."""
        cfg = f"SPECIFICATION {spec}\n"
        if constants:
            cfg += "CONSTANTS\n" + constants + "\n"
        for i in invariants:
            cfg += f"INVARIANT {i}\n"
        for p in properties:
            cfg += f"PROPERTY {p}\n"
        cfg += extra + "\nCHECK_DEADLOCK FALSE\n"
        env = dict(env or {})
        if header is not None:
            env["VP_HEADER"] = self.write_header(header)
        r = self.tlc(module, cfg, env=env, timeout=timeout)
        if must_complete and not r["complete"]:
            raise MachineryError(
                f"model {module} does not satisfy its own properties or did "
                f"not finish:\n{tail(r['out'])}")
        return printed(r["out"])

    def write_header(self, header):
        hp = os.path.join(self.scratch, f"header{len(self.cov['model_runs'])}.ndjson")
        with open(hp, "w") as f:
            f.write(json.dumps(header) + "\n")
        return hp

    # --------------------------------------------------- trace validation

    def validate(self, module, sessions, constants="", extra_env=None,
                 key=None, describe=None, timeout=800, header=None):
        """Check recorded sessions against Explain of `module`.

        sessions: list of dicts with "steps" (list); all other fields are
        visible to the spec. Every session must be a behaviour of the spec.
        """
        if not sessions:
            raise MachineryError("no sessions recorded")
        path = os.path.join(self.scratch, f"trace{len(self.cov['model_runs'])}.ndjson")
        n = 0
        with open(path, "w") as f:
            for s in sessions:
                n += len(s["steps"]) + 1
                f.write(json.dumps({k: v for k, v in s.items()
                                    if not k.startswith("_")}) + "\n")
        env = {"VP_TRACE": path}
        if header is not None:
            env["VP_HEADER"] = self.write_header(header)
        env.update(extra_env or {})
        cfg = ("SPECIFICATION TraceSpec\nCONSTANTS\n Start <- MyStart\n"
               " Explain <- MyExplain\n" + constants +
               "\nCHECK_DEADLOCK FALSE\n")
        r = self.tlc(module, cfg, env=env, timeout=timeout,
                     name=module + " (trace validation)")
        bad = 0
        for sid, pos, clause, info in viols(r["out"]):
            bad += 1
            s = sessions[sid - 1]
            self.violation(module, clause, s, pos, info, key, describe)
        if not r["complete"]:
            hit = re.search(r"/\\ sid = (\d+)", r["out"])
            hits = re.findall(r"/\\ sid = (\d+)", r["out"])
            if hit and ("evaluat" in r["out"] or "Attempted" in r["out"]):
                poss = re.findall(r"/\\ pos = (\d+)", r["out"])
                s = sessions[int(hits[-1]) - 1]
                pos = int(poss[-1]) + 1 if poss else 1
                self.violation(module, "record has no counterpart in the specification",
                               s, pos, tail(r["out"], 12), key, describe)
                bad += 1
            else:
                raise MachineryError(f"trace validation with {module} failed:\n"
                                     f"{tail(r['out'])}")
        elif not bad and r["distinct"] != n:
            raise MachineryError(
                f"{module}: {r['distinct']} trace states instead of {n}")
        self.cov["traces_validated_against_impl"] += len(sessions) - bad
        self.cov["recorded_calls"] += n - len(sessions)
        self.sample(sessions)
        os.unlink(path)
        return bad

    def sample(self, items, k=3):
        have = self.cov["samples"]
        if len(have) < 8:
            for it in items[:: max(1, len(items) // k)][:k]:
                t = json.dumps(it, default=str)
                have.append(json.loads(t) if len(t) < 1500 else t[:1500])

    # ------------------------------------------------------------ verdicts

    def violation(self, module, clause, session, pos=None, info="", key=None,
                  describe=None):
        steps = session.get("steps", [])
        step = steps[pos - 1] if pos and pos <= len(steps) else None
        k = key(session, pos, clause) if key else clause
        d = describe(session, pos, clause) if describe else ""
        if k in self.known:
            self.hit_known[k] = self.known[k]
            return
        self.viols.append({"key": k, "clause": clause, "spec": module,
                           "what": d, "position": pos, "step": step,
                           "expected": info, "session": session})

    def mismatch(self, clause, **payload):
        """A model behaviour the code does not reproduce."""
        k = payload.pop("key", clause)
        if k in self.known:
            self.hit_known[k] = self.known[k]
            return
        self.viols.append({"key": k, "clause": clause, **payload})

    def finish(self):
        for k, what in self.known.items():
            if k in self.hit_known:
                print(f"KNOWN-FINDING: property={self.prop} {what}")
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed,
              "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.viols)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
        if self.viols:
            rd = os.path.join(ROOT, "evidence", "replays")
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, f"{self.prop}.json")
            with open(rp, "w") as f:
                shown = []  # of every kind a few
                for v in self.viols:
                    if len(shown) < 50 and sum(s["clause"] == v["clause"] for s in shown) < 8:
                        shown.append(v)
                json.dump(shown, f, indent=1, default=str)
            seen = set()
            for v in self.viols:
                if v["clause"] not in seen:
                    seen.add(v["clause"])
                    if len(seen) <= 8:
                        print(f"  {v['clause']}: {v.get('what', '')} "
                              f"{json.dumps(v.get('step'), default=str)[:600]} "
                              f"{str(v.get('expected', ''))[:600]}")
            print(f"VIOLATION property={self.prop} replay={rp}")
            return 1
        c = self.cov
        print(f"{self.prop} held: {c['states']} states, {c['transitions']} "
              f"transitions, {c['replayed_model_behaviours']} model behaviours "
              f"replayed, {c['traces_validated_against_impl']} recorded traces "
              f"({c['recorded_calls']} calls) validated, "
              f"{ev['wall_s']} s")
        return 0

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def load_known(prop):
    res = {}
    with open(os.path.join(ROOT, "known_findings.txt")) as f:
        for line in f:
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res


def tail(s, n=40):
    lines = [x[:400] for x in s.splitlines() if not x.startswith(('"VPJ', "Parsing file", "Semantic proc", "Linting"))]
    return "\n".join(lines[-n:])


def printed(out):
    res = []
    for line in out.splitlines():
        if line.startswith('"VPJ'):
            res.append(json.loads(json.loads(line)[3:]))
    return res


def viols(out):
    """<<"VPVIOL", sid, pos, "clause", "info">> lines (may be wrapped)"""
    for m in re.finditer(r'<<\s*"VPVIOL",\s*(\d+),\s*(\d+),\s*"((?:[^"\\]|\\.)*)",'
                         r'\s*"((?:[^"\\]|\\.)*)"\s*>>', out):
        yield int(m.group(1)), int(m.group(2)), m.group(3), m.group(4)


# -------------------------------------------------------- model graph replay

class Graph:
    """Transitions printed by a model: {"s":state,"op":...,"ok":...,"t":state}"""

    def __init__(self, edges, roots):
        self.out = {}
        for e in edges:
            self.out.setdefault(canon(e["s"]), []).append(e)
        self.path = {}
        todo = []
        for r in roots:
            k = canon(r)
            if k not in self.path:
                self.path[k] = []
                todo.append(k)
        i = 0
        while i < len(todo):
            k = todo[i]
            i += 1
            for e in self.out.get(k, ()):
                t = canon(e["t"])
                if t not in self.path:
                    self.path[t] = self.path[k] + [e]
                    todo.append(t)
        self.states = todo


def canon(x):
    return json.dumps(x, sort_keys=True, separators=(",", ":"))


def _worker():
    """keep code that takes ever more memory from ending other processes"""
    import resource

    gb = 1 << 30
    resource.setrlimit(resource.RLIMIT_AS, (4 * gb, 4 * gb))


def parallel(fn, chunks):
    """Run fn over chunks in forked processes and concatenate the results."""
    import concurrent.futures as cf
    import multiprocessing as mp

    chunks = [c for c in chunks if len(c)]
    if len(chunks) <= 1:
        return [x for c in chunks for x in fn(c)]
    try:
        with cf.ProcessPoolExecutor(min(NCPU, len(chunks)), mp.get_context("fork"),
                                    _worker) as pool:
            res = list(pool.map(fn, chunks))
    except cf.process.BrokenProcessPool as e:
        raise MachineryError("a process driving the code under test ended") from e
    return [x for r in res for x in r]


def split(items, n=NCPU * 2):
    items = list(items)
    size = max(1, -(-len(items) // n))
    return [items[i:i + size] for i in range(0, len(items), size)]


def exc_name(e):
    return type(e).__name__
