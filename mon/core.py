"""Case runner: drives workloads in worker processes, collects verdicts, writes evidence.

A check module (mon/checks/pNN.py) defines

    RULE        text: how cases are made and what counts as non-trivial
    WORKLOADS   list of W(name, func, quick=N, thorough=N)
    MINIMA      optional {counter: minimum} that a complete run must have observed

``func(c)`` receives a Case, drives the real library and calls ``c.fail(mech, msg)`` when the
oracle refutes the property on the observed execution.  Every random choice comes from
``c.rng`` (random.Random) or ``c.np`` (numpy Generator), both derived from VERIF_SEED, the
workload name and the case index, so (workload, index, seed) replays a case exactly.

Verdicts are three valued: exit 0 held, exit 1 VIOLATION, exit 3 inconclusive (the monitor
did not observe enough, a worker died, or the harness itself could not be set up).
"""
import collections
import copy
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


# Multiples of the number of quick cases given in the modules (MINIMA are for the plain number).
SCALE = {"P01": 12, "P02": 12, "P03": 10, "P04": 15, "P05": 20, "P06": 6, "P07": 8, "P09": 4,
         "P10": 20, "P11": 6, "P12": 6, "P14": 3, "P15": 2, "P16": 5, "P17": 5, "P18": 5,
         "P19": 6, "P20": 3, "P21": 3, "P22": 5, "P23": 5, "P24": 5, "P25": 4, "P26": 3,
         "P28": 3, "P30": 2, "P32": 3}


class Violation(Exception):
    """The observed execution refutes the property."""

    def __init__(self, mech, msg):
        super().__init__(f"[{mech}] {msg}")
        self.mech, self.msg = mech, msg


class CaseTimeout(BaseException):
    """Watchdog: the case took far too long (inconclusive)."""


class W:
    """A workload: function plus number of cases per tier."""

    def __init__(self, name, func, quick=100, thorough=None):
        self.name, self.func, self.quick = name, func, quick
        self.thorough = thorough if thorough is not None else quick * 12


def same(a, b):
    """Equality through containers and arrays."""
    import numpy as np
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return (isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape
                and a.dtype == b.dtype and a.tobytes() == b.tobytes())
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    return a is b or a == b or a != a and b != b


class Case:
    def __init__(self, prop, workload, index, seed, tier):
        self.prop, self.workload, self.index, self.seed, self.tier = (
            prop, workload, index, seed, tier)
        h = hashlib.sha256(f"{prop}/{workload}/{index}/{seed}".encode()).digest()
        self.rng = random.Random(h)
        self._h = h
        self._np = None
        self.counts = collections.Counter()
        self.sigs = set()
        self.sample = None
        self.known = []
        self._kept = []

    @property
    def np(self):
        if self._np is None:
            import numpy as np
            self._np = np.random.default_rng(int.from_bytes(self._h[:8], "big"))
        return self._np

    def seed_lib(self, seed=None):
        """Re-seed the library's generator (public attribute plaquette.rng)."""
        import numpy as np
        import plaquette
        if seed is None:
            seed = self.rng.getrandbits(48)
        plaquette.rng = np.random.default_rng(seed)
        return seed

    def ev(self, name="events", n=1):
        """Count something the monitor observed."""
        self.counts[name] += n

    def sig(self, *parts):
        """Record the signature of a non-trivial case."""
        self.sigs.add(hashlib.blake2b(repr(parts).encode(), digest_size=8).hexdigest())

    def show(self, **kw):
        if self.sample is None:
            self.sample = {k: (v if isinstance(v, (int, float, str, bool)) else repr(v))[:300]
                           if not isinstance(v, (int, float, bool)) else v
                           for k, v in kw.items()}

    def fail(self, mech, msg):
        raise Violation(mech, msg)

    def check(self, cond, mech, msg):
        self.counts["assertions"] += 1
        if not cond:
            raise Violation(mech, msg() if callable(msg) else msg)

    def keep(self, value, what, view=lambda v: v):
        """A result handed out earlier: must still have the same content when the case ends."""
        if len(self._kept) < 400:
            self._kept.append((value, copy.deepcopy(view(value)), what, view))
        return value

    def check_kept(self):
        for value, before, what, view in self._kept:
            self.counts["kept_results"] += 1
            if not same(view(value), before):
                raise Violation("earlier-result-changed",
                                f"{what}: {before!r:.300} became {view(value)!r:.300}")

    def finding(self, mech, msg):
        """Report a violation without aborting the case (used for known mechanisms)."""
        if (self.prop, mech) in KNOWN:
            self.known.append((mech, msg))
        else:
            raise Violation(mech, msg)

    def refuses(self, func, mech, what, exc=(Exception,)):
        """func() must raise (an ordinary exception)."""
        self.counts["assertions"] += 1
        try:
            r = func()
        except exc:
            self.ev("refusals")
            return
        raise Violation(mech, f"{what} was accepted, result {r!r:.300}")


def load_known():
    path = os.path.join(ROOT, "known_findings.json")
    try:
        with open(path) as f:
            data = json.load(f)
    except FileNotFoundError:
        return {}
    return {(e["property"], e["mechanism"]): e["what"] for e in data.get("known", [])}


KNOWN = load_known()


def setup_env():
    src = os.path.join(REPO, "src")
    if src not in sys.path:
        sys.path.insert(0, src)
    warnings.simplefilter("ignore")
    import plaquette
    got = os.path.realpath(plaquette.__file__)
    want = os.path.realpath(os.path.join(src, "plaquette", "__init__.py"))
    if got != want:
        raise RuntimeError(f"imported {got}, wanted {want}")


def _alarm(signum, frame):
    raise CaseTimeout()


LIMIT = 60  # seconds per case


def run_case(prop, w, index, seed, tier, limit=LIMIT):
    """Returns (case, verdict, mech, message)."""
    import plaquette
    c = Case(prop, w.name, index, seed, tier)
    c.seed_lib(int.from_bytes(c._h[8:16], "big"))
    saved_rng = plaquette.rng
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            w.func(c)
            c.check_kept()
        return c, "held", None, None
    except Violation as v:
        return c, "violated", v.mech, v.msg
    except CaseTimeout:
        return c, "timeout", "hang", f"case exceeded {limit}s"
    except (MemoryError, KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:  # an unexpected exception (or Rust panic) on input that must work
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if os.path.realpath(REPO) in os.path.realpath(f.filename)]
        loc = where[-1] if where else tb[-1]
        mech = f"exception:{type(e).__name__}:{loc.name}"
        return c, "violated", mech, "".join(
            traceback.format_exception(type(e), e, e.__traceback__))[-1800:]
    finally:
        signal.alarm(0)
        plaquette.rng = saved_rng


def _worker(args):
    prop, modname, shard, nshards, seed, tier, deadline, conn, beat = args
    res = dict(n=0, counts=collections.Counter(), sigs=set(), samples={}, viol=[], known={},
               timeouts=0, slow=(0.0, "", 0), error=None)
    try:
        mod = importlib.import_module(modname)
        todo = []
        for w in mod.WORKLOADS:
            n = w.quick * SCALE.get(prop, 1)
            if tier == "thorough":
                n = max(w.thorough, 30 * n) if prop in SCALE else w.thorough
            todo.append((w, list(range(shard, n, nshards))))
        # interleave the workloads so that a deadline does not starve the last ones
        order = []
        for w, idx in todo:
            for k, i in enumerate(idx):
                order.append(((k + 1) / (len(idx) + 1), w.name, w, i))
        order.sort(key=lambda t: (t[0], t[1]))
        for _, _, w, i in order:
            if time.monotonic() > deadline:
                res["counts"]["not_run_deadline"] += 1
                continue
            beat[0], beat[1], beat[2] = mod.WORKLOADS.index(w), i, time.monotonic()
            c, verdict, mech, msg = run_case(prop, w, i, seed, tier)
            res["slow"] = max(res["slow"], (time.monotonic() - beat[2], w.name, i))
            res["n"] += 1
            res["counts"].update(c.counts)
            res["counts"]["cases:" + w.name] += 1
            res["sigs"] |= c.sigs
            if c.sample is not None and w.name not in res["samples"]:
                res["samples"][w.name] = dict(workload=w.name, index=i, **c.sample)
            for m, s in c.known:
                res["known"].setdefault(m, (s, w.name, i))
            if verdict == "timeout":  # once more: a second time-out is a hang, not load
                beat[2] = time.monotonic()
                c, verdict, mech, msg = run_case(prop, w, i, seed, tier)
                if verdict == "timeout":
                    res["viol"].append((w.name, i, "hang", f"no answer within {LIMIT} s, "
                                        "twice, where milliseconds are usual"))
                    break
            if verdict == "violated":
                if (prop, mech) in KNOWN:
                    res["known"].setdefault(mech, (msg, w.name, i))
                else:
                    res["viol"].append((w.name, i, mech, msg))
                    if len(res["viol"]) >= 5:
                        break
    except BaseException:
        res["error"] = traceback.format_exc()
    beat[2] = 0
    conn.send(res)
    conn.close()


STALL = LIMIT + 15  # s; the alarm cannot interrupt compiled code, the parent can
CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGILL, signal.SIGBUS, signal.SIGFPE}


def _receive(pr, a, beat, end):
    """Result of a worker, or None and what happened to it."""
    while time.monotonic() < end:
        try:
            if a.poll(0.5):
                r = a.recv()
                pr.join(10)
                return r, None
        except EOFError:
            pr.join(10)
            return None, ("crash" if -(pr.exitcode or 0) in CRASH else "died")
        if beat[2] and time.monotonic() - beat[2] > STALL:
            pr.kill()
            return None, "stalled"
    pr.kill()
    return None, "died"


def _confirm(ctx, what, prop, w, index, seed, tier):
    """Run the case of a stalled or crashed worker once more, in a process of its own."""
    pr = ctx.Process(target=run_case, args=(prop, w, index, seed, tier))
    pr.start()
    pr.join(STALL)
    if pr.is_alive():
        pr.kill()
        return what == "stalled"
    return what == "crash" and -(pr.exitcode or 0) in CRASH


def run_check(prop, tier, seed, jobs=None, budget=None):
    t0 = time.monotonic()
    modname = f"mon.checks.{prop.lower()}"
    setup_env()
    mod = importlib.import_module(modname)
    jobs = jobs or int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
    budget = budget or (getattr(mod, "THOROUGH_S", 700) if tier == "thorough"
                        else getattr(mod, "QUICK_S", 150))
    deadline = t0 + budget
    ctx = mp.get_context("fork")
    procs = []
    for s in range(jobs):
        a, b = ctx.Pipe(False)
        beat = mp.RawArray("d", 3)
        pr = ctx.Process(target=_worker, args=((prop, modname, s, jobs, seed, tier, deadline, b,
                                                beat),))
        pr.start()
        b.close()
        procs.append((pr, a, beat))
    tot = dict(n=0, counts=collections.Counter(), sigs=set(), samples={}, viol=[], known={},
               timeouts=0, slow=(0.0, "", 0))
    errors = []
    hung = set()
    for pr, a, beat in procs:
        r, what = _receive(pr, a, beat, max(time.monotonic() + 1, deadline + 140))
        if r is None:
            w, i = mod.WORKLOADS[int(beat[0])], int(beat[1])
            if what == "died":
                errors.append("worker died")
            elif what not in hung:
                if _confirm(ctx, what, prop, w, i, seed, tier):
                    hung.add(what)
                    tot["viol"].append((w.name, i, "hang" if what == "stalled" else "crash",
                                        "no answer, twice, where milliseconds are usual"
                                        if what == "stalled" else "the process crashed, twice"))
                else:
                    errors.append(f"worker {what} once in {w.name}#{i}")
            continue
        if r["error"]:
            errors.append(r["error"])
        tot["n"] += r["n"]
        tot["counts"].update(r["counts"])
        tot["sigs"] |= r["sigs"]
        for k, v in r["samples"].items():
            if k not in tot["samples"] or v["index"] < tot["samples"][k]["index"]:
                tot["samples"][k] = v
        tot["viol"] += r["viol"]
        for k, v in r["known"].items():
            tot["known"].setdefault(k, v)
        tot["timeouts"] += r["timeouts"]
        tot["slow"] = max(tot["slow"], r["slow"])
    wall = time.monotonic() - t0
    viol = sorted(tot["viol"], key=lambda v: (v[0], v[1]))
    problems = list(errors)
    if not viol:
        for k, m in getattr(mod, "MINIMA", {}).items():
            if tot["counts"][k] < m:
                problems.append(f"monitor observed only {tot['counts'][k]} {k} (need {m})")
        if tot["n"] == 0 or not tot["sigs"]:
            problems.append("no non-trivial case observed")
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=tot["n"], distinct_nontrivial=len(tot["sigs"]),
                            rule=mod.RULE,
                            observed={k: int(v) for k, v in sorted(tot["counts"].items())},
                            samples=list(tot["samples"].values())[:12],
                            known_findings_seen=sorted(tot["known"]),
                            slowest_case="%.1f s (%s %d)" % tot["slow"],
                            inconclusive=problems),
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
              wall_s=round(wall, 2), violations=len(viol))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    evp = os.path.join(ROOT, "evidence", f"{prop}.json")
    with open(evp + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(evp + ".tmp", evp)
    for m, (msg, wn, i) in sorted(tot["known"].items()):
        print(f"KNOWN-FINDING: property={prop} {KNOWN[(prop, m)]} [{m}; {wn}#{i}]")
    if viol:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        seen = set()
        for wn, i, mech, msg in viol:
            if mech in seen:
                continue
            seen.add(mech)
            rp = os.path.join(ROOT, "replays", f"{prop}-{wn}-{i}-{seed}.json")
            with open(rp, "w") as f:
                json.dump(dict(property=prop, workload=wn, index=i, seed=seed, tier=tier,
                               mechanism=mech, message=msg), f, indent=1)
            print(f"--- {prop} {wn}#{i}: {mech}\n{msg}")
            print(f"VIOLATION property={prop} replay={rp}")
        print(f"{prop} {tier}: VIOLATED, {len(viol)} failing cases of {tot['n']} in {wall:.1f}s")
        return 1
    if problems:
        for q in problems:
            print(f"INCONCLUSIVE {prop}: {q}")
        return 3
    print(f"{prop} {tier}: held on {tot['n']} cases ({len(tot['sigs'])} distinct non-trivial, "
          f"{tot['counts']['assertions']} assertions) in {wall:.1f}s")
    return 0


def replay(path):
    with open(path) as f:
        r = json.load(f)
    setup_env()
    mod = importlib.import_module(f"mon.checks.{r['property'].lower()}")
    w = next(w for w in mod.WORKLOADS if w.name == r["workload"])
    c, verdict, mech, msg = run_case(r["property"], w, r["index"], r["seed"], r["tier"], 600)
    print(verdict, mech or "", msg or "", json.dumps(c.sample, default=repr) if c.sample else "")
    if verdict in ("violated", "timeout") and (r["property"], mech) not in KNOWN:
        print(f"VIOLATION property={r['property']} replay={path}")
        return 1
    return 0 if verdict == "held" or verdict == "violated" else 3
