"""P09: shots are independent of history and reproducible from the seed."""
import collections

from mon import circ, stats
from mon.core import W

RULE = ("random noisy circuits run on device objects with different histories (fresh, used, "
        "after failed or abandoned runs, after another circuit, edited circuits, no reset); "
        "samples after re-seeding the library generator are compared bit for bit between the "
        "histories, instruction-by-instruction runs with whole runs, and records continued "
        "without reset with the reference executor on the concatenated circuit; consecutive "
        "shots are tested for dependence across batch borders; the seed of every StimSimulator reaches "
        "stim; non-trivial = distinct (circuit, "
        "history, samples) with random bits")
ASSUMPTIONS = ["reference executor mon/circ.py"]
MINIMA = {"histories": 200, "steps": 300, "continued": 150, "edits": 100, "pairs": 20000}


def _noisy(r, n, stim, depth=3, empty=False):
    g = [("H", tuple(range(n)))] if r.random() < 0.7 else []
    for _ in range(r.randrange(0 if empty else 1, depth)):
        g += circ.rand_clean(r, n, r.randrange(0, 4), 0.25, 0.15)
        if r.random() < 0.7:
            g += circ.rand_noise(r, n, "any", stim)
    if r.random() < 0.9 or not empty:
        g.append(("M", tuple(r.sample(range(n), r.randrange(1, n + 1)))))
    return g


def _sample(c, dev, ci, k, **kw):
    out = []
    for _ in range(k):
        dev.run(ci, **kw)
        m, e = c.keep(dev.get_sample(), "results of an earlier run")
        out.append((circ.bits(m), circ.bits(e)))
    return out


def _abuse(c, dev, sim, ci):
    """Give the device a history; returns its description."""
    r = c.rng
    n = r.randrange(1, 4)
    kind = r.choice(("other", "failed", "many", "iter", "grow", "noreset", "reset"))
    try:
        if kind == "other":
            _sample(c, dev, circ.build(_noisy(r, n, True)), r.randrange(1, 4))
        elif kind == "failed":
            g = _noisy(r, n, True) + [("ERROR_CONTINUE", ("X", 0))]
            if sim == "stim":
                g = _noisy(r, n, True) + [("ERROR", (0.5, "CX", 0, 1))]
            try:
                dev.run(circ.build(g))
            except ValueError:
                c.ev("failed_runs")
            if r.random() < 0.5 and sim == "clifford":  # fail in the middle of the same circuit
                keep = list(ci.gates)
                ci.gates.insert(r.randrange(len(keep) + 1), ("NONSENSE", (0,)))
                try:
                    dev.run(ci)
                    c.fail("accepted", "unknown instruction was run")
                except ValueError:
                    c.ev("failed_runs")
                ci.gates[:] = keep
        elif kind == "many":
            _sample(c, dev, ci, r.randrange(1, 5))
        elif kind == "iter" and sim == "clifford":
            dev.run(ci)
            it = iter(dev)
            for _ in range(r.randrange(0, len(ci.gates) + 1)):
                next(it)
        elif kind == "grow":
            keep = list(ci.gates)
            ci.append("X", r.randrange(0, 6))
            ci.append("M", r.randrange(0, 6))
            _sample(c, dev, ci, 2)
            ci.gates[:] = keep
            c.ev("edits")
        elif kind == "noreset" and sim == "clifford":
            _sample(c, dev, ci, 1)
            _sample(c, dev, ci, 2, after_reset=False)
        elif kind == "reset":
            _sample(c, dev, ci, 1)
            dev.reset_backend()
    finally:
        c.ev("histories")
    return kind


def reseed(c):
    """Re-seeding gives the identical sequence, whatever happened before."""
    from plaquette import Device
    r = c.rng
    sim = r.choice(("clifford", "stim"))
    n = r.randrange(1, 4)
    gates = _noisy(r, n, sim == "stim")
    ci = circ.build(gates)
    seed = r.getrandbits(40)
    k = r.randrange(2, 6)
    c.seed_lib(seed)
    want = _sample(c, Device(sim), ci, k)
    bad = [circ.follow(gates, circ.n_qubits(gates), *s)[0] for s in want]
    c.check(bad == [None] * k, "record", lambda: f"{bad} {want}\n{circ.text(gates)}")
    # another device, another circuit object
    c.seed_lib(seed)
    got = _sample(c, Device(sim), circ.build(gates), k)
    c.check(got == want, "reseed", lambda: f"{sim}: {got} after re-seeding, first {want} of\n"
            + circ.text(gates))
    hist = []
    if sim == "clifford":  # the stim sampler keeps its stream, seeded once
        dev = Device(sim)
        for _ in range(r.randrange(1, 4)):
            hist.append(_abuse(c, dev, sim, ci))
            c.seed_lib(seed)
            got = _sample(c, dev, ci, k)
            c.check(got == want, "history", lambda: f"{sim}: {got} after {hist}, fresh device "
                    f"{want} of\n" + circ.text(gates))
    else:
        dev = Device(sim)
        for _ in range(r.randrange(1, 3)):
            hist.append(_abuse(c, dev, sim, ci))
        c.seed_lib(seed)
        # a new circuit object means a new simulator seeded from the library generator
        got = _sample(c, dev, circ.build(gates), k)
        c.check(got == want, "history", lambda: f"{sim}: {got} after {hist}, fresh device "
                f"{want} of\n" + circ.text(gates))
    # several devices seeded from one stream: the whole session is reproducible
    def session():
        c.seed_lib(seed + 1)
        out = []
        for s in ("stim", "clifford", "stim"):
            g = gates if sim == "stim" else [x for x in gates if not x[0].startswith("ERROR")]
            out.append(_sample(c, Device(s), circ.build(g), 2))
        return out
    a, b = session(), session()
    c.check(a == b, "session", lambda: f"{a} != {b}")
    c.ev("sequences")
    c.sig(sim, tuple(gates), tuple(want), tuple(hist))
    c.show(sim=sim, circuit=circ.text(gates).replace("\n", "; "), history=hist, samples=want)


def used(c):
    """Records of a device with a history are records of the current circuit."""
    from plaquette import Device
    r = c.rng
    sim = r.choice(("clifford", "stim"))
    gates = _noisy(r, r.randrange(1, 4), sim == "stim")
    ci = circ.build(gates)
    dev = Device(sim, **({"batch_size": r.choice((1, 2, 3, 1024))} if sim == "stim" else {}))
    hist = []
    for _ in range(r.randrange(1, 4)):
        hist.append(_abuse(c, dev, sim, ci))
        for s in _sample(c, dev, ci, 2):
            bad, info = circ.follow(gates, circ.n_qubits(gates), *s)
            c.check(bad is None, "record", lambda: f"{sim} after {hist}: {bad}; {s} of\n"
                    + circ.text(gates))
            c.sig(sim, tuple(gates), s, tuple(hist))


def edits(c):
    """A circuit edited between runs: the current version is what runs."""
    from plaquette import Device
    from plaquette.circuit import CircuitBuilder
    r = c.rng
    sim = r.choice(("clifford", "stim"))
    gates = _noisy(r, r.randrange(1, 4), True)
    ci = circ.build(gates)
    arg = CircuitBuilder(ci) if r.random() < 0.3 else ci
    dev = Device(sim)
    for _ in range(r.randrange(2, 5)):
        _sample(c, dev, arg, r.randrange(1, 3))
        how = r.choice(("append", "delete", "replace", "swap", "grow", "clear"))
        cur = list(ci.gates)
        if how == "append" or not cur:
            for g in _noisy(r, r.randrange(1, 4), True, 2):
                ci.append(g[0], *g[1])
        elif how == "delete":
            del ci.gates[r.randrange(len(cur))]
        elif how == "replace":
            i = r.randrange(len(cur))
            ci.gates[i] = ("X", (r.randrange(3),))
        elif how == "swap":
            i, j = r.randrange(len(cur)), r.randrange(len(cur))
            ci.gates[i], ci.gates[j] = cur[j], cur[i]
        elif how == "grow":
            ci.append("X", r.randrange(2, 7))
            ci.append("M", ci.number_of_qubits - 1)
        else:
            ci.gates[:] = [("X", (0,)), ("M", (0, 1))]
        c.ev("edits")
        now = [(a, tuple(b)) for a, b in ci.gates]
        for s in _sample(c, dev, arg, 2):
            bad, info = circ.follow(now, circ.n_qubits(now), *s)
            c.check(bad is None, "edited", lambda: f"{sim} after {how}: {bad}; {s} of\n"
                    + circ.text(now))
            c.sig(sim, tuple(now), s)
    if sim == "clifford":
        c.check(dev.n_qubits == circ.n_qubits(now), "edited-qubits",
                lambda: f"{dev.n_qubits} qubits for\n" + circ.text(now))


def steps(c):
    """Instruction by instruction equals the whole run."""
    from mon import ref
    from plaquette import Device
    r = c.rng
    n = r.randrange(1, 4)
    gates = _noisy(r, n, False)
    ci = circ.build(gates)
    nq = circ.n_qubits(gates)
    sim = circ.simulator("clifford")
    seed = c.seed_lib()
    dev = Device("clifford")
    whole = _sample(c, dev, ci, 2)
    state = dev.state.tableau.copy()
    for variant in ("simulator", "device", "step-partial"):
        if variant == "simulator":
            c.seed_lib(seed)
            s = sim(ci)
        else:
            s = Device("clifford")
            s.run(ci)
            if variant == "step-partial":
                s.reset_backend()
                it = iter(s)
                for _ in range(r.randrange(0, len(gates) + 1)):
                    next(it)
            c.seed_lib(seed)
        got = []
        for k in range(2):
            (s.reset if variant == "simulator" else s.reset_backend)()
            done = 0
            for _ in s:
                done += 1
                c.ev("steps")
                m = (s.process_results() if variant == "simulator" else s.get_sample())[0]
                c.check(len(m) == sum(len(a) for g, a in gates[:done] if g == "M"),
                        "step-record", lambda: f"{len(m)} results after {done} instructions of\n"
                        + circ.text(gates))
            c.check(done == len(gates), "step-count", f"{done} steps for {len(gates)}")
            m, e = s.process_results() if variant == "simulator" else s.get_sample()
            got.append((circ.bits(m), circ.bits(e)))
        c.check(got == whole, "stepwise", lambda: f"{variant}: {got} instead of {whole} of\n"
                + circ.text(gates))
        bad = ref.tableau_problem(s.state.tableau, nq)
        c.check(bad is None, "state", bad)
        c.check((ref.tableau_state(s.state.tableau).canonical()
                 == ref.tableau_state(state).canonical()), "step-state",
                lambda: f"{variant}: other final state of\n" + circ.text(gates))
    c.sig("steps", tuple(gates), tuple(whole))


def continued(c):
    """Without reset: the state goes on and the record is extended."""
    from plaquette import Device
    r = c.rng
    n = r.randrange(1, 4)
    g1 = [g for g in _noisy(r, n, False)]
    nq = circ.n_qubits(g1)
    ci = circ.build(g1)
    dev = Device("clifford")
    ex = None
    done_m = done_e = 0
    first = r.random() < 0.7
    total, old = [], ((), ())
    for k in range(r.randrange(2, 5)):
        if k and r.random() < 0.5:  # the circuit may change in between, on the same qubits
            now = [g for g in _noisy(r, n, False, empty=True)
                   if max([0, *circ.qubits_of(*g)]) < nq]
            while now and now[0][0] in ("ERROR_ELSE", "ERROR_CONTINUE"):
                now.pop(0)
            fixed = []
            for g in now:  # dropping instructions must not leave a dangling continuation
                if g[0].startswith("ERROR_") and not (fixed and fixed[-1][0].startswith("ERROR")):
                    continue
                fixed.append(g)
            ci.gates[:] = circ.build(fixed).gates
            c.ev("edits")
        now = [(a, tuple(b)) for a, b in ci.gates]
        dev.run(ci, after_reset=(k == 0 and first))
        m, e = map(circ.bits, dev.get_sample())
        total += now
        ex = ex or circ.Executor(nq)
        bad, info = circ.follow(now, nq, m[done_m:], e[done_e:], ex)
        c.check(bad is None, "continued", lambda: f"run {k} without reset: {bad}; {m} {e} of\n"
                + circ.text(total))
        c.check((m[:done_m], e[:done_e]) == old, "record-extended", "earlier results changed")
        old = (m, e)
        done_m, done_e = len(m), len(e)
        c.ev("continued")
        c.sig("continued", tuple(total), m, e)
    c.refuses(lambda: Device("stim").run(circ.build([("X", (0,))]), after_reset=False),
              "stim-no-reset", "stim run without reset")
    # with reset everything is forgotten
    dev.run(ci)
    m, e = map(circ.bits, dev.get_sample())
    bad, _ = circ.follow(now, nq, m, e)
    c.check(bad is None, "forgotten", lambda: f"{bad} {m} {e} of\n" + circ.text(now))


def shots(c):
    """Consecutive shots are independent, also across batch borders and instances."""
    from plaquette import Device
    from plaquette.circuit import CircuitBuilder
    r = c.rng
    sim = ("stim", "stim", "stim", "clifford")[c.index % 4]
    bits = 3
    gates = [("H", tuple(range(bits))), ("E_ERASE", (0.5, bits)), ("M", tuple(range(bits)))]
    ci = circ.build(gates)
    arg = CircuitBuilder(ci) if r.random() < 0.4 else ci
    kw = {}
    if sim == "stim":
        kw["batch_size"] = r.choice((1, 2, 3, 7, 64, 1024))
        if r.random() < 0.6:
            kw["stim_seed"] = r.getrandbits(30)
    dev = Device(sim, **kw)
    n = 600 if sim == "clifford" else 4000
    recs = _sample(c, dev, arg, n)
    cells = 2 ** (bits + 1)
    hist = collections.Counter(recs)
    bad = stats.compare(hist, n, {((a & 1, a >> 1 & 1, a >> 2), (e,)): 1 / cells
                                  for a in range(8) for e in range(2)})
    c.check(bad is None, "distribution", lambda: f"{sim} {kw}: {bad}")
    lags = {1, 2, 3, 4, 8, 16, 64, 128, 1024, kw.get("batch_size", 5)}
    for lag in sorted(lags):
        if lag >= n // 2:
            continue
        same = sum(a == b for a, b in zip(recs, recs[lag:]))
        c.ev("pairs", n - lag)
        c.check(not stats.off(same, n - lag, 1 / cells), "dependent-shots",
                lambda: f"{sim} {kw}: shots at distance {lag} agree {same} times of {n - lag}, "
                f"expected {(n - lag) / cells:.0f}")
        for b in range(bits + 1):
            eq = sum((x[0] + x[1])[b] == (y[0] + y[1])[b] for x, y in zip(recs, recs[lag:]))
            c.check(not stats.off(eq, n - lag, 0.5), "dependent-shots",
                    lambda: f"{sim} {kw}: bit {b} at distance {lag} agrees {eq}/{n - lag}")
    # different devices must not repeat each other (unless given the same explicit seed)
    kw2 = dict(kw)
    if "stim_seed" in kw2:
        kw2["stim_seed"] += 1
    other = _sample(c, Device(sim, **kw2), circ.build(gates), n)
    same = sum(a == b for a, b in zip(recs, other))
    c.check(not stats.off(same, n, 1 / cells), "dependent-devices",
            lambda: f"{sim}: two devices agree in {same} of {n} shots")
    if "stim_seed" in kw:
        c.seed_lib()
        again = _sample(c, Device(sim, **kw), circ.build(gates), 50)
        c.check(again == recs[:50], "stim-seed", "explicit stim_seed is not reproducible")
    c.sig("shots", sim, tuple(kw.items()))


def interleaved(c):
    """Two circuits alternating on one device, and two devices side by side."""
    from plaquette import Device
    r = c.rng
    sim = r.choice(("clifford", "stim"))
    ga, gb = (_noisy(r, r.randrange(1, 5), True) for _ in range(2))
    a, b = circ.build(ga), circ.build(gb)
    d1, d2 = Device(sim), Device(sim)
    for _ in range(r.randrange(3, 7)):
        dev = r.choice((d1, d2))
        g, ci = r.choice(((ga, a), (gb, b)))
        for s in _sample(c, dev, ci, r.randrange(1, 3)):
            bad, _ = circ.follow(g, circ.n_qubits(g), *s)
            c.check(bad is None, "interleaved", lambda: f"{sim}: {bad}; {s} of\n" + circ.text(g))
            c.ev("histories")
            c.sig(sim, tuple(g), s)
    # two devices on the same circuit object, advanced alternately, do not share anything
    if sim == "clifford":
        c1, c2 = circ.simulator(sim)(a), circ.simulator(sim)(a)
        c1.run()
        m1 = circ.bits(c1.process_results()[0])
        c2.run()
        c2.run()
        c.check(circ.bits(c1.process_results()[0]) == m1, "shared", "records are shared")


def stim_seeds(c):
    """An explicit seed, whichever number and whichever way it is given, fixes the samples."""
    from plaquette import Device
    r = c.rng
    seed = r.choice((0, 0, 1, 2**63 - 1, r.getrandbits(20), r.getrandbits(62)))
    other = r.choice((5, 0, r.getrandbits(40)))
    n = r.randrange(6, 12)
    gates = [("H", tuple(range(n))), ("E_ERASE", (0.5, 0)), ("M", tuple(range(n)))]
    size = r.choice((1, 3, 16, 1024))
    k = r.randrange(4, 20)
    sim = circ.simulator("stim")

    def take(s):
        out = []
        for _ in range(k):
            s.run()
            m, e = s.process_results()
            out.append((circ.bits(m), circ.bits(e)))
        return out
    want = take(sim(circ.build(gates), stim_seed=seed, batch_size=size))
    c.check(len(set(want)) > 1, "stim-seed", lambda: f"seed {seed}: all samples alike: {want[0]}")
    c.seed_lib()
    for how in ("constructor", "reset", "reset-again", "device", "device-reset", "device-second"):
        if how == "constructor":
            got = take(sim(circ.build(gates), stim_seed=seed, batch_size=size))
        elif how.startswith("reset"):
            s = sim(circ.build(gates), stim_seed=other, batch_size=size)
            before = take(s)
            c.check((before == want) == (other == seed), "stim-seed",
                    lambda: f"seeds {seed} and {other}: {want[:2]} and {before[:2]}")
            s.reset(seed)
            if how == "reset-again":
                take(s)
                s.reset()
            c.check(s.stim_seed == seed, "stim-seed", lambda: f"{s.stim_seed} after {how}({seed})")
            got = take(s)
        else:
            dev = Device("stim", batch_size=size,
                         stim_seed=other if how == "device-reset" else seed)
            ci = circ.build(gates)
            if how == "device-reset":
                dev.run(ci)
                dev.reset_backend(seed)
            elif how == "device-second":  # the options are those of every circuit
                for _ in range(r.randrange(1, 3)):
                    _sample(c, dev, circ.build(_noisy(r, r.randrange(1, 4), True)), 2)
            got = _sample(c, dev, ci, k)
        c.ev("seeded")
        c.check(got == want, "stim-seed", lambda: f"{how}: seed {seed} (before it {other}), batch "
                f"size {size}: {got[:3]}, elsewhere {want[:3]}")
    # without an explicit seed it comes from the generator of the library
    a = sim(circ.build(gates), batch_size=size)
    c.check(take(a) != take(sim(circ.build(gates), batch_size=size)), "stim-seed",
            "two simulators without seed give the same samples")
    c.sig("stim_seeds", seed, other, size, tuple(want))


WORKLOADS = [
    W("reseed", reseed, 150, 4000),
    W("used", used, 150, 4000),
    W("edits", edits, 120, 3000),
    W("steps", steps, 100, 3000),
    W("continued", continued, 120, 3000),
    W("shots", shots, 24, 200),
    W("interleaved", interleaved, 80, 1500),
    W("stim_seeds", stim_seeds, 60, 600),
]
