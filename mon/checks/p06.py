"""P06: both simulators run noiseless circuits faithfully and report results in order."""
import math

from mon import circ
from mon.core import W

RULE = ("random circuits of gates, resets and measurements (1-7 qubits, also QEC-like ones) run "
        "on both simulators through Device and directly; every record is followed by a reference "
        "stabiliser executor, which refutes impossible outcomes; undetermined outcomes and "
        "parities of them are counted over many shots; non-trivial = distinct circuits whose "
        "records contain both certain and random outcomes")
ASSUMPTIONS = ["reference executor mon/circ.py", "frequencies are tested at 6 sigma"]
MINIMA = {"records": 600, "certain": 2000, "random": 1000}


def _circuit(c, n, depth):
    g = circ.rand_clean(c.rng, n, depth, c.rng.choice((0.15, 0.3)), c.rng.choice((0, 0.1, 0.2)))
    if c.rng.random() < 0.7:
        qs = list(range(n))
        c.rng.shuffle(qs)
        g.append(("M", tuple(qs)))
    return g


def _records(c, gates, shots, sim):
    """Yield (meas, erasure) of the given simulator through one of the public routes."""
    from plaquette import Device
    from plaquette.circuit import CircuitBuilder
    ci = circ.build(gates)
    route = c.rng.choice(("device", "device", "builder", "direct", "direct-run"))
    if route in ("device", "builder"):
        dev = Device(sim)
        arg = ci if route == "device" else CircuitBuilder(ci)
        for _ in range(shots):
            dev.run(arg)
            yield c.keep(dev.get_sample(), "results of an earlier run")
    else:
        if sim == "stim":
            s = circ.simulator(sim)(ci, batch_size=c.rng.choice((1, 7, 64)))
        else:
            s = circ.simulator(sim)(ci)
        for _ in range(shots):
            if route == "direct":
                yield c.keep(s.get_sample(), "earlier sample")
            else:
                s.run()
                yield c.keep(s.process_results(), "results of an earlier run")


def _follow(c, gates, n, meas, era, sim):
    c.ev("records")
    c.check(era is None or len(era) == 0, "erasure-record",
            f"{sim}: erasures {era!r} without erasure instruction")
    bad, info = circ.follow(gates, n, circ.bits(meas), ())
    c.ev("certain", info["certain"])
    c.ev("random", info["random"])
    c.check(bad is None, "record", lambda: f"{sim}: {bad}; results {circ.bits(meas)} of\n"
            + circ.text(gates))
    return info


def faithful(c):
    n = c.rng.randrange(1, 8)
    gates = _circuit(c, n, c.rng.randrange(0, 30))
    nq = circ.n_qubits(gates)
    c.show(qubits=n, circuit=circ.text(gates).replace("\n", "; "))
    for sim in ("clifford", "stim"):
        for meas, era in _records(c, gates, 3, sim):
            info = _follow(c, gates, nq, meas, era, sim)
            if info["certain"] and info["random"]:
                c.sig(sim, tuple(gates))


def repeated(c):
    """Measurement chains: repeated, with many targets, the same qubit twice, after resets."""
    n = c.rng.randrange(2, 6)
    g = []
    for q in range(n):
        if c.rng.random() < 0.7:
            g.append(("H", (q,)))
    for _ in range(c.rng.randrange(2, 8)):
        a = [circ.rand_gate(c.rng, n)]
        b = ("M", tuple(c.rng.randrange(n) for _ in range(c.rng.randrange(1, 7))))
        g += c.rng.choice(([b], a + [b], [b, b], [b, ("R", tuple(set(b[1]))), b],
                           a + [("R", (c.rng.randrange(n),)), b]))
    nq = circ.n_qubits(g)
    for sim in ("clifford", "stim"):
        for meas, era in _records(c, g, 3, sim):
            info = _follow(c, g, nq, meas, era, sim)
            if info["certain"] and info["random"]:
                c.sig(sim, tuple(g))


def unbiased(c):
    n = c.rng.randrange(1, 5)
    g = _circuit(c, n, c.rng.randrange(3, 14)) + [("H", (0,)), ("M", (0,))]
    nq = circ.n_qubits(g)
    shots = 250
    for sim in ("clifford", "stim"):
        recs = [circ.bits(m) for m, _ in _records(c, g, shots, sim)]
        # positions that are random given the earlier ones (the same in every record)
        rnd, pos = [], 0
        ex = circ.Executor(nq)

        def take(kind, p1):
            nonlocal pos
            if 1e-12 < p1 < 1 - 1e-12:
                rnd.append(pos)
            b = recs[0][pos]
            pos += 1
            return b
        for name, args in g:
            ex.step(name, args, take)
        for r in set(recs):
            _follow(c, g, nq, r, None, sim)
        if not rnd:
            continue
        tests = [(i,) for i in rnd]
        for _ in range(6):
            tests.append(tuple(c.rng.sample(rnd, c.rng.randrange(1, min(len(rnd), 4) + 1))))
        for t in tests:
            k = sum(sum(r[i] for i in t) % 2 for r in recs)
            z = abs(k - shots / 2) / math.sqrt(shots / 4)
            c.check(z < 6, "biased", f"{sim}: parity of results {t} is 1 in {k} of {shots} "
                    "shots of\n" + circ.text(g))
        c.ev("frequencies", len(tests))
        c.ev("random_positions", len(rnd))
        c.sig("freq", sim, tuple(g))


def wide(c):
    """More qubits, sparse circuits with few random outcomes."""
    n = c.rng.randrange(8, 25)
    g = [("H", (c.rng.randrange(n),))]
    for _ in range(60):
        g.append(("CX", tuple(c.rng.sample(range(n), 2))) if c.rng.random() < 0.6
                 else circ.rand_gate(c.rng, n, ("X", "Z", "Y", "CZ", "CX")))
    qs = list(range(n))
    c.rng.shuffle(qs)
    g.append(("M", tuple(qs)))
    for sim in ("clifford", "stim"):
        for meas, era in _records(c, g, 2, sim):
            _follow(c, g, circ.n_qubits(g), meas, era, sim)
            c.sig(sim, tuple(g))


def long(c):
    """Records of several hundred results."""
    r = c.rng
    n = r.randrange(1, 4)
    g = []
    want = r.choice((257, 300, 520, 700))
    k = 0
    while k < want:
        g.append(circ.rand_gate(r, n, ("X", "X", "Z", "CX", "CX", "CZ", "H"))
                 if r.random() < .9 else ("R", circ.some(r, n, 2)))
        m = ("M", tuple(r.randrange(n) for _ in range(r.choice((1, 2, 6, 30)))))
        k += len(m[1])
        g.append(m)
    c.ev("long_records")
    for sim in ("clifford", "stim"):
        for meas, era in _records(c, g, 2, sim):
            _follow(c, g, circ.n_qubits(g), meas, era, sim)
            c.sig(sim, tuple(g))


WORKLOADS = [
    W("faithful", faithful, 300, 9000),
    W("repeated", repeated, 150, 4000),
    W("unbiased", unbiased, 32, 600),
    W("wide", wide, 32, 400),
    W("long", long, 24, 300),
]
