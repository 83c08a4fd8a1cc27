"""P07: error instructions apply exactly the operations they describe."""
from mon import circ
from mon.core import W

RULE = ("random error instructions and chains (probabilities 0, 1 and in between; Pauli, Clifford, "
        "reset and channel branches) inside random circuits, with the noisy qubits entangled to "
        "reference qubits that are un-entangled and measured afterwards, so that the applied "
        "operation is read off; every record and erasure flag is followed by a branching "
        "reference executor; dangling continuations under different histories; non-trivial = "
        "distinct (instruction sequence, observed effect)")
ASSUMPTIONS = ["reference executor mon/circ.py"]
MINIMA = {"records": 800, "erasure_flags": 300, "dangling_refused": 100, "chains": 100}


def _run(c, gates, n, sims=("clifford", "stim"), shots=2):
    from plaquette import Device
    ci = circ.build(gates)
    for sim in sims:
        dev = Device(sim)
        for _ in range(shots):
            try:
                dev.run(ci)
            except ValueError as e:
                if sim == "stim" and "not supported" in str(e) or "only supported" in str(e):
                    c.ev("stim_declined")
                    break
                raise
            meas, era = dev.get_sample()
            c.ev("records")
            c.ev("erasure_flags", len(circ.bits(era)))
            n_era = sum(g == "E_ERASE" for g, _ in gates)
            c.check(len(circ.bits(era)) == n_era, "erasure-count",
                    lambda: f"{sim}: {era!r} for {n_era} erasure instructions of\n"
                    + circ.text(gates))
            bad, info = circ.follow(gates, n, circ.bits(meas), circ.bits(era))
            c.ev("certain", info["certain"])
            c.check(bad is None, "record", lambda: f"{sim}: {bad}; results {circ.bits(meas)}, "
                    f"erasures {circ.bits(era)} of\n" + circ.text(gates))
            c.sig(sim, tuple(gates), circ.bits(meas), circ.bits(era))
    c.show(circuit=circ.text(gates).replace("\n", "; "))


def _bell(k):
    pre = [("H", tuple(range(k))), ("CX", tuple(v for q in range(k) for v in (q, k + q)))]
    return pre, pre[::-1] + [("M", tuple(range(2 * k)))]


def certain(c):
    """Probabilities 0 and 1: the effect on k qubits is read off with k reference qubits."""
    k = c.rng.randrange(1, 4)
    pre, post = _bell(k)
    mid = []
    for _ in range(c.rng.randrange(1, 6)):
        mid += circ.rand_noise(c.rng, k, c.rng.choice(("zero", "one", "one")),
                               stim=c.rng.random() < 0.5)
        if c.rng.random() < 0.3:
            mid.append(circ.rand_gate(c.rng, k))
    if any(g.startswith("ERROR_") for g, _ in mid):
        c.ev("chains")
    _run(c, pre + mid + post, 2 * k)


def single(c):
    """One instruction, systematically: every kind, every event, both certain probabilities."""
    kinds = []
    for p in (0.0, 1.0):
        for ch in range(3):
            a = [0.0] * 3
            a[ch] = p
            kinds.append([("E_PAULI", (*a, 1))])
        for ch in range(15):
            a = [0.0] * 15
            a[ch] = p
            kinds.append([("E_PAULI2", (*a, 0, 2))])
            kinds.append([("E_PAULI2", (*a, 2, 1))])
        kinds.append([("E_ERASE", (p, 1))])
        for ch in "XYZ":
            kinds.append([("ERROR", (p, ch, 2))])
            kinds.append([("ERROR", (p, ch, 2, 0))])
        for g in (("H", 1), ("CX", 0, 1), ("CZ", 2, 0), ("CX", 0, 1, 1, 2), ("R", 0),
                  ("DEPOLARIZE", 1), ("DEPOLARIZE", 0, 2), ("E_PAULI", 0.0, 1.0, 0.0, 1),
                  ("E_PAULI2", *[float(i == 6) for i in range(15)], 1, 0)):
            kinds.append([("ERROR", (p, *g))])
        for q in (0.0, 1.0):
            kinds += [
                [("ERROR", (p, "X", 0)), ("ERROR_CONTINUE", ("Z", 1)),
                 ("ERROR_CONTINUE", ("CX", 1, 2))],
                [("ERROR", (p, "X", 0)), ("ERROR_ELSE", (q, "Z", 1))],
                [("ERROR", (p, "X", 0)), ("ERROR_CONTINUE", ("Y", 1)),
                 ("ERROR_ELSE", (q, "Z", 1)), ("ERROR_CONTINUE", ("Y", 2)),
                 ("ERROR_ELSE", (1.0, "Y", 0)), ("ERROR_CONTINUE", ("X", 1))],
                [("ERROR", (p, "X", 0)), ("ERROR", (q, "Z", 0)),
                 ("ERROR_CONTINUE", ("Z", 1))],
                [("ERROR", (p, "X", 0)), ("ERROR_ELSE", (0.0, "Z", 1)),
                 ("ERROR_CONTINUE", ("Y", 1)), ("ERROR_ELSE", (q, "Y", 2)),
                 ("ERROR_CONTINUE", ("Z", 2))],
            ]
    kinds.append([("DEPOLARIZE", (1,))])
    kinds.append([("DEPOLARIZE", (0, 2))])
    mid = kinds[c.index % len(kinds)]
    pre, post = _bell(3)
    if any(g.startswith("ERROR_") for g, _ in mid):
        c.ev("chains")
    _run(c, pre + mid + post, 6, shots=4)


def chains(c):
    """Random probabilities: whatever happens must be one of the branches, completely."""
    k = c.rng.randrange(2, 4)
    pre, post = _bell(k)
    mid = []
    for _ in range(c.rng.randrange(1, 3)):
        mid += circ.rand_noise(c.rng, k, "any", stim=False)
    if any(g.startswith("ERROR_") for g, _ in mid):
        c.ev("chains")
    _run(c, pre + mid + post, 2 * k, shots=4)


def mixed(c):
    """Noise anywhere in circuits with measurements and resets."""
    n = c.rng.randrange(1, 5)
    g = []
    for _ in range(c.rng.randrange(1, 5)):
        g += circ.rand_clean(c.rng, n, c.rng.randrange(0, 5))
        g += circ.rand_noise(c.rng, n, c.rng.choice(("any", "one", "zero")),
                             stim=c.rng.random() < 0.6)
    g.append(("M", tuple(range(n))))
    _run(c, g, circ.n_qubits(g))


def erasures(c):
    """Order and number of erasure flags; untouched qubits."""
    k = c.rng.randrange(2, 6)
    pre, post = _bell(k)
    mid = []
    for _ in range(c.rng.randrange(2, 9)):
        mid.append(("E_ERASE", (c.rng.choice((0.0, 1.0, 1.0, round(c.rng.random(), 2))),
                                c.rng.randrange(k))))
        if c.rng.random() < 0.2:
            mid.append(("M", (c.rng.randrange(k),)))
        if c.rng.random() < 0.2:
            mid.append(circ.rand_gate(c.rng, k))
    _run(c, pre + mid + post, 2 * k, shots=3)


def dangling(c):
    from plaquette import Device
    from plaquette.circuit import Circuit
    n = 2
    bad = c.rng.choice((("ERROR_CONTINUE", ("X", 0)), ("ERROR_ELSE", (1.0, "X", 0)),
                        ("ERROR_ELSE", (0.0, "X", 0)), ("ERROR_CONTINUE", ("CX", 0, 1))))
    before = c.rng.choice(([], [("H", (0,))], [("M", (0, 1))], [("E_PAULI", (.1, .1, .1, 0))],
                           [("ERROR", (1.0, "X", 0)), ("M", (0,))],
                           [("ERROR", (0.0, "X", 0)), ("R", (1,))],
                           [("ERROR", (1.0, "X", 0)), ("ERROR_CONTINUE", ("Z", 1)),
                            ("E_ERASE", (0.5, 0))],
                           [("ERROR", (1.0, "X", 0)), ("DEPOLARIZE", (1,))]))
    tail = c.rng.choice(([], [("M", (0, 1))], [("ERROR", (1.0, "X", 0))],
                         [("ERROR", (0.0, "Z", 1))],
                         [("ERROR", (1.0, "Y", 0)), ("ERROR_ELSE", (0.5, "X", 0))]))
    sim = c.rng.choice(("clifford", "clifford", "stim"))
    gates = before + [bad]
    if sim == "stim":
        for _ in range(2):
            c.refuses(lambda: Device("stim").run(circ.build(gates)), "dangling-accepted",
                      f"stim: {gates}")
        c.ev("dangling_refused")
        c.sig(sim, bad[0], tuple(before))
        return
    hist = c.rng.choice(("fresh", "same-ending-in-error", "failed", "failed-branch", "steps",
                         "no-reset"))
    dev = Device(sim)
    if hist == "fresh":
        ci = circ.build(gates + tail)
    else:
        # one circuit object that is edited between runs, so that the simulator is kept
        ci = Circuit()
        first = {"same-ending-in-error": [("H", (0,)), ("ERROR", (1.0, "X", 0))],
                 "failed": [("M", (0,)), ("ERROR_CONTINUE", ("X", 0))],
                 "failed-branch": [("ERROR", (1.0, "X", 0)), ("ERROR_ELSE", (1.0, "X", 1)),
                                   ("M", (0,)), ("ERROR_CONTINUE", ("X", 0))],
                 "steps": [("ERROR", (1.0, "X", 0)), ("ERROR", (1.0, "Z", 0)), ("M", (0, 1))],
                 "no-reset": [("X", (0, 1)), ("ERROR", (1.0, "X", 1))]}[hist]
        for name, args in first:
            ci.append(name, *args)
        try:
            dev.run(ci)
        except ValueError:
            c.check(hist.startswith("failed"), "refused", f"{first} was refused")
        else:
            c.check(not hist.startswith("failed"), "dangling-accepted", f"{first}")
        if hist == "steps":  # stop inside an error branch
            dev.reset_backend()
            it = iter(dev)
            next(it)
            next(it)
        ci.gates[:] = circ.build(gates + tail).gates
    for _ in range(2):
        c.refuses(lambda: dev.run(ci, after_reset=hist != "no-reset"), "dangling-accepted",
                  f"after {hist}: {gates + tail}")
    # a correct circuit still works on the same device
    ok = circ.build([("X", (0,)), ("ERROR", (1.0, "X", 0)), ("ERROR_CONTINUE", ("X", 1)),
                     ("M", (0, 1))])
    dev.run(ok)
    c.check(circ.bits(dev.get_sample()[0]) == (0, 1), "after-refusal", "wrong result")
    c.ev("dangling_refused")
    c.sig(sim, bad[0], tuple(before), hist)
    assert n == 2


WORKLOADS = [
    W("single", single, 210, 420),
    W("certain", certain, 200, 6000),
    W("chains", chains, 150, 5000),
    W("mixed", mixed, 150, 5000),
    W("erasures", erasures, 100, 2500),
    W("dangling", dangling, 160, 1500),
]
