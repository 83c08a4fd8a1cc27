"""P15: injected faults give exactly the predicted syndrome and logical change."""
from mon import qec
from mon.core import W

RULE = ("generated circuits with marker noise whose instructions are replaced by chosen certain "
        "faults (any Pauli on any data qubit before any round, any readout flip in any noisy "
        "round) or by the error tables themselves with probability one; syndrome and logical "
        "change from both simulators are compared with commutation of bit masks; non-trivial = "
        "distinct (code, operators, readout, fault set) with non-zero syndrome or toggle")
ASSUMPTIONS = ["user-defined codes without Pauli Y"]
MINIMA = {"shots": 1000, "faults": 3000, "toggles": 100, "nonzero_syndromes": 500}


def _inject(gates, faults, flips):
    """Replace marker noise: faults {(round, qubit): 'X'..}, flips {(round, ancilla)}."""
    out, seen, seen_m = [], {}, {}
    for name, args in gates:
        if name == "E_PAULI":
            q = args[3]
            rd = seen[q] = seen.get(q, 0) + 1
            if (rd, q) in faults:
                out.append((faults[rd, q], (q,)))
        elif name == "ERROR":
            q = args[2]
            rd = seen_m[q] = seen_m.get(q, 0) + 1
            if (rd, q) in flips:
                out.append((args[1], (q,)))
        else:
            out.append((name, args))
    return out, seen, seen_m


def predict(view, idx, rounds, faults, flips):
    """(syndrome per round, logical toggles)."""
    e = (0, 0)
    old = [0] * len(view.stabs)
    syn = []
    for rd in range(1, rounds + 1):
        for (k, q), ch in faults.items():
            if k == rd:
                e = qec.mul(e, ((ch in "XY") << q, (ch in "ZY") << q))
        val = [qec.anti(s, e) ^ ((rd, view.n + i) in flips) for i, s in enumerate(view.stabs)]
        syn.append([a ^ b for a, b in zip(val, old)])
        old = val
    return syn, [qec.anti(view.logs[i], e) for i in idx]


def _judge(c, setup, ci, faults, flips, sims, shots=2):
    from plaquette import Device
    label, code, view, arg, idx, anc = setup
    syn, tog = predict(view, idx, code.n_rounds, faults, flips)
    lay = qec.Layout(qec.gates_of(ci), view, idx, anc)
    what = (f"{label} logical {arg} {'ancilla' if anc else 'direct'} faults {faults} flips "
            f"{sorted(flips)}")
    c.check(lay.problem is None, "layout", lambda: f"{what}: {lay.problem}")
    for sim in sims:
        dev = Device(sim)
        for _ in range(shots):
            raw, era = qec.sample(dev, ci)
            a, b, st = lay.unpack(raw)
            got = [[x ^ y for x, y in zip(p, q)] for p, q in zip(st[1:], st)]
            c.check(got == syn, "syndrome", lambda: f"{what} on {sim}: syndrome {got}, predicted "
                    f"{syn}")
            t = [x ^ y for x, y in zip(a, b)]
            c.check(t == tog, "toggle", lambda: f"{what} on {sim}: logical change {t}, predicted "
                    f"{tog}")
            s = qec.unpack(code, raw, era, arg, anc)
            c.check(s.syndrome.astype(int).tolist() == syn and
                    s.logical_op_toggle.astype(int).tolist() == tog, "unpacked",
                    lambda: f"{what} on {sim}: {s}, predicted {syn} {tog}")
            c.ev("shots")
    c.ev("faults", len(faults) + len(flips))
    c.ev("toggles", sum(tog))
    if any(map(any, syn)):
        c.ev("nonzero_syndromes")
    if any(map(any, syn)) or any(tog):
        c.sig(label, tuple(idx), anc, tuple(sorted(faults.items())), tuple(sorted(flips)))
    c.show(setup=what, syndrome=syn, toggle=tog)


def placed(c, max_data=26, user=0.3, sims=("stim", "clifford")):
    """Any faults at any place, inserted into the circuit."""
    from plaquette.circuit import Circuit
    r = c.rng
    setup = qec.some_setup(r, max_data, user)
    label, code, view, arg, idx, anc = setup
    n, ns = view.n, len(view.stabs)
    marks = {"pauli": {q: {"x": 0.25} for q in range(n)},
             "measurement": {n + i: {"p": 0.25} for i in range(ns)}}
    gates = qec.gates_of(qec.generate(code, marks, {}, arg, anc))
    spots = [(rd, q) for rd in range(1, code.n_rounds + 1) for q in range(n)]
    mspots = [(rd, n + i) for rd in range(1, code.n_rounds) for i in range(ns)]
    for _ in range(3):
        k = r.choice((0, 1, 1, 2, 3, 5, len(spots) // 3 + 1))
        faults = {s: r.choice("XYZ") for s in r.sample(spots, min(k, len(spots)))}
        if r.random() < 0.25:  # a logical operator, up to a generator
            m = view.logs[r.randrange(len(view.logs))]
            if r.random() < 0.5:
                m = qec.mul(m, r.choice(view.stabs))
            rd = r.randrange(1, code.n_rounds + 1)
            faults = {(rd, q): ch for q, ch in enumerate(qec.letters(m, n)) if ch != "I"}
        km = r.choice((0, 0, 1, 2, len(mspots) // 3))
        flips = set(r.sample(mspots, min(km, len(mspots))))
        out, seen, seen_m = _inject(gates, faults, flips)
        c.check(all(seen.get(q) == code.n_rounds for q in range(n)), "noise-rounds",
                lambda: f"{label}: data error places per qubit {seen}")
        c.check(all(seen_m.get(n + i, 0) == code.n_rounds - 1 for i in range(ns)), "noise-rounds",
                lambda: f"{label}: readout error places per ancilla {seen_m}")
        ci = Circuit()
        for name, args in out:
            ci.append(name, *args)
        _judge(c, setup, ci, faults, flips, sims)


def big(c):
    placed(c, 61, 0, ("stim",))


def tables(c):
    """Certain errors from the tables: the same faults in every round."""
    r = c.rng
    setup = qec.some_setup(r, 26, 0.3)
    label, code, view, arg, idx, anc = setup
    n, ns = view.n, len(view.stabs)
    qs = {q: r.choice("XYZ") for q in r.sample(range(n), r.randrange(0, min(n, 4) + 1))}
    ms = r.sample(range(ns), r.randrange(0, min(ns, 3) + 1)) if r.random() < 0.6 else []
    qe = {}
    if qs or r.random() < 0.5:
        qe["pauli"] = {q: {ch.lower(): 1.0} for q, ch in qs.items()}
    if ms or r.random() < 0.5:
        qe["measurement"] = {n + i: {"p": 1.0} for i in ms}
    faults = {(rd, q): ch for rd in range(1, code.n_rounds + 1) for q, ch in qs.items()}
    flips = {(rd, n + i) for rd in range(1, code.n_rounds) for i in ms}
    ci = qec.generate(code, qe, {}, arg, anc)
    _judge(c, setup, ci, faults, flips, ("stim", "clifford"))


def singles(c):
    """Every single data fault and readout flip of a small code."""
    from plaquette.circuit import Circuit
    r = c.rng
    kinds = [("five", 0, False), ("shor", 0, False), ("repetition", 5, False), ("planar", 2, False),
             ("planar", 3, False), ("rotated", 3, False), ("rotated", 3, True), ("toric", 2, False),
             ("rotated", 2, False), ("rotated", 4, True), ("toric", 3, False), ("rotated", 4, False)]
    kind, size, xzzx = kinds[c.index % len(kinds)]
    code = qec.bundled(kind, size, 2, xzzx)
    view = qec.View(code)
    n, ns = view.n, len(view.stabs)
    arg, idx = qec.choice(r, view)
    anc = bool(c.index // len(kinds) % 2)
    setup = ((kind, size, 2, xzzx), code, view, arg, idx, anc)
    marks = {"pauli": {q: {"x": 0.25} for q in range(n)},
             "measurement": {n + i: {"p": 0.25} for i in range(ns)}}
    gates = qec.gates_of(qec.generate(code, marks, {}, arg, anc))
    for q in range(n):
        for ch in "XYZ":
            for rd in (1, 2):
                ci = Circuit()
                ci.gates = _inject(gates, {(rd, q): ch}, set())[0]
                _judge(c, setup, ci, {(rd, q): ch}, set(), ("stim",), 1)
    for i in range(ns):
        ci = Circuit()
        ci.gates = _inject(gates, {}, {(1, n + i)})[0]
        _judge(c, setup, ci, {}, {(1, n + i)}, ("stim",), 1)


WORKLOADS = [
    W("placed", placed, 120, 2500),
    W("big", big, 24, 400),
    W("tables", tables, 120, 2500),
    W("singles", singles, 24, 48),
]
