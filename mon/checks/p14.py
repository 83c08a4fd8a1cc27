"""P14: without noise, a generated QEC experiment is silent."""
from mon import qec
from mon.core import W

RULE = ("bundled and user-defined codes of random size, rounds, choice (and order) of measured "
        "logical operators, both readout methods and both simulators, without errors and with "
        "error tables of zero probability; every generator of every round, every logical value "
        "and every erasure flag is read from the raw record by walking through the circuit; "
        "non-trivial = distinct (code, rounds, operators, readout, simulator, logical values)")
ASSUMPTIONS = ["user-defined codes without Pauli Y (the generator refuses it, which is checked)",
               "direct readout needs operators with common bases (others must be refused)"]
MINIMA = {"shots": 1500, "generator_values": 10000, "logical_ones": 50, "refused_bases": 10}


def _zero_tables(r, view, kind):
    if kind == "none":
        return {}, {}
    n, ns = view.n, len(view.stabs)
    qe = {"pauli": {q: {"x": 0.0, "z": 0.0} for q in range(n)},
          "erasure": {q: {"p": 0.0} for q in range(n)},
          "measurement": {n + i: {"p": 0.0} for i in range(ns)}}
    ge = {g: {n + i: {"x": 0.0, "y": 0.0} for i in range(ns)} for g in ("H", "R", "M")}
    ge |= {g: {(n + i, q): {"xx": 0.0, "iz": 0.0} for i in range(ns) for q in range(n)}
           for g in ("CX", "CZ")}
    if kind == "some":
        qe = {k: v for k, v in qe.items() if r.random() < 0.6}
        ge = {k: v for k, v in ge.items() if r.random() < 0.6}
    return qe, ge


def silent(c, setup, sims, shots=4):
    from plaquette import Device
    r = c.rng
    label, code, view, arg, idx, anc = setup
    qe, ge = _zero_tables(r, view, r.choice(("none", "none", "zero", "some")))
    ci = qec.generate(code, qe, ge, arg, anc)
    lay = qec.Layout(qec.gates_of(ci), view, idx, anc)
    what = f"{label} logical {arg} {'ancilla' if anc else 'direct'} {sorted(qe)} {sorted(ge)}"
    c.check(lay.problem is None, "layout", lambda: f"{what}: {lay.problem}")
    for sim in sims:
        dev = Device(sim)
        for _ in range(shots):
            raw, era = qec.sample(dev, ci)
            c.check(len(raw) == lay.n_meas, "length", f"{what}: {len(raw)} results")
            a, b, st = lay.unpack(raw)
            c.ev("shots")
            c.ev("generator_values", sum(map(len, st)))
            c.ev("logical_ones", sum(a))
            c.check(all(x == st[0] for x in st), "syndrome", lambda: f"{what} on {sim}: generator "
                    f"values change: {st}")
            c.check(a == b, "logical", lambda: f"{what} on {sim}: logical values {a} then {b}")
            c.check(era is None or not any(era), "erasure", f"{what}: erasures {era}")
            s = qec.unpack(code, raw, era, arg, anc) if r.random() < 0.5 or (
                code.n_logical_qubits > 1) else qec.unpack_default(code, raw, era, anc)
            c.check(not s.syndrome.any() and not s.logical_op_toggle.any()
                    and (s.erased_qubits is None or not s.erased_qubits.any()),
                    "unpacked", lambda: f"{what}: {s}")
            c.sig(label, tuple(idx), anc, sim, tuple(a))
    c.show(setup=what, rounds=code.n_rounds, measurements=lay.n_meas)


def bundled(c):
    r = c.rng
    big = c.index % 4 == 0
    silent(c, qec.some_setup(r, 61 if big else 26, 0),
           ("stim",) if big else ("stim", "clifford"), 3)


def user(c):
    silent(c, qec.some_setup(c.rng, user=1.0), ("stim", "clifford"))


def small_clifford(c):
    silent(c, qec.some_setup(c.rng, 13, 0.2), ("clifford",), 8)


def refused(c):
    """Operators that cannot be measured as asked are refused."""
    r = c.rng
    for _ in range(40):
        n = r.randrange(3, 7)
        s, lo = qec.rand_ops(r, n, r.randrange(2, n), y_free=True)
        code = qec.from_ops(s, lo, 1)
        view = qec.View(code)
        arg, idx = qec.choice(r, view)
        if not qec.readable(view, idx) and not any("Y" in o for o in s + lo):
            break
    else:
        return
    c.refuses(lambda: qec.generate(code, {}, {}, arg, False), "incompatible-readout",
              f"direct readout of {[lo[i] for i in idx]}")
    c.ev("refused_bases")
    qec.generate(code, {}, {}, arg, True)
    c.sig("refused", tuple(s), tuple(lo), tuple(idx))
    # Pauli Y is not supported and must not silently become something else
    for _ in range(40):
        s, lo = qec.rand_ops(r, n, 1, y_free=False)
        if any("Y" in o for o in s):
            code = qec.from_ops(s, lo, 1)
            c.refuses(lambda: qec.generate(code, {}, {}, "X", r.random() < 0.5), "pauli-y",
                      f"circuit with generators {s}")
            c.ev("refused_y")
            break


def fabricated(c):
    """Modified planar codes."""
    from plaquette.codes.latticebase import NoLogicalOperatorError
    r = c.rng
    size = r.choice((3, 4, 5))
    code = qec.bundled("planar", size, r.randrange(1, 3))
    try:
        code.apply_fabrication_errors(
            faulty_qubits=r.sample(range(code.n_data_qubits), r.randrange(1, 4)))
    except NoLogicalOperatorError:
        return
    view = qec.View(code)
    arg, idx = qec.choice(r, view)
    silent(c, (("fabricated", size, code.n_data_qubits), code, view, arg, idx, r.random() < 0.5),
           ("stim", "clifford"), 2)


WORKLOADS = [
    W("bundled", bundled, 120, 2500),
    W("user", user, 150, 4000),
    W("small_clifford", small_clifford, 80, 1500),
    W("refused", refused, 40, 400),
    W("fabricated", fabricated, 40, 800),
]
