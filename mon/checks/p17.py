"""P17: raw results are unpacked to the right logical values, syndrome and erasures."""
from mon import qec
from mon.core import W

RULE = ("random raw records (bool and uint8) of generated circuits of bundled, fabricated and "
        "user-defined codes; the meaning of every bit is found by walking through the circuit; "
        "wrong lengths and wrong amounts of erasure information must be refused; non-trivial = "
        "distinct (code, rounds, operators, readout, record)")
ASSUMPTIONS = ["erasure information is complete (every data qubit, every round), as documented",
               "without telling which operators were measured, only records whose length fixes "
               "the number of qubits of each operator are unpacked"]
MINIMA = {"bits": 50000, "records": 1000, "refused": 500, "erasure_flags": 5000}


def _setup(c, user=0.35):
    from plaquette.codes.latticebase import NoLogicalOperatorError
    r = c.rng
    if r.random() < 0.15:
        code = qec.bundled("planar", r.choice((3, 4)), r.randrange(1, 4))
        try:
            code.apply_fabrication_errors(
                faulty_qubits=r.sample(range(code.n_data_qubits), r.randrange(1, 3)))
            view = qec.View(code)
            arg, idx = qec.choice(r, view)
            return (("fabricated", code.n_data_qubits, code.n_rounds), code, view, arg, idx,
                    r.random() < 0.5)
        except NoLogicalOperatorError:
            pass
    return qec.some_setup(r, 32, user)


def _ints(a):
    return [int(x) for x in a]


def _judge(c, what, s, lay, view, rounds, raw, era):
    a, b, st = lay.unpack(raw)
    ns = len(view.stabs)
    c.check(_ints(s.logical_op_initial) == a, "initial", lambda: f"{what}: initial logical values "
            f"{s.logical_op_initial}, recorded {a}")
    c.check(_ints(s.logical_op_final) == b, "final", lambda: f"{what}: final logical values "
            f"{s.logical_op_final}, recorded {b}")
    c.check(_ints(s.logical_op_toggle) == [x ^ y for x, y in zip(a, b)], "toggle",
            lambda: f"{what}: toggle {s.logical_op_toggle} of {a} and {b}")
    c.check(s.stabilizer_gen.shape == (rounds + 1, ns), "shape",
            lambda: f"{what}: generator outcomes of shape {s.stabilizer_gen.shape}")
    c.check([_ints(x) for x in s.stabilizer_gen] == st, "generators",
            lambda: f"{what}: generators {s.stabilizer_gen.astype(int).tolist()}, recorded {st}")
    syn = [[x ^ y for x, y in zip(p, q)] for p, q in zip(st[1:], st)]
    c.check([_ints(x) for x in s.syndrome] == syn, "syndrome",
            lambda: f"{what}: syndrome {s.syndrome.astype(int).tolist()}, recorded {syn}")
    if era is None:
        c.check(s.erased_qubits is None, "erasure", f"{what}: erasures {s.erased_qubits}")
    else:
        want = [[0] * view.n for _ in range(rounds)]
        for flag, (rd, q) in zip(era, lay.erasures):
            want[rd][q] ^= int(flag)
        c.check([_ints(x) for x in s.erased_qubits] == want, "erasure",
                lambda: f"{what}: erased qubits {s.erased_qubits.astype(int).tolist()}, recorded "
                f"{want}")
        c.ev("erasure_flags", len(era))
    c.ev("records")
    c.ev("bits", len(raw))


def _derivable(view, idx):
    """May the number of qubits of each operator be derived from the length of the record?"""
    ws = [qec.weight(o) for o in view.logs]
    mine = [ws[i] for i in idx]
    return view.k == 1 or set(mine) == {min(ws)} or set(mine) == {max(ws)}


def records(c):
    import numpy as np
    r = c.rng
    label, code, view, arg, idx, anc = _setup(c)
    qe = {}
    if r.random() < 0.5:
        qe["erasure"] = {q: {"p": 0.1} for q in range(view.n)}
    if r.random() < 0.3:
        qe["pauli"] = {q: {"x": 0.1} for q in range(view.n)}
    if r.random() < 0.3:
        qe["measurement"] = {view.n: {"p": 0.1}}
    lay = qec.Layout(qec.gates_of(qec.generate(code, qe, {}, arg, anc)), view, idx, anc)
    c.check(lay.problem is None, "layout", lambda: f"{label} {arg}: {lay.problem}")
    for _ in range(6):
        dens = r.choice((0.5, 0.5, 0.1, 0.9, 0.0, 1.0))
        raw = np.array([r.random() < dens for _ in range(lay.n_meas)],
                       dtype=r.choice((bool, np.uint8, int)))
        era = None
        if "erasure" in qe:
            era = np.array([r.random() < 0.4 for _ in lay.erasures], dtype=bool)
        keep = (raw.copy(), None if era is None else era.copy())
        what = f"{label} logical {arg} {'ancilla' if anc else 'direct'} {raw.dtype}"
        _judge(c, what, qec.unpack(code, raw, era, arg, anc), lay, view, code.n_rounds, raw, era)
        if anc or _derivable(view, idx):
            _judge(c, what + " (default)", qec.unpack_default(code, raw, era, anc), lay, view,
                   code.n_rounds, raw, era)
        c.check((raw == keep[0]).all() and (era is None or (era == keep[1]).all()), "modified",
                f"{what}: the record was changed")
        c.sig(label, tuple(idx), anc, hash(raw.tobytes()))
    c.show(setup=f"{label} {arg}", measurements=lay.n_meas)


def real(c):
    """Records of noisy runs on both simulators."""
    from plaquette import Device
    import numpy as np
    r = c.rng
    label, code, view, arg, idx, anc = _setup(c)
    qe = {"pauli": {q: {"x": 0.1, "z": 0.1} for q in range(view.n)},
          "measurement": {view.n + i: {"p": 0.1} for i in range(len(view.stabs))}}
    if r.random() < 0.6:
        qe["erasure"] = {q: {"p": 0.3} for q in range(view.n)}
    ci = qec.generate(code, qe, {}, arg, anc)
    lay = qec.Layout(qec.gates_of(ci), view, idx, anc)
    for sim in ("stim", "clifford"):
        dev = Device(sim)
        for _ in range(3):
            raw, era = qec.sample(dev, ci)
            if "erasure" not in qe:
                c.check(era is None or len(era) == 0, "erasure", f"{label}: erasures {era}")
                era = None
            _judge(c, f"{label} {arg} on {sim}", qec.unpack(code, raw, era, arg, anc), lay, view,
                   code.n_rounds, raw, era)


def refused(c):
    import numpy as np
    r = c.rng
    label, code, view, arg, idx, anc = _setup(c)
    lay = qec.Layout(qec.gates_of(qec.generate(code, {}, {}, arg, anc)), view, idx, anc)
    n = lay.n_meas
    fixed = (code.n_rounds + 1) * len(view.stabs)
    ws = [qec.weight(o) for o in view.logs]
    for m in (n - 1, n + 1, n + 2, n - 2, 0, fixed, n + len(view.stabs), n - len(view.stabs),
              2 * n):
        if m < 0 or m == n:
            continue
        raw = np.array([r.randrange(2) for _ in range(m)], dtype=np.uint8)
        what = f"{label} logical {arg} {'ancilla' if anc else 'direct'}: {m} results, not {n}"
        c.refuses(lambda: qec.unpack(code, raw, None, arg, anc), "wrong-length", what)
        c.ev("refused")
        half, odd = divmod(m - fixed, 2)
        legal = not odd and half > 0 and (half in ws if view.k == 1 else
                                          half in (view.k * min(ws), view.k * max(ws)))
        if anc or not legal:
            c.refuses(lambda: qec.unpack_default(code, raw, None, anc), "wrong-length-default",
                      what)
            c.ev("refused")
    raw = np.array([r.randrange(2) for _ in range(n)], dtype=np.uint8)
    full = code.n_rounds * view.n
    for m in {full - 1, full + 1, full + view.n, full - view.n, view.n * (code.n_rounds + 1), 1,
              code.n_rounds} - {full}:
        if m < 0:
            continue
        era = np.zeros(m, dtype=bool)
        c.refuses(lambda: qec.unpack(code, raw, era, arg, anc), "wrong-erasure",
                  f"{label}: {m} erasure flags, not {full}")
        c.ev("refused")
    c.sig("refused", label, tuple(idx), anc)


WORKLOADS = [
    W("records", records, 250, 8000),
    W("real", real, 60, 1200),
    W("refused", refused, 60, 1500),
]
