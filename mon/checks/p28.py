"""P28: error data that does not fit the code is refused before use."""
import copy
import warnings

from mon import dec, err, qec
from mon.core import W

RULE = ("random well-formed error dictionaries over all kinds of errors on bundled and "
        "user-defined codes must be accepted by validation, circuit generation and weight "
        "computation; the same dictionaries with one defect (wrong role, qubits that do not "
        "exist, ancillas of logical operators, swapped or incomplete pairs, keys that are no "
        "qubits, unknown kinds and labels) must be refused by each of them; error tables and "
        "configurations with such defects must be refused before a circuit or decoder exists; "
        "none of them changes the data; non-trivial = distinct (code, dictionary or defect)")
ASSUMPTIONS = ["qubits are numbered as in P12: data qubits, then generators, then logical "
               "operators", "probabilities out of range are the subject of P16 and P19"]
MINIMA = {"accepted": 1500, "refused": 6000, "defects": 1500, "tables": 400}

QUBIT = ("pauli", "erasure", "measurement")


def _split(d):
    """(qubit part, gate part); unknown kinds go to either."""
    return ({k: v for k, v in d.items() if k in QUBIT},
            {k: v for k, v in d.items() if k in err.ONE + err.TWO},
            {k: v for k, v in d.items() if k not in QUBIT + err.ONE + err.TWO})


def _users(c, code, view, d):
    """All ways of handing the dictionary to the library."""
    from plaquette.circuit.generator import generate_qec_circuit
    from plaquette.errors import ErrorData
    from plaquette.syngraph.weights import WeightComputation
    r = c.rng
    arg, idx = qec.choice(r, view)
    anc = True if not qec.readable(view, idx) else r.random() < 0.5
    q, g, odd = _split(d)
    if r.random() < 0.5:
        q.update(odd)
    else:
        g.update(odd)
    tab = r.choice((ErrorData, lambda: ErrorData.from_lattice(code.lattice)))()
    yield "validation", lambda: tab.check_against_code(code, d)
    yield "circuit generation", lambda: generate_qec_circuit(code, q, g, arg, logical_ancilla=anc)
    yield "weight computation", lambda: WeightComputation(code, d)


def _quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f()


def dictionaries(c):
    """Well-formed dictionaries are accepted, those with a defect refused."""
    r = c.rng
    label, code = qec.some_code(r, 20)
    view = qec.View(code)
    for _ in range(3):
        d = err.well_formed(r, view, small=r.random() < 0.5)
        keep = copy.deepcopy(d)
        c.show(code=label, good=d)
        for what, use in _users(c, code, view, d):
            try:
                _quiet(use)
            except Exception as e:  # noqa: BLE001
                c.fail("accept", f"{what} refuses well-formed errors {d}: {e!r}")
            c.check(d == keep, "changed", lambda: f"{what} changed the errors from {keep} to {d}")
            c.ev("accepted")
        c.sig(label, "good", repr(d))
        for _ in range(6):
            what_bad, bad = err.ill_formed(r, view, d)
            keep_bad = copy.deepcopy(bad)
            for what, use in _users(c, code, view, bad):
                c.refuses(lambda: _quiet(use), "defect", f"{what} of errors with {what_bad}")
                c.check(bad == keep_bad, "changed", lambda: f"{what} changed the errors")
                c.ev("refused")
            c.ev("defects")
            c.sig(label, what_bad)


def _bad_row(r, view):
    n, s = view.n, len(view.stabs)
    data, stab = range(n), range(n, n + s)
    out = (n + s, n + s + len(view.logs), -1, 10 ** 5)
    gate = r.choice(err.ONE + err.TWO)
    if gate in err.ONE:
        how = r.choice(("role", "out", "label"))
        q = {"role": r.choice(data), "out": r.choice(out), "label": r.choice(stab)}[how]
        qs = [r.choice(stab), q]
        name = r.choice(("XX", "W", "I", "XI")) if how == "label" else r.choice("XYZ")
    else:
        how = r.choice(("swap", "out", "role", "label"))
        a, b = r.choice(stab), r.choice(data)
        qs = {"swap": [b, a], "out": r.choice(([a, r.choice(out)], [r.choice(out), b])),
              "role": r.choice(([a, r.choice(stab)], [b, r.choice(data)])),
              "label": [a, b]}[how]
        name = r.choice(("X", "Z", "II", "XW", "XXX")) if how == "label" else r.choice(err.PAIRS)
    return gate, qs, [name], [0.01], how


def tables(c):
    """Defects in tables are found before a circuit or a decoder exists."""
    import pandas as pd
    from plaquette.circuit.generator import generate_qec_circuit
    from plaquette.errors import ErrorData
    r = c.rng
    (label, code), bad_qubits = qec.some_code(r, 14, user=0.2), r.random() < 0.4
    view = qec.View(code)
    arg, idx = qec.choice(r, view)
    anc = True if not qec.readable(view, idx) else r.random() < 0.5
    if bad_qubits:  # a table with a qubit that does not exist or of the wrong type
        m = err.Model.of(view)
        how = r.choice(("data", "stab", "beyond"))
        q = {"data": r.randrange(view.n), "stab": view.n + r.randrange(len(view.stabs)),
             "beyond": view.n + len(view.stabs) + r.randrange(5)}[how]
        m.kind[q] = {"data": "stab", "stab": "data",
                     "beyond": r.choice(("data", "stab", "ancilla"))}[how]
        names = ["X", "Z", "erasure", "measurement"]
        m.val = {k: {i: 0.02 for i in m.kind} for k in names}
        what = f"qubit {q} as {m.kind[q]}"

        def make():
            return ErrorData(qubit_errors=m.frame(pd))
    else:
        gate, qs, names, ps, how = _bad_row(r, view)
        what = f"{gate} errors {names} on {qs}"

        def make():
            ed = ErrorData.from_lattice(code.lattice)
            ed.add_gate_error(gate, qs, names, ps)
            return ed
    c.show(code=label, defect=what)

    def use(step):
        ed = make()
        if step == "validation":
            ed.check_against_code(code)
        elif step == "circuit generation":
            generate_qec_circuit(code, ed.qubit_errors_dict, ed.gate_errors_dict, arg,
                                 logical_ancilla=anc)
        else:
            dec.cls(step).from_code(code, ed.error_data_dict, weighted=True)
    for step in ("validation", "circuit generation", r.choice(dec.DECODERS)):
        if step == "UnionFindNoWeights":
            step = "UnionFindDecoder"
        c.refuses(lambda: _quiet(lambda: use(step)), "table", f"{step} with {what}")
        c.ev("tables")
    c.sig(label, what, how)


WORKLOADS = [W("dictionaries", dictionaries, 260), W("tables", tables, 200)]
