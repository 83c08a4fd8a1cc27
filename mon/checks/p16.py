"""P16: generated circuits contain exactly the configured noise, at the right places."""
import copy

from mon import qec, ref
from mon.core import W

RULE = ("random error tables (every kind, partial or complete, zero and certain probabilities) on "
        "bundled, fabricated and user-defined codes; the expected noise is derived from the "
        "noiseless circuit and the tables, and compared per qubit, gap between ideal instructions "
        "by gap; non-trivial = distinct (code, kinds of noise, number of noise instructions)")
ASSUMPTIONS = ["the noiseless circuit itself is decided by P14/P15",
               "noise between two ideal instructions of a qubit is compared as a multiset (the "
               "channels commute); instructions with probability zero count as absent, except "
               "erasures, which are recorded"]
MINIMA = {"noise_instructions": 10000, "gaps": 20000, "refused": 300, "pauli2": 2000}

PAIRS = [a + b for a in "ixyz" for b in "ixyz"][1:]


def _p(r):
    if r.random() < 0.1:
        return r.choice((0.5, 0.75, 0.9, 0.999, r.random()))
    return r.choice((0.0, 0.0, 1e-6, 0.01, 0.125)) if r.random() < 0.5 else r.random() * 0.06


def _ps(r, names):
    out = {x: _p(r) for x in names}
    top = sum(out.values())
    return out if top <= 1 else {x: v / top * 0.999 for x, v in out.items()}


def _table(r, keys, labels, full):
    keys = list(keys)
    if not full:
        keys = r.sample(keys, r.randrange(0, len(keys) + 1))
    out = {}
    for k in keys:
        lab = [x for x in labels if r.random() < 0.6] or [r.choice(labels)]
        out[k] = _ps(r, lab)
    if out and len(labels) > 1 and r.random() < 0.3:
        out[r.choice(list(out))] = {r.choice(labels): 1.0}
    return out


def tables(r, code, view):
    """Random valid error tables."""
    n, ns = view.n, len(view.stabs)
    anc = range(n, n + ns)
    links = [(n + i, q) for i, s in enumerate(view.stabs) for q in range(n)
             if (s[0] | s[1]) >> q & 1]
    extra = [(n + i, q) for i in range(ns) for q in range(n)]
    qe, ge = {}, {}
    if r.random() < 0.7:
        qe["pauli"] = _table(r, range(n), "xyz", r.random() < 0.4)
    if r.random() < 0.5:
        qe["erasure"] = _table(r, range(n), "p", r.random() < 0.6)
    if r.random() < 0.6:
        qe["measurement"] = _table(r, anc, "p", r.random() < 0.4)
    for g in "HRM":
        if r.random() < 0.4:
            ge[g] = _table(r, anc, "xyz", r.random() < 0.4)
    for g in ("CX", "CZ"):
        if r.random() < 0.5:
            ge[g] = _table(r, links if r.random() < 0.7 else extra, PAIRS, r.random() < 0.3)
    return qe, ge


def _noise(name, args):
    """Canonical noise: (kind, qubits, probabilities) or None if it is no noise at all."""
    if name == "ERROR":
        p, op, *qs = args
        out = ("pauli", tuple(qs), tuple(float(p) if op == x else 0.0 for x in "XYZ"))
    elif name == "E_PAULI":
        out = ("pauli", (args[3],), tuple(map(float, args[:3])))
    elif name == "E_PAULI2":
        out = ("pauli2", tuple(args[15:]), tuple(map(float, args[:15])))
    elif name == "E_ERASE":
        return "erasure", (args[1],), (float(args[0]),)
    else:
        return (name, tuple(args), ())
    return out if any(out[2]) else None


IDEAL = {"X", "Y", "Z", "H", "S", "CX", "CZ", "R", "M"}


def split(gates):
    """Per qubit: list of ideal instructions, and list of noise multisets in the gaps."""
    ideal, gaps = {}, {}
    for name, args in gates:
        if name in IDEAL:
            groups = (zip(args[::2], args[1::2]) if name in ("CX", "CZ")
                      else ((q,) for q in args))
            for g in groups:
                for q in g:
                    ideal.setdefault(q, []).append((name, tuple(g)))
                    gaps.setdefault(q, [[]]).append([])
        else:
            tok = _noise(name, args)
            if tok:
                for q in tok[1]:
                    gaps.setdefault(q, [[]])[-1].append(tok)
    return ideal, {q: [sorted(g) for g in gs] for q, gs in gaps.items()}


def expected(clean, view, rounds, qe, ge):
    """Ideal instructions and gaps of the noisy circuit."""
    ideal, _ = split(clean)
    n, ns = view.n, len(view.stabs)
    qe = {k: qe.get(k, {}) for k in ("pauli", "erasure", "measurement")}
    gaps = {q: [[] for _ in range(len(seq) + 1)] for q, seq in ideal.items()}

    def put(q, i, tok):
        if tok:
            gaps.setdefault(q, [[]])[i].append(tok)

    def pauli(p, q):
        return _noise("E_PAULI", (p.get("x", 0), p.get("y", 0), p.get("z", 0), q))

    # rounds of every instruction, from the measurements of its ancilla
    for a in range(n, n + ns):
        rd = 0
        for i, (name, qs) in enumerate(ideal.get(a, [])):
            noisy = 1 <= rd < rounds
            if noisy:
                if name == "M":
                    put(a, i, _noise("ERROR", (qe["measurement"].get(a, {}).get("p", 0), "X", a)))
                tab = ge.get(name, {})
                if name in ("CX", "CZ"):
                    p = tab.get(qs, {})
                    put(a, i + 1, _noise("E_PAULI2", [p.get(x, 0) for x in PAIRS] + list(qs)))
                else:
                    put(a, i + 1, pauli(tab.get(a, {}), a))
            if name == "M":
                rd += 1
    for q in range(n):
        seq = ideal.get(q, [])
        cnt, where = {}, []
        for i, (name, qs) in enumerate(seq):
            a = qs[0] if len(qs) == 2 and qs[0] != q else None
            if a is not None and n <= a < n + ns:
                # k-th use of this ancilla with q: an ancilla meets a data qubit once per round
                rd = cnt[a] = cnt.get(a, -1) + 1
                where.append((i, rd))
                p = ge.get(name, {}).get(qs, {})
                if 1 <= rd < rounds:
                    put(q, i + 1, _noise("E_PAULI2", [p.get(x, 0) for x in PAIRS] + list(qs)))
        first = {}
        for i, rd in where:
            first.setdefault(rd, i)
        last_prep = max([i for i, rd in where if rd == 0], default=None)
        for rd in range(1, rounds + 1):
            toks = []
            if q in qe["pauli"]:
                toks.append(pauli(qe["pauli"][q], q))
            if q in qe["erasure"]:
                toks.append(_noise("E_ERASE", (qe["erasure"][q].get("p", 0), q)))
            for t in filter(None, toks):
                if rd in first:
                    put(q, first[rd], t)
                elif last_prep is None:
                    return None  # a data qubit without generators: any place will do
    return ideal, {q: [sorted(g) for g in gs] for q, gs in gaps.items()}


def _judge(c, label, code, view, arg, anc, qe, ge):
    before = copy.deepcopy((qe, ge))
    ci = qec.generate(code, qe, ge, arg, anc)
    noisy = qec.gates_of(c.keep(ci, "circuit generated earlier", str))
    c.check((qe, ge) == before, "tables-modified", lambda: f"{label}: tables {before} became "
            f"{(qe, ge)}")
    ci = qec.generate(code, {}, {}, arg, anc)
    clean = qec.gates_of(c.keep(ci, "circuit generated earlier", str))
    exp = expected(clean, view, code.n_rounds, qe, ge)
    if exp is None:
        return
    ideal, gaps = split(noisy)
    what = f"{label} logical {arg} {'ancilla' if anc else 'direct'} {qe} {ge}"
    c.check(ideal == exp[0], "ideal-part", lambda: f"{what}: without noise instructions the "
            f"circuit differs from the noiseless circuit")
    for q in sorted(set(gaps) | set(exp[1])):
        got, want = gaps.get(q, [[]]), exp[1].get(q, [[]])
        for i, (a, b) in enumerate(zip(got, want)):
            c.check(a == b, "noise", lambda: f"{what}: qubit {q} before its ideal instruction {i} "
                    f"({ideal.get(q, [])[i - 1:i + 1]}): noise {a}, configured {b}")
        c.ev("gaps", len(want))
        c.ev("noise_instructions", sum(map(len, want)))
        c.ev("pauli2", sum(t[0] == "pauli2" for g in want for t in g))
    erase = [q for name, a in noisy if name == "E_ERASE" for q in a[1:]]
    tab = [q for q in qe.get("erasure", {})]
    c.check(sorted(erase) == sorted(tab * code.n_rounds), "erasures",
            lambda: f"{what}: erasure instructions on {erase}")
    c.sig(label, anc, tuple(sorted(qe)), tuple(sorted(ge)),
          sum(map(len, (g for gs in exp[1].values() for g in gs))))
    c.show(setup=what, instructions=len(noisy))


def bundled(c):
    r = c.rng
    label, code, view, arg, idx, anc = qec.some_setup(r, 26, 0.35, r.choice((1, 2, 2, 3, 4)))
    _judge(c, label, code, view, arg, anc, *tables(r, code, view))


def fabricated(c):
    from plaquette.codes.latticebase import NoLogicalOperatorError
    r = c.rng
    size = r.choice((3, 4))
    code = qec.bundled("planar", size, r.randrange(1, 4))
    try:
        code.apply_fabrication_errors(
            faulty_qubits=r.sample(range(code.n_data_qubits), r.randrange(1, 3)))
    except NoLogicalOperatorError:
        return
    view = qec.View(code)
    arg, idx = qec.choice(r, view)
    _judge(c, ("fabricated", size, code.n_data_qubits, code.n_rounds), code, view, arg,
           r.random() < 0.5, *tables(r, code, view))


def from_data(c):
    """The same with tables that come from ErrorData; generating twice gives the same."""
    import pandas as pd
    from plaquette.errors import ErrorData
    r = c.rng
    label, code, view, arg, idx, anc = qec.some_setup(r, 20, 0.3)
    n, ns = view.n, len(view.stabs)
    tab, cols = {}, {"qubit_id": range(n + ns), "qubit_type": ["data"] * n + ["stab"] * ns}
    if r.random() < 0.8:
        tab["pauli"] = {q: _ps(r, "xyz") for q in range(n)}
        for x in "xyz":
            cols[x.upper()] = [tab["pauli"][q][x] for q in range(n)] + [0.3] * ns
    if r.random() < 0.8:
        tab["measurement"] = {i: {"p": _p(r)} for i in range(n, n + ns)}
        cols["measurement"] = [0.2] * n + [v["p"] for v in tab["measurement"].values()]
    if r.random() < 0.5:
        tab["erasure"] = {q: {"p": _p(r)} for q in range(n)}
        cols["erasure"] = [v["p"] for v in tab["erasure"].values()] + [0.2] * ns
    if not tab:
        return
    ed = ErrorData(qubit_errors=pd.DataFrame(cols))
    clean = qec.gates_of(qec.generate(code, {}, {}, arg, anc))
    exp = expected(clean, view, code.n_rounds, tab, {})
    for _ in range(2):
        got = split(qec.gates_of(qec.generate(code, ed.qubit_errors_dict, ed.gate_errors_dict,
                                              arg, anc)))
        c.check(exp is None or got == exp, "from-tables", lambda: f"{label} {arg}: noise of the "
                f"circuit differs from the table {tab}")
    c.sig("data", label, tuple(sorted(tab)))


def generator(c):
    """Several circuits of one generator: each as if it were the only one."""
    from plaquette.circuit.generator import QECCircuitGenerator
    r = c.rng
    label, code, view, arg, idx, anc = qec.some_setup(r, 20, 0.4, r.choice((1, 2, 3)))
    qe, ge = tables(r, code, view)
    gen = QECCircuitGenerator(code, qe, ge, anc)
    hist = []
    logs = [(x, z, 0) for x, z in view.logs]
    clash = r.choice([[i, j] for i, p in enumerate(logs) for j, q in enumerate(logs)
                      if ref.anti(p, q)])
    for k in range(r.randrange(2, 5)):
        if r.random() < 0.3:
            bad = r.choice(("XYZ"[:view.k] + "Q", "X" * (view.k + 1), [9 * view.k], clash))
            c.refuses(lambda: gen.get_circuit(bad), "bad-operator", f"{label}: logical {bad}")
            hist.append(bad)
        ci = gen.get_circuit(arg)
        want = qec.generate(code, qe, ge, arg, anc)
        c.check(qec.gates_of(ci) == qec.gates_of(want), "generator", lambda: f"{label} {arg} "
                f"after {hist} with the same generator: {len(ci.gates)} instructions, a new one "
                f"gives {len(want.gates)}")
        c.keep(ci, "circuit generated earlier", str)
        c.ev("generated")
        hist.append(arg)
        for _ in range(10):
            arg2, idx2 = qec.choice(r, view)
            if anc or qec.readable(view, idx2):
                arg = arg2
                break
    c.sig("generator", label, anc, tuple(map(str, hist)))


def refused(c):
    """Unsupported or ill-addressed entries."""
    r = c.rng
    label, code, view, arg, idx, anc = qec.some_setup(r, 20, 0.3, 2)
    n, ns = view.n, len(view.stabs)
    total = code.n_ext_qubits
    a, d = n + r.randrange(ns), r.randrange(n)
    bad = [
        ({"pauli": {a: {"x": 0.1}}}, {}), ({"pauli": {total: {"x": 0.1}}}, {}),
        ({"pauli": {d: {"X": 0.1}}}, {}), ({"pauli": {d: {"p": 0.1}}}, {}),
        ({"erasure": {a: {"p": 0.1}}}, {}), ({"erasure": {d: {"x": 0.1}}}, {}),
        ({"measurement": {d: {"p": 0.1}}}, {}), ({"measurement": {a: {"x": 0.1}}}, {}),
        ({"measurement": {n + ns: {"p": 0.1}}}, {}),  # a logical operator
        ({"Pauli": {d: {"x": 0.1}}}, {}), ({"H": {a: {"x": 0.1}}}, {}),
        ({}, {"pauli": {d: {"x": 0.1}}}), ({}, {"CY": {(a, d): {"xx": 0.1}}}),
        ({}, {"H": {d: {"x": 0.1}}}), ({}, {"H": {a: {"xx": 0.1}}}),
        ({}, {"R": {n + ns: {"x": 0.1}}}), ({}, {"M": {a: {"p": 0.1}}}),
        ({}, {"CX": {(d, a): {"xx": 0.1}}}), ({}, {"CZ": {(a, a): {"xx": 0.1}}}),
        ({}, {"CX": {(a, d): {"ii": 0.1}}}), ({}, {"CX": {(a, d): {"x": 0.1}}}),
        ({}, {"CZ": {(a, d): {"XX": 0.1}}}), ({}, {"CZ": {(a, n + ns): {"xx": 0.1}}}),
        ({"pauli": {d: {"x": 1.5}}}, {}),
        ({"erasure": {d: {"p": -0.1}}}, {}), ({"measurement": {a: {"p": 2}}}, {}),
    ]
    for qe, ge in bad:
        c.refuses(lambda: qec.generate(code, qe, ge, arg, anc), "bad-table",
                  f"{label}: circuit with errors {qe} {ge}")
        c.ev("refused")
    c.sig("refused", label)


WORKLOADS = [
    W("bundled", bundled, 400, 8000),
    W("fabricated", fabricated, 30, 800),
    W("from_data", from_data, 60, 1500),
    W("generator", generator, 40, 600),
    W("refused", refused, 24, 300),
]
