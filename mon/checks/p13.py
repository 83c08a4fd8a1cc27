"""P13: removing faulty qubits or links leaves a consistent, valid planar code."""
import itertools

from mon import qec
from mon.core import W

RULE = ("random and systematic lists of faulty qubits, couplings and generators (by index or "
        "position, once or repeatedly) applied to planar codes of sizes 2-7; the object graph, the "
        "reported operators, commutation and the relation to the original operators are checked, "
        "and circuits of the modified code are run on a simulator with every single data fault to "
        "see which operators are measured; non-trivial = distinct modified codes")
ASSUMPTIONS = ["default options; with the experimental keep_gauge/boundary_join options the "
               "generators after removing one qubit and the consistency of the data structure are "
               "judged"]
MINIMA = {"modified": 100, "refused_logical": 2, "faults_run": 1000, "bad_requests": 30, "option_models": 40}


def _pos_ops(code):
    """Operators as {position: factor} plus logical operators."""
    lat = code.lattice
    return ([{v.pos for v in lat.dataqubits}],
            [{e.data.pos: e.factor.name for e in s.edges} for s in lat.stabgens],
            [{e.data.pos: e.factor.name for e in s.edges} for s in lat.logical_ops])


def _request(r, code, size):
    """Random (kwargs, set of positions that must vanish)."""
    lat = code.lattice
    gone, kw = set(), {}

    def ref(v):
        return v.equbit_idx if r.random() < 0.6 else tuple(v.pos)
    nq = r.choice((0, 1, 1, 1, 2, 2, 3, 4, 6))
    ng = r.choice((0, 0, 0, 1, 2))
    ns = r.choice((0, 0, 0, 0, 1)) if lat.stabgens else 0
    if not nq + ng + ns:
        nq = 1
    qs = r.sample(lat.dataqubits, min(nq, len(lat.dataqubits)))
    if qs and r.random() < 0.3:  # duplicates
        qs = qs + [qs[0]]
    kw["faulty_qubits"] = [ref(v) for v in qs]
    gone |= {v.pos for v in qs}
    edges = [e for e in lat.edges if e.op in lat.stabgens] if ng else []
    es = r.sample(edges, min(ng, len(edges)))
    if es or r.random() < 0.2:
        kw["faulty_gates"] = [(ref(e.op), ref(e.data)) for e in es]
        gone |= {e.data.pos for e in es}
    ss = r.sample(lat.stabgens, ns)
    if ss or r.random() < 0.2:
        kw["faulty_stabilizers"] = [ref(s) for s in ss]
        gone |= {e.data.pos for s in ss for e in s.edges}
    return kw, gone


def _span_check(orig, new, gone):
    """New operators belong to the old ones up to removed qubits."""
    data = sorted(orig[0][0])
    idx = {p: i for i, p in enumerate(data)}
    n = len(data)

    def vec(op):
        x = z = 0
        for p, f in op.items():
            x |= (f in "XY") << idx[p]
            z |= (f in "ZY") << idx[p]
        return x | z << n
    from mon import ref
    basis = [vec(s) for s in orig[1]]
    for p in gone:
        basis += [1 << idx[p], 1 << (n + idx[p])]
    rk = ref.gf2_rank(basis)
    for i, s in enumerate(new[1]):
        if ref.gf2_rank(basis + [vec(s)]) != rk:
            return f"generator {i} {s} is no product of old generators"
    for i, (a, b) in enumerate(zip(orig[2], new[2])):
        if ref.gf2_rank(basis + [vec(a) ^ vec(b)]) != rk:
            return f"logical operator {i} {b} is not equivalent to the old one {a}"
    return None


def _apply(c, code, kw):
    """True if applied, False if it was reported that no logical operator is left."""
    from plaquette.codes import latticebase as lb
    try:
        code.apply_fabrication_errors(**kw)
    except lb.NoLogicalOperatorError as e:
        c.ev("refused_logical")
        str(e)
        return False
    return True


def _judge(c, code, orig, gone, what, run):
    new = _pos_ops(code)
    c.check(new[0][0] == orig[0][0] - gone, "removed",
            lambda: f"{what}: data qubits {sorted(orig[0][0] - gone - new[0][0])} vanished, "
            f"{sorted(new[0][0] & gone)} stayed")
    bad = qec.lattice_problem(code)
    c.check(bad is None, "inconsistent", lambda: f"{what}: {bad}")
    v = qec.View(code)
    c.check(len(v.logs) == 2, "logicals", f"{what}: {len(v.logs)} logical operators")
    bad = v.problem(need_rank=False)
    c.check(bad is None, "invalid", lambda: f"{what}: {bad}")
    for i, s in enumerate(v.stabs):
        c.check(s != (0, 0), "empty", f"{what}: generator {i} is empty")
    bad = _span_check(orig, new, gone)
    c.check(bad is None, "unrelated", lambda: f"{what}: {bad}")
    c.ev("modified")
    if run:
        _run_faults(c, code, v, what)


def _run_faults(c, code, v, what):
    """Which operators does a circuit of this code measure?"""
    from plaquette import Device
    from plaquette.circuit.generator import generate_qec_circuit
    from plaquette.device import MeasurementSample
    r = c.rng
    qs = list(range(v.n))
    r.shuffle(qs)
    for q, ch in itertools.product(qs[:14], "xz"):
        lo = r.choice("XZ")
        anc = r.random() < 0.5
        ci = generate_qec_circuit(code, {"pauli": {q: {ch: 1.0}}}, {}, lo, anc)
        dev = Device("stim", batch_size=2)
        dev.run(ci)
        raw, _ = dev.get_sample()
        res = MeasurementSample.from_code_and_raw_results(code, raw, logical_ancilla=anc,
                                                          logical_ops=lo)
        err = (1 << q, 0) if ch == "x" else (0, 1 << q)
        e = (0, 0)
        for rd in range(code.n_rounds):
            want = v.syndrome(err)
            c.check(tuple(map(int, res.syndrome[rd])) == want, "measured",
                    lambda: f"{what}: fault {ch}{q} gives {res.syndrome[rd].astype(int)}, "
                    f"generators predict {want}")
            e = qec.mul(e, err)
        c.check(int(res.logical_op_toggle[0]) == qec.anti(e, v.logs["XZ".index(lo)]), "logical",
                lambda: f"{what}: fault {ch}{q}, logical {lo} toggles {res.logical_op_toggle}")
        c.ev("faults_run")


def random_lists(c):
    r = c.rng
    size = r.choice((2, 3, 3, 4, 4, 5, 6))
    code = qec.bundled("planar", size, r.randrange(1, 3))
    orig = _pos_ops(code)
    gone, hist = set(), []
    for _ in range(r.choice((1, 1, 1, 2, 3))):
        kw, g = _request(r, code, size)
        hist.append(kw)
        if not _apply(c, code, kw):
            c.sig("refused", size, repr(hist))
            return
        gone |= g
        _judge(c, code, orig, gone, f"planar {size} {hist}", run=r.random() < 0.4)
        if len(code.lattice.stabgens) < 2:
            break
    c.sig(size, tuple(sorted(gone)))
    c.show(size=size, requests=hist, generators=len(code.lattice.stabgens))


def singles(c):
    """Every single faulty element must be tolerated from size 3 on."""
    r = c.rng
    size = 3 + c.index % 3
    probe = qec.bundled("planar", size, 1)
    lat = probe.lattice
    items = ([("faulty_qubits", v.equbit_idx, {v.pos}) for v in lat.dataqubits]
             + [("faulty_gates", (e.op.equbit_idx, e.data.equbit_idx), {e.data.pos})
                for e in lat.edges if e.op in lat.stabgens])
    r.shuffle(items)
    for name, item, gone in items[:12]:
        code = qec.bundled("planar", size, 1)
        orig = _pos_ops(code)
        c.check(_apply(c, code, {name: [item]}), "refused-single",
                f"planar {size}: {name}=[{item}] leaves no logical operator")
        _judge(c, code, orig, gone, f"planar {size} {name}=[{item}]", run=r.random() < 0.1)
        c.sig(size, tuple(sorted(gone)))


def pairs(c):
    """Neighbouring faults: merged generators are merged again or cut."""
    r = c.rng
    size = r.choice((3, 4, 5))
    code = qec.bundled("planar", size, 1)
    orig = _pos_ops(code)
    lat = code.lattice
    v = r.choice(lat.dataqubits)
    near = sorted({e.data.pos for s in v.neighbours for e in s.edges})
    more = r.sample(near, min(len(near), r.randrange(1, 4)))
    kw = {"faulty_qubits": [v.pos, *more]}
    if _apply(c, code, kw):
        gone = {v.pos, *more}
        _judge(c, code, orig, gone, f"planar {size} {kw}", run=r.random() < 0.3)
        c.sig(size, tuple(sorted(gone)))


def bad_requests(c):
    """Requests for elements that are no such thing are refused and change nothing."""
    r = c.rng
    size = r.choice((3, 4))
    code = qec.bundled("planar", size, 1)
    lat = code.lattice
    before = _pos_ops(code)
    d, s, lo = r.choice(lat.dataqubits), r.choice(lat.stabgens), r.choice(lat.logical_ops)
    far = r.choice([v for v in lat.dataqubits if v not in s.neighbours])
    bad = r.choice((
        dict(faulty_qubits=[d.equbit_idx, s.equbit_idx]), dict(faulty_qubits=[lo.pos]),
        dict(faulty_qubits=[s.pos]), dict(faulty_qubits=[len(lat.equbits)]),
        dict(faulty_qubits=[(2 * size - 1, 2 * size - 1)]), dict(faulty_qubits=[(99, 0)]),
        dict(faulty_gates=[(s.equbit_idx, far.equbit_idx)]),
        dict(faulty_gates=[(d.equbit_idx, s.equbit_idx)]), dict(faulty_gates=[(lo.pos, d.pos)]),
        dict(faulty_stabilizers=[d.equbit_idx]), dict(faulty_stabilizers=[lo.equbit_idx]),
        dict(faulty_qubits=[d.pos], faulty_stabilizers=[d.pos]),
    ))
    c.refuses(lambda: code.apply_fabrication_errors(**bad), "bad-request", f"planar {size}: {bad}")
    c.check(_pos_ops(code) == before and qec.lattice_problem(code) is None, "refusal-changed",
            f"planar {size}: refused {bad} changed the code")
    c.ev("bad_requests")
    c.sig(size, repr(bad))


def options(c):
    """Experimental options: only structure and removed qubits."""
    from plaquette.codes import latticebase as lb
    r = c.rng
    size = r.choice((3, 4, 5))
    code = qec.bundled("planar", size, 1)
    orig = _pos_ops(code)
    kw, gone = _request(r, code, size)
    kw["keep_gauge"] = r.choice(("none", "half", "all"))
    kw["boundary_join"] = r.random() < 0.5
    try:
        code.apply_fabrication_errors(**kw)
    except (lb.NoLogicalOperatorError, ValueError, AssertionError, StopIteration):
        c.ev("options_refused")
        return
    new = _pos_ops(code)
    c.check(new[0][0] == orig[0][0] - gone, "removed", f"{kw}")
    bad = qec.lattice_problem(code)
    c.check(bad is None, "inconsistent", lambda: f"planar {size} {kw}: {bad}")
    c.ev("options")
    c.sig("options", size, repr(kw))


def option_model(c):
    """What the documentation says about the options, for one removed qubit."""
    r = c.rng
    size = r.choice((3, 4, 5))
    code = qec.bundled("planar", size, 1)
    data, stabs, logs = _pos_ops(code)
    q = r.choice(sorted(data[0]))
    groups = {}
    for s in stabs:
        if q in s:
            groups.setdefault(s[q], []).append(s)
    gauge, join = r.choice(("none", "half", "all")), r.random() < 0.5
    kw = dict(keep_gauge=gauge, boundary_join=join)
    if r.random() < 0.5:
        # other options before: those given last count, those not given stay
        old = dict(keep_gauge=r.choice(("none", "half", "all")), boundary_join=r.random() < 0.5)
        code.apply_fabrication_errors(faulty_qubits=[], **old)
        kw = {k: v for k, v in kw.items() if v != old[k] or r.random() < 0.5}
        c.ev("changed_options")
    elif not join and r.random() < 0.5:
        del kw["boundary_join"]
    code.apply_fabrication_errors(faulty_qubits=[q], **kw)

    def key(op):
        return tuple(sorted(op.items()))

    def cut(op):
        return {p: f for p, f in op.items() if p != q}

    def product(a, b):
        return {p: a.get(p, b.get(p)) for p in set(a) ^ set(b)}
    rest = [s for s in stabs if q not in s]
    inner = all(len(g) == 2 for g in groups.values())
    gs = list(groups.values())
    if inner:
        joined = {"none": [(True, True)], "half": [(True, False), (False, True)],
                  "all": [(False, False)]}[gauge]
    else:
        joined = [tuple(len(g) == 2 and join for g in gs)]
    wants = []
    for js in joined:
        new = list(rest)
        for j, g in zip(js, gs):
            if j:
                new.append(product(*g))
            elif len(g) == 2 or join:
                new += [cut(s) for s in g]
            # otherwise this generator is disabled
        wants.append(sorted(key(s) for s in new))
    got = sorted(key(s) for s in _pos_ops(code)[1])
    c.check(got in wants, "option", lambda: f"planar {size} without {q}, keep_gauge={gauge}, "
            f"boundary_join={join}: generators {got}, expected {wants}")
    c.check(code.n_stabgens == len(got) and qec.lattice_problem(code) is None, "inconsistent",
            lambda: f"planar {size} without {q}, {gauge} {join}: {qec.lattice_problem(code)}")
    c.ev("option_models")
    c.ev(f"option:{'inner' if inner else 'border'}:{gauge if inner else join}")
    c.sig("option", size, q, gauge, join)


def untouched(c):
    """An empty request changes nothing."""
    size = 2 + c.index % 5
    code, same = qec.bundled("planar", size, 1), qec.bundled("planar", size, 1)
    code.apply_fabrication_errors(faulty_qubits=[], faulty_gates=[], faulty_stabilizers=[])
    c.check(code == same and _pos_ops(code) == _pos_ops(same)
            and qec.lattice_problem(code) is None, "untouched", f"planar {size} changed")
    c.sig(size)


WORKLOADS = [
    W("random_lists", random_lists, 240, 8000),
    W("singles", singles, 12, 60),
    W("pairs", pairs, 120, 3000),
    W("bad_requests", bad_requests, 120, 1000),
    W("options", options, 80, 1500),
    W("option_model", option_model, 60, 600),
    W("untouched", untouched, 5, 5),
]
