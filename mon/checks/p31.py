"""P31: drawings show exactly the given lattice data (and circuits)."""
import collections
import copy
import math
import re

from mon import circ, qec
from mon.checks import p11
from mon.core import W

RULE = ("bundled, user-defined and fabricated codes (also lattices with Y factors) drawn by both "
        "backends, with random syndromes, errors, corrections, options and sequences of calls on "
        "one visualiser; the traces of the returned figures are read back and compared with the "
        "code's operators and the data; circuits handed to qiskit's drawer are read back, with and without measurements; "
        "non-trivial = distinct (code, syndrome, error, correction, options)")
ASSUMPTIONS = ["the names of traces (shown in the legend) tell what is drawn",
               "which logical operator markers stay when generators are left out is not claimed",
               "qiskit's and the plotting libraries' rendering of what they are given"]
MINIMA = {"figures": 250, "marks": 8000, "lines": 8000, "highlighted": 500, "factors": 1000,
          "sequences": 50, "circuits": 20}
STAB = ("Stabilizer", "A stabilizer", "B stabilizer")


def _quiet_mpl():
    import matplotlib
    matplotlib.use("Agg")


def _nan(v):
    return v is None or (isinstance(v, float) and math.isnan(v))


def _num(v):
    return None if _nan(v) else float(v)


class Want:
    """What a drawing of a lattice must contain, from the code's operators."""

    def __init__(self, lattice):
        d, s, lo = lattice.dataqubits, lattice.stabgens, lattice.logical_ops
        self.data = [tuple(map(float, v.pos)) for v in d]
        self.gens = [tuple(map(float, v.pos)) for v in s]
        self.logs = [tuple(map(float, v.pos)) for v in lo]
        for group in (d, s, lo):
            for v in group:
                if lattice.lattice[v.pos] is not v:
                    raise AssertionError("lattice position")
        self.lines = collections.defaultdict(collections.Counter)
        rows = [qec.masks(t) for t in lattice.stabilisers], [
            qec.masks(t) for t in lattice.logical_operators]
        for ops, places in ((rows[0], self.gens), (rows[1], self.logs)):
            for (x, z), p in zip(ops, places):
                for q, dp in enumerate(self.data):
                    f = "IXZY"[(x >> q & 1) + 2 * (z >> q & 1)]
                    if f != "I":
                        self.lines["Pauli " + f][frozenset((p, dp))] += 1
        self.lines = dict(self.lines)


class Drawn:
    """A figure read back: marks by name, lines by name."""

    def __init__(self, traces):
        self.marks, self.lines, self.hover, self.style = {}, {}, {}, {}
        for name, kind, xs, ys, hover, style in traces:
            xs, ys = [_num(v) for v in xs], [_num(v) for v in ys]
            self.style.setdefault(name, []).append(style)
            if kind == "lines":
                cur, out = [], self.lines.setdefault(name, collections.Counter())
                for p in list(zip(xs, ys)) + [(None, None)]:
                    if p[0] is None or p[1] is None:
                        for a, b in zip(cur, cur[1:]):
                            out[frozenset((a, b))] += 1
                        cur = []
                    else:
                        cur.append(p)
            else:
                self.marks.setdefault(name, []).extend(zip(xs, ys))
                self.hover.setdefault(name, []).extend(hover or [None] * len(xs))


def plotly(fig):
    out = []
    for t in fig.data:
        hover = t.hovertext
        hover = ([hover] * len(t.x) if isinstance(hover, str) or hover is None
                 else list(hover))
        style = (t.line if t.mode == "lines" else t.marker).to_plotly_json()
        out.append((t.name, t.mode, list(t.x), list(t.y), hover, style))
    return Drawn(out)


def mpl(lines):
    out = []
    for ln in lines:
        kind = "markers" if ln.get_linestyle() in ("None", "", " ") else "lines"
        out.append((ln.get_label(), kind, list(ln.get_xdata()), list(ln.get_ydata()), None,
                    (ln.get_color(), ln.get_linestyle() if kind == "lines" else ln.get_marker())))
    return Drawn(out)


def _count(pts):
    return collections.Counter(pts)


def judge_lattice(c, what, d, want, syn=None, stabs=True, edges=True):
    """Marks of the code and lines."""
    marks = {k: _count(v) for k, v in d.marks.items() if not k.endswith(("error", "correction"))}
    data = marks.pop("Data qubit", _count([]))
    c.check(data == _count(want.data), "data", lambda: f"{what}: data qubits drawn at "
            f"{sorted(data.elements())}, they are at {sorted(want.data)}")
    logs = marks.pop("Logical operator", _count([]))
    if stabs:
        c.check(logs == _count(want.logs), "logical", lambda: f"{what}: logical operators at "
                f"{sorted(logs.elements())}, they are at {sorted(want.logs)}")
    on, off = _count([]), _count([])
    for k, v in marks.items():
        if k.startswith("Toggled"):
            on += v
        else:
            c.check(k in STAB, "marks", f"{what}: unknown marks {k!r}: {v}")
            off += v
    w_on = _count(p for i, p in enumerate(want.gens) if syn is not None and syn[i])
    w_off = _count(p for i, p in enumerate(want.gens) if syn is None or not syn[i])
    if not stabs:
        w_on = w_off = _count([])
    c.check(on == w_on, "highlighted", lambda: f"{what}: highlighted generators at "
            f"{sorted(on.elements())}, the syndrome is set at {sorted(w_on.elements())}")
    c.check(off == w_off, "generators", lambda: f"{what}: other generators at "
            f"{sorted(off.elements())}, they are at {sorted(w_off.elements())}")
    lines = want.lines if edges else {}
    c.check({k: v for k, v in d.lines.items() if v} == lines, "lines", lambda: f"{what}: lines\n"
            f"{d.lines}\nincidences\n{lines}")
    c.ev("figures")
    c.ev("marks", sum(data.values()) + sum(off.values()) + sum(logs.values()))
    c.ev("lines", sum(sum(v.values()) for v in lines.values()))
    c.ev("highlighted", sum(w_on.values()))


def judge_hover(c, what, d, want, syn=None, probs=None):
    """The numbers shown for a mark are those of the vertex at its place."""
    idx = {"Data qubit": (r"Data qubit (\d+)", want.data)}
    for name, pts in d.marks.items():
        if name == "Data qubit":
            rx, places = idx[name]
        elif name in STAB or name.startswith("Toggled"):
            rx, places = r"Stabgen (\d+)", want.gens
        elif name == "Logical operator":
            rx, places = r"Logical (\d+)", want.logs
        else:
            continue
        for p, h in zip(pts, d.hover[name]):
            m = re.search(rx, h or "")
            c.check(m and int(m.group(1)) < len(places) and places[int(m.group(1))] == p, "hover",
                    f"{what}: {h!r} shown at {p}")
            if name.startswith("Toggled") or name in STAB:
                c.check(("yndrome set" in h) == name.startswith("Toggled"), "hover-syndrome",
                        f"{what}: {h!r} at {p} drawn as {name}")
            if name == "Data qubit" and probs is not None:
                m2 = re.search(r"p = (\S+)", h)
                c.check(m2 and float(m2.group(1)) == float(probs[int(m.group(1))]), "hover-prob",
                        f"{what}: {h!r}, probabilities {list(probs)}")


def judge_frame(c, what, d, want, kind, e, only):
    """The factors marked for an error or correction e (masks) are exactly its own."""
    for j, letter in enumerate("XZ"):
        pts = d.marks.get(f"{letter} {kind}", [])
        got = []
        for p in pts:
            near = sorted((math.dist(p, q), i) for i, q in enumerate(want.data))
            c.check(near[0][0] < 0.45, "offset", f"{what}: a mark of the {kind} at {p} is at no "
                    "data qubit")
            got.append(near[0][1])
        exp = []
        if e is not None and only in (None, letter):
            exp = [q for q in range(len(want.data)) if e[j] >> q & 1]
        c.check(sorted(got) == exp, "factors", lambda: f"{what}: {letter} {kind} marked at qubits "
                f"{sorted(got)}, not {exp}")
        hov = [re.search(r"(\d+)", h or "") for h in d.hover.get(f"{letter} {kind}", [])]
        c.check([int(m.group(1)) for m in hov if m] == got, "hover-factor",
                lambda: f"{what}: {d.hover.get(f'{letter} {kind}')} at qubits {got}")
        c.ev("factors", len(exp))


def lattice_of(r):
    """(label, object for the visualiser, its lattice)."""
    from plaquette import codes
    from plaquette.codes import latticebase as lb
    k = r.random()
    if k < 0.2:
        n = r.randrange(2, 6)
        s, lo = qec.rand_ops(r, n, r.randrange(1, n), y_free=False)
        lat = lb.CodeLatticeFromStab(n, s, lo)
        return ("operators", tuple(s), tuple(lo)), lat, lat
    if k < 0.4:
        code = codes.LatticeCode.make_planar(n_rounds=1, size=r.choice((3, 4, 5)))
        try:
            bad = r.sample(range(len(code.lattice.dataqubits)), r.randrange(1, 4))
            code.apply_fabrication_errors(faulty_qubits=bad)
        except lb.NoLogicalOperatorError:
            code = codes.LatticeCode.make_planar(n_rounds=1, size=3)
            bad = []
        label = ("fabricated", len(code.lattice.dataqubits), tuple(bad))
    else:
        label, code = qec.some_code(r, 30, user=0.0)
    if not hasattr(code, "lattice") or r.random() < 0.5:
        return label, code, code.lattice
    return label, code.lattice, code.lattice


def state(lat):
    """Everything of a lattice, as plain values."""
    num = {id(v): i for i, v in enumerate(lat.vertices)}
    return (tuple((type(v).__name__, v.pos, v.equbit_idx, tuple(num[id(n)] for n in v.neighbours))
                  for v in lat.vertices),
            tuple((num[id(e.op)], num[id(e.data)], int(e.factor), e.measurement_time_step)
                  for e in lat.edges),
            tuple(None if v is None else num[id(v)] for v in lat.lattice.ravel()),
            tuple(num[id(v)] for v in lat.equbits))


def styles(vis):
    return copy.deepcopy((vis.vertex_kw, vis.edge_kw, vis.mpl_vertex_kw, vis.mpl_edge_kw))


def plain(c):
    """Both backends, one drawing of a lattice."""
    from plaquette.visualizer import LatticeVisualizer
    _quiet_mpl()
    import matplotlib.pyplot as plt
    import numpy as np
    r = c.rng
    label, obj, lat = lattice_of(r)
    want, before = Want(lat), state(lat)
    probs = None
    if r.random() < 0.4:
        probs = np.array([r.random() for _ in want.data])
        if r.random() < 0.3:
            probs = list(map(float, probs))
    vis = LatticeVisualizer(obj, probs) if probs is not None else LatticeVisualizer(obj)
    st = styles(vis)
    fig = vis.draw_lattice(**({"height": 300, "margin": 5} if r.random() < 0.3 else {}))
    d = plotly(fig)
    judge_lattice(c, label, d, want)
    judge_hover(c, label, d, want, None, probs)
    for kind in ("error", "correction"):
        judge_frame(c, label, d, want, kind, None, None)
    if probs is not None:
        got = {p: v for p, v in zip(d.marks["Data qubit"],
                                    d.style["Data qubit"][0]["color"])}
        for i, p in enumerate(want.data):
            c.check(float(got[p]) == float(probs[i]), "probabilities",
                    lambda: f"{label}: colours {got} for probabilities {list(probs)}")
        c.ev("probabilities")
    plt.close("all")
    if r.random() < 0.5:
        f, ax = plt.subplots()
        vis.draw_lattice_mpl(ax)
    else:
        vis.draw_lattice_mpl()
        ax = plt.gca()
    judge_lattice(c, (label, "matplotlib"), mpl(ax.get_lines()), want)
    plt.close("all")
    c.check(state(lat) == before, "code-changed", f"{label}: drawing changed the code")
    c.check(styles(vis) == st, "styles", f"{label}: drawing changed the styles")
    wrong = np.zeros(len(want.data) + r.choice((-1, 1)))
    c.refuses(lambda: LatticeVisualizer(obj, wrong), "probs-length", "wrong number of rates")
    c.sig(label, probs is not None)
    c.show(code=str(label), data=len(want.data), lines=str({k: sum(v.values())
                                                            for k, v in want.lines.items()}))


def _frame(r, n):
    """Random Pauli operator: (masks, argument for the visualiser)."""
    import numpy as np
    dens = r.choice((0.0, 0.15, 0.5, 1.0))
    x = sum((r.random() < dens) << q for q in range(n))
    z = sum((r.random() < dens) << q for q in range(n))
    row = np.array([x >> q & 1 for q in range(n)] + [z >> q & 1 for q in range(n)]
                   + [r.randrange(2)], dtype=r.choice(("u1", "u1", "i8", "bool")))
    form = r.randrange(4)
    return (x, z), [row, [row], (row,), row[None, :]][form]


def options(r, lat):
    """Arguments of draw_latticedata and what they mean."""
    import numpy as np
    kw, m = {}, dict(syn=None, error=None, correction=None)
    ns, n = len(lat.stabgens), len(lat.dataqubits)
    if r.random() < 0.75:
        m["syn"] = [r.random() < r.choice((0.1, 0.5, 1)) for _ in range(ns)]
        kw["syndrome"] = np.array(m["syn"], dtype=r.choice(("bool", "u1", "i8")))
    for kind in ("error", "correction"):
        if r.random() < 0.65:
            m[kind], kw[kind] = _frame(r, n)
    if r.random() < 0.4:
        kw["only_pauli"] = r.choice(("X", "Z", None))
    for name in ("grey", "draw_stabs", "draw_edges"):
        if r.random() < 0.4:
            kw[name] = r.random() < 0.5
    if r.random() < 0.2:
        kw["height"], kw["margin"] = 400, 10
    return kw, m


def judge_data(c, what, d, want, kw, m, st, probs):
    stabs, grey = kw.get("draw_stabs", True), kw.get("grey", True)
    judge_lattice(c, what, d, want, m["syn"], stabs, kw.get("draw_edges", True))
    judge_hover(c, what, d, want, m["syn"], probs)
    for kind in ("error", "correction"):
        judge_frame(c, what, d, want, kind, m[kind], kw.get("only_pauli"))
    named = {v["name"]: v for v in [*st[0].values()]}
    lines = {v["name"]: v for v in st[1].values()}
    for name, sts in d.style.items():
        if name in lines:
            usual = all(s["color"] == lines[name]["line"]["color"] for s in sts)
        elif name == "Data qubit" and probs is not None:
            continue
        else:
            usual = all(s["color"] == named[name]["marker"]["color"] for s in sts)
        special = name.startswith("Toggled") or name.endswith(("error", "correction"))
        c.check(usual == (special or not grey), "colour",
                f"{what}: {name} drawn as {sts}, grey={grey}")


def sequences(c):
    """Several drawings of one visualiser, some of them refused."""
    from plaquette.visualizer import LatticeVisualizer
    _quiet_mpl()
    import matplotlib.pyplot as plt
    import numpy as np
    r = c.rng
    label, obj, lat = lattice_of(r)
    want, before = Want(lat), state(lat)
    probs = np.array([r.random() for _ in want.data]) if r.random() < 0.25 else None
    vis = LatticeVisualizer(obj, probs)
    st = styles(vis)
    calls = []
    for step in range(r.randrange(3, 7)):
        k = r.random()
        what = f"{label}, call {step}"
        if k < 0.12:
            judge_lattice(c, what, plotly(vis.draw_lattice()), want)
        elif k < 0.2:
            f, ax = plt.subplots()
            vis.draw_lattice_mpl(ax)
            judge_lattice(c, what, mpl(ax.get_lines()), want)
            plt.close("all")
        elif k < 0.32:
            ns = len(lat.stabgens)
            bad = r.choice((dict(syndrome=np.ones(ns + r.choice((1, -1)), bool)),
                            dict(only_pauli="Y", error=_frame(r, len(want.data))[1]),
                            dict(error=[_frame(r, len(want.data))[1]] * 2),
                            dict(syndrome=np.ones((2, ns), bool))))
            if "error" in bad and isinstance(bad["error"], list):
                bad["error"] = [np.asarray(e).reshape(-1) for e in bad["error"]]
            c.refuses(lambda: vis.draw_latticedata(**bad), "refused", f"{what}: {bad}")
        else:
            kw, m = options(r, lat)
            given = copy.deepcopy(kw)
            fig = vis.draw_latticedata(**kw)
            calls.append(kw)
            w = f"{what} {kw}"
            judge_data(c, w, plotly(fig), want, kw, m, st, probs)
            c.check(str(given) == str(kw), "arguments", f"{w}: arguments changed from {given}")
            fresh = LatticeVisualizer(obj, probs).draw_latticedata(**kw)
            c.check(fig.to_json() == fresh.to_json(), "history",
                    lambda: f"{w}: differs from the drawing of a new visualiser")
            c.sig(label, str(m), str(kw.get("only_pauli")), kw.get("grey"),
                  kw.get("draw_stabs"), kw.get("draw_edges"))
        c.check(styles(vis) == st, "styles", f"{what}: styles changed")
        c.check(state(lat) == before, "code-changed", f"{what}: the code changed")
    c.ev("sequences")
    c.show(code=str(label), calls=str(calls)[:250])


def pipeline(c):
    """Error, syndrome and correction of simulated shots."""
    from mon import dec
    from plaquette.visualizer import LatticeVisualizer
    r = c.rng
    label, code = qec.pick(r, 26, rounds=1)
    view = qec.View(code)
    vis = LatticeVisualizer(code)
    want, st = Want(code.lattice), styles(vis)
    tab = dec.table(r, view, 1)
    decoder = dec.build(r.choice(dec.DECODERS), code, tab, weighted=False)
    import numpy as np
    (x, z), arg = _frame(r, view.n)
    syn = view.syndrome((x, z))
    bits = [bool(syn >> i & 1) for i in range(len(view.stabs))] if isinstance(syn, int) else \
        [bool(b) for b in syn]
    try:
        corr = dec.quiet(decoder.decode, None, np.array([bits], dtype=bool))
    except Exception:  # judged by P20
        return
    kw = dict(syndrome=np.array(bits), error=arg, correction=r.choice((corr, [corr])))
    d = plotly(vis.draw_latticedata(**kw))
    judge_data(c, f"{label} {kw}", d, want, kw,
               dict(syn=bits, error=(x, z), correction=qec.masks(corr)), st, None)
    c.ev("pipelines")
    c.sig(label, x, z, tuple(qec.masks(corr)))


def circuits(c):
    """The circuit given to qiskit's drawer has the instructions of the circuit."""
    import qiskit
    from plaquette.visualizer import CircuitVisualizer
    _quiet_mpl()
    r = c.rng
    if r.random() < 0.5:
        label, code, view, arg, idx, anc = qec.some_setup(r, 12)
        ci = qec.generate(code, {}, {}, arg, anc)
        gates = qec.gates_of(ci)
    else:
        n = r.choice((1, 2, 3, 5, 8))
        gates = circ.rand_clean(r, n, r.randrange(0, 30), r.choice((0, .25)), .1)
        ci = circ.build(gates)
    n = ci.number_of_qubits
    before = str(ci)
    seen = []
    real = qiskit.QuantumCircuit.draw
    vis = CircuitVisualizer(ci)

    def draw(self, *a, **kw):
        seen.append(self)
        return real(self, *a, **kw) if c.index % 40 == 0 else "drawn"
    qiskit.QuantumCircuit.draw = draw
    try:
        for _ in range(r.choice((1, 2))):
            out = vis.draw_circuit()
    finally:
        qiskit.QuantumCircuit.draw = real
    c.check(len(seen) > 0 and out is not None, "drawn", "nothing drawn")
    c.check(str(ci) == before, "circuit-changed", "drawing changed the circuit")
    for qc in seen:
        got = [(p11.NAME[i.operation.name], tuple(qc.find_bit(q).index for q in i.qubits),
                *(qc.find_bit(b).index for b in i.clbits)) for i in qc.data]
        want, k = p11._split(gates)
        want = [o for o in want if o[0] != "R"]     # P11: reset-dropped
        got = [o for o in got if o[0] != "R"]
        c.check(qc.num_qubits == n and qc.num_clbits == k, "registers",
                f"{qc.num_qubits} qubits, {qc.num_clbits} bits drawn for {n}, {k}")
        c.check(p11._per_qubit(got, n) == p11._per_qubit(want, n), "instructions",
                lambda: f"drawn\n{got}\nfor\n" + circ.text(gates))
    c.ev("circuits")
    c.sig(circ.text(gates))


def unsupported(c):
    """Circuits with error instructions are refused."""
    from plaquette.visualizer import CircuitVisualizer
    r = c.rng
    n = r.randrange(1, 6)
    gates = circ.rand_clean(r, n, r.randrange(0, 12), .3, 0)
    pos = r.randrange(len(gates) + 1)
    ci = circ.build(gates[:pos] + circ.rand_noise(r, n, "any", stim=False) + gates[pos:])
    c.refuses(lambda: CircuitVisualizer(ci), "noise", f"circuit with errors:\n{ci}")
    c.ev("unsupported")


WORKLOADS = [W("plain", plain, 120, 1500), W("sequences", sequences, 200, 3000),
             W("pipeline", pipeline, 80, 1000), W("circuits", circuits, 100, 1500),
             W("unsupported", unsupported, 40, 300)]
