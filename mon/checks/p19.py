"""P19: decoder weights are the log-likelihoods of the configured error rates."""
import copy
import math
import warnings

from mon import dec, qec
from mon.core import W

RULE = ("random error tables (partial, zeros, up to one half, with and without gate errors and "
        "erasures) on bundled and user-defined codes; weights of the weight computation, of the "
        "syndrome graph and of the decoders are compared with ln((1-p)/p) per fault; non-trivial = "
        "distinct (code, rounds, kinds of errors, number of impossible faults)")
ASSUMPTIONS = ["decoders built with from_code replace missing and zero Pauli rates by 1e-15, as "
               "documented", "rates of a fault are at most one half (more is refused, which is "
               "checked)"]
MINIMA = {"weights": 20000, "impossible": 500, "tables": 300, "gate_tables": 50, "refused": 20}


def _near(a, b, tol=1e-9):
    return a == b or abs(a - b) <= tol * max(1.0, abs(b))


def table(r, view):
    n, ns = view.n, len(view.stabs)

    def p(top):
        return r.choice((0.0, 0.0, top, 1e-9)) if r.random() < 0.25 else r.random() * top
    tab = {}
    if r.random() < 0.85:
        qs = range(n) if r.random() < 0.5 else r.sample(range(n), r.randrange(0, n + 1))
        tab["pauli"] = {q: {k: p(0.25) for k in "xyz" if r.random() < 0.8} for q in qs}
    if r.random() < 0.7:
        qs = range(ns) if r.random() < 0.5 else r.sample(range(ns), r.randrange(0, ns + 1))
        tab["measurement"] = {n + i: {"p": p(0.5)} if r.random() < 0.95 else {} for i in qs}
    if r.random() < 0.4:
        tab["erasure"] = {q: {"p": p(1.0)} if r.random() < 0.95 else {} for q in r.sample(range(n), r.randrange(0, n + 1))}
    if r.random() < 0.4:
        for g in r.sample(["H", "R", "M", "CX", "CZ"], 2):
            tab[g] = ({n + r.randrange(ns): {"x": p(0.3)}} if len(g) == 1 else
                      {(n + r.randrange(ns), r.randrange(n)): {"xx": p(0.3), "iz": 0.1}})
    items = list(tab.items())
    r.shuffle(items)
    return dict(items)


def _setup(c, max_ends=2):
    r = c.rng
    while True:
        label, code = qec.some_code(r, 32, 0.3)
        view = qec.View(code)
        if dec.Graph(view, 1).max_ends <= max_ends:
            return label, code, view


def _graph_weights(c, what, sg, ref):
    import numpy as np
    for e in sg.edges:
        f = ref.by_key[dec.fault_of(e)]
        w = float(np.ravel(e.weight)[0])
        c.check(_near(w, f.weight), "graph-weight", lambda: f"{what}: fault {f} has weight {w}, "
                f"its rate gives {f.weight}")
        if f.weight == dec.INF:
            c.check(not e.enabled, "impossible-used", f"{what}: impossible fault {f} is enabled")
            c.ev("impossible")
        c.ev("weights")


def _with_erasures(c, code, view, tab, rates, what):
    """Computations that count unheralded erasures as well."""
    from plaquette.syngraph.weights import WeightComputation

    class Computation(WeightComputation):
        erasure_weights = True
    er = [tab.get("erasure", {}).get(q, {}).get("p", 0.0) / 2 for q in range(view.n)]
    wants = [[p * (1 - e) + e * (1 - p) for p, e in zip(ps, er)] for ps in rates[:2]]
    probs, ws = (f() for f in (Computation(code, tab).get_edge_probab,
                               Computation(code, tab).get_edge_weights))
    for name, ps in zip(("pauli_x", "pauli_z", "measurement"), (*wants, rates[2])):
        for i, p in enumerate(ps):
            c.check(_near(float(probs[name][i]), p), "rate-with-erasure", lambda: f"{what}: rate "
                    f"{probs[name][i]} of {name} {i} with erasures, configured {p}")
            w = float(ws[name][i])
            c.check(_near(w, dec.weight_of(p), 1e-6), "weight-with-erasure", lambda: f"{what}: "
                    f"weight {w} of {name} {i} with rate {p}")
    if any(er):
        c.ev("erasure_tables")


def computed(c):
    from plaquette.syngraph import SyndromeGraphManager
    from plaquette.syngraph.weights import WeightComputation
    r = c.rng
    label, code, view = _setup(c)
    for _ in range(3):
        tab = table(r, view)
        keep = copy.deepcopy(tab)
        what = f"{label} errors {tab}"
        px, pz, pm = dec.rates(view, tab)
        wc = WeightComputation(code, tab)
        got = wc.get_edge_weights()
        for name, ps in (("pauli_x", px), ("pauli_z", pz), ("measurement", pm)):
            pr = wc.get_edge_probab()[name]
            c.check(len(got[name]) == len(ps) == len(pr), "length", f"{what}: {name}")
            for i, p in enumerate(ps):
                c.check(_near(float(pr[i]), p), "rate", lambda: f"{what}: rate {pr[i]} of {name} "
                        f"{i}, configured {p}")
                c.check(_near(float(got[name][i]), dec.weight_of(p)), "weight", lambda: f"{what}: "
                        f"weight {got[name][i]} of {name} {i} with rate {p}")
                c.ev("weights")
        ref = dec.Graph(view, code.n_rounds, *([dec.weight_of(p) for p in ps]
                                               for ps in (px, pz, pm)))
        _graph_weights(c, what, SyndromeGraphManager(code, tab).sgraph, ref)
        plain = SyndromeGraphManager(code, tab, weighted=False).sgraph
        c.check(all(math.isnan(float(e.weight)) for e in plain.edges), "unweighted",
                f"{what}: weights although weighted=False")
        c.check(tab == keep, "table-modified", lambda: f"{what}: table {keep} became {tab}")
        _with_erasures(c, code, view, tab, (px, pz, pm), what)
        c.ev("tables")
        if set(tab) & {"H", "R", "M", "CX", "CZ"}:
            c.ev("gate_tables")
        c.sig(label, tuple(sorted(tab)), sum(p == 0 for p in px + pz + pm))
    c.show(setup=what)


def decoders(c):
    """Weights of decoders built from a code."""
    r = c.rng
    label, code, view = _setup(c)
    tab = table(r, view)
    keep = copy.deepcopy(tab)
    what = f"{label} errors {tab}"
    name = r.choice(dec.DECODERS[:3])
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        d = dec.cls(name).from_code(code, tab, weighted=r.choice((True, None)))
    zero = [q for q in range(view.n) if tab.get("pauli", {}).get(q)
            and not all(tab["pauli"][q].get(k) for k in "xyz")]
    if zero:
        c.check(any("1e-15" in str(w.message) for w in seen), "no-warning",
                f"{what}: zero rates are replaced without a warning")
    c.check(tab == keep, "table-modified", lambda: f"{what}: {name} changed table {keep} to {tab}")
    ref = dec.graph_for(view, code.n_rounds, tab, True)
    _graph_weights(c, f"{what} {name}", d.synmgr.sgraph, ref)
    # without weights
    d = dec.build(r.choice(dec.DECODERS), code, tab, weighted=False)
    c.check(all(math.isnan(float(e.weight)) for e in d.synmgr.sgraph.edges), "unweighted",
            f"{what}: weights although weighted=False")
    d = dec.build(r.choice(dec.DECODERS), code, None)
    c.check(all(math.isnan(float(e.weight)) for e in d.synmgr.sgraph.edges), "no-table",
            f"{label}: weights without an error table")
    # explicit weights
    np = __import__("numpy")
    ws = {"pauli_x": np.array([r.uniform(0.1, 5) for _ in range(view.n)]),
          "pauli_z": np.array([r.uniform(0.1, 5) for _ in range(view.n)]),
          "measurement": np.array([r.uniform(0.1, 5) for _ in view.stabs])}
    before = copy.deepcopy(ws)
    d = dec.build(name, code, None, weights=ws)
    _graph_weights(c, f"{label} explicit weights", d.synmgr.sgraph,
                   dec.Graph(view, code.n_rounds, *map(list, ws.values())))
    c.check(all((ws[k] == before[k]).all() for k in ws), "weights-modified",
            f"{label}: given weights were changed")
    c.refuses(lambda: dec.build(name, code, tab, weights=ws), "both",
              f"{name} with error table and weights")
    c.ev("tables")
    c.sig(label, name, tuple(sorted(tab)), len(zero))


def refused(c):
    """More likely than not is not supported, unknown entries are refused."""
    from plaquette.syngraph.weights import WeightComputation
    r = c.rng
    label, code, view = _setup(c)
    n = view.n
    q = r.randrange(n)
    base = {k: {"x": 0.1, "y": 0.1, "z": 0.1} for k in range(n)}
    name = r.choice(dec.DECODERS[:3])
    bad = {"x": 0.4, "y": 0.3, "z": 0.1}
    usable = [f for fs in dec.Graph(view, 1).groups.values() if len(fs) == 1 for f in fs
              if f.kind == "X"]
    if usable:
        q = r.choice(usable).idx
        c.refuses(lambda: dec.build(name, code, {"pauli": base | {q: bad}}, weighted=True),
                  "negative-weight", f"{label}: {name} with errors {bad} on qubit {q}")
        c.ev("refused")
    np = __import__("numpy")
    ws = {k: np.array([r.uniform(0.1, 5) for _ in range(m)]) for k, m in
          (("pauli_x", n), ("pauli_z", n), ("measurement", len(view.stabs)))}
    if usable:
        # a fault without weight next to others with weights; alone it is just unweighted
        g = dec.Graph(view, code.n_rounds)
        mask = next(f.mask for f in g.faults if f.kind == "X" and f.idx == q and f.rd == 0)
        near = any(f.mask & mask and f.mask != mask for f in g.faults)
        for w in ((float("nan"),) if near else ()) + (-r.uniform(0.01, 3),):
            bad = copy.deepcopy(ws)
            bad["pauli_x"][q] = w
            c.refuses(lambda: dec.build(name, code, None, weights=bad), "bad-weight",
                      f"{label}: {name} with weight {w} of bit flips on qubit {q}")
            c.ev("refused")
    for tab in ({"pauli": {n: {"x": 0.1}}}, {"pauli": {q: {"X": 0.1}}}, {"foo": {}},
                {"measurement": {0: {"p": 0.1}}}, {"measurement": {n: {"x": 0.1}}}):
        c.refuses(lambda: WeightComputation(code, tab), "bad-table", f"{label}: weights for {tab}")
        c.ev("refused")
    if code.n_rounds > 1:
        g = r.randrange(len(view.stabs))
        c.refuses(lambda: dec.build(name, code, {"pauli": base, "measurement": {n + g: {"p": 1.0}}},
                                    weighted=True), "certain-error",
                  f"{label}: {name} with a certain readout error")


WORKLOADS = [W("computed", computed, 120, 4000), W("decoders", decoders, 120, 4000),
             W("refused", refused, 30, 400)]
