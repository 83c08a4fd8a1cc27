"""P20: every decoder returns a correction that explains the syndrome."""
from mon import dec, qec, raw
from mon.core import W

RULE = ("all bundled decoders, with and without weights, on bundled, fabricated and user-defined "
        "codes with random error tables; producible syndromes (random fault sets, every syndrome "
        "of tiny graphs, sampled circuits, with and without erasures) must be answered by faults "
        "that can happen and explain the syndrome round by round; others must be refused; the low-level decoders and the union-find core in all its variants "
        "(split edges, growth increments, weights set, replaced and removed) on random graphs; "
        "non-trivial = distinct (code, rounds, decoder, weighted, syndrome, erasures)")
ASSUMPTIONS = ["PyMatching does not support erasures (documented; refused)",
               "weighted decoding needs rates of at most one half",
               "rates between 0.49 and 0.5 together with much smaller ones are not exercised: the "
               "union-find decoder grows in steps of the largest rate's weight",
               "inputs on which the third-party solver of Fusion Blossom panics (erasures on "
               "irregular graphs given to the low-level class) are skipped and counted"]
MINIMA = {"decoded": 3000, "nonzero": 2000, "erased": 500, "unproducible": 150, "circuits": 100}


def _code(r, max_vertices=60):
    from plaquette.codes.latticebase import NoLogicalOperatorError
    if r.random() < 0.1:
        code = qec.bundled("planar", r.choice((3, 4)), r.randrange(1, 3))
        try:
            code.apply_fabrication_errors(
                faulty_qubits=r.sample(range(code.n_data_qubits), r.randrange(1, 3)))
            view = qec.View(code)
            if dec.Graph(view, 1).max_ends <= 2:
                return ("fabricated", code.n_data_qubits, code.n_rounds), code, view
        except NoLogicalOperatorError:
            pass
    return dec.setup(r, max_vertices)


def built(r, code, view, name=None):
    """(name, weighted, decoder, reference graph, table)."""
    name = name or r.choice(dec.DECODERS)
    weighted = name != "UnionFindNoWeights" and r.random() < 0.7
    tab = dec.table(r, view, code.n_rounds)
    if weighted and r.random() < 0.08:
        q = r.randrange(view.n)
        tab["pauli"][q] = {"x": 0.25, "y": 0.25, "z": 0.25}
    if not weighted and r.random() < 0.3:
        tab = None
    d = dec.build(name, code, tab, weighted=weighted)
    return name, weighted, d, dec.graph_for(view, code.n_rounds, tab, weighted), tab


def judge(c, what, d, g, syn, era=None, dtype=bool):
    """Decode one producible syndrome and check the answer; returns correction masks."""
    import numpy as np
    corr = dec.quiet(d.decode, era, g.array(np, syn, dtype))
    e = qec.masks(corr)
    c.check(len(corr) == 2 * g.view.n + 1, "shape", f"{what}: correction of length {len(corr)}")
    got = g.view.syndrome(e)
    c.check(got == g.fold(syn), "correction", lambda: f"{what}: syndrome {g.fold(syn)} (all "
            f"rounds), the correction {qec.letters(e, g.view.n)} has {got}")
    sel = [g.by_key[k] for k in dec.selected(d)]
    c.check(g.syn_mask(sel) == syn, "faults", lambda: f"{what}: the selected faults {sel} have "
            f"syndrome {bin(g.syn_mask(sel))}, not {bin(syn)}")
    c.check(g.data(sel) == e, "data", lambda: f"{what}: correction {qec.letters(e, g.view.n)} is "
            f"not the product of {sel}")
    erased = (lambda f: era is not None and f.kind != "M" and era[f.rd, f.idx])
    c.check(all(f.weight < dec.INF or erased(f) for f in sel), "impossible",
            lambda: f"{what}: impossible faults among {sel}")
    c.ev("decoded")
    if syn:
        c.ev("nonzero")
    return e


def random_syndromes(c):
    import numpy as np
    r = c.rng
    label, code, view = _code(r)
    for _ in range(3):
        name, weighted, d, g, tab = built(r, code, view)
        comps = g.components()
        for _ in range(6):
            if r.random() < 0.65:
                syn, _f = dec.sample_syndrome(r, g)
            else:
                syn = r.getrandbits(g.nv)
                if r.random() < 0.5:
                    syn &= r.getrandbits(g.nv)
            era = None
            if name in dec.ERASURE and r.random() < 0.5:
                dens = r.choice((0.05, 0.2, 0.5, 1.0))
                era = np.array([[r.random() < dens for _ in range(view.n)]
                                for _ in range(g.rounds)])
                if r.random() < 0.3:
                    era = era.astype("u1")
                c.ev("erased")
            what = f"{label} {name} {'weighted' if weighted else 'unweighted'}"
            if era is not None:
                what += f" erased {np.argwhere(era).tolist()}"
            what += f" syndrome {g.array(np, syn, int).tolist()}"
            if all(dg or bin(syn & m).count("1") % 2 == 0 for m, dg in comps):
                judge(c, what, d, g, syn, era, r.choice((bool, "u1")))
                c.sig(label, name, weighted, syn, None if era is None else era.tobytes())
            else:
                c.refuses(lambda: d.decode(era, g.array(np, syn)), "unproducible",
                          f"{what}: no error can produce this syndrome")
                c.ev("unproducible")
    c.show(setup=f"{label} {name}", vertices=g.nv)


def tiny(c):
    """Every syndrome of a tiny graph, for every decoder."""
    import numpy as np
    r = c.rng
    label, code, view = dec.setup(r, 8, user=0.5)
    for name in dec.DECODERS:
        _, weighted, d, g, tab = built(r, code, view, name)
        for syn in range(1 << g.nv):
            what = f"{label} {name} {weighted} syndrome {g.array(np, syn, int).tolist()}"
            if g.producible(syn):
                judge(c, what, d, g, syn)
                c.sig(label, name, weighted, syn)
            else:
                c.refuses(lambda: d.decode(None, g.array(np, syn)), "unproducible",
                          f"{what}: no error can produce this syndrome")
                c.ev("unproducible")


def impossible(c):
    """Readout errors that cannot happen: rounds must be explained one by one."""
    import numpy as np
    r = c.rng
    label, code, view = dec.setup(r, 60, kinds=("toric", "rotated", "planar", "repetition"),
                                  user=0)
    n = view.n
    for name in dec.DECODERS[:3]:
        tab = {"pauli": {q: {k: r.uniform(0.01, 0.1) for k in "xyz"} for q in range(n)}}
        if r.random() < 0.5:
            tab["measurement"] = {n + i: {"p": r.choice((0.0, 0.05))}
                                  for i in range(len(view.stabs))}
        d = dec.build(name, code, tab, weighted=True)
        g = dec.graph_for(view, code.n_rounds, tab, True)
        for _ in range(6):
            syn = r.getrandbits(g.nv) if r.random() < 0.6 else dec.sample_syndrome(r, g)[0]
            what = f"{label} {name} readout {tab.get('measurement')} syndrome {bin(syn)}"
            if g.producible(syn):
                judge(c, what, d, g, syn)
            else:
                c.refuses(lambda: d.decode(None, g.array(np, syn)), "unproducible",
                          f"{what}: no error can produce this syndrome")
                c.ev("unproducible")


def circuits(c):
    """Syndromes and erasures of simulated experiments."""
    from plaquette import Device
    r = c.rng
    label, code, view = dec.setup(r, 80, kinds=("planar", "rotated", "toric", "repetition",
                                                "shor", "five"), user=0.2)
    arg, idx = qec.choice(r, view)
    p = r.choice((0.02, 0.1, 0.25))
    qe = {"pauli": {q: {k: p / 3 for k in "xyz"} for q in range(view.n)},
          "measurement": {view.n + i: {"p": p} for i in range(len(view.stabs))}}
    if r.random() < 0.5:
        qe["erasure"] = {q: {"p": p} for q in range(view.n)}
    ci = qec.generate(code, qe, {}, arg, True)
    dev = Device(r.choice(("stim", "clifford")))
    for name in dec.DECODERS:
        weighted = name != "UnionFindNoWeights"
        d = dec.build(name, code, qe, weighted=weighted)
        g = dec.graph_for(view, code.n_rounds, qe, weighted)
        raw, era = qec.sample(dev, ci)
        s = qec.unpack(code, raw, era if "erasure" in qe else None, arg, True)
        syn = 0
        for t in range(g.rounds):
            for i in range(g.ns):
                syn |= int(s.syndrome[t, i]) << t * g.ns + i
        era = s.erased_qubits if name in dec.ERASURE else None
        judge(c, f"{label} {name} sampled syndrome", d, g, syn, era,
              bool if s.syndrome.dtype == bool else "u1")
        c.ev("circuits")


def infinite(c):
    """Explicit weights, some of them infinite: generators may be left without any fault."""
    import numpy as np
    r = c.rng
    label, code, view = _code(r, 50)
    n, ns = view.n, len(view.stabs)
    top = r.choice((0.1, 0.4, 0.7))
    ws = {k: np.array([dec.INF if r.random() < top else r.uniform(0.1, 5) for _ in range(m)])
          for k, m in (("pauli_x", n), ("pauli_z", n), ("measurement", ns))}
    g = dec.Graph(view, code.n_rounds, *map(list, ws.values()))
    for name in dec.DECODERS[:3]:
        d = dec.build(name, code, None, weights=ws)
        for _ in range(6):
            syn = r.getrandbits(g.nv) if r.random() < 0.4 else dec.sample_syndrome(r, g)[0]
            if r.random() < 0.2:
                syn ^= 1 << r.randrange(g.nv)
            what = (f"{label} {name} weights { {k: w.tolist() for k, w in ws.items()} } "
                    f"syndrome {bin(syn)}")
            if g.producible(syn):
                judge(c, what, d, g, syn)
            else:
                c.refuses(lambda: d.decode(None, g.array(np, syn)), "unproducible",
                          f"{what}: no error can produce this syndrome")
                c.ev("unproducible")
            c.ev("infinite_weights")
        c.sig(label, name, top, syn)


def refused(c):
    """Erasures for a decoder that does not support them."""
    import numpy as np
    r = c.rng
    label, code, view = dec.setup(r, 40)
    name, weighted, d, g, tab = built(r, code, view, "PyMatchingDecoder")
    # an erased qubit whose errors are noticed
    f = r.choice([f for f in g.faults if f.kind != "M" and f.mask])
    era = np.zeros((g.rounds, view.n), dtype=bool)
    era[f.rd, f.idx] = True
    c.refuses(lambda: dec.quiet(d.decode, era, g.array(np, f.mask)), "pymatching-erasure",
              f"{label}: erasures given to PyMatching")
    judge(c, f"{label} after a refusal", d, g, f.mask)


def graphs(c):
    """Low-level decoders on arbitrary graphs with dangling edges."""
    import numpy as np
    r = c.rng
    g = raw.RawGraph(r)
    for name in dec.DECODERS:
        ws = g.weights(np, r) if name != "UnionFindNoWeights" and r.random() < 0.6 else None
        comp = g.component(np, ws)
        b = raw.start(name, comp)
        for _ in range(6):
            syn = g.syndrome(np, r)
            era = raw.erasure(np, r, g) if name in dec.ERASURE and r.random() < 0.6 else None
            try:
                sel = raw.decode(np, b, comp, syn, era)
            except raw.Panic:
                c.ev("third_party_panics")
                break
            c.check(g.of(sel) == syn.tolist(), "edges", lambda: f"{name} on {g} weights {ws}, "
                    f"erased {era}: syndrome {syn.astype(int)} answered with edges "
                    f"{[e for e, on in zip(g.edges, sel) if on]}")
            c.ev("raw_decoded")
            c.sig("raw", name, tuple(g.edges), syn.tobytes())
        if not g.dangling:
            syn[0] ^= True
            if name.startswith("UnionFind"):
                c.refuses(lambda: raw.decode(np, b, comp, syn), "unproducible", f"{name} on {g}")


def variants(c):
    """The union-find core: growth variants, with and without the final step, weights changing."""
    import numpy as np
    from plaquette.decoders import unionfind_decoder as uf
    from plaquette.decoders import unionfind_erasure as er
    r = c.rng
    g = raw.RawGraph(r)
    base = r.choice((uf.UnionFind, uf.UnionFindNoWeights))
    opts = {"choose_growth_increment_enabled": r.random() < 0.5}
    if base is uf.UnionFindNoWeights:
        opts["split_edges"] = r.random() < 0.6
    cls = type("Variant", (base,), opts)
    d = uf.UnionFindDecoder(cls, er.Graph(g.n, g.edges))
    d.uf.normalization_coefficient = r.choice((2, 1, 5.0))
    grow = cls(g.n, g.edges)
    for _ in range(6):
        if base is uf.UnionFind and r.random() < 0.6:
            ws = g.weights(np, r) if r.random() < 0.7 else None
            d.set_weights(ws)
            grow.set_weights(ws)
        syn = g.syndrome(np, r)
        era = np.where(raw.erasure(np, r, g))[0] if r.random() < 0.6 else np.array([], dtype=int)
        what = f"{base.__name__} {opts} on {g} syndrome {syn.astype(int)} erased {era}"
        keep = syn.copy()
        sel = d.decode(era, syn)
        c.check((syn == keep).all(), "modified", f"{what}: syndrome was changed")
        c.check(g.of(sel) == syn.tolist(), "edges", lambda: f"{what}: edges "
                f"{[e for e, on in zip(g.edges, sel) if on]}")
        full = grow.union_find(era, syn)
        c.check(set(era.tolist()) <= set(full), "erased-lost", lambda: f"{what}: grown {full}")
        if len(era) == 0 and not syn.any():
            c.check(list(full) == [], "grown", lambda: f"{what}: grown {full} without need")
        c.check(all(full[i] < full[i + 1] for i in range(len(full) - 1)), "grown-order",
                lambda: f"{what}: {full}")
        c.ev("raw_decoded")
        c.sig("variants", base.__name__, str(opts), tuple(g.edges), syn.tobytes())


WORKLOADS = [
    W("random_syndromes", random_syndromes, 400, 8000),
    W("tiny", tiny, 16, 300),
    W("impossible", impossible, 80, 1200),
    W("circuits", circuits, 40, 1200),
    W("infinite", infinite, 40, 1200),
    W("refused", refused, 20, 300),
    W("graphs", graphs, 100, 3000),
    W("variants", variants, 150, 4000),
]
