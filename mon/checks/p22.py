"""P22: the faults selected by a matching decoder have the least total weight."""
from mon import dec, qec, raw
from mon.core import W

RULE = ("PyMatching and Fusion Blossom, with and without weights, on bundled and user-defined codes "
        "with random error tables and explicit weights; the total weight of the selected faults is "
        "compared with the optimum: over all fault sets by dynamic programming over syndromes "
        "(graphs of up to 16 vertices, every or random syndromes) and by an independent perfect "
        "matching of shortest paths (larger graphs); for Fusion Blossom also with erasures, whose "
        "faults cost nothing; the low-level classes on random graphs whose weights are replaced in "
        "between; non-trivial = distinct (code, rounds, decoder, weighted, syndrome)")
ASSUMPTIONS = ["Fusion Blossom truncates weights to a hundredth of the largest weight of the "
               "connected component: its answer may exceed the optimum by this much per selected "
               "fault", "PyMatching discretises weights: 1e-5 of the largest weight per fault",
               "inputs on which the third-party solver of Fusion Blossom panics are skipped"]
MINIMA = {"optimal": 5000, "weighted": 2500, "several": 2500, "large": 200, "erased": 300,
          "explicit": 200}


def _tolerance(name, g, comps, sel):
    if not g.weighted:
        return 1e-9
    tol = 1e-9
    for m, _ in comps:
        ws = [f.weight for f in g.faults if f.mask & m and f.weight < dec.INF]
        k = sum(1 for f in sel if f.mask & m)
        if ws and k:
            tol += max(ws) * (k / 100 if name == "FusionBlossomDecoder" else 1e-5 * len(ws))
    return tol


def judge(c, what, name, d, g, comps, syn, best, era=None, free=()):
    import numpy as np
    dec.quiet(d.decode, era, g.array(np, syn))
    sel = [g.by_key[k] for k in dec.selected(d)]
    c.check(g.syn_mask(sel) == syn, "explains", lambda: f"{what}: faults {sel} do not explain it")
    w = sum(f.weight for f in sel if f.key not in free)
    c.check(w <= best + _tolerance(name, g, comps, sel), "not-optimal", lambda: f"{what}: the "
            f"selected faults {[(f, round(f.weight, 4)) for f in sel]} have total weight {w}, "
            f"the least is {best}")
    c.check(w >= best - 1e-6 * max(1, best), "oracle", lambda: f"{what}: weight {w} of {sel} "
            f"below the supposed optimum {best}")
    c.ev("optimal")
    if g.weighted:
        c.ev("weighted")
    if len(sel) >= 2:
        c.ev("several")


def built(r, code, view, name):
    """(weighted, decoder, reference graph, description)."""
    how = r.choice(("table", "table", "explicit", "none"))
    rounds = code.n_rounds
    if how == "explicit":
        import numpy as np
        style = r.choice(("close", "spread", "integer", "heavy", "huge"))

        def ws(k):
            if style == "close":
                return np.array([r.uniform(3, 4) for _ in range(k)])
            if style == "integer":
                return np.array([float(r.randrange(1, 6)) for _ in range(k)])
            if style == "heavy":
                return np.array([r.uniform(20, 300) for _ in range(k)])
            if style == "huge":
                return np.array([10 ** r.uniform(0, 6) for _ in range(k)])
            return np.array([10 ** r.uniform(-1, 1) for _ in range(k)])
        w = {"pauli_x": ws(view.n), "pauli_z": ws(view.n), "measurement": ws(len(view.stabs))}
        d = dec.build(name, code, None, weights=w)
        return True, d, dec.Graph(view, rounds, *map(list, w.values())), "explicit weights"
    if how == "none":
        tab = dec.table(r, view, rounds) if r.random() < 0.5 else None
        return False, dec.build(name, code, tab, weighted=False), dec.Graph(view, rounds), "unweighted"
    tab = dec.table(r, view, rounds)
    return (True, dec.build(name, code, tab, weighted=True),
            dec.graph_for(view, rounds, tab, True), f"errors {tab}")


def small(c):
    import numpy as np
    r = c.rng
    label, code, view = dec.setup(r, 14 if c.tier == "quick" else 17, user=0.3)
    for name in dec.MATCHING:
        weighted, d, g, how = built(r, code, view, name)
        best, comps = g.best(np), g.components()
        syns = range(1 << g.nv) if g.nv <= 6 else [
            r.getrandbits(g.nv) if r.random() < 0.5 else dec.sample_syndrome(r, g)[0]
            for _ in range(40)]
        for syn in syns:
            if best[syn] == np.inf:
                c.check(not g.producible(syn), "oracle", "producible syndromes disagree")
                continue
            judge(c, f"{label} {name} {how} syndrome {g.array(np, syn, int).tolist()}", name, d, g,
                  comps, syn, best[syn])
            c.sig(label, name, weighted, syn)
        if how == "explicit weights":
            c.ev("explicit", len(syns))
    c.show(setup=f"{label}", vertices=g.nv)


def erasures(c):
    """Faults of erased qubits cost nothing."""
    import numpy as np
    r = c.rng
    label, code, view = dec.setup(r, 12, user=0.3)
    name = "FusionBlossomDecoder"
    weighted, d, g, how = built(r, code, view, name)
    comps = g.components()
    for _ in range(5):
        era = np.array([[r.random() < r.choice((0.1, 0.4)) for _ in range(view.n)]
                        for _ in range(g.rounds)])
        free = {f.key for f in g.faults if f.kind != "M" and era[f.rd, f.idx]}
        for fs in g.groups.values():  # faults with the same effect are represented by one of them
            if any(f.key in free for f in fs):
                free |= {f.key for f in fs}
        h = dec.Graph(view, g.rounds)
        for f, o in zip(h.faults, g.faults):
            f.weight = 0 if f.key in free else o.weight
        best = h.best(np)
        for _ in range(5):
            syn = r.getrandbits(g.nv) if r.random() < 0.5 else dec.sample_syndrome(r, g)[0]
            if not g.producible(syn):
                continue
            judge(c, f"{label} {name} {how} erased {np.argwhere(era).tolist()} syndrome "
                  f"{g.array(np, syn, int).tolist()}", name, d, g, comps, syn, best[syn], era, free)
            c.sig(label, name, weighted, syn, era.tobytes())
            c.ev("erased")


def matching_optimum(g, syn):
    """Least weight by perfect matching of the defects along shortest paths (None: impossible)."""
    import networkx as nx
    import numpy as np
    from scipy.sparse import csr_matrix
    from scipy.sparse.csgraph import dijkstra
    nv, b = g.nv, g.nv
    rows, cols, ws = [], [], []
    for m, w in g.usable().items():
        vs = [v for v in range(nv) if m >> v & 1]
        rows.append(vs[0])
        cols.append(vs[1] if len(vs) == 2 else b)
        ws.append(w + 1e-12)
    defects = [v for v in range(nv) if syn >> v & 1]
    if not defects:
        return 0.0
    # parallel entries would be added up, usable() has one per pair of ends
    dist = dijkstra(csr_matrix((ws, (rows, cols)), shape=(nv + 1, nv + 1)), directed=False,
                    indices=defects + [b])
    q = nx.Graph()
    k = len(defects)
    for i in range(k):
        for j in range(i):
            if dist[i, defects[j]] < np.inf:
                q.add_edge(i, j, weight=-dist[i, defects[j]])
            q.add_edge(k + i, k + j, weight=0)
        if dist[i, b] < np.inf:
            q.add_edge(i, k + i, weight=-dist[i, b])
    match = nx.max_weight_matching(q, maxcardinality=True)
    if len(match) < k and any(min(e) < k for e in q.edges) and \
            len({v for e in match for v in e if v < k}) < k:
        return None
    return -sum(q.edges[e]["weight"] for e in match)


def large(c):
    import numpy as np
    r = c.rng
    while True:
        label, code, view = dec.setup(r, 200 if c.tier == "quick" else 400, max_data=85,
                                      kinds=("planar", "rotated", "toric", "repetition"), user=0.05)
        if len(view.stabs) * code.n_rounds > 20:
            break
    for name in dec.MATCHING:
        weighted, d, g, how = built(r, code, view, name)
        comps = g.components()
        for _ in range(3):
            k = r.choice((2, 4, 7, 11))
            syn = g.syn_mask(dec.random_faults(r, g, k))
            best = matching_optimum(g, syn)
            c.check(best is not None, "oracle", f"{label}: no matching found")
            judge(c, f"{label} {name} {how} syndrome {np.argwhere(g.array(np, syn)).tolist()}",
                  name, d, g, comps, syn, best)
            c.ev("large")
            c.sig(label, name, weighted, syn)


def agree(c):
    """Both optima (dynamic programming and matching) agree: checks the oracle itself."""
    import numpy as np
    r = c.rng
    label, code, view = dec.setup(r, 12, user=0.3)
    *_, g, how = built(r, code, view, "PyMatchingDecoder")
    best = g.best(np)
    for _ in range(10):
        syn = dec.sample_syndrome(r, g)[0]
        m = matching_optimum(g, syn)
        c.check(m is not None and abs(m - best[syn]) < 1e-6 * max(1, m), "oracle",
                f"{label} {how}: optima {m} and {best[syn]}")
        c.ev("oracles_agree")


def graphs(c):
    """Low-level decoders on arbitrary graphs, weights replaced in between."""
    import numpy as np
    r = c.rng
    g = raw.RawGraph(r)
    for name in dec.MATCHING:
        ws = g.weights(np, r) if r.random() < 0.7 else None
        comp = g.component(np, ws)
        b = raw.start(name, comp)
        for k in range(4):
            if k == 2 and ws is not None:
                ws = g.weights(np, r)
                comp.set_edge_weights(ws)
                dec.quiet(b.update_weights)
                c.ev("reweighted")
            syn = g.syndrome(np, r)
            era = raw.erasure(np, r, g) if name in dec.ERASURE and r.random() < 0.5 else None
            cost = np.ones(len(g.edges)) if ws is None else ws.copy()
            top = cost.max()
            if era is not None:
                cost[era] = 0
            best = g.best(np, cost)[sum(int(x) << i for i, x in enumerate(syn))]
            try:
                sel = raw.decode(np, b, comp, syn, era)
            except raw.Panic:
                c.ev("third_party_panics")
                break
            got = sum(w for w, on in zip(cost, sel) if on)
            tol = 1e-9 if ws is None else 1e-9 + top * (
                sum(sel) / 100 if name == "FusionBlossomDecoder" else 1e-5 * len(ws))
            c.check(g.of(sel) == syn.tolist(), "explains", lambda: f"{name} on {g}: {sel} for {syn}")
            c.check(best - 1e-6 <= got <= best + tol, "not-optimal", lambda: f"{name} on {g} "
                    f"weights {ws} erased {era} syndrome {syn.astype(int)}: edges "
                    f"{[e for e, on in zip(g.edges, sel) if on]} cost {got}, the least is {best}")
            c.ev("optimal")
            c.sig("raw", name, tuple(g.edges), syn.tobytes(), k)


WORKLOADS = [W("small", small, 120, 3000), W("erasures", erasures, 40, 1000),
             W("large", large, 60, 1500), W("agree", agree, 10, 100),
             W("graphs", graphs, 120, 3000)]
