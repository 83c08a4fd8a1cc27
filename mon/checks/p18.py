"""P18: the decoding graph represents exactly the code's single faults."""
from mon import dec, qec
from mon.core import W

RULE = ("syndrome graphs of bundled, fabricated and user-defined codes without weights, with random "
        "weights (ties, impossible faults, scalars) and with weights from tables; vertices, edges, "
        "parallel edges, components, per-component data and the correction of random selections "
        "are compared with commutation of bit masks; non-trivial = distinct (code, rounds, style "
        "of weights, number of usable faults)")
ASSUMPTIONS = ["for parallel edges of equal weight any one may be used"]
MINIMA = {"edges": 20000, "parallel_groups": 500, "impossible_edges": 500, "selections": 300,
          "refused": 40, "components": 500}


def _weights(c, view, style):
    np, r = c.np_mod, c.rng
    if style == "none":
        return None, (None, None, None)
    n, ns = view.n, len(view.stabs)
    if style == "scalar":
        w = [r.choice((0.5, 1.0, 2.0)) for _ in range(3)]
        return (dict(zip(("pauli_x", "pauli_z", "measurement"), w)),
                ([w[0]] * n, [w[1]] * n, [w[2]] * ns))

    def one():
        if style == "ties":
            return float(r.randrange(1, 3))
        if style == "inf" and r.random() < 0.3:
            return dec.INF
        if style == "heavy":
            return 10 ** r.uniform(-2, 8)
        return r.uniform(0.1, 9.0)
    ws = [[one() for _ in range(m)] for m in (n, n, ns)]
    return dict(zip(("pauli_x", "pauli_z", "measurement"), map(np.array, ws))), ws


def _code(c):
    from plaquette.codes.latticebase import NoLogicalOperatorError
    r = c.rng
    if r.random() < 0.15:
        code = qec.bundled("planar", r.choice((3, 4)), r.randrange(1, 4))
        try:
            code.apply_fabrication_errors(
                faulty_qubits=r.sample(range(code.n_data_qubits), r.randrange(1, 3)))
            return ("fabricated", code.n_data_qubits, code.n_rounds), code, qec.View(code)
        except NoLogicalOperatorError:
            pass
    return dec.setup(r, 120)


def graph(c):
    import numpy as np
    from plaquette.syngraph import SyndromeGraph, SyndromeGraphManager
    c.np_mod = np
    r = c.rng
    label, code, view = _code(c)
    style = r.choice(("none", "scalar", "ties", "inf", "inf", "random", "heavy"))
    lib, ws = _weights(c, view, style)
    ref = dec.Graph(view, code.n_rounds, *ws)
    if ref.max_ends > 2:
        c.refuses(lambda: SyndromeGraph.from_code(code, lib), "hyperedge", f"graph of {label}")
        return
    sg = (SyndromeGraph.from_code(code, lib) if r.random() < 0.7
          else SyndromeGraphManager(code, None, weights=lib).sgraph)
    ns, rounds = ref.ns, code.n_rounds
    what = f"{label} weights {style}"
    # vertices
    pos = [(v.time_step, v.stabgen_idx) for v in sg.vertices]
    c.check(sorted(pos) == [(t, g) for t in range(rounds) for g in range(ns)], "vertices",
            lambda: f"{what}: vertices {pos}")
    bit = {v.vertex_idx: v.time_step * ns + v.stabgen_idx for v in sg.vertices}
    c.check([v.vertex_idx for v in sg.vertices] == list(range(ref.nv)), "vertex-index",
            f"{what}: vertex_idx is not the position")
    # edges
    keys = [dec.fault_of(e) for e in sg.edges]
    c.check(sorted(keys) == sorted(ref.by_key), "edges", lambda: f"{what}: edges differ from the "
            f"single faults by {set(keys) ^ set(ref.by_key)}, {len(keys)} edges")
    c.check([e.edge_idx for e in sg.edges] == list(range(len(keys))), "edge-index",
            f"{what}: edge_idx is not the position")
    edge_of = dict(zip(keys, sg.edges))
    for key, e in edge_of.items():
        f = ref.by_key[key]
        m = sum(1 << bit[v.vertex_idx] for v in e.vertices)
        c.check(m == f.mask and len({v.vertex_idx for v in e.vertices}) == len(e.vertices),
                "edge-vertices", lambda: f"{what}: fault {f} connects {bin(m)}, not {bin(f.mask)}")
        if ref.weighted:
            w = float(np.ravel(e.weight)[0])
            c.check(w == f.weight or abs(w - f.weight) < 1e-12, "edge-weight",
                    lambda: f"{what}: fault {f} has weight {w}, given {f.weight}")
        if f.kind != "M":
            op = qec.masks(sg.error_ops[e.error_op_idx])
            c.check(op == ref.data([f]), "error-op", f"{what}: operator of {f} is {op}")
    c.ev("edges", len(keys))
    # parallel edges and impossible faults
    use = {}
    for m, fs in ref.groups.items():
        on = [f for f in fs if edge_of[f.key].enabled]
        best = min(f.weight for f in fs)
        want = 0 if best == dec.INF else 1
        c.check(len(on) == want and all(f.weight == best for f in on), "parallel",
                lambda: f"{what}: of the parallel faults {[(f, f.weight) for f in fs]}, {on} are "
                f"enabled")
        if on:
            use[m] = on[0]
        if len(fs) > 1:
            c.ev("parallel_groups")
        c.ev("impossible_edges", sum(f.weight == dec.INF for f in fs))
    # neighbours
    for v in sg.vertices:
        mine = {f.key for m, f in use.items() if m >> bit[v.vertex_idx] & 1}
        got = [dec.fault_of(e) for e in v.edges]
        c.check(len(got) == len(mine) and set(got) == mine, "vertex-edges",
                lambda: f"{what}: vertex {v.vertex_idx} has edges {got}, expected {mine}")
        b = 1 << bit[v.vertex_idx]
        near = sorted((use_m ^ b).bit_length() - 1 for use_m in use if use_m & b and use_m != b)
        c.check(sorted(bit[w.vertex_idx] for w in v.neighbours) == near, "neighbours",
                lambda: f"{what}: neighbours of vertex {v.vertex_idx}")
    # components
    comps = ref.components()
    got = []
    for comp in sg.components:
        m = sum(1 << bit[int(i)] for i in comp.parent_vertex_idx)
        got.append((m, bool(comp.has_dangling_edges)))
        c.check(comp.n_vertices == len(comp.parent_vertex_idx) == bin(m).count("1"),
                "component-vertices", f"{what}: number of vertices of a component")
        par = [sg.edges[int(i)] for i in comp.parent_edge_idx]
        c.check(len(par) == len(comp.edges), "component-edges", f"{what}: edges of a component")
        local = {int(p): k for k, p in enumerate(comp.parent_vertex_idx)}
        for loc, e in zip(comp.edges, par):
            c.check(sorted(int(x) for x in loc) == sorted(local[v.vertex_idx] for v in e.vertices),
                    "component-edge", lambda: f"{what}: edge {dec.fault_of(e)} is {loc} in its "
                    f"component")
        c.check(sorted(dec.fault_of(e) for e in par) == sorted(
            f.key for mm, f in use.items() if mm & m), "component-edges",
            lambda: f"{what}: component {bin(m)} has edges {[dec.fault_of(e) for e in par]}")
        if par:
            c.check(bool(comp.is_weighted()) == ref.weighted, "weighted", f"{what}: is_weighted")
            if ref.weighted:
                c.check(all(abs(a - ref.by_key[dec.fault_of(e)].weight) < 1e-12
                            for a, e in zip(comp.edge_weights, par)), "component-weights",
                        f"{what}: weights of a component differ")
        c.ev("components")
    c.check(sorted(got) == sorted(comps), "components", lambda: f"{what}: components {got}, "
            f"expected {comps}")
    c.check([id(x) for x in sg.components_with_edges] == [id(x) for x in sg.components
                                                          if len(x.edges)], "with-edges",
            f"{what}: components_with_edges")
    stat = sg.get_statistics()
    want = {"n_vertices": ref.nv, "n_edges": len(keys),
            "n_2_edges": sum(bin(f.mask).count("1") == 2 for f in ref.faults),
            "n_1_edges": sum(bin(f.mask).count("1") == 1 for f in ref.faults),
            "n_0_edges": sum(f.mask == 0 for f in ref.faults),
            "n_edges_qubit": sum(f.kind != "M" for f in ref.faults),
            "n_edges_stab": sum(f.kind == "M" for f in ref.faults), "n_comp": len(comps)}
    c.check(all(stat[k] == v for k, v in want.items()), "statistics",
            lambda: f"{what}: statistics {stat}, expected {want}")
    _data(c, what, sg, ref, bit)
    c.sig(label, style, len(use), tuple(sorted(m for m, _ in comps))[:6])
    c.show(setup=what, edges=len(keys), usable=len(use), components=len(comps))


def _data(c, what, sg, ref, bit):
    """Syndromes, erasures and selections are split and joined correctly."""
    import numpy as np
    r = c.rng
    for _ in range(2):
        syn = r.getrandbits(ref.nv) if ref.nv else 0
        dt = r.choice((bool, "u1"))
        sg.set_syndrome(ref.array(np, syn, dt))
        era = np.array([[r.random() < 0.3 for _ in range(ref.view.n)] for _ in range(ref.rounds)],
                       dtype=dt)
        none = r.random() < 0.4
        sg.set_erasure(None if none else era)
        if none:
            era[:] = 0
        c.check(all(bool(v.syndrome) == bool(syn >> bit[v.vertex_idx] & 1) for v in sg.vertices),
                "set-syndrome", f"{what}: syndrome of the vertices")
        for comp in sg.components:
            got = [int(x) for x in comp.syndrome]
            want = [syn >> bit[int(i)] & 1 for i in comp.parent_vertex_idx]
            c.check(got == want, "component-syndrome", lambda: f"{what}: syndrome {got} of a "
                    f"component, expected {want}")
        for comp in sg.components_with_edges:
            for flag, i in zip(comp.edge_erased, comp.parent_edge_idx):
                f = ref.by_key[dec.fault_of(sg.edges[int(i)])]
                own = f.kind != "M" and bool(era[f.rd, f.idx])
                any_ = any(g.kind != "M" and era[g.rd, g.idx] for g in ref.groups[f.mask])
                c.check(own <= bool(flag) <= any_, "component-erasure", lambda: f"{what}: erasure "
                        f"flag {flag} of {f}")
    sg.set_erasure(None)
    sg.set_syndrome(None)
    for _ in range(3):
        picked, results = [], []
        dens = r.choice((0.0, 0.2, 0.5, 1.0))
        for comp in sg.components_with_edges:
            sel = np.array([r.random() < dens for _ in comp.edges], dtype=bool)
            comp.set_edge_decoder_results(sel)
            results.append(sel)
            picked += [ref.by_key[dec.fault_of(sg.edges[int(i)])]
                       for i, s in zip(comp.parent_edge_idx, sel) if s]
        sg.update_decoder_results()
        c.check(sorted(dec.fault_of(e) for e in sg.edges if e.decoder_result) ==
                sorted(f.key for f in picked), "selection", lambda: f"{what}: selected edges")
        both = sg.combine_decoding_results(results)
        c.check(sorted(dec.fault_of(sg.edges[i]) for i in np.where(both)[0]) ==
                sorted(f.key for f in picked), "combine", lambda: f"{what}: combined results")
        got = qec.masks(sg.result_as_pauli_frame())
        c.check(got == ref.data(picked), "correction", lambda: f"{what}: selecting {picked} gives "
                f"{qec.letters(got, ref.view.n)}")
        c.ev("selections")


def refused(c):
    """Codes with faults that change more than two generators."""
    import numpy as np
    from plaquette.syngraph import SyndromeGraph
    r = c.rng
    for _ in range(50):
        label, code = qec.user_code(r, r.randrange(1, 3), y_free=r.random() < 0.5)
        view = qec.View(code)
        ref = dec.Graph(view, code.n_rounds)
        if ref.max_ends > 2:
            break
    else:
        return
    lib = None if r.random() < 0.5 else {
        "pauli_x": np.ones(view.n), "pauli_z": np.ones(view.n),
        "measurement": np.ones(len(view.stabs))}
    c.refuses(lambda: SyndromeGraph.from_code(code, lib), "hyperedge", f"graph of {label}")
    name = r.choice(dec.DECODERS)
    c.refuses(lambda: dec.build(name, code, None), "hyperedge-decoder", f"{name} for {label}")
    c.ev("refused", 2)
    c.sig("refused", label)


WORKLOADS = [W("graph", graph, 500, 8000), W("refused", refused, 40, 500)]
