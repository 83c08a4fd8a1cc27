"""P23: decoding depends only on the current input."""
import copy

from mon import dec, qec, raw
from mon.core import W

RULE = ("every decoder, with and without weights, on bundled and user-defined codes; histories of "
        "decode calls (producible and unproducible syndromes, erasures, malformed inputs, "
        "repetitions, other decoders of the same code in between); every answer must equal that of "
        "a freshly built decoder, and inputs, tables, weights and the code stay as they were; low-level decoders, the union-find "
        "core and managers whose weights or graphs are replaced in between, against new ones; "
        "non-trivial = distinct (code, rounds, decoder, weighted, syndrome, erasures, number of "
        "earlier calls)")
MINIMA = {"compared": 1500, "after_failure": 300, "repeated": 300, "erased": 200, "histories": 80}
ASSUMPTIONS = ["answers are compared within one process",
               "inputs on which the third-party solver of Fusion Blossom panics are skipped"]


def _snapshot(code):
    lat = code.lattice
    return ([s.tolist() for s in code.stabilisers], [s.tolist() for s in code.logical_ops],
            code.n_rounds, code.n_data_qubits, list(map(repr, lat.vertices)),
            [(e.op.equbit_idx, e.data.equbit_idx, str(e.factor), e.measurement_time_step)
             for e in lat.edges])


def _input(r, np, g, view, name):
    """(kind, erasures, syndrome array) of the next call."""
    x = r.random()
    if x < 0.12:
        shape = r.choice(((g.rounds, g.ns + 1), (g.rounds + 1, g.ns), (g.ns * g.rounds + 1,)))
        return "malformed", None, np.ones(shape, dtype=bool)
    if x < 0.2:
        return "malformed", np.ones((g.rounds, view.n + 1), dtype=bool), g.array(
            np, dec.sample_syndrome(r, g)[0])
    era = None
    if r.random() < 0.4 and (name in dec.ERASURE or r.random() < 0.2):
        dens = r.choice((0.1, 0.3, 1.0))
        era = np.array([[r.random() < dens for _ in range(view.n)] for _ in range(g.rounds)])
    if x < 0.35:
        return "any", era, g.array(np, r.getrandbits(g.nv))
    dtype = r.choice((bool, "u1"))
    return "good", era, g.array(np, dec.sample_syndrome(r, g)[0], dtype)


def _answer(d, era, syn):
    """Correction and selected faults, or the type of the error."""
    try:
        corr = dec.quiet(d.decode, era, syn)
    except Exception as e:  # noqa: BLE001 - every refusal is an answer
        return "refused", type(e).__name__
    return corr.tolist(), dec.selected(d)


class Maker:
    def __init__(self, r, code, view, name):
        self.code, self.name = code, name
        how = r.choice(("table", "table", "weights", "none"))
        self.weighted = name != "UnionFindNoWeights" and r.random() < 0.7
        self.tab = dec.table(r, view, code.n_rounds, erasure=r.random() < 0.5)
        self.kw = {"weighted": self.weighted}
        if how == "weights" and self.weighted:
            import numpy as np
            self.tab = None
            self.kw["weights"] = {
                k: np.array([r.uniform(0.3, 5) for _ in range(m)])
                for k, m in (("pauli_x", view.n), ("pauli_z", view.n),
                             ("measurement", len(view.stabs)))}
        elif how == "none":
            self.tab, self.weighted = None, False
            self.kw["weighted"] = False
        self.keep = copy.deepcopy((self.tab, self.kw))

    def fresh(self):
        return dec.build(self.name, self.code, self.tab, **self.kw)

    def unchanged(self):
        tab, kw = self.keep
        if tab != self.tab or set(kw) != set(self.kw):
            return False
        a, b = kw.get("weights"), self.kw.get("weights")
        return a is None or all((a[k] == b[k]).all() for k in a)


def _one(c, what, m, d, inp, earlier, failed):
    import numpy as np
    kind, era, syn = inp
    keep = (None if era is None else era.copy()), syn.copy()
    got = _answer(d, era, syn)
    c.check(np.array_equal(syn, keep[1]) and syn.dtype == keep[1].dtype, "syndrome-modified",
            lambda: f"{what}: syndrome {keep[1].tolist()} became {syn.tolist()}")
    c.check(era is None or np.array_equal(era, keep[0]), "erasures-modified",
            lambda: f"{what}: erasures {keep[0].tolist()} became {era.tolist()}")
    ref = _answer(m.fresh(), *copy.deepcopy((era, syn)))
    c.check(got == ref, "history", lambda: f"{what}: after {earlier} earlier calls, syndrome "
            f"{syn.tolist()} with erasures {None if era is None else np.argwhere(era).tolist()} "
            f"gives {got}, a fresh decoder {ref}")
    c.check(m.unchanged(), "table-modified", lambda: f"{what}: table or weights {m.keep} were "
            f"changed to {m.tab}, {m.kw}")
    c.ev("compared")
    if failed:
        c.ev("after_failure")
    if era is not None:
        c.ev("erased")
    c.sig(what, earlier, syn.tobytes(), None if era is None else era.tobytes())
    return got


def histories(c):
    import numpy as np
    r = c.rng
    label, code, view = dec.setup(r, 40)
    before = _snapshot(code)
    for name in r.sample(dec.DECODERS, 2):
        m = Maker(r, code, view, name)
        g = dec.Graph(view, code.n_rounds)
        what = f"{label} {name} {'weighted' if m.weighted else 'unweighted'}"
        d = m.fresh()
        past, failed = [], False
        for i in range(10):
            if past and r.random() < 0.3:
                inp, old = r.choice(past)
                c.ev("repeated")
            else:
                inp, old = _input(r, np, g, view, name), None
            got = _one(c, what, m, d, inp, i, failed)
            c.check(old is None or old == got, "repeat", f"{what}: decoding the same again after "
                    f"{i} calls gives {got}, before {old}")
            if r.random() < 0.3:
                again = _answer(d, inp[1], inp[2])
                c.check(again == got, "repeat", lambda: f"{what}: decoding the same twice gives "
                        f"{got} and {again}")
                c.ev("repeated")
            failed = got[0] == "refused"
            past.append((inp, got))
        c.ev("histories")
        c.check(_snapshot(code) == before, "code-modified", f"{what}: the code was changed")
    c.show(setup=what, calls=10)


def together(c):
    """Several decoders of one code, used in turns; answers given out earlier stay as they are."""
    import numpy as np
    r = c.rng
    label, code, view = dec.setup(r, 40)
    before = _snapshot(code)
    g = dec.Graph(view, code.n_rounds)
    ms = [Maker(r, code, view, n) for n in dec.DECODERS]
    ds = [m.fresh() for m in ms]
    given = []
    for i in range(12):
        k = r.randrange(len(ms))
        kind, era, syn = _input(r, np, g, view, ms[k].name)
        what = f"{label} {ms[k].name} among others"
        if kind == "good" and r.random() < 0.5:
            try:
                corr = dec.quiet(ds[k].decode, era, syn)
            except Exception:  # noqa: BLE001 - refusals are compared below
                continue
            given.append((corr, corr.copy()))
            if r.random() < 0.4:  # what the user does with an answer is not the decoder's business
                corr ^= 1
                given.pop()
        _one(c, what, ms[k], ds[k], (kind, era, syn), i, False)
    c.check(all(np.array_equal(a, b) for a, b in given), "answer-modified",
            f"{label}: corrections returned earlier were changed")
    c.check(_snapshot(code) == before, "code-modified", f"{label}: the code was changed")


def reweighted(c):
    """Low-level decoders whose weights are replaced: as good as new ones."""
    import numpy as np
    r = c.rng
    g = raw.RawGraph(r)
    for name in dec.DECODERS[:3]:
        ws = g.weights(np, r)
        comp = g.component(np, ws)
        b = raw.start(name, comp)
        for k in range(6):
            if r.random() < 0.5:
                ws = g.weights(np, r)
                comp.set_edge_weights(ws)
                if r.random() < 0.3:
                    comp2 = g.component(np, ws)
                    dec.quiet(b.set_syngraph, comp2)
                    comp = comp2
                else:
                    dec.quiet(b.update_weights)
                c.ev("reweighted")
            syn = g.syndrome(np, r)
            era = raw.erasure(np, r, g) if name in dec.ERASURE and r.random() < 0.4 else None
            keep = ws.copy()
            other = g.component(np, ws)
            try:
                got = raw.decode(np, b, comp, syn, era)
                given = comp.syndrome, comp.edge_erased
                want = raw.decode(np, raw.start(name, other), other, syn, era)
            except raw.Panic:
                c.ev("third_party_panics")
                break
            c.check((keep == ws).all(), "weights-modified", f"{name}: the weights were changed")
            c.check(np.array_equal(given[0], syn) and np.array_equal(
                given[1], np.zeros(len(g.edges), dtype=bool) if era is None else era),
                "input-modified", lambda: f"{name} on {g}: syndrome {syn.astype(int)} or erasures "
                f"{era} became {given}")
            c.check(got == want, "history", lambda: f"{name} on {g} weights {ws}, erased {era}, "
                    f"syndrome {syn.astype(int)}: edges {np.where(got)[0]} after {k} calls, a new "
                    f"decoder {np.where(want)[0]}")
            c.ev("compared")
            c.sig("raw", name, tuple(g.edges), syn.tobytes(), k)


def core(c):
    """The union-find core with weights set, replaced and removed again."""
    import numpy as np
    from plaquette.decoders import unionfind_decoder as uf
    r = c.rng
    g = raw.RawGraph(r, 2, 12)
    cls = type("Variant", (uf.UnionFind,),
               {"choose_growth_increment_enabled": r.random() < 0.4})
    old = cls(g.n, g.edges)
    ws = None
    for k in range(8):
        if r.random() < 0.6:
            ws = g.weights(np, r) if r.random() < 0.6 else None
            old.set_weights(ws)
            c.ev("reweighted")
        syn = g.syndrome(np, r)
        era = list(np.where(raw.erasure(np, r, g))[0]) if r.random() < 0.3 else []
        new = cls(g.n, g.edges)
        new.set_weights(ws)
        a, b = old.union_find(era, syn), new.union_find(era, syn)
        c.check(a == b, "history", lambda: f"union find on {g} weights {ws}, erased {era}, syndrome "
                f"{syn.astype(int)}: grown {a} after {k} calls, a new one {b}")
        c.ev("compared")
        c.sig("core", tuple(g.edges), syn.tobytes(), k)


def manager(c):
    """Graph or weights replaced by the manager right before decoding."""
    import numpy as np
    from plaquette import decoders, syngraph
    r = c.rng
    label, code, view = dec.setup(r, 30)
    g = dec.Graph(view, code.n_rounds)

    def some():
        return {k: np.array([r.uniform(0.3, 5) for _ in range(m)])
                for k, m in (("pauli_x", view.n), ("pauli_z", view.n),
                             ("measurement", len(view.stabs)))}

    class Manager(syngraph.SyndromeGraphManager):
        kind = syngraph.SyndromeGraphUpdate.Nothing
        given = None

        def update_for_decoding(self, erasure, syndrome):
            if self.kind == syngraph.SyndromeGraphUpdate.GraphAndWeights:
                self.sgraph = syngraph.SyndromeGraph.from_code(code, self.given)
            elif self.kind == syngraph.SyndromeGraphUpdate.Weights:
                for comp, w in zip(self.sgraph.components_with_edges, self.given):
                    comp.set_edge_weights(w.copy())
            return self.kind
    for name in dec.DECODERS:
        weighted = name != "UnionFindNoWeights"
        base = some() if weighted else None
        d = dec.quiet(getattr(decoders, name), Manager(code, None, weights=base))
        extra = None
        for k in range(5):
            m = d.synmgr
            m.kind = r.choice(list(syngraph.SyndromeGraphUpdate))
            if not weighted and m.kind == syngraph.SyndromeGraphUpdate.Weights:
                m.kind = syngraph.SyndromeGraphUpdate.Nothing
            if m.kind == syngraph.SyndromeGraphUpdate.GraphAndWeights:
                base, extra = some() if weighted else None, None
                m.given = base
                c.ev("regraphed")
            elif m.kind == syngraph.SyndromeGraphUpdate.Weights:
                extra = [np.array([r.uniform(0.3, 5) for _ in comp.edges])
                         for comp in m.sgraph.components_with_edges]
                m.given = extra
                c.ev("reweighted")
            syn = g.array(np, dec.sample_syndrome(r, g)[0])
            era = None
            if name in dec.ERASURE and r.random() < 0.3:
                era = np.array([[r.random() < 0.2 for _ in range(view.n)] for _ in range(g.rounds)])
            got = _answer(d, era, syn)
            fresh = syngraph.SyndromeGraphManager(code, None, weights=base)
            if extra is not None:
                for comp, w in zip(fresh.sgraph.components_with_edges, extra):
                    comp.set_edge_weights(w.copy())
            want = _answer(dec.quiet(getattr(decoders, name), fresh), era, syn)
            c.check(got == want, "updated", lambda: f"{label} {name} after {m.kind.name}: "
                    f"{got}, a fresh decoder {want}")
            c.ev("compared")
            c.sig("manager", label, name, m.kind.name, syn.tobytes())


WORKLOADS = [W("histories", histories, 80, 3000), W("together", together, 40, 1500),
             W("reweighted", reweighted, 80, 3000), W("core", core, 100, 4000),
             W("manager", manager, 40, 1500)]
