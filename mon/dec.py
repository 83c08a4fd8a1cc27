"""Independent view of decoding: faults, vertices and weights from commutation masks."""
import math
import warnings

from mon import qec

DECODERS = ("PyMatchingDecoder", "FusionBlossomDecoder", "UnionFindDecoder", "UnionFindNoWeights")
MATCHING = DECODERS[:2]
ERASURE = DECODERS[1:]
INF = float("inf")


def cls(name):
    from plaquette import decoders
    return getattr(decoders, name)


def weight_of(p):
    return INF if p <= 0 else math.log((1 - p) / p)


class Fault:
    __slots__ = ("kind", "rd", "idx", "mask", "weight")

    def __init__(self, kind, rd, idx, mask, weight):
        self.kind, self.rd, self.idx, self.mask, self.weight = kind, rd, idx, mask, weight

    @property
    def key(self):
        return self.kind, self.rd, self.idx

    def __repr__(self):
        return f"{self.kind}{self.idx}@{self.rd}"


def rates(view, tab, floor=0.0):
    """Bit-flip, phase-flip and readout probabilities of an error table.  `floor` is used for
    every Pauli probability that is not given or zero (what from_code documents)."""
    px, pz, pm = [0.0] * view.n, [0.0] * view.n, [0.0] * len(view.stabs)
    for q in range(view.n):
        p = tab.get("pauli", {}).get(q, {})
        x, y, z = ((p.get(k, 0.0) or floor) for k in "xyz")
        px[q], pz[q] = x + y, y + z
    for i in range(len(view.stabs)):
        pm[i] = tab.get("measurement", {}).get(view.n + i, {}).get("p", 0.0)
    return px, pz, pm


class Graph:
    """All single faults of `rounds` rounds; vertex of generator g in round r is bit r*ns+g."""

    def __init__(self, view, rounds, wx=None, wz=None, wm=None):
        self.view, self.rounds = view, rounds
        ns = self.ns = len(view.stabs)
        self.nv = ns * rounds
        self.weighted = wx is not None
        self.faults = []
        self.max_ends = 0
        for kind, ws in (("X", wx), ("Z", wz)):
            for q in range(view.n):
                e = (1 << q, 0) if kind == "X" else (0, 1 << q)
                m = sum(s << i for i, s in enumerate(view.syndrome(e)))
                self.max_ends = max(self.max_ends, bin(m).count("1"))
                for rd in range(rounds):
                    self.faults.append(Fault(kind, rd, q, m << rd * ns, 1 if ws is None else ws[q]))
        for rd in range(1, rounds):
            for g in range(ns):
                m = 1 << (rd - 1) * ns + g | 1 << rd * ns + g
                self.faults.append(Fault("M", rd, g, m, 1 if wm is None else wm[g]))
        self.by_key = {f.key: f for f in self.faults}
        self.groups = {}
        for f in self.faults:
            if f.mask:
                self.groups.setdefault(f.mask, []).append(f)

    def usable(self):
        """{mask: weight} of the faults that can happen."""
        out = {}
        for m, fs in self.groups.items():
            w = min(f.weight for f in fs)
            if w < INF:
                out[m] = w
        return out

    def components(self):
        """[(vertex mask, has dangling edges)] of the graph of usable faults."""
        comp = [1 << v for v in range(self.nv)]
        rep = list(range(self.nv))

        def find(v):
            while rep[v] != v:
                rep[v] = rep[rep[v]]
                v = rep[v]
            return v
        dang = set()
        for m in self.usable():
            vs = [v for v in range(self.nv) if m >> v & 1]
            if len(vs) == 1:
                dang.add(vs[0])
            for v in vs[1:]:
                a, b = find(vs[0]), find(v)
                if a != b:
                    rep[a] = b
                    comp[b] |= comp[a]
        roots = sorted({find(v) for v in range(self.nv)})
        return [(comp[v], any(comp[v] >> u & 1 for u in dang)) for v in roots]

    def producible(self, syn):
        return all(d or bin(syn & m).count("1") % 2 == 0 for m, d in self.components())

    def best(self, np, max_bits=20):
        """Least weight of a set of faults for every syndrome (array over syndromes)."""
        assert self.nv <= max_bits
        dist = np.full(1 << self.nv, np.inf)
        dist[0] = 0
        ids = np.arange(1 << self.nv)
        for m, w in self.usable().items():
            dist = np.minimum(dist, dist[ids ^ m] + w)
        return dist

    def syn_mask(self, faults):
        m = 0
        for f in faults:
            m ^= f.mask
        return m

    def data(self, faults):
        e = (0, 0)
        for f in faults:
            if f.kind == "X":
                e = e[0] ^ 1 << f.idx, e[1]
            elif f.kind == "Z":
                e = e[0], e[1] ^ 1 << f.idx
        return e

    def array(self, np, syn, dtype=bool):
        return np.array([[syn >> r * self.ns + g & 1 for g in range(self.ns)]
                         for r in range(self.rounds)], dtype=dtype).reshape(self.rounds, self.ns)

    def fold(self, syn):
        """Syndrome summed over rounds, per generator."""
        return tuple(sum(syn >> r * self.ns + g & 1 for r in range(self.rounds)) % 2
                     for g in range(self.ns))


def fault_of(edge):
    """Key of the fault of a library edge."""
    if hasattr(edge, "pauli_str"):
        q = edge.qubit_idx
        return edge.pauli_str, int(edge.time_step), int(q[0] if hasattr(q, "__len__") else q)
    return "M", int(edge.time_step), int(edge.stabgen_idx)


def selected(decoder):
    """Keys of the faults selected in the last decoding."""
    return sorted(fault_of(e) for e in decoder.synmgr.sgraph.edges if e.decoder_result)


def quiet(func, *a, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return func(*a, **kw)


def build(name, code, tab, **kw):
    return quiet(cls(name).from_code, code, tab, **kw)


def rate(rng, style):
    if style == "wide":
        return 10 ** rng.uniform(-4, -0.7)
    if style == "narrow":
        return rng.uniform(0.005, 0.03)
    if style == "zeros":
        return 0.0 if rng.random() < 0.3 else rng.uniform(0.01, 0.15)
    return 0.02


def table(rng, view, rounds, style=None, erasure=None):
    """Random error table for decoding (complete for data qubits)."""
    style = style or rng.choice(("wide", "narrow", "zeros", "uniform"))
    tab = {"pauli": {q: {k: rate(rng, style) for k in "xyz"} for q in range(view.n)}}
    if rng.random() < (0.9 if rounds > 1 else 0.3):
        tab["measurement"] = {view.n + i: {"p": rate(rng, style)} for i in range(len(view.stabs))}
    if erasure if erasure is not None else rng.random() < 0.3:
        tab["erasure"] = {q: {"p": rate(rng, style)} for q in range(view.n)}
    return tab


def graph_for(view, rounds, tab, weighted, floor=1e-15):
    if not weighted:
        return Graph(view, rounds)
    px, pz, pm = rates(view, tab, floor)
    return Graph(view, rounds, *([weight_of(p) for p in ps] for ps in (px, pz, pm)))


KINDS = ("repetition", "planar", "rotated", "toric", "five", "shor")


def setup(rng, max_vertices, kinds=KINDS, max_data=41, user=0.2):
    """(label, code, view) with at most so many vertices whose faults have at most two ends."""
    while True:
        rounds = rng.choice((1, 1, 1, 2, 2, 3, 4)) if rng.random() < 0.93 else rng.randrange(5, 13)
        if rng.random() < user:
            label, code = qec.user_code(rng, rounds)
        else:
            label, code = qec.pick(rng, max_data, kinds, rounds)
        view = qec.View(code)
        if len(view.stabs) * rounds <= max_vertices and Graph(view, 1).max_ends <= 2:
            return label, code, view


def random_faults(rng, g, k, kinds="XZM"):
    fs = [f for f in g.faults if f.kind in kinds and f.weight < INF]
    return rng.sample(fs, min(k, len(fs)))


def sample_syndrome(rng, g):
    """A syndrome and how it was made."""
    k = rng.choice((0, 1, 1, 2, 2, 3, 4, 6, len(g.faults) // 3))
    fs = random_faults(rng, g, k)
    return g.syn_mask(fs), fs
