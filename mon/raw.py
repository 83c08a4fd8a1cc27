"""Arbitrary decoding graphs for the low-level decoder interfaces."""
from mon import dec


class RawGraph:
    """Connected simple graph with dangling edges; edges are tuples of one or two vertices."""

    def __init__(self, r, lo=1, hi=10):
        self.n = n = r.randrange(lo, hi + 1)
        es = {(v, r.randrange(v)) if r.random() < 0.5 else (r.randrange(v), v)
              for v in range(1, n)}
        for _ in range(r.randrange(0, n + 2)):
            if n > 1:
                a, b = r.sample(range(n), 2)
                if (b, a) not in es:
                    es.add((a, b))
        edges = sorted(es)
        for v in range(n):
            if r.random() < r.choice((0, 0.3, 0.8)):
                edges.append((v,))
        if not edges:
            edges.append((0,))
        r.shuffle(edges)
        self.edges = edges
        self.dangling = any(len(e) == 1 for e in edges)
        self.masks = [sum(1 << v for v in e) for e in edges]

    def weights(self, np, r):
        style = r.choice(("close", "spread", "integer", "heavy"))
        return np.array([r.uniform(3, 4) if style == "close" else float(r.randrange(1, 6))
                         if style == "integer" else r.uniform(20, 300) if style == "heavy"
                         else 10 ** r.uniform(-1, 1) for _ in self.edges])

    def syndrome(self, np, r):
        """A decodable syndrome."""
        s = [r.random() < 0.5 for _ in range(self.n)]
        if not self.dangling and sum(s) % 2:
            s[r.randrange(self.n)] ^= True
        return np.array(s, dtype=bool)

    def of(self, sel):
        m = 0
        for on, k in zip(sel, self.masks):
            if on:
                m ^= k
        return [bool(m >> v & 1) for v in range(self.n)]

    def best(self, np, ws):
        dist = np.full(1 << self.n, np.inf)
        dist[0] = 0
        ids = np.arange(1 << self.n)
        for m, w in zip(self.masks, ws):
            dist = np.minimum(dist, dist[ids ^ m] + w)
        return dist

    def component(self, np, ws=None):
        from plaquette import syngraph
        vs = [syngraph.Vertex(vertex_idx=7 + 2 * i, stabgen_idx=i, time_step=0)
              for i in range(self.n)]
        es = [syngraph.QubitErrorEdge(edge_idx=3 * i, vertices=tuple(vs[v] for v in e), time_step=0,
                                      error_op_idx=i, qubit_idx=i, pauli_str="X")
              for i, e in enumerate(self.edges)]
        if ws is None:
            ws = np.full(len(es), np.nan)
        return syngraph.SyndromeGraphComponent(vs, es, np.array(ws, dtype=float))

    def __repr__(self):
        return f"graph of {self.n} vertices {self.edges}"


def hook():
    """Name of the attribute by which a decoder states its backend."""
    from plaquette import decoders
    from plaquette.decoders import decoderbase
    for name, v in vars(decoders.PyMatchingDecoder).items():
        if isinstance(v, type) and issubclass(v, decoderbase.DecoderBackendInterface):
            return name
    return "_decoder_cls"


def backend(name):
    from plaquette import decoders
    return getattr(getattr(decoders, name), hook())


def start(name, comp):
    b = backend(name)()
    dec.quiet(b.set_syngraph, comp)
    return b


class Panic(Exception):
    """The third-party solver of Fusion Blossom panicked on a graph with erased edges."""


def decode(np, b, comp, syn, era=None):
    comp.set_syndrome(syn.copy())
    comp.set_erasure(np.zeros(len(comp.edges), dtype=bool) if era is None else era.copy())
    try:
        dec.quiet(b.decode)
    except BaseException as e:
        if era is not None and type(e).__name__ == "PanicException":
            raise Panic from e
        raise
    return [bool(x) for x in comp.edge_decoder_result]


def erasure(np, r, g):
    dens = r.choice((0.1, 0.3, 0.6, 1.0))
    return np.array([r.random() < dens for _ in g.edges])
