"""Reference model of error tables: plain dictionaries and lists."""
import math

NAMES = ("X", "Y", "Z", "erasure", "measurement")
ONE = ("H", "R", "M")
TWO = ("CX", "CZ")
PAIRS = [a + b for a in "IXYZ" for b in "IXYZ" if a + b != "II"]


class Model:
    def __init__(self):
        self.kind = {}        # qubit -> data / stab / ancilla
        self.val = {}         # name -> {qubit: probability}
        self.enabled = set()
        self.rows = []        # (gate, qubits, channels, probabilities)
        self.gates = set()

    @classmethod
    def of(cls, view, ancilla="stab"):
        m = cls()
        m.kind = {q: "data" for q in range(view.n)}
        m.kind.update({view.n + i: ancilla for i in range(len(view.stabs))})
        return m

    def copy(self):
        m = Model()
        m.kind, m.val = dict(self.kind), {k: dict(v) for k, v in self.val.items()}
        m.enabled, m.rows, m.gates = set(self.enabled), list(self.rows), set(self.gates)
        return m

    def qubit_dict(self):
        out = {}
        for name in self.enabled & set(self.val):
            for q, p in self.val[name].items():
                if p is None or not p:
                    continue
                if name in "XYZ" and self.kind[q] == "data":
                    out.setdefault("pauli", {}).setdefault(q, {})[name.lower()] = p
                elif name == "erasure" and self.kind[q] == "data":
                    out.setdefault("erasure", {})[q] = {"p": p}
                elif name == "measurement" and self.kind[q] != "data":
                    out.setdefault("measurement", {})[q] = {"p": p}
        return out

    def gate_dict(self, merge=False):
        out = {}
        for gate, qubits, names, probs in self.rows:
            if gate not in self.gates:
                continue
            keys = qubits if gate in ONE else list(zip(qubits[::2], qubits[1::2]))
            for k in keys:
                d = out.setdefault(gate, {})
                new = {n.lower(): p for n, p in zip(names, probs)}
                d[k] = {**d.get(k, {}), **new} if merge else new
        return norm(out)

    def frame(self, pd, names=None, qubits=None, rng=None, nan=True):
        """The qubit table (or a part of it) as a data frame."""
        qubits = list(self.kind) if qubits is None else qubits
        names = list(self.val) if names is None else names
        d = {"qubit_id": qubits, "qubit_type": [self.kind[q] for q in qubits]}
        for n in names:
            d[n] = [self.val[n].get(q) if nan else self.val[n].get(q) or 0.0 for q in qubits]
            d[n] = [math.nan if v is None else v for v in d[n]]
        return pd.DataFrame(d)

    def gate_frame(self, pd, rows=None):
        rows = self.rows if rows is None else rows
        return pd.DataFrame([[g, list(q), list(n), list(p)] for g, q, n, p in rows],
                            columns=["gate", "on_qubits", "induced_errors", "probs"])


def norm(d):
    """Error dictionary with plain types, without zero and empty entries."""
    out = {}
    for kind, entries in d.items():
        for k, ch in entries.items():
            for name, p in ch.items():
                if p is None or p != 0:
                    key = tuple(int(x) for x in k) if isinstance(k, tuple) else int(k)
                    out.setdefault(kind, {}).setdefault(key, {})[str(name)] = \
                        p if p is None else float(p)
    return out


def same(a, b, tol=1e-12):
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k], tol) for k in a)
    return a is not None and b is not None and abs(a - b) <= tol


def diff(a, b):
    """Short description of the first difference of two normalised dictionaries."""
    for kind in sorted(set(a) | set(b)):
        x, y = a.get(kind, {}), b.get(kind, {})
        for k in sorted(set(x) | set(y), key=str):
            if not (k in x and k in y and same(x[k], y[k])):
                return f"{kind} of {k} is {x.get(k)}, expected {y.get(k)}"
    return "no difference"


def judge(c, what, ed, m, mech="dictionary"):
    got, want = norm(ed.qubit_errors_dict), m.qubit_dict()
    c.check(same(got, want), f"qubit-{mech}", lambda: f"{what}: {diff(got, want)}")
    gg, gw = norm(ed.gate_errors_dict), m.gate_dict()
    c.check(same(gg, gw), f"gate-{mech}", lambda: f"{what}: {diff(gg, gw)}")
    both, wb = norm(ed.error_data_dict), {**want, **gw}
    c.check(same(both, wb), f"whole-{mech}", lambda: f"{what}: {diff(both, wb)}")
    c.ev("compared")
    c.ev("entries", sum(len(v) for v in wb.values()))


def pairs(view):
    """(ancilla, data qubit) of every incidence."""
    return [(view.n + i, q) for i, (x, z) in enumerate(view.stabs)
            for q in range(view.n) if (x | z) >> q & 1]


def random_row(r, view):
    """A gate error row: gate, qubits, channels, probabilities."""
    n, ns = view.n, len(view.stabs)
    k = r.randrange(1, 4)
    if r.random() < 0.5:
        names = r.sample("XYZ", k)
        qs = [n + r.randrange(ns) for _ in range(r.randrange(1, 4))]
        return r.choice(ONE), qs, names, [prob(r) for _ in names]
    names = r.sample(PAIRS, k)
    qs = []
    for _ in range(r.randrange(1, 4)):
        qs += list(r.choice(pairs(view)))
    return r.choice(TWO), qs, names, [prob(r) for _ in names]


def prob(r):
    return r.choice((0.0, 1.0, 0.5, 1e-9)) if r.random() < 0.15 else r.random()


def well_formed(r, view, dense=0.5, small=False):
    """Random error dictionary that fits the code."""
    data = range(view.n)
    stab = range(view.n, view.n + len(view.stabs))

    def rate():
        p = prob(r)
        return p / 20 if small else p

    def some(keys):
        return [k for k in keys if r.random() < dense]

    def labels(names):
        out = r.sample(names, r.randrange(len(names) + 1) if r.random() < 0.5 else 1)
        return {n: rate() for n in out}
    d = {}
    for kind in ("pauli", "erasure", "measurement", *ONE, *TWO):
        if r.random() < 0.45:
            continue
        if kind == "pauli":
            d[kind] = {q: labels(["x", "y", "z"]) for q in some(data)}
        elif kind == "erasure":
            d[kind] = {q: {"p": rate()} for q in some(data)}
        elif kind == "measurement":
            d[kind] = {q: {"p": rate()} for q in some(stab)}
        elif kind in ONE:
            d[kind] = {q: labels(["x", "y", "z"]) for q in some(stab)}
        else:
            near = [(view.n + i, q) for i, s in enumerate(view.stabs) for q in data
                    if (s[0] | s[1]) >> q & 1]
            far = [(r.choice(stab), r.choice(data)) for _ in range(3)]
            keys = some(near) if r.random() < 0.8 else some(near) + far
            d[kind] = {k: labels([n.lower() for n in PAIRS]) for k in keys}
    return d


def ill_formed(r, view, d):
    """(description, copy of the dictionary with one defect)."""
    d = {k: {q: dict(v) for q, v in e.items()} for k, e in d.items()}
    n, s, top = view.n, len(view.stabs), view.n + len(view.stabs) + len(view.logs)
    data, stab, log = range(n), range(n, n + s), range(n + s, top)
    none = (-1, top, top + 1, -n, -top, 10 ** 6)

    def put(kind, key, val):
        items = list(d.get(kind, {}).items())
        items.insert(r.randrange(len(items) + 1), (key, val))
        d[kind] = dict(items)
        return f"{kind}: {key!r}: {val}"
    how = r.choice(("role", "role", "pair", "pair", "kind", "label", "label", "key"))
    if how == "kind":
        k = r.choice(("Pauli", "x", "X", "erasures", "gate", "measurements", "cx", "CY", "S", "h",
                      "T", "", "E_PAULI", "DEPOLARIZE"))
        d[k] = r.choice(({}, {0: {"p": 0.1}}, {r.choice(stab): {"x": 0.1}}))
        return f"unknown kind {k!r}", d
    if how == "role":
        k = r.choice(("pauli", "erasure", "measurement", *ONE))
        right = data if k in ("pauli", "erasure") else stab
        wrong = r.choice((stab if right is data else data, log, none))
        val = {"p": 0.1} if k in ("erasure", "measurement") else {r.choice("xyz"): 0.1}
        return put(k, r.choice(wrong), r.choice((val, val, {}))), d
    if how == "pair":
        k = r.choice(TWO)
        a, b = r.choice(stab), r.choice(data)
        near = [(n + i, q) for i, t in enumerate(view.stabs) for q in data
                if (t[0] | t[1]) >> q & 1]
        x, y = r.choice(near)
        key = r.choice(((b, a), (y, x), (a, r.choice(stab)), (b, r.choice(data)), (a,),
                        (a, b, b), (r.choice(none), b), (a, r.choice(none)),
                        (r.choice(log), b), (a, r.choice(log))))
        return put(k, key, {r.choice(PAIRS).lower(): 0.1}), d
    if how == "key":
        k = r.choice(("pauli", "erasure", "measurement", *ONE, *TWO))
        i = r.choice(data if k in ("pauli", "erasure") else stab)
        val = {"p": 0.1} if k in ("erasure", "measurement") else \
            {"x": 0.1} if k not in TWO else {"xi": 0.1}
        key = r.choice((str(i), i + 0.5, (i,), None)) if k not in TWO else \
            r.choice((i, str(i), (str(i), 0), (i, 0.5), (i, None)))
        return put(k, key, val), d
    k = r.choice(("pauli", "erasure", "measurement", *ONE, *TWO))
    if k in TWO:
        key = (r.choice(stab), r.choice(data))
        bad = r.choice(("x", "XX", "Xi", "p", "ii", "xw", "xxx", "", "z", "ZI"))
    elif k in ("erasure", "measurement"):
        key = r.choice(data if k == "erasure" else stab)
        bad = r.choice(("P", "x", "prob", "", "q"))
    else:
        key = r.choice(data if k == "pauli" else stab)
        bad = r.choice(("X", "i", "I", "p", "xx", "w", "", "Z"))
    val = dict(d.get(k, {}).get(key, {}))
    val[bad] = r.choice((0.1, 0.0, 1e-9))
    d.setdefault(k, {})[key] = val
    return f"{k}: {key!r}: label {bad!r}", d
