"""P05: changing the number of qubits of a state."""
import numpy as np

from mon import ref
from mon.core import W

RULE = ("random stabiliser states; append/insert at every kind of position (single, several, "
        "repeated, both ends), tensor products of up to four states, destructive X/Z measurement "
        "of one to all-but-one qubits in any order with free or requested outcomes; the result "
        "must be the reference state and a complete tableau; non-trivial = distinct (operation, "
        "size, positions/outcomes)")
ASSUMPTIONS = ["several insert positions follow numpy.insert: indices of the original qubits"]
MINIMA = {"inserted": 150, "joined": 80, "removed": 200}


def _txt(st):
    return [("-" if p[2] else "+") + ref.letters(p, st.n) for p in st.canonical()]


def _state(c, lo=1, hi=6):
    n = c.rng.randrange(lo, hi + 1)
    st, _ = ref.rand_state(c.rng, n)
    g = list(st.g)
    for _ in range(n):
        if n > 1 and c.rng.random() < 0.5:
            i, j = c.rng.sample(range(n), 2)
            g[i] = ref.mul(g[i], g[j])
    c.rng.shuffle(g)
    return ref.State(n, g)


def _ok(c, tab, st, what):
    prob = ref.tableau_problem(tab, st.n)
    c.check(prob is None, "tableau", lambda: f"{what}: {prob}")
    got = ref.tableau_state(tab)
    c.check(got.canonical() == st.canonical(), "state",
            lambda: f"{what}: library {_txt(got)}, exact {_txt(st)}")


def _embed(st, order):
    """order: list with old qubit index or None (new |0>) per new position."""
    where = {o: i for i, o in enumerate(order) if o is not None}

    def mv(p):
        x = sum((p[0] >> o & 1) << i for o, i in where.items())
        z = sum((p[1] >> o & 1) << i for o, i in where.items())
        return (x, z, p[2])
    return ref.State(len(order), [mv(p) for p in st.g]
                     + [(0, 1 << i, 0) for i, o in enumerate(order) if o is None])


def insert(c):
    from plaquette import pauli
    st = _state(c) if c.rng.random() < 0.95 else _state(c, 14, 24)
    n = st.n
    tab = ref.to_tableau(st)
    mode = c.rng.choice(("append", "one", "one", "list1", "many", "many"))
    if mode == "append":
        pos, arg = [n], None
    elif mode in ("one", "list1"):
        pos = [c.rng.choice((0, n, c.rng.randrange(n + 1)))]
        arg = pos[0] if mode == "one" else pos
    else:
        pos = [c.rng.randrange(n + 1) for _ in range(c.rng.randrange(2, 5))]
        arg = pos if c.rng.random() < 0.6 else c.rng.choice((tuple, np.array))(pos)
    keep = tab.copy()
    out = pauli.append_qubit(tab) if arg is None else pauli.insert_qubit_at(tab, arg)
    c.check(np.array_equal(keep, tab), "input-modified", "insertion changed its input")
    order = []
    for q in range(n + 1):
        order += [None] * pos.count(q)
        if q < n:
            order.append(q)
    exp = _embed(st, order)
    what = f"{mode} at {pos} into {_txt(st)}"
    _ok(c, out, exp, what)
    # the result is usable: entangle a new qubit and measure it
    new = order.index(None)
    out = pauli.x(out, new)
    exp.gate("X", new)
    other = next((i for i, o in enumerate(order) if o is not None), None)
    if other is not None:
        out = pauli.cx(out, new, other)
        exp.gate("CX", new, other)
    _ok(c, out, exp, what + " and gates")
    c.ev("inserted", len(pos))
    c.sig("insert", mode, n, tuple(pos))
    c.show(mode=mode, n=n, positions=pos, state=_txt(st))


def insert_refused(c):
    from plaquette import pauli
    st = _state(c, 1, 4)
    tab = ref.to_tableau(st)
    p = st.n + c.rng.randrange(1, 4)
    c.refuses(lambda: pauli.insert_qubit_at(tab, p), "position", f"position {p} of {st.n}")
    c.refuses(lambda: pauli.insert_qubit_at(tab, [0, p]), "position", f"position {p} of {st.n}")
    c.refuses(lambda: pauli.insert_qubit_at(tab[0], 0), "operator", "insertion into an operator")
    c.sig("refused", st.n, p)


def join(c):
    from plaquette import pauli
    k = c.rng.randrange(1, 5)
    sts = [_state(c, 1, 4) for _ in range(k)]
    tabs = [ref.to_tableau(s) for s in sts]
    keep = [t.copy() for t in tabs]
    out = pauli.tensor_product(*tabs)
    n = sum(s.n for s in sts)
    gens, off = [], 0
    for s in sts:
        gens += [(p[0] << off, p[1] << off, p[2]) for p in s.g]
        off += s.n
    _ok(c, out, ref.State(n, gens), f"join of {[_txt(s) for s in sts]}")
    c.check(all(np.array_equal(a, b) for a, b in zip(tabs, keep)), "input-modified",
            "tensor_product changed its input")
    c.ev("joined")
    c.sig("join", tuple(s.n for s in sts), tuple(gens[:2]))
    if k > 1:
        c.refuses(lambda: pauli.tensor_product(tabs[0], tabs[1][0]), "mixed",
                  "product of a state and an operator")


def remove(c):
    from plaquette import pauli
    st = _state(c, 2, 7) if c.rng.random() < 0.93 else _state(c, 16, 26)
    n = st.n
    tab = ref.to_tableau(st)
    b = c.rng.choice("XZ")
    fn = {"X": pauli.measure_x_base, "Z": pauli.measure_z_base}[b]
    k = c.rng.randrange(1, n)
    ts = c.rng.sample(range(n), k)
    forced = c.rng.choice((None, None, 0, 1, "list"))
    if forced == "list":
        forced = [c.rng.choice((0, 1, None)) for _ in ts]
    kw = {} if forced is None else {"forced_outcomes": forced}
    arg = ts[0] if k == 1 and c.rng.random() < 0.5 else ts
    out, res = fn(tab, arg, destructive=True, **kw)
    res = [int(res)] if k == 1 else [int(r) for r in res]
    what = f"destructive {b} measurement of {ts} (forced {forced}) gave {res} on {_txt(st)}"
    c.check(len(res) == k and set(res) <= {0, 1}, "outcomes", what)
    exp = st.copy()
    fl = forced if isinstance(forced, list) else [forced] * k
    rnd = 0
    ps = [ref.from_letters("I" * t + b) for t in ts]
    for i in range(k):
        v = exp.value(ps[i])
        if v:
            c.check(res[i] == (v < 0), "certain-outcome", what)
        else:
            rnd += 1
            exp.project(ps[i], res[i])
    for i in range(k):  # random whatever the order: must follow the request
        other = st.copy()
        for j in range(k):
            if j != i and other.value(ps[j]) == 0:
                other.project(ps[j], res[j])
        if fl[i] is not None and other.value(ps[i]) == 0:
            c.check(res[i] == fl[i], "forced-outcome", what)
    _ok(c, out, exp.drop(ts), what)
    # go on with the smaller state
    out, m = pauli.measure(out, ref.to_row(ref.from_letters("Y"), n - k))
    d = exp.drop(ts)
    v = d.value(ref.from_letters("Y"))
    c.check(v == 0 or int(m) == (v < 0), "later-outcome", what)
    if v == 0:
        d.project(ref.from_letters("Y"), int(m))
    _ok(c, out, d, what + " and a further measurement")
    c.ev("removed", k)
    c.sig("remove", b, n, tuple(ts), rnd)
    c.show(base=b, n=n, targets=ts, outcomes=res, state=_txt(st))


WORKLOADS = [
    W("insert", insert, 300, 8000),
    W("insert-refused", insert_refused, 30, 300),
    W("join", join, 200, 4000),
    W("remove", remove, 400, 12000),
]
