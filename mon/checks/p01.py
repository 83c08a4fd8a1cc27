"""P01: Pauli operator algebra against an independent model and dense matrices."""
import itertools

import numpy as np

from mon import ref
from mon.core import W

RULE = ("random and exhaustive signed Pauli operators (1-300 qubits) through multiply, "
        "commutator_sign, apply_operator, tensor_product, pad_operator and count_qubits; each "
        "result is compared with an integer-phase Pauli model that is itself compared with "
        "dense matrices; non-trivial = distinct (function, shape, relation/phase) combination "
        "of non-identity operands")
ASSUMPTIONS = ["mon/ref.py multiplies Paulis correctly (cross-checked here with dense matrices)"]
MINIMA = {"products": 500, "commutators": 200}
PH = (1, 1j, -1, -1j)


def _near(a, b):
    return abs(complex(a) - complex(b)) < 1e-9


def _sizes(c):
    r = c.rng.random()
    if r < 0.75:
        return c.rng.randrange(1, 9)
    return c.rng.randrange(9, 70) if r < 0.9 else c.rng.randrange(100, 301)


def _own(c, res, *given):
    """The result belongs to the caller: keep its content, then overwrite the array itself.

    Later calls must not be affected by that."""
    arr = np.array(res, copy=True)
    if isinstance(res, np.ndarray) and res.flags.writeable and not any(
            np.shares_memory(res, g) for g in given if isinstance(g, np.ndarray)):
        res[...] = c.np.integers(0, 2, res.shape)
        c.ev("overwritten")
    return arr


def _freeze(arrs):
    return [np.array(a, copy=True) for a in arrs]


def _unchanged(c, arrs, copies, what):
    for a, b in zip(arrs, copies):
        c.check(a.shape == b.shape and np.array_equal(a, b), "input-modified",
                f"{what} changed its input {b.tolist()} to {a.tolist()}")


def _doublecount(ps, init):
    """Phase that the known defect produces: the sign of each partial product counts twice."""
    prod, phase = ps[-1], init
    first = True
    for a in reversed(ps[:-1]):
        b = (prod[0], prod[1], 0)
        e = ref.mul((a[0], a[1], 0), b)
        s = (a[2] // 2) ^ (prod[2] // 2)
        phase = phase * 1j ** e[2] * (-1) ** s
        neg = phase.imag < -1e-9 if abs(phase.imag) > 1e-9 else phase.real < 0
        prod = (e[0], e[1], 2 * int(neg))
        first = False
    assert not first
    return phase


def _product(c, ps, n, init, api):
    rows = [ref.to_row(p, n) for p in ps]
    keep = _freeze(rows)
    kw = {} if init == 1 and c.rng.random() < 0.5 else {"initial_phase": init}
    got, phase = api.multiply(*rows, **kw)
    c.ev("products")
    got = _own(c, got, *rows)
    _unchanged(c, rows, keep, "multiply")
    want = ps[0]
    for p in ps[1:]:
        want = ref.mul(want, p)
    wphase = init * 1j ** want[2]
    g = ref.from_row(got)
    c.check(g[:2] == want[:2], "product-operator",
            lambda: f"{[ref.letters(p, n) for p in ps]} gave {ref.letters(g, n)}, "
                    f"not {ref.letters(want, n)}")
    what = (f"{[('-' if p[2] else '+') + ref.letters(p, n) for p in ps]} initial {init}: "
            f"phase {phase}, exact {wphase}")
    if not _near(phase, wphase):
        if len(ps) > 2 and _near(phase, _doublecount(ps, init)):
            c.finding("multiply-many-partial-sign", what)
        else:
            c.fail("product-phase", what)
    elif abs(wphase.imag) < 1e-9 and len(ps) <= 2:
        c.check(int(got[-1]) == (wphase.real < 0), "product-sign-bit",
                f"sign bit {got[-1]}; {what}")
    if any(p[:2] != (0, 0) for p in ps):
        c.sig("mul", len(ps), min(n, 12), want[2], init, sum(p[2] for p in ps))


def multiply_random(c):
    from plaquette import pauli
    n = _sizes(c)
    for _ in range(12):
        m = c.rng.choice((1, 2, 2, 2, 2, 3, 4, 5))
        ps = [ref.rand_pauli(c.rng, n, c.rng.choice((0.3, 0.75, 1.0))) for _ in range(m)]
        if c.rng.random() < 0.15:
            ps[-1] = ps[0]
        init = c.rng.choice(PH) if c.rng.random() < 0.6 else 1
        c.show(n=n, operators=[ref.letters(p, n)[:20] for p in ps])
        _product(c, ps, n, complex(init), pauli)


def multiply_exhaustive(c):
    """All ordered pairs of signed one- and two-qubit operators, versus dense matrices too."""
    from plaquette import pauli
    n = 1 + c.index % 2
    ops = [ref.from_letters("".join(s), 2 * k)
           for s in itertools.product("IXYZ", repeat=n) for k in (0, 1)]
    shard = c.index // 2
    for i, (a, b) in enumerate(itertools.product(ops, ops)):
        if i % 8 != shard % 8:
            continue
        _product(c, [a, b], n, 1 + 0j, pauli)
        r, ph = pauli.multiply(ref.to_row(a, n), ref.to_row(b, n))
        lhs = ref.dense(a, n) @ ref.dense(b, n)
        g = ref.from_row(r)
        rhs = complex(ph) * ref.dense((g[0], g[1], 0), n)
        c.check(np.allclose(lhs, rhs), "product-dense",
                f"{ref.letters(a, n)}*{ref.letters(b, n)}: matrix product differs")
        cs = int(np.asarray(pauli.commutator_sign(ref.to_row(a, n), ref.to_row(b, n))))
        da, db = ref.dense(a, n), ref.dense(b, n)
        c.check(np.allclose(da @ db, (-1) ** cs * db @ da), "commutator-dense",
                f"{ref.letters(a, n)},{ref.letters(b, n)}: commutator_sign {cs}")
        c.ev("dense")


def multiply_heavy(c):
    """Operators whose phase exponent is large: hundreds of anticommuting positions."""
    from plaquette import pauli
    n = c.rng.randrange(90, 420)
    la, lb = c.rng.choice([("X", "Z"), ("Z", "X"), ("Y", "X"), ("X", "Y"), ("Z", "Y"),
                           ("Y", "Z")])
    noise = c.rng.choice((0.0, 0.02, 0.3))
    a = "".join(c.rng.choice("IXYZ") if c.rng.random() < noise else la for _ in range(n))
    b = "".join(c.rng.choice("IXYZ") if c.rng.random() < noise else lb for _ in range(n))
    pa, pb = (ref.from_letters(s, 2 * c.rng.randrange(2)) for s in (a, b))
    c.show(n=n, letters=la + lb, noise=noise)
    _product(c, [pa, pb], n, complex(c.rng.choice(PH)), pauli)
    c.ev("heavy")


def commutators(c):
    from plaquette import pauli
    n = _sizes(c)
    ka, kb = c.rng.randrange(1, 6), c.rng.randrange(1, 6)
    w = c.rng.choice((0.1, 0.75, 1.0))
    A = [ref.rand_pauli(c.rng, n, w) for _ in range(ka)]
    B = [ref.rand_pauli(c.rng, n, w) for _ in range(kb)]
    mode = c.rng.randrange(5)
    if mode == 0:
        A, B = A[:1], B[:1]
    elif mode == 1:
        A = A[:1]
    elif mode == 2:
        B = B[:1]

    def pack(X):
        rows = [ref.to_row(p, n) for p in X]
        if len(rows) == 1 and c.rng.random() < 0.7:
            return rows[0]
        return rows if c.rng.random() < 0.4 else np.array(rows)
    a, b = pack(A), pack(B)
    ca, cb = np.array(a, copy=True), np.array(b, copy=True)
    got = _own(c, pauli.commutator_sign(a, b), a, b)
    want = np.array([[ref.anti(p, q) for q in B] for p in A], dtype="u1")
    c.ev("commutators", want.size)
    c.check(got.size == want.size and np.array_equal(got.reshape(want.shape), want),
            "commutator", lambda: f"{[ref.letters(p, n)[:40] for p in A]} vs "
            f"{[ref.letters(p, n)[:40] for p in B]}: got {got.tolist()}, exact {want.tolist()}")
    c.check(got.shape == np.squeeze(want).shape, "commutator-shape",
            f"shape {got.shape} for {len(A)}x{len(B)} operators")
    c.check(np.array_equal(np.array(a), ca) and np.array_equal(np.array(b), cb),
            "input-modified", "commutator_sign changed its input")
    c.sig("comm", mode, min(n, 12), tuple(want.flatten()[:8]))
    c.show(n=n, first=ref.letters(A[0], n)[:40], second=ref.letters(B[0], n)[:40])
    # states, without destabilisers
    m = c.rng.randrange(1, 6)
    s1, _ = ref.rand_state(c.rng, m)
    s2, _ = ref.rand_state(c.rng, m)
    t1, t2 = ref.to_tableau(s1), ref.to_tableau(s2)
    got = np.asarray(pauli.commutator_sign(t1, t2, ignore_destabilisers=True))
    want = np.array([[ref.anti(p, q) for q in s2.g] for p in s1.g])
    c.check(got.size == want.size and np.array_equal(got.reshape(want.shape), want),
            "commutator-state", lambda: f"{s1.g} vs {s2.g}: {got.tolist()} not {want.tolist()}")


def apply_operator(c):
    from plaquette import pauli
    n = c.rng.randrange(1, 6)
    st, _ = ref.rand_state(c.rng, n)
    tab = ref.to_tableau(st)
    many = c.rng.random() < 0.5
    ps = [ref.rand_pauli(c.rng, n) for _ in range(2 * n if many else 1)]
    op = np.array([ref.to_row(p, n) for p in ps]) if many else ref.to_row(ps[0], n)
    keep = _freeze([op, tab])
    got = _own(c, pauli.apply_operator(op, tab), op, tab)
    _unchanged(c, [op, tab], keep, "apply_operator")
    c.check(got.shape == tab.shape, "apply-shape", f"{got.shape}")
    for i in range(2 * n):
        p = ref.mul(ps[i % len(ps)], ref.from_row(tab[i]))
        g = ref.from_row(got[i])
        c.check(g[:2] == p[:2] and (p[2] % 2 or g[2] == p[2]), "apply-operator",
                f"row {i}: {g}, product {p}")
    c.ev("applied", 2 * n)
    c.sig("apply", n, many, tuple(ps[:2]))
    bad = ref.to_row(ref.rand_pauli(c.rng, n + 1), n + 1)
    c.refuses(lambda: pauli.apply_operator(bad, tab), "apply-mismatch",
              f"{n + 1}-qubit operator on {n} qubits")
    c.refuses(lambda: pauli.multiply(op if not many else op[0], bad), "multiply-mismatch",
              "product of operators on different numbers of qubits")


def tensor_pad_count(c):
    from plaquette import pauli
    k = c.rng.randrange(1, 5)
    ns = [c.rng.randrange(1, 7) for _ in range(k)]
    ps = [ref.rand_pauli(c.rng, n) for n in ns]
    rows = [ref.to_row(p, n) for p, n in zip(ps, ns)]
    keep = _freeze(rows)
    got = ref.from_row(_own(c, pauli.tensor_product(*rows), *rows))
    x = z = s = off = 0
    for p, n in zip(ps, ns):
        x |= p[0] << off
        z |= p[1] << off
        s ^= p[2]
        off += n
    c.check(got == (x, z, s), "tensor", f"{[ref.letters(p, n) for p, n in zip(ps, ns)]} signs "
            f"{[p[2] for p in ps]} gave {ref.letters(got, off)} sign {got[2]}")
    _unchanged(c, rows, keep, "tensor_product")
    c.sig("tensor", tuple(ns), s)
    # product of states, generator by generator
    sts = [ref.rand_state(c.rng, c.rng.randrange(1, 5))[0] for _ in range(c.rng.randrange(2, 4))]
    tabs = [ref.to_tableau(s) for s in sts]
    kept = _freeze(tabs)
    exp, off, total = [], 0, sum(s.n for s in sts)
    for t in tabs:
        m = t.shape[1] // 2
        exp += [(half, off, row) for half, part in ((0, t[:m]), (1, t[m:])) for row in part]
        off += m
    exp = [(p[0] << off, p[1] << off, p[2])
           for _, off, p in sorted(((h, o, ref.from_row(row)) for h, o, row in exp),
                                   key=lambda e: e[:2])]
    out = [ref.from_row(row) for row in _own(c, pauli.tensor_product(*tabs), *tabs)]
    c.check(out == exp, "tensor-states", lambda: f"product of states {[t.tolist() for t in tabs]}: "
            f"{[(ref.letters(p, total), p[2]) for p in out]}")
    _unchanged(c, tabs, kept, "tensor_product of states")
    # padding
    n, total = ns[0], c.rng.randrange(1, 12)
    pad = _own(c, pauli.pad_operator(rows[0], total), rows[0])
    c.check(len(pad) == 2 * max(n, total) + 1 and ref.from_row(pad) == ps[0], "pad",
            f"{ref.letters(ps[0], n)} to {total} gave {pad.tolist()}")
    # counting
    c.check(list(pauli.count_qubits(rows[0])) == [n], "count", "number of qubits")
    c.check([int(v) for v in pauli.count_qubits(rows[0], include_identities=False)]
            == [ref.weight(ps[0])], "count-nontrivial", f"{ref.letters(ps[0], n)}")
    c.check([int(v) for v in pauli.count_qubits(rows)] == ns, "count-list", f"{ns}")
    c.check([int(v) for v in pauli.count_qubits(rows, include_identities=False)]
            == [ref.weight(p) for p in ps], "count-list-nontrivial",
            f"{[ref.letters(p, n) for p, n in zip(ps, ns)]}")
    st, _ = ref.rand_state(c.rng, n)
    tab = ref.to_tableau(st)
    c.check([int(v) for v in pauli.count_qubits(tab, include_identities=False)]
            == [ref.weight(ref.from_row(r)) for r in tab], "count-state", f"{tab.tolist()}")
    _unchanged(c, rows, keep, "pad/count")
    c.ev("tensor_pad_count")
    # single-qubit operators
    q, ch, sg = c.rng.randrange(n), c.rng.choice("XYZ"), c.rng.choice(("", "+", "-"))
    one = ref.from_row(_own(c, pauli.single_qubit_pauli_operator(sg + ch, q, n)))
    c.check(one == ref.from_letters("I" * q + ch, 2 * (sg == "-")), "single-qubit",
            f"{sg}{ch} on {q} of {n}: {one}")


WORKLOADS = [
    W("multiply", multiply_random, 400, 12000),
    W("exhaustive", multiply_exhaustive, 16, 16),
    W("heavy", multiply_heavy, 120, 4000),
    W("commutators", commutators, 500, 15000),
    W("apply", apply_operator, 100, 3000),
    W("tensor", tensor_pad_count, 300, 8000),
]
