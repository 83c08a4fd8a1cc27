"""Reference models, independent of the library: Pauli operators and stabiliser states.

A Pauli is (x, z, k): i**k times the tensor product of letters, where qubit q carries
I/X/Y/Z according to bit q of the masks x and z (Y = both bits, the Hermitian Y).
"""
import itertools

import numpy as np

LET = "IXZY"  # index x + 2*z
MAT = {"I": np.eye(2), "X": np.array([[0, 1], [1, 0]]),
       "Y": np.array([[0, -1j], [1j, 0]]), "Z": np.diag([1, -1])}


def letter(p, q):
    return LET[(p[0] >> q & 1) + 2 * (p[1] >> q & 1)]


def from_letters(s, k=0):
    x = z = 0
    for q, ch in enumerate(s):
        x |= (ch in "XY") << q
        z |= (ch in "ZY") << q
    return (x, z, k % 4)


def letters(p, n):
    return "".join(letter(p, q) for q in range(n))


def mul(a, b):
    x, z = a[0] ^ b[0], a[1] ^ b[1]
    k = ((a[0] & a[1]).bit_count() + (b[0] & b[1]).bit_count() - (x & z).bit_count()
         + 2 * (a[1] & b[0]).bit_count() + a[2] + b[2])
    return (x, z, k % 4)


def anti(a, b):
    """1 if a and b anticommute."""
    return ((a[0] & b[1]).bit_count() + (a[1] & b[0]).bit_count()) & 1


def weight(p):
    return (p[0] | p[1]).bit_count()


def dense(p, n):
    m = np.array([[1.0 + 0j]])
    for q in range(n):
        m = np.kron(m, MAT[letter(p, q)])
    return (1j ** p[2]) * m


def to_row(p, n):
    """Library layout of a Hermitian Pauli: x bits, z bits, sign bit."""
    assert p[2] in (0, 2)
    r = np.zeros(2 * n + 1, dtype="u1")
    for q in range(n):
        r[q] = p[0] >> q & 1
        r[n + q] = p[1] >> q & 1
    r[-1] = p[2] // 2
    return r


def from_row(row):
    row = np.asarray(row)
    if row.ndim != 1 or row.size % 2 != 1:
        raise ValueError(f"not an operator row: shape {row.shape}")
    v = [int(b) for b in row]
    if any(b not in (0, 1) for b in v):
        raise ValueError(f"operator row with entries other than 0/1: {v}")
    n = len(v) // 2
    x = sum(b << q for q, b in enumerate(v[:n]))
    z = sum(b << q for q, b in enumerate(v[n:2 * n]))
    return (x, z, 2 * v[-1])


def rand_pauli(rng, n, weight_p=0.75, sign=True):
    x = z = 0
    for q in range(n):
        if rng.random() < weight_p:
            t = rng.randrange(4)
            x |= (t & 1) << q
            z |= (t >> 1) << q
    return (x, z, 2 * rng.randrange(2) if sign else 0)


# ---------------------------------------------------------------- gates, from matrices
_H = np.array([[1, 1], [1, -1]]) / np.sqrt(2)
_S = np.diag([1, 1j])
_CX = np.array([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]])
_CZ = np.diag([1, 1, 1, -1])
UNITARY = {"X": MAT["X"], "Y": MAT["Y"], "Z": MAT["Z"], "H": _H, "S": _S, "CX": _CX,
           "CZ": _CZ}


def _table(u):
    m = int(np.log2(len(u)))
    t = {}
    paulis = list(itertools.product(range(4), repeat=m))
    mats = {}
    for c in paulis:
        mm = np.array([[1.0 + 0j]])
        for i in c:
            mm = np.kron(mm, MAT[LET[i]])
        mats[c] = mm
    for c in paulis:
        img = u @ mats[c] @ u.conj().T
        for d in paulis:
            v = np.trace(mats[d].conj().T @ img) / len(u)
            if abs(abs(v) - 1) < 1e-9:
                t[c] = (d, 0 if v.real > 0 else 2)
                break
    assert len(t) == 4 ** m
    return t


TABLE = {g: _table(u) for g, u in UNITARY.items()}


def conj(p, gate, qs):
    """U p U^dagger for gate on the qubits qs (one or two)."""
    x, z, k = p
    src = tuple((x >> q & 1) + 2 * (z >> q & 1) for q in qs)
    dst, dk = TABLE[gate][src]
    for q, d in zip(qs, dst):
        x = x & ~(1 << q) | (d & 1) << q
        z = z & ~(1 << q) | (d >> 1) << q
    return (x, z, (k + dk) % 4)


def canon(rows, n):
    """Reduced echelon form (with signs) of the group generated by commuting rows."""
    rows = list(rows)
    out = []
    for bit in [(0, q) for q in range(n)] + [(1, q) for q in range(n)]:
        piv = next((r for r in rows if r[bit[0]] >> bit[1] & 1), None)
        if piv is None:
            continue
        rows.remove(piv)
        rows = [mul(r, piv) if r[bit[0]] >> bit[1] & 1 else r for r in rows]
        out = [mul(r, piv) if r[bit[0]] >> bit[1] & 1 else r for r in out]
        out.append(piv)
    return sorted(out), rows  # rest rows are (multiples of) the identity


class State:
    """n-qubit stabiliser state held as signed generators."""

    def __init__(self, n, gens=None):
        self.n = n
        self.g = list(gens) if gens is not None else [(0, 1 << q, 0) for q in range(n)]

    def copy(self):
        return State(self.n, self.g)

    def gate(self, name, *qs):
        self.g = [conj(p, name, qs) for p in self.g]

    def pauli(self, p):
        self.g = [(a[0], a[1], (a[2] + 2 * anti(a, p)) % 4) for a in self.g]

    def value(self, p):
        """+1/-1 if p is fixed by the state, 0 if undetermined."""
        if any(anti(a, p) for a in self.g):
            return 0
        can, _ = canon(self.g, self.n)
        r = p
        for c in can:
            bit = (0, (c[0] & -c[0]).bit_length() - 1) if c[0] else (
                1, (c[1] & -c[1]).bit_length() - 1)
            if r[bit[0]] >> bit[1] & 1:
                r = mul(r, c)
        assert r[0] == 0 and r[1] == 0 and r[2] in (0, 2), (p, r)
        return 1 if r[2] == 0 else -1

    def project(self, p, outcome):
        """Project on eigenvalue (-1)**outcome of p, which must be undetermined."""
        p = (p[0], p[1], (p[2] + 2 * outcome) % 4)
        i = next(i for i, a in enumerate(self.g) if anti(a, p))
        piv = self.g[i]
        self.g = [mul(a, piv) if j != i and anti(a, p) else a for j, a in enumerate(self.g)]
        self.g[i] = p

    def canonical(self):
        can, rest = canon(self.g, self.n)
        assert not any(r[2] for r in rest)
        return can

    def drop(self, qs):
        """Discard qubits that are in a product state with the rest."""
        qs = sorted(qs)
        gens = self.g
        for q in qs:  # qubit q is fixed by some single-qubit letter
            for ch in "XYZ":
                b = from_letters("I" * q + ch)
                v = State(self.n, gens).value(b)
                if v:
                    b = (b[0], b[1], 0 if v == 1 else 2)
                    gens = [mul(a, b) if (a[0] >> q & 1, a[1] >> q & 1) != (0, 0) else a
                            for a in gens]
                    break
            else:
                raise AssertionError("qubit entangled")
        can, _ = canon(gens, self.n)
        keep = [q for q in range(self.n) if q not in qs]

        def shrink(p):
            x = sum((p[0] >> q & 1) << i for i, q in enumerate(keep))
            z = sum((p[1] >> q & 1) << i for i, q in enumerate(keep))
            return (x, z, p[2])
        return State(len(keep), [shrink(p) for p in can])


def rand_state(rng, n, depth=None):
    """Reference state plus the gate list that prepares it."""
    s = State(n)
    prog = rand_gates(rng, n, depth if depth is not None else rng.randrange(0, 6 * n + 4))
    for g, qs in prog:
        s.gate(g, *qs)
    return s, prog


def rand_gates(rng, n, depth, names=("X", "Y", "Z", "H", "H", "S", "CX", "CX", "CZ")):
    prog = []
    for _ in range(depth):
        g = rng.choice(names)
        if g in ("CX", "CZ"):
            if n < 2:
                continue
            prog.append((g, tuple(rng.sample(range(n), 2))))
        else:
            prog.append((g, (rng.randrange(n),)))
    return prog


# ------------------------------------------------------- oracles over library tableaus
def tableau_problem(tab, n=None):
    """None if tab is a complete, consistently paired stabiliser description."""
    tab = np.asarray(tab)
    if tab.ndim != 2 or tab.shape[1] % 2 != 1 or tab.shape[0] != tab.shape[1] - 1:
        return f"bad tableau shape {tab.shape}"
    m = tab.shape[0] // 2
    if n is not None and m != n:
        return f"tableau has {m} qubits, expected {n}"
    try:
        rows = [from_row(r) for r in tab]
    except ValueError as e:
        return str(e)
    d, s = rows[:m], rows[m:]
    for i in range(m):
        for j in range(m):
            if i < j and anti(s[i], s[j]):
                return f"stabilisers {i} and {j} anticommute"
            if anti(d[i], s[j]) != (i == j):
                return f"destabiliser {i} and stabiliser {j}: commutation wrong"
    return None  # independence follows from the pairing


def tableau_state(tab):
    tab = np.asarray(tab)
    m = tab.shape[0] // 2
    return State(m, [from_row(r) for r in tab[m:]])


def to_tableau(state, destab=None):
    """Library tableau for a reference state (destabilisers by elimination)."""
    n = state.n
    d = destab if destab is not None else destabilisers(state.g, n)
    return np.array([to_row((p[0], p[1], 0), n) for p in d]
                    + [to_row(p, n) for p in state.g], dtype="u1").reshape(2 * n, 2 * n + 1)


def destabilisers(gens, n):
    """Paulis d_i with d_i anticommuting with gens[i] only, mutually commuting."""
    out = []
    for i in range(len(gens)):
        v = solve_commutation(gens, [int(i == j) for j in range(len(gens))], n)
        out.append(v)
    for i in range(len(out)):  # make them commute mutually by multiplying with gens
        for j in range(i):
            if anti(out[i], out[j]):
                out[i] = mul(out[i], gens[j])
        out[i] = (out[i][0], out[i][1], 0)
    return out


def solve_commutation(gens, rhs, n):
    """Some Pauli whose commutation with gens[j] is rhs[j] (1 = anticommutes)."""
    rows = [((g[1]) | (g[0] << n), r) for g, r in zip(gens, rhs)]  # acts on (x | z<<n)
    piv = []
    for col in range(2 * n):
        r = next((i for i in range(len(piv), len(rows)) if rows[i][0] >> col & 1), None)
        if r is None:
            continue
        k = len(piv)
        rows[k], rows[r] = rows[r], rows[k]
        for i in range(len(rows)):
            if i != k and rows[i][0] >> col & 1:
                rows[i] = (rows[i][0] ^ rows[k][0], rows[i][1] ^ rows[k][1])
        piv.append(col)
    if any(r[1] for r in rows[len(piv):]):
        return None
    v = 0
    for k, col in enumerate(piv):
        v |= rows[k][1] << col
    return (v & ((1 << n) - 1), v >> n, 0)


def gf2_rank(vecs):
    basis = {}
    for v in vecs:
        while v:
            h = v.bit_length()
            if h in basis:
                v ^= basis[h]
            else:
                basis[h] = v
                break
    return len(basis)


def in_span(vecs, v):
    return gf2_rank(list(vecs) + [v]) == gf2_rank(vecs)


def symp(p, n):
    return p[0] | p[1] << n
