"""P03: Clifford gates on stabiliser states against conjugation tables taken from matrices."""
import numpy as np

from mon import ref
from mon.core import W

RULE = ("random stabiliser states (library tableau built by the monitor) and gate programs; "
        "after every gate the stabiliser group with signs must equal the reference group and the "
        "tableau must be complete and paired; non-trivial = distinct (gate, qubits, local letters "
        "it acted on) combination that changed the group")
ASSUMPTIONS = ["conjugation tables computed numerically from the unitaries",
               "a state is its signed stabiliser group; destabiliser signs are not observable"]
MINIMA = {"gates": 2000, "changed": 500}
NAMES = {"X": ("x",), "Y": ("y",), "Z": ("z",), "H": ("hadamard", "h"), "S": ("phase_gate",),
         "CX": ("control_not_gate", "cx"), "CZ": ("control_phase_gate", "cz")}


def _same(c, tab, st, what):
    prob = ref.tableau_problem(tab, st.n)
    c.check(prob is None, "tableau", lambda: f"after {what}: {prob}")
    c.check(ref.tableau_state(tab).canonical() == st.canonical(), "state",
            lambda: f"after {what}: library {_txt(ref.tableau_state(tab))}, "
                    f"exact {_txt(st)}")


def _txt(st):
    return [("-" if p[2] else "+") + ref.letters(p, st.n) for p in st.canonical()]


def _call(c, fn, tab, qs_lists):
    """Call with an int where possible, or with one of the sequence types."""
    args = []
    for qs in qs_lists:
        r = c.rng.random()
        if len(qs) == 1 and r < 0.6:
            args.append(qs[0])
        elif r < 0.8:
            args.append(list(qs))
        else:
            args.append(tuple(qs))
    return fn(tab, *args)


def program(c, n, depth, every=True, multi=True):
    from plaquette import pauli
    st, _ = ref.rand_state(c.rng, n)
    gens = list(st.g)
    for _ in range(n):
        if n > 1 and c.rng.random() < 0.5:
            i, j = c.rng.sample(range(n), 2)
            gens[i] = ref.mul(gens[i], gens[j])
    st = ref.State(n, gens)
    tab = ref.to_tableau(st)
    c.show(n=n, start=_txt(st), depth=depth)
    for step in range(depth):
        g = c.rng.choice(tuple(NAMES))
        if g in ("CX", "CZ") and n < 2:
            g = "H"
        fn = getattr(pauli, c.rng.choice(NAMES[g]))
        if g in ("CX", "CZ"):
            m = c.rng.choice((1, 1, 2, 3)) if multi else 1
            pairs = [tuple(c.rng.sample(range(n), 2)) for _ in range(m)]
            before = st.canonical() if every else None
            for a, b in pairs:
                st.gate(g, a, b)
            tab = _call(c, fn, tab, [[a for a, _ in pairs], [b for _, b in pairs]])
            what = f"{g} {pairs}"
        else:
            m = c.rng.choice((1, 1, 2, 3)) if multi else 1
            qs = [c.rng.randrange(n) for _ in range(m)]
            before = st.canonical() if every else None
            for q in qs:
                st.gate(g, q)
            if m > 1 and g in "XYZ" and c.rng.random() < 0.3:
                tab = fn(tab, np.array(qs))
            else:
                tab = _call(c, fn, tab, [qs])
            what = f"{g} {qs}"
        c.ev("gates", m)
        if every:
            _same(c, tab, st, what)
            if st.canonical() != before:
                c.ev("changed")
                c.sig(g, m, min(n, 6), hash(tuple(before)) & 1023 if n < 3 else tuple(what))
    _same(c, tab, st, "the program")
    c.sig("program", n, depth, tuple(st.canonical()[:2]))


def small(c):
    program(c, c.rng.randrange(1, 7), c.rng.randrange(4, 16))


def exhaustive(c):
    """Every gate on every two-qubit signed Pauli generator pair (via one-qubit pieces)."""
    from plaquette import pauli
    gates = [("X", 1), ("Y", 1), ("Z", 1), ("H", 1), ("S", 1), ("CX", 2), ("CZ", 2)]
    g, k = gates[c.index % len(gates)]
    flip = c.index // len(gates) % 2
    for code in range(1, 16):
        for sgn in (0, 2):
            p = (code & 3, code >> 2, sgn)
            other = next(o for o in ((a, b, 2 * (code & 1)) for a in range(4) for b in range(4))
                         if (o[0], o[1]) not in ((0, 0), p[:2]) and not ref.anti(o, p))
            st = ref.State(2, [p, other])
            tab = ref.to_tableau(st)
            qs = ((0, 1), (1, 0))[flip][:k]
            st.gate(g, *qs)
            tab = getattr(pauli, NAMES[g][0])(tab, *qs)
            c.ev("gates")
            c.ev("changed")
            _same(c, tab, st, f"{g} {qs} on {p}")
            c.check(ref.from_row(tab[2]) in (st.g[0], st.g[1], ref.mul(*st.g)),
                    "conjugation", f"{g} {qs} on {p}")
            c.sig("ex", g, qs, p)


def large(c):
    program(c, c.rng.randrange(20, 90), c.rng.randrange(100, 300), every=False)


def refused(c):
    from plaquette import pauli
    n = c.rng.randrange(2, 6)
    st, _ = ref.rand_state(c.rng, n)
    q = n + c.rng.randrange(0, 4)
    for g in ("X", "Y", "Z"):
        tab = ref.to_tableau(st)
        c.refuses(lambda: getattr(pauli, NAMES[g][0])(tab, q), "out-of-range",
                  f"{g} on qubit {q} of {n}")
    for g in ("CX", "CZ"):
        tab = ref.to_tableau(st)
        c.refuses(lambda: getattr(pauli, NAMES[g][0])(tab, [0, 1], [1]), "length-mismatch",
                  f"{g} with two controls and one target")
    c.sig("refused", n, q)


WORKLOADS = [
    W("small", small, 500, 15000),
    W("exhaustive", exhaustive, 14, 14),
    W("large", large, 24, 300),
    W("refused", refused, 20, 100),
]
