"""P02: notations of operators and states round trip; malformed ones are refused."""
import itertools

import numpy as np

from mon import ref
from mon.core import W

RULE = ("random signed operators (0-weight to full, 1-1700 qubits) through all four notations and "
        "back; random stabiliser states (GHZ, graph, random Clifford, Y-type, permuted and "
        "remixed generators) through strings to tableaus; malformed strings, dictionaries and "
        "generator sets; non-trivial = distinct (conversion, size, weight class, sign)")
ASSUMPTIONS = ["operators are compared as bit masks read from the documented row layout"]
MINIMA = {"round_trips": 500, "states": 100, "refusals": 200}


def _short(c, p, n):
    """An independently written short form, shuffled, with optional separators."""
    qs = [q for q in range(n) if ref.letter(p, q) != "I"]
    c.rng.shuffle(qs)
    sep = c.rng.choice(("", " ", "_"))
    s = sep.join(ref.letter(p, q) + str(q) for q in qs)
    return ("-" if p[2] else c.rng.choice(("", "+"))) + c.rng.choice(("", " ")) + s


def _dense(c, p, n):
    s = list(ref.letters(p, n))
    if c.rng.random() < 0.3:
        for _ in range(c.rng.randrange(1, 4)):
            s.insert(c.rng.randrange(len(s) + 1), c.rng.choice(" _"))
    return ("-" if p[2] else c.rng.choice(("", "+"))) + "".join(s)


def operators(c):
    from plaquette import pauli
    n = c.rng.choice((1, 2, 3, c.rng.randrange(1, 13), c.rng.randrange(9, 131)))
    if c.rng.random() < 0.03:
        n = c.rng.randrange(131, 1700)
    w = c.rng.choice((0.0, 0.1, 0.75, 1.0))
    p = ref.rand_pauli(c.rng, n, w)
    row = ref.to_row(p, n)
    keep = row.copy()
    txt = ("-" if p[2] else "+") + ref.letters(p, n)
    c.show(n=n, operator=txt[:60])

    def same(got, what, total=n):
        got = np.asarray(got)
        c.ev("round_trips")
        c.check(got.shape == (2 * total + 1,) and ref.from_row(got) == p, what,
                lambda: f"{txt} ({n} qubits) became {got.tolist()}")
    # library text and back
    s = pauli.pauli_to_string(row)
    c.check(s.replace(" ", "").lstrip("+") == txt.lstrip("+"), "to-string", f"{txt} -> {s!r}")
    same(pauli.string_to_pauli(s), "dense-round-trip")
    s = pauli.pauli_to_string(row, show_identities=False)
    items = s[1:].split()
    c.check(s[0] == txt[0] and sorted(items) == sorted(
        ref.letter(p, q) + str(q) for q in range(n) if ref.letter(p, q) != "I"),
        "to-short-string", f"{txt} -> {s!r}")
    same(pauli.string_to_pauli(s, n), "short-round-trip")
    d = pauli.pauli_to_dict(row)
    c.check(dict(d) == {q: ref.letter(p, q) for q in range(n) if ref.letter(p, q) != "I"},
            "to-dict", f"{txt} -> {d}")
    back = ref.from_row(pauli.dict_to_pauli(d, n))
    c.check(back == (p[0], p[1], 0), "dict-round-trip", f"{txt} -> {d} -> {back}")
    # text written independently
    same(pauli.string_to_pauli(_dense(c, p, n)), "dense-string")
    same(pauli.string_to_pauli(_dense(c, p, n), n), "dense-string-n")
    big = n + c.rng.randrange(0, 9)
    same(pauli.string_to_pauli(_dense(c, p, n), big), "dense-string-larger", big)
    same(pauli.string_to_pauli(_short(c, p, n), n), "short-string")
    same(pauli.string_to_pauli(_short(c, p, n), big), "short-string-larger", big)
    items = [(q, ref.letter(p, q)) for q in range(n)
             if ref.letter(p, q) != "I" or c.rng.random() < 0.3]
    c.rng.shuffle(items)
    g = ref.from_row(pauli.dict_to_pauli(dict(items), big))
    c.check(g == (p[0], p[1], 0), "dict", f"{items} -> {g}")
    top = max((q for q in range(n) if ref.letter(p, q) != "I"), default=None)
    if top is not None:
        g = pauli.string_to_pauli(_short(c, p, n))
        c.check(g.size == 2 * (top + 1) + 1 and ref.from_row(g) == p, "short-inferred",
                f"{txt}: {g.tolist()}")
    c.check(np.array_equal(row, keep), "input-modified", f"{txt}: conversion changed its input")
    c.sig("op", min(n, 14), w, p[2], top is None)


def refused_operators(c):
    from plaquette import pauli
    n = c.rng.randrange(1, 12)
    p = ref.rand_pauli(c.rng, n, 0.8)
    good = ref.letters(p, n)
    bad = c.rng.choice("ABCDxyzilKQ*.?!#Wéσ")
    i = c.rng.randrange(n + 1)
    s = c.rng.choice(("", "+", "-")) + good[:i] + bad + good[i:]
    c.refuses(lambda: pauli.string_to_pauli(s), "bad-character", f"string {s!r}")
    qs = [q for q in range(n) if ref.letter(p, q) != "I"]
    short = [ref.letter(p, q) + str(q) for q in qs]
    if short:
        j = c.rng.randrange(len(short) + 1)
        t = "".join(short[:j] + [bad + str(c.rng.randrange(20, 40))] + short[j:])
        c.refuses(lambda: pauli.string_to_pauli(t), "bad-character-short", f"string {t!r}")
        t2 = "".join(short[:j] + [bad] + short[j:])
        c.refuses(lambda: pauli.string_to_pauli(t2), "bad-character-short", f"string {t2!r}")
        t3 = c.rng.choice("XYZ") + "".join(short)
        c.refuses(lambda: pauli.string_to_pauli(t3), "mixed-forms", f"string {t3!r}")
        small = c.rng.randrange(0, qs[-1] + 1)
        c.refuses(lambda: pauli.string_to_pauli("".join(short), small), "too-few-qubits",
                  f"{short} on {small} qubits")
        d = {q: ref.letter(p, q) for q in qs}
        c.refuses(lambda: pauli.dict_to_pauli(d, small), "too-few-qubits",
                  f"{d} on {small} qubits")
        d2 = dict(d)
        d2[c.rng.choice(qs)] = c.rng.choice(["A", "x", "XX", "W", "?"])
        c.refuses(lambda: pauli.dict_to_pauli(d2, n), "bad-character-dict", f"{d2}")
    if n > 1:
        small = c.rng.randrange(1, n)
        c.refuses(lambda: pauli.string_to_pauli(good, small), "too-few-qubits",
                  f"{good} on {small} qubits")
    c.refuses(lambda: pauli.single_qubit_pauli_operator(
        c.rng.choice(["A", "x", "W", "+", "-", "XA"]), 0, n), "bad-single", "bad operator")
    c.refuses(lambda: pauli.single_qubit_pauli_operator("X", n + c.rng.randrange(3), n),
              "single-out-of-range", f"qubit >= {n}")
    c.sig("refuse", n, bad, i)


def _random_state(c):
    n = c.rng.randrange(1, 8) if c.rng.random() < 0.9 else c.rng.randrange(8, 20)
    kind = c.rng.choice(("clifford", "clifford", "ghz", "graph", "product"))
    if kind == "clifford":
        st, _ = ref.rand_state(c.rng, n, c.rng.randrange(0, 8 * n))
    elif kind == "ghz":
        st = ref.State(n)
        st.gate("H", 0)
        for q in range(1, n):
            st.gate("CX", c.rng.randrange(q), q)
        for g, qs in ref.rand_gates(c.rng, n, c.rng.randrange(4), ("S", "X", "Z", "Y")):
            st.gate(g, *qs)
    elif kind == "graph":
        st = ref.State(n)
        for q in range(n):
            st.gate("H", q)
        for a, b in itertools.combinations(range(n), 2):
            if c.rng.random() < 0.5:
                st.gate("CZ", a, b)
    else:
        st = ref.State(n, [ref.from_letters("I" * q + c.rng.choice("XYZ"),
                                            2 * c.rng.randrange(2)) for q in range(n)])
    gens = list(st.g)
    for _ in range(c.rng.randrange(0, 3 * n)):  # other generators of the same group
        if n > 1:
            i, j = c.rng.sample(range(n), 2)
            gens[i] = ref.mul(gens[i], gens[j])
    c.rng.shuffle(gens)
    return n, kind, gens


def _text(c, p, n, forms=True):
    if forms and c.rng.random() < 0.3:
        return _short(c, p, n)
    return ("-" if p[2] else c.rng.choice(("", "+"))) + ref.letters(p, n)


def states(c):
    from plaquette import pauli
    n, kind, gens = _random_state(c)
    forms = c.rng.random() < 0.4
    txt = [_text(c, p, n, forms) for p in gens]
    kw = dict(qubits=n) if forms or c.rng.random() < 0.3 else {}
    keep = list(txt)
    c.show(n=n, kind=kind, stabilisers=txt)
    if c.rng.random() < 0.3:
        d = ref.destabilisers(gens, n)
        d = [ref.mul(p, (0, 0, 2 * c.rng.randrange(2))) for p in d]
        tab = pauli.string_to_state(txt, [_text(c, p, n, forms) for p in d], **kw)
        c.check([ref.from_row(r) for r in tab[:n]] == d, "given-destabilisers",
                f"{d} became {tab[:n].tolist()}")
        c.ev("given_destabilisers")
    else:
        tab = pauli.string_to_state(txt, **kw)
    prob = ref.tableau_problem(tab, n)
    c.check(prob is None, "tableau", f"{txt}: {prob}")
    c.check([ref.from_row(r) for r in tab[n:]] == gens, "state-generators",
            lambda: f"{txt}: rows {tab[n:].tolist()}")
    c.check(txt == keep, "input-modified", "string list changed")
    ds, ss = pauli.state_to_stabiliser_string(tab, True)
    again = pauli.string_to_state(ss, ds)
    c.check(np.array_equal(again, tab), "state-round-trip", f"{ss} {ds}")
    _, sh = pauli.state_to_stabiliser_string(tab, False)
    c.check([ref.from_row(pauli.string_to_pauli(s, n)) for s in sh] == gens,
            "state-short-strings", f"{sh}")
    c.ev("states")
    c.sig("state", kind, n, tuple(sorted(gens)) if n < 5 else len(set(gens)))


def refused_states(c):
    from plaquette import pauli
    n, kind, gens = _random_state(c)
    txt = [_text(c, p, n, False) for p in gens]
    d = ref.destabilisers(gens, n)
    dt = [_text(c, p, n, False) for p in d]
    c.refuses(lambda: pauli.string_to_state(txt, dt[:-1] if n > 1 else dt * 2),
              "destabiliser-count", f"{txt} with {len(dt[:-1])} destabilisers")
    i = c.rng.randrange(n)
    bad = list(d)  # destabiliser that commutes with its own stabiliser
    bad[i] = gens[c.rng.randrange(n)]
    c.refuses(lambda: pauli.string_to_state(txt, [_text(c, p, n, False) for p in bad]),
              "destabiliser-pairing", f"{txt}, {bad}")
    if n > 1:
        i, j = c.rng.sample(range(n), 2)
        # generator i replaced by one that anticommutes with generator j
        g2 = list(gens)
        g2[i] = ref.mul(gens[i], d[j])
        g2[i] = (g2[i][0], g2[i][1], 0)
        t2 = [_text(c, p, n, False) for p in g2]
        c.refuses(lambda: pauli.string_to_state(t2), "noncommuting", f"{t2}")
        c.refuses(lambda: pauli.string_to_state(t2, dt), "noncommuting", f"{t2} with {dt}")
        # destabiliser i anticommutes with another stabiliser j too
        d3 = list(d)
        d3[i] = ref.mul(d[i], d[j])
        d3[i] = (d3[i][0], d3[i][1], 0)
        t3 = [_text(c, p, n, False) for p in d3]
        c.refuses(lambda: pauli.string_to_state(txt, t3), "destabiliser-cross",
                  f"{txt} with {t3}")
    c.sig("refused-state", n, kind)


WORKLOADS = [
    W("operators", operators, 700, 20000),
    W("refused-operators", refused_operators, 250, 5000),
    W("states", states, 400, 9000),
    W("refused-states", refused_states, 150, 4000),
]
