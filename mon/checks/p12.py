"""P12: every bundled or user-defined code is a valid stabiliser code."""
from mon import qec
from mon.core import W

RULE = ("all bundled codes of many sizes and random or well-known user-defined codes; commutation "
        "and rank are computed on bit masks read from the reported operators, the distance by "
        "syndrome tables of all errors up to half of it, lattice/numbering/operator agreement on "
        "the object graph; validity checks and comparisons against randomly damaged codes; "
        "non-trivial = distinct codes and distinct damages")
ASSUMPTIONS = ["sizes below 2 (3 for repetition) have no generators and are not codes",
               "operators of a lattice carry no sign"]
MINIMA = {"codes": 150, "distances": 14, "verdicts": 300, "comparisons": 300, "choices": 300}

ALL = ([("repetition", s, False) for s in range(3, 44, 2)] + [("planar", s, False) for s in range(2, 13)]
       + [("rotated", s, x) for s in range(2, 15) for x in (False, True)]
       + [("toric", s, False) for s in range(2, 11)] + [("five", 0, False), ("shor", 0, False)])
PARAMS = {"repetition": lambda s: (s, 1), "planar": lambda s: (s * s + (s - 1) ** 2, 1),
          "rotated": lambda s: (s * s, 1), "toric": lambda s: (2 * s * s, 2),
          "five": lambda s: (5, 1), "shor": lambda s: (9, 1)}
NSTAB = {"repetition": lambda s: s - 1, "planar": lambda s: 2 * s * (s - 1),
         "rotated": lambda s: s * s - 1, "toric": lambda s: 2 * s * s,
         "five": lambda s: 4, "shor": lambda s: 8}


def bundled(c):
    kind, size, xzzx = ALL[c.index % len(ALL)]
    code = qec.bundled(kind, size, c.rng.randrange(1, 5), xzzx)
    label = f"{kind} {size}{' xzzx' if xzzx else ''}"
    v = qec.View(code)
    n, k = PARAMS[kind](size)
    c.check((v.n, v.k) == (n, k), "parameters", f"{label}: [[{v.n},{v.k}]], not [[{n},{k}]]")
    c.check((code.n_data_qubits, code.n_logical_qubits) == (n, k), "parameters",
            f"{label}: reported numbers of qubits")
    c.check(len(v.stabs) == NSTAB[kind](size), "generators", f"{label}: {len(v.stabs)} generators")
    bad = v.problem()
    c.check(bad is None, "invalid", lambda: f"{label}: {bad}")
    code.check()
    code.check(rank=True)
    bad = qec.lattice_problem(code)
    c.check(bad is None, "lattice", lambda: f"{label}: {bad}")
    d = {"five": 3, "shor": 3}.get(kind, size)
    lightest = min(map(qec.weight, v.logs))
    if kind == "repetition":
        d, lightest = size, qec.weight(v.logs[0])
    c.check(lightest >= d, "distance", f"{label}: logical operator of weight {lightest}")
    limit = 5 if c.tier == "quick" else 7
    kinds = "X" if kind == "repetition" else "XYZ"
    if d <= limit or kind == "repetition" and d <= 11:
        bad = qec.distance_problem(v, d, kinds)
        c.check(bad is None, "distance", lambda: f"{label}: {bad}")
        if kind not in ("five", "shor"):
            c.check(lightest == d, "distance", f"{label}: no listed logical operator of weight {d}")
        c.ev("distances")
    # a second instance is the same code, another size is not
    c.check(code == qec.bundled(kind, size, 1, xzzx), "equality", f"{label} differs from itself")
    other = ALL[c.rng.randrange(len(ALL))]
    c.check((code == qec.bundled(other[0], other[1], 1, other[2])) == (other == (kind, size, xzzx)),
            "equality", f"{label} and {other} compare wrongly")
    c.ev("comparisons", 2)
    c.ev("codes")
    c.sig(label)
    c.show(code=label, n=v.n, k=v.k, generators=len(v.stabs))


def user(c):
    """Codes defined from operators reproduce them."""
    import numpy as np
    from plaquette.codes import StabilizerCode
    r = c.rng
    for _ in range(3):
        if r.random() < 0.3:
            s, lo = qec.KNOWN_OPS[r.choice(sorted(qec.KNOWN_OPS))]
        else:
            n = r.randrange(1, 12)
            k = r.randrange(1, n) if n > 1 else 1
            if n == 1:
                continue
            s, lo = qec.rand_ops(r, n, k, y_free=r.random() < 0.5)
        n = len(s[0])
        rounds = r.randrange(1, 6)
        code = qec.from_ops(s, lo, rounds)
        v = qec.View(code)
        c.check([qec.letters(o, n) for o in v.stabs] == list(s), "operators",
                lambda: f"{[qec.letters(o, n) for o in v.stabs]} instead of {s}")
        c.check([qec.letters(o, n) for o in v.logs] == list(lo), "operators",
                lambda: f"{[qec.letters(o, n) for o in v.logs]} instead of {lo}")
        c.check((v.n, v.k, code.n_rounds) == (n, len(lo) // 2, rounds), "parameters", "wrong")
        bad = qec.lattice_problem(code)
        c.check(bad is None, "lattice", lambda: f"{s} {lo}: {bad}")
        assert v.problem() is None, (s, lo, v.problem())
        code.check(rank=True)
        plain = StabilizerCode([qec.row(o) for o in s], [qec.row(o) for o in lo])
        c.check(plain == code and code == plain, "equality", f"{s} {lo} differs from itself")
        c.check([qec.masks(x) for x in plain.logical_x] == v.logs[::2]
                and [qec.masks(x) for x in plain.logical_z] == v.logs[1::2], "logical-order", "")
        c.check(all(np.array_equal(a, b) for a, b in zip(plain.stabilisers, code.stabilisers)),
                "operators", "rows differ")
        c.ev("codes")
        c.ev("comparisons", 2)
        c.sig(tuple(s), tuple(lo))


def _damage(r, s, lo):
    s, lo = list(s), list(lo)
    n = len(s[0])
    how = r.choice(("sign", "letter", "letter", "swap", "drop", "double", "swap-logical", "replace",
                    "lletter", "none", "reorder"))

    def mut(o):
        q = r.randrange(n)
        return o[:q] + r.choice("IXYZ".replace(o[q], "")) + o[q + 1:]
    if how == "letter":
        i = r.randrange(len(s))
        s[i] = mut(s[i])
    elif how == "lletter":
        i = r.randrange(len(lo))
        lo[i] = mut(lo[i])
    elif how == "swap" and len(s) > 1:
        i, j = r.sample(range(len(s)), 2)
        s[i], s[j] = s[j], s[i]
    elif how == "drop" and len(s) > 1:
        s.pop(r.choice((0, -1, r.randrange(len(s)))))
    elif how == "double":
        s.append(r.choice(s))
    elif how == "swap-logical":
        i, j = r.sample(range(len(lo)), 2)
        lo[i], lo[j] = lo[j], lo[i]
    elif how == "replace" and len(s) > 1:
        i, j = r.sample(range(len(s)), 2)
        s[i] = s[j]
    elif how == "reorder":
        r.shuffle(lo)
    return how, s, lo


def verdicts(c):
    """check() and == on damaged codes."""
    from plaquette.codes import StabilizerCode
    r = c.rng
    if r.random() < 0.4:
        _, code = qec.pick(r, 13, rounds=1)
        v = qec.View(code)
        s = [qec.letters(o, v.n) for o in v.stabs]
        lo = [qec.letters(o, v.n) for o in v.logs]
    elif r.random() < 0.3:
        s, lo = qec.KNOWN_OPS[r.choice(sorted(qec.KNOWN_OPS))]
    else:
        n = r.randrange(2, 8)
        s, lo = qec.rand_ops(r, n, r.randrange(1, n), y_free=False)
    orig = StabilizerCode([qec.row(o) for o in s], [qec.row(o) for o in lo])
    for _ in range(4):
        how, s2, lo2 = _damage(r, s, lo)
        rows, lrows = [qec.row(o) for o in s2], [qec.row(o) for o in lo2]
        if how == "sign" and len(s2) > 1:  # a generator instead of another, with the other sign
            i, j = r.sample(range(len(s2)), 2)
            rows[i], s2[i] = rows[j].copy(), s2[j]
            rows[i][-1] ^= 1
        code = StabilizerCode(rows, lrows)
        v = qec.View(code)
        for rk in (False, True):
            bad = v.problem(need_rank=rk)
            if how == "sign" and rk and bad is None:
                continue  # an operator and its negative among dependent generators
            try:
                code.check(rank=rk)
                said = None
            except AssertionError as e:
                said = f"{e}"
            c.check((bad is None) == (said is None), "verdict",
                    lambda: f"check(rank={rk}) says {said!r}, but {bad!r}: {s2} {lo2}")
            c.ev("verdicts")
        same = (list(s), list(lo)) == (s2, lo2)
        c.check((orig == code) is same and (code == orig) is same
                and (orig != code) is not same, "equality",
                lambda: f"{how}: {s} {lo} == {s2} {lo2} is {orig == code}, {code == orig}")
        c.ev("comparisons", 2)
        c.sig(how, tuple(s2), tuple(lo2))
    c.check((orig == "code") is False and (orig != 3) is True, "equality", "equal to other types")


def choices(c):
    """Logical operator choices."""
    r = c.rng
    if r.random() < 0.5:
        label, code = qec.pick(r, 18, rounds=1)
    else:
        label, code = qec.user_code(r, 1)
    k = code.n_logical_qubits
    for _ in range(4):
        sel = [r.randrange(2) for _ in range(k)]
        s = "".join("XZ"[i] for i in sel)
        got = code.logical_ops_to_indices(s)
        c.check(list(got) == [2 * q + i for q, i in enumerate(sel)], "choice", f"{s}: {got}")
        idx = [2 * q + i for q, i in enumerate(sel)]
        r.shuffle(idx)
        c.check(list(code.logical_ops_to_indices(idx)) == idx, "choice", f"{idx}")
        c.ev("choices", 2)
        pos = r.randrange(k)
        for bad in (s + r.choice("XZ"), s[:-1], s[:pos] + r.choice("YIxz0 ") + s[pos + 1:], "",
                    idx + [0], idx[:-1], [*idx[:pos], 2 * k, *idx[pos + 1:]],
                    [*idx[:pos], -1, *idx[pos + 1:]], [*idx[:pos], -2 * k, *idx[pos + 1:]]):
            c.refuses(lambda: code.logical_ops_to_indices(bad), "choice-accepted",
                      f"{label}: {bad!r}")
            c.ev("choices")
        c.sig(label, s)
    from plaquette.circuit.generator import generate_qec_circuit
    q = r.randrange(k)
    if k == 1:
        return
    other = [i for i in range(2 * k) if i // 2 != q]
    bad = r.sample(other, k - 2) + [2 * q, 2 * q + 1]
    r.shuffle(bad)
    for anc in (False, True):
        c.refuses(lambda: generate_qec_circuit(code, {}, {}, bad, logical_ancilla=anc),
                  "choice-accepted", f"{label}: anticommuting operators {bad}")


WORKLOADS = [
    W("bundled", bundled, len(ALL), len(ALL)),
    W("user", user, 120, 4000),
    W("verdicts", verdicts, 150, 5000),
    W("choices", choices, 80, 2000),
]
