"""P21: decoders correct every error and erasure pattern within the code distance."""
import itertools

from mon import dec, qec
from mon.core import W

RULE = ("bundled codes of distance 2 to 7 (and small user-defined codes), uniform rates or no "
        "weights, every decoder: all patterns of up to floor((d-1)/2) bit or phase flips of small "
        "codes, random ones of larger codes at any rounds, readout faults included, and random "
        "and exhaustive erasures of up to d-1 qubits with any errors on them; the error times the "
        "correction must commute with every logical operator; non-trivial = distinct (code, "
        "rounds, decoder, weighted, pattern)")
ASSUMPTIONS = ["readout rate at least the rate of a data fault when readout faults occur with "
               "weights (otherwise likely readout faults may outweigh data faults)",
               "the repetition code has a distance for bit flips only",
               "PyMatching does not support erasures"]
MINIMA = {"patterns": 8000, "erasure_patterns": 1500, "readout_patterns": 500,
          "full_weight": 3000, "exhausted": 10}

D = {"repetition": lambda s: s, "planar": lambda s: s, "rotated": lambda s: s,
     "toric": lambda s: s, "five": lambda s: 3, "shor": lambda s: 3}


def _tables(r, view, readout):
    """Uniform rates in random forms; None for no table."""
    p = r.choice((0.003, 0.01, 0.05, 0.1, 0.2))
    n, ns = view.n, len(view.stabs)
    one = r.choice(({"x": p, "y": p, "z": p}, {"x": p, "z": p}, {"y": p},
                    {"x": p, "y": p / 2, "z": p}))
    total = max(one.get("x", 0) + one.get("y", 0), one.get("z", 0) + one.get("y", 0))
    tab = {"pauli": {q: dict(one) for q in range(n)}}
    if readout:
        pm = min(0.45, total * r.choice((1, 1, 1.5)))
        tab["measurement"] = {n + i: {"p": pm} for i in range(ns)}
    if r.random() < 0.4:
        tab["erasure"] = {q: {"p": 0.1} for q in range(n)}
    return tab


def build(r, code, view, name, weighted=None, readout=True):
    weighted = name != "UnionFindNoWeights" and (r.random() < 0.5 if weighted is None else weighted)
    tab = _tables(r, view, readout)
    return weighted, dec.build(name, code, tab, weighted=weighted)


def judge(c, what, d, g, faults, logs, era=None):
    import numpy as np
    view = g.view
    syn = g.syn_mask(faults)
    corr = qec.masks(dec.quiet(d.decode, era, g.array(np, syn)))
    tot = qec.mul(corr, g.data(faults))
    c.check(view.syndrome(tot) == (0,) * len(view.stabs), "explains", lambda: f"{what}: faults "
            f"{faults}: correction {qec.letters(corr, view.n)} does not explain the syndrome")
    c.check(not any(qec.anti(view.logs[i], tot) for i in logs), "logical-error",
            lambda: f"{what}: faults {faults}"
            f"{'' if era is None else ' erased ' + str(np.argwhere(era).tolist())} are "
            f"'corrected' with {qec.letters(corr, view.n)}, which changes a logical value")
    c.ev("erasure_patterns" if era is not None else "patterns")
    if any(f.kind == "M" for f in faults):
        c.ev("readout_patterns")


def _logs(label, view):
    """Logical operators that the code protects: bit flips only change the repetition code's Z."""
    if label[0] == "repetition":
        x = [i for i in range(len(view.logs)) if view.logs[i][1] and not view.logs[i][0]]
        return x
    return range(len(view.logs))


def _kinds(label, kinds):
    return kinds.replace("Z", "") if label[0] == "repetition" else kinds


def random_patterns(c):
    import numpy as np
    r = c.rng
    label, code = qec.pick(r, 85)
    view = qec.View(code)
    d = D[label[0]](label[1])
    g = dec.Graph(view, code.n_rounds)
    logs = _logs(label, view)
    for name in dec.DECODERS:
        readout = g.rounds > 1
        weighted, dc = build(r, code, view, name, readout=readout)
        what = f"{label} {name} {'weighted' if weighted else 'unweighted'}"
        for _ in range(10):
            kinds = _kinds(label, r.choice(("X", "Z", "XM", "ZM")))
            if not kinds.strip("M"):
                kinds = "X" + kinds
            t = (d - 1) // 2
            k = t if r.random() < 0.8 else r.randrange(t + 1)
            fs = dec.random_faults(r, g, k, kinds)
            if r.random() < 0.4 and k:  # along a logical operator: the hardest ones
                lo = view.logs[r.choice(list(logs))]
                cand = [f for f in g.faults if f.kind in kinds.strip("M") and
                        (lo[0] | lo[1]) >> f.idx & 1]
                fs = r.sample(cand, min(k, len(cand)))
                fs = list({(f.kind, f.idx): f for f in fs}.values())
            judge(c, what, dc, g, fs, logs)
            if len(fs) == t and t:
                c.ev("full_weight")
            c.sig(label, name, weighted, tuple(sorted(f.key for f in fs)))
            if name in dec.ERASURE:
                m = d - 1 if r.random() < 0.8 else r.randrange(d)
                qs = r.sample(range(view.n), min(m, view.n))
                if r.random() < 0.4:
                    lo = view.logs[r.choice(list(logs))]
                    sup = [q for q in range(view.n) if (lo[0] | lo[1]) >> q & 1]
                    qs = r.sample(sup, min(m, len(sup)))
                _erase(c, r, np, what, dc, g, label, qs, logs)
    c.show(setup=f"{label} distance {d}")


def _erase(c, r, np, what, dc, g, label, qs, logs):
    era = np.zeros((g.rounds, g.view.n), dtype=bool)
    fs = []
    for q in qs:
        for rd in {r.randrange(g.rounds), r.randrange(g.rounds)}:
            era[rd, q] = True
            fs += [g.by_key[k, rd, q] for k in _kinds(label, "XZ") if r.random() < 0.5]
    judge(c, what, dc, g, fs, logs, era)
    c.sig(what, era.tobytes(), tuple(sorted(f.key for f in fs)))


SMALL = [("repetition", 3), ("repetition", 5), ("repetition", 7), ("planar", 2), ("planar", 3),
         ("rotated", 2), ("rotated", 3), ("rotated", 4), ("toric", 2), ("toric", 3), ("five", 0),
         ("shor", 0), ("rotated", 5)]


def exhaustive(c):
    """All patterns of small codes."""
    import numpy as np
    r = c.rng
    kind, size = SMALL[c.index % len(SMALL)]
    name = dec.DECODERS[c.index // len(SMALL) % 4]
    weighted = bool(c.index // len(SMALL) // 4 % 2)
    if weighted and name == "UnionFindNoWeights":
        return
    rounds = 1 if kind in ("rotated", "repetition") and size >= 5 else r.choice((1, 2))
    label = (kind, size, rounds, kind == "rotated" and r.random() < 0.5)
    code = qec.bundled(*label)
    view = qec.View(code)
    d = D[kind](size)
    g = dec.Graph(view, rounds)
    logs = _logs(label, view)
    weighted, dc = build(r, code, view, name, weighted, rounds > 1)
    what = f"{label} {name} {'weighted' if weighted else 'unweighted'}"
    for ch in _kinds(label, "XZ"):
        fs = [f for f in g.faults if f.kind in (ch, "M")]
        for k in range((d - 1) // 2 + 1):
            todo = list(itertools.combinations(fs, k))
            if len(todo) > 700:
                todo = r.sample(todo, 700)
            for pat in todo:
                judge(c, what, dc, g, pat, logs)
                if k == (d - 1) // 2:
                    c.ev("full_weight")
    c.ev("exhausted")
    c.sig("exhaustive", label, name, weighted)
    if name not in dec.ERASURE:
        return
    for k in range(1, min(d, 4)):
        todo = list(itertools.combinations(range(view.n), k))
        for qs in r.sample(todo, min(len(todo), 150)):
            for _ in range(2):
                _erase(c, r, np, what, dc, g, label, qs, logs)


def user(c):
    """Small user-defined codes; their distance is found by enumeration."""
    import numpy as np
    r = c.rng
    for _ in range(60):
        label, code, view = dec.setup(r, 40, user=1.0)
        d = next((w for w in range(1, view.n + 1) for e in qec.errors(view.n, w)
                  if not any(view.syndrome(e)) and any(qec.anti(e, lo) for lo in view.logs)), 1)
        if d >= 2:
            break
    else:
        return
    g = dec.Graph(view, code.n_rounds)
    logs = range(len(view.logs))
    for name in dec.DECODERS:
        weighted, dc = build(r, code, view, name, readout=g.rounds > 1)
        what = f"{label} distance {d} {name} {'weighted' if weighted else 'unweighted'}"
        for _ in range(4):
            judge(c, what, dc, g, dec.random_faults(r, g, (d - 1) // 2, r.choice(("XM", "ZM"))),
                  logs)
            if name in dec.ERASURE:
                _erase(c, r, np, what, dc, g, label, r.sample(range(view.n), d - 1), logs)


WORKLOADS = [
    W("random_patterns", random_patterns, 160, 5000),
    W("exhaustive", exhaustive, 104, 416),
    W("user", user, 30, 800),
]
