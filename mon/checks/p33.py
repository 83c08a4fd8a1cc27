"""P33: estimated logical failure rates are those of the configured noise."""
import contextlib
import io
import itertools
import math
import warnings

from mon import dec, qec, stats
from mon.checks import p32
from mon.core import W

RULE = ("whole experiments (error table, generated circuit, device, unpacking, decoder, verdict; also "
        "through the configuration interface) with thousands of shots; their numbers of logical "
        "failures are compared with exact probabilities found without the library's circuits and "
        "simulators: convolution of all faults of the error table over syndromes and logical "
        "changes, with the decoder's answer for every syndrome and erasure pattern; the majority "
        "vote and the best possible decoder of repetition codes in closed form; one half to the "
        "power of the number of logical operators hidden in the erased qubits; for larger codes "
        "the probability that half the distance of faults happens; syndromes and logical changes "
        "of the shots against the same distributions; circuits with gate errors against the "
        "faults of their instructions; non-trivial = distinct (code, noise, decoder, device)")
ASSUMPTIONS = ["alarms only where a correct tree would show the observed number with a probability "
               "below 1e-11",
               "probabilities of gate errors are taken from the instructions of the generated "
               "circuit (P16 decides whether they are the configured ones)",
               "decoders are asked once for the answer to every syndrome (P23: answers do not "
               "depend on the history)"]
MINIMA = {"shots": 60000, "decoded": 15000, "failures": 2000, "exact_rates": 40, "erased_shots": 3000,
          "bounded": 8, "distributions": 40, "closed_forms": 20}
QUICK_S = 200


def _quiet(f, *a, **k):
    with warnings.catch_warnings(), contextlib.redirect_stderr(io.StringIO()):
        warnings.simplefilter("ignore")
        return f(*a, **k)


# ------------------------------------------------------------------------------- exact side
class Exact:
    """Distribution over (syndrome bits, logical changes) of independent faults."""

    def __init__(self, np, bits):
        self.np, self.ids = np, np.arange(1 << bits)
        self.v = np.zeros(1 << bits)
        self.v[0] = 1.0

    def mix(self, options):
        """options: [(probability, mask)] besides nothing."""
        rest = 1.0 - sum(p for p, _ in options)
        new = rest * self.v
        for p, m in options:
            if p:
                new = new + p * self.v[self.ids ^ m]
        self.v = new

    def copy(self):
        e = object.__new__(Exact)
        e.np, e.ids, e.v = self.np, self.ids, self.v
        return e


def effect(view, idx, rounds, t, e):
    """Mask of syndrome changes and logical changes of data error e before round t."""
    ns = len(view.stabs)
    m = 0
    for g, s in enumerate(view.stabs):
        m |= qec.anti(s, e) << t * ns + g
    for j, i in enumerate(idx):
        m |= qec.anti(view.logs[i], e) << rounds * ns + j
    return m


PA = (("x", lambda q: (1 << q, 0)), ("y", lambda q: (1 << q, 1 << q)), ("z", lambda q: (0, 1 << q)))


def by_table(np, view, idx, rounds, tab):
    """[(probability of the erasure pattern, pattern, distribution)]."""
    ns = len(view.stabs)
    base = Exact(np, rounds * ns + len(idx))
    era = []
    for t in range(rounds):
        for q in range(view.n):
            eff = {k: effect(view, idx, rounds, t, f(q)) for k, f in PA}
            base.mix([(p, eff[k]) for k, p in tab.get("pauli", {}).get(q, {}).items()])
            p = tab.get("erasure", {}).get(q, {}).get("p", 0.0)
            if p:
                era.append((t, q, p, list(eff.values())))
        for g in range(ns):
            p = tab.get("measurement", {}).get(view.n + g, {}).get("p", 0.0)
            if t and p:
                base.mix([(p, 1 << (t - 1) * ns + g | 1 << t * ns + g)])
    out = []
    for flags in itertools.product((0, 1), repeat=len(era)):
        w, d = 1.0, base.copy()
        for f, (_, _, p, eff) in zip(flags, era):
            w *= p if f else 1 - p
            if f:
                d.mix([(0.25, m) for m in eff])
        out.append((w, frozenset((t, q) for f, (t, q, _, _) in zip(flags, era) if f), d.v))
    return out


def random_table(r, view, rounds, era):
    """Error table with erasures at no more than `era` places of qubits and rounds."""
    top = r.choice((0.02, 0.08, 0.2))
    tab = {}
    kinds = r.choice(("xyz", "xyz", "x", "z", "y", "xz"))
    if r.random() < 0.85:
        tab["pauli"] = {q: {k: r.uniform(0.1, 1) * top for k in kinds} for q in range(view.n)
                        if r.random() < 0.9}
    if rounds > 1 and r.random() < 0.8:
        tab["measurement"] = {view.n + g: {"p": r.uniform(0, 1) * top}
                              for g in range(len(view.stabs)) if r.random() < 0.9}
    if era and (r.random() < 0.5 or not tab):
        m = min(view.n, max(1, era // rounds))
        tab["erasure"] = {q: {"p": 0.0} for q in range(view.n)}
        for q in r.sample(range(view.n), m):
            tab["erasure"][q]["p"] = r.uniform(0.1, 0.7)
    if not tab:
        tab["pauli"] = {q: {"x": top, "z": top} for q in range(view.n)}
    return tab


class Pipeline:
    """The library's way from a circuit to verdicts."""

    def __init__(self, c, code, view, arg, idx, anc, ci, decoder, device):
        from plaquette import Device
        self.c, self.code, self.view = c, code, view
        self.arg, self.idx, self.anc = arg, idx, anc
        self.ci, self.decoder, self.dev = ci, decoder, Device(device)
        self.ns = len(view.stabs)

    def shot(self):
        raw, era = qec.sample(self.dev, self.ci)
        s = qec.unpack(self.code, raw, era, self.arg, self.anc)
        self.c.ev("shots")
        return s

    def verdict(self, s):
        from plaquette.decoders.decoderbase import check_success
        fix = dec.quiet(self.decoder.decode, s.erased_qubits, s.syndrome)
        ok = bool(check_success(self.code, fix, s.logical_op_toggle, self.arg))
        self.c.ev("decoded")
        self.c.ev("failures", not ok)
        return ok

    def bits(self, s):
        """(mask of syndrome and toggles, erased places)."""
        m = sum(int(b) << i for i, b in enumerate(s.syndrome.ravel()))
        m |= sum(int(b) << s.syndrome.size + j for j, b in enumerate(s.logical_op_toggle))
        e = frozenset() if s.erased_qubits is None else frozenset(
            (t, q) for t, row in enumerate(s.erased_qubits) for q, b in enumerate(row) if b)
        return m, e

    def fixes(self, np, syn, erased, rounds):
        """Predicted logical changes of the decoder's answer."""
        s = np.array([syn >> i & 1 for i in range(rounds * self.ns)], dtype=bool)
        e = None
        if erased is not None:
            e = np.zeros((rounds, self.view.n), dtype=bool)
            for t, q in erased:
                e[t, q] = True
        fix = qec.masks(dec.quiet(self.decoder.decode, e, s.reshape(rounds, self.ns)))
        return sum(qec.anti(self.view.logs[i], fix) << j for j, i in enumerate(self.idx))


def judge(c, np, pipe, patterns, flagged, rounds, n_real, n_more, what):
    """Failure rate and distribution of shots against the exact ones."""
    ns = pipe.ns
    low = (1 << rounds * ns) - 1
    table = {}
    fail = lost = 0.0
    total = np.zeros_like(patterns[0][2])
    for w, erased, v in patterns:
        total += w * v
        joint = v.reshape(-1, low + 1)        # [logical changes, syndrome]
        marg = joint.sum(axis=0)
        for syn in np.flatnonzero(marg > 1e-9):
            p = pipe.fixes(np, int(syn), erased if flagged else None, rounds)
            table[erased, int(syn)] = p
            fail += w * (marg[syn] - joint[p, syn])
        lost += w * marg[marg <= 1e-9].sum()
    fails, hist = 0, {}
    for i in range(n_real + n_more):
        s = pipe.shot()
        m, e = pipe.bits(s)
        hist[m] = hist.get(m, 0) + 1
        if i < n_real or (e, m & low) not in table:
            fails += not pipe.verdict(s)
        else:
            fails += table[e, m & low] != m >> rounds * ns
    n = n_real + n_more
    lo, hi = max(0.0, fail - 1e-9), min(1.0, fail + lost + 1e-9)
    c.check(not (stats.off(fails, n, lo) and stats.off(fails, n, hi)), "rate",
            lambda: f"{what}: {fails} of {n} shots fail, exact probability {fail:.6f}")
    c.ev("exact_rates")
    # every bit, every parity of two bits and of everything
    keys = np.array(list(hist), dtype=np.int64)
    cnt = np.array(list(hist.values()))
    ids = np.arange(len(total))
    b = len(total).bit_length() - 1
    masks = [1 << i for i in range(b)] + [1 << i | 1 << j for i in range(b) for j in range(i)]
    masks.append((1 << b) - 1)

    def parity(a, m):
        a = a & m
        for s in (32, 16, 8, 4, 2, 1):
            a = a ^ a >> s
        return a & 1
    for m in masks:
        p = float(total[parity(ids, m) == 1].sum())
        k = int(cnt[parity(keys, m) == 1].sum())
        c.check(not stats.off(k, n, min(max(p, 0.0), 1.0)), "distribution",
                lambda: f"{what}: parity of bits {m:b} (logical changes, syndrome) is odd {k} times "
                f"of {n}, exact probability {p:.6f}")
    c.check(all(total[m] > 0 for m in hist), "impossible",
            lambda: f"{what}: records {[m for m in hist if not total[m] > 0][:3]} cannot happen")
    c.ev("distributions")


def small(r, bits, user=0.35, rounds=(1, 1, 2, 2, 3)):
    """Setup with at most so many syndrome and logical bits."""
    while True:
        R = r.choice(rounds)
        if r.random() < user:
            label, code = qec.user_code(r, R)
        else:
            label, code = qec.pick(r, 20, ("repetition", "planar", "rotated", "toric", "five",
                                           "shor"), R)
        view = qec.View(code)
        if len(view.stabs) * R + view.k > bits or dec.Graph(view, 1).max_ends > 2:
            continue
        arg, idx = qec.choice(r, view)
        anc = r.random() < 0.4 or not qec.readable(view, idx)
        return label, code, view, arg, idx, anc, R


def tables(c):
    """Noise of an error table: exact failure rate with every decoder."""
    import numpy as np
    r = c.rng
    many = r.random() < 0.25
    label, code, view, arg, idx, anc, R = small(r, 13, .35, (5, 6)) if many else small(r, 11)
    name = r.choice(dec.DECODERS)
    places = min(5, 12 - R * len(view.stabs))   # every pattern is decoded with every syndrome
    if name == "PyMatchingDecoder" or places < R:
        places = 0
    tab = random_table(r, view, R, places)
    c.show(code=label, table=tab, decoder=name, logical=arg)
    weighted = r.random() < 0.5 and name != "UnionFindNoWeights"
    if weighted and R > 1:     # readout errors that are not listed count as impossible
        tab["measurement"] = {view.n + g: {"p": 0.0} | tab.get("measurement", {}).get(view.n + g, {})
                              for g in range(len(view.stabs))}
        for v in tab["measurement"].values():
            v["p"] = v["p"] or 0.01
    pats = by_table(np, view, idx, R, tab)
    d = dec.build(name, code, tab, weighted=weighted)
    ci = qec.generate(code, tab, {}, arg, anc)
    device = r.choice(("stim", "stim", "stim", "clifford")) if c.tier == "quick" else \
        r.choice(("stim", "clifford"))
    more = 3000 if device == "stim" else 100
    pipe = Pipeline(c, code, view, arg, idx, anc, ci, d, device)
    what = f"{label} {name} weighted={weighted} {device} logical {arg} ancilla {anc} {tab}"
    judge(c, np, pipe, pats, "erasure" in tab, R, 500 if device == "stim" else 300, more, what)
    c.sig(label, name, weighted, device, tuple(idx), repr(tab))


def by_circuit(np, gates, view, idx, rounds, anc):
    """Distribution from the noise instructions of a circuit (no erasures)."""
    lay = qec.Layout(gates, view, idx, anc)
    assert lay.problem is None, lay.problem
    faults, opts, ops = [], [], []
    nq = view.n

    def add(groups):
        """groups: [(probability, ((qubit, letter), ...))] that exclude each other."""
        opts.append([])
        for p, what in groups:
            if p:
                opts[-1].append((float(p), len(faults)))
                faults.append((len(ops), what))
    for name, args in gates:
        if name == "ERROR":
            p, op, *qs = args
            for q in qs:
                add([(p, ((q, op),))])
        elif name == "E_PAULI":
            add([(p, ((args[3], ch),)) for p, ch in zip(args[:3], "XYZ")])
        elif name == "E_PAULI2":
            pairs = [a + b for a in "IXYZ" for b in "IXYZ"][1:]
            add([(p, tuple((q, ch) for q, ch in zip(args[15:], pp) if ch != "I"))
                 for p, pp in zip(args[:15], pairs)])
        else:
            ops += list(p32.steps([(name, args)]))
            nq = max(nq, max(args) + 1)
    rec = p32.follow(ops, faults, nq)
    sigs = p32.signatures(lay, rec, len(faults), rounds, len(view.stabs))
    ex = Exact(np, rounds * len(view.stabs) + len(idx))
    for o in opts:
        if o:
            ex.mix([(p, sigs[j][0] | sigs[j][1] << rounds * len(view.stabs)) for p, j in o])
    return ex.v


def gate_noise(c):
    """Noise at gates: exact failure rate from the faults of the instructions."""
    import numpy as np
    from mon.checks import p16
    r = c.rng
    label, code, view, arg, idx, anc, R = small(r, 13, 0.25, (2, 2, 3, r.choice((4, 5, 6))))
    qe, ge = p16.tables(r, code, view)
    for tab in (qe, ge):
        tab.pop("erasure", None)
        for sec in tab.values():
            for k, v in sec.items():
                for x in v:
                    v[x] = r.uniform(0, 0.03)
    name = r.choice(dec.DECODERS)
    c.show(code=label, qubit=qe, gate=ge, decoder=name)
    ci = qec.generate(code, qe, ge, arg, anc)
    v = by_circuit(np, qec.gates_of(ci), view, idx, R, anc)
    d = dec.build(name, code, None, weighted=False)
    device = r.choice(("stim", "stim", "stim", "clifford"))
    pipe = Pipeline(c, code, view, arg, idx, anc, ci, d, device)
    what = f"{label} {name} {device} logical {arg} ancilla {anc} {qe} {ge}"
    comps = dec.Graph(view, R).components()
    low = (1 << R * pipe.ns) - 1
    syn = np.flatnonzero(v.reshape(-1, low + 1).sum(axis=0) > 1e-9)
    if not all(d_ or bin(int(s) & m).count("1") % 2 == 0 for s in syn for m, d_ in comps):
        c.ev("not_decodable")   # faults of gates can give syndromes that no data fault explains
        return
    judge(c, np, pipe, [(1.0, frozenset(), v)], False, R, 300, 2500 if device == "stim" else 100,
          what)
    c.ev("gate_noise")
    c.sig("gate", label, name, device, tuple(idx), repr((qe, ge)))


# ------------------------------------------------------------------------------- closed forms
def _config(r, size, rounds, p, name, weighted, shots, device):
    return {"code": {"name": "RepetitionCode", "size": size, "rounds": rounds},
            "errors": {"qubit_errors": {"X": {"distribution": "constant", "params": [p]}}},
            "general": {"logical_op": "Z", "qec_property": ["logical_error_rate"],
                        "seed": r.getrandbits(31)},
            "decoder": {"name": name, "weighted": weighted},
            "device": {"name": device, "shots": shots}}


def majority(c):
    """Repetition code, one round: majority vote (equal rates) or the best decoder."""
    r = c.rng
    n = r.choice((3, 5, 7, 9))
    name = r.choice(dec.DECODERS)
    if r.random() < 0.6:
        p = r.choice((r.uniform(0.02, 0.15), r.uniform(0.1, 0.45)))
        exact = sum(math.comb(n, k) * p**k * (1 - p) ** (n - k) for k in range(n // 2 + 1, n + 1))
        weighted = r.random() < 0.5 and name != "UnionFindNoWeights"
        device = r.choice(("stim", "stim", "clifford"))
        shots = 1500 if device == "stim" else 300
        conf = _config(r, n, 1, p, name, weighted, shots, device)
        from plaquette.frontend import ExperimentConfig
        x = ExperimentConfig.from_dict(conf)
        _quiet(x.build)
        rate = _quiet(x.run)
        fails = round(rate * shots)
        c.check(not stats.off(fails, shots, exact), "majority", lambda: f"{conf}: rate {rate} of "
                f"{shots} shots, exact probability {exact:.6f}")
        c.ev("shots", shots)
        c.ev("decoded", shots)
        c.ev("failures", fails)
        c.sig("majority", n, name, weighted, device, p)
    else:
        name = r.choice(dec.MATCHING)
        ps = [10 ** r.uniform(-2.5, -0.4) for _ in range(n)]
        code = qec.bundled("repetition", n, 1)
        view = qec.View(code)
        exact = 0.0
        for e in range(1 << n - 1):
            a = b = 1.0
            for q in range(n):
                bit = e >> q & 1
                a *= ps[q] if bit else 1 - ps[q]
                b *= 1 - ps[q] if bit else ps[q]
            exact += min(a, b)
        tab = {"pauli": {q: {"x": ps[q]} for q in range(n)}}
        d = dec.build(name, code, tab, weighted=True)
        ci = qec.generate(code, tab, {}, "Z", False)
        pipe = Pipeline(c, code, view, "Z", [1], False, ci, d, "stim")
        shots = 1500
        fails = sum(not pipe.verdict(pipe.shot()) for _ in range(shots))
        # Fusion Blossom resolves weights to a hundredth: almost equal explanations may be swapped
        slack = 0.03 * exact + 1e-3 if name == "FusionBlossomDecoder" else 1e-9
        c.check(not (stats.off(fails, shots, exact) and stats.off(fails, shots, exact + slack)),
                "best", lambda: f"repetition {n} {name} rates {ps}: {fails} of {shots} shots fail, "
                f"the best decoder fails with probability {exact:.6f}")
        c.sig("best", n, name, repr(ps))
    c.ev("closed_forms")


def hidden(view, idx, places, rounds):
    """Number of independent logical changes by undetected operators on the erased places."""
    rows = []
    for t in range(rounds):
        vec = []
        for q in sorted(q for s, q in places if s == t):
            for e in ((1 << q, 0), (0, 1 << q)):
                syn = sum(s << i for i, s in enumerate(view.syndrome(e)))
                lg = sum(qec.anti(view.logs[i], e) << j for j, i in enumerate(idx))
                vec.append((syn, lg))
        # eliminate the syndromes: what remains are the logical changes of undetected operators
        piv = {}
        for syn, lg in vec:
            while syn:
                h = syn.bit_length()
                if h not in piv:
                    piv[h] = (syn, lg)
                    break
                syn, lg = syn ^ piv[h][0], lg ^ piv[h][1]
            else:
                rows.append(lg)
    basis = []
    for x in rows:
        for b in basis:
            x = min(x, x ^ b)
        if x:
            basis.append(x)
    return len(basis)


def erasures(c):
    """Erasures only: a shot fails with probability 1 - 2**-m, m logical operators hidden."""
    r = c.rng
    while True:
        label, code = (qec.user_code(r, r.choice((1, 2))) if r.random() < 0.15 else
                       qec.pick(r, 61, ("repetition", "planar", "rotated", "toric"),
                                r.choice((1, 1, 2, 3))))
        view = qec.View(code)
        if dec.Graph(view, 1).max_ends <= 2:
            break
    R = code.n_rounds
    arg, idx = qec.choice(r, view)
    anc = r.random() < 0.3 or not qec.readable(view, idx)
    top = r.choice((0.3, 0.5, 0.6, 0.9)) / R
    tab = {"erasure": {q: {"p": top * r.choice((1, 1, r.random()))} for q in range(view.n)}}
    if R > 1:
        tab["measurement"] = {view.n + g: {"p": 0.0} for g in range(len(view.stabs))}
    name = r.choice(dec.ERASURE)
    weighted = r.random() < 0.5 and name != "UnionFindNoWeights"
    c.show(code=label, table=tab, decoder=name, weighted=weighted)
    d = dec.build(name, code, tab, weighted=weighted)
    ci = qec.generate(code, tab, {}, arg, anc)
    device = r.choice(("stim", "stim", "stim", "clifford"))
    pipe = Pipeline(c, code, view, arg, idx, anc, ci, d, device)
    n = 400 if device == "stim" else max(20, 600 // (view.n * R))
    by, flags = {}, {}
    what = f"{label} {name} weighted={weighted} {device} logical {arg} ancilla {anc}"
    for _ in range(n):
        s = pipe.shot()
        _, e = pipe.bits(s)
        for x in e:
            flags[x] = flags.get(x, 0) + 1
        m = hidden(view, idx, e, R)
        ok = pipe.verdict(s)
        c.check(ok or m, "protected", lambda: f"{what}: erased {sorted(e)} hide no logical operator, "
                f"but the syndrome {s.syndrome.astype(int).tolist()} is not corrected")
        a = by.setdefault(m, [0, 0])
        a[0] += ok
        a[1] += 1
        c.ev("erased_shots", bool(e))
    for m, (ok, k) in by.items():
        c.check(not stats.off(ok, k, 0.5**m), "erased", lambda: f"{what} {tab}: {ok} of {k} shots "
                f"with {m} logical operators in the erased qubits succeed, not 1 of {2**m}")
    for (t, q), k in flags.items():
        p = tab["erasure"][q]["p"]
        c.check(not stats.off(k, n, p), "flags", lambda: f"{what}: qubit {q} is flagged {k} times of "
                f"{n} in round {t}, probability {p}")
    c.ev("closed_forms")
    c.sig("erasures", label, name, weighted, device, tuple(idx), repr(tab))


def distance(c):
    """Failures need half the distance of faults."""
    r = c.rng
    kind, size = r.choice((("repetition", 7), ("repetition", 11), ("planar", 3), ("planar", 5),
                           ("rotated", 3), ("rotated", 5), ("toric", 3), ("toric", 5)))
    R = r.choice((1, 2, 3))
    code = qec.bundled(kind, size, R, kind == "rotated" and r.random() < 0.5)
    view = qec.View(code)
    ns = len(view.stabs)
    arg, idx = ("Z", [1]) if kind == "repetition" else qec.choice(r, view)
    anc = r.random() < 0.3 or not qec.readable(view, idx)
    places = R * view.n + (R - 1) * ns
    mean = r.uniform(0.1, 0.5) * (size // 2)
    p = mean / places
    tab = {"pauli": {q: {k: p / 3 for k in "xyz"} for q in range(view.n)}}
    if kind == "repetition":
        tab = {"pauli": {q: {"x": p} for q in range(view.n)}}
    if R > 1:
        tab["measurement"] = {view.n + g: {"p": p} for g in range(ns)}
    name = r.choice(dec.DECODERS)
    d = dec.build(name, code, tab, weighted=False)
    ci = qec.generate(code, tab, {}, arg, anc)
    pipe = Pipeline(c, code, view, arg, idx, anc, ci, d, "stim")
    n = 500
    fails = sum(not pipe.verdict(pipe.shot()) for _ in range(n))
    from scipy.stats import binom
    top = float(binom.sf((size - 1) // 2, places, p))
    what = f"{kind} {size} rounds {R} {name} logical {arg} ancilla {anc} p {p:.5f}"
    c.check(fails <= n * top or binom.sf(fails - 1, n, top) > stats.ALPHA, "suppression",
            lambda: f"{what}: {fails} of {n} shots fail, half the distance of faults has "
            f"probability {top:.6f}")
    c.show(what=what, fails=fails, bound=top)
    c.ev("bounded")
    c.sig("distance", what)


WORKLOADS = [W("tables", tables, 48, 2400), W("gate_noise", gate_noise, 24, 1200),
             W("majority", majority, 32, 1200), W("erasures", erasures, 48, 2400),
             W("distance", distance, 16, 700)]
