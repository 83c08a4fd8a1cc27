"""P24: the logical success verdict is right."""
from mon import dec, qec
from mon.checks import p15
from mon.core import W

RULE = ("bundled and user-defined codes with up to several logical qubits; random and derived "
        "corrections (signs included), any choice of logical operators and any toggles, verdicts "
        "compared with commutation of bit masks; corrections changed by generators and logical "
        "operators; whole experiments with inserted faults and with random errors, where the "
        "verdict must say whether faults times correction changes a measured logical operator; "
        "non-trivial = distinct (code, operators, correction, toggle)")
ASSUMPTIONS = ["one logical operator per logical qubit is chosen, or all of them by default"]
MINIMA = {"verdicts": 8000, "true": 2000, "false": 2000, "several_logicals": 1000,
          "stabiliser_steps": 500, "logical_flips": 500, "experiments": 80, "refusals": 100}


def _verdict(c, code, corr, toggle, arg, form):
    from plaquette.decoders.decoderbase import check_success
    args = (code, [corr] if form else corr, toggle)
    v = check_success(*args) if arg is None else check_success(*args, arg)
    c.check(getattr(v, "ndim", 0) == 0, "form", f"verdict {v!r} is not a truth value")
    c.ev("verdicts")
    c.ev("true" if v else "false")
    return bool(v)


def _row(np, e, n, sign=0):
    a = np.zeros(2 * n + 1, dtype="u1")
    for q in range(n):
        a[q], a[n + q] = e[0] >> q & 1, e[1] >> q & 1
    a[2 * n] = sign
    return a


def _choose(r, view):
    if r.random() < 0.3:
        return None, list(range(len(view.logs)))
    arg, idx = qec.choice(r, view)
    if r.random() < 0.2 and not isinstance(arg, str):
        arg = tuple(arg)
    return arg, idx


def verdicts(c):
    import numpy as np
    r = c.rng
    label, code = qec.some_code(r, 61, 0.4)
    view = qec.View(code)
    n = view.n
    for _ in range(8):
        arg, idx = _choose(r, view)
        e = (0, 0)
        how = r.choice(("random", "stabilisers", "logical", "single"))
        if how == "random":
            e = r.getrandbits(n), r.getrandbits(n)
        elif how == "single":
            q = r.randrange(n)
            e = r.choice(((1 << q, 0), (0, 1 << q), (1 << q, 1 << q)))
        else:
            pool = view.stabs + (view.logs if how == "logical" else [])
            for m in r.sample(pool, min(len(pool), r.randrange(1, 5))):
                e = qec.mul(e, m)
        want = [qec.anti(view.logs[i], e) for i in idx]
        what = f"{label} logical {arg} correction {qec.letters(e, n)}"
        dt = r.choice((bool, "u1", int))
        form = r.random() < 0.5
        row = _row(np, e, n, r.randrange(2))
        keep = row.copy()
        for t in [want, [not w for w in want]] + [[r.randrange(2) for _ in idx] for _ in range(2)] \
                + [[w ^ (j == k) for j, w in enumerate(want)] for k in range(len(want))][:4]:
            t = [int(x) for x in t]
            v = _verdict(c, code, row, np.array(t, dtype=dt), arg, form)
            c.check(v == (t == [int(w) for w in want]), "verdict", lambda: f"{what}: toggles {t} "
                    f"are judged {v}, the correction predicts {want}")
            c.sig(label, tuple(idx), e, tuple(t))
            if len(idx) > 1:
                c.ev("several_logicals")
        c.check((row == keep).all(), "modified", f"{what}: the correction was changed")
        # generators do not matter, logical operators do
        t = np.array([r.randrange(2) for _ in idx], dtype=dt)
        v = _verdict(c, code, row, t, arg, form)
        for s in r.sample(view.stabs, min(3, len(view.stabs))):
            c.check(_verdict(c, code, _row(np, qec.mul(e, s), n), t, arg, form) == v, "stabiliser",
                    f"{what} toggles {t}: verdict {v} is altered by generator {qec.letters(s, n)}")
            c.ev("stabiliser_steps")
        t = np.array([int(w) for w in want], dtype=dt)
        for lo in view.logs:
            if any(qec.anti(lo, view.logs[i]) for i in idx):
                c.check(not _verdict(c, code, _row(np, qec.mul(e, lo), n), t, arg, form), "logical",
                        f"{what}: an additional logical operator {qec.letters(lo, n)} is not seen")
                c.ev("logical_flips")
    c.show(setup=what)


def refused(c):
    import numpy as np
    r = c.rng
    label, code = qec.some_code(r, 30, 0.4)
    view = qec.View(code)
    row = np.zeros(2 * view.n + 1, dtype="u1")
    from plaquette.decoders.decoderbase import check_success
    arg, idx = qec.choice(r, view)
    t = np.zeros(len(idx), dtype=bool)
    k = len(view.logs)
    bad = [("length of toggle", (row, np.zeros(len(idx) + 1, dtype=bool), arg)),
           ("length of correction", (np.zeros(2 * view.n + 3, dtype="u1"), t, arg)),
           ("operator Y", (row, t, "Y" * len(idx))), ("operator x", (row, t, "x" * len(idx))),
           ("number of operators", (row, np.zeros(len(idx) + 1, dtype=bool), "X" * (len(idx) + 1))),
           ("operator index", (row, t, [k] * len(idx))), ("negative index", (row, t, [-1] * len(idx)))]
    for what, (co, tt, a) in bad:
        c.refuses(lambda: check_success(code, co, tt, a), "accepted", f"{label}: wrong {what}")


def faults(c):
    """Inserted faults: the verdict says whether faults times correction is a logical change."""
    from plaquette import Device
    from plaquette.circuit import Circuit
    r = c.rng
    while True:
        label, code, view, arg, idx, anc = qec.some_setup(r, 26, 0.25)
        if dec.Graph(view, 1).max_ends <= 2:
            break
    n, ns, R = view.n, len(view.stabs), code.n_rounds
    marks = {"pauli": {q: {"x": 0.25} for q in range(n)},
             "measurement": {n + i: {"p": 0.25} for i in range(ns)}}
    gates = qec.gates_of(qec.generate(code, marks, {}, arg, anc))
    g = dec.Graph(view, R)
    name = r.choice(dec.DECODERS)
    d = dec.build(name, code, None, weighted=False)
    dev = Device(r.choice(("stim", "clifford")))
    for _ in range(4):
        fs = {(r.randrange(1, R + 1), r.randrange(n)): r.choice("XYZ")
              for _ in range(r.choice((1, 2, 3, n // 2)))}
        flips = {(r.randrange(1, R), n + r.randrange(ns)) for _ in range(r.randrange(3))} \
            if R > 1 and ns else set()
        ci = Circuit()
        for x, a in p15._inject(gates, fs, flips)[0]:
            ci.append(x, *a)
        raw, era = qec.sample(dev, ci)
        s = qec.unpack(code, raw, None, arg, anc)
        corr = dec.quiet(d.decode, None, s.syndrome)
        tot = qec.masks(corr)
        for (_, q), ch in fs.items():
            tot = qec.mul(tot, ((ch in "XY") << q, (ch in "ZY") << q))
        want = not any(qec.anti(view.logs[i], tot) for i in idx)
        v = _verdict(c, code, corr, s.logical_op_toggle, arg, True)
        c.check(v == want, "experiment", lambda: f"{label} {name} logical {arg} faults {fs} flips "
                f"{flips}: verdict {v}, but faults times correction {qec.letters(tot, n)} "
                f"{'keeps' if want else 'changes'} the logical values")
        c.ev("experiments")
        c.sig("exp", label, name, tuple(idx), tuple(sorted(fs.items())), tuple(sorted(flips)))


WORKLOADS = [W("verdicts", verdicts, 150, 6000), W("refused", refused, 30, 600),
             W("faults", faults, 50, 2500)]
