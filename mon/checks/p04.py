"""P04: measurement and reset against projection of reference stabiliser states."""
import math

from mon import ref
from mon.core import W

RULE = ("random stabiliser states and signed Pauli operators (single-qubit, products of "
        "stabilisers, random, identity); outcome, post-measurement group, repetition, forced "
        "outcomes, outcome frequency, and resets to every signed eigenstate are compared with a "
        "projection model; non-trivial = distinct (operator kind, determined/random, outcome, "
        "size)")
ASSUMPTIONS = ["outcome frequency is tested at 6 sigma per case"]
MINIMA = {"certain": 150, "random": 150, "resets": 100, "frequency_shots": 2000}


def _txt(st):
    return [("-" if p[2] else "+") + ref.letters(p, st.n) for p in st.canonical()]


def _op(c, st):
    n = st.n
    kind = c.rng.choice(("group", "group", "random", "single", "anticommuting", "identity"))
    if kind == "group":
        p = (0, 0, 0)
        for g in st.g:
            if c.rng.random() < 0.6:
                p = ref.mul(p, g)
        p = (p[0], p[1], 2 * c.rng.randrange(2))
    elif kind == "random":
        p = ref.rand_pauli(c.rng, n)
    elif kind == "single":
        p = ref.from_letters("I" * c.rng.randrange(n) + c.rng.choice("XYZ"),
                             2 * c.rng.randrange(2))
    elif kind == "anticommuting":
        rhs = [int(c.rng.random() < 0.4) for _ in range(n)]
        rhs[c.rng.randrange(n)] = 1
        p = ref.solve_commutation(st.g, rhs, n)
        p = ref.mul(p, st.g[c.rng.randrange(n)])
        p = (p[0], p[1], 2 * c.rng.randrange(2))
    else:
        p = (0, 0, 2 * c.rng.randrange(2))
    return kind, p


def _mixed(c, n):
    st, _ = ref.rand_state(c.rng, n)
    g = list(st.g)
    for _ in range(n):
        if n > 1 and c.rng.random() < 0.5:
            i, j = c.rng.sample(range(n), 2)
            g[i] = ref.mul(g[i], g[j])
    c.rng.shuffle(g)
    return ref.State(n, g)


def _size(c):
    r = c.rng.random()
    return c.rng.randrange(1, 7) if r < 0.93 else c.rng.randrange(7, 30)


def _outcome_ok(c, st, p, m, what, forced=None):
    """Check outcome m of measuring p on st; returns the state afterwards."""
    c.check(int(m) in (0, 1), "outcome-value", f"{what}: outcome {m!r}")
    v = st.value(p)
    st = st.copy()
    if v:
        c.ev("certain")
        c.check(int(m) == (v < 0), "certain-outcome",
                lambda: f"{what} on {_txt(st)}: outcome {m}, certain value {v}")
    else:
        c.ev("random")
        if forced is not None:
            c.check(int(m) == forced, "forced-outcome", f"{what}: asked {forced}, got {m}")
        st.project(p, int(m))
    return st


def _state_ok(c, tab, st, what):
    prob = ref.tableau_problem(tab, st.n)
    c.check(prob is None, "tableau", lambda: f"{what}: {prob}")
    got = ref.tableau_state(tab)
    c.check(got.canonical() == st.canonical(), "post-state",
            lambda: f"{what}: library {_txt(got)}, exact {_txt(st)}")


def measure(c):
    from plaquette import pauli
    st = _mixed(c, _size(c))
    n = st.n
    tab = ref.to_tableau(st)
    for _ in range(c.rng.randrange(1, 5)):
        kind, p = _op(c, st)
        forced = c.rng.choice((None, None, 0, 1))
        if c.rng.random() < 0.3:
            op = ("-" if p[2] else "+") + ref.letters(p, n)
        else:
            op = ref.to_row(p, n)
        what = f"measuring {'-' if p[2] else '+'}{ref.letters(p, n)} (forced {forced})"
        kw = {} if forced is None else {"forced_outcome": forced}
        det = st.value(p)
        keep = None if isinstance(op, str) else op.copy()
        tab, m = pauli.measure(tab, op, **kw)
        st = _outcome_ok(c, st, p, m, what, forced)
        _state_ok(c, tab, st, what)
        if keep is not None:
            c.check((op == keep).all(), "input-modified", f"{what} changed the operator")
        tab, m2 = pauli.measure(tab, ref.to_row(p, n), **(
            {"forced_outcome": 1 - int(m)} if c.rng.random() < 0.3 else {}))
        c.check(int(m2) == int(m), "repeat", f"{what}: outcome {m}, repeated {m2}")
        _state_ok(c, tab, st, what + " twice")
        c.sig("measure", kind, det, int(m), min(n, 7), forced, isinstance(op, str))
        c.show(n=n, operator=ref.letters(p, n), determined=bool(det), outcome=int(m))


def base(c):
    from plaquette import pauli
    st = _mixed(c, _size(c))
    n = st.n
    tab = ref.to_tableau(st)
    for _ in range(2):
        b = c.rng.choice("XZ")
        fn = {"X": pauli.measure_x_base, "Z": pauli.measure_z_base}[b]
        k = c.rng.randrange(1, (min(n, 4) if c.rng.random() < 0.9 else n) + 1)
        ts = c.rng.sample(range(n), k)
        forced = c.rng.choice((None, None, 0, 1, "list"))
        if forced == "list":
            forced = [c.rng.choice((0, 1, None)) for _ in ts]
        kw = {} if forced is None else {"forced_outcomes": forced}
        arg = ts[0] if k == 1 and c.rng.random() < 0.6 else ts
        tab, res = fn(tab, arg, **kw)
        res = [int(res)] if k == 1 else [int(r) for r in res]
        c.check(len(res) == k, "number-of-outcomes", f"{ts}: {res}")
        exp = st.copy()
        fl = forced if isinstance(forced, list) else [forced] * k
        what = f"{b} base measurement of {ts} (forced {forced}) gave {res}"
        ps = [ref.from_letters("I" * t + b) for t in ts]
        for i in range(k):
            exp = _outcome_ok(c, exp, ps[i], res[i], what)
        for i in range(k):  # random whatever the order: must follow the request
            other = st.copy()
            for j in range(k):
                if j != i and other.value(ps[j]) == 0:
                    other.project(ps[j], res[j])
            if fl[i] is not None and other.value(ps[i]) == 0:
                c.check(res[i] == fl[i], "forced-outcome", what)
                c.ev("forced")
        st = exp
        _state_ok(c, tab, st, what)
        c.sig("base", b, k, forced if not isinstance(forced, list) else "list", tuple(res))


def frequency(c):
    from plaquette import pauli
    st = _mixed(c, c.rng.randrange(1, 5))
    n = st.n
    while True:
        kind, p = _op(c, st)
        if st.value(p) == 0:
            break
    tab = ref.to_tableau(st)
    shots = 300
    mode = c.rng.choice(("measure", "sequence"))
    ones = 0
    cur = tab.copy()
    q = ref.solve_commutation([p], [1], n)  # anticommutes with p: re-randomises it
    for _ in range(shots):
        if mode == "measure":
            _, m = pauli.measure(tab.copy(), ref.to_row(p, n))
        else:
            cur, _ = pauli.measure(cur, ref.to_row(q, n))
            cur, m = pauli.measure(cur, ref.to_row(p, n))
        ones += int(m)
    c.ev("frequency_shots", shots)
    z = abs(ones - shots / 2) / math.sqrt(shots / 4)
    c.check(z < 6, "frequency", f"{ones} ones in {shots} measurements of "
            f"{ref.letters(p, n)} on {_txt(st)} ({mode})")
    c.sig("freq", n, mode, ref.letters(p, n), p[2])


def refused(c):
    from plaquette import pauli
    st = _mixed(c, c.rng.randrange(1, 5))
    n = st.n
    for kind, p in [_op(c, st) for _ in range(3)]:
        bad = c.rng.choice((2, -1, 3, 7, 0.5, "1"))
        tab = ref.to_tableau(st)
        c.refuses(lambda: pauli.measure(tab, ref.to_row(p, n), forced_outcome=bad),
                  "invalid-outcome", f"forced outcome {bad!r} for {ref.letters(p, n)} on "
                  f"{_txt(st)}")
        c.sig("refuse", kind, bad, bool(st.value(p)))
    tab = ref.to_tableau(st)
    p = ref.rand_pauli(c.rng, n + 1)
    c.refuses(lambda: pauli.measure(tab, ref.to_row(p, n + 1)), "wrong-size",
              f"{n + 1}-qubit operator on {n} qubits")
    tab = ref.to_tableau(st)
    c.refuses(lambda: pauli.measure_z_base(tab, list(range(n)),
                                           forced_outcomes=[0] * (n + 1)),
              "outcome-count", f"{n + 1} outcomes for {n} targets")


def reset(c):
    from plaquette import pauli
    st = _mixed(c, _size(c))
    n = st.n
    tab = ref.to_tableau(st)
    op = c.rng.choice(("X", "Y", "Z", "-X", "-Y", "-Z", "+X", "+Y", "+Z"))
    k = c.rng.randrange(1, min(3 if c.rng.random() < 0.9 else 7, n) + 1)
    ts = c.rng.sample(range(n), k)
    arg = ts[0] if k == 1 and c.rng.random() < 0.5 else ts
    out = pauli.reset_qubits_to_eigenstate(tab, op, arg)
    what = f"reset of {ts} to {op} on {_txt(st)}"
    prob = ref.tableau_problem(out, n)
    c.check(prob is None, "tableau", lambda: f"{what}: {prob}")
    got = ref.tableau_state(out)
    goals = [ref.from_letters("I" * q + op[-1], 2 * (op[0] == "-")) for q in ts]
    for q, p in zip(ts, goals):
        c.check(got.value(p) == 1, "reset-eigenstate",
                lambda: f"{what}: value of {op} on {q} is {got.value(p)}; {_txt(got)}")
    allowed = [st.copy()]
    for q, p in zip(ts, goals):
        nxt = []
        fix = ref.from_letters("I" * q + ("X" if op[-1] == "Z" else "Z"))
        for s in allowed:
            v = s.value(p)
            for m in ((0, 1) if v == 0 else (int(v < 0),)):
                t = s.copy()
                if v == 0:
                    t.project(p, m)
                if m:
                    t.pauli(fix)
                nxt.append(t)
        allowed = nxt
    c.check(got.canonical() in [a.canonical() for a in allowed], "reset-disturbs",
            lambda: f"{what}: {_txt(got)}, possible {[_txt(a) for a in allowed][:4]}")
    c.ev("resets")
    c.ev("reset_branches", len(allowed))
    c.sig("reset", op, k, len(allowed), n)


def reset_many(c):
    """Both branches of a random reset occur, and both are corrected."""
    from plaquette import pauli
    op = c.rng.choice(("X", "Y", "Z", "-X", "-Y", "-Z"))
    n = 3
    st = ref.State(n)
    st.gate("H", 0)
    st.gate("CX", 0, 1)
    st.gate(c.rng.choice("HS"), 1)
    st.gate("CX", 1, 2)
    tab = ref.to_tableau(st)
    seen = set()
    p = ref.from_letters("I" + op[-1], 2 * (op[0] == "-"))
    rnd = st.value(p) == 0
    for _ in range(40):
        got = ref.tableau_state(pauli.reset_qubits_to_eigenstate(tab.copy(), op, [1]))
        c.check(got.value(p) == 1, "reset-eigenstate", f"{op}: {_txt(got)}")
        seen.add(tuple(got.canonical()))
    c.check(len(seen) <= 2, "reset-branches", f"{len(seen)} different states")
    if rnd and any(ref.anti(g, p) and ref.weight((g[0] & ~2, g[1] & ~2, 0)) for g in st.g):
        c.ev("both_branches", len(seen) == 2)
    c.ev("resets", 40)
    c.sig("reset-many", op, rnd, len(seen))


WORKLOADS = [
    W("measure", measure, 500, 15000),
    W("base", base, 250, 6000),
    W("frequency", frequency, 24, 400),
    W("refused", refused, 60, 1500),
    W("reset", reset, 300, 8000),
    W("reset-many", reset_many, 24, 200),
]
