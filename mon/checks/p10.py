"""P10: circuit text, programmatic building and listing are the same circuit."""
from mon import circ
from mon.core import W

RULE = ("random circuits over all instructions, probabilities of many magnitudes and notations, "
        "compared instruction by instruction between append, builder, text and text with "
        "comments, blank lines and odd spacing; single malformed instructions of many kinds must "
        "be refused by every way of adding and leave the circuit as it was; non-trivial = "
        "distinct (circuit, way) and distinct malformed instructions")
ASSUMPTIONS = []
MINIMA = {"roundtrips": 300, "refusals": 500, "instructions": 2000}

PROBS = (0.0, 1.0, 0.5, 0.1, 1e-3, 1e-5, 1e-12, 5e-324, 1 / 3, 0.1 + 0.2, 2 / 3, 0.999999999999999,
         2.5e-7, 1e-300)


def _p(r):
    return r.choice(PROBS) if r.random() < 0.6 else r.random()


def _qs(r, k, top):
    return tuple(r.sample(range(top), k))


def _one(r, top, chain_ok):
    names = ["X", "Y", "Z", "H", "CX", "CZ", "M", "R", "DEPOLARIZE", "E_ERASE", "E_PAULI",
             "E_PAULI2", "ERROR"] + (["ERROR_ELSE", "ERROR_CONTINUE"] * 3 if chain_ok else [])
    name = r.choice(names)
    more = r.choice((0, 0, 1, 3))  # branches may be the only ones to use a qubit
    if name in ("ERROR", "ERROR_ELSE"):
        return (name, (_p(r), *_branch(r, top + more)))
    if name == "ERROR_CONTINUE":
        return (name, _branch(r, top + more))
    return (name, _args(r, name, top))


def _args(r, name, top):
    if name in ("CX", "CZ"):
        return _qs(r, 2 * r.randrange(1, 3), top)
    if name == "E_ERASE":
        return (_p(r), r.randrange(top))
    if name == "E_PAULI":
        return (*(x / 3 for x in (_p(r), _p(r), _p(r))), r.randrange(top))
    if name == "E_PAULI2":
        return (*(_p(r) / 15 for _ in range(15)), *_qs(r, 2, top))
    k = r.randrange(1, 5)
    if r.random() < 0.2:  # repeated targets are fine for one-qubit operations
        return tuple(r.randrange(top) for _ in range(k))
    return _qs(r, k, top)


def _branch(r, top):
    name = r.choice(("X", "Y", "Z", "H", "CX", "CZ", "R", "DEPOLARIZE", "E_PAULI", "E_PAULI2", "M",
                     "E_ERASE"))
    return (name, *_args(r, name, top))


def _circuit(r, k, top):
    out = []
    for _ in range(k):
        out.append(_one(r, top, bool(out) and out[-1][0].startswith("ERROR")))
    return out


def _same(c, got, gates, mech, what):
    g = [(n, tuple(a)) for n, a in got]
    c.check(len(g) == len(gates), mech, lambda: f"{what}: {len(g)} instructions instead of "
            f"{len(gates)}:\n{g}\n{gates}")
    for a, b in zip(g, gates):
        ok = a[0] == b[0] and len(a[1]) == len(b[1]) and all(
            x == y and (isinstance(x, str) == isinstance(y, str))
            and isinstance(x, float) == isinstance(y, float) for x, y in zip(a[1], b[1]))
        c.check(ok, mech, lambda: f"{what}: {a} instead of {b}")
        c.ev("instructions")


METHOD = {"X": "X", "Y": "Y", "Z": "Z", "H": "H", "M": "M", "R": "R", "CX": "CX", "CZ": "CZ",
          "DEPOLARIZE": "depolarize", "E_ERASE": "e_erase", "E_PAULI": "e_pauli",
          "E_PAULI2": "e_pauli2", "ERROR": "error", "ERROR_CONTINUE": "error_continue",
          "ERROR_ELSE": "error_else"}


def _ways(c, gates):
    from plaquette.circuit import Circuit, CircuitBuilder
    r = c.rng
    a = Circuit()
    for n, args in gates:
        a.append(n, *args)
    yield "append", a
    b = Circuit()
    bld = CircuitBuilder(b)
    for n, args in gates:
        getattr(bld, METHOD[n])(*args)
    c.check(bld.circ is b, "builder", "the builder works on another circuit")
    yield "builder", b
    s = str(a)
    yield "text", Circuit.from_str(s)
    yield "text of text", Circuit.from_str(str(Circuit.from_str(s)))
    lines = []
    for n, args in gates:
        for _ in range(r.randrange(0, 2)):
            lines.append(r.choice(("", "   ", "# comment", "  # X 0", "\t", "#", "#M 1 # M 2")))
        sep = r.choice((" ", "  ", "\t", " \t "))
        line = r.choice(("", " ", "\t")) + n + sep + sep.join(
            r.choice((repr, str))(x) if not isinstance(x, str) else x for x in args)
        lines.append(line + r.choice(("", " ", "   ", " # M 0", "# X 1 # Y", "\t#")))
    if r.random() < 0.5:
        lines += ["", "  # end"]
    if r.random() < 0.5:
        lines = ["", "# start"] + lines
    noisy = r.choice(("\n", "\n\n")).join(lines) + r.choice(("", "\n", "\n\n"))
    yield "commented text", Circuit.from_str(noisy)
    k = r.randrange(0, len(gates) + 1)
    d = Circuit.from_str(circ.text(gates[:k]))
    c.check([(n, tuple(x)) for n, x in d.gates] == gates[:k], "prefix", "prefix differs")
    d.append_from_str(circ.text(gates[k:]))
    yield "extended text", d
    e = Circuit()
    for n, args in gates:
        e.append(n, *map(str, args))
    yield "append of strings", e


def roundtrip(c):
    r = c.rng
    top = r.choice((4, 5, 12, 40, 300, 2000))
    gates = _circuit(r, r.randrange(0, 14), top)
    n = circ.n_qubits(gates)
    m = sum(len(a) for g, a in gates if g == "M")
    for what, ci in _ways(c, gates):
        _same(c, ci.gates, gates, "roundtrip", what)
        c.check(ci.number_of_qubits == n and ci.n_q == n, "qubits",
                lambda: f"{what}: {ci.number_of_qubits} qubits instead of {n}:\n{ci}")
        c.check(ci.number_measured_qubits == m, "measured",
                lambda: f"{what}: {ci.number_measured_qubits} measured instead of {m}:\n{ci}")
        c.ev("roundtrips")
        c.sig(what, tuple(gates))
    c.show(text=circ.text(gates), n_qubits=n, measured=m)


def _malformed(r):
    q = r.randrange(5)
    p = round(r.random(), 2)
    badp = r.choice((-0.1, 1.1, -1e-9, 1 + 1e-9, 2, -1, float("inf"), float("nan"), "x", "0.1.2",
                     "-0.2", "1.5", "nan"))
    badq = r.choice((-1, "-1", 1.5, "1.5", "q", "0x1", "1e0", "", "X"))
    good2 = [0.01] * 15
    ps = [0.1, 0.2, 0.3]
    i, j = r.randrange(3), r.randrange(15)
    badps, badps2 = list(ps), list(good2)
    badps[i] = badp
    badps2[j] = badp
    name1 = r.choice(("X", "Y", "Z", "H", "M", "R", "DEPOLARIZE"))
    name2 = r.choice(("CX", "CZ"))
    inner = r.choice(((name1, badq), (name2, 0, badq), (name2, 1, 1), (name2, 0), ("NOPE", 0),
                      ("x", 0), ("E_PAULI", *badps, q), ("E_PAULI", .1, .2, q),
                      ("E_PAULI2", *good2, 1), ("ERROR", p, "X", 0), ("ERROR_CONTINUE", "X", 0),
                      ("ERROR_ELSE", p, "X", 0), ("E_ERASE", badp, 0), ("E_ERASE", p, 0, 1),
                      ("E_PAULI2", *badps2, 0, 1), (0.5, "X", 0), ("X", 0, badq)))
    return r.choice((
        (r.choice(("NOPE", "x", "cx", "CNOT", "S", "MZ", "T", "ERRORS", "E_PAULI3", "ELSE", "XX",
                   "M!", "E-PAULI", "SWAP", "I")), q),
        (name1, badq), (name1, q, badq), (name2, badq, q), (name2, q, badq),
        (name2, 0, 1, 2), (name2, q), (name2, q, q), (name2, 0, 1, 2, 2),
        ("E_ERASE", p), ("E_ERASE", p, 0, 1), ("E_ERASE", badp, q), ("E_ERASE", p, badq),
        ("E_ERASE",),
        ("E_PAULI", *ps), ("E_PAULI", *ps, 0, 1), ("E_PAULI", *ps[:2], q),
        ("E_PAULI", *badps, q), ("E_PAULI", *ps, badq),
        ("E_PAULI2", *good2, q), ("E_PAULI2", *good2, 0, 1, 2), ("E_PAULI2", *good2[:-1], 0, 1),
        ("E_PAULI2", *badps2, 0, 1), ("E_PAULI2", *good2, 0, badq),
        ("E_PAULI2", *good2, q, q), ("E_PAULI2", *good2, badq, 0),
        ("ERROR", badp, "X", 0), ("ERROR_ELSE", badp, "X", 0),
        ("ERROR", p, *inner), ("ERROR_ELSE", p, *inner), ("ERROR_CONTINUE", *inner),
        ("ERROR", p), ("ERROR_ELSE", p), ("ERROR",), ("ERROR_CONTINUE",), ("ERROR_ELSE",),
    ))


def malformed(c):
    """A bad instruction is refused by every way of adding it, and nothing changes."""
    from plaquette.circuit import Circuit, CircuitBuilder
    r = c.rng
    gates = _circuit(r, r.randrange(0, 4), 5)
    if gates and r.random() < 0.5:
        gates.append(("ERROR", (0.5, "X", 0)))
    ci = circ.build(gates)
    for _ in range(4):
        bad = _malformed(r)
        name, *args = bad
        c.refuses(lambda: ci.append(name, *args), "accepted", f"append{bad}")
        _same(c, ci.gates, gates, "changed-by-refusal", f"after refused {bad}")
        if name in METHOD:
            c.refuses(lambda: getattr(CircuitBuilder(ci), METHOD[name])(*args), "accepted",
                      f"builder {bad}")
            _same(c, ci.gates, gates, "changed-by-refusal", f"after refused {bad}")
        if "" not in args and args and not (args[-1] == 1.5 and False):
            line = " ".join(map(str, bad))
            c.refuses(lambda: Circuit.from_str(line), "accepted", f"text {line!r}")
            c.refuses(lambda: ci.append_from_str(line), "accepted", f"text {line!r}")
            _same(c, ci.gates, gates, "changed-by-refusal", f"after refused {line!r}")
        c.sig(*map(str, bad))
    c.show(last_refused=bad)
    # the circuit is still usable
    ci.append("M", 0)
    _same(c, ci.gates, gates + [("M", (0,))], "after-refusal", "append after refusals")


def numpy_args(c):
    """Numbers of other types (numpy) mean the same."""
    import numpy as np
    from plaquette.circuit import Circuit
    r = c.rng
    gates = _circuit(r, r.randrange(1, 6), r.choice((4, 30)))
    ci = Circuit()
    fi = r.choice((np.int64, np.uint8, np.int32))
    for n, args in gates:
        ci.append(n, *(x if isinstance(x, str) else np.float64(x) if isinstance(x, float)
                       else fi(x) for x in args))
    _same(c, ci.gates, gates, "numpy", "numpy arguments")
    _same(c, Circuit.from_str(str(ci)).gates, gates, "numpy", "text of numpy arguments")
    c.check(ci.number_of_qubits == circ.n_qubits(gates), "qubits", "wrong number of qubits")
    c.sig("np", fi.__name__, tuple(gates))
    c.ev("roundtrips")


WORKLOADS = [
    W("roundtrip", roundtrip, 250, 6000),
    W("malformed", malformed, 400, 6000),
    W("numpy_args", numpy_args, 100, 2000),
]
