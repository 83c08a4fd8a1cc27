"""P11: OpenQASM export preserves the circuit."""
from mon import circ
from mon.core import W

RULE = ("random circuits (also generated QEC experiments) exported and read back with qiskit's "
        "OpenQASM 2 parser; the operation sequence on every qubit, the classical bit of every "
        "measurement and the register sizes are compared with the circuit; unsupported "
        "instructions at any place must raise, or be the only thing left out on request; "
        "non-trivial = distinct circuits with two-qubit gates and measurements")
ASSUMPTIONS = ["qiskit.qasm2 parser", "operations on disjoint qubits may be reordered"]
MINIMA = {"exports": 300, "operations": 3000, "unsupported": 100}
NAME = {"x": "X", "y": "Y", "z": "Z", "h": "H", "cx": "CX", "cz": "CZ", "measure": "M",
        "reset": "R"}


def _split(gates):
    """One tuple per elementary operation, measurements with their position."""
    out, k = [], 0
    for name, args in gates:
        if name in ("CX", "CZ"):
            out += [(name, (a, b)) for a, b in zip(args[::2], args[1::2])]
        elif name == "M":
            for q in args:
                out.append(("M", (q,), k))
                k += 1
        else:
            out += [(name, (q,)) for q in args]
    return out, k


def _parse(text):
    from qiskit import qasm2
    qc = qasm2.loads(text)
    out = []
    for ins in qc.data:
        name = NAME[ins.operation.name]
        qs = tuple(qc.find_bit(q).index for q in ins.qubits)
        out.append((name, qs, *(qc.find_bit(b).index for b in ins.clbits)))
        assert ins.operation.name != "barrier"
    return qc, out


def _per_qubit(ops, n):
    seq = [[] for _ in range(n)]
    for op in ops:
        qs = tuple(sorted(op[1])) if op[0] == "CZ" else op[1]
        for q in op[1]:
            seq[q].append((op[0], qs, *op[2:]))
    return seq


def _compare(c, text, gates, n):
    want, k = _split(gates)
    qc, got = _parse(text)
    c.ev("exports")
    c.ev("operations", len(got))
    c.check(qc.num_qubits >= n, "qreg", f"{qc.num_qubits} qubits for {n}")
    c.check(qc.num_clbits >= k, "creg", f"{qc.num_clbits} classical bits for {k}")
    n = qc.num_qubits
    g, w = _per_qubit(got, n), _per_qubit(want, n)
    if g == w:
        return
    stripped = _per_qubit([o for o in want if o[0] != "R"], n)
    msg = f"export performs\n{got}\nfor\n" + circ.text(gates)
    if g == stripped:
        # resets of qubits that are still in their initial state do not matter
        used, bad = set(), False
        for o in want:
            if o[0] == "R":
                bad |= o[1][0] in used
            else:
                used |= set(o[1])
        if bad:
            c.finding("reset-dropped", msg)
        return
    c.fail("sequence", msg)


def clean(c):
    from plaquette.circuit.openqasm import convert_to_openqasm
    r = c.rng
    n = r.choice((1, 2, 3, 5, 8, 15, 40))
    gates = circ.rand_clean(r, n, r.randrange(0, 30), r.choice((0, .2, .4)), r.choice((0, 0, .2)))
    if r.random() < 0.3 and n > 3:
        gates.append(("CX", tuple(r.sample(range(n), n - n % 2))))
    if r.random() < 0.3:
        gates.insert(r.randrange(len(gates) + 1),
                     ("M", tuple(r.randrange(n) for _ in range(r.randrange(2, 5)))))
        c.ev("repeated_measurements")
    ci = circ.build(gates)
    before = str(ci)
    a = convert_to_openqasm(ci)
    c.check(str(ci) == before, "modified", "export changed the circuit")
    _compare(c, a, gates, circ.n_qubits(gates))
    for other in (convert_to_openqasm(before), convert_to_openqasm(ci, ignore_unsupported=True)):
        c.check(other == a, "text-export", lambda: f"{other}\n!=\n{a}")
    if any(g == "M" for g, _ in gates) and any(g in ("CX", "CZ") for g, _ in gates):
        c.sig(tuple(gates))
    c.show(circuit=before.replace("\n", "; "), qasm=a.replace("\n", " "))


def unsupported(c):
    from plaquette.circuit.openqasm import GateNotSupportedError, convert_to_openqasm
    r = c.rng
    n = r.randrange(1, 6)
    gates = circ.rand_clean(r, n, r.randrange(0, 12), .3, 0)
    noisy = list(gates)
    for _ in range(r.randrange(1, 4)):
        pos = r.randrange(len(noisy) + 1)
        while pos < len(noisy) and noisy[pos][0] in ("ERROR_ELSE", "ERROR_CONTINUE"):
            pos += 1
        noisy[pos:pos] = circ.rand_noise(r, n, "any", stim=False)
    ci = circ.build(noisy)
    for arg in (ci, str(ci)):
        c.refuses(lambda: convert_to_openqasm(arg), "unsupported-accepted", circ.text(noisy),
                  exc=(GateNotSupportedError,))
        c.ev("unsupported")
    out = convert_to_openqasm(ci, ignore_unsupported=True)
    _compare(c, out, gates, circ.n_qubits(gates))
    c.sig("ignored", tuple(noisy))


def generated(c):
    """Whole experiments."""
    from plaquette.circuit.generator import generate_qec_circuit
    from plaquette.circuit.openqasm import convert_to_openqasm
    from plaquette.codes import LatticeCode
    r = c.rng
    code = r.choice((lambda: LatticeCode.make_planar(n_rounds=2, size=3),
                     lambda: LatticeCode.make_rotated_planar(n_rounds=1, size=3),
                     lambda: LatticeCode.make_repetition(n_rounds=2, size=5),
                     lambda: LatticeCode.make_five_qubit(n_rounds=1)))()
    ci = generate_qec_circuit(code, {}, {}, r.choice("XZ"), logical_ancilla=r.random() < 0.5)
    gates = [(a, tuple(b)) for a, b in ci.gates]
    _compare(c, convert_to_openqasm(ci), gates, circ.n_qubits(gates))
    c.sig("generated", len(gates))


def reused(c):
    """Resets in the middle of a circuit (always part of a run)."""
    from plaquette.circuit.openqasm import convert_to_openqasm
    gates = [("X", (0,)), ("R", (0,)), ("M", (0,))]
    if c.index % 2:
        gates = circ.rand_clean(c.rng, 3, 12, .3, .3)
    ci = circ.build(gates)
    _compare(c, convert_to_openqasm(ci), gates, circ.n_qubits(gates))
    c.sig("reused", tuple(gates))


WORKLOADS = [
    W("clean", clean, 300, 8000),
    W("unsupported", unsupported, 100, 3000),
    W("generated", generated, 12, 40),
    W("reused", reused, 20, 300),
]
