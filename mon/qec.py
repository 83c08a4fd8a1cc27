"""Independent view of stabiliser codes and of generated experiments.

Operators are (x mask, z mask) over data qubits, read from the binary rows that the library
reports; everything else (commutation, syndromes, expected circuits) is computed here.
"""
import itertools

from mon import ref


# ------------------------------------------------------------------------------- operators
def masks(row):
    """(x, z) masks of a binary operator row with or without sign bit."""
    x, z, k = ref.from_row(row)
    return x, z


def anti(a, b):
    return (bin(a[0] & b[1]).count("1") + bin(a[1] & b[0]).count("1")) & 1


def mul(a, b):
    return a[0] ^ b[0], a[1] ^ b[1]


def weight(a):
    return bin(a[0] | a[1]).count("1")


def letters(a, n):
    return "".join("IXZY"[(a[0] >> q & 1) + 2 * (a[1] >> q & 1)] for q in range(n))


def from_letters(s):
    x = z = 0
    for q, ch in enumerate(s):
        x |= (ch in "XY") << q
        z |= (ch in "ZY") << q
    return x, z


def rank(ops, n):
    return ref.gf2_rank([a[0] | a[1] << n for a in ops])


def row(s):
    """Library row of a letter string."""
    from plaquette.pauli import string_to_pauli
    return string_to_pauli(s)


class View:
    """What the library says about a code, as masks."""

    def __init__(self, code):
        self.n = code.n_data_qubits
        self.stabs = [masks(s) for s in code.stabilisers]
        self.logs = [masks(s) for s in code.logical_ops]
        self.k = len(self.logs) // 2
        self.rounds = getattr(code, "n_rounds", None)

    def syndrome(self, err):
        return tuple(anti(s, err) for s in self.stabs)

    def problem(self, need_rank=True):
        """Why this is no valid stabiliser code, or None."""
        for (i, a), (j, b) in itertools.combinations(enumerate(self.stabs), 2):
            if anti(a, b):
                return f"generators {i} and {j} anticommute"
        for i, s in enumerate(self.stabs):
            for j, lo in enumerate(self.logs):
                if anti(s, lo):
                    return f"generator {i} anticommutes with logical operator {j}"
        for i, a in enumerate(self.logs):
            for j, b in enumerate(self.logs):
                if anti(a, b) != (i != j and i // 2 == j // 2):
                    return f"logical operators {i} and {j} have wrong commutator {anti(a, b)}"
        if need_rank and rank(self.stabs, self.n) != self.n - self.k:
            return (f"rank {rank(self.stabs, self.n)} of the generators for {self.n} data and "
                    f"{self.k} logical qubits")
        return None


def lattice_problem(code, lattice=None):
    """Why lattice, numbering and operator lists do not describe the same code, or None."""
    from plaquette.codes import latticebase as lb
    lat = lattice or code.lattice
    if lat.vertices is None:
        return "no vertices"
    for name, idx in (("dataqubits", "dataqubit_idx"), ("stabgens", "stabgen_idx"),
                      ("logical_ops", "logical_idx")):
        vs = getattr(lat, name)
        if [getattr(v, idx) for v in vs] != list(range(len(vs))):
            return f"{idx} is not the position in {name}"
    all_ = list(lat.dataqubits) + list(lat.stabgens) + list(lat.logical_ops)
    if len(lat.equbits) != len(all_) or any(a is not b for a, b in zip(lat.equbits, all_)):
        return "equbits is not data qubits, generators, logical operators"
    if [v.equbit_idx for v in all_] != list(range(len(all_))):
        return "equbit_idx is not the position in equbits"
    if sorted(map(id, lat.vertices)) != sorted(map(id, all_)):
        return "vertices differ from equbits"
    seen = {}
    for pos, v in ((p, lat.lattice[p]) for p in itertools.product(*map(range, lat.lattice.shape))):
        if v is not None:
            seen[id(v)] = pos
            if tuple(v.pos) != pos:
                return f"vertex at {pos} says it is at {v.pos}"
    if sorted(seen) != sorted(map(id, all_)):
        return "lattice positions do not hold exactly the vertices"
    if sum(len(v.edges) for v in all_) != 2 * len(lat.edges):
        return "edge lists of vertices differ from the lattice's"
    mine = {id(e) for e in lat.edges}
    if len(mine) != len(lat.edges):
        return "an edge is listed twice"
    for v in all_:
        if len(v.edges) != len(v.neighbours):
            return f"{v}: {len(v.edges)} edges, {len(v.neighbours)} neighbours"
        for e, w in zip(v.edges, v.neighbours):
            if id(e) not in mine:
                return f"{v} has an edge that the lattice does not have"
            ends = (e.data, e.op)
            if not any(x is v for x in ends) or not any(x is w for x in ends) or v is w:
                return f"edges and neighbours of {v} do not correspond"
    for e in lat.edges:
        if not isinstance(e.data, lb.DataVertex) or not isinstance(e.op, lb.OpVertex):
            return "an edge does not connect a data qubit and an operator"
        if seen.get(id(e.data)) is None or seen.get(id(e.op)) is None:
            return "an edge ends outside of the lattice"
    n = len(lat.dataqubits)

    def op_masks(v):
        x = z = 0
        for e in v.edges:
            bit = 1 << e.data.dataqubit_idx
            if (x | z) & bit:
                return None
            x |= bit * (e.factor.name in "XY")
            z |= bit * (e.factor.name in "ZY")
        return x, z
    view = View(code)
    if (view.n, len(view.stabs), len(view.logs)) != (n, len(lat.stabgens), len(lat.logical_ops)):
        return (f"code has {view.n} data qubits, {len(view.stabs)} generators, {len(view.logs)} "
                f"logical operators; lattice {n}, {len(lat.stabgens)}, {len(lat.logical_ops)}")
    for what, vs, ops in (("generator", lat.stabgens, view.stabs),
                          ("logical operator", lat.logical_ops, view.logs)):
        for i, (v, o) in enumerate(zip(vs, ops)):
            if op_masks(v) != o:
                return f"{what} {i} of the code differs from the lattice edges"
    for a, b in ((lat.stabilisers, view.stabs), (lat.logical_operators, view.logs)):
        if [masks(r) for r in a] != b:
            return "operators reported by lattice and code differ"
    if [masks(r) for r in code.logical_x] != view.logs[::2]:
        return "logical_x differs"
    if [masks(r) for r in code.logical_z] != view.logs[1::2]:
        return "logical_z differs"
    if (code.n_stabgens, code.n_logical_ops, code.n_logical_qubits, code.n_ext_qubits) != (
            len(view.stabs), len(view.logs), view.k, len(all_)):
        return "reported numbers of operators are wrong"
    return None


# ------------------------------------------------------------------------------- catalogue
def bundled(kind, size, rounds, xzzx=False):
    from plaquette.codes import LatticeCode as L
    if kind == "five":
        return L.make_five_qubit(n_rounds=rounds)
    if kind == "shor":
        return L.make_shor(n_rounds=rounds)
    if kind == "rotated":
        return L.make_rotated_planar(n_rounds=rounds, size=size, xzzx=xzzx)
    return getattr(L, "make_" + kind)(n_rounds=rounds, size=size)


SIZES = {"repetition": (3, 5, 7, 9, 11), "planar": (2, 3, 4, 5), "rotated": (2, 3, 4, 5, 6, 7),
         "toric": (2, 3, 4, 5), "five": (0,), "shor": (0,)}


def rounds_of(rng):
    """Usually few rounds, sometimes many."""
    return rng.randrange(5, 13) if rng.random() < 0.06 else rng.choice((1, 1, 2, 2, 3, 4))


def pick(rng, max_data=30, kinds=None, rounds=None):
    """(label, code) of a random bundled code."""
    opts = []
    for kind in kinds or SIZES:
        for s in SIZES[kind]:
            n = {"repetition": s, "planar": s * s + (s - 1) ** 2, "rotated": s * s,
                 "toric": 2 * s * s, "five": 5, "shor": 9}[kind]
            if n <= max_data:
                opts.append((kind, s))
    kind = rng.choice(sorted({k for k, _ in opts}))
    size = rng.choice([s for k, s in opts if k == kind])
    r = rounds if rounds is not None else rounds_of(rng)
    xzzx = kind == "rotated" and rng.random() < 0.4
    return (kind, size, r, xzzx), bundled(kind, size, r, xzzx)


def rand_ops(rng, n, k, y_free=True, depth=None):
    """Letter strings (stabilisers, logical operators) of a random [[n, k]] code."""
    ops = []
    kinds = [rng.choice("XZ") for _ in range(n - k)]
    for q, ch in enumerate(kinds):
        ops.append("I" * q + ch + "I" * (n - q - 1))
    for q in range(n - k, n):
        pair = ["X", "Z"] if rng.random() < 0.5 else ["Z", "X"]
        ops += ["I" * q + ch + "I" * (n - q - 1) for ch in pair]
    ops = [from_letters(o) for o in ops]
    for _ in range(depth or rng.randrange(n, 4 * n)):
        if n < 2:
            break
        a, b = rng.sample(range(n), 2)
        ops = [(x ^ (x >> a & 1) << b, z ^ (z >> b & 1) << a) for x, z in ops]  # CX a b
        if not y_free and rng.random() < 0.5:
            q = rng.randrange(n)
            if rng.random() < 0.5:
                ops = [_swap_xz(o, q) for o in ops]
            else:
                ops = [(x, z ^ (x >> q & 1) << q) for x, z in ops]  # S
    for q in range(n):
        if rng.random() < 0.3:
            ops = [_swap_xz(o, q) for o in ops]
    stabs, logs = ops[:n - k], ops[n - k:]
    # other generators of the same group, other representatives of the same logical operators
    for i in range(len(logs)):
        for s in stabs:
            if rng.random() < 0.3:
                t = mul(logs[i], s)
                if not (y_free and t[0] & t[1]):
                    logs[i] = t
    order = list(range(len(stabs)))
    rng.shuffle(order)
    stabs = [stabs[i] for i in order]
    return [letters(s, n) for s in stabs], [letters(s, n) for s in logs]


def _swap_xz(o, q):
    x, z = o
    bx, bz = x >> q & 1, z >> q & 1
    d = (bx ^ bz) << q
    return x ^ d, z ^ d


def from_ops(stabs, logs, rounds):
    from plaquette.codes import LatticeCode
    return LatticeCode.from_operators([row(s) for s in stabs], [row(s) for s in logs], rounds)


KNOWN_OPS = {
    "422": (["XXXX", "ZZZZ"], ["XXII", "ZIZI", "XIXI", "ZZII"]),
    "steane": (["IIIXXXX", "IXXIIXX", "XIXIXIX", "IIIZZZZ", "IZZIIZZ", "ZIZIZIZ"],
               ["XXXXXXX", "ZZZZZZZ"]),
    "bitflip": (["ZZI", "IZZ"], ["XXX", "ZII"]),
    "phaseflip": (["XXI", "IXX"], ["ZZZ", "XII"]),
    "pairs": (["ZZIIII", "IIXXII", "IIIIZZ"], ["XXIIII", "ZIIIII", "IIXIII", "IIZZII",
                                              "IIIIXX", "IIIIIZ"]),
}


def user_code(rng, rounds, y_free=True, max_n=7):
    """(label, code) given by operators."""
    if rng.random() < 0.35:
        name = rng.choice(sorted(KNOWN_OPS))
        s, lo = KNOWN_OPS[name]
    else:
        for _ in range(20):
            n = rng.randrange(2, max_n + 1)
            k = rng.randrange(1, n)
            s, lo = rand_ops(rng, n, k, y_free)
            if not y_free or not any("Y" in o for o in s + lo):
                break
        else:
            s, lo = KNOWN_OPS["steane"]
    return ("user", tuple(s), tuple(lo), rounds), from_ops(s, lo, rounds)


# ------------------------------------------------------------------------------- distance
def errors(n, w, kinds="XYZ"):
    """All errors of weight exactly w as masks."""
    for qs in itertools.combinations(range(n), w):
        for ks in itertools.product(kinds, repeat=w):
            x = z = 0
            for q, ch in zip(qs, ks):
                x |= (ch in "XY") << q
                z |= (ch in "ZY") << q
            yield x, z


def distance_problem(view, d, kinds="XYZ"):
    """Evidence that the distance is not d (undetected logical fault of weight < d), or None."""
    cols = {}
    for q in range(view.n):
        for ch in "XZ":
            e = (1 << q, 0) if ch == "X" else (0, 1 << q)
            s = lg = 0
            for i, st in enumerate(view.stabs):
                s |= anti(st, e) << i
            for i, lo in enumerate(view.logs):
                lg |= anti(lo, e) << i
            cols[q, ch] = (s, lg)

    def vec(e):
        s = lg = 0
        for q in range(view.n):
            if e[0] >> q & 1:
                a = cols[q, "X"]
                s, lg = s ^ a[0], lg ^ a[1]
            if e[1] >> q & 1:
                a = cols[q, "Z"]
                s, lg = s ^ a[0], lg ^ a[1]
        return s, lg
    a, b = (d - 1) // 2, d // 2
    table = {}
    for w in range(a + 1):
        for e in errors(view.n, w, kinds):
            s, lg = vec(e)
            if table.setdefault(s, (lg, e))[0] != lg:
                return f"{letters(mul(e, table[s][1]), view.n)} is an undetected logical operator"
    if b > a:
        for e in errors(view.n, b, kinds):
            s, lg = vec(e)
            if s in table and table[s][0] != lg:
                return f"{letters(mul(e, table[s][1]), view.n)} is an undetected logical operator"
    return None


# ------------------------------------------------------------------------------- experiments
def choice(rng, view):
    """Random choice of logical operators to measure: (argument, indices)."""
    sel = [rng.randrange(2) for _ in range(view.k)]
    idx = [2 * q + s for q, s in enumerate(sel)]
    if rng.random() < 0.5:
        return "".join("XZ"[s] for s in sel), idx
    if rng.random() < 0.5:
        rng.shuffle(idx)
    return list(idx), idx


def readable(view, idx):
    """Can these operators be read from the data qubits at once?"""
    fac = {}
    for i in idx:
        x, z = view.logs[i]
        for q in range(view.n):
            f = (x >> q & 1, z >> q & 1)
            if f != (0, 0) and fac.setdefault(q, f) != f:
                return False
    return True


def gates_of(circuit):
    return [(n, tuple(a)) for n, a in circuit.gates]


class Layout:
    """Meaning of every measurement and erasure flag of a generated circuit, found by walking
    through its instructions."""

    def __init__(self, gates, view, idx, ancilla):
        n, ns = view.n, len(view.stabs)
        self.gates = gates
        self.initial, self.final = [[] for _ in idx], [[] for _ in idx]
        self.stab = []            # per round: {generator: position}
        self.erasures = []        # (round, qubit)
        self.problem = None
        groups = {False: [], True: []}
        pos = 0
        for name, args in gates:
            if name == "M":
                for q in args:
                    if n <= q < n + ns:
                        if not self.stab or len(self.stab[-1]) == ns:
                            self.stab.append({})
                        if q - n in self.stab[-1]:
                            self.problem = f"generator {q - n} measured twice in a round"
                        self.stab[-1][q - n] = pos
                    else:
                        groups[len(self.stab) > 0].append((q, pos))
                    pos += 1
            elif name == "E_ERASE":
                self.erasures.append((len(self.stab) - 1, args[1]))
        self.n_meas = pos
        for after, out in ((False, self.initial), (True, self.final)):
            it = iter(groups[after])
            for j, i in enumerate(idx):
                x, z = view.logs[i]
                want = ([n + ns + i] if ancilla else
                        [q for q in range(n) if (x | z) >> q & 1])
                got = {}
                for _ in want:
                    q, p = next(it, (None, None))
                    got[q] = p
                if sorted(got, key=str) != sorted(want, key=str):
                    self.problem = f"logical operator {i}: qubits {sorted(got, key=str)} are read"
                out[j] = list(got.values())
            if next(it, None) is not None:
                self.problem = "more qubits are read than the logical operators have"
        if view.rounds is not None and len(self.stab) != view.rounds + 1 and ns:
            self.problem = f"{len(self.stab)} rounds of generators, not {view.rounds + 1}"

    def unpack(self, raw):
        """(initial, final, generators per round) of a raw record."""
        raw = [int(b) for b in raw]
        par = [[sum(raw[p] for p in ps) % 2 for ps in grp] for grp in (self.initial, self.final)]
        ns = len(self.stab[0]) if self.stab else 0
        st = [[raw[rd[g]] for g in range(ns)] for rd in self.stab]
        return par[0], par[1], st


def generate(code, qerr, gerr, arg, ancilla):
    from plaquette.circuit.generator import generate_qec_circuit
    return generate_qec_circuit(code, qerr, gerr, arg, ancilla)


def sample(dev, ci):
    dev.run(ci)
    return dev.get_sample()


def unpack(code, raw, era, arg, ancilla):
    """The library's unpacking."""
    from plaquette.device import MeasurementSample
    return MeasurementSample.from_code_and_raw_results(
        code, raw, era, logical_ancilla=ancilla, logical_ops=arg)


def unpack_default(code, raw, era, ancilla):
    from plaquette.device import MeasurementSample
    return MeasurementSample.from_code_and_raw_results(code, raw, era, ancilla)


def some_code(rng, max_data=26, user=0.3, rounds=None):
    rounds = rounds if rounds is not None else rounds_of(rng)
    if rng.random() < user:
        return user_code(rng, rounds)
    return pick(rng, max_data, rounds=rounds)


def some_setup(rng, max_data=26, user=0.3, rounds=None):
    """label, code, view, logical argument, indices, ancilla flag."""
    label, code = some_code(rng, max_data, user, rounds)
    view = View(code)
    ancilla = rng.random() < 0.5
    for _ in range(10):
        arg, idx = choice(rng, view)
        if ancilla or readable(view, idx):
            break
    else:
        ancilla = True
    return label, code, view, arg, idx, ancilla
