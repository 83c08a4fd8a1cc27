"""P32: measuring the stabilisers is fault tolerant and follows the given order of gates."""
import itertools

from mon import qec
from mon.core import W

RULE = ("circuits of bundled codes (planar, rotated planar with XZ and XZZX generators, toric, "
        "repetition) with two to four rounds, both readouts and, where the operators are those of "
        "the lattice, other orders of the gates; every single fault (any Pauli on the qubits of an "
        "instruction right after it, a wrong readout, a Pauli on a data qubit) between the first "
        "and the last round of measurements is followed through the instructions of the generated "
        "circuit; all combinations of fewer than d of them are searched for one without syndrome "
        "that changes a logical value; faulty circuits are run on the simulators and their "
        "unpacked records compared with the prediction; random orders of the gates, which must be "
        "refused or give constant generator values; non-trivial = distinct (code, operators, "
        "readout, order, fault set)")
ASSUMPTIONS = ["the first and the last round of generator measurements are free of faults, as in "
               "all generated circuits", "the repetition code protects one readout only",
               "five-qubit, Shor, fabricated and user codes measure large generators with a single "
               "ancilla one after the other, which is not fault tolerant (and not claimed)",
               "rotated codes: default order of the gates (other orders measure the same, but "
               "with smaller distance)",
               "orders measure the generators if the first direction is opposite to the last one "
               "and the second to the third (others are refused by the generator)"]
MINIMA = {"faults_followed": 30000, "searches": 60, "shots": 1500, "orders_accepted": 40,
          "orders_refused": 40, "combinations": 300}

PLUS = ((0, 1), (-1, 0), (1, 0), (0, -1))
DIAG = ((1, 1), (-1, 1), (1, -1), (-1, -1))


def opposite(a, b):
    return a[0] == -b[0] and a[1] == -b[1]


def sound(order):
    return opposite(order[0], order[3]) and opposite(order[1], order[2])


def lattice(kind, size, order=None, xzzx=False):
    from plaquette.codes import latticeinstances as li
    kw = {} if order is None else {"edge_order": order}
    if kind == "repetition":
        return li.RepetitionCodeLattice(size)
    if kind == "rotated":
        return li.RotatedPlanarCodeLattice(size, xzzx=xzzx, **kw)
    return {"planar": li.PlanarCodeLattice, "toric": li.ToricCodeLattice}[kind](size, **kw)


def setup(r, maxsize, rounds=None, kinds=("planar", "rotated", "xzzx", "toric", "repetition")):
    """(label, code, view, argument, indices, ancilla)."""
    from plaquette.codes import LatticeCode
    kind = r.choice(kinds)
    size = r.randrange(2, maxsize[kind] + 1)
    order = None
    if kind in ("planar", "toric") and r.random() < 0.6:
        order = r.choice([o for o in itertools.permutations(PLUS) if sound(o)])
    rounds = rounds or r.choice((2, 2, 3))
    if kind == "repetition":
        size |= 1
    lat = lattice("rotated" if kind == "xzzx" else kind, size, order, kind == "xzzx")
    code = LatticeCode(lat, n_rounds=rounds)
    view = qec.View(code)
    if kind == "repetition":   # only bit flips are detected
        idx = [next(i for i, (x, z) in enumerate(view.logs) if z and not x)]
        arg = list(idx)
    else:
        arg, idx = qec.choice(r, view)
    anc = r.random() < 0.4 or not qec.readable(view, idx)
    return (kind, size, rounds, order), code, view, arg, idx, anc


ONE = {"H", "X", "Y", "Z", "S", "R", "M", "I"}
PAULIS = [(a, b) for a in range(4) for b in range(4) if (a, b) != (0, 0)]


def steps(gates):
    """Elementary instructions (name, qubits)."""
    for name, args in gates:
        if name in ("CX", "CZ"):
            for k in range(0, len(args), 2):
                yield name, args[k:k + 2]
        elif name in ONE:
            for q in args:
                yield name, (q,)
        else:
            raise NotImplementedError(name)


def region(ops, n, ns, rounds):
    """Places between the first and the last round of generator measurements."""
    at = [k for k, (name, qs) in enumerate(ops) if name == "M" and n <= qs[0] < n + ns]
    assert len(at) == ns * (rounds + 1), "number of generator measurements"
    a = at[ns - 1] + 1
    # The last round starts with the first reset (or gate) of an ancilla after the one before.
    b = at[-ns - 1] + 1
    return a, b


def places(ops, a, b, n):
    """All faults (position, ((qubit, letter), ...)): applied before instruction `position`."""
    out = []
    for q in range(n):
        for pos in (a, b):
            out += [(pos, ((q, ch),)) for ch in "XYZ"]
    for k in range(a, b):
        name, qs = ops[k]
        if name == "M":
            out.append((k, ((qs[0], "X"),)))
        elif name in ("CX", "CZ"):
            out += [(k + 1, tuple((q, "IXYZ"[p]) for q, p in zip(qs, pp) if p)) for pp in PAULIS]
        else:
            out += [(k + 1, ((qs[0], ch),)) for ch in "XYZ"]
    return out


def follow(ops, faults, n_qubits):
    """Flips of every measurement, as masks over the faults."""
    x, z = [0] * n_qubits, [0] * n_qubits
    by = {}
    for j, (pos, what) in enumerate(faults):
        by.setdefault(pos, []).append((j, what))
    rec = []
    for k in range(len(ops) + 1):
        for j, what in by.get(k, ()):
            for q, ch in what:
                if ch in "XY":
                    x[q] ^= 1 << j
                if ch in "ZY":
                    z[q] ^= 1 << j
        if k == len(ops):
            break
        name, qs = ops[k]
        q = qs[0]
        if name == "H":
            x[q], z[q] = z[q], x[q]
        elif name == "S":
            z[q] ^= x[q]
        elif name == "R":
            x[q] = z[q] = 0
        elif name == "M":
            rec.append(x[q])
            z[q] = 0
        elif name == "CX":
            t = qs[1]
            x[t] ^= x[q]
            z[q] ^= z[t]
        elif name == "CZ":
            t = qs[1]
            z[t] ^= x[q]
            z[q] ^= x[t]
    return rec


def signatures(lay, rec, n_faults, rounds, ns):
    """Per fault: (mask of the syndrome bits [round, generator], mask of the logical changes)."""
    def xor(ps):
        m = 0
        for p in ps:
            m ^= rec[p]
        return m
    rows = [rec[lay.stab[t + 1][s]] ^ rec[lay.stab[t][s]]
            for t in range(rounds) for s in range(ns)]
    logs = [xor(i) ^ xor(f) for i, f in zip(lay.initial, lay.final)]
    det, log = [0] * n_faults, [0] * n_faults
    for masks, out in ((rows, det), (logs, log)):
        for b, m in enumerate(masks):
            while m:
                low = m & -m
                out[low.bit_length() - 1] |= 1 << b
                m ^= low
    return list(zip(det, log))


def _pack(sigs):
    """Distinct signatures {detectors: {logical: fault}}."""
    one = {}
    for j, (d, lo) in enumerate(sigs):
        one.setdefault(d, {}).setdefault(lo, j)
    return one


def search(sigs, most):
    """Up to `most` (at most 4) faults without syndrome that change a logical value."""
    one = _pack(sigs)
    for lo, j in one.get(0, {}).items():
        if lo:
            return [j]
    if most < 2:
        return None
    for d, m in one.items():
        if len(m) > 1:
            return list(m.values())[:2]
    if most < 3:
        return None
    flat = [(d, lo, j) for d, m in one.items() if d for lo, j in m.items()]
    two = {}
    for i, (d, lo, j) in enumerate(flat):
        for e, le, k in flat[:i]:
            s, ls = d ^ e, lo ^ le
            if s in one:
                for l3, j3 in one[s].items():
                    if l3 != ls:
                        return [j, k, j3]
            if most > 3:
                old = two.setdefault(s, (ls, j, k))
                if old[0] != ls:
                    return [j, k, old[1], old[2]]
    return None


def search_graph(sigs, most, dets):
    """The same for any number, using only the syndrome bits in the mask `dets`, of which each
    fault changes at most two.  Returns (problem or None, whether the search was possible)."""
    one = {}
    for j, (d, lo) in enumerate(sigs):
        one.setdefault(d & dets, {}).setdefault(lo & 1, (d, j))
    adj = {}
    for d, m in one.items():
        if d == 0:
            if 1 in m:
                return m[1][1:], True
            continue
        bits = [b for b in range(d.bit_length()) if d >> b & 1]
        if len(bits) > 2:
            return None, False
        u, v = bits if len(bits) == 2 else (bits[0], -1)
        for lo, (_, j) in m.items():
            adj.setdefault(u, []).append((v, lo, j))
            adj.setdefault(v, []).append((u, lo, j))
    best = None
    for start in ([-1] if -1 in adj else []) + sorted(k for k in adj if k >= 0):
        dist = {(start, 0): ()}
        layer = [(start, 0)]
        for _ in range(most):
            new = []
            for node in layer:
                for v, lo, j in adj[node[0]]:
                    t = (v, node[1] ^ lo)
                    if t not in dist:
                        dist[t] = dist[node] + (j,)
                        new.append(t)
            layer = new
            if (start, 1) in dist:
                best = dist[start, 1]
                most = len(best) - 1
                break
        if best is not None:
            return best, True
    return None, True


def circuit_of(ops, fs):
    from plaquette.circuit import Circuit
    ci = Circuit()
    by = {}
    for pos, what in fs:
        by.setdefault(pos, []).extend(what)
    for k in range(len(ops) + 1):
        for q, ch in by.get(k, ()):
            ci.append(ch, q)
        if k < len(ops):
            ci.append(ops[k][0], *ops[k][1])
    return ci


def prepare(c, s):
    label, code, view, arg, idx, anc = s
    n, ns = view.n, len(view.stabs)
    ci = qec.generate(code, {}, {}, arg, anc)
    gates = qec.gates_of(ci)
    lay = qec.Layout(gates, view, idx, anc)
    c.check(lay.problem is None, "layout", lambda: f"{label}: {lay.problem}")
    ops = list(steps(gates))
    a, b = region(ops, n, ns, code.n_rounds)
    faults = places(ops, a, b, n)
    rec = follow(ops, faults, n + ns + len(view.logs))
    sigs = signatures(lay, rec, len(faults), code.n_rounds, ns)
    c.ev("faults_followed", len(faults))
    return ops, faults, sigs, lay


def describe(faults, js):
    return ", ".join("".join(f"{ch}{q}" for q, ch in faults[j][1]) + f" before {faults[j][0]}"
                     for j in js)


def observed(c, s, ops, faults, sigs, js, sim, shots=1):
    """Run the circuit with these faults and compare the unpacked record with the prediction."""
    from plaquette import Device
    label, code, view, arg, idx, anc = s
    ns = len(view.stabs)
    det = log = 0
    for j in js:
        det ^= sigs[j][0]
        log ^= sigs[j][1]
    ci = circuit_of(ops, [faults[j] for j in js])
    dev = Device(sim)
    for _ in range(shots):
        raw, era = qec.sample(dev, ci)
        m = qec.unpack(code, raw, None, arg, anc)
        got = sum(int(v) << k for k, v in enumerate(m.syndrome.reshape(-1)))
        tog = sum(int(v) << k for k, v in enumerate(m.logical_op_toggle))
        what = f"{label} logical {arg} with {describe(faults, js)} on {sim}"
        c.check(got == det, "syndrome", lambda: f"{what}: syndrome {got:b}, predicted {det:b}")
        c.check(tog == log, "toggle", lambda: f"{what}: logical change {tog:b}, predicted {log:b}")
        d = label[1]
        c.check(got or not tog or len(js) >= d, "undetected", lambda: f"{what}: {len(js)} faults "
                "change a logical value without any syndrome")
        c.ev("shots")
    c.sig(label, tuple(idx), anc, tuple(sorted(js)))


def _found(c, s, ops, faults, sigs, js):
    """Confirm a combination by running it."""
    label, code, view, arg, idx, anc = s
    observed(c, s, ops, faults, sigs, js, "stim", 2)
    c.fail("undetected", f"{label} logical {arg}: {describe(faults, js)}: {len(js)} faults change "
           "a logical value without any syndrome")


SMALL = {"planar": 3, "rotated": 4, "xzzx": 4, "toric": 3, "repetition": 5}
LARGE = {"planar": 5, "rotated": 5, "xzzx": 5, "toric": 4, "repetition": 7}


def distance(c, sizes=SMALL, runs=12):
    r = c.rng
    s = setup(r, sizes)
    label, code, view, arg, idx, anc = s
    ops, faults, sigs, lay = prepare(c, s)
    js = search(sigs, min(label[1] - 1, 4))
    if js is not None:
        _found(c, s, ops, faults, sigs, js)
    c.ev("searches")
    c.sig("search", label, tuple(idx), anc)
    sims = ("stim", "clifford") if view.n < 20 else ("stim",)
    for k in range(runs):
        w = 1 if k % 2 == 0 else r.randrange(2, max(3, label[1] + 2))
        observed(c, s, ops, faults, sigs, r.sample(range(len(faults)), w), r.choice(sims))
        c.ev("combinations", w > 1)
    c.show(code=label, logical=str(arg), faults=len(faults), sample=describe(faults, [0, 1, 2]))


def larger(c):
    """Distances too large for a complete search: shortest paths for one kind of generators."""
    r = c.rng
    s = setup(r, {"planar": 7, "rotated": 9, "xzzx": 9, "toric": 6, "repetition": 13}, 2)
    label, code, view, arg, idx, anc = s
    ops, faults, sigs, lay = prepare(c, s)
    ns = len(view.stabs)
    for b, i in enumerate(idx):
        mine = [(d, lo >> b & 1) for d, lo in sigs]
        # generators that see the errors which change this operator: those like the partner on
        # which they differ from it
        ok = False
        for grp in _groups(view, i):
            dets = sum(1 << (t * ns + g) for t in range(code.n_rounds) for g in grp)
            js, possible = search_graph(mine, label[1] - 1, dets)
            if not possible:
                continue
            if js is None:
                ok = True
                break
            if not _sum(sigs, js)[0]:
                _found(c, s, ops, faults, sigs, list(js))
        c.ev("larger" if ok else "larger_undecided")
        c.ev("searches", ok)
    c.sig("larger", label, tuple(idx), anc)
    for _ in range(2):
        observed(c, s, ops, faults, sigs, r.sample(range(len(faults)), r.randrange(1, 5)), "stim")


def _sum(sigs, js):
    det = log = 0
    for j in js:
        det ^= sigs[j][0]
        log ^= sigs[j][1]
    return det, log


def _groups(view, i):
    """Sets of generators to look at: the classes of generators with the same letter, if there
    are such, and the two classes of a checkerboard (generators linked by sharing single-qubit
    errors)."""
    n = view.n
    # classes: generators connected by a qubit on which they have the same letter
    ns = len(view.stabs)
    comp = list(range(ns))

    def find(a):
        while comp[a] != a:
            a = comp[a]
        return a
    for q in range(n):
        seen = {}
        for g, (x, z) in enumerate(view.stabs):
            f = (x >> q & 1, z >> q & 1)
            if f != (0, 0):
                if f in seen:
                    comp[find(g)] = find(seen[f])
                seen[f] = g
    out = {}
    for g in range(ns):
        out.setdefault(find(g), []).append(g)
    return list(out.values())


def exhaustive(c):
    """Every single fault of a smallest code, run."""
    r = c.rng
    kind = ("rotated", "planar", "xzzx", "toric", "repetition")[c.index % 5]
    size = {"rotated": 3, "xzzx": 3, "planar": 2, "toric": 2, "repetition": 3}[kind]
    s = setup(r, {kind: size}, 2, (kind,))
    ops, faults, sigs, lay = prepare(c, s)
    every = range(len(faults)) if c.tier != "quick" else r.sample(
        range(len(faults)), min(len(faults), 120))
    for j in every:
        observed(c, s, ops, faults, sigs, [j], "stim" if j % 5 else "clifford")


def orders(c):
    """Any order of the gates: refused, or the generators are measured in this order."""
    from plaquette import Device
    from plaquette.codes import LatticeCode
    r = c.rng
    for _ in range(6):
        kind = r.choice(("planar", "rotated", "xzzx", "toric"))
        dirs = DIAG if kind in ("rotated", "xzzx") else PLUS
        order = tuple(r.sample(dirs, 4))
        if r.random() < 0.3:
            order = r.choice([o for o in itertools.permutations(dirs) if sound(o)])
        size = r.randrange(2, 4 if kind == "toric" else 5)
        code = LatticeCode(lattice("rotated" if kind == "xzzx" else kind, size, order,
                                   kind == "xzzx"), n_rounds=r.choice((1, 2)))
        view = qec.View(code)
        arg, idx = qec.choice(r, view)
        anc = r.random() < 0.5 or not qec.readable(view, idx)
        label = (kind, size, order)
        try:
            ci = qec.generate(code, {}, {}, arg, anc)
        except ValueError as e:
            c.check(not sound(order), "order-refused", lambda: f"{label}: {e}")
            c.ev("orders_refused")
            continue
        gates = qec.gates_of(ci)
        lay = qec.Layout(gates, view, idx, anc)
        c.check(lay.problem is None, "layout", lambda: f"{label}: {lay.problem}")
        for sim in ("stim", "clifford")[:1 if view.n > 15 else 2]:
            dev = Device(sim)
            for _ in range(2):
                raw, _era = qec.sample(dev, ci)
                a, b, st = lay.unpack(raw)
                c.check(all(x == st[0] for x in st), "order-syndrome", lambda: f"{label}: accepted "
                        f"but generator values change without errors: {st}")
                c.check(a == b, "order-logical", lambda: f"{label}: accepted but logical values "
                        f"change without errors: {a} {b}")
                c.ev("shots")
        _honoured(c, label, code, list(steps(gates)), order)
        c.ev("orders_accepted")
        c.sig("order", label, tuple(idx), anc)


def _honoured(c, label, code, ops, order):
    """The gates of every generator come in the given order of directions."""
    lat = code.lattice
    pos = {v.equbit_idx: v.pos for v in lat.equbits}
    stab = {v.equbit_idx for v in lat.stabgens}
    kind, size, _ = label
    shape = lat.lattice.shape
    swapped = (order[0], order[2], order[1], order[3])
    cur = {}
    for name, qs in ops:
        if name in ("CX", "CZ"):
            for p, q in (qs, qs[::-1]):
                if p in stab and q not in stab:
                    cur.setdefault(p, []).append(q)
        elif name == "M" and qs[0] in stab:
            p = qs[0]
            got = []
            for q in cur.pop(p, []):
                d = [pos[q][k] - pos[p][k] for k in (0, 1)]
                if kind == "toric":   # the far neighbour across the border
                    d = [(v if abs(v) <= 1 else (-1 if v > 0 else 1)) for v in d]
                got.append(tuple(d))
            def inorder(o):
                ks = [o.index(d) if d in o else -1 for d in got]
                return -1 not in ks and ks == sorted(ks) and len(set(ks)) == len(ks)
            ok = inorder(order) or (kind in ("rotated", "xzzx") and inorder(swapped))
            c.check(ok, "order", lambda: f"{label}: generator at {pos[p]} has its gates in the "
                    f"directions {got}, {shape}")


WORKLOADS = [
    W("distance", distance, 60, 1200),
    W("distance_large", lambda c: distance(c, LARGE, 4), 14, 250),
    W("larger", larger, 16, 300),
    W("exhaustive", exhaustive, 10, 100),
    W("orders", orders, 60, 1500),
]
