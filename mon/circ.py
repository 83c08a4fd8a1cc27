"""Random circuits and a reference executor for circuit instruction lists.

A circuit is a list of (name, args) in the library's documented instruction language.  The
executor keeps weighted branches (hidden choices of the noise), each a stabiliser state in
which a reset swaps the qubit for a fresh one, so that a reset or an erased qubit leaves a
correctly mixed state behind.
"""
from mon import ref

PAULI1 = "IXYZ"
GATES = ("X", "Y", "Z", "H", "CX", "CZ")
E1 = ("I", "X", "Y", "Z")
E2 = [a + b for a in "IXYZ" for b in "IXYZ"][1:]


class Branch:
    __slots__ = ("w", "st", "pos", "any", "apply")

    def __init__(self, w, st, pos, any_=False, apply_=False):
        self.w, self.st, self.pos, self.any, self.apply = w, st, pos, any_, apply_

    def copy(self, w=None):
        return Branch(self.w if w is None else w, self.st.copy(), list(self.pos), self.any,
                      self.apply)

    def fresh(self, q):
        """Qubit q becomes a fresh |0>; the old one stays behind as environment."""
        p = ref.from_letters("I" * self.pos[q] + "Z")
        v = self.st.value(p)
        if v == 1:
            return
        if v == -1:
            self.st.gate("X", self.pos[q])
            return
        self.st.g.append((0, 1 << self.st.n, 0))
        self.pos[q] = self.st.n
        self.st.n += 1

    def mixed(self, q):
        """Qubit q becomes maximally mixed and uncorrelated."""
        a = self.st.n
        self.st.g += [(3 << a, 0, 0), (0, 3 << a, 0)]
        self.st.n += 2
        self.pos[q] = a

    def pauli(self, letters, qs):
        x = z = 0
        for ch, q in zip(letters, qs):
            x ^= (ch in "XY") << self.pos[q]
            z ^= (ch in "ZY") << self.pos[q]
        self.st.pauli((x, z, 0))


class Refused(Exception):
    pass


class Executor:
    """Follows a record: feed instructions, ask which outcomes are possible."""

    def __init__(self, n):
        self.br = [Branch(1.0, ref.State(n), list(range(n)))]
        self.in_error = False

    def start(self):
        """Beginning of a circuit (also when continuing without reset)."""
        self.in_error = False

    # every step consumes outcomes through `take(kind, prob_of_one) -> bit`
    def step(self, name, args, take):
        if name in ("ERROR", "ERROR_ELSE", "ERROR_CONTINUE"):
            if name == "ERROR":
                self.in_error = True
            elif not self.in_error:
                raise Refused(name)
            if name == "ERROR_CONTINUE":
                self._gate(args[0], args[1:], take, lambda b: b.apply)
                return
            p = args[0]
            new = []
            for b in self.br:
                if name == "ERROR_ELSE" and b.any:
                    b.apply = False
                    new.append(b)
                    continue
                b.any = b.apply = False
                if p < 1:
                    new.append(b.copy(b.w * (1 - p)))
                if p > 0:
                    t = b.copy(b.w * p)
                    t.any = t.apply = True
                    new.append(t)
            self.br = new
            self._gate(args[1], args[2:], take, lambda b: b.apply)
        else:
            self.in_error = False
            self._gate(name, args, take, lambda b: True)

    def _gate(self, name, args, take, cond):
        if name in ("X", "Y", "Z", "H"):
            for b in self.br:
                if cond(b):
                    for q in args:
                        b.st.gate(name, b.pos[q])
        elif name in ("CX", "CZ"):
            for b in self.br:
                if cond(b):
                    for a, t in zip(args[::2], args[1::2]):
                        b.st.gate(name, b.pos[a], b.pos[t])
        elif name == "R":
            for b in self.br:
                if cond(b):
                    for q in args:
                        b.fresh(q)
        elif name == "M":
            assert all(cond(b) for b in self.br)
            for q in args:
                one = tot = 0.0
                vals = []
                for b in self.br:
                    v = b.st.value(ref.from_letters("I" * b.pos[q] + "Z"))
                    vals.append(v)
                    one += b.w * (0.5 if v == 0 else float(v < 0))
                    tot += b.w
                m = take("M", one / tot if tot else 0.5)
                new = []
                for b, v in zip(self.br, vals):
                    if v == 0:
                        b.st.project(ref.from_letters("I" * b.pos[q] + "Z"), m)
                        b.w /= 2
                        new.append(b)
                    elif (v < 0) == bool(m):
                        new.append(b)
                self.br = new
        elif name == "DEPOLARIZE":
            for q in args:
                self._split([("X", 1 / 3), ("Y", 1 / 3), ("Z", 1 / 3)], (q,), cond)
        elif name == "E_PAULI":
            ps = [max(0.0, 1 - sum(args[:3]))] + list(args[:3])
            self._split(list(zip(E1, ps)), args[3:], cond)
        elif name == "E_PAULI2":
            ps = [max(0.0, 1 - sum(args[:15]))] + list(args[:15])
            self._split(list(zip(["II"] + E2, ps)), args[15:], cond)
        elif name == "E_ERASE":
            assert all(cond(b) for b in self.br)
            e = take("E", args[0])
            for b in self.br:
                b.w *= args[0] if e else 1 - args[0]
                if e:
                    b.mixed(args[1])
            self.br = [b for b in self.br if b.w > 0]
        else:
            raise AssertionError(name)
        self._merge()

    def _split(self, events, qs, cond):
        new = []
        for b in self.br:
            if not cond(b):
                new.append(b)
                continue
            for ch, p in events:
                if p > 1e-12:
                    t = b.copy(b.w * p)
                    t.pauli(ch, qs)
                    new.append(t)
        self.br = new

    def _merge(self):
        if len(self.br) < 9:
            return
        seen = {}
        for b in self.br:
            key = (tuple(b.st.canonical()), tuple(b.pos), b.any, b.apply)
            if key in seen:
                seen[key].w += b.w
            else:
                seen[key] = b
        self.br = list(seen.values())


def follow(gates, n, meas, erasures, ex=None):
    """None if (meas, erasures) is a record the circuit can produce, else a message."""
    ex = ex or Executor(n)
    ex.start()
    it_m, it_e = iter(meas), iter(erasures)
    info = dict(random=0, certain=0, bad=None, i=-1)

    def take(kind, p1):
        try:
            b = int(next(it_m if kind == "M" else it_e))
        except StopIteration:
            info["bad"] = f"record of {'results' if kind == 'M' else 'erasures'} too short"
            b = 0
        if b not in (0, 1):
            info["bad"] = f"{kind} entry {b!r} is no bit"
        if (p1 < 1e-12 and b) or (p1 > 1 - 1e-12 and not b):
            info["bad"] = info["bad"] or (
                f"{'outcome' if kind == 'M' else 'erasure flag'} {b} is impossible at "
                f"instruction {info['i']} ({gates[info['i']]})")
        if kind == "M":
            info["certain" if min(p1, 1 - p1) < 1e-12 else "random"] += 1
        return b
    for i, (name, args) in enumerate(gates):
        info["i"] = i
        ex.step(name, args, take)
        if info["bad"]:
            return info["bad"], info
        assert ex.br
    if next(it_m, None) is not None:
        return "too many measurement results", info
    if next(it_e, None) is not None:
        return "too many erasure flags", info
    return None, info


def distribution(gates, n):
    """Exact probabilities of all records {(meas tuple, erasure tuple): p}."""
    out = {}
    stack = [()]
    while stack:
        prefix = stack.pop()
        bits, pr = [], 1.0
        kinds = []
        ex = Executor(n)
        dead = False

        def take(kind, p1):
            nonlocal pr
            k = len(bits)
            if k < len(prefix):
                b = prefix[k]
            else:
                b = 0 if p1 < 1 - 1e-12 else 1
                if 1e-12 < p1 < 1 - 1e-12:
                    stack.append(tuple(bits) + (1,))
            bits.append(b)
            kinds.append(kind)
            pr *= p1 if b else 1 - p1
            return b
        for name, args in gates:
            ex.step(name, args, take)
            if not ex.br:
                dead = True
                break
        if dead:
            continue
        key = (tuple(b for b, k in zip(bits, kinds) if k == "M"),
               tuple(b for b, k in zip(bits, kinds) if k == "E"))
        out[key] = out.get(key, 0) + pr
    return out


# -------------------------------------------------------------------------- generators
def rand_gate(rng, n, names=GATES):
    g = rng.choice(names)
    if g in ("CX", "CZ"):
        if n < 2:
            return ("H", (0,))
        m = rng.choice((1, 1, 1, 2))
        if n >= 4 and m == 2:
            return (g, tuple(rng.sample(range(n), 4)))
        if m == 2 and n >= 3:  # chained pairs
            a, b, c = rng.sample(range(n), 3)
            return (g, rng.choice([(a, b, b, c), (a, b, a, c), (a, c, b, c)]))
        return (g, tuple(rng.sample(range(n), 2)))
    return (g, some(rng, n, 3))


def some(rng, n, most):
    """Qubits of one instruction, now and then one of them several times."""
    if rng.random() < 0.03:
        most = n
    q = rng.sample(range(n), rng.randrange(1, min(n, most) + 1))
    if rng.random() < 0.1:
        for _ in range(rng.randrange(1, 3)):
            q.insert(rng.randrange(len(q) + 1), rng.choice(q))
    return tuple(q)


def rand_clean(rng, n, depth, p_m=0.2, p_r=0.1):
    """Gates, measurements and resets."""
    out = []
    for _ in range(depth):
        r = rng.random()
        if r < p_m:
            out.append(("M", some(rng, n, 3)))
        elif r < p_m + p_r:
            out.append(("R", some(rng, n, 2)))
        else:
            out.append(rand_gate(rng, n))
    return out


def probs(rng, k, kind):
    """k event probabilities with sum <= 1."""
    if kind == "zero":
        return [0.0] * k
    if kind == "one":
        p = [0.0] * k
        p[rng.randrange(k)] = 1.0
        return p
    if rng.random() < 0.15:   # something certainly happens
        w = [0] * k
        for _ in range(100):
            w[rng.randrange(min(k, 4))] += 1
        rng.shuffle(w)
        return [x / 100 for x in w]
    w = [rng.random() ** 2 if rng.random() < 0.8 else 0.0 for _ in range(k)]
    tot = sum(w) / rng.choice((1.0, 0.9, 0.5, 0.3)) or 1.0
    return [round(x / tot * 0.999, 4) for x in w]


def rand_noise(rng, n, kind="any", stim=True):
    """One noise instruction (or chain) as a list."""
    c = rng.choice(("E_PAULI", "E_PAULI", "E_PAULI2", "E_ERASE", "ERROR", "DEPOLARIZE")
                   + (() if stim else ("CHAIN", "CHAIN", "MULTI")))
    if c == "E_PAULI2" and n < 2:
        c = "E_PAULI"

    def p():
        return {"zero": 0.0, "one": 1.0}.get(kind, round(rng.random(), 3))
    if c == "E_PAULI":
        return [(c, (*probs(rng, 3, kind), rng.randrange(n)))]
    if c == "E_PAULI2":
        return [(c, (*probs(rng, 15, kind), *rng.sample(range(n), 2)))]
    if c == "E_ERASE":
        return [(c, (p(), rng.randrange(n)))]
    if c == "DEPOLARIZE":
        if kind == "zero":
            return [("ERROR", (0.0, "Z", rng.randrange(n)))]
        return [(c, some(rng, n, 2))]
    if c == "ERROR":
        return [(c, (p(), rng.choice("XYZ"), rng.randrange(n)))]
    if c == "MULTI":
        return [("ERROR", (p(), *inner(rng, n)))]
    out = [("ERROR", (p(), *inner(rng, n)))]
    for _ in range(rng.randrange(1, 5)):
        if rng.random() < 0.5:
            out.append(("ERROR_CONTINUE", inner(rng, n)))
        else:
            pe = p() if kind == "any" else rng.choice((0.0, 1.0))
            out.append(("ERROR_ELSE", (pe, *inner(rng, n))))
    return out


def inner(rng, n):
    r = rng.random()
    if r < 0.85:
        name, args = rand_gate(rng, n, GATES + ("X", "Z", "Y"))
        return (name, *args)
    if r < 0.93:
        return ("R", *rng.sample(range(n), 1))
    ps = [0.0, 0.0, 0.0]
    ps[rng.randrange(3)] = 1.0
    return ("E_PAULI", *ps, rng.randrange(n))


def text(gates):
    return "\n".join(f"{n} " + " ".join(map(str, a)) for n, a in gates)


def build(gates):
    from plaquette.circuit import Circuit
    c = Circuit()
    for name, args in gates:
        c.append(name, *args)
    return c


def simulator(name):
    """Class of a bundled simulator (by its registered name)."""
    from plaquette.device import recognized_devices
    return recognized_devices[name].load()


def n_qubits(gates):
    """Highest qubit plus one."""
    top = 0
    for name, args in gates:
        qs = qubits_of(name, args)
        top = max([top, *qs])
    return top + 1


def qubits_of(name, args):
    if name in ("ERROR", "ERROR_ELSE"):
        return qubits_of(args[1], args[2:])
    if name == "ERROR_CONTINUE":
        return qubits_of(args[0], args[1:])
    return args[{"E_PAULI": 3, "E_PAULI2": 15, "E_ERASE": 1}.get(name, 0):]


def bits(a):
    return () if a is None else tuple(int(v) for v in a)
