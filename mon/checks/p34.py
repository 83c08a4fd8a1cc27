"""P34: plugin devices and user-defined decoders get the user's input and give the result."""
from mon import circ, dec, qec, raw
from mon.core import W

RULE = ("recording device plugins registered next to the built-in devices, driven through random "
        "histories of runs, samples, resets and status queries; recording simulators; devices "
        "with options and their simulators; recording "
        "decoder backends (also ones that answer like the built-in ones, at random or fail) in "
        "histories of decodings with weights, erasures and changed weights; everything they receive "
        "is compared with what the user gave, and everything they answer with what the user gets; "
        "non-trivial = distinct (kind, history)")
ASSUMPTIONS = ["a plugin is what `recognized_devices` holds: an entry with a name and a load method"]
MINIMA = {"plugin_calls": 1000, "option_runs": 200, "refused_names": 100, "simulators": 30, "backends": 300,
          "backend_decodes": 600, "reweighted": 40, "edges_selected": 1000}


class _Entry:
    """Stand-in of an installed entry point."""

    def __init__(self, name, cls):
        self.name, self.cls, self.loads = name, cls, 0

    def load(self):
        self.loads += 1
        return self.cls


def _plugin(log):
    class Plugin:
        """Device that records everything and answers with fresh objects."""

        def __init__(self, *args, **kw):
            log.append(("init", args, kw))
            self.circ, self.state, self.n_qubits = object(), object(), object()
            self.pos = 0

        def _out(self, what, *args):
            out = object()
            log.append((what, *args, out))
            return out

        def run(self, *args, **kw):
            return self._out("run", args, kw)

        def get_sample(self, *args, **kw):
            return self._out("get_sample", args, kw)

        def reset(self, *args, **kw):
            return self._out("reset", args, kw)

        @property
        def is_completed(self):
            return self._out("is_completed")

        def __iter__(self):
            self.pos = 0
            return iter([self.circ, self.state])

        def __next__(self):
            self.pos += 1
            return self.pos
    return Plugin


def plugins(c):
    import plaquette.device as pd
    from plaquette import Device
    r = c.rng
    logs = [[], []]
    names = r.sample(["fake", "Clifford", "stim2", "remote-1", "", "cliffordstim"], 2)
    entries = [_Entry(n, _plugin(lg)) for n, lg in zip(names, logs)]
    pd.recognized_devices.update({e.name: e for e in entries})
    try:
        devs = []
        for _ in range(r.choice((1, 2, 3))):
            k = r.randrange(2)
            args = tuple(object() for _ in range(r.randrange(3)))
            kw = {a: object() for a in r.sample(("token", "backend_url", "shots", "circuit"),
                                                r.randrange(3))}
            d = Device(names[k], *args, **kw)
            c.check(logs[k] == [("init", args, kw)] and not logs[1 - k] and entries[k].loads > 0,
                    "created", lambda: f"backend {names[k]!r} was created with {logs}")
            devs.append((d, k))
            logs[k].clear()
        circuits = [circ_obj(r) for _ in range(3)]
        texts = [str(x) for x in circuits]
        hist = []
        for _ in range(25):
            d, k = r.choice(devs)
            lg = logs[k]
            before, other = len(lg), len(logs[1 - k])
            what = r.choice(("run", "run", "shots", "get", "reset", "done", "attr", "iter"))
            hist.append((devs.index((d, k)), what))
            if what in ("run", "shots"):
                ci = r.choice(circuits)
                n = 1 if what == "run" else r.choice((1, 2, 1000, 10**9))
                kw = {} if what == "run" else {"shots": n}
                if r.random() < 0.2:
                    kw["after_reset"] = r.random() < 0.5
                out = d.run(ci, **kw)
                got = lg[before:]
                c.check(len(got) == 1 and got[0][0] == "run" and len(got[0][1]) == 1 and
                        got[0][1][0] is ci and got[0][2] == {"shots": n} and got[0][3] is out,
                        "run", lambda: f"run({ci!r}, {kw}) reached the backend as {got}, returned "
                        f"{out!r}")
            elif what == "get":
                out = d.get_sample()
                got = lg[before:]
                c.check(got == [("get_sample", (), {}, out)], "sample",
                        lambda: f"get_sample reached the backend as {got}, returned {out!r}")
            elif what == "reset":
                args, kw = (object(),) * r.randrange(2), {"hard": object()} if r.random() < .5 else {}
                out = d.reset_backend(*args, **kw)
                c.check(lg[before:] == [("reset", args, kw, out)], "reset",
                        lambda: f"reset_backend{args} {kw} reached the backend as {lg[before:]}")
            elif what == "done":
                out = d.is_completed
                c.check(lg[before:] == [("is_completed", out)], "completed",
                        lambda: f"is_completed reached the backend as {lg[before:]}, gave {out!r}")
            elif what == "attr":
                be = d._backend
                c.check(d.state is be.state and d.n_qubits is be.n_qubits and d.circuit is be.circ,
                        "attributes", "state, n_qubits or circuit differ from the backend's")
                new = object()
                d.circuit = new
                c.check(be.circ is new and d.circuit is new, "circuit",
                        "assigning the circuit does not reach the backend")
            else:
                be = d._backend
                c.check([id(x) for x in d] == [id(be.circ), id(be.state)], "iterate",
                        "iterating the device does not iterate the backend")
                p = be.pos
                c.check(next(d) == p + 1, "next", "next() of the device")
            c.check(len(logs[1 - k]) == other, "other-backend", lambda: f"{what} of {names[k]!r} "
                    f"reached {names[1 - k]!r}: {logs[1 - k][other:]}")
            c.ev("plugin_calls")
        c.check([str(x) for x in circuits] == texts, "modified", "a circuit was changed")
        # the built-in devices do not notice
        dev = Device(r.choice(("clifford", "stim")))
        c.check(dev.is_completed is None, "completed", "is_completed of a simulator is not None")
        dev.run(circuits[0])
        raw, _ = dev.get_sample()
        n = sum(len(a) for g, a in circuits[0].gates if g == "M")
        c.check(len(raw) == n and dev.is_completed is None, "builtin", "sample of a built-in device")
    finally:
        for e in entries:
            pd.recognized_devices.pop(e.name, None)
    for bad in (*names, "CLIFFORD", "Stim", "clifford ", "stim\n", "circuit", "", "device"):
        c.refuses(lambda: Device(bad), "unknown", f"unknown device {bad!r}", ValueError)
        c.ev("refused_names")
    c.sig("plugins", tuple(names), tuple(hist))
    c.show(names=names, history=hist)


def circ_obj(r):
    from plaquette.circuit import Circuit
    ci = Circuit()
    for _ in range(r.randrange(1, 6)):
        ci.append(r.choice("HXZ"), r.randrange(4))
    ci.append("M", *range(r.randrange(1, 4)))
    return ci


def options(c):
    """The options of a device are those of its simulator, for every circuit it runs."""
    from plaquette import Device
    r = c.rng
    for name in ("stim", "clifford"):
        base = circ.simulator(name)
        seed, size = r.choice((0, r.getrandbits(30))), r.choice((1, 2, 5, 1024))
        kw = r.choice(({}, {"stim_seed": seed, "batch_size": size}, {"batch_size": size},
                       {"stim_seed": seed})) if name == "stim" else {}
        dev, last = Device(name, **kw), None
        cs = [circ_obj(r) for _ in range(3)]
        for ci in cs:
            ci.append("H", 0, 1, 2, 3)
            ci.append("M", *range(4), *range(4))
            ci.append("H", 0, 1, 2, 3)
            ci.append("M", *range(4), *range(4))
        for _ in range(5):
            ci, k = r.choice(cs), r.randrange(1, 4)
            if last is not ci:
                lib = c.seed_lib()
                got = []
                for _ in range(k):
                    dev.run(ci)
                    got.append(circ.bits(dev.get_sample()[0]))
                c.seed_lib(lib)
                other = base(ci, **kw)
                want = [circ.bits(other.get_sample()[0]) for _ in range(k)]
                c.check(got == want, "options", lambda: f"Device({name!r}, {kw}) gives "
                        f"{got} for a new circuit, its simulator {want}\n{ci}")
                c.ev("option_runs")
            last = ci
            c.check(dev.circuit is ci, "circuit", "another circuit is set")
            c.sig("options", name, tuple(kw.items()), str(ci))


def simulators(c):
    """Subclasses of the simulator base class."""
    from plaquette.device import AbstractSimulator
    r = c.rng
    log = []

    class Sim(AbstractSimulator):
        def reset(self):
            log.append(("reset",))

        def run(self, *, after_reset=True):
            log.append(("run", after_reset))

        def process_results(self):
            log.append(("results", object(), object()))
            return log[-1][1:]
    s = Sim()
    for _ in range(6):
        flag = r.choice((None, True, False))
        before = len(log)
        out = s.get_sample() if flag is None else s.get_sample(after_reset=flag)
        c.check(len(log) == before + 2 and log[before] == ("run", flag is not False) and
                log[-1][0] == "results" and all(a is b for a, b in zip(out, log[-1][1:])),
                "sample", lambda: f"get_sample(after_reset={flag}) did {log[before:]}")
    for leave in ("reset", "run", "process_results"):
        part = {k: v for k, v in vars(Sim).items() if k in ("reset", "run", "process_results")
                and k != leave}
        c.refuses(lambda: type("Part", (AbstractSimulator,), part)(), "abstract",
                  f"a simulator without {leave}", TypeError)
    c.ev("simulators")
    c.sig("simulator", c.index)


# ------------------------------------------------------------------------------- decoders
class Oops(Exception):
    pass


def _backend(np, r, made):
    from plaquette.decoders import DecoderBackendInterface

    class Recorder(DecoderBackendInterface):
        """Backend that records its calls and answers with what it is told."""

        def __init__(self):
            self.log, self.comp, self.mode = [], None, "random"
            made.append(self)

        def set_syngraph(self, sgraph):
            self.comp = sgraph
            self.log.append(("set",))

        def update_weights(self):
            self.log.append(("weights", self.comp.edge_weights.copy()))

        def decode(self):
            comp = self.comp
            self.log.append(("decode", comp.syndrome.copy(), comp.edge_erased.copy(),
                             comp.edge_weights.copy()))
            if self.mode == "fail":
                raise Oops("told to fail")
            out = np.zeros(len(comp.edges), dtype=bool)
            if self.mode == "random":
                out = np.array([r.random() < 0.3 for _ in comp.edges], dtype=bool)
            self.chosen = out.copy()
            comp.set_edge_decoder_results(out)
    return Recorder


def backends(c):
    import numpy as np
    from plaquette.decoders import DecoderInterface
    r = c.rng
    label, code, view = dec.setup(r, 60, user=0.3)
    R, ns = code.n_rounds, len(view.stabs)
    made = []
    back = _backend(np, r, made)
    high = type("Mine", (DecoderInterface,), {raw.hook(): back})
    weighted = r.random() < 0.6
    tab = dec.table(r, view, R, erasure=r.random() < 0.5)
    g = dec.graph_for(view, R, tab, weighted)
    what = f"{label} weighted={weighted}"
    d = dec.quiet(high.from_code, code, tab, weighted=weighted)
    sg = d.synmgr.sgraph
    pos = [(v.time_step, v.stabgen_idx) for v in sg.vertices]
    comps = [(m, dn) for m, dn in g.components() if any(u & m for u in g.usable())]

    def verts(b):
        return sum(1 << pos[int(i)][0] * ns + pos[int(i)][1] for i in b.comp.parent_vertex_idx)

    def edge_mask(b, e):
        return sum(1 << pos[int(b.comp.parent_vertex_idx[i])][0] * ns +
                   pos[int(b.comp.parent_vertex_idx[i])][1] for i in e)
    c.check(all(b.log == [("set",)] for b in made), "created",
            lambda: f"{what}: backends were set up by {[b.log for b in made]}")
    c.check(sorted((verts(b), bool(b.comp.has_dangling_edges)) for b in made) == sorted(comps),
            "components", lambda: f"{what}: backends got the components {[bin(verts(b)) for b in made]}"
            f", expected {comps}")
    seen = sorted(edge_mask(b, e) for b in made for e in b.comp.edges)
    c.check(seen == sorted(g.usable()), "edges", lambda: f"{what}: edges given to backends differ "
            f"from the single faults")
    c.ev("backends", len(made))
    known = dict(g.usable())
    hist = []
    for step in range(6):
        if r.random() < 0.3 and weighted:      # other weights for the same graph
            s = r.uniform(0.5, 2)
            for b in made:
                b.comp.set_edge_weights(b.comp.edge_weights * s)
            known = {m: w * s for m, w in known.items()}
            before = [len(b.log) for b in made]
            d.decoder.update_weights()
            c.check(all(len(b.log) == k + 1 and b.log[-1][0] == "weights" for b, k in
                        zip(made, before)), "weights", lambda: f"{what}: new weights were announced "
                    f"by {[b.log[k:] for b, k in zip(made, before)]}")
            c.ev("reweighted")
            hist.append("weights")
        era = None
        if r.random() < 0.5:
            dens = r.choice((0.1, 0.5, 1.0))
            era = np.array([[r.random() < dens for _ in range(view.n)] for _ in range(R)],
                           dtype=r.choice((bool, "u1")))
        syn = 0
        fs = dec.random_faults(r, g, r.randrange(0, 6))
        syn = g.syn_mask(fs)
        mode = r.choice(("random", "random", "none", "fail"))
        for b in made:
            b.mode = mode
        before = [len(b.log) for b in made]
        arr = g.array(np, syn, r.choice((bool, "u1")))
        keep = arr.copy(), None if era is None else era.copy()
        if mode == "fail":
            if made:
                c.refuses(lambda: dec.quiet(d.decode, era, arr), "swallowed",
                          f"{what}: the error of a backend", Oops)
            hist.append("fail")
            continue
        corr = dec.quiet(d.decode, era, arr)
        c.check((arr == keep[0]).all() and (era is None or (era == keep[1]).all()), "modified",
                f"{what}: the input was changed")
        hist.append((syn, era is not None, mode))
        frames = {(0, 0)}
        for b, k in zip(made, before):
            new = b.log[k:]
            c.check([x[0] for x in new] == ["decode"], "calls", lambda: f"{what}: one decoding calls "
                    f"{[x[0] for x in new]}")
            _, s, e, w = new[0]
            bits = [syn >> (pos[int(i)][0] * ns + pos[int(i)][1]) & 1
                    for i in b.comp.parent_vertex_idx]
            c.check(s.dtype == bool and s.tolist() == [bool(x) for x in bits], "syndrome",
                    lambda: f"{what}: syndrome {syn:b} reaches a backend as {s.tolist()}")
            for ed, er, wt, sel in zip(b.comp.edges, e, w, b.chosen):
                m = edge_mask(b, ed)
                group = g.groups[m]
                low = min(f.weight for f in group)
                dead = [f for f in group if f.kind != "M" and era is not None and era[f.rd, f.idx]]
                c.check(bool(er) == bool(dead), "erased", lambda: f"{what}: edge of {group} is "
                        f"{'not ' * (not er)}erased, erased are {dead}")
                c.check(abs(wt - known[m]) <= 1e-9 * max(1, abs(known[m])) if weighted
                        else np.isnan(wt), "weight", lambda: f"{what}: edge of {group} has weight "
                        f"{wt}, expected {known.get(m)}")
                if sel:
                    cand = {g.data([f]) for f in dead or [f for f in group if f.weight == low]}
                    if len(frames) * len(cand) <= 256:
                        frames = {qec.mul(a, x) for a in frames for x in cand}
                    else:
                        frames = None
                    c.ev("edges_selected")
                if frames is None:
                    break
            if frames is None:
                break
            c.ev("backend_decodes")
        got = qec.masks(corr)
        if frames is not None:
            c.check(got in frames, "correction", lambda: f"{what}: the selected edges mean "
                    f"{[qec.letters(f, view.n) for f in frames][:4]}, correction "
                    f"{qec.letters(got, view.n)}")
    c.sig("backends", label, weighted, tuple(hist))
    c.show(setup=what, history=hist)


def abstract(c):
    """Incomplete backends cannot be used; wrong answers of backends are refused."""
    import numpy as np
    from plaquette.decoders import DecoderBackendInterface, DecoderInterface
    r = c.rng
    made = []
    full = _backend(np, r, made)
    body = {k: v for k, v in vars(full).items() if k in ("set_syngraph", "update_weights", "decode")}
    for leave in body:
        part = {k: v for k, v in body.items() if k != leave}
        c.refuses(lambda: type("Part", (DecoderBackendInterface,), part)(), "abstract",
                  f"a backend without {leave}", TypeError)
    label, code, view = dec.setup(r, 24)
    bad = r.choice((lambda n: np.zeros(n + 1, dtype=bool), lambda n: np.zeros(n, dtype=int),
                    lambda n: np.zeros((n, 1), dtype=bool), lambda n: np.zeros(n, dtype=float)))

    class Wrong(full):
        def decode(self):
            self.comp.set_edge_decoder_results(bad(len(self.comp.edges)))
    d = type("Mine", (DecoderInterface,), {raw.hook(): Wrong}).from_code(code, None, weighted=False)
    if made:
        c.refuses(lambda: d.decode(None, np.zeros((code.n_rounds, len(view.stabs)), dtype=bool)),
                  "answer", f"{label}: an answer of wrong shape or type")
    c.sig("abstract", label)


WORKLOADS = [W("plugins", plugins, 60, 1200), W("simulators", simulators, 30, 100),
             W("options", options, 40, 600),
             W("backends", backends, 240, 6000), W("abstract", abstract, 40, 600)]
