"""P27: randomly generated error rates are valid probabilities and reproducible."""
import json
import math
import os
import subprocess
import sys
import warnings

from mon import core, err, qec
from mon.core import W

RULE = ("random means, spreads, seeds and lattices; generated values are checked for range, number "
        "and reproducibility, and their distribution against the truncated normal distribution "
        "(own formula, Dvoretzky-Kiefer-Wolfowitz bound with error probability 1e-11 per "
        "comparison); through the generator functions, tables made from configurations and "
        "configured experiments, the latter also in separate processes with different hash seeds; "
        "non-trivial = distinct (way, mean, spread, seed)")
ASSUMPTIONS = ["'normal with the given mean and spread, truncated to [0,1]' is the distribution"]
MINIMA = {"values": 60000, "reproduced": 100, "refusals": 150, "distributions": 200,
          "processes": 3}
QUICK_S = 200


def _cdf(x, mean, sd):
    def phi(t):
        return 0.5 * math.erfc(-t / math.sqrt(2))
    a, b = phi((0 - mean) / sd), phi((1 - mean) / sd)
    return (phi((x - mean) / sd) - a) / (b - a)


def _distributed(c, what, xs, mean, sd):
    xs = sorted(xs)
    n = len(xs)
    eps = math.sqrt(math.log(2 / 1e-11) / (2 * n))
    d = 0
    for i, x in enumerate(xs):
        f = _cdf(x, mean, sd)
        d = max(d, abs(f - i / n), abs(f - (i + 1) / n))
    c.check(d <= eps, "distribution", lambda: f"{what}: {n} values with mean {sum(xs) / n} do not "
            f"follow the distribution (distance {d:.3f}, bound {eps:.3f})")
    c.ev("distributions")


def _independent(c, what, xs, mean, sd):
    """Serial correlation of the values, in the order of their qubits or gates."""
    if len(xs) < 80:
        return
    us = [_cdf(x, mean, sd) - 0.5 for x in xs]
    for lag in (1, 2):
        z = 12 * sum(a * b for a, b in zip(us, us[lag:])) / math.sqrt(len(us) - lag)
        c.check(abs(z) < 8, "dependent", lambda: f"{what}: neighbouring values depend on each "
                f"other (z = {z:.1f})")
    c.ev("sequences")


def _params(r):
    mean = r.choice((0.0, 1.0, 0.5, 1e-3)) if r.random() < 0.25 else r.random()
    sd = r.choice((1.0, 1e-6, 0.5)) if r.random() < 0.25 else 10 ** r.uniform(-3, 0)
    return mean, sd


def _valid(c, what, xs, n):
    c.check(len(xs) == n, "number", f"{what}: {len(xs)} values for {n} qubits")
    bad = [x for x in xs if not 0 <= x <= 1]
    c.check(not bad, "range", f"{what}: values {bad[:5]}")
    c.ev("values", len(xs))


BAD = (-0.1, 1.1, -1e-9, 1 + 1e-9, float("nan"), float("inf"), -float("inf"), 5)


def functions(c):
    import numpy as np
    from plaquette import errors
    r = c.rng
    mean, sd = _params(r)
    n = r.choice((0, 1, 2, 17, 400, 2000))
    seed = c.seed_lib()
    what = f"mean {mean} spread {sd}"
    ids = r.choice((list, np.array))(range(n))
    a = errors.generate_gaussian_errors(mean, sd, ids)
    _valid(c, what, a.tolist(), n)
    b = errors.generate_gaussian_errors(mean, sd, ids)
    _valid(c, what, b.tolist(), n)
    if n >= 17:
        c.check((a != b).any(), "fresh", f"{what}: the same values twice")
        _distributed(c, what, a.tolist() + b.tolist(), mean, sd)
        if 0.2 < mean < 0.8 or sd > 0.05:
            _independent(c, what, a.tolist(), mean, sd)
    np.random.seed(r.getrandbits(31))
    c.seed_lib(seed)
    c.check(np.array_equal(a, errors.generate_gaussian_errors(mean, sd, ids)) and
            np.array_equal(b, errors.generate_gaussian_errors(mean, sd, ids)), "reproducible",
            f"{what}: different values with the same seed {seed}")
    c.seed_lib(seed + 1)
    if n >= 17:
        c.check((a != errors.generate_gaussian_errors(mean, sd, ids)).any(), "seed-ignored",
                f"{what}: the same values with another seed")
    c.ev("reproduced")
    z = errors.generate_gaussian_errors(mean, r.choice((0, 0.0)), ids)
    c.check(len(z) == n and all(x == mean for x in z), "no-spread", f"{what}: spread 0 gives {z}")
    k = errors.generate_constant_errors(mean, ids)
    c.check(len(k) == n and all(x == mean for x in k), "constant", f"{what}: constant gives {k}")
    x = r.choice(BAD)
    c.refuses(lambda: errors.generate_gaussian_errors(x, sd, ids), "bad-mean", f"mean {x}")
    c.refuses(lambda: errors.generate_gaussian_errors(mean, x, ids), "bad-spread", f"spread {x}")
    c.refuses(lambda: errors.generate_constant_errors(x, ids), "bad-constant", f"constant {x}")
    c.sig("function", mean, sd, n, seed)
    c.show(setup=what, first=repr(a[:3]))


def _values(ed, name_or_gate, ch=None):
    """{qubit or pair: value} of a qubit error or a channel of a gate."""
    if ch is None:
        return {int(q): float(p) for q, p in zip(ed.qubit_errors["qubit_id"],
                                                 ed.qubit_errors[name_or_gate])}
    out = {}
    for row in ed.gate_errors.itertuples():
        lab = [row.induced_errors] if isinstance(row.induced_errors, str) else row.induced_errors
        if row.gate == name_or_gate and list(lab) == [ch]:
            qs = row.on_qubits
            for k in (qs if name_or_gate in err.ONE else zip(qs[::2], qs[1::2])):
                out[k] = float(row.probs[0])
    return out


def tables(c):
    """Through ErrorData.from_lattice."""
    import numpy as np
    from plaquette.errors import ErrorData
    r = c.rng
    label, code = qec.some_code(r, 60, 0.2) if c.index % 4 else \
        ("toric 5", qec.bundled("toric", 5, 1))
    view = qec.View(code)
    n, ns = view.n, len(view.stabs)
    nowhere = os.path.join(core.ROOT, "no", "such", "file.csv")
    par = {k: _params(r) for k in r.sample(err.NAMES, r.randrange(1, 6))}
    gpar = {g: (r.choice("XYZ") if g in err.ONE else r.choice(err.PAIRS), *_params(r))
            for g in r.sample(err.ONE + err.TWO, r.randrange(1, 5))}

    def make():
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return ErrorData.from_lattice(
                code.lattice, ({k: ("gaussian", *v) for k, v in par.items()}, nowhere),
                ({g: [("gaussian", *v)] for g, v in gpar.items()}, nowhere))
    seed = c.seed_lib()
    ed = make()
    seen = []
    for k, (mean, sd) in par.items():
        v = _values(ed, k)
        c.check(set(v) == set(range(n + ns)), "qubits", f"{label}: {k} drawn for {sorted(v)}")
        _valid(c, f"{label} {k} {mean} {sd}", list(v.values()), n + ns)
        _distributed(c, f"{label} {k} {mean} {sd}", list(v.values()), mean, sd)
        seen.append(tuple(v.values()))
    for g, (ch, mean, sd) in gpar.items():
        v = _values(ed, g, ch)
        want = {n + i for i in range(ns)} if g in err.ONE else set(err.pairs(view))
        c.check(set(v) == want, "gates", lambda: f"{label}: {g} {ch} drawn for {sorted(v)}, not "
                f"{sorted(want)}")
        _valid(c, f"{label} {g} {mean} {sd}", list(v.values()), len(want))
        _distributed(c, f"{label} {g} {mean} {sd}", list(v.values()), mean, sd)
        _independent(c, f"{label} {g} {mean} {sd}", [v[k] for k in sorted(v)], mean, sd)
        seen.append(tuple(v.values()))
    c.check(len(set(seen)) == len(seen), "fresh", f"{label}: the same values for two errors")
    np.random.seed(r.getrandbits(31))
    c.seed_lib(seed)
    again = make()
    c.check(err.norm(again.error_data_dict) == err.norm(ed.error_data_dict) and
            all(_values(again, k) == _values(ed, k) for k in par), "reproducible",
            f"{label}: different values with the same seed {seed}")
    c.ev("reproduced")
    x = r.choice(BAD)
    for conf in (("constant", x), ("gaussian", x, 0.1), ("gaussian", 0.1, x)):
        k = r.choice(err.NAMES)
        c.refuses(lambda: ErrorData.from_lattice(code.lattice, ({k: conf}, nowhere), None),
                  "bad-config", f"{k}: {conf}")
        g = r.choice(err.ONE + err.TWO)
        conf = (conf[0], "X" if g in err.ONE else "XX", *conf[1:])
        c.refuses(lambda: ErrorData.from_lattice(code.lattice, None, ({g: [conf]}, nowhere)),
                  "bad-config", f"{g}: {conf}")
    c.sig("table", label, tuple(par.items()), tuple(gpar.items()), seed)


SCRIPT = """
import json, sys, warnings
warnings.simplefilter("ignore")
from plaquette.frontend import (ErrorsConfig, QubitErrorsConfig, GateErrorsConfig, CodeConfig,
                                ExperimentConfig, _QubitErrorMetadata, _GateErrorMetadata)
from mon import err
conf = json.load(sys.stdin)
e = ErrorsConfig(
    qubit_errors=QubitErrorsConfig(data_path="nofile.csv", load_file=False, **{
        k: _QubitErrorMetadata(distribution="gaussian", params=v)
        for k, v in conf["qubit"].items()}),
    gate_errors=GateErrorsConfig(data_path="nofile.csv", load_file=False, **{
        k: _GateErrorMetadata(distribution=["gaussian"], induced_errors=[ch], params=[v])
        for k, (ch, v) in conf["gate"].items()}))
x = ExperimentConfig(code_conf=CodeConfig(**conf["code"]), errors_conf=e, general_conf=dict(
    logical_op="X", qec_property=["logical_error_rate"], seed=conf["seed"]))
x.build()
d = err.norm(x.errors.error_data_dict)
print(json.dumps([sorted((str(a), str(b), sorted(w.items())) for a, v in d.items()
                         for b, w in v.items()), list(map(str, x.circuit.gates))]))
"""


def processes(c):
    """The same experiment in processes that order sets of strings differently."""
    r = c.rng
    conf = {"code": r.choice(({"name": "RotatedPlanarCode", "size": 3, "rounds": 2},
                              {"name": "ShorCode"}, {"name": "RepetitionCode", "size": 5})),
            "qubit": {k: [r.uniform(0.05, 0.1), r.uniform(0.01, 0.1)]
                      for k in r.sample(err.NAMES, 4)},
            "gate": {g: (r.choice("XYZ") if g in err.ONE else r.choice(err.PAIRS),
                         [0.1, r.uniform(0.01, 0.1)]) for g in r.sample(err.ONE + err.TWO, 3)},
            "seed": r.getrandbits(30)}
    outs = []
    for hs in r.sample(range(1000), 3):
        env = dict(os.environ, PYTHONHASHSEED=str(hs), OMP_NUM_THREADS="1", PYTHONPATH=os.pathsep.join(
            [core.ROOT, os.path.join(core.REPO, "src")]), PYTHONDONTWRITEBYTECODE="1")
        p = subprocess.run([sys.executable, "-c", SCRIPT], input=json.dumps(conf), text=True,
                           capture_output=True, env=env, cwd="/", timeout=100)
        c.check(p.returncode == 0, "process", lambda: f"{conf}: {p.stderr[-600:]}")
        outs.append(json.loads(p.stdout))
        c.ev("processes")
    c.check(all(o[0] == outs[0][0] for o in outs), "process-rates", f"{conf}: error rates differ "
            f"between processes with the same seed")
    c.check(all(o[1] == outs[0][1] for o in outs), "process-circuit", f"{conf}: circuits differ "
            f"between processes with the same seed")
    c.sig("process", repr(conf))


WORKLOADS = [W("functions", functions, 300, 6000), W("tables", tables, 100, 2000),
             W("processes", processes, 4, 24)]
