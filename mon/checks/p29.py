"""P29: a configured experiment equals the same pipeline done by hand."""
import contextlib
import copy
import io
import json
import os
import subprocess
import sys
import tempfile
import warnings

from mon import conf, core, err, qec, stats
from mon.core import W

RULE = ("random experiment configurations (codes, sizes, rounds, constant, gaussian, file and gate "
        "errors, devices, decoders, logical operators, provided circuits) given as dictionaries, "
        "TOML and JSON files, objects and chains of updates of one object, and built part by part with options of the device; the returned rate is "
        "compared exactly with a pipeline written out by hand with the same seed (records and "
        "corrections are interpreted with commutation masks), statistically with the same pipeline "
        "and other seeds, with zero without errors, and with itself when repeated and in other "
        "processes; non-trivial = distinct (configuration, way)")
ASSUMPTIONS = ["the pipeline by hand uses the library's error generation, circuit generation, "
               "devices and decoders, which P08-P27 check on their own",
               "with gate errors the configuration also has measurement errors (weighted decoders "
               "treat unlisted measurement errors as impossible)"]
MINIMA = {"rates": 60, "shots": 4000, "failures": 100, "reproduced": 15, "zero": 15, "updates": 20,
          "processes": 2}
QUICK_S = 200


def _quiet(f, *a, **k):
    with warnings.catch_warnings(), contextlib.redirect_stderr(io.StringIO()):
        warnings.simplefilter("ignore")
        return f(*a, **k)


def _random(r, folder, shots=(20, 50), scale=0.15, zero=False, erasure=None):
    """(configuration, by-hand description)."""
    erasure = r.random() < 0.6 if erasure is None else erasure
    sec, kind, size, rounds = conf.code_part(r)
    k = 2 if kind == "toric" else 1
    general = {"logical_op": "".join(r.choice("XZ") for _ in range(k)),
               "qec_property": ["logical_error_rate"],
               "seed": r.choice((0, 0, 1, 2**63 - 1)) if r.random() < 0.25 else r.getrandbits(31)}
    d = {"code": sec, "general": general, "decoder": conf.decoder_part(r, erasure),
         "device": {"name": r.choice(("stim", "stim", "clifford")),
                    "shots": r.randrange(*shots)}}
    if zero:
        part = {} if r.random() < 0.3 else conf.errors_part(r, 0.2)
        for s in part.values():
            for v in s.values():
                if isinstance(v, dict):
                    v["enabled"] = False
        if r.random() < 0.3:
            part = conf.errors_part(r, 0.2)
            for s in part.values():
                s["sample"] = False
            if "qubit_errors" not in part:
                part["qubit_errors"] = {"sample": False}
    else:
        part = conf.errors_part(r, scale, empty=0.05, gates=0.4)
        q = part.setdefault("qubit_errors", {})
        if r.random() < 0.7:
            q.pop("sample", None)
        if "gate_errors" in part:
            q["measurement"] = {"distribution": "constant", "params": [0.01]}
            q.pop("sample", None)
    if not erasure:   # PyMatchingDecoder refuses erased qubits
        part.get("qubit_errors", {}).pop("erasure", None)
    d["errors"] = part
    return d, (kind, size, rounds)


def _errors(part, code):
    from plaquette.errors import ErrorData
    one, two = conf.simulated(part)
    q, g = part.get("qubit_errors", {}), part.get("gate_errors", {})
    return ErrorData.from_lattice(
        code.lattice, (one or {}, q.get("data_path", "qubit_errors.csv")),
        None if two is None else (two, g.get("data_path", "gate_errors.csv")))


def _by_hand(d, what, seed=None, shots=None, circuit=None, options=None):
    """Number of logical errors of the experiment, without the configuration interface."""
    import numpy as np
    import plaquette
    from plaquette import decoders
    from plaquette.device import Device
    kind, size, rounds = what
    plaquette.rng = np.random.default_rng(seed=d["general"]["seed"] if seed is None else seed)
    code = qec.bundled(kind, size, rounds)
    view = qec.View(code)
    ed = _errors(d["errors"], code)
    op = d["general"]["logical_op"]
    ci = circuit or qec.generate(code, ed.qubit_errors_dict, ed.gate_errors_dict, op, False)
    idx = [2 * i + "XZ".index(ch) for i, ch in enumerate(op)]
    lay = qec.Layout(qec.gates_of(ci), view, idx, False)
    dev = Device(d["device"]["name"], **(options or {}))
    dec = getattr(decoders, d["decoder"]["name"]).from_code(
        code, ed.error_data_dict, weighted=d["decoder"]["weighted"])
    fails, n = 0, shots or d["device"]["shots"]
    for _ in range(n):
        raw, era = qec.sample(dev, ci)
        a, b, st = lay.unpack(raw)
        syn = np.array([[x ^ y for x, y in zip(st[i], st[i + 1])] for i in range(rounds)],
                       dtype=bool)
        era = None if era is None else np.asarray(era, dtype=bool).reshape(rounds, view.n)
        fix = qec.masks(dec.decode(era, syn))
        fails += any(x ^ y != qec.anti(fix, view.logs[i]) for i, x, y in zip(idx, a, b))
    return fails


def _load(r, d, folder, how=None):
    from plaquette.frontend import ExperimentConfig
    how = how or r.choice(("dict", "toml", "json"))
    if how == "dict":
        return how, ExperimentConfig.from_dict(d)
    d = copy.deepcopy(d)
    d["code"].setdefault("rounds", 1)   # the schema of files requires it
    path = conf.write(d, folder, how)
    return how, getattr(ExperimentConfig, "load_" + how)(path)


def _run(x):
    _quiet(x.build)
    return _quiet(x.run)


def _valid(c, rate, shots, what):
    c.check(isinstance(rate, float) and 0 <= rate <= 1 and
            abs(rate * shots - round(rate * shots)) < 1e-6, "rate",
            lambda: f"{what}: rate {rate!r} of {shots} shots")
    c.ev("rates")


def same_seed(c):
    """Exactly the rate of the pipeline by hand; the same when repeated."""
    r = c.rng
    with tempfile.TemporaryDirectory() as folder:
        d, what = _random(r, folder)
        c.show(config=d)
        how, x = _load(r, d, folder)
        rate = _run(x)
        n = d["device"]["shots"]
        _valid(c, rate, n, d)
        fails = _quiet(_by_hand, d, what)
        c.check(abs(rate - fails / n) < 1e-9, "by-hand", lambda: f"{d} ({how}): rate {rate}, by "
                f"hand {fails} of {n} shots fail")
        c.ev("shots", n)
        c.ev("failures", fails)
        if r.random() < 0.6:
            again = _run(x) if r.random() < 0.5 else _run(_load(r, d, folder)[1])
            c.check(again == rate, "reproducible", lambda: f"{d}: rates {rate} and {again}")
            c.ev("reproduced")
        c.sig(how, repr(d))


def no_errors(c):
    """Zero without errors."""
    r = c.rng
    with tempfile.TemporaryDirectory() as folder:
        d, what = _random(r, folder, shots=(2, 12), zero=True)
        c.show(config=d)
        how, x = _load(r, d, folder)
        rate = _run(x)
        c.check(rate == 0, "zero", lambda: f"{d} ({how}): rate {rate} without errors")
        c.ev("zero")
        c.ev("rates")
        c.sig("zero", how, repr(d))


def updates(c):
    """One object, changed and run again, as in a sweep."""
    from plaquette.frontend import (CodeConfig, DecoderConfig, DeviceConfig, ErrorsConfig,
                                    GateErrorsConfig, QubitErrorsConfig, _GateErrorMetadata,
                                    _QubitErrorMetadata)
    r = c.rng
    with tempfile.TemporaryDirectory() as folder:
        erasure = r.random() < 0.5
        d, what = _random(r, folder, (10, 25), erasure=erasure)
        d["errors"].setdefault("qubit_errors", {})
        d["errors"].setdefault("gate_errors", {})
        how, x = _load(r, d, folder)
        steps = [(how, repr(d))]
        for _ in range(4):
            new, new_what = _random(r, folder, (10, 25), erasure=erasure)
            new["errors"].setdefault("qubit_errors", {})
            new["errors"].setdefault("gate_errors", {})
            part = r.choice(("code", "decoder", "device", "general", "errors", "metadata"))
            if part == "code":
                d["code"], what = new["code"], new_what
                d["general"]["logical_op"] = new["general"]["logical_op"]
                x.general_conf["logical_op"] = new["general"]["logical_op"]
                k = dict({"rounds": 1}, **new["code"])
                if r.random() < 0.5:
                    x.code_conf.update(**k)
                elif r.random() < 0.5:
                    x.update(code_conf=CodeConfig(**k))
                else:
                    x.code_conf = CodeConfig.from_dict(k)
            elif part == "decoder":
                d["decoder"] = new["decoder"]
                if r.random() < 0.5:
                    x.decoder_conf.update(**new["decoder"])
                else:
                    x.update(decoder_conf=DecoderConfig(**new["decoder"]))
            elif part == "device":
                d["device"] = new["device"]
                if r.random() < 0.5:
                    x.device_conf.update(**new["device"])
                else:
                    x.update(device_conf=DeviceConfig(**new["device"]))
            elif part == "general":
                d["general"]["seed"] = new["general"]["seed"]
                if r.random() < 0.5:
                    x.general_conf["seed"] = new["general"]["seed"]
                else:
                    x.update(general_conf=dict(d["general"]))
            elif part == "errors":
                d["errors"] = new["errors"]
                if r.random() < 0.5:
                    x.update(errors_conf=ErrorsConfig.from_dict(new["errors"]))
                else:
                    x.errors_conf.update(
                        qubit_errors=QubitErrorsConfig.from_dict(new["errors"]["qubit_errors"]),
                        gate_errors=GateErrorsConfig.from_dict(new["errors"]["gate_errors"]))
            else:
                q = d["errors"]["qubit_errors"]
                k = r.choice(("X", "Y", "Z", "erasure") if erasure else ("X", "Y", "Z"))
                if k in q and r.random() < 0.6:
                    q[k]["enabled"] = not conf.on(q[k])
                    if r.random() < 0.5:
                        getattr(x.errors_conf.qubit_errors, k).enabled = q[k]["enabled"]
                    else:
                        getattr(x.errors_conf.qubit_errors, k).update(enabled=q[k]["enabled"])
                else:
                    q[k] = conf.meta(r, 0.15)
                    x.errors_conf.qubit_errors.update(**{k: _QubitErrorMetadata(**q[k])})
                g = d["errors"]["gate_errors"]
                if conf.simulated(d["errors"])[0] and "measurement" in \
                        conf.simulated(d["errors"])[0] and r.random() < 0.5:
                    k = r.choice(("H", "M", "R", "CX", "CZ"))
                    g[k] = conf.gate_meta(r, k)
                    x.errors_conf.gate_errors.update(sample=True,
                                                     **{k: _GateErrorMetadata(**g[k])})
                    g["sample"] = True
            steps.append((part, repr(d)))
            c.show(steps=steps)
            rate = _run(x)
            n = d["device"]["shots"]
            _valid(c, rate, n, d)
            fails = _quiet(_by_hand, d, what)
            c.check(abs(rate - fails / n) < 1e-9, "updates", lambda: f"after {part}: rate {rate}, "
                    f"by hand {fails} of {n} shots fail for {d}")
            c.ev("updates")
            c.ev("shots", n)
            c.ev("failures", fails)
            c.sig("update", part, repr(d))


def stepwise(c):
    """Building the parts one by one, with options of the device, and again after changes."""
    r = c.rng
    with tempfile.TemporaryDirectory() as folder:
        d, what = _random(r, folder, (30, 60))
        for s in d["errors"].values():
            for v in s.values():   # no random rates: parts can be built in any number
                if isinstance(v, dict) and isinstance(v["distribution"], str):
                    v.update(distribution="constant", params=v["params"][:1])
                elif isinstance(v, dict):
                    v.update(distribution=["constant"] * len(v["params"]),
                             params=[p[:1] for p in v["params"]])
        d["device"]["name"] = "stim"
        c.show(config=d)
        how, x = _load(r, d, folder)
        if r.random() < 0.5:
            _quiet(x.build)
        else:
            for k in ("rng", "code", "errors", "circuit", "device", "decoder"):
                if k not in ("rng", "code"):
                    try:
                        part = getattr(x, k)
                    except ValueError:
                        c.ev("not_built")
                    else:
                        c.check(False, "not-built", f"{k} is {part} before it was built")
                if k == "code" and r.random() < 0.5:
                    x.code   # builds it
                    continue
                _quiet(x.update_rng if k == "rng" else getattr(x, "build_" + k))
        n = d["device"]["shots"]
        for i in range(3):
            options = {"stim_seed": r.getrandbits(40)}
            if r.random() < 0.5:
                options["batch_size"] = r.randrange(1, 100)
            _quiet(x.build_device, **options)
            part = r.choice(("none", "circuit", "decoder", "shots"))
            if part == "circuit":
                _quiet(x.build_circuit)
            elif part == "decoder":
                _quiet(x.build_decoder)
            elif part == "shots":
                n = d["device"]["shots"] = r.randrange(30, 60)
                x.device_conf.update(shots=n)
            rate = _quiet(x.run)
            _valid(c, rate, n, d)
            fails = _quiet(_by_hand, d, what, options=options)
            c.check(abs(rate - fails / n) < 1e-9, "stepwise", lambda: f"{d} with {options}: rate "
                    f"{rate}, by hand {fails} of {n} shots fail")
            c.ev("stepwise")
            c.ev("shots", n)
            c.ev("failures", fails)
        c.sig("stepwise", how, repr(d))


def statistics(c):
    """The rate of many shots against the pipeline by hand with other seeds."""
    r = c.rng
    with tempfile.TemporaryDirectory() as folder:
        d, what = _random(r, folder, (400, 401))
        for s in d["errors"].values():
            for v in s.values():   # the drawn rates differ between seeds
                if isinstance(v, dict) and isinstance(v["distribution"], str):
                    v.update(distribution="constant", params=v["params"][:1])
                elif isinstance(v, dict):
                    v.update(distribution=["constant"] * len(v["params"]),
                             params=[p[:1] for p in v["params"]])
        d["device"]["name"] = "stim"
        d["code"]["rounds"] = what[2]
        c.show(config=d)
        rate = _run(_load(r, d, folder)[1])
        n = d["device"]["shots"]
        _valid(c, rate, n, d)
        m = 1600
        other = _quiet(_by_hand, d, what, seed=r.getrandbits(30), shots=m)
        a = round(rate * n)
        # both counts given their sum: hypergeometric, bounded by the binomial tails of either
        p = (a + other) / (n + m)
        if 0 < p < 1:
            c.check(not (stats.off(a, n, p) and stats.off(other, m, p)), "statistics",
                    lambda: f"{d}: {a} of {n} shots fail, by hand {other} of {m}")
            z = (a / n - other / m) / (p * (1 - p) * (1 / n + 1 / m)) ** 0.5
            c.check(abs(z) < 7.5 or a + other < 25, "statistics",
                    lambda: f"{d}: {a} of {n} shots fail, by hand {other} of {m} (z = {z:.1f})")
        c.ev("shots", n + m)
        c.ev("failures", a + other)
        c.sig("statistics", repr(d))


def provided(c):
    """A circuit read from a file, and errors read from files."""
    from plaquette.errors import ErrorData
    r = c.rng
    with tempfile.TemporaryDirectory() as folder:
        d, what = _random(r, folder)
        code = qec.bundled(*what)
        path = os.path.join(folder, "q.csv")
        ed = ErrorData.from_lattice(code.lattice)
        ids = [int(q) for q in ed.qubit_errors["qubit_id"]]
        names = [k for k in ("X", "Y", "Z") if k not in ed.qubit_errors]
        _quiet(lambda: [ed.add_qubit_error(ids, k, [0.0] * len(ids)) for k in names])
        for k in ("X", "Y", "Z", "erasure", "measurement"):
            if k not in ed.qubit_errors:
                _quiet(ed.add_qubit_error, ids, k, [0.0] * len(ids))
            _quiet(ed.update_qubit_error, ids, k, [round(r.random() * 0.1, 4) for _ in ids])
        ed.save_to_csv(path, os.path.join(folder, "g.csv"))
        if r.random() < 0.6:      # rows in any order
            import pandas as pd
            pd.read_csv(path).sample(frac=1, random_state=r.getrandbits(30)).to_csv(path, index=False)
        q = d["errors"]["qubit_errors"]
        q.update(data_path=path, load_file=True)
        q.pop("sample", None)
        for k in r.sample(("X", "Y", "Z", "erasure", "measurement"), 2):
            if k == "erasure" and d["decoder"]["name"] == "PyMatchingDecoder":
                continue
            q[k] = {"distribution": "user"}
        if "gate_errors" in d["errors"]:
            q["measurement"] = {"distribution": "user"}
        file = {k: dict(zip(ids, map(float, ed.qubit_errors[k]))) for k in q
                if isinstance(q[k], dict) and q[k].get("distribution") == "user"}
        own = None
        if r.random() < 0.5:   # a circuit of its own; the decoder still uses the configuration
            q2 = {k: v["params"][0] if v.get("params") else 0.05 for k, v in q.items()
                  if isinstance(v, dict)}
            own = qec.generate(code, {"pauli": {i: {"x": q2.get("X", 0.03)}
                                                for i in range(code.n_data_qubits)}},
                               {}, d["general"]["logical_op"], False)
            text = os.path.join(folder, "circuit.txt")
            with open(text, "w") as f:
                f.write(str(own))
            d["circuit"] = {"circuit_provided": True, "has_errors": True, "circuit_path": text}
        c.show(config=d, circuit=str(own)[:2000])
        how, x = _load(r, d, folder)
        rate = _run(x)
        n = d["device"]["shots"]
        _valid(c, rate, n, d)
        used = err.norm(x.errors.qubit_errors_dict)
        for k, want in file.items():
            data = {i: p for i, p in want.items() if p and (i >= code.n_data_qubits) ==
                    (k == "measurement")}
            sec, ch = ("pauli", k.lower()) if k in "XYZ" else (k, "p")
            got = {i: v[ch] for i, v in used.get(sec, {}).items() if ch in v}
            c.check(err.same(got, data), "user-rates", lambda: f"{d}: rates of {k} are {got}, in the "
                    f"file {data}")
        if own is not None:
            c.check(qec.gates_of(x.circuit) == qec.gates_of(own), "provided",
                    lambda: f"{d}: another circuit than the one in the file is used")
        fails = _quiet(_by_hand, d, what, circuit=own)
        c.check(abs(rate - fails / n) < 1e-9, "by-hand", lambda: f"{d} ({how}): rate {rate}, by "
                f"hand {fails} of {n} shots fail")
        c.ev("shots", n)
        c.ev("failures", fails)
        c.ev("provided")
        c.sig("provided", own is not None, repr(d))


def long_runs(c):
    """Many shots of one experiment: every shot is a new one, and the rate is that by hand."""
    from plaquette.frontend import ExperimentConfig
    r = c.rng
    kind, size = r.choice((("repetition", 3), ("repetition", 5), ("rotated", 3), ("five", 0)))
    d = {"code": {"name": conf.NAMES[kind], "rounds": 1}, "decoder": {"name": "UnionFindDecoder",
         "weighted": False}, "general": {"logical_op": r.choice("XZ"), "seed": r.getrandbits(31),
                                         "qec_property": ["logical_error_rate"]},
         "device": {"name": "stim" if c.index % 4 else "clifford",
                    "shots": r.randrange(2100, 2600) if c.index % 4 else r.randrange(400, 600)},
         "errors": {"qubit_errors": {k: {"distribution": "constant", "params": [0.25]} for k in "XZ"}}}
    if size:
        d["code"]["size"] = size
    c.show(config=d)
    n = d["device"]["shots"]
    x = ExperimentConfig.from_dict(d)
    _quiet(x.build)
    seen, get = [], type(x.device).get_sample

    def record(self):
        out = get(self)
        seen.append(bytes(map(int, out[0])))
        return out
    type(x.device).get_sample = record
    try:
        rate = _quiet(x.run)
    finally:
        type(x.device).get_sample = get
    _valid(c, rate, n, d)
    fails = _quiet(_by_hand, d, (kind, size, 1))
    c.check(abs(rate - fails / n) < 1e-9, "by-hand", lambda: f"{d}: rate {rate}, by hand {fails} "
            f"of {n} shots fail")
    # a stretch of 48 shots that comes again (each has at least three random bits)
    first, again = {}, None
    for i in range(len(seen) - 48):
        j = first.setdefault(b"".join(seen[i:i + 48]), i)
        if j != i:
            again = j, i
            break
    c.check(again is None, "repeated-shots", lambda: f"{d}: the shots from {again[1]} on are those "
            f"from {again[0]} on")
    c.ev("shots", n)
    c.ev("failures", fails)
    c.ev("long_runs")
    c.sig("long", repr(d))


SCRIPT = """
import json, sys, warnings
warnings.simplefilter("ignore")
from plaquette.frontend import ExperimentConfig
x = ExperimentConfig.from_dict(json.load(sys.stdin))
x.build()
print(json.dumps(x.run()))
"""


def processes(c):
    """The same experiment in separate processes."""
    r = c.rng
    with tempfile.TemporaryDirectory() as folder:
        d, what = _random(r, folder, (150, 200))
        d["device"]["name"] = "stim"
        rates = [_run(_load(r, d, folder)[1])]
        for hs in r.sample(range(1000), 2):
            env = dict(os.environ, PYTHONHASHSEED=str(hs), OMP_NUM_THREADS="1", PYTHONPATH=os.path.join(
                core.REPO, "src"), PYTHONDONTWRITEBYTECODE="1")
            p = subprocess.run([sys.executable, "-c", SCRIPT], input=json.dumps(d), text=True,
                               capture_output=True, env=env, cwd=folder, timeout=100)
            c.check(p.returncode == 0, "process", lambda: f"{d}: {p.stderr[-600:]}")
            rates.append(json.loads(p.stdout.split("\n")[-2]))
            c.ev("processes")
        c.check(len(set(rates)) == 1, "processes", f"{d}: rates {rates} in different processes")
        c.sig("process", repr(d))


WORKLOADS = [W("same_seed", same_seed, 110), W("no_errors", no_errors, 60),
             W("updates", updates, 24), W("statistics", statistics, 12),
             W("stepwise", stepwise, 20),
             W("provided", provided, 30), W("processes", processes, 3), W("long_runs", long_runs, 4, 40)]
