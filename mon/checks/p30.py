"""P30: configurations validate, convert and persist without loss."""
import copy
import json
import os
import tempfile

from mon import conf, err, qec
from mon.core import W

RULE = ("random configuration dictionaries for every section and whole experiments, complete and "
        "with left-out parts, given directly and as TOML and JSON files; the objects are compared "
        "with the expected values (own defaults), converted back, written and read again; inputs "
        "are compared with copies; random sequences of updates are followed by a model; invalid "
        "values of every kind are given to constructors, dictionaries, files and updates; the "
        "errors passed on are compared with the enabled, configured ones; non-trivial = distinct "
        "(configuration or invalid value, way)")
ASSUMPTIONS = ["whether a decoder section without 'weighted' uses weights is not checked (the class "
               "and dictionaries document different defaults)",
               "numbers within one list are all written as floats (the TOML library refuses lists "
               "of mixed types)", "files state the number of rounds (required by their schema)"]
MINIMA = {"converted": 1000, "files": 350, "unchanged": 800, "refused": 2000, "updates": 800,
          "simulated": 600}

EMPTY_Q = {"distribution": "", "params": [], "enabled": False}
EMPTY_G = {"distribution": "", "induced_errors": [], "params": [], "enabled": False}
GENERAL = {"logical_op": "X", "qec_property": ["logical_error_rate"], "seed": 12345}


def _code(d):
    out = {"size": -1, "rounds": 1, **d}
    if out["name"] in ("FiveQubitCode", "ShorCode"):
        out["size"] = -1
    return out


def _qmeta(d):
    return {"params": [], "enabled": True, **d} if d is not None else dict(EMPTY_Q)


def _gmeta(d):
    return {"params": [], "induced_errors": [], "enabled": True, **d} if d is not None \
        else dict(EMPTY_G)


def _qubit(d):
    path = d.get("data_path")
    out = {"data_path": path or "qubit_errors.csv", "sample": d.get("sample", True),
           "load_file": d.get("load_file", path is not None)}
    for k in conf.QUBIT + ("fabrication",):
        out[k] = _qmeta(d.get(k))
    return out


def _gate(d):
    path = d.get("data_path")
    out = {"data_path": path or "gate_errors.csv", "sample": d.get("sample", False),
           "load_file": d.get("load_file", path is not None)}
    for k in err.ONE + err.TWO + ("fabrication",):
        out[k] = _gmeta(d.get(k))
    return out


def _circuit(d):
    return {"circuit_provided": False, "has_errors": False, "circuit_path": "circuit.txt", **d}


def expected(d):
    e = d.get("errors", {})
    dec = {"name": "PyMatchingDecoder", **d.get("decoder", {})}
    return {"general": {**GENERAL, **d.get("general", {})},
            "device": {"name": "clifford", "shots": 1024, **d.get("device", {})},
            "code": _code(d["code"]), "circuit": _circuit(d.get("circuit", {})), "decoder": dec,
            "errors": {"qubit_errors": _qubit(e.get("qubit_errors", {})),
                       "gate_errors": _gate(e.get("gate_errors", {}))}}


def _random(r, folder):
    d = {"code": conf.code_part(r, 10 ** 6)[0]}
    if r.random() < 0.3:
        d["code"]["rounds"] = r.randrange(1, 10 ** 4)
    if r.random() < 0.7:
        d["general"] = {"logical_op": r.choice(("X", "Z", "XZ", "ZZ")), "seed": 0 if r.random() < 0.15 else r.getrandbits(40),
                        "qec_property": ["logical_error_rate"]}
    if r.random() < 0.7:
        d["device"] = {k: v for k, v in (("name", r.choice(("stim", "clifford"))),
                                         ("shots", r.randrange(1, 10 ** 6 + 1)))
                       if r.random() < 0.7}
    if r.random() < 0.7:
        d["decoder"] = conf.decoder_part(r)
        if r.random() < 0.2:
            d["decoder"].pop("name")
    if r.random() < 0.4:
        d["circuit"] = {k: v for k, v in (("circuit_provided", r.random() < 0.5),
                                          ("has_errors", r.random() < 0.5),
                                          ("circuit_path", os.path.join(folder, "c.txt")))
                        if r.random() < 0.7}
        if d["circuit"].get("circuit_provided"):
            d["circuit"]["circuit_path"] = os.path.join(folder, "there.txt")
    d["errors"] = part = conf.errors_part(r, 0.3, user=True)
    for name in ("qubit_errors", "gate_errors"):
        s = part.get(name)
        if s is None:
            continue
        if r.random() < 0.3:
            s["fabrication"] = r.choice((
                {"distribution": "user"}, {"distribution": "user", "enabled": False},
                {"distribution": "constant", "params": [0.1]} if name[0] == "q" else
                {"distribution": ["constant"], "induced_errors": ["X"], "params": [[0.1]]}))
        if r.random() < 0.5:
            s["data_path"] = os.path.join(folder, r.choice(("there.txt", "not.csv")))
            s["load_file"] = s["data_path"].endswith("there.txt") and r.random() < 0.5
            if s["data_path"].endswith("there.txt") and r.random() < 0.4:
                del s["load_file"]
        elif r.random() < 0.3:
            s["load_file"] = False
    items = list(d.items())
    r.shuffle(items)
    return dict(items)


def _plain(x):
    """Plain Python values; -0.0 and ints as they are, numpy numbers as floats."""
    if isinstance(x, dict):
        return {k: _plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_plain(v) for v in x]
    if isinstance(x, (bool, str, int)) or x is None:
        return x
    return float(x)


def _is(c, what, got, want, mech):
    got = _plain(got)
    want = _plain(want)
    if "decoder" in want and "weighted" not in want["decoder"]:
        got = dict(got, decoder={k: v for k, v in got["decoder"].items() if k != "weighted"})
    c.check(got == want, mech, lambda: f"{what}: " + "; ".join(_where(got, want)))


def _where(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            yield from _where(a.get(k, "<missing>"), b.get(k, "<missing>"), f"{path}/{k}")
    elif a != b:
        yield f"{path} is {a!r} instead of {b!r}"


def _folder():
    return tempfile.TemporaryDirectory()


def _same_sim(c, what, got, part):
    """The errors passed on are exactly the enabled, configured ones."""
    part = copy.deepcopy(part)
    part.setdefault("qubit_errors", {})
    part.setdefault("gate_errors", {})
    one, two = conf.simulated(part)
    for name, g, w, path in (("qubit", got[0], one, _qubit(part["qubit_errors"])["data_path"]),
                             ("gate", got[1], two, _gate(part["gate_errors"])["data_path"])):
        c.check((g is None) == (w is None), "simulated", lambda: f"{what}: {name} errors passed on "
                f"are {g}, not {w}")
        if w is not None:
            c.check(_plain(g[0]) == _plain(w) and g[1] == path, "simulated", lambda: f"{what}: "
                    f"{name} errors passed on are {g}, not {w} with {path}")
        c.ev("simulated")


_SECTIONS = {"general": "general_conf", "device": "device_conf", "code": "code_conf",
             "circuit": "circuit_conf", "errors": "errors_conf", "decoder": "decoder_conf"}


def experiments(c):
    """Whole experiments: reading, converting, writing."""
    from plaquette.frontend import ExperimentConfig
    r = c.rng
    with _folder() as folder:
        open(os.path.join(folder, "there.txt"), "w").close()
        for _ in range(3):
            d = _random(r, folder)
            keep = copy.deepcopy(d)
            c.show(config=d)
            want = expected(d)
            x = ExperimentConfig.from_dict(d)
            c.check(d == keep, "changed", lambda: f"from_dict changed its argument: "
                    f"{list(_where(d, keep))}")
            c.ev("unchanged")
            _is(c, "as_dict", x.as_dict(), want, "as_dict")
            back = x.as_dict()
            keep_back = copy.deepcopy(back)
            y = ExperimentConfig.from_dict(back)
            c.check(y == x, "converted", lambda: f"{d}: converting to a dictionary and back gives "
                    f"another configuration: {list(_where(_plain(y.as_dict()), want))}")
            c.check(back == keep_back, "changed", "from_dict changed its argument")
            c.ev("unchanged")
            c.ev("converted")
            c.check(x.validate() is True, "validate", f"{d} is not valid")
            _same_sim(c, d, x.errors_conf.simulated_errors, d["errors"])
            # files given by a user
            f = copy.deepcopy(d)
            f["code"].setdefault("rounds", 1)
            for kind in ("toml", "json"):
                z = getattr(ExperimentConfig, "load_" + kind)(conf.write(f, folder, kind))
                _is(c, kind + " file", z.as_dict(), want, "load")
                c.check(z == x, "load", lambda: f"{d}: the {kind} file gives another configuration")
                c.ev("files")
                # and written by the library
                path = os.path.join(folder, "dump." + kind)
                getattr(r.choice((x, y, z)), "dump_" + kind)(path)
                w = getattr(ExperimentConfig, "load_" + kind)(path)
                _is(c, "dumped " + kind, w.as_dict(), want, "dump")
                c.check(w == x, "dump", lambda: f"{d}: writing and reading {kind} gives another "
                        "configuration")
                c.ev("files")
            _separate(c, "experiment", x)
            # sections of another experiment
            d2 = _random(r, folder)
            e2 = expected(d2)
            z = ExperimentConfig.from_dict(d)
            other = ExperimentConfig.from_dict(d2)
            parts = r.sample(list(_SECTIONS), r.randrange(1, 4))
            z.update(**{_SECTIONS[p]: getattr(other, _SECTIONS[p]) for p in parts})
            _is(c, f"updating {parts}", z.as_dict(), {**want, **{p: e2[p] for p in parts}},
                "update-sections")
            c.ev("updates")
            # two configurations from one dictionary are independent
            y = ExperimentConfig.from_dict(d)
            x.general_conf["seed"] = -1
            x.code_conf.update(rounds=77)
            x.errors_conf.qubit_errors.X.update(distribution="user", params=[], enabled=True)
            x.errors_conf.gate_errors.update(sample=not x.errors_conf.gate_errors.sample)
            x.device_conf.update(shots=4242)
            _is(c, "after updating another configuration", y.as_dict(), want, "shared")
            c.check(d == keep, "changed", "updating a configuration changed the dictionary")
            c.sig("experiment", repr(d))


def _sections(r, folder):
    """(class, dictionary, expected)."""
    from plaquette import frontend as f
    d = _random(r, folder)
    e = expected(d)
    out = [(f.CodeConfig, d["code"], e["code"])]
    if "device" in d:
        out.append((f.DeviceConfig, d["device"], e["device"]))
    if "circuit" in d:
        out.append((f.CircuitConfig, d["circuit"], e["circuit"]))
    if "decoder" in d and "weighted" in d["decoder"]:
        out.append((f.DecoderConfig, d["decoder"], e["decoder"]))
    for name, cls in (("qubit_errors", f.QubitErrorsConfig), ("gate_errors", f.GateErrorsConfig)):
        s = d["errors"].get(name)
        if s is None:
            continue
        out.append((cls, s, e["errors"][name]))
        for k, v in s.items():
            if isinstance(v, dict):
                out.append((f._QubitErrorMetadata if name[0] == "q" else f._GateErrorMetadata, v,
                            e["errors"][name][k]))
    out.append((f.ErrorsConfig, d["errors"], e["errors"]))
    return out


def _scribble(x):
    """Change all lists and dictionaries within x."""
    for v in list(x.values()) if isinstance(x, dict) else x:
        if isinstance(v, (dict, list)):
            _scribble(v)
    if isinstance(x, dict):
        for k in list(x):
            if not isinstance(x[k], (dict, list)):
                x[k] = "changed"
        x["more"] = 1
    else:
        x.append("more")


def _separate(c, what, x):
    """Changing a converted configuration does not change the configuration."""
    keep = copy.deepcopy(x.as_dict())
    _scribble(x.as_dict())
    c.check(x.as_dict() == keep, "live", lambda: f"{what}: changing the result of as_dict changed "
            f"the configuration: {list(_where(_plain(x.as_dict()), _plain(keep)))}")
    c.ev("separate")


def _fresh_defaults(c):
    """Defaults filled in belong to one configuration only."""
    from plaquette import frontend as f
    for cls, d in ((f._GateErrorMetadata, {"distribution": "user"}),
                   (f._QubitErrorMetadata, {"distribution": "user"}),
                   (f.QubitErrorsConfig, {}), (f.GateErrorsConfig, {}), (f.ErrorsConfig, {}),
                   (f.ExperimentConfig, {"code": {"name": "ShorCode"}})):
        want = copy.deepcopy(cls.from_dict(d).as_dict())
        x = cls.from_dict(d)
        todo = [x]
        while todo:
            o = todo.pop()
            for k, v in list(vars(o).items()):
                if hasattr(v, "as_dict"):
                    todo.append(v)
                elif isinstance(v, (dict, list)):
                    _scribble(v)
        got = cls.from_dict(d).as_dict()
        c.check(got == want, "shared-default", lambda: f"{cls.__name__}: after changing another "
                f"configuration the defaults are wrong: {list(_where(got, want))}")
        c.ev("fresh_defaults")


def sections(c):
    """Every section on its own, and by its constructor."""
    r = c.rng
    with _folder() as folder:
        open(os.path.join(folder, "there.txt"), "w").close()
        if c.index % 8 == 0:
            _fresh_defaults(c)
        for cls, d, want in _sections(r, folder):
            keep = copy.deepcopy(d)
            x = cls.from_dict(d)
            c.check(d == keep, "changed", lambda: f"{cls.__name__}.from_dict changed its argument: "
                    f"{list(_where(d, keep))}")
            c.ev("unchanged")
            _is(c, cls.__name__, x.as_dict(), want, "section")
            again = cls.from_dict(x.as_dict())
            c.check(again == x, "converted", lambda: f"{cls.__name__}: {again} instead of {x}")
            c.ev("converted")
            if not any(isinstance(v, dict) for v in want.values()):
                k = copy.deepcopy(want)
                y = cls(**k)
                c.check(y == x and k == want, "constructor", lambda: f"{cls.__name__}({k}) is {y}, "
                        f"not {x}")
            _separate(c, cls.__name__, x)
            c.check(x.as_dict() is not x.as_dict() and not x.as_dict() is d, "as_dict",
                    "as_dict returns a shared dictionary")
            c.sig(cls.__name__, repr(d))


def numpy_numbers(c):
    """Rates from numpy arrays, as in the tutorials' sweeps."""
    import numpy as np
    from plaquette import frontend as f
    r = c.rng
    with _folder() as folder:
        d = _random(r, folder)
        d.pop("circuit", None)
        for s in d["errors"].values():
            s.pop("data_path", None)
            s["load_file"] = False
        x = f.ExperimentConfig.from_dict(d)
        p = np.array([r.random() * 0.2 for _ in range(4)])
        x.errors_conf.qubit_errors.update(
            X=f._QubitErrorMetadata(distribution="constant", params=[p[0]]),
            Z=f._QubitErrorMetadata(distribution="gaussian", params=list(p[1:3])))
        x.errors_conf.gate_errors.update(CZ=f._GateErrorMetadata(
            distribution=["constant"], induced_errors=["XX"], params=[[p[3]]]))
        part = d["errors"]
        q = part.setdefault("qubit_errors", {})
        q["X"] = {"distribution": "constant", "params": [p[0]]}
        q["Z"] = {"distribution": "gaussian", "params": list(p[1:3])}
        part.setdefault("gate_errors", {})["CZ"] = {
            "distribution": ["constant"], "induced_errors": ["XX"], "params": [[p[3]]]}
        want = expected(d)
        _is(c, "numpy numbers", x.as_dict(), want, "numpy")
        c.check(x.validate() is True, "validate", "not valid")
        for kind in ("toml", "json"):
            path = os.path.join(folder, "n." + kind)
            getattr(x, "dump_" + kind)(path)
            y = getattr(f.ExperimentConfig, "load_" + kind)(path)
            _is(c, "numpy numbers in " + kind, y.as_dict(), want, "numpy")
            c.ev("files")
        _same_sim(c, "numpy", y.errors_conf.simulated_errors, part)
        c.sig("numpy", repr(p))


# --------------------------------------------------------------------------- invalid values
NAMES = ("", "planar", "RotatedPlanar", "rotatedplanarcode", "SurfaceCode", "Stim", "PyMatching",
         "UnionFind", "uniform", "Constant", "USER", "qasm_simulator", None, 3, " stim")
COUNTS = (0, -1, -2, -10 ** 6, 0.5, 2.0, 3.7, "3", None, float("nan"))


def _bad(r):
    """(class, valid base, invalid changes)."""
    from plaquette import frontend as f
    how = r.choice(("code", "code", "device", "decoder", "qmeta", "qmeta", "gmeta", "gmeta"))
    if how == "code":
        base = _code(conf.code_part(r, 10 ** 6)[0])
        what = r.choice(("name", "size", "rounds", "rounds"))
        if what == "size":
            base = {"name": r.choice(sorted(set(conf.NAMES.values()) -
                                            {"FiveQubitCode", "ShorCode"})),
                    "size": 3, "rounds": r.randrange(1, 4)}
        bad = {what: r.choice(NAMES if what == "name" else COUNTS)}
        return f.CodeConfig, base, bad
    if how == "device":
        base = {"name": r.choice(("stim", "clifford")), "shots": r.randrange(1, 100)}
        return f.DeviceConfig, base, r.choice(({"name": r.choice(NAMES)},
                                               {"shots": r.choice(COUNTS)}))
    if how == "decoder":
        return f.DecoderConfig, conf.decoder_part(r), {"name": r.choice(NAMES[1:])}
    if how == "qmeta":
        base = _qmeta(conf.meta(r, user=True))
        n = {"constant": 1, "gaussian": 2, "user": 0}
        if r.random() < 0.3:
            return f._QubitErrorMetadata, base, {"distribution": r.choice(NAMES[1:])}
        dist = base["distribution"] if r.random() < 0.5 else r.choice(sorted(n))
        k = r.choice([i for i in range(5) if i != n[dist]])
        return f._QubitErrorMetadata, base, {"distribution": dist, "params": [0.1] * k}
    g = r.choice(err.ONE + err.TWO)
    base = _gmeta(conf.gate_meta(r, g, user=True))
    lab = list("XYZ") if g in err.ONE else err.PAIRS
    k = r.randrange(1, 4)
    good = {"distribution": ["constant"] * k, "induced_errors": r.sample(lab, k),
            "params": [[0.1]] * k}
    bad = copy.deepcopy(good)
    i = r.randrange(k)
    what = r.choice(("label", "name", "count", "more", "less", "user", "word"))
    if what == "label":
        bad["induced_errors"][i] = r.choice(("I", "II", "x", "XYZ", "W", "", "xx", "XW", "IIX"))
    elif what == "name":
        bad["distribution"][i] = r.choice(("user", "uniform", "", "Constant", None, "gauss"))
    elif what == "count":
        bad["distribution"][i] = d = r.choice(("constant", "gaussian"))
        bad["params"] = list(bad["params"])
        bad["params"][i] = [0.1] * r.choice([j for j in range(4)
                                             if j != ("constant", "gaussian").index(d) + 1])
    elif what in ("more", "less"):
        key = r.choice(sorted(bad))
        bad[key] = bad[key][:-1] if what == "less" else bad[key] + [bad[key][0]]
    elif what == "user":
        bad = r.choice(({"distribution": "user", "params": [[0.1]], "induced_errors": []},
                        {"distribution": "user", "params": [], "induced_errors": ["X"]},
                        {"distribution": "user", "params": [[0.1]], "induced_errors": ["X"]}))
    else:
        bad = {"distribution": r.choice([x for x in NAMES if x != ""] + ["constant", "gaussian"]),
               "params": [], "induced_errors": []}
    return f._GateErrorMetadata, base, bad


def refusals(c):
    """Invalid values are refused however they are given."""
    r = c.rng
    for _ in range(12):
        cls, base, bad = _bad(r)
        both = {**base, **bad}
        what = f"{cls.__name__} with {bad} instead of {base}"
        c.refuses(lambda: cls(**copy.deepcopy(both)), "construct", what)
        c.refuses(lambda: cls.from_dict(copy.deepcopy(both)), "from_dict", what)
        x = cls(**copy.deepcopy(base))
        c.refuses(lambda: x.update(**copy.deepcopy(bad)), "update", what)
        c.ev("refused", 3)
        c.sig("refused", cls.__name__, repr(bad))


def files(c):
    """Paths that do not exist, and files with invalid content."""
    from plaquette import frontend as f
    r = c.rng
    with _folder() as folder:
        open(os.path.join(folder, "there.txt"), "w").close()
        there, no = (os.path.join(folder, n) for n in ("there.txt", "no.txt"))
        deep = os.path.join(folder, "none", "no.txt")
        for cls in (f.QubitErrorsConfig, f.GateErrorsConfig):
            ok = cls(data_path=there, load_file=True)
            cls(data_path=no, load_file=False)
            for kw in ({"data_path": no, "load_file": True}, {"data_path": deep,
                                                              "load_file": False}):
                c.refuses(lambda: cls(**kw), "path", f"{cls.__name__} {kw}")
                c.refuses(lambda: cls.from_dict(dict(kw)), "path", f"{cls.__name__} {kw}")
                x = copy.deepcopy(ok)
                c.refuses(lambda: x.update(**kw), "path-update", f"{cls.__name__} {kw}")
                c.ev("refused", 3)
        ok = f.CircuitConfig(circuit_path=there, circuit_provided=True)
        for kw in ({"circuit_path": no, "circuit_provided": True},
                   {"circuit_path": deep, "circuit_provided": r.random() < 0.5}):
            c.refuses(lambda: f.CircuitConfig(**kw), "path", f"circuit {kw}")
            c.refuses(lambda: f.CircuitConfig.from_dict(dict(kw)), "path", f"circuit {kw}")
            x = copy.deepcopy(ok)
            c.refuses(lambda: x.update(**kw), "path-update", f"circuit {kw}")
            c.ev("refused", 3)
        # files
        d = _random(r, folder)
        d["code"].setdefault("rounds", 1)
        bad = copy.deepcopy(d)
        how = r.choice(("errors", "code", "name", "size", "shots", "device", "decoder", "weighted",
                        "op", "seed", "meta", "gate", "rounds"))
        if how in ("errors", "code"):
            del bad[how]
        elif how == "name":
            bad["code"]["name"] = r.choice(("Planar", "ColorCode", ""))
        elif how == "size":
            bad["code"] = {"name": "PlanarCode", "rounds": 1, "size": r.choice((0, -3, 2.5, "3"))}
        elif how == "rounds":
            bad["code"]["rounds"] = r.choice((0, -1, 1.5, "1"))
        elif how == "shots":
            bad.setdefault("device", {})["shots"] = r.choice((0, -1, 2.5, "10"))
        elif how == "device":
            bad.setdefault("device", {})["name"] = r.choice(("Stim", "x", ""))
        elif how == "decoder":
            bad.setdefault("decoder", {})["name"] = r.choice(("Matching", "x", ""))
        elif how == "weighted":
            bad.setdefault("decoder", {})["weighted"] = r.choice(("true", 2, 0.5))
        elif how == "op":
            bad["general"] = {**GENERAL, "logical_op": r.choice(("Y", "", "x", "W", 3))}
        elif how == "seed":
            bad["general"] = {**GENERAL, "seed": r.choice(("1", 1.5))}
        elif how == "meta":
            bad["errors"].setdefault("qubit_errors", {})[r.choice(conf.QUBIT)] = r.choice((
                {"distribution": "constant", "params": []}, {"distribution": "other"},
                {"distribution": "user", "params": [0.1]},
                {"distribution": "gaussian", "params": [0.1]}))
        else:
            bad["errors"].setdefault("gate_errors", {})[r.choice(err.TWO)] = r.choice((
                {"distribution": ["constant"], "induced_errors": ["II"], "params": [[0.1]]},
                {"distribution": ["constant"], "induced_errors": ["XX"], "params": [[0.1, 0.2]]},
                {"distribution": ["gaussian"], "induced_errors": ["XX"], "params": [[0.1]]},
                {"distribution": ["constant"], "induced_errors": ["XX", "XY"], "params": [[0.1]]}))
        c.show(how=how, config=bad)
        for kind in ("toml", "json"):
            path = conf.write(bad, folder, kind)
            c.refuses(lambda: getattr(f.ExperimentConfig, "load_" + kind)(path), "bad-file",
                      f"{kind} file with defect in {how}: {bad}")
            c.ev("refused")
        # valid configuration made invalid afterwards: validation notices
        x = f.ExperimentConfig.from_dict(d)
        if how in ("name", "rounds"):
            setattr(x.code_conf, how, bad["code"][how])
        elif how == "shots":
            x.device_conf.shots = bad["device"]["shots"]
        elif how == "decoder":
            x.decoder_conf.name = bad["decoder"]["name"]
        elif how == "op":
            x.general_conf["logical_op"] = bad["general"]["logical_op"]
        else:
            return
        c.refuses(lambda: x.validate(), "validate", f"validation of {how} in {bad}")
        c.ev("refused")
        c.sig("file", how, repr(bad))


def updates(c):
    """Sequences of updates against a model of dictionaries."""
    from plaquette import frontend as f
    r = c.rng
    with _folder() as folder:
        open(os.path.join(folder, "there.txt"), "w").close()
        d = _random(r, folder)
        x = f.ExperimentConfig.from_dict(copy.deepcopy(d))
        m = expected(d)
        m["decoder"].setdefault("weighted", x.decoder_conf.weighted)
        part = d["errors"]
        steps = [repr(d)]
        for _ in range(10):
            new = _random(r, folder)
            e = expected(new)
            how = r.choice(("code", "device", "decoder", "circuit", "qmeta", "qmeta", "gmeta",
                            "gmeta", "qubit", "gate", "section", "bad"))
            if how == "code":
                kw = e["code"] if r.random() < 0.5 else {"rounds": e["code"]["rounds"]}
                x.code_conf.update(**kw)
                m["code"] = _code({**m["code"], **kw})
            elif how in ("device", "decoder"):
                kw = {k: v for k, v in e[how].items() if r.random() < 0.6}
                getattr(x, how + "_conf").update(**kw)
                m[how].update(kw)
            elif how == "circuit":
                kw = dict(e["circuit"], circuit_path=os.path.join(folder, "there.txt"))
                x.circuit_conf.update(**kw)
                m["circuit"] = kw
            elif how in ("qmeta", "gmeta"):
                sec = "qubit_errors" if how == "qmeta" else "gate_errors"
                k = r.choice(conf.QUBIT if how == "qmeta" else err.ONE + err.TWO)
                full = (_qmeta(conf.meta(r, user=True)) if how == "qmeta" else
                        _gmeta(conf.gate_meta(r, k, user=True)))
                obj, cur = getattr(getattr(x.errors_conf, sec), k), m["errors"][sec][k]
                if r.random() < 0.4 and cur["distribution"]:
                    full = {"enabled": r.random() < 0.5}
                if r.random() < 0.5 or len(full) == 1:
                    obj.update(**copy.deepcopy(full))
                    m["errors"][sec][k] = {**cur, **full}
                else:
                    getattr(x.errors_conf, sec).update(**{k: type(obj)(**copy.deepcopy(full))})
                    m["errors"][sec][k] = full
            elif how in ("qubit", "gate"):
                kw = {"sample": r.random() < 0.5}
                if r.random() < 0.5:
                    kw.update(data_path=os.path.join(folder, "there.txt"),
                              load_file=r.random() < 0.5)
                getattr(x.errors_conf, how + "_errors").update(**kw)
                m["errors"][how + "_errors"].update(kw)
            elif how == "section":
                sec = r.choice(("qubit_errors", "gate_errors"))
                cls = f.QubitErrorsConfig if sec[0] == "q" else f.GateErrorsConfig
                x.errors_conf.update(**{sec: cls.from_dict(new["errors"].get(sec, {}))})
                m["errors"][sec] = e["errors"][sec]
            else:
                cls, base, bad = _bad(r)
                y = copy.deepcopy(x)
                obj = {f.CodeConfig: y.code_conf, f.DeviceConfig: y.device_conf,
                       f.DecoderConfig: y.decoder_conf}.get(cls)
                if obj is None or "size" in bad and m["code"]["size"] == -1:
                    continue
                c.refuses(lambda: obj.update(**bad), "update", f"{bad} for {obj}")
                c.ev("refused")
            steps.append(how)
            c.show(steps=steps)
            _is(c, f"after {steps}", x.as_dict(), m, "update")
            part = {s: {k: v for k, v in m["errors"][s].items()
                        if not (isinstance(v, dict) and v["distribution"] in ("", []))}
                    for s in m["errors"]}
            _same_sim(c, f"after {steps}", x.errors_conf.simulated_errors, part)
            c.ev("updates")
            c.sig("update", how, json.dumps(m, sort_keys=True, default=str))
        again = f.ExperimentConfig.from_dict(x.as_dict())
        c.check(again.as_dict() == x.as_dict(), "converted", "conversion after updates")
        c.ev("converted")


def codes(c):
    """The code a configuration makes, also a large one, and after updates."""
    from plaquette import frontend as f
    r = c.rng
    conf_, m = None, {}
    for _ in range(4):
        kind = r.choice(sorted(conf.NAMES))
        m = {"name": conf.NAMES[kind], "rounds": r.choice((1, 2, 3, r.randrange(4, 40)))}
        if kind not in ("five", "shor"):
            m["size"] = r.randrange(1, 20) * 2 + 1 if kind == "repetition" else r.choice(
                (r.randrange(2, 8), r.randrange(8, 14)))
        way = r.choice(("init", "dict", "update"))
        if way == "update" and conf_ is not None:
            conf_.update(**m)
        else:
            conf_ = f.CodeConfig(**m) if way == "init" else f.CodeConfig.from_dict(dict(m))
        code = conf_.instantiate()
        want = qec.bundled(kind, m.get("size", 0), m["rounds"])
        c.check(code.n_rounds == m["rounds"], "rounds", f"{m} ({way}): {code.n_rounds} rounds")
        a, b = qec.View(code), qec.View(want)
        c.check(a.n == b.n and a.stabs == b.stabs and a.logs == b.logs, "instantiated",
                f"{m} ({way}): another code, {a.n} data qubits and {len(a.stabs)} generators")
        c.ev("instantiated")
        c.sig("code", repr(m))


WORKLOADS = [W("codes", codes, 60), W("experiments", experiments, 60), W("sections", sections, 140),
             W("numpy_numbers", numpy_numbers, 30), W("refusals", refusals, 90),
             W("files", files, 60), W("updates", updates, 170)]
