"""Random experiment configurations and the same experiment written down by hand."""
import copy
import os

from mon import err, qec

NAMES = {"rotated": "RotatedPlanarCode", "planar": "PlanarCode", "toric": "ToricCode",
         "repetition": "RepetitionCode", "five": "FiveQubitCode", "shor": "ShorCode"}
DECODERS = ("PyMatchingDecoder", "UnionFindDecoder", "UnionFindNoWeights", "FusionBlossomDecoder")
QUBIT = ("X", "Y", "Z", "erasure", "measurement")


def code_part(r, max_data=20, rounds=(1, 1, 2, 3)):
    """(section, kind, size, rounds)."""
    opts = [(k, s) for k in qec.SIZES for s in qec.SIZES[k]
            if {"repetition": s, "planar": s * s + (s - 1) ** 2, "rotated": s * s,
                "toric": 2 * s * s, "five": 5, "shor": 9}[k] <= max_data]
    kind = r.choice(sorted({k for k, _ in opts}))
    size = r.choice([s for k, s in opts if k == kind])
    n = r.choice(rounds)
    d = {"name": NAMES[kind]}
    if kind not in ("five", "shor"):
        d["size"] = size
    if n != 1 or r.random() < 0.7:
        d["rounds"] = n
    return d, kind, size, n


def _p(r, scale):
    return round(r.uniform(0.2, 1) * scale, r.choice((3, 6, 17)))


def meta(r, scale=0.1, user=False):
    how = r.choice(("constant", "constant", "gaussian") + (("user",) if user else ()))
    d = {"distribution": how}
    if how == "constant":
        d["params"] = [_p(r, scale)]
    elif how == "gaussian":
        d["params"] = [_p(r, scale), _p(r, scale / 4)]
    elif r.random() < 0.3:
        d["params"] = []
    if r.random() < 0.5:
        d["enabled"] = r.random() < 0.6
    return d


def gate_meta(r, gate, scale=0.02, user=False):
    if user and r.random() < 0.25:
        d = {"distribution": "user"}
        if r.random() < 0.3:
            d.update(induced_errors=[], params=[])
    else:
        names = r.sample(list("XYZ") if gate not in err.TWO else err.PAIRS, r.randrange(1, 4))
        how = [r.choice(("constant", "gaussian")) for _ in names]
        d = {"distribution": how, "induced_errors": names,
             "params": [[_p(r, scale)] if h == "constant" else [_p(r, scale), _p(r, scale / 4)]
                        for h in how]}
    if r.random() < 0.5:
        d["enabled"] = r.random() < 0.6
    return d


def errors_part(r, scale=0.1, user=False, empty=0.1, gates=0.5):
    out = {}
    if r.random() > empty:
        q = {k: meta(r, scale, user) for k in QUBIT if r.random() < 0.5}
        if r.random() < 0.2:
            q["sample"] = r.random() < 0.7
        out["qubit_errors"] = q
    if r.random() < gates:
        g = {k: gate_meta(r, k, scale / 8, user) for k in err.ONE + err.TWO if r.random() < 0.4}
        if r.random() < 0.8:
            g["sample"] = r.random() < 0.8
        out["gate_errors"] = g
    return out


def on(d):
    return d.get("enabled", True)


def simulated(part):
    """What the two error sections ask for: (qubit, gate), None if nothing is to be sampled."""
    q, g = part.get("qubit_errors", {}), part.get("gate_errors", {})
    one = two = None
    if q.get("sample", True):
        one = {k: (v["distribution"], *v.get("params", [])) for k, v in sorted(q.items())
               if isinstance(v, dict) and on(v)}
    if g.get("sample", False):
        two = {}
        for k, v in sorted(g.items()):
            if isinstance(v, dict) and on(v):
                two[k] = (v["distribution"],) if isinstance(v["distribution"], str) else [
                    (h, c, *p) for h, c, p in zip(v["distribution"], v["induced_errors"],
                                                  v["params"])]
    return one, two


def decoder_part(r, erasure=False):
    name = r.choice(DECODERS[1:] if erasure else DECODERS)
    return {"name": name, "weighted": r.random() < 0.5 and name != "UnionFindNoWeights"}


def write(conf, folder, kind, name="conf"):
    """The configuration as a file; returns its path."""
    import json
    import toml
    path = os.path.join(folder, f"{name}.{kind}")
    with open(path, "w") as f:
        (toml if kind == "toml" else json).dump(copy.deepcopy(conf), f)
    return path
