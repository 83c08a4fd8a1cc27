"""P26: error data survives saving to and loading from files."""
import copy
import os
import tempfile
import warnings

from mon import err, qec
from mon.checks import p25
from mon.core import W

RULE = ("tables with random histories of edits are saved, loaded and compared with the reference "
        "model; tables are updated from files (with and without overwriting, qubit and gate "
        "errors, partial and permuted rows) next to a copy updated in memory; template files for "
        "all lattices; non-trivial = distinct (code, operations, file contents)")
ASSUMPTIONS = ["files do not say which errors are enabled: all errors of a loaded table are",
               "decimal fractions in files are read to 1e-12"]
MINIMA = {"compared": 1200, "round_trips": 250, "file_updates": 250, "templates": 60,
          "entries": 10000}


def _quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


def round_trips(c):
    from plaquette.errors import ErrorData
    r = c.rng
    label, code = qec.some_code(r, 30, 0.3)
    view = qec.View(code)
    ed, m, how = _quiet(p25._start, r, view, code)
    done = [how]
    with tempfile.TemporaryDirectory() as tmp:
        for i in range(3):
            for _ in range(r.randrange(4)):
                s = p25._step(c, r, view, ed, m)
                done.append(s or "-")
            what = f"{label} saved after {'; '.join(done)[-600:]}"
            qf, gf = os.path.join(tmp, f"q{i}.csv"), os.path.join(tmp, f"g{i}.csv")
            _quiet(ed.save_to_csv, qf, gf)
            err.judge(c, f"{what}: table after saving", ed, m)
            new = _quiet(ErrorData.from_csv, qf, gf)
            loaded = m.copy()
            loaded.enabled, loaded.gates = set(m.val), {g for g, *_ in m.rows}
            err.judge(c, f"{what}: loaded", new, loaded, "loaded")
            new.check_against_code(code)
            qf2, gf2 = qf + "2", gf + "2"
            _quiet(new.save_to_csv, qf2, gf2)
            again = _quiet(ErrorData.from_csv, qf2, gf2)
            err.judge(c, f"{what}: loaded twice", again, loaded, "loaded")
            only = _quiet(ErrorData.from_csv, qf if r.random() < 0.5 else None,
                          gf if r.random() < 0.5 else None)
            half = loaded.copy()
            if only.qubit_errors.empty:
                half.enabled = set()
            if only.gate_errors.empty:
                half.rows = []
            err.judge(c, f"{what}: one file loaded", only, half, "loaded")
            c.ev("round_trips")
            with open(qf) as f, open(gf) as g:
                c.sig(label, f.read(), g.read())
            if r.random() < 0.5:
                ed, m = again, loaded
                done.append("reload")
    c.show(setup=what)


def _write_gates(path, rows, r):
    q = r.choice(('"', ""))
    with open(path, "w") as f:
        f.write("gate,on_qubits,induced_errors,probs\n")
        for g, *lists in rows:
            f.write(",".join([g] + [q + "|".join(map(str, x)) + q for x in lists]) + "\n")


def updates(c):
    """Update from files; the same in memory."""
    import pandas as pd
    r = c.rng
    label, code = qec.some_code(r, 30, 0.3)
    view = qec.View(code)
    ed, m, how = _quiet(p25._start, r, view, code)
    for _ in range(r.randrange(3)):
        p25._step(c, r, view, ed, m)
    done = [how]
    ids = sorted(m.kind)
    with tempfile.TemporaryDirectory() as tmp:
        for i in range(3):
            mem = copy.deepcopy(ed)
            over = r.random() < 0.4
            kw, mk = {}, {}
            if r.random() < 0.75:
                names = r.sample(err.NAMES, r.randrange(1, 5))
                qs = list(ids) if over or r.random() < 0.4 else r.sample(ids, r.randrange(1, len(ids)))
                r.shuffle(qs)
                src = err.Model.of(view)
                src.kind = {q: m.kind[q] for q in ids}
                src.val = {k: {q: None if r.random() < 0.15 else err.prob(r) for q in qs}
                           for k in names}
                df = src.frame(pd, names, qs)
                kw["qubit_error_csv"] = os.path.join(tmp, f"q{i}.csv")
                df.to_csv(kw["qubit_error_csv"], index=False)
                mk["qubit_errors"] = df
                if over:
                    m.val = {k: dict(v) for k, v in src.val.items()}
                else:
                    for k in names:
                        m.val.setdefault(k, {q: None for q in ids}).update(
                            {q: p for q, p in src.val[k].items() if p is not None})
                m.enabled = set(m.val)
                done.append(f"{'replace' if over else 'update'} {sorted(names)} of {sorted(qs)}")
            if r.random() < 0.6:
                rows = [err.random_row(r, view) for _ in range(r.randrange(1, 4))]
                kw["gate_error_csv"] = os.path.join(tmp, f"g{i}.csv")
                _write_gates(kw["gate_error_csv"], rows, r)
                mk["gate_errors"] = m.gate_frame(pd, rows)
                m.rows = rows if over else m.rows + rows
                m.gates = {g for g, *_ in m.rows}
                done.append(f"{'replace' if over else 'add'} gates {rows}")
            what = f"{label} {'; '.join(done)[-700:]}"
            _quiet(ed.update_from_csv, overwrite=over, **kw)
            err.judge(c, f"{what}: from files", ed, m, "from-file")
            _quiet(mem.update, overwrite=over, **mk)
            err.judge(c, f"{what}: in memory", mem, m, "in-memory")
            c.check(mem.enabled_qubit_errors == ed.enabled_qubit_errors and
                    mem.enabled_gate_errors == ed.enabled_gate_errors, "enabled", lambda: f"{what}: "
                    f"enabled errors from file {ed.enabled_qubit_errors} {ed.enabled_gate_errors}, "
                    f"in memory {mem.enabled_qubit_errors} {mem.enabled_gate_errors}")
            c.ev("file_updates")
            c.sig(label, tuple(done))
            if r.random() < 0.5:
                p25._step(c, r, view, ed, m)
    c.show(setup=what)


def templates(c):
    import pandas as pd
    from plaquette import errors
    r = c.rng
    label, code = qec.some_code(r, 40, 0.3)
    names = None if r.random() < 0.2 else r.sample(
        err.NAMES + ("fabrication",), r.randrange(1, 7))
    conf = None
    if names is None and r.random() < 0.7:   # of a configured experiment
        from plaquette.frontend import ExperimentConfig
        label = r.choice(("PlanarCode", "RotatedPlanarCode", "RepetitionCode", "FiveQubitCode"))
        conf = ExperimentConfig.from_dict({"code": {"name": label, "size": r.choice((3, 5))}})
        conf.build_code()
        code = conf.code
    view = qec.View(code)
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, "t.csv")
        if conf is None:
            errors.generate_empty_qubit_errors_csv(code.lattice, names, path)
        else:
            conf.generate_empty_error_csv(path)
            c.ev("configured_templates")
        ed = _quiet(errors.ErrorData.from_csv, path)
        what = f"{label} template {names}"
        want = {q: "data" for q in range(view.n)} | {
            view.n + i: "stab" for i in range(len(view.stabs))}
        got = dict(zip(ed.qubit_errors["qubit_id"].tolist(), ed.qubit_errors["qubit_type"].tolist()))
        c.check(got == want and len(ed.qubit_errors) == len(want), "template-qubits",
                lambda: f"{what}: qubits {got}")
        cols = set(ed.qubit_errors.columns) - {"qubit_id", "qubit_type"}
        c.check(cols == set(names or "XYZ") and ed.enabled_qubit_errors == cols, "template-columns",
                f"{what}: columns {cols}, enabled {ed.enabled_qubit_errors}")
        for k in cols - {"fabrication"}:
            c.check((ed.qubit_errors[k] == 0).all(), "template-values", f"{what}: {k} is not zero")
        c.check(err.norm(ed.error_data_dict) == {}, "template-errors",
                lambda: f"{what}: {ed.error_data_dict}")
        ed.check_against_code(code)
        # filled in by the user
        df = pd.read_csv(path)
        m = err.Model.of(view)
        for k in cols - {"fabrication"}:
            m.val[k] = {q: err.prob(r) for q in m.kind}
            df[k] = [m.val[k][q] for q in df["qubit_id"]]
        df.to_csv(path, index=False)
        m.enabled = set(m.val)
        err.judge(c, f"{what}: filled in", _quiet(errors.ErrorData.from_csv, path), m, "loaded")
        c.refuses(lambda: errors.generate_empty_qubit_errors_csv(
            code.lattice, ["X", r.choice(("x", "foo", ""))], path), "template-names",
            f"{label}: template for an unknown error")
        c.ev("templates")
        c.sig(label, tuple(names or ()))


WORKLOADS = [W("round_trips", round_trips, 120, 3000), W("updates", updates, 120, 3000),
             W("templates", templates, 60, 1000)]
