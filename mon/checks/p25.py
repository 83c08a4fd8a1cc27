"""P25: error tables and the error dictionaries used downstream agree."""
import math
import os
import tempfile
import warnings

from mon import err, qec
from mon.core import W

RULE = ("random histories of adding and updating qubit errors, adding gate errors, updating from "
        "data frames with and without overwriting and enabling subsets of errors, on tables of "
        "bundled and user-defined codes; after every step the three dictionaries are compared with "
        "a reference model of plain dictionaries (entries of probability zero are the same as "
        "absent ones); tables made from configurations are compared with the configuration; "
        "non-trivial = distinct (code, operations so far)")
ASSUMPTIONS = ["a later row of gate errors replaces an earlier one for the same gate and qubits "
               "(documented)", "missing values (NaN) are ignored, as documented"]
MINIMA = {"compared": 1500, "entries": 20000, "refusals": 150, "configs": 120, "updates": 200, "edits": 500}


def _quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


def _start(r, view, code):
    """(library table, model, how)."""
    import pandas as pd
    from plaquette.errors import ErrorData
    how = r.choice(("default", "frame", "frame", "empty"))
    if how == "default":
        ed = ErrorData.from_lattice(code.lattice)
        m = err.Model.of(view)
        for k in "XYZ":
            m.val[k] = {q: 0.1 for q in m.kind}
            m.enabled.add(k)
        return ed, m, how
    m = err.Model.of(view, r.choice(("stab", "ancilla")))
    if how == "frame":
        for k in r.sample(err.NAMES, r.randrange(6)):
            m.val[k] = {q: (None if r.random() < 0.1 else err.prob(r)) for q in m.kind}
        m.enabled = set(m.val)
        m.rows = [err.random_row(r, view) for _ in range(r.randrange(4))]
        m.gates = {g for g, *_ in m.rows}
        order = list(m.kind)
        if r.random() < 0.5:
            r.shuffle(order)
        kw = {}
        if m.enabled and r.random() < 0.3:
            m.enabled = set(r.sample(sorted(m.enabled), r.randrange(1, len(m.enabled) + 1)))
            kw["enabled_qubit_errors"] = set(m.enabled)
        if m.gates and r.random() < 0.3:
            m.gates = {r.choice(sorted(m.gates))}
            kw["enabled_gate_errors"] = set(m.gates)
        return ErrorData(qubit_errors=m.frame(pd, qubits=order), gate_errors=m.gate_frame(pd),
                         **kw), m, how
    return ErrorData(qubit_errors=m.frame(pd)), m, how


def _step(c, r, view, ed, m):
    """One random edit of the table and the model; returns its description."""
    import numpy as np
    import pandas as pd
    ids = sorted(m.kind)
    op = r.choice(("add", "add", "update", "update", "gate", "gate", "frame", "gates", "enable",
                   "bad"))
    if op == "add":
        free = [n for n in err.NAMES if n not in m.val]
        if not free:
            return None
        name = r.choice(free)
        qs = r.sample(ids, r.randrange(len(ids) + 1))
        ps = [err.prob(r) for _ in qs]
        m.val[name] = {q: 0.0 for q in ids}
        m.val[name].update(zip(qs, ps))
        m.enabled.add(name)
        arg = r.choice((list, np.array))(qs) if qs else qs
        _quiet(ed.add_qubit_error, arg, name, r.choice((list, np.array))(ps))
        return f"add {name} on {qs}: {ps}"
    if op == "update":
        if not m.val:
            return None
        name = r.choice(sorted(m.val))
        if r.random() < 0.4:
            q, p = r.choice(ids), float(err.prob(r))
            ed.update_qubit_error(q, name, p)
            m.val[name][q] = p
            return f"update {name} on {q}: {p}"
        qs = r.sample(ids, r.randrange(len(ids) + 1))
        ps = [err.prob(r) for _ in qs]
        ed.update_qubit_error(qs, name, r.choice((list, np.array))(ps))
        m.val[name].update(zip(qs, ps))
        return f"update {name} on {qs}: {ps}"
    if op == "gate":
        rows = [err.random_row(r, view)]
        if r.random() < 0.04:      # tables of dozens of rows
            rows += [err.random_row(r, view) for _ in range(r.randrange(10, 50))]
            c.ev("long_gate_tables")
        for row in rows:
            ed.add_gate_error(row[0], list(row[1]), list(row[2]), list(row[3]))
            m.rows.append(row)
            m.gates.add(row[0])
        return f"gate {rows}"
    if op == "frame":
        names = r.sample(err.NAMES, r.randrange(1, 4))
        over = r.random() < 0.3
        qs = ids if over else r.sample(ids, r.randrange(1, len(ids) + 1))
        r.shuffle(qs)
        new = {n: {q: (None if r.random() < 0.15 else err.prob(r)) for q in qs} for n in names}
        df = pd.DataFrame({"qubit_id": qs, "qubit_type": [m.kind[q] for q in qs],
                           **{n: [math.nan if new[n][q] is None else new[n][q] for q in qs]
                              for n in names}})
        if over:
            m.val = {n: dict(new[n]) for n in names}
        else:
            for n in names:
                col = m.val.setdefault(n, {q: None for q in ids})
                col.update({q: p for q, p in new[n].items() if p is not None})
        m.enabled = set(m.val)
        _quiet(ed.update, df, None, over)
        c.ev("updates")
        return f"update(overwrite={over}) with {new}"
    if op == "gates":
        rows = [err.random_row(r, view) for _ in range(r.randrange(1, 3) if r.random() < 0.95
                                                        else r.randrange(10, 50))]
        over = r.random() < 0.4
        m.rows = rows if over else m.rows + rows
        m.gates = {g for g, *_ in m.rows}
        _quiet(ed.update, gate_errors=m.gate_frame(pd, rows), overwrite=over)
        c.ev("updates")
        return f"update(overwrite={over}) with gates {rows}"
    if op == "enable":
        if m.val and r.random() < 0.6:
            m.enabled = set(r.sample(sorted(m.val), r.randrange(len(m.val) + 1)))
            ed.enabled_qubit_errors = set(m.enabled)
            return f"enable {sorted(m.enabled)}"
        gs = sorted({g for g, *_ in m.rows})
        m.gates = set(r.sample(gs, r.randrange(len(gs) + 1)))
        ed.enabled_gate_errors = set(m.gates)
        return f"enable {sorted(m.gates)}"
    _refused(c, r, view, ed, m)
    return "refused edit"


def _table(*row):
    """Dictionary of a table with the given row of gate errors."""
    import pandas as pd
    from plaquette.errors import ErrorData
    df = pd.DataFrame([row], columns=["gate", "on_qubits", "induced_errors", "probs"])
    return ErrorData(gate_errors=df).gate_errors_dict


def _refused(c, r, view, ed, m):
    ids = sorted(m.kind)
    two = list(r.choice(err.pairs(view)))
    k, ps = r.randrange(2), ([0.1, 0.2], [0.1])  # as many probabilities as errors are needed
    bad = [lambda: ed.add_qubit_error(ids, r.choice(("x", "foo", "Erasure", "fabrication", "")),
                                      [0.1] * len(ids)),
           lambda: ed.update_qubit_error(ids, r.choice(("x", "foo", "fabrication")),
                                         [0.1] * len(ids)),
           lambda: ed.add_gate_error(r.choice(("T", "cx", "CY", "")), [view.n], ["X"], [0.1]),
           lambda: ed.add_gate_error(r.choice(err.ONE), [view.n], ["X", "Y"][:k + 1], ps[k]),
           lambda: ed.add_gate_error(r.choice(err.TWO), two, ["XX", "YZ"][:k + 1], ps[k]),
           lambda: _table(r.choice(err.ONE), [view.n], ["X", "Y"][:k + 1], ps[k]),
           lambda: _table(r.choice(err.TWO), two, ["XX", "YZ"][:k + 1], ps[k])]
    free = [n for n in err.NAMES if n not in m.val]
    if free:
        bad += [lambda: ed.add_qubit_error(ids, r.choice(free), [0.1] * (len(ids) - 1)),
                lambda: ed.add_qubit_error(ids[:2], r.choice(free), [0.1] * 3),
                lambda: ed.add_qubit_error(ids + [len(ids) + 7], r.choice(free),
                                           [0.1] * (len(ids) + 1))]
    if m.val:
        bad += [lambda: ed.update_qubit_error(len(ids) + 2, r.choice(sorted(m.val)), 0.1),
                lambda: ed.update_qubit_error([ids[0], len(ids) + 2], r.choice(sorted(m.val)),
                                              [0.1, 0.2])]
        bad.append(lambda: ed.add_qubit_error(ids, r.choice(sorted(m.val)), [0.1] * len(ids)))
        bad.append(lambda: ed.update_qubit_error(ids, r.choice(sorted(m.val)),
                                                 [0.1] * (len(ids) - 1)))
    rest = [n for n in err.NAMES if n not in m.val]
    if rest:
        bad.append(lambda: ed.update_qubit_error(ids, r.choice(rest), [0.1] * len(ids)))
    c.refuses(r.choice(bad), "accepted", "unknown or duplicate error")


def histories(c):
    r = c.rng
    label, code = qec.some_code(r, 30, 0.3)
    view = qec.View(code)
    ed, m, how = _quiet(_start, r, view, code)
    done = [how]
    err.judge(c, f"{label} {done}", ed, m)
    for _ in range(10):
        s = _step(c, r, view, ed, m)
        if s is None:
            continue
        done.append(s)
        err.judge(c, f"{label} after {' ; '.join(done[-4:])}", ed, m)
        c.sig(label, tuple(done))
    ed.check_against_code(code)
    _edit(c, f"{label} after {' ; '.join(done[-4:])}", ed, m)
    c.show(setup=label, operations="; ".join(done))


def _edit(c, what, ed, m):
    """The dictionaries belong to the caller: editing one entry changes that entry only."""
    for d in (ed.qubit_errors_dict, ed.gate_errors_dict):
        slots = [(g, q) for g in sorted(d) for q in d[g]]
        if not slots:
            continue
        before = {g: {q: dict(e) for q, e in t.items()} for g, t in d.items()}
        for g, q in c.rng.sample(slots, min(3, len(slots))):
            for k in (*d[g][q], "new"):
                d[g][q][k] = before[g][q][k] = 0.123
            c.check(d == before, "shared-entry", lambda: f"{what}: editing the {g} errors of {q} "
                    f"changed others, too: {err.diff(err.norm(d), err.norm(before))}")
            c.ev("edits")
    err.judge(c, f"{what}, after editing the dictionaries", ed, m)


def configs(c):
    """Tables made from a configuration."""
    import pandas as pd
    from plaquette.errors import ErrorData
    r = c.rng
    label, code = qec.some_code(r, 30, 0.3)
    view = qec.View(code)
    n, ns = view.n, len(view.stabs)
    c.seed_lib()
    m = err.Model.of(view)
    with tempfile.TemporaryDirectory() as tmp:
        qfile, gfile = os.path.join(tmp, "q.csv"), os.path.join(tmp, "g.csv")
        user = err.Model.of(view)
        qconf, gauss = {}, []
        for name in r.sample(err.NAMES, r.randrange(1, 6)):
            kind = r.choice(("constant", "gaussian", "user", "unset"))
            if kind == "constant":
                p = err.prob(r)
                qconf[name] = (kind, p)
                m.val[name] = {q: p for q in m.kind}
            elif kind == "gaussian":
                qconf[name] = (kind, r.random(), r.uniform(0.01, 0.5))
                gauss.append(name)
            elif kind == "unset":
                qconf[name] = ()
                m.val[name] = {q: 0.01 for q in m.kind}
            else:
                qconf[name] = ("user",)
                user.val[name] = {q: (None if r.random() < 0.1 else err.prob(r)) for q in m.kind}
                m.val[name] = {q: user.val[name][q] or 0.0 for q in m.kind}
        m.enabled = set(qconf)
        some = sorted(user.kind)
        if user.val or r.random() < 0.3:
            r.shuffle(some)
            user.frame(pd, qubits=some).to_csv(qfile, index=False)
        gconf, ggauss, several = {}, [], False
        for gate in r.sample(err.ONE + err.TWO, r.randrange(0, 4)):
            names = list("XYZ") if gate in err.ONE else err.PAIRS
            on = [n + i for i in range(ns)] if gate in err.ONE else \
                [q for pr in err.pairs(view) for q in pr]
            if r.random() < 0.2:
                gconf[gate] = ("user",)
                mine = []
                for _ in range(r.choice((1, 1, 2, 3))):
                    row = next(x for x in iter(lambda: err.random_row(r, view), None)
                               if (x[0] in err.ONE) == (gate in err.ONE))
                    qs = list(row[1])
                    if mine and r.random() < 0.7:  # the same qubits again: the later row counts
                        old = r.choice(mine)[1]
                        qs = (qs + old if r.random() < 0.5 else old + qs if r.random() < 0.5
                              else list(old))
                    mine.append((gate, qs, *row[2:]))
                m.rows += mine
                continue
            k = 1 if r.random() < 0.75 else 2
            several |= k > 1
            gconf[gate] = []
            for ch in r.sample(names, k):
                if r.random() < 0.5:
                    p = err.prob(r)
                    gconf[gate].append(("constant", ch, p))
                    m.rows.append((gate, on, [ch], [p]))
                else:
                    gconf[gate].append(("gaussian", ch, r.random(), r.uniform(0.01, 0.5)))
                    ggauss.append((gate, ch, on))
                    m.rows.append((gate, on, [ch], None))
        m.gates = set(gconf)
        um = err.Model()
        um.rows = [x for x in m.rows if gconf[x[0]][0] == "user"]
        if um.rows:
            with open(gfile, "w") as f:
                f.write("gate,on_qubits,induced_errors,probs\n")
                for g, qs, names, ps in um.rows:
                    f.write(",".join([g] + ['"' + "|".join(map(str, x)) + '"'
                                            for x in (qs, names, ps)]) + "\n")
        keep = repr((qconf, gconf))
        what = f"{label} qubit errors {qconf} gate errors {gconf}"
        qa, ga = (qconf, qfile), (gconf, gfile)
        form = r.random()
        if form < 0.15:
            ga = None
            m.rows, m.gates, ggauss, several = [], set(), [], False
        elif form < 0.3:
            qa = None
            m.val, m.enabled, gauss = {}, set(), []
        if qa is None and ga is None:
            return
        ed = _quiet(ErrorData.from_lattice, code.lattice, qa, ga)
        c.check(repr((qconf, gconf)) == keep, "config-modified", f"{what}: became {qconf} {gconf}")
    # random values are taken over from the table, which must have them for every qubit
    for name in gauss:
        col = {int(q): float(p) for q, p in zip(ed.qubit_errors["qubit_id"], ed.qubit_errors[name])}
        c.check(set(col) == set(m.kind), "gaussian-qubits", f"{what}: {name} values for {col}")
        m.val[name] = col
    it = iter(ggauss)
    rows = []
    for g, on, names, ps in m.rows:
        if ps is not None:
            rows.append((g, on, names, ps))
            continue
        gate, ch, on = next(it)
        keys = on if gate in err.ONE else list(zip(on[::2], on[1::2]))
        found = {}
        for row in ed.gate_errors.itertuples():
            lab = [row.induced_errors] if isinstance(row.induced_errors, str) else \
                list(row.induced_errors)
            if row.gate == gate and lab == [ch]:
                qs = row.on_qubits
                for k in (qs if gate in err.ONE else zip(qs[::2], qs[1::2])):
                    found[k if gate in err.ONE else tuple(k)] = float(list(row.probs)[0])
        c.check(set(found) == set(keys), "gaussian-gates", f"{what}: {gate} {ch} drawn for "
                f"{sorted(found)}, not {sorted(keys)}")
        rows += [(gate, [k] if gate in err.ONE else list(k), [ch], [found[k]]) for k in keys]
    m.rows = rows
    c.ev("configs")
    c.sig(label, keep)
    if several:
        got = err.norm(ed.gate_errors_dict)
        if err.same(got, m.gate_dict(merge=True)):
            m.rows = []
            ed.gate_errors = ed.gate_errors.iloc[:0]
        elif not err.same(m.gate_dict(), m.gate_dict(merge=True)) and err.same(got, m.gate_dict()):
            c.finding("several-channels-of-a-gate", f"{what}: only the last channel of a gate is "
                      f"used: {err.diff(got, m.gate_dict(merge=True))}")
    err.judge(c, what, ed, m, "config")
    ed.check_against_code(code)
    c.show(setup=what)


WORKLOADS = [W("histories", histories, 300, 8000), W("configs", configs, 200, 5000)]
