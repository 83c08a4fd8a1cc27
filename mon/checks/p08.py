"""P08: noise channels are sampled with the stated probabilities on both simulators."""
import collections

from mon import circ, stats
from mon.core import W

RULE = ("noise instructions with random distinct probabilities (events read off with reference "
        "qubits) and small random noisy circuits; the exact joint distribution of results and "
        "erasure flags is computed by the branching reference executor and every cell, bit and "
        "pair parity of the histogram observed on each simulator is compared with it (exact "
        "binomial tails, 1e-11; impossible records never); non-trivial = distinct circuits with "
        "at least three possible records")
ASSUMPTIONS = ["exact distribution from mon/circ.py", "per-comparison false alarm below 1e-11"]
MINIMA = {"shots:clifford": 60000, "shots:stim": 500000, "cells": 500}
SHOTS = {"quick": {"clifford": 1200, "stim": 12000},
         "thorough": {"clifford": 6000, "stim": 100000}}


def _compare(c, gates, n, sims=("clifford", "stim"), factor=1.0):
    from plaquette import Device
    dist = circ.distribution(gates, n)
    assert abs(sum(dist.values()) - 1) < 1e-6, (sum(dist.values()), gates)
    ci = circ.build(gates)
    for sim in sims:
        dev = Device(sim)
        hist = collections.Counter()
        shots = int(SHOTS[c.tier][sim] * factor)
        for _ in range(shots):
            dev.run(ci)
            m, e = dev.get_sample()
            hist[circ.bits(m), circ.bits(e)] += 1
        c.ev("shots:" + sim, shots)
        c.ev("cells", len(dist))
        for f in (stats.compare, stats.coarse):
            bad = f(hist, shots, dist)
            c.check(bad is None, "distribution", lambda: f"{sim}: {bad} in\n" + circ.text(gates))
    if len(dist) > 2:
        c.sig(tuple(gates))
    c.show(circuit=circ.text(gates).replace("\n", "; "), records=len(dist), shots=shots)


def _distinct(rng, k, total):
    """k clearly different probabilities with the given sum."""
    w = [1.0 + i for i in range(k)]
    rng.shuffle(w)
    s = sum(w)
    return [round(x / s * total, 4) for x in w]


def _bell(k):
    pre = [("H", tuple(range(k))), ("CX", tuple(v for q in range(k) for v in (q, k + q)))]
    return pre, pre[::-1] + [("M", tuple(range(2 * k)))]


def channels(c):
    """Every elementary event of one instruction or chain."""
    r = c.rng
    kinds = ("E_PAULI", "E_PAULI2", "DEPOLARIZE", "E_ERASE", "ERROR", "ELSE", "MULTI", "FLIP",
             "TWICE", "FULL", "ELSE3", "FULL2")
    kind = kinds[c.index % len(kinds)]
    total = r.choice((0.3, 0.6, 0.9))
    k = 2
    sims = ("clifford", "stim")
    q = r.sample(range(2), 2)
    if kind == "E_PAULI":
        mid = [(kind, (*_distinct(r, 3, total), q[0]))]
    elif kind == "FULL":
        p = _distinct(r, 2, 1.0)
        p = [p[0], p[1], max(0.0, round(1 - sum(p), 6))]
        r.shuffle(p)
        mid = [("E_PAULI", (*p, q[0]))]
    elif kind == "E_PAULI2":
        mid = [(kind, (*_distinct(r, 15, 0.95), *q))]
    elif kind == "FULL2":
        p = [0.0] * 15
        for i in r.sample(range(15), 4):
            p[i] = 0.25
        mid = [("E_PAULI2", (*p, *q))]
    elif kind == "DEPOLARIZE":
        mid = [(kind, tuple(q[:r.randrange(1, 3)]))]
    elif kind == "E_ERASE":
        mid = [(kind, (round(r.uniform(.2, .9), 3), q[0])),
               (kind, (round(r.uniform(.2, .9), 3), q[1]))]
    elif kind == "ERROR":
        mid = [(kind, (round(r.uniform(.05, .95), 3), ch, q[i % 2]))
               for i, ch in enumerate(r.sample("XYZ", 3))]
    elif kind == "FLIP":
        mid = [("R", (0,)), ("ERROR", (round(r.uniform(.05, .95), 3), "X", 0)), ("M", (0,))]
    elif kind == "TWICE":
        a = _distinct(r, 3, total)
        mid = [("E_PAULI", (*a, 0)), ("H", (0,)), ("E_PAULI", (*a[::-1], 0))]
    else:
        sims = ("clifford",)
        if kind == "ELSE":
            mid = [("ERROR", (round(r.uniform(.1, .5), 3), "X", 0)),
                   ("ERROR_ELSE", (round(r.uniform(.2, .8), 3), "Z", 0)),
                   ("ERROR_CONTINUE", ("X", 1))]
        elif kind == "ELSE3":
            mid = [("ERROR", (round(r.uniform(.1, .4), 3), "X", 0)),
                   ("ERROR_CONTINUE", ("Z", 1)),
                   ("ERROR_ELSE", (round(r.uniform(.1, .5), 3), "Z", 0)),
                   ("ERROR_ELSE", (round(r.uniform(.3, .8), 3), "Y", 0)),
                   ("ERROR_CONTINUE", ("Y", 1))]
        else:
            mid = [("ERROR", (round(r.uniform(.2, .8), 3),
                              *r.choice((("CX", 0, 1), ("H", 0), ("X", 0, 1),
                                         ("E_PAULI", .1, .2, .4, 1), ("DEPOLARIZE", 0),
                                         ("R", 1)))))]
    pre, post = _bell(k)
    _compare(c, pre + mid + post, 2 * k, sims)


def circuits(c):
    """Small random noisy circuits."""
    r = c.rng
    for _ in range(60):
        n = r.randrange(1, 4)
        g = circ.rand_clean(r, n, r.randrange(0, 4), 0.15, 0.1)
        for _ in range(r.randrange(1, 4)):
            g += circ.rand_noise(r, n, "any", stim=True)
            g += circ.rand_clean(r, n, r.randrange(0, 3), 0.2, 0.1)
        g.append(("M", tuple(r.sample(range(n), n))))
        flips = sum(len(a) for k, a in g if k == "M") + sum(k == "E_ERASE" for k, a in g)
        if flips <= 6:
            break
    else:
        return
    _compare(c, g, circ.n_qubits(g))


def chains(c):
    r = c.rng
    n = r.randrange(1, 3)
    pre, post = _bell(n)
    mid = []
    for _ in range(r.randrange(1, 3)):
        mid += circ.rand_noise(r, n, "any", stim=False)
    _compare(c, pre + mid + post, 2 * n, ("clifford",), 0.7)


def readout(c):
    """A syndrome-extraction round with noisy gates, resets, readout and erasures."""
    r = c.rng

    def p(k=3):
        return _distinct(r, k, r.choice((.1, .3)))
    g = [("R", (0, 1, 2)), ("E_PAULI", (*p(), 0)), ("E_ERASE", (round(r.uniform(.1, .6), 2), 1))]
    basis = r.choice("XZ")
    if basis == "X":
        g += [("H", (2,)), ("E_PAULI", (*p(), 2))]
    for d in (0, 1):
        g.append(("CX", (2, d) if basis == "X" else (d, 2)))
        g.append(("E_PAULI2", (*p(15), 2, d)))
    if basis == "X":
        g += [("H", (2,)), ("E_PAULI", (*p(), 2))]
    g += [("ERROR", (round(r.uniform(.05, .5), 2), "X", 2)), ("M", (2,)), ("M", (1, 0))]
    _compare(c, g, 3)


def single_rate(c):
    """Many more shots for one bit flip rate, small rates included."""
    r = c.rng
    p = r.choice((0.001, 0.01, 0.03, 0.1, 0.5, 0.97, 0.999))
    which = r.randrange(3)
    g = ([("ERROR", (p, "X", 0))] if which == 0 else [("E_PAULI", (p, 0.0, 0.0, 0))] if which == 1
         else [("H", (0,)), ("E_PAULI", (0.0, p / 2, p / 2, 0)), ("H", (0,))])
    _compare(c, g + [("M", (0,))], 1, factor=3)


WORKLOADS = [
    W("channels", channels, 72, 240),
    W("circuits", circuits, 80, 500),
    W("chains", chains, 32, 300),
    W("readout", readout, 16, 64),
    W("single_rate", single_rate, 14, 28),
]
