"""Cross-check the reference models with dense matrices and state vectors (setup_cmd)."""
import random

import numpy as np

from mon import core
from mon import ref as R


def main():
    core.setup_env()
    r = random.Random(1)
    for _ in range(200):
        n = r.randrange(1, 4)
        a, b = R.rand_pauli(r, n), R.rand_pauli(r, n)
        a = (a[0], a[1], r.randrange(4))
        assert np.allclose(R.dense(a, n) @ R.dense(b, n), R.dense(R.mul(a, b), n))
        com = np.allclose(R.dense(a, n) @ R.dense(b, n), R.dense(b, n) @ R.dense(a, n))
        assert R.anti(a, b) == (not com)
    for _ in range(200):
        n = r.randrange(1, 4)
        s, prog = R.rand_state(r, n)
        psi = np.zeros(2 ** n, complex)
        psi[0] = 1
        for g, qs in prog:
            m = len(qs)
            u = R.UNITARY[g].reshape([2] * (2 * m))
            t = np.tensordot(u, psi.reshape([2] * n), axes=(list(range(m, 2 * m)), list(qs)))
            psi = np.moveaxis(t, list(range(m)), list(qs)).reshape(-1)
        for p in s.g:
            assert np.allclose(R.dense(p, n) @ psi, psi)
        p = R.rand_pauli(r, n)
        e = (psi.conj() @ R.dense(p, n) @ psi).real
        assert abs(e - s.value(p)) < 1e-9
        assert R.tableau_problem(R.to_tableau(s)) is None
        if s.value(p) == 0:
            o = r.randrange(2)
            s.project(p, o)
            q = (psi + (-1) ** o * (R.dense(p, n) @ psi)) / 2
            q /= np.linalg.norm(q)
            for g in s.g:
                assert np.allclose(R.dense(g, n) @ q, q)
    print("reference models agree with dense matrices; library imported from", core.REPO)
    return 0
