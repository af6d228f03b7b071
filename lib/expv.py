"""Noise models for the expectation-value mitigation checks (dense, independent)."""
import numpy as np
import scipy.linalg as la


def flip_matrix(e0, e1):
    """columns: prepared; e0 = P(1|0), e1 = P(0|1)"""
    return np.array([[1 - e0, e1], [e0, 1 - e1]])


def rand_flips(n, r, hi=0.2):
    return [flip_matrix(*(r.rand(2) * hi)) for _ in range(n)]


def kron_all(mats):
    """first matrix acts on bit 0 (rightmost)"""
    out = np.eye(1)
    for m in mats:
        out = np.kron(m, out)
    return out


def rand_full(n, r, eps):
    d = 2 ** n
    m = (1 - eps) * np.eye(d)
    for j in range(d):
        m[:, j] += eps * r.dirichlet(np.ones(d) * r.choice([0.3, 1.0]))
    return m


def marginal_assignment(amat, n, qubits):
    """A restricted to ascending qubits, all others prepared in 0 and summed over."""
    qs = sorted(qubits)
    k = len(qs)
    out = np.zeros((2 ** k, 2 ** k))
    for j in range(2 ** k):
        full = sum(((j >> i) & 1) << q for i, q in enumerate(qs))
        for y in range(2 ** n):
            i = sum(((y >> q) & 1) << a for a, q in enumerate(qs))
            out[i, j] += amat[y, full]
    return out


def standard_generators(n):
    gens = [('1', '0', (i,)) for i in range(n)] + [('0', '1', (i,)) for i in range(n)]
    for i in range(n):
        for j in range(i + 1, n):
            gens += [('11', '00', (i, j)), ('00', '11', (i, j)), ('10', '01', (i, j)), ('10', '01', (j, i))]
    return gens


def generator_dense(gens, rates, qubits):
    """sum of r (|b><a| - |a><a|) over the generators inside the ascending qubit list"""
    qs = sorted(qubits)
    k = len(qs)
    g = np.zeros((2 ** k, 2 ** k))
    for (b, a, c), r in zip(gens, rates):
        if not set(c) <= set(qs):
            continue
        for x in range(2 ** k):
            if all((x >> qs.index(q)) & 1 == int(ch) for q, ch in zip(c, a)):
                y = x
                for q, ch in zip(c, b):
                    i = qs.index(q)
                    y = (y & ~(1 << i)) | (int(ch) << i)
                g[y, x] += r
                g[x, x] -= r
    return g


def permute_vec(vec, frm, to):
    """vec indexed with bit i <-> frm[i]; returns it indexed with bit i <-> to[i]."""
    k = len(frm)
    out = np.zeros_like(vec)
    for x in range(2 ** k):
        val = {q: (x >> i) & 1 for i, q in enumerate(frm)}
        y = sum(val[q] << i for i, q in enumerate(to))
        out[y] = vec[x]
    return out


def expm(g):
    return la.expm(g)


def logm(m):
    """logarithm by eigenvalues (the matrices are close to the identity)"""
    w, v = np.linalg.eig(m)
    return v @ np.diag(np.log(w.astype(complex))) @ np.linalg.inv(v)
