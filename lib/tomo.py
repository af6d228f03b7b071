"""Generators and oracles shared by the tomography checks."""
import itertools
import numpy as np
from hypothesis import strategies as st
from qiskit import QuantumCircuit, QuantumRegister, ClassicalRegister
from qiskit.extensions import UnitaryGate
from qiskit.ignis.verification.tomography.basis import TomographyBasis

import sim

SHOTS = 10 ** 9
CVX_SHOTS = 20000        # large shot numbers give weights the conic solver cannot resolve
H = np.array([[1, 1], [1, -1]]) / np.sqrt(2)
KET = {'Zp': [1, 0], 'Zm': [0, 1], 'Xp': [1, 1], 'Xm': [1, -1], 'Yp': [1, 1j], 'Ym': [1, -1j],
       'S0': [1, 0]}
for _k, _ph in (('S1', 0.0), ('S2', -2 * np.pi / 3), ('S3', 2 * np.pi / 3)):
    KET[_k] = [1, np.sqrt(2) * np.exp(1j * _ph)]
KET = {k: np.array(v, dtype=complex) / np.linalg.norm(v) for k, v in KET.items()}


def ketbra(v):
    return np.outer(v, np.conj(v))


PREP = {k: ketbra(v) for k, v in KET.items()}
MEAS = {p: (PREP[p + 'p'], PREP[p + 'm']) for p in 'XYZ'}


def custom_basis(seed):
    """A user-defined basis: three measurement settings and four preparations, all rotated by
    random unitaries; labels deliberately not single characters."""
    r = sim.rs(seed)
    rot = {'M%d' % i: sim.rand_unitary(2, r) for i in range(4)}
    prep = {'PR%d' % i: sim.rand_unitary(2, r) for i in range(5)}

    def mcirc(op, qubit, clbit):
        c = QuantumCircuit(qubit.register, clbit.register)
        c.append(UnitaryGate(rot[op]), [qubit])
        c.measure(qubit, clbit)
        return c

    def mmat(op, outcome):
        return ketbra(rot[op].conj().T[:, int(outcome)])

    def pcirc(op, qubit):
        c = QuantumCircuit(qubit.register)
        c.append(UnitaryGate(prep[op]), [qubit])
        return c

    def pmat(op):
        return ketbra(prep[op][:, 0])

    basis = TomographyBasis('custom', measurement=(tuple(rot), mcirc, mmat),
                            preparation=(tuple(prep), pcirc, pmat))
    cond = np.linalg.cond(np.array([mmat(l, o).ravel() for l in rot for o in (0, 1)]))
    condp = np.linalg.cond(np.array([pmat(l).ravel() for l in prep]))
    return basis, {l: (mmat(l, 0), mmat(l, 1)) for l in rot}, {l: pmat(l) for l in prep}, max(cond, condp)


def good_seed(seed):
    """First seed from `seed` on whose custom basis is well conditioned."""
    while custom_basis(seed)[3] > 6:
        seed += 1
    return seed


def reduced(rho, qs, n):
    """Reduced state on qs, qs[0] least significant."""
    t = np.asarray(rho).reshape([2] * (2 * n))
    keep = [n - 1 - q for q in reversed(qs)]
    rest = [a for a in range(n) if a not in keep]
    t = t.transpose(keep + rest + [n + a for a in keep] + [n + a for a in rest])
    k, m = 2 ** len(keep), 2 ** len(rest)
    return np.einsum('aibi->ab', t.reshape(k, m, k, m))


def kron_label(mats):
    """mats[0] is the least significant qubit."""
    out = np.eye(1, dtype=complex)
    for m in mats:
        out = np.kron(m, out)
    return out


def meas_probs(rho, label, meas):
    k = len(label)
    out = {}
    for v in range(2 ** k):
        op = kron_label([meas[label[j]][(v >> j) & 1] for j in range(k)])
        out[format(v, '0%db' % k)] = float(np.real(np.trace(op @ rho)))
    return out


def build(case):
    """Circuit with case['regs'] quantum registers, case['cregs'] classical registers and random
    unitaries from case['seed']."""
    regs = [QuantumRegister(s, 'reg%d' % i) for i, s in enumerate(case['regs'])]
    cregs = [ClassicalRegister(s, 'cl%d' % i) for i, s in enumerate(case['cregs'])]
    qc = QuantumCircuit(*(regs + cregs))
    n = sum(case['regs'])
    r = sim.rs(case['seed'])
    kind = case['kind']
    if kind == 'random':
        qc.append(UnitaryGate(sim.rand_unitary(2 ** n, r)), list(range(n)))
    elif kind == 'basis':
        for q in range(n):
            if r.randint(2):
                qc.x(q)
    elif kind == 'clifford':
        for _ in range(3 * n):
            g = r.randint(4)
            q = int(r.randint(n))
            if g == 0:
                qc.h(q)
            elif g == 1:
                qc.s(q)
            elif g == 2:
                qc.x(q)
            elif n > 1:
                a, b = r.permutation(n)[:2]
                qc.cx(int(a), int(b))
    elif kind == 'local':
        for q in range(n):
            qc.append(UnitaryGate(sim.rand_unitary(2, r)), [q])
    elif kind == 'weak':
        for q in range(n):
            qc.append(UnitaryGate(sim.rand_unitary(2, r)), [q])
        for q in range(n - 1):
            qc.crx(float(r.uniform(0, 3)), q, q + 1)
    return qc, regs


def qubit_arg(qc, regs, qs, style):
    if style == 'ints':
        return [int(q) for q in qs]
    if style == 'tuple':
        return tuple(int(q) for q in qs)
    if style == 'bits':
        return [qc.qubits[q] for q in qs]
    if style == 'single':
        return qc.qubits[qs[0]]
    if style == 'register':
        return regs_of(regs, qs)[0]
    return regs_of(regs, qs)


def regs_of(regs, qs):
    out, pos = [], 0
    for r in regs:
        for i in range(r.size):
            pass
    flat = [(ri, i) for ri, r in enumerate(regs) for i in range(r.size)]
    k = 0
    while k < len(qs):
        ri, i = flat[qs[k]]
        size = regs[ri].size
        if [flat[q] for q in qs[k:k + size]] == [(ri, j) for j in range(size)]:
            out.append(regs[ri])
            k += size
        else:
            pos = qs[k]
            out.append(regs[flat[pos][0]][flat[pos][1]])
            k += 1
    return out


@st.composite
def layout(draw, max_n=4):
    regs = draw(st.lists(st.integers(1, 3), min_size=1, max_size=3).filter(lambda r: sum(r) <= max_n))
    cregs = draw(st.one_of(st.just([]), st.lists(st.integers(1, 2), max_size=2)))
    return regs, cregs


def pick_style(draw, regs, qs):
    styles = ['ints', 'ints', 'bits', 'mixed', 'tuple']
    if len(qs) == 1:
        styles.append('single')
    flat = []
    for s in regs:
        flat.append(list(range(len(flat) and flat[-1][-1] + 1, (flat[-1][-1] + 1 if flat else 0) + s)))
    if qs in flat:
        styles += ['register', 'register']
    return draw(st.sampled_from(styles))


def choi(kraus):
    d_out, d_in = kraus[0].shape
    j = np.zeros((d_in * d_out, d_in * d_out), dtype=complex)
    for k in kraus:
        v = k.reshape(-1, order='F')
        j += np.outer(v, v.conj())
    return j


def all_labels(single, k):
    return list(itertools.product(single, repeat=k))


def shared(counts, parts, r):
    """Deal the shots of every outcome to several data sets (some may get none of an outcome)."""
    out = [{} for _ in range(parts)]
    for key, v in counts.items():
        left = int(v)
        for i in range(parts):
            take = left if i == parts - 1 else int(left * r.choice([0.0, 0.1, 0.5, 0.9]))
            if take:
                out[i][key] = take
            left -= take
    return [o for o in out if o]
