"""C10: gate set tomography recovers the gate set up to gauge."""
import ast
import functools
import numpy as np
from hypothesis import strategies as st
from scipy.linalg import expm
from qiskit import QiskitError, QuantumCircuit
from qiskit.circuit.library import HGate, SGate, TGate, XGate, RXGate, RYGate, RZGate
from qiskit.quantum_info import PTM
from qiskit.ignis.verification.tomography import gateset_tomography_circuits, GatesetTomographyFitter
from qiskit.ignis.verification.tomography.basis.gatesetbasis import GateSetBasis, default_gateset_basis
from qiskit.ignis.verification.tomography.fitters.gateset_fitter import GaugeOptimize

import qres
import sim
from harness import facet

QUICK_SCALE = 1
ASSUMPTIONS = ['one-qubit gate sets (all the module supports) whose Gram matrix is well conditioned',
               'full optimisation: gates and SPAM perturbed by at most 3 % noise; probabilities reproduced to 1e-2',
               'linear inversion and gauge relation: compared at 1e-5 on 10^9-shot frequencies']
PAULI = [np.eye(2), np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.diag([1, -1])]
GATES = ['h', 's', 't', 'x', 'rx', 'ry', 'rz', 'fx', 'fh']


def ptm(kraus):
    return np.array([[np.real(sum(np.trace(p @ k @ q @ k.conj().T) for k in kraus)) / 2 for q in PAULI] for p in PAULI])


def make_gate(spec, angle):
    """(gate object or function, 2x2 matrix)"""
    simple = {'h': HGate(), 's': SGate(), 't': TGate(), 'x': XGate(), 'rx': RXGate(angle), 'ry': RYGate(angle), 'rz': RZGate(angle)}
    if spec in simple:
        return simple[spec], simple[spec].to_matrix()
    if spec == 'fx':
        return (lambda c, q: c.rx(angle, q)), RXGate(angle).to_matrix()
    return (lambda c, q: (c.h(q), c.t(q))), TGate().to_matrix() @ HGate().to_matrix()


@st.composite
def basis_st(draw):
    extra = draw(st.lists(st.tuples(st.sampled_from(GATES), st.integers(1, 30)), max_size=3))
    custom = draw(st.booleans())
    return {'custom': custom, 'extra': [list(e) for e in extra], 'spam_seed': draw(st.integers(0, 200)),
            'late': draw(st.booleans()), 'qubit': draw(st.sampled_from([None, 0, 1, 2])),
            'seed': draw(st.integers(0, 10 ** 6)), 'eps': draw(st.sampled_from([0.02, 0.0, 0.1])),
            'names': draw(st.booleans()), 'labels': draw(st.sampled_from(LABELS)), 'prefix': draw(st.sampled_from(['', 'A'])), 'unnamed': draw(st.booleans())}


LABELS = [['F0', 'F1', 'F2', 'F3'], ['F10', 'F9', 'F1', 'F0'], ['z', 'y', 'x', 'id'], ['up', 'Down', '+', '-i'], ['G', 'F', 'E', 'D']]


def build_basis(case):
    """(GateSetBasis, {gate: ptm}, {spam: gate names})"""
    default = default_gateset_basis()
    mats = {}
    for name, func in default.gates.items():
        qc = QuantumCircuit(1)
        func(qc, qc.qubits[0])
        mats[name] = sim.unitary(qc)
    spam = {'F0': ('Id',), 'F1': ('X_Rot_90',), 'F2': ('Y_Rot_90',), 'F3': ('X_Rot_90', 'X_Rot_90')}
    extra = {}
    for i, (g, a) in enumerate(case['extra']):
        gate, m = make_gate(g, a / 10.0)
        extra[case.get('prefix', '') + '%s_%d' % (g, i)] = (gate, m)
    if case.get('spam'):
        spam.update({k: tuple(v) for k, v in case['spam'].items()})
        gates = dict(default.gates)
        for name, (gate, m) in extra.items():
            gates[name] = gate
            mats[name] = m
        basis = GateSetBasis('other', gates, spam)
    elif not case['custom']:
        basis = default
        for name, (gate, m) in extra.items():
            if case.get('unnamed') and not case.get('prefix') and name[:-2] in ('h', 's', 't', 'x') and name[:-2] not in mats:
                basis.add_gate(gate)            # under the name of the gate
                name = name[:-2]
            else:
                basis.add_gate(gate, name)
            mats[name] = m
    else:
        gates = dict(default.gates)
        late = {}
        for name, (gate, m) in extra.items():
            (late if case['late'] else gates)[name] = gate
            mats[name] = m
        allg = list(mats)
        r = sim.rs(case['spam_seed'])
        best, spam = None, None
        labels = case.get('labels', LABELS[0])
        for _ in range(60):
            trial = {labels[i]: tuple(allg[j] for j in r.randint(len(allg), size=r.randint(1, 4))) for i in range(4)}
            c = gram_cond({k: ptm([v]) for k, v in mats.items()}, trial)
            if best is None or c < best:
                best, spam = c, trial
        if best > 30:
            spam = dict(zip(labels, [('X_Rot_90',), ('Id',), ('Y_Rot_90',), ('X_Rot_90', 'X_Rot_90')]))
        basis = GateSetBasis('custom', gates, spam)
        for name, gate in late.items():
            basis.add_gate(gate, name)
    return basis, {k: ptm([v]) for k, v in mats.items()}, spam


def spam_ptm(g, seq):
    return functools.reduce(lambda a, name: g[name] @ a, seq, np.eye(4))


RHO = np.array([1, 0, 0, 1.0]) / np.sqrt(2)


def gram_cond(g, spam):
    f = {k: spam_ptm(g, s) for k, s in spam.items()}
    m = np.array([[RHO @ f[i] @ f[j] @ RHO for j in f] for i in f])
    return np.linalg.cond(m)


def noise(r, eps):
    h = r.normal(size=(2, 2)) + 1j * r.normal(size=(2, 2))
    u = expm(1j * eps * (h + h.conj().T) / 2)
    return (1 - eps) * ptm([u]) + eps * ptm(sim.rand_kraus(2, r, k=4))


def noisy(case, ideal):
    r = sim.rs(case['seed'])
    eps = case['eps']
    g = {k: noise(r, eps) @ m for k, m in ideal.items()}
    return g, noise(r, eps) @ RHO, RHO @ noise(r, eps)


def probabilities(g, rho, e, spam):
    f = {k: spam_ptm(g, s) for k, s in spam.items()}
    probs = {}
    for i in f:
        probs[(i,)] = float(e @ f[i] @ rho)
        for j in f:
            probs[(j, i)] = float(e @ f[i] @ f[j] @ rho)
            for name in g:
                probs[(j, name, i)] = float(e @ f[i] @ g[name] @ f[j] @ rho)
    return probs


def mark(case, ctx):
    ctx.label('custom spam' if case['custom'] else 'default basis')
    ctx.label('noise %s' % case['eps'])
    ctx.nontrivial(bool(case['extra']) or case['custom'] or case['eps'] > 0)


def get_fitter(case, basis, probs, shots=10 ** 9):
    names = list(probs)
    exps = [qres.experiment(str(k), qres.ints({'0': probs[k], '1': 1 - probs[k]}, shots), [('c0', 1)]) for k in names]
    res = qres.result([exps[i] for i in sim.rs(case['seed']).permutation(len(exps))])
    circs = [str(k) for k in names]
    if case['names']:
        circs = [c for c in gateset_tomography_circuits(gateset_basis=basis)]
    if not case['custom'] and not case['extra'] and not case.get('spam') and case['seed'] % 2:
        return GatesetTomographyFitter(res, circs)
    return GatesetTomographyFitter(res, circs, basis)


@facet('circuits', basis_st(), 80, 1200, 'random gates, SPAM circuits and qubit; non-trivial: not the plain default basis', shards=4)
def circuits(case, ctx):
    mark(case, ctx)
    basis, ideal, spam = build_basis(case)
    for axis, name in ((1, 'X_Rot_90'), (2, 'Y_Rot_90')):
        keep = np.zeros(4)
        keep[axis] = 1
        ctx.close(ideal[name][axis], keep, 1e-9, 'rotation axis of %s', name)
        ctx.close(np.trace(ideal[name]), 2, 1e-9, 'rotation angle of %s', name)
    q = case['qubit'] or 0
    kw = {} if case['qubit'] is None else {'measured_qubits': [case['qubit']]}
    if not case['custom'] and not case['extra'] and not case.get('spam') and case['seed'] % 2:
        circs = gateset_tomography_circuits(**kw)
    else:
        circs = gateset_tomography_circuits(gateset_basis=basis, **kw)
    names = [ast.literal_eval(c.name) for c in circs]
    want = probabilities(ideal, RHO, RHO, spam)
    ctx.check(len(set(names)) == len(names) and set(names) == set(want), 'circuit labels %s', names[:8])
    for c, name in zip(circs, names):
        ctx.check(c.num_qubits == q + 1 and len(c.clbits) == 1, 'size of circuit')
        for op, _, qs, _ in sim.ops(c):
            ctx.check(op == 'barrier' or qs == [q], 'operation %s on %s', op, qs)
        p0 = sim.clbit_probs(c).get(0, 0.0)
        ctx.close(p0, want[name], 1e-9, 'ideal probability of %s', name)
    for label, m in ideal.items():
        ctx.close(basis.gate_matrices[label], m, 1e-9, 'gate matrix of %s', label)
    for label, seq in spam.items():
        ctx.close(basis.spam_matrix(label), spam_ptm(ideal, seq), 1e-9, 'SPAM matrix of %s %s', label, seq)
    ctx.raises(QiskitError, lambda: gateset_tomography_circuits([0, 1], basis))
    ctx.raises(RuntimeError, lambda: basis.add_gate(lambda c, q_: c.x(q_)), 'a function without a name is accepted')
    ctx.check(set(basis.gate_labels) == set(ideal) and len(basis.gate_labels) == len(ideal), 'gate labels %s', basis.gate_labels)
    # a gate added afterwards takes part as well, and other bases are not affected
    basis.add_gate(RZGate(0.3), 'added')
    more = {ast.literal_eval(c.name) for c in gateset_tomography_circuits(gateset_basis=basis, **kw)}
    ctx.check(more - set(names) == {(i, 'added', j) for i in spam for j in spam} and set(names) <= more, 'circuits after adding a gate')
    ctx.check(set(default_gateset_basis().gate_labels) == {'Id', 'X_Rot_90', 'Y_Rot_90'}, 'the default basis has changed')


def gauge_of(g, rho, e, spam, order):
    """Columns F_j rho."""
    return np.array([spam_ptm(g, spam[f]) @ rho for f in order]).T


@facet('inversion', basis_st(), 200, 3000, 'ideal frequencies of a random noisy gate set; non-trivial: noise, extra gates or custom SPAM', shards=4)
def inversion(case, ctx):
    mark(case, ctx)
    basis, ideal, spam = build_basis(case)
    g, rho, e = noisy(case, ideal)
    probs = probabilities(g, rho, e, spam)
    if min(probs.values()) < -1e-9 or max(probs.values()) > 1 + 1e-9:
        raise AssertionError('oracle produced a bad probability')
    probs = {k: min(max(v, 0.0), 1.0) for k, v in probs.items()}
    order = sorted(spam)
    b = gauge_of(g, rho, e, spam, order)
    a = np.array([e @ spam_ptm(g, spam[f]) for f in order])
    cond = np.linalg.cond(a @ b)
    if cond > 100:
        return
    # sampled data: the result solves the equations of linear inversion for the observed frequencies
    shots = 1 + case['seed'] % 2000
    data = {k: sim.rs(case['seed'] + 3).binomial(shots, v) / shots for k, v in probs.items()}
    gram = np.array([[data[(j, i)] for j in order] for i in order])
    if np.linalg.cond(gram) < 1e4:
        ctx.label('sampled')
        out = get_fitter(case, basis, data, shots).linear_inversion()
        for name in g:
            ctx.close(gram @ np.real(out[name].data), [[data[(j, name, i)] for j in order] for i in order], 1e-8, 'sampled data: sequences with %s', name)
        ctx.close(np.ravel(out['E']), [data[(i,)] for i in order], 1e-12, 'sampled data: measurement effect')
        ctx.close(gram @ np.ravel(out['rho']), [data[(i,)] for i in order], 1e-8, 'sampled data: initial state')
    fit = get_fitter(case, basis, probs)
    out = fit.linear_inversion()
    bi = np.linalg.inv(b)
    tol = 1e-7 * cond ** 2
    ctx.check(set(out) == set(g) | {'E', 'rho'}, 'keys %s', sorted(out))
    for name in g:
        ctx.close(np.real(out[name].data), bi @ g[name] @ b, tol, 'gate %s in the gauge of the preparations', name)
    ctx.close(np.ravel(out['E']), e @ b, tol, 'measurement effect')
    ctx.close(np.ravel(out['rho']), bi @ rho, tol, 'initial state')
    rec = probabilities({k: np.real(out[k].data) for k in g}, np.ravel(out['rho']), np.ravel(out['E']), spam)
    for k in probs:
        ctx.close(rec[k], probs[k], tol, 'probability of %s', k)


def distance(gs, ideal):
    return sum(np.linalg.norm(np.asarray(getattr(gs[k], 'data', gs[k])) - np.asarray(getattr(ideal[k], 'data', ideal[k]))) for k in ideal)


@facet('gauge', basis_st(), 24, 300, 'gauge optimisation of a randomly transformed gate set; non-trivial as above', shards=8)
def gauge(case, ctx):
    mark(case, ctx)
    basis, ideal, spam = build_basis(case)
    g, rho, e = noisy(case, ideal)
    r = sim.rs(case['seed'] + 5)
    b = gauge_of(g, rho, e, spam, sorted(spam))
    if case['seed'] % 2:
        b = b @ (np.eye(4) + 0.1 * r.normal(size=(4, 4)))
    if np.linalg.cond(b) > 30:
        return
    bi = np.linalg.inv(b)
    start = {k: PTM(bi @ m @ b) for k, m in g.items()}
    start['E'] = (e @ b).reshape(1, 4)
    start['rho'] = (bi @ rho).reshape(4, 1)
    want = {k: PTM(m) for k, m in ideal.items()}
    want['E'] = RHO.reshape(1, 4).copy()
    want['rho'] = RHO.reshape(4, 1).copy()
    keep = {k: np.array(getattr(v, 'data', v)) for k, v in start.items()}
    out = GaugeOptimize(want, start, basis).optimize()
    for k, v in keep.items():
        ctx.close(np.asarray(getattr(start[k], 'data', start[k])), v, 0, 'input gate set modified')
    probs = probabilities(g, rho, e, spam)
    rec = probabilities({k: np.real(out[k].data) for k in g}, np.ravel(np.real(out['rho'])), np.ravel(np.real(out['E'])), spam)
    for k in probs:
        ctx.close(rec[k], probs[k], 1e-5, 'gauge optimisation changed the probability of %s', k)
    ctx.check(distance(out, want) <= distance(start, want) + 1e-6, 'distance to the ideal gate set grew from %s to %s',
              distance(start, want), distance(out, want))
    # the gauge in which the SPAM circuits prepare their ideal states is one candidate, so the optimum is at least as close
    n = gauge_of(ideal, RHO, RHO, spam, sorted(spam))
    if np.linalg.cond(n) < 30:
        ni = np.linalg.inv(n)
        there = {k: n @ np.real(start[k].data) @ ni for k in g}
        there['E'] = start['E'] @ ni
        there['rho'] = n @ start['rho']
        ctx.check(distance(out, want) <= distance(there, want) + 1e-6, 'distance %s to the ideal gate set, %s in the gauge of the ideal SPAM states',
                  distance(out, want), distance(there, want))


@st.composite
def fit_case(draw):
    return {'custom': draw(st.booleans()), 'extra': draw(st.sampled_from([[], [], [['h', 1]], [['s', 1]], [['rx', 7]], [['h', 1], ['s', 1]]])), 'spam_seed': draw(st.integers(0, 200)), 'late': False,
            'qubit': None, 'seed': draw(st.integers(0, 10 ** 6)), 'eps': draw(st.sampled_from([0.02, 0.03, 0.01, 0.0])),
            'names': draw(st.booleans()), 'shots': draw(st.sampled_from([None, None, 2000, 500])), 'prefix': draw(st.sampled_from(['', 'A'])),
            'spam': draw(st.sampled_from([None, {'F1': ['X_Rot_90', 'Y_Rot_90', 'Y_Rot_90']}, {'F2': ['X_Rot_90', 'X_Rot_90', 'Y_Rot_90']}]))}


def vec(op):
    return np.array([np.real(np.trace(p @ np.asarray(op.data))) for p in PAULI]) / np.sqrt(2)


@facet('fit', fit_case(), 24, 160, 'complete fit of weakly noisy gate sets; non-trivial: noise or extra gate', shards=8)
def fit_facet(case, ctx):
    mark(case, ctx)
    basis, ideal, spam = build_basis(case)
    g, rho, e = noisy(case, ideal)
    probs = {k: min(max(v, 0.0), 1.0) for k, v in probabilities(g, rho, e, spam).items()}
    data, tol = probs, 1e-2
    if case['shots']:
        r = sim.rs(case['seed'] + 9)
        data = {k: r.binomial(case['shots'], v) / case['shots'] for k, v in probs.items()}
        tol = 3 / np.sqrt(case['shots'])
        ctx.label('sampled')
    out = get_fitter(case, basis, data, case['shots'] or 10 ** 9).fit()
    ctx.check(set(out) == set(g) | {'E', 'rho'}, 'keys %s', sorted(out))
    rec = probabilities({k: np.real(out[k].data) for k in g}, vec(out['rho']), vec(out['E']), spam)
    for k in probs:
        ctx.close(rec[k], probs[k], tol, 'fitted gate set: probability of %s', k)
    ctx.close(np.trace(out['rho'].data), 1, 1e-3, 'trace of the state')
    for key in ('rho', 'E'):
        m = np.asarray(out[key].data)
        ctx.close(m, m.conj().T, 1e-6, '%s Hermitian', key)
        ctx.check(np.linalg.eigvalsh(m)[0] > -1e-6, '%s is not positive', key)
    for k in g:
        ctx.close(np.real(out[k].data)[0], [1, 0, 0, 0], 1e-3, 'trace preservation of %s', k)
        choi = sum(np.kron(PAULI[i], PAULI[j].T) * np.real(out[k].data)[i, j] for i in range(4) for j in range(4)) / 4
        ctx.check(np.linalg.eigvalsh(choi)[0] > -1e-6, '%s is not completely positive', k)
    # the gauge is pinned to the ideal gate set: noise-free data give the ideal gates, weak noise gives gates close to the true ones
    tol = (1e-5 if case['eps'] == 0 else 0.02 + 5 * case['eps']) + (10 / np.sqrt(case['shots']) if case['shots'] else 0)
    for k in g:
        ctx.close(np.real(out[k].data), g[k], tol, 'gate %s', k)
