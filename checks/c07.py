"""C07: process tomography reconstructs every channel from ideal data."""
import ast
import numpy as np
from hypothesis import strategies as st
from qiskit import QiskitError, QuantumCircuit, QuantumRegister, ClassicalRegister
from qiskit.extensions import UnitaryGate
from qiskit.quantum_info import Choi
from qiskit.ignis.verification.tomography import process_tomography_circuits, ProcessTomographyFitter

import qres
import sim
import tomo
from harness import facet

ASSUMPTIONS = ['channels are realised by unitaries on the system and ancilla qubits starting in |0>',
               'conic-solver fits are compared at 2e-2 (SCS is the only SDP solver here), least squares at 1e-5']


@st.composite
def case_st(draw, max_n=3, max_k=1, force_k=None):
    regs, cregs = draw(tomo.layout(max_n).filter(lambda t: sum(t[0]) >= (force_k or 1)))
    n = sum(regs)
    k = force_k or draw(st.integers(1, min(max_k, n)))
    qs = [int(q) for q in draw(st.permutations(list(range(n))))][:k]
    prep = None
    if draw(st.booleans()):
        prep = [int(q) for q in draw(st.permutations(list(range(n))))][:k]
    return {'regs': regs, 'cregs': cregs, 'qs': qs, 'prep': prep, 'style': tomo.pick_style(draw, regs, qs),
            'pstyle': draw(st.sampled_from(['ints', 'bits'])),
            'kind': draw(st.sampled_from(['random', 'random', 'clifford', 'local', 'weak', 'empty'])),
            'seed': draw(st.integers(0, 10 ** 6)),
            'pbasis': draw(st.sampled_from(['Pauli', 'SIC', 'Pauli6', 'custom'])), 'fun': draw(st.integers(0, 3)) == 0,
            'mbasis': draw(st.sampled_from(['Pauli', 'custom'])), 'bseed': draw(st.integers(0, 50)),
            'names': draw(st.booleans()), 'split': draw(st.sampled_from([1, 2, 3, 7])), 'order': draw(st.integers(0, 3)),
            'late': draw(st.booleans()),
            'weights': draw(st.booleans()), 'beta': draw(st.sampled_from([0.5, 0.5, 0.1, 0, 2]))}


def setup(case):
    qc, regs = tomo.build(case)
    arg = tomo.qubit_arg(qc, regs, case['qs'], case['style'])
    kw, fitkw = {}, {}
    meas, prep = tomo.MEAS, tomo.PREP
    ml, pl = ('X', 'Y', 'Z'), ('Zp', 'Zm', 'Xp', 'Yp')
    basis, cm, cp, _ = tomo.custom_basis(tomo.good_seed(case['bseed']))
    if case['mbasis'] == 'custom':
        ml, meas = tuple(cm), cm
        kw.update(meas_labels=ml, meas_basis=basis.measurement_circuit if case['fun'] else basis)
        fitkw['meas_basis'] = basis
    if case['pbasis'] == 'SIC':
        pl = ('S0', 'S1', 'S2', 'S3')
        kw.update(prep_labels='SIC', prep_basis='SIC')
        fitkw['prep_basis'] = 'SIC'
    elif case['pbasis'] == 'Pauli6':
        pl = ('Xp', 'Xm', 'Yp', 'Ym', 'Zp', 'Zm')
        kw.update(prep_labels=pl)
    elif case['pbasis'] == 'custom':
        pl, prep = tuple(cp), cp
        kw.update(prep_labels=pl, prep_basis=basis.preparation_circuit if case['fun'] else basis)
        fitkw['prep_basis'] = basis
    if case['prep'] is not None:
        kw['prepared_qubits'] = tomo.qubit_arg(qc, regs, case['prep'], case['pstyle'])
    if len(case['qs']) > 2:
        # too many for a full set: lists of chosen labels
        r = sim.rs(case['bseed'])
        pl, ml = [[full[i] for i in r.permutation(len(full))[:m]] for full, m in
                  ((tomo.all_labels(pl, len(case['qs'])), 5), (tomo.all_labels(ml, len(case['qs'])), 3))]
        kw.update(prep_labels=list(pl), meas_labels=list(ml))
    u = sim.unitary(qc)
    circs = process_tomography_circuits(qc, arg, **kw)
    return qc, u, circs, ml, pl, meas, prep, fitkw


def channel(u, case):
    """Kraus operators of: listed prep qubits (rest |0>) -> listed measured qubits."""
    n = sum(case['regs'])
    ins = case['prep'] if case['prep'] is not None else case['qs']
    outs = case['qs']
    k = len(ins)
    rest = [q for q in range(n) if q not in outs]
    cols = []
    for v in range(2 ** k):
        cols.append(u[:, sum(((v >> j) & 1) << q for j, q in enumerate(ins))])
    m = np.array(cols).T
    idx = np.arange(2 ** n)
    out = sum(((idx >> q) & 1) << j for j, q in enumerate(outs))
    env = sum((((idx >> q) & 1) << j for j, q in enumerate(rest)), np.zeros_like(idx))
    kraus = []
    for e in range(2 ** len(rest)):
        kr = np.zeros((2 ** k, 2 ** k), dtype=complex)
        sel = idx[env == e]
        kr[out[sel], :] = m[sel, :]
        kraus.append(kr)
    return kraus


def mark(case, ctx):
    ctx.nontrivial(len(case['qs']) > 1 or sum(case['regs']) > 1)
    ctx.label(case['pbasis'] + '/' + case['mbasis'])
    if case['prep'] is not None and case['prep'] != case['qs']:
        ctx.label('separate preparation qubits')
    if len(case['qs']) > 1 and case['qs'] != sorted(case['qs']):
        ctx.label('unsorted')


def circuit_body(case, ctx):
    mark(case, ctx)
    qc, u, circs, ml, pl, meas, prep, _ = setup(case)
    k = len(case['qs'])
    kraus = channel(u, case)
    labels = [ast.literal_eval(c.name) for c in circs]
    want = [(p, m) for p in (pl if k > 2 else tomo.all_labels(pl, k)) for m in (ml if k > 2 else tomo.all_labels(ml, k))]
    ctx.check(sorted(labels) == sorted(want), 'labels %s', labels[:10])
    pick = range(len(circs)) if len(circs) < 40 else sim.rs(case['order']).permutation(len(circs))[:40]
    for i in pick:
        c, (p, m) = circs[i], labels[i]
        rho = tomo.kron_label([prep[x] for x in p])
        out = sum(kr @ rho @ kr.conj().T for kr in kraus)
        ref = tomo.meas_probs(out, m, meas)
        got = {}
        for v, pr in sim.clbit_probs(c).items():
            key = format(v & (2 ** k - 1), '0%db' % k)
            got[key] = got.get(key, 0) + pr
        for key in ref:
            ctx.close(got.get(key, 0), ref[key], 1e-9, 'label %s outcome %s', (p, m), key)


@facet('circuits1', case_st(max_n=3), 400, 5000, 'one-qubit channels (with ancillas); non-trivial: more than one qubit', shards=4)
def circuits1(case, ctx):
    circuit_body(case, ctx)


@facet('circuits2', case_st(max_n=4, force_k=2), 60, 800, 'two-qubit channels', shards=4)
def circuits2(case, ctx):
    circuit_body(case, ctx)


@facet('circuits3', case_st(max_n=5, force_k=3), 60, 600, 'three-qubit channels, chosen labels', shards=4)
def circuits3(case, ctx):
    circuit_body(case, ctx)


@facet('circuits4', case_st(max_n=5, force_k=4), 30, 300, 'four-qubit channels, chosen labels', shards=4)
def circuits4(case, ctx):
    circuit_body(case, ctx)


def fit_body(case, ctx, method, tol):
    mark(case, ctx)
    qc, u, circs, _, _, _, _, fitkw = setup(case)
    want = tomo.choi(channel(u, case))
    counts = [qres.ints({sim.fmt(c, v): p for v, p in sim.clbit_probs(c).items() if p > 1e-13},
                       tomo.SHOTS if method == 'lstsq' else tomo.CVX_SHOTS)
              for c in circs]
    order = list(sim.rs(case['order']).permutation(len(circs)))
    groups = [order[i::case['split']] for i in range(case['split'])]
    results = [qres.from_circuits([circs[i] for i in g], [counts[i] for i in g]) for g in groups]
    given = [c.name for c in circs] if case['names'] else circs
    if case['order'] == 3 and case['split'] > 1:
        # the shots of each circuit come from several jobs
        ctx.label('circuits repeated')
        r = sim.rs(case['seed'] + 1)
        jobs = [[] for _ in range(case['split'])]
        for i, c in enumerate(circs):
            for j, part in enumerate(tomo.shared(counts[i], case['split'], r)):
                jobs[j].append((i, part))
        fitter = ProcessTomographyFitter([qres.from_circuits([circs[i] for i, _ in job], [part for _, part in job]) for job in jobs if job],
                                         given, **fitkw)
    elif case['late'] and len(groups) > 1:
        ctx.label('data added later')
        fitter = ProcessTomographyFitter(results[0], [given[i] for i in groups[0]], **fitkw)
        fitter.add_data(results[1:], [given[i] for g in groups[1:] for i in g])
    else:
        fitter = ProcessTomographyFitter(results if len(results) > 1 else results[0], given, **fitkw)
    got = fitter.fit(method=method, standard_weights=case['weights'], beta=case['beta'])
    ctx.check(isinstance(got, Choi), 'type %s', type(got))
    ctx.close(got.data, want, tol, 'reconstructed Choi matrix (method %s)', method)


@facet('lstsq1', case_st(max_n=3), 300, 4000, 'end-to-end, one qubit, least squares', shards=4)
def lstsq1(case, ctx):
    fit_body(case, ctx, 'lstsq', 1e-5)


@facet('lstsq2', case_st(max_n=3, force_k=2), 24, 300, 'end-to-end, two qubits, least squares', shards=4)
def lstsq2(case, ctx):
    fit_body(case, ctx, 'lstsq', 1e-5)


@facet('cvx1', case_st(max_n=3), 120, 1500, 'end-to-end, one qubit, convex optimisation (cvx or auto)', shards=4)
def cvx1(case, ctx):
    fit_body(case, ctx, 'cvx' if case['seed'] % 3 else 'auto', 2e-2)


@facet('cvx2', case_st(max_n=3, force_k=2), 12, 120, 'end-to-end, two qubits, convex optimisation', shards=4)
def cvx2(case, ctx):
    fit_body(case, ctx, 'cvx', 2e-2)


@facet('errors', st.integers(1, 3), 3, 3, 'different numbers of prepared and measured qubits are rejected')
def errors(case, ctx):
    qc = QuantumCircuit(4)
    ctx.raises(QiskitError, lambda: process_tomography_circuits(qc, list(range(case)), list(range(case + 1))))
