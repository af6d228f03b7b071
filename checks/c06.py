"""C06: state tomography reconstructs every state from ideal data."""
import ast
import numpy as np
from hypothesis import strategies as st
from qiskit import QiskitError
from qiskit.ignis.verification.tomography import state_tomography_circuits, StateTomographyFitter

import qres
import sim
import tomo
from harness import facet

ASSUMPTIONS = ['ideal outcome frequencies are integer counts of 10^9 (least squares) or 20000 (conic solver) shots',
               'conic-solver fits are compared at 2e-2 (SCS is the only SDP solver here), least squares at 1e-6']


@st.composite
def case_st(draw, max_n=4, max_k=2, force_k=None):
    regs, cregs = draw(tomo.layout(max_n) if not force_k else tomo.layout(max_n).filter(lambda t: sum(t[0]) >= force_k))
    n = sum(regs)
    if force_k:
        qs = [int(q) for q in draw(st.permutations(list(range(n))))][:force_k]
    elif draw(st.integers(0, 3)) == 0 and regs[0] <= max_k:
        qs = list(range(regs[0]))
    else:
        qs = [int(q) for q in draw(st.permutations(list(range(n))))][:draw(st.integers(1, max_k))]
    rest = [q for q in range(n) if q not in qs]
    extra = []
    if cregs and rest:
        nb = sum(cregs)
        qq = draw(st.lists(st.sampled_from(rest), unique=True, max_size=min(len(rest), nb)))
        bits = draw(st.permutations(list(range(nb))))
        extra = [[q, int(b)] for q, b in zip(qq, bits)]
    basis = draw(st.sampled_from(['Pauli', 'Pauli', 'PauliTuple', 'PauliList', 'custom', 'function']))
    return {'regs': regs, 'cregs': cregs, 'qs': qs, 'style': tomo.pick_style(draw, regs, qs), 'extra': extra,
            'kind': draw(st.sampled_from(['random', 'random', 'weak', 'local', 'clifford', 'basis'])),
            'seed': draw(st.integers(0, 10 ** 6)), 'basis': basis, 'bseed': draw(st.integers(0, 50)),
            'lperm': draw(st.integers(0, 5)),
            'names': draw(st.booleans()), 'split': draw(st.sampled_from([1, 2, 3, 7])), 'order': draw(st.integers(0, 3)),
            'late': draw(st.booleans()), 'drop': draw(st.one_of(st.just(0), st.integers(1, 9))),
            'weights': draw(st.booleans()), 'beta': draw(st.sampled_from([0.5, 0.5, 0.1, 0, 2]))}


def circuits(case):
    qc, regs = tomo.build(case)
    for q, b in case['extra']:
        qc.measure(q, b)
    k = len(case['qs'])
    arg = tomo.qubit_arg(qc, regs, case['qs'], case['style'])
    kw, fitkw, meas = {}, {}, tomo.MEAS
    labels = ('X', 'Y', 'Z')
    if case['basis'] == 'PauliTuple':
        labels = tuple(sim.rs(case['lperm']).permutation(['X', 'Y', 'Z']).tolist())
        kw = {'meas_labels': labels}
    elif case['basis'] == 'PauliList':
        full = tomo.all_labels(labels, k)
        kw = {'meas_labels': [full[i] for i in sim.rs(case['lperm']).permutation(len(full))]}
    elif case['basis'] == 'function':
        basis, meas, _, _ = tomo.custom_basis(tomo.good_seed(case['bseed']))
        labels = tuple(meas)
        kw = {'meas_labels': labels, 'meas_basis': basis.measurement_circuit}
        fitkw = {'meas_basis': basis}
    elif case['basis'] == 'custom':
        basis, meas, _, _ = tomo.custom_basis(tomo.good_seed(case['bseed']))
        labels = tuple(meas)
        kw = {'meas_labels': labels, 'meas_basis': basis}
        fitkw = {'meas_basis': basis}
    before = (qc.name, len(qc.data), list(qc.qregs), list(qc.cregs))
    circs = state_tomography_circuits(qc, arg, **kw)
    after = (qc.name, len(qc.data), list(qc.qregs), list(qc.cregs))
    return qc, circs, labels, meas, fitkw, before == after


def truth(qc, case):
    n = qc.num_qubits
    psi = sim.statevector(qc)
    return tomo.reduced(np.outer(psi, psi.conj()), case['qs'], n), psi


def low_bits(circ, psi, k):
    """Distribution of the k lowest clbits: those of the tomography register."""
    out = {}
    for v, p in sim.clbit_probs(circ, psi).items():
        key = format(v & (2 ** k - 1), '0%db' % k)
        out[key] = out.get(key, 0) + p
    return out


def ideal_counts(circs, shots=tomo.SHOTS):
    return [qres.ints({sim.fmt(c, v): p for v, p in sim.clbit_probs(c).items() if p > 1e-13}, shots) for c in circs]


def mark(case, ctx):
    ctx.nontrivial(len(case['qs']) > 1 or len(case['regs']) > 1 or bool(case['cregs']))
    ctx.label(case['basis'])
    ctx.label('style:' + case['style'])
    if case['qs'] != sorted(case['qs']):
        ctx.label('unsorted qubits')
    if case['cregs']:
        ctx.label('extra cregs')


@facet('circuits', case_st(max_k=3), 480, 6000,
       'random circuit, registers, qubit selection, basis; non-trivial: several qubits or registers', shards=4)
def circuit_facet(case, ctx):
    mark(case, ctx)
    k = len(case['qs'])
    qc, circs, labels, meas, _, same = circuits(case)
    ctx.check(same, 'the input circuit was modified')
    rho, _ = truth(qc, case)
    want_labels = tomo.all_labels(labels, k)
    got_labels = [ast.literal_eval(c.name) for c in circs]
    ctx.check(sorted(got_labels) == sorted(want_labels), 'labels %s', got_labels)
    for c, lab in zip(circs, got_labels):
        ctx.check(len(c.clbits) == k + sum(case['cregs']), 'number of classical bits')
        ctx.check(c.cregs[0].size == k, 'first classical register is not the tomography register')
        got = low_bits(c, None, k)
        want = tomo.meas_probs(rho, lab, meas)
        for key in want:
            ctx.close(got.get(key, 0), want[key], 1e-9, 'label %s outcome %s', lab, key)
        if case['extra']:
            full = sim.clbit_probs(c)
            psi = sim.statevector(qc)
            for q, b in case['extra']:
                p1 = sum(p for v, p in full.items() if (v >> (k + b)) & 1)
                idx = np.arange(len(psi))
                ctx.close(p1, float((np.abs(psi) ** 2)[((idx >> q) & 1) == 1].sum()), 1e-9, 'original measurement changed')


def thin(circs, case, meas):
    """Drop random circuits while the rest stays informationally complete."""
    keep = list(circs)
    r = sim.rs(case['drop'])
    for i in r.permutation(len(circs))[:6]:
        trial = [c for c in keep if c is not circs[i]]
        rows = []
        for c in trial:
            lab = ast.literal_eval(c.name)
            for v in range(2 ** len(lab)):
                rows.append(tomo.kron_label([meas[l][(v >> j) & 1] for j, l in enumerate(lab)]).ravel())
        if trial and np.linalg.matrix_rank(np.array(rows), 1e-2) == 4 ** len(case['qs']) and np.linalg.cond(np.array(rows)) < 12:
            keep = trial
    return keep


def run_fit(case, ctx, method, tol):
    mark(case, ctx)
    qc, circs, _, meas, fitkw, _ = circuits(case)
    rho, _ = truth(qc, case)
    if case['drop']:
        circs = thin(circs, case, meas)
        ctx.label('subset of circuits')
    counts = ideal_counts(circs, tomo.SHOTS if method == 'lstsq' else tomo.CVX_SHOTS)
    order = list(sim.rs(case['order']).permutation(len(circs)))
    groups = [g for g in (order[i::case['split']] for i in range(case['split'])) if g]
    results = [qres.from_circuits([circs[i] for i in g], [counts[i] for i in g]) for g in groups]
    given = [c.name for c in circs] if case['names'] else circs
    if case['order'] == 3 and case['split'] > 1:
        # the shots of each circuit come from several jobs, all given at once or one by one
        ctx.label('circuits repeated')
        r = sim.rs(case['seed'] + 1)
        jobs = [[] for _ in range(case['split'])]
        for i, c in enumerate(circs):
            for j, part in enumerate(tomo.shared(counts[i], case['split'], r)):
                jobs[j].append((i, part))
        results = [qres.from_circuits([circs[i] for i, _ in job], [part for _, part in job]) for job in jobs if job]
        if case['late'] and len(results) > 1 and len(jobs[0]) == len(circs):
            fitter = StateTomographyFitter(results[0], given, **fitkw)
            for job, res in zip(jobs[1:], results[1:]):
                if job:
                    fitter.add_data([res], [given[i] for i, _ in job])
        else:
            fitter = StateTomographyFitter(results, given, **fitkw)
    elif case['late'] and len(groups) > 1:
        ctx.label('data added later')
        first = [given[i] for i in groups[0]]
        fitter = StateTomographyFitter(results[0], first, **fitkw)
        fitter.add_data(results[1:], [given[i] for g in groups[1:] for i in g])
        if case['order'] == 0:
            fitter.add_data([results[0]], first)
    else:
        fitter = StateTomographyFitter(results if len(results) > 1 else results[0], given, **fitkw)
    got = fitter.fit(method=method, standard_weights=case['weights'], beta=case['beta'])
    ctx.check(got.shape == rho.shape, 'shape %s', got.shape)
    ctx.close(got, rho, tol, 'reconstructed state (method %s)', method)


@facet('lstsq', case_st(max_k=3), 400, 5000, 'end-to-end reconstruction by least squares', shards=4)
def lstsq(case, ctx):
    run_fit(case, ctx, 'lstsq', 1e-6)


@facet('lstsq4', case_st(max_n=5, force_k=4), 16, 200, 'end-to-end reconstruction of four qubits by least squares', shards=4)
def lstsq4(case, ctx):
    run_fit(dict(case, drop=0), ctx, 'lstsq', 1e-6)


@facet('auto', case_st(), 80, 800, 'end-to-end reconstruction with the default method', shards=1)
def auto(case, ctx):
    run_fit(case, ctx, 'auto', 2e-2)


@facet('cvx', case_st(), 200, 3000, 'end-to-end reconstruction by convex optimisation', shards=4)
def cvx(case, ctx):
    run_fit(case, ctx, 'cvx', 2e-2)


@facet('missing', case_st(), 20, 100, 'data missing for one circuit is an error; non-trivial as above')
def missing(case, ctx):
    mark(case, ctx)
    _, circs, _, _, fitkw, _ = circuits(case)
    counts = [{'0' * len(c.clbits): 10} for c in circs]
    drop = case['seed'] % len(circs)
    kept = [i for i in range(len(circs)) if i != drop]
    if not kept:
        return
    res = qres.from_circuits([circs[i] for i in kept], [counts[i] for i in kept])
    given = [c.name for c in circs] if case['names'] else circs
    ctx.raises(QiskitError, lambda: StateTomographyFitter(res, given, **fitkw))
    ctx.raises(QiskitError, lambda: StateTomographyFitter(res, [], **fitkw))
