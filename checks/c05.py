"""C05: expectation-value calibration reproduces the noise and its cost figures."""
import math
import numpy as np
from hypothesis import strategies as st
from qiskit import QiskitError
from qiskit.ignis.mitigation import (expval_meas_mitigator_circuits, ExpvalMeasMitigatorFitter,
                                     CompleteExpvalMeasMitigator, TensoredExpvalMeasMitigator,
                                     CTMPExpvalMeasMitigator)

import expv
import qres
import sim
from harness import facet

ASSUMPTIONS = ['product noise for the tensored fit; product noise (any size) or arbitrary standard-generator noise on two qubits for the Markov fit',
               'matrices of subsets are requested with qubits in ascending order']

SHOTS = 10 ** 11


def labels_of(n, method):
    if method == 'tensored':
        return ['0' * n, '1' * n]
    if method == 'complete':
        return [format(i, '0%db' % n) for i in range(2 ** n)]
    return ['0' * n, '1' * n] + [format(1 << i, '0%db' % n) for i in range(n)]


@facet('circuits', st.fixed_dictionaries({
    'n': st.integers(1, 7), 'method': st.sampled_from(['complete', 'tensored', 'CTMP', 'ctmp', 'default']),
    'custom': st.booleans(), 'seed': st.integers(0, 2 ** 31)}), 150, 1500,
    'every method, default or custom labels; non-trivial: at least two qubits')
def circuits(case, ctx):
    n, method = case['n'], case['method']
    ctx.nontrivial(n > 1)
    r = sim.rs(case['seed'])
    kw = {} if method == 'default' else {'method': method}
    name = 'CTMP' if method == 'default' else method
    labels = labels_of(n, name)
    if case['custom']:
        labels = [format(int(x), '0%db' % n) for x in r.randint(0, 2 ** n, size=r.randint(1, 6))]
        kw['labels'] = list(labels)
    circs, meta = expval_meas_mitigator_circuits(n, **kw)
    ctx.check(len(circs) == len(meta) == len(labels), '%s circuits, %s labels', len(circs), len(labels))
    ctx.check([m['cal'] for m in meta] == labels if case['custom'] else
              set(m['cal'] for m in meta) == set(labels), 'labels %s', [m['cal'] for m in meta])
    for c, m in zip(circs, meta):
        qb, cb = sim.classical_bits(c)
        want = [int(ch) for ch in reversed(m['cal'])]
        ctx.check(qb == want, 'label %s prepared as %s', m['cal'], qb)
        ctx.check(cb == want, 'label %s measured as %s', m['cal'], cb)
        ctx.check(m['experiment'] == 'meas_mit' and m['method'] == name, 'metadata %s', m)


def noisy_results(n, labels, amat, shots):
    """Result and metadata with exact (rounded) counts for each label under amat."""
    exps, meta = [], []
    for i, lab in enumerate(labels):
        col = amat[:, int(lab, 2)]
        cnt = {y: int(round(p * shots)) for y, p in enumerate(col) if round(p * shots) > 0}
        exps.append(qres.experiment('cal%d' % i, cnt, [('meas', n)]))
        meta.append({'experiment': 'meas_mit', 'cal': lab})
    return exps, meta


def fitted(case, r, n, method, exps, meta, **kw):
    meta = [dict(m) for m in meta]
    give = r.rand() < 0.5
    for m in meta:
        m['method'] = method if not give else 'complete'
    if r.rand() < 0.3:
        # an unrelated experiment in between
        pos = r.randint(0, len(exps) + 1)
        exps = exps[:pos] + [qres.experiment('other', {0: 10}, [('meas', n)])] + exps[pos:]
        meta = meta[:pos] + [{'experiment': 'other'}] + meta[pos:]
    fit = ExpvalMeasMitigatorFitter(qres.result(exps), meta)
    out = fit.fit(method=method, **kw) if give else fit.fit(**kw)
    return out, fit


def figures(ctx, mit, amat, gamma, qubits, delta, shots, fid=True):
    kw = {} if qubits is None else {'qubits': list(qubits)}
    tol = 1e-6
    ctx.close(mit.assignment_matrix(**kw), amat, tol, 'assignment matrix on %s' % qubits)
    inv = np.linalg.inv(amat)
    ctx.close(mit.mitigation_matrix(**kw), inv, tol * 10 * np.linalg.cond(amat), 'mitigation matrix on %s' % qubits)
    ctx.close(mit.assignment_fidelity(**kw), np.mean(np.diag(amat)), tol, 'assignment fidelity')
    if gamma is None:
        return
    ctx.close(mit.stddev_upper_bound(**kw), gamma, 1e-5 * gamma, 'standard deviation bound')
    ctx.close(mit.stddev_upper_bound(shots=shots, **kw), gamma / math.sqrt(shots), 1e-5 * gamma, 'standard deviation bound')

    def ceil_ok(val, exact):
        return math.ceil(exact * (1 - 2e-5)) <= val <= math.ceil(exact * (1 + 2e-5))
    ctx.check(ceil_ok(mit.mitigation_overhead(**kw), gamma ** 2), 'overhead %s for gamma %s', mit.mitigation_overhead(**kw), gamma)
    got = mit.required_shots(delta, **kw)
    ctx.check(ceil_ok(got, 4 * gamma ** 2 / delta ** 2), 'required shots %s for gamma %s delta %s', got, gamma, delta)


def some_subsets(n, k, r):
    out = [sorted(int(q) for q in r.permutation(n)[:min(k, n)])]
    for _ in range(r.randint(0, 4)):
        m = len(out[0]) if r.rand() < 0.6 else r.randint(1, n + 1)
        out.append(sorted(int(q) for q in r.permutation(n)[:m]))
    return out


def col_gamma(amat):
    return np.max(np.sum(np.abs(np.linalg.inv(amat)), axis=0))


FIT = st.fixed_dictionaries({'n': st.sampled_from([2, 3, 2, 4, 1, 3, 5, 6]), 'seed': st.integers(0, 2 ** 32 - 1),
                             'eps': st.sampled_from([0.15, 0.35, 0.25, 0.0]), 'k': st.sampled_from([2, 1, 3, 4, 5]),
                             'delta': st.sampled_from([0.1, 0.02, 0.5]), 'shots': st.sampled_from([1, 100, 8192]),
                             'allcal': st.booleans()})


@facet('complete', FIT, 500, 3000,
       'arbitrary calibration data, repeated labels pooled; non-trivial: at least two qubits, noisy', shards=2)
def complete(case, ctx):
    n = case['n']
    r = sim.rs(case['seed'])
    ctx.nontrivial(n > 1 and case['eps'] > 0)
    amat = expv.rand_full(n, r, case['eps'])
    labels = [str(x) for x in r.permutation(labels_of(n, 'complete'))]
    exps, meta = noisy_results(n, labels, amat, SHOTS)
    # extra data sets for some labels, to be pooled
    tot = {lab: np.array([e.data.counts.get(hex(y), 0) if hasattr(e.data.counts, 'get') else
                          getattr(e.data.counts, hex(y), 0) for y in range(2 ** n)], dtype=float)
           for lab, e in zip(labels, exps)}
    for lab in labels:
        if r.rand() < 0.3:
            tab = r.randint(0, 2 * 10 ** 10, size=2 ** n)
            exps.append(qres.experiment('x' + lab, {y: int(c) for y, c in enumerate(tab) if c}, [('meas', n)]))
            meta.append({'experiment': 'meas_mit', 'cal': lab})
            tot[lab] += tab
            ctx.label('pooled')
    want = np.zeros((2 ** n, 2 ** n))
    for lab in labels:
        want[:, int(lab, 2)] = tot[lab] / tot[lab].sum()
    mit, fit = fitted(case, r, n, 'complete', exps, meta)
    ctx.check(fit.mitigator is mit and isinstance(mit, CompleteExpvalMeasMitigator), 'mitigator type')
    if np.linalg.cond(want) > 1e3:
        return
    figures(ctx, mit, want, col_gamma(want), None, case['delta'], case['shots'])
    for sub in some_subsets(n, case['k'], r):
        a = expv.marginal_assignment(want, n, sub)
        if np.linalg.cond(a) < 1e3:
            figures(ctx, mit, a, col_gamma(a), sub, case['delta'], case['shots'])
    figures(ctx, mit, want, col_gamma(want), None, case['delta'], case['shots'])


@facet('tensored', FIT, 500, 3000,
       'product noise; non-trivial: at least two qubits, noisy', shards=2)
def tensored(case, ctx):
    n = case['n']
    r = sim.rs(case['seed'])
    ctx.nontrivial(n > 1 and case['eps'] > 0)
    mats = expv.rand_flips(n, r, case['eps'])
    exps, meta = noisy_results(n, labels_of(n, 'complete' if case['allcal'] else 'tensored'), expv.kron_all(mats), SHOTS)
    mit, fit = fitted(case, r, n, 'tensored', exps, meta)
    ctx.check(fit.mitigator is mit and isinstance(mit, TensoredExpvalMeasMitigator), 'mitigator type')
    full = expv.kron_all(mats)
    figures(ctx, mit, full, col_gamma(full), None, case['delta'], case['shots'])
    for sub in some_subsets(n, case['k'], r):
        a = expv.kron_all([mats[q] for q in sub])
        figures(ctx, mit, a, col_gamma(a), sub, case['delta'], case['shots'])
    figures(ctx, mit, full, col_gamma(full), None, case['delta'], case['shots'])


@facet('markov', FIT, 300, 2000,
       'product noise or two-qubit correlated generator noise; non-trivial: noisy', shards=4)
def markov(case, ctx):
    n = case['n']
    r = sim.rs(case['seed'])
    ctx.nontrivial(case['eps'] > 0)
    gens = expv.standard_generators(n)
    corr = n == 2 and case['k'] > 1
    top = case['eps'] * 0.6
    small = r.rand() < 0.4
    rates = [float(r.rand() * top if not small else 10 ** r.uniform(-4, -1) * (top > 0)) if (corr or len(g[2]) == 1) else 0.0 for g in gens]
    rates = [x if x > 1e-4 else 0.0 for x in rates]
    amat = expv.expm(expv.generator_dense(gens, rates, range(n)))
    if corr:
        ctx.label('correlated')
    exps, meta = noisy_results(n, labels_of(n, 'complete' if case['allcal'] else 'CTMP'), amat, 10 ** 13)
    # entries below one count in 1e13 vanish; tolerance accordingly
    mit, fit = fitted(case, r, n, r.choice(['CTMP', 'ctmp']), exps, meta)
    ctx.check(fit.mitigator is mit and isinstance(mit, CTMPExpvalMeasMitigator), 'mitigator type')
    gamma = np.max(-np.diag(expv.generator_dense(gens, rates, range(n))))
    got = np.asarray(mit.generator_matrix().todense())
    # rates below the documented threshold (1e-5) are dropped
    slack = 2e-6
    ctx.close(got, expv.generator_dense(gens, rates, range(n)), slack, 'generator matrix')
    ctx.close(mit.noise_strength(), gamma, slack, 'noise strength')
    ctx.close(mit.assignment_matrix(), amat, slack, 'assignment matrix')
    ctx.close(mit.mitigation_matrix(), np.linalg.inv(amat), slack * 10 * np.linalg.cond(amat), 'mitigation matrix')
    ctx.close(mit.assignment_fidelity(), np.mean(np.diag(amat)), slack, 'fidelity')
    big = np.exp(2 * gamma)
    ctx.close(mit.stddev_upper_bound(case['shots']), big / math.sqrt(case['shots']), 1e-3 * big, 'bound')
    for sub in some_subsets(n, case['k'], r):
        gs = expv.generator_dense(gens, rates, sub)
        ctx.close(mit.assignment_matrix(sub), expv.expm(gs), slack, 'assignment matrix on %s' % sub)
        ctx.close(mit.mitigation_matrix(sub), expv.expm(-gs), slack * 10 * np.linalg.cond(expv.expm(gs)), 'mitigation matrix on %s' % sub)


@facet('markov_model', FIT, 300, 1500,
       'mitigators built directly from generators and rates; non-trivial: at least two qubits, noisy', shards=1)
def markov_model(case, ctx):
    n = case['n']
    r = sim.rs(case['seed'])
    gens = expv.standard_generators(n)
    rates = [float(0.01 + r.rand() * 0.1) if r.rand() < 0.6 else 0.0 for _ in gens]
    order = [int(i) for i in r.permutation(len(gens))]
    gens, rates = [gens[i] for i in order], [rates[i] for i in order]
    ctx.nontrivial(n > 1 and any(rates))
    mit = CTMPExpvalMeasMitigator(list(gens), list(rates), num_qubits=n)
    for sub in [list(range(n))] + some_subsets(n, case['k'], r) + [list(range(n))]:
        g = expv.generator_dense(gens, rates, sub)
        kw = {} if len(sub) == n else {'qubits': sub}
        ctx.close(np.asarray(mit.generator_matrix(**kw).todense()), g, 1e-12, 'generator on %s' % sub)
        gamma = max(0.0, np.max(-np.diag(g)))
        ctx.close(mit.noise_strength(**kw), gamma, 1e-12, 'noise strength on %s' % sub)
        figures(ctx, mit, expv.expm(g), np.exp(2 * gamma) if not kw else None, kw.get('qubits'), case['delta'], case['shots'])


def local_amat(data, n, qubits):
    """assignment matrix on the listed qubits (first listed leftmost) from the shots with no error on the others"""
    k = len(qubits)
    rest = [q for q in range(n) if q not in qubits]

    def index(v):
        return int(''.join(str((v >> q) & 1) for q in qubits), 2)
    m = np.zeros((2 ** k, 2 ** k))
    for cal, cnt in data:
        for y, c in cnt.items():
            if all((y >> q) & 1 == (cal >> q) & 1 for q in rest):
                m[index(y), index(cal)] += c
    return m / m.sum(axis=0)


@facet('arbitrary', st.fixed_dictionaries({'n': st.sampled_from([3, 2, 4, 3, 1, 6]), 'seed': st.integers(0, 2 ** 32 - 1), 'eps': st.sampled_from([0.1, 0.25]),
                                          'method': st.sampled_from(['tensored', 'CTMP']), 'allcal': st.booleans()}), 300, 3000,
       'arbitrary correlated calibration data: local matrices come from the shots without errors on the other qubits; non-trivial: three qubits or more',
       shards=2)
def arbitrary(case, ctx):
    n = case['n']
    r = sim.rs(case['seed'])
    ctx.nontrivial(n > 2)
    amat = expv.rand_full(n, r, case['eps'])
    labels = labels_of(n, 'complete' if case['allcal'] else case['method'])
    exps, meta, data = [], [], []
    shots = int(r.choice([10 ** 4, 10 ** 6, 10 ** 9]))
    for i, lab in enumerate(labels):
        cnt = {y: int(round(p * shots)) for y, p in enumerate(amat[:, int(lab, 2)]) if round(p * shots) > 0}
        exps.append(qres.experiment('cal%d' % i, cnt, [('meas', n)]))
        meta.append({'experiment': 'meas_mit', 'cal': lab})
        data.append((int(lab, 2), cnt))
    mit, _ = fitted(case, r, n, case['method'], exps, meta)
    if case['method'] == 'tensored':
        for q in range(n):
            ctx.close(mit.assignment_matrix([q]), local_amat(data, n, [q]), 1e-9, 'matrix of qubit %d' % q)
        ctx.close(mit.assignment_matrix(), expv.kron_all([local_amat(data, n, [q]) for q in range(n)]), 1e-9, 'matrix of all qubits')
        return
    # Markov process: rates are the off-diagonal elements of the logarithm of the local matrices, negative ones set to zero

    def log_of(qs):
        g = expv.logm(local_amat(data, n, qs))
        return np.real(g), np.abs(np.imag(g)).max()
    gens, rates = expv.standard_generators(n), []
    for b, a, c in gens:
        if len(c) == 2:
            g, im = log_of(list(c))
            rates.append(max(0.0, g[int(b, 2), int(a, 2)]))
        elif n == 1:
            g, im = log_of([0])
            rates.append(max(0.0, g[int(b), int(a)]))
        else:
            vals = []
            for k in range(n):
                if k != c[0]:
                    g, im = log_of([c[0], k])
                    vals += [max(0.0, g[int(b + z, 2), int(a + z, 2)]) for z in '01']
            rates.append(float(np.mean(vals)))
    want = expv.generator_dense(gens, rates, range(n))
    ctx.close(np.asarray(mit.generator_matrix().todense()), want, 1e-5 * 4 ** n, 'generator of arbitrary data')


@facet('insufficient', st.fixed_dictionaries({'n': st.integers(1, 3), 'seed': st.integers(0, 2 ** 31)}), 40, 400,
       'calibration data missing a prepared state is refused; non-trivial: every case')
def insufficient(case, ctx):
    n = case['n']
    r = sim.rs(case['seed'])
    labels = labels_of(n, 'complete')
    drop = int(r.randint(2 ** n))
    exps, meta = noisy_results(n, [l for i, l in enumerate(labels) if i != drop], np.eye(2 ** n), 1000)
    ctx.nontrivial()
    fit = ExpvalMeasMitigatorFitter(qres.result(exps), meta)
    ctx.raises(QiskitError, lambda: fit.mitigator, 'mitigator before fit')
    ctx.raises(QiskitError, lambda: fit.fit(method='complete'), 'incomplete calibration accepted')
    ctx.raises(QiskitError, lambda: fit.fit(method='nonsense'), 'unknown method accepted')
