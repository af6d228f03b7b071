"""C04: error-mitigated expectation values are exact for the modelled noise."""
import numpy as np
from hypothesis import strategies as st
from qiskit.result import Counts
from qiskit.ignis.mitigation import (expectation_value, CompleteExpvalMeasMitigator,
                                     TensoredExpvalMeasMitigator, CTMPExpvalMeasMitigator)

import expv
import sim
from harness import facet

ASSUMPTIONS = ['complete model: qubits that are not listed are in state 0 (documented marginal)',
               'Markov model on a subset: only generators acting inside the subset (documented)',
               'sampled Markov estimates are judged at six standard deviations of the documented sampling scheme']

SHOTS = 10 ** 9


@st.composite
def case_st(draw, nmax=5):
    n = draw(st.sampled_from([m for m in (3, 2, 4, 3, 2, 5, 1, 6, 7) if m <= nmax]))
    k = draw(st.sampled_from([m for m in (2, 3, n, n, max(1, n - 1), 1) if m <= n]))
    order = draw(st.permutations(list(range(n))))
    return {'n': n, 'qubits': list(order[:k]), 'give_qubits': draw(st.booleans()),
            'extra_bits': draw(st.sampled_from([0, 1, 2, 0, 1, 2, 6])), 'bit_perm': draw(st.integers(0, 10 ** 6)),
            'diag': draw(st.sampled_from(['none', 'random', 'list', 'proj', 'parity'])),
            'seed': draw(st.integers(0, 2 ** 32 - 1)), 'eps': draw(st.sampled_from([0.1, 0.3, 0.2, 0.0])),
            'func': draw(st.booleans()), 'space': draw(st.booleans()), 'asc': draw(st.sampled_from([False, False, True]))}


def prepare(case, r):
    qubits = list(case['qubits'])
    k = len(qubits)
    if not case['give_qubits']:
        qubits = list(range(k))
    elif case['asc']:
        qubits = sorted(qubits)
    d = None
    if case['diag'] in ('random', 'list'):
        d = r.normal(size=2 ** k)
    elif case['diag'] == 'proj':
        d = np.zeros(2 ** k)
        d[r.randint(2 ** k)] = 1.0
    elif case['diag'] == 'parity':
        m = r.randint(2 ** k)
        d = np.array([(-1.0) ** bin(x & m).count('1') for x in range(2 ** k)])
    dd = d if d is not None else np.array([(-1.0) ** bin(x).count('1') for x in range(2 ** k)])
    arg = list(d) if case['diag'] == 'list' else d
    return qubits, k, arg, dd


def spread(vec, k, case, r):
    """Put the k-bit distribution vec into counts over k + extra bits; returns counts, clbits, vec of counts."""
    total = k + case['extra_bits']
    bits = list(sim.rs(case['bit_perm']).permutation(total)[:k])
    bits = [int(b) for b in bits]
    use = case['extra_bits'] > 0 or case['bit_perm'] % 2
    if not use:
        bits = list(range(k))
        total = k
    counts = {}
    for x in range(2 ** k):
        rest = 2 ** (total - k)
        w = r.dirichlet(np.ones(rest)) if rest > 1 else np.ones(1)
        others = [b for b in range(total) if b not in bits]
        for e in range(rest):
            v = sum(((x >> i) & 1) << b for i, b in enumerate(bits)) + sum(((e >> i) & 1) << b for i, b in enumerate(others))
            c = int(round(vec[x] * w[e] * SHOTS))
            if c:
                key = format(v, '0%db' % total)
                if use and case['space'] and total > 1:
                    key = key[:1] + ' ' + key[1:]
                counts[key] = c
    pooled = np.zeros(2 ** k)
    for key, c in counts.items():
        v = int(key.replace(' ', ''), 2)
        pooled[sum(((v >> b) & 1) << i for i, b in enumerate(bits))] += c
    keys = list(counts)
    r.shuffle(keys)
    counts = {q: counts[q] for q in keys}
    return counts, (bits if use else None), pooled


def call(case, counts, mit, diag, qubits, clbits):
    kw = {}
    if diag is not None:
        kw['diagonal'] = diag
    if case['give_qubits']:
        kw['qubits'] = list(qubits) if case['seed'] % 2 else tuple(qubits)
    if clbits is not None:
        kw['clbits'] = list(clbits)
    if mit is None or case['func']:
        return expectation_value(counts, meas_mitigator=mit, **kw)
    return mit.expectation_value(counts, **kw)


def used_before(mit, case, r, n):
    """Ask other questions first: the answer must not depend on what was asked before."""
    if r.rand() < 0.5:
        return
    for _ in range(r.randint(1, 4)):
        k = min(n, len(case['qubits'])) if r.rand() < 0.6 else r.randint(1, n + 1)
        sub = [int(q) for q in r.permutation(n)[:k]]
        mit.expectation_value({'0' * k: 5, '1' * k: 3}, qubits=sub)
    if r.rand() < 0.3:
        mit.mitigation_matrix()
        mit.assignment_matrix([int(r.randint(n))])


def stats(coeffs, p, shots):
    e = coeffs @ p
    return e, np.sqrt(max((coeffs ** 2 @ p - e ** 2) / shots, 0))


def same(ctx, got, want, scale, msg):
    ctx.close(got[0], want[0], 1e-7 * scale, msg + ' value')
    # sd is sqrt(variance/shots); the variance suffers cancellation of order 1e-14*scale^2
    ctx.close(got[1], want[1], 3e-7 * scale / np.sqrt(1e5), msg + ' standard deviation')


@facet('plain', case_st(7), 1000, 6000,
       'random counts, bit selection and diagonal, no mitigation; non-trivial: at least two outcomes', shards=1)
def plain(case, ctx):
    r = sim.rs(case['seed'])
    qubits, k, arg, dd = prepare(case, r)
    global SHOTS
    vec = r.dirichlet(np.ones(2 ** k) * 0.5)
    counts, clbits, pooled = spread(vec, k, case, r)
    scaled = {q: max(1, c // 10 ** 6) if case['seed'] % 5 else c * 40 for q, c in counts.items()}
    pooled = np.zeros(2 ** k)
    for key, c in scaled.items():
        v = int(key.replace(' ', ''), 2)
        b = clbits if clbits is not None else range(k)
        pooled[sum(((v >> bb) & 1) << i for i, bb in enumerate(b))] += c
    keep = dict(scaled)
    ctx.nontrivial(len(scaled) > 1)
    got = call(case, Counts(scaled) if r.rand() < 0.3 and clbits is None else scaled, None, arg, qubits, clbits)
    want = stats(dd, pooled / pooled.sum(), pooled.sum())
    ctx.close(got[0], want[0], 1e-10 * (1 + np.abs(dd).max()), 'expectation value')
    ctx.close(got[1], want[1], 1e-7 * (1 + np.abs(dd).max()), 'standard deviation')
    ctx.check(scaled == keep, 'counts modified')


def run_linear(case, ctx, r, mit, amat_asc, qubits, k, arg, dd):
    """amat_asc: noise on sorted(qubits)."""
    true = r.dirichlet(np.ones(2 ** k) * 0.5)
    asc = sorted(qubits)
    noisy_asc = amat_asc @ expv.permute_vec(true, qubits, asc)
    vec = expv.permute_vec(noisy_asc, asc, qubits)
    counts, clbits, pooled = spread(vec, k, case, r)
    keep = dict(counts)
    got = call(case, counts, mit, arg, qubits, clbits)
    ctx.check(counts == keep, 'counts modified')
    inv = np.linalg.inv(amat_asc)
    c_asc = inv.T @ expv.permute_vec(dd, qubits, asc)
    coeffs = expv.permute_vec(c_asc, asc, qubits)
    scale = np.abs(coeffs).max() + np.abs(dd).max()
    # exact statistics of the given counts
    same(ctx, got, stats(coeffs, pooled / pooled.sum(), pooled.sum()), scale, 'mitigated')
    # and the noiseless truth, up to the rounding of counts
    ctx.close(got[0], dd @ true, 1e-6 * scale, 'noiseless expectation recovered')
    if case['give_qubits'] and qubits != asc:
        ctx.label('qubits not ascending')
    if k < case['n']:
        ctx.label('proper subset')
    if clbits is not None and clbits != sorted(clbits):
        ctx.label('clbits not ascending')


@facet('complete', case_st(6), 1000, 6000,
       'random correlated noise; non-trivial: noisy, at least two qubits', shards=2)
def complete(case, ctx):
    r = sim.rs(case['seed'])
    qubits, k, arg, dd = prepare(case, r)
    amat = expv.rand_full(case['n'], r, case['eps'])
    ctx.nontrivial(k > 1 and case['eps'] > 0)
    mit = CompleteExpvalMeasMitigator(amat.copy())
    used_before(mit, case, r, case['n'])
    run_linear(case, ctx, r, mit, expv.marginal_assignment(amat, case['n'], qubits), qubits, k, arg, dd)


@facet('tensored', case_st(7), 1000, 6000,
       'random product noise; non-trivial: noisy, at least two qubits', shards=2)
def tensored(case, ctx):
    r = sim.rs(case['seed'])
    qubits, k, arg, dd = prepare(case, r)
    mats = expv.rand_flips(case['n'], r, 0.4 if case['eps'] else 0.0)
    ctx.nontrivial(k > 1 and case['eps'] > 0)
    mit = TensoredExpvalMeasMitigator([m.copy() for m in mats])
    used_before(mit, case, r, case['n'])
    run_linear(case, ctx, r, mit, expv.kron_all([mats[q] for q in sorted(qubits)]), qubits, k, arg, dd)


@facet('markov', case_st(3), 320, 2000,
       'random Markov generator rates, sampled estimator; non-trivial: at least two qubits with noise', shards=8)
def markov(case, ctx, total=20000):
    r = sim.rs(case['seed'])
    qubits, k, arg, dd = prepare(case, r)
    n = case['n']
    gens = expv.standard_generators(n)
    rates = [float(x) if y < 0.6 else 0.0 for x, y in zip(r.rand(len(gens)) * (0.25 if n < 3 else 0.12), r.rand(len(gens)))]
    if case['eps'] == 0:
        rates = [0.0] * len(gens)
    ctx.nontrivial(k > 1 and any(rates))
    mit = CTMPExpvalMeasMitigator(gens, rates, num_qubits=n, seed=case['seed'] % 1000)
    used_before(mit, case, r, n)
    asc = sorted(qubits)
    g = expv.generator_dense(gens, rates, asc)
    gamma = max(-np.diag(g).min(), 0)
    amat = expv.expm(g)
    true = r.dirichlet(np.ones(2 ** k) * 0.3)
    vec = expv.permute_vec(amat @ expv.permute_vec(true, qubits, asc), asc, qubits)
    counts, clbits, _ = spread(np.maximum(vec, 0), k, case, r)
    counts = {q: max(1, int(round(c * total / SHOTS))) for q, c in counts.items()}
    pooled = np.zeros(2 ** k)
    for key, c in counts.items():
        v = int(key.replace(' ', ''), 2)
        b = clbits if clbits is not None else range(k)
        pooled[sum(((v >> bb) & 1) << i for i, bb in enumerate(b))] += c
    shots = pooled.sum()
    keep = dict(counts)
    got = call(case, counts, mit, arg, qubits, clbits)
    ctx.check(counts == keep, 'counts modified')
    want = expv.permute_vec(dd, qubits, asc) @ np.linalg.inv(amat) @ expv.permute_vec(pooled / shots, qubits, asc)
    sigma = np.abs(dd).max() * np.exp(gamma) / np.sqrt(max(1600, shots))
    ctx.check(abs(got[0] - want) <= 6 * sigma + 1e-9,
              'sampled mitigated value %s, exact %s, sigma %s', got[0], want, sigma)
    ctx.close(got[1], np.exp(2 * gamma) / np.sqrt(shots), 1e-9 * np.exp(2 * gamma), 'standard deviation bound')


@facet('markov_large', case_st(3), 40, 400,
       'as markov with up to 300000 shots, so that the sampling error is small; non-trivial: at least two qubits with noise', shards=8)
def markov_large(case, ctx):
    markov(case, ctx, total=40000 + case['bit_perm'] * 13 % 260000)
