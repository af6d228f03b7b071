"""C08: tomography output is physical and optimal for any data."""
import numpy as np
from hypothesis import strategies as st
from qiskit import QiskitError
from qiskit.ignis.verification.tomography import (StateTomographyFitter, ProcessTomographyFitter, TomographyFitter)
from qiskit.ignis.verification.tomography.fitters.lstsq_fit import make_positive_semidefinite, lstsq_fit

import qres
import sim
import tomo
from harness import facet

ASSUMPTIONS = ['each setting has at least one shot and the settings are informationally complete',
               'least-squares fit: the closest positive matrix of equal trace to the weighted linear solution, rescaled to the requested trace',
               'conic solver (SCS): constraints to 2e-3, weighted residual within 2e-3 relative + 1e-4 of the best candidate']
PSD_TOL = 2e-3


@st.composite
def data_st(draw, kind):
    k = draw(st.integers(1, 2)) if kind == 'state' else 1
    mode = draw(st.sampled_from(['sampled', 'sampled', 'arbitrary', 'deterministic', 'uneven']))
    return {'k': k, 'mode': mode, 'seed': draw(st.integers(0, 10 ** 6)),
            'shots': draw(st.sampled_from([1, 5, 20, 100, 1000, 8192])),
            'rank': draw(st.integers(1, 4)), 'six': draw(st.booleans()),
            'weights': draw(st.booleans()), 'beta': draw(st.sampled_from([0.5, 0.5, 0.01, 0, 3.0])),
            'default': draw(st.integers(0, 3)) == 0}


def synth(case, kind):
    """(labels, counts arrays, true matrix) for state or process data."""
    r = sim.rs(case['seed'])
    k = case['k']
    d = 2 ** k
    ml = tomo.all_labels('XYZ', k)
    pl = tomo.all_labels(('Zp', 'Zm', 'Xp', 'Yp') if not case['six'] else ('Zp', 'Zm', 'Xp', 'Xm', 'Yp', 'Ym'), k)
    if kind == 'state':
        true = sim.rand_density(d, r, rank=min(case['rank'], d))
        labels = ml
        dists = [tomo.meas_probs(true, m, tomo.MEAS) for m in ml]
    else:
        kraus = sim.rand_kraus(d, r, k=min(case['rank'], 4))
        true = tomo.choi(kraus)
        labels = [(p, m) for p in pl for m in ml]
        dists = []
        for p, m in labels:
            rho = tomo.kron_label([tomo.PREP[x] for x in p])
            dists.append(tomo.meas_probs(sum(q @ rho @ q.conj().T for q in kraus), m, tomo.MEAS))
    counts = []
    for dist in dists:
        shots = case['shots']
        keys = sorted(dist)
        if case['mode'] == 'uneven':
            shots = int(r.randint(1, 2 * shots + 1))
        if case['mode'] == 'arbitrary':
            pv = r.dirichlet([0.5] * len(keys))
        elif case['mode'] == 'deterministic':
            pv = np.eye(len(keys))[r.randint(len(keys))]
        else:
            pv = np.clip([dist[x] for x in keys], 0, None)
        pv = np.array(pv) / np.sum(pv)
        cnt = r.multinomial(shots, pv)
        counts.append({x: int(c) for x, c in zip(keys, cnt) if c})
    return labels, counts, true


def design(labels, counts, kind, case):
    """Independent rows: (operator, frequency, weight)."""
    rows = []
    for lab, cnt in zip(labels, counts):
        prep, meas = (None, lab) if kind == 'state' else lab
        k = len(meas)
        shots = sum(cnt.values())
        raw = np.array([cnt.get(format(v, '0%db' % k), 0) for v in range(2 ** k)], dtype=float)
        beta = case['beta']
        if beta == 0 and ((raw == 0).any() or (raw == shots).any()):
            beta = 0.5
        p = (raw + beta) / (shots + len(raw) * beta)
        w = np.sqrt(shots / (p * (1 - p))) if case['weights'] else np.ones(len(raw))
        for v in range(2 ** k):
            op = tomo.kron_label([tomo.MEAS[meas[j]][(v >> j) & 1] for j in range(k)])
            if prep is not None:
                op = np.kron(tomo.kron_label([tomo.PREP[x] for x in prep]).T, op)
            rows.append((op, raw[v] / shots, w[v]))
    return rows


def herm_basis(d):
    out = []
    for i in range(d):
        for j in range(d):
            m = np.zeros((d, d), dtype=complex)
            if i == j:
                m[i, i] = 1
            elif i < j:
                m[i, j] = m[j, i] = 1 / np.sqrt(2)
            else:
                m[i, j], m[j, i] = 1j / np.sqrt(2), -1j / np.sqrt(2)
            out.append(m)
    return out


def linear_solution(rows, trace=None):
    """Hermitian matrix minimising the weighted residual (optionally with fixed trace), from real
    normal equations in an orthonormal Hermitian basis."""
    d = rows[0][0].shape[0]
    basis = herm_basis(d)
    a = np.array([[w * np.real(np.trace(op @ b)) for b in basis] for op, _, w in rows])
    y = np.array([w * f for _, f, w in rows])
    scale = np.abs(a).max()
    a, y = a / scale, y / scale
    if trace is None:
        x = np.linalg.lstsq(a, y, rcond=None)[0]
    else:
        t = np.array([np.real(np.trace(b)) for b in basis])
        x0 = t * trace / (t @ t)
        null = np.linalg.svd(t[None, :])[2][1:].T
        x = x0 + null @ np.linalg.lstsq(a @ null, y - a @ x0, rcond=None)[0]
    return sum(c * b for c, b in zip(x, basis))


def project_psd(m):
    """Closest PSD matrix (Frobenius) with the same trace."""
    m = (m + m.conj().T) / 2
    v, w = np.linalg.eigh(m)
    total = v.sum()
    u = np.sort(v)[::-1]
    css = (np.cumsum(u) - total) / np.arange(1, len(u) + 1)
    rho = np.nonzero(u - css > 0)[0][-1]
    x = np.maximum(v - css[rho], 0)
    return (w * x) @ w.conj().T


def residual(rows, m):
    tot = sum(w * w for _, _, w in rows)
    return np.sqrt(sum((w * (np.real(np.trace(op @ m)) - f)) ** 2 for op, f, w in rows) / tot)


def gradient(rows, m):
    tot = sum(w * w for _, _, w in rows)
    return sum(2 * w * w * (np.real(np.trace(op @ m)) - f) * op for op, f, w in rows) / tot


def fitter(labels, counts, kind, cls=None):
    exps = [qres.experiment(str(l), c, [('c0', len(l) if kind == 'state' else len(l[1]))]) for l, c in zip(labels, counts)]
    cls = cls or {'state': StateTomographyFitter, 'process': ProcessTomographyFitter}[kind]
    return cls(qres.result(exps), [str(l) for l in labels])


def kwargs(case):
    if case['default']:
        case['weights'], case['beta'] = True, 0.5
        return {}
    return {'standard_weights': case['weights'], 'beta': case['beta']}


def mark(case, ctx, lin):
    ctx.label(case['mode'])
    neg = np.linalg.eigvalsh((lin + lin.conj().T) / 2)[0] < -1e-6
    if neg:
        ctx.label('linear solution outside the cone')
    ctx.nontrivial(neg)


def lstsq_body(case, ctx, kind):
    kw = kwargs(case)
    labels, counts, _ = synth(case, kind)
    rows = design(labels, counts, kind, case)
    lin = linear_solution(rows)
    mark(case, ctx, lin)
    fit = fitter(labels, counts, kind)
    got = fit.fit(method='lstsq', **kw)
    trace = 1
    if kind == 'process':
        got, trace = got.data, 2 ** case['k']
    want = project_psd(lin)
    want = want * trace / np.trace(want)
    ctx.close(got, got.conj().T, 1e-8, 'fitted matrix is not Hermitian')
    ctx.check(np.linalg.eigvalsh(got)[0] > -1e-9, 'negative eigenvalue %s', np.linalg.eigvalsh(got)[0])
    ctx.close(np.trace(got), trace, 1e-8, 'trace')
    ctx.close(got, want, 1e-6, 'closest positive matrix to the weighted linear solution')
    again = fit.fit(method='lstsq', **kw)
    ctx.close(again, got, 0, 'second fit differs')


@facet('state_lstsq', data_st('state'), 300, 5000, 'arbitrary counts; non-trivial: linear solution not positive', shards=4)
def state_lstsq(case, ctx):
    lstsq_body(case, ctx, 'state')


@facet('process_lstsq', data_st('process'), 150, 2500, 'arbitrary counts; non-trivial: linear solution not positive', shards=4)
def process_lstsq(case, ctx):
    lstsq_body(case, ctx, 'process')


@facet('state_cvx', data_st('state'), 120, 2000, 'arbitrary counts; non-trivial: linear solution not positive', shards=4)
def state_cvx(case, ctx):
    kw = kwargs(case)
    labels, counts, true = synth(case, 'state')
    rows = design(labels, counts, 'state', case)
    mark(case, ctx, linear_solution(rows))
    got = fitter(labels, counts, 'state').fit(method='cvx', **kw)
    ctx.close(got, got.conj().T, 1e-4, 'Hermitian')
    ctx.check(np.linalg.eigvalsh(got)[0] > -PSD_TOL, 'negative eigenvalue %s', np.linalg.eigvalsh(got)[0])
    ctx.close(np.trace(got), 1, PSD_TOL, 'trace')
    # optimality certificate: for the nearest physical state x, f(x) - min f <= <grad, x> - lambda_min(grad)
    x = project_psd(got / np.trace(got).real)
    g = gradient(rows, x)
    gap = np.real(np.trace(g @ x)) - np.linalg.eigvalsh((g + g.conj().T) / 2)[0]
    f = residual(rows, x) ** 2
    best = max(f - gap, 0)
    ctx._dev(np.sqrt(f) - np.sqrt(best), 2e-3 * np.sqrt(f) + 3e-4, 'certified distance from optimum')
    if np.sqrt(f) > np.sqrt(best) + 2e-3 * np.sqrt(f) + 3e-4:
        # not certified: decide by explicit search from x
        best = descend(rows, x)
        ctx.label('searched')
        ctx.check(np.sqrt(f) <= best + 3e-3 * np.sqrt(f) + 3e-4, 'weighted residual %s, a physical state has %s', np.sqrt(f), best)
    ctx.check(np.sqrt(f) <= residual(rows, true) * 1.003 + 3e-4, 'the true state fits better')


def descend(rows, x, steps=400):
    """Projected gradient search over states."""
    lip = np.linalg.norm(sum(2 * w * w * np.outer(op.ravel(), op.ravel().conj()) for op, _, w in rows), 2) / sum(w * w for _, _, w in rows)
    best, y, xp, t = residual(rows, x), x, x, 1.0
    tr = np.trace(x).real
    for _ in range(steps):
        xn = project_psd(y - gradient(rows, y) / lip)
        xn = xn * tr / np.trace(xn).real
        tn = (1 + np.sqrt(1 + 4 * t * t)) / 2
        y = xn + (t - 1) / tn * (xn - xp)
        xp, t = xn, tn
        best = min(best, residual(rows, xn))
    return best


def tp_error(j, d):
    t = j.reshape(d, d, d, d)
    return np.abs(np.einsum('aibi->ab', t) - np.eye(d)).max()


@facet('process_cvx', data_st('process'), 80, 1200, 'arbitrary counts; non-trivial: linear solution not positive', shards=4)
def process_cvx(case, ctx):
    kw = kwargs(case)
    labels, counts, true = synth(case, 'process')
    rows = design(labels, counts, 'process', case)
    mark(case, ctx, linear_solution(rows))
    d = 2 ** case['k']
    got = fitter(labels, counts, 'process').fit(method='cvx' if case['seed'] % 2 else 'auto', **kw).data
    ctx.close(got, got.conj().T, 1e-4, 'Hermitian')
    ctx.check(np.linalg.eigvalsh((got + got.conj().T) / 2)[0] > -PSD_TOL, 'negative eigenvalue')
    ctx.close(np.trace(got), d, PSD_TOL, 'trace')
    ctx._dev(tp_error(got, d), PSD_TOL, 'tp')
    ctx.check(tp_error(got, d) < PSD_TOL, 'not trace preserving by %s', tp_error(got, d))
    f = residual(rows, got)
    slack = 2e-3 * f + 3e-4
    r = sim.rs(case['seed'] + 1)
    ctx.check(f <= residual(rows, true) + slack, 'the true channel fits better: %s < %s', residual(rows, true), f)
    for i in range(8):
        cand = true if i == 0 else tomo.choi(sim.rand_kraus(d, r, k=1 + i % 4))
        for t in (0.03, 0.2):
            val = residual(rows, (1 - t) * got + t * cand)
            ctx.check(val >= f - slack, 'moving towards another channel lowers the residual from %s to %s', f, val)


@st.composite
def option_st(draw):
    c = draw(data_st('state'))
    c['psd'] = draw(st.booleans())
    c['trace'] = draw(st.sampled_from([None, 1, 2, 0.5]))
    c['method'] = draw(st.sampled_from(['lstsq', 'lstsq', 'cvx']))
    c['k'] = 1 if c['method'] == 'cvx' else c['k']
    c['default'] = False
    return c


@facet('options', option_st(), 200, 3000, 'psd and trace options of the general fitter; non-trivial: linear solution not positive', shards=4)
def options(case, ctx):
    labels, counts, _ = synth(case, 'state')
    rows = design(labels, counts, 'state', case)
    mark(case, ctx, linear_solution(rows))
    fit = fitter(labels, counts, 'state', lambda r, c: TomographyFitter(r, c, prep_basis=None) if False else TomographyFitter(r, c))
    got = fit.fit(method=case['method'], psd=case['psd'], trace=case['trace'], **kwargs(case))
    ctx.label('psd=%s trace=%s' % (case['psd'], case['trace']))
    lin = linear_solution(rows)
    if case['method'] == 'lstsq':
        want = project_psd(lin) if case['psd'] else lin
        if case['trace'] is not None:
            want = want * case['trace'] / np.trace(want)
        ctx.close(got, want, 1e-6 * max(1, np.abs(want).max()), 'least-squares fit with options')
    else:
        tr = case['trace']
        if not case['psd']:
            want = linear_solution(rows, tr)
            ctx.close(got, want, 1e-2, 'unconstrained conic fit')
        else:
            ctx.check(np.linalg.eigvalsh(got)[0] > -PSD_TOL, 'negative eigenvalue')
        if tr is not None:
            ctx.close(np.trace(got), tr, PSD_TOL, 'trace')


@st.composite
def herm_case(draw):
    d = draw(st.sampled_from([2, 3, 4, 8]))
    return {'d': d, 'seed': draw(st.integers(0, 10 ** 6)), 'shift': draw(st.sampled_from([-0.3, 0.0, 0.2, 1.0])),
            'kind': draw(st.sampled_from(['gue', 'degenerate', 'onebad', 'psd']))}


@facet('projection', herm_case(), 300, 5000, 'random Hermitian matrices of positive trace; non-trivial: not positive')
def projection(case, ctx):
    d = case['d']
    r = sim.rs(case['seed'])
    u = sim.rand_unitary(d, r)
    if case['kind'] == 'gue':
        v = r.normal(size=d)
    elif case['kind'] == 'degenerate':
        v = r.choice([-0.5, 0.25, 1.0], size=d)
    elif case['kind'] == 'onebad':
        v = np.abs(r.normal(size=d))
        v[0] = -r.uniform(0, 2)
    else:
        v = np.abs(r.normal(size=d))
    v = v + case['shift']
    if v.sum() <= 0.05:
        v = v + (0.3 - v.sum()) / d + 0.1
    m = (u * v) @ u.conj().T
    m = (m + m.conj().T) / 2
    keep = m.copy()
    ctx.nontrivial(v.min() < -1e-9)
    got = make_positive_semidefinite(m)
    ctx.close(got, project_psd(m), 1e-9, 'nearest positive matrix')
    ctx.close(np.trace(got), v.sum(), 1e-9, 'trace kept')
    ctx.close(m, keep, 0, 'argument modified')
    ctx.close(make_positive_semidefinite(got), got, 1e-9, 'idempotent')
    ctx.raises(ValueError, lambda: make_positive_semidefinite(m, epsilon=-0.1))


@facet('errors', data_st('state'), 10, 50, 'bad options are rejected')
def errors(case, ctx):
    labels, counts, _ = synth(case, 'state')
    fit = fitter(labels, counts, 'state')
    ctx.raises(QiskitError, lambda: fit.fit(method='magic'))
    ctx.raises(ValueError, lambda: fit.fit(method='lstsq', beta=-1))
    ctx.nontrivial()
    _ = lstsq_fit
