"""C03: readout mitigation inverts the calibrated noise and preserves shots."""
import copy
import numpy as np
from hypothesis import strategies as st
from qiskit import QiskitError
from qiskit.ignis.mitigation.measurement import (CompleteMeasFitter, TensoredMeasFitter,
                                                 MeasurementFilter, TensoredFilter)

import qres
import sim
from harness import facet

ASSUMPTIONS = ['calibration matrices are column-stochastic with error weight below 0.45 (condition number bounded)',
               'least-squares solutions are compared at a relative tolerance of 1e-4 of the shots (times the condition number), objective at 1e-8 plus 1e-5 of its square root, totals at 1e-8']

X_TOL = 1e-4      # relative to shots, times the condition number
F_TOL = 1e-8      # relative to shots**2


def noise_matrix(d, r, eps):
    m = (1 - eps) * np.eye(d)
    for j in range(d):
        m[:, j] += eps * r.dirichlet(np.ones(d) * r.choice([0.3, 1.0, 5.0]))
    return m


def counts_table(d, r, kind, shots):
    if kind == 'point':
        x = np.zeros(d)
        x[r.randint(d)] = 1
    elif kind == 'ghz':
        x = np.zeros(d)
        x[0] = x[-1] = 0.5
    elif kind == 'sparse':
        x = r.dirichlet(np.ones(d)) * (r.rand(d) < 0.5)
        if x.sum() == 0:
            x[0] = 1
    else:
        x = r.dirichlet(np.ones(d))
    return np.round(x / x.sum() * shots)


def proj_simplex(v, s):
    u = np.sort(v)[::-1]
    c = (np.cumsum(u) - s) / np.arange(1, len(v) + 1)
    k = np.nonzero(u - c > 0)[0][-1]
    return np.maximum(v - c[k], 0)


def reference_ls(a, y):
    """(x, lower bound on the optimum) of min |Ax-y|^2 on {x>=0, sum x = sum y}; y scaled to sum one."""
    lip = np.linalg.norm(a, 2) ** 2
    x = proj_simplex(np.linalg.solve(a, y), 1.0)
    z, t = x.copy(), 1.0
    for _ in range(1500):
        g = a.T @ (a @ z - y)
        xn = proj_simplex(z - g / lip, 1.0)
        tn = (1 + np.sqrt(1 + 4 * t * t)) / 2
        if np.dot(z - xn, xn - x) > 0:
            tn, z = 1.0, xn
        else:
            z = xn + (t - 1) / tn * (xn - x)
        if np.max(np.abs(xn - x)) < 1e-13:
            x = xn
            break
        x, t = xn, tn
    g = 2 * a.T @ (a @ x - y)
    gap = g @ x - g.min()
    return x, np.sum((a @ x - y) ** 2) - max(gap, 0)


def vec(d, labels):
    return np.array([d.get(l, 0) for l in labels], dtype=float)


CASE = dict(seed=st.integers(0, 2 ** 32 - 1), eps=st.sampled_from([0.0, 0.02, 0.1, 0.25, 0.45]),
            kind=st.sampled_from(['sparse', 'point', 'ghz', 'dense']),
            shots=st.sampled_from([100, 1000, 8192, 37, 1, 10 ** 6, 10 ** 9]), perm=st.booleans(),
            consistent=st.booleans())


@st.composite
def complete_case(draw):
    c = {k: draw(v) for k, v in CASE.items()}
    c['n'] = draw(st.sampled_from([2, 3, 1, 4, 5]))
    c['m'] = draw(st.one_of(st.integers(2, 5), st.integers(6, 40)) if c['n'] < 3 else st.integers(2, 5))
    return c


def check_ls(ctx, x, a, y, msg):
    tot = y.sum()
    ctx.check(np.all(np.isfinite(x)), msg + ': not finite')
    ctx.check(x.min() >= -1e-9 * tot, msg + ': negative counts %s', x)
    ctx.close(x.sum() / tot, 1.0, 1e-8, msg + ': total')
    ref, low = reference_ls(a, y / tot)
    f = np.sum((a @ x / tot - y / tot) ** 2)
    ctx.check(f <= low + F_TOL + 1e-5 * np.sqrt(max(low, 0.0)), msg + ': objective %s but %s is reachable', f, low)
    ctx.close(x / tot, ref, X_TOL * max(1.0, np.linalg.cond(a)), msg + ': least-squares solution')


def gen(case, d):
    r = sim.rs(case['seed'])
    a = noise_matrix(d, r, case['eps'])
    true = counts_table(d, r, case['kind'], case['shots'])
    if true.sum() == 0:
        true[0] = case['shots']
    if case['consistent']:
        y = a @ true
    else:
        y = counts_table(d, r, 'sparse', case['shots'])
        if y.sum() == 0:
            y[-1] = case['shots']
    return r, a, true, y


@facet('complete', complete_case(), 500, 5000,
       'random stochastic calibration matrix and counts, all formats and methods; non-trivial: eps>0 and n>1', shards=4)
def complete(case, ctx):
    n = case['n']
    d = 2 ** n
    r, a, true, y = gen(case, d)
    labels = [format(i, '0%db' % n) for i in range(d)]
    if case['perm']:
        labels = [str(s) for s in r.permutation(labels)]
    ctx.nontrivial(n > 1 and case['eps'] > 0)
    ctx.label('consistent' if case['consistent'] else 'arbitrary')
    if r.rand() < 0.5:
        fit = CompleteMeasFitter(None, list(labels))
        fit.cal_matrix = a
        filt = fit.filter
    else:
        filt = MeasurementFilter(a, list(labels))
    if case['seed'] % 5 == 0:
        # a filter in use, then given another calibration
        old = MeasurementFilter(np.eye(d)[::-1], sorted(labels))
        old.apply({labels[0]: 7}, method='pseudo_inverse')
        old.cal_matrix, old.state_labels = a, list(labels)
        filt = old
        ctx.label('recalibrated')
    tot = y.sum()
    order = [str(s) for s in r.permutation(labels)]
    counts = {l: y[labels.index(l)] for l in order if y[labels.index(l)] != 0}
    keep = dict(counts)
    inv = np.linalg.solve(a, y)
    tol = 1e-9 * max(tot, 1) * np.linalg.cond(a)
    # --- inversion
    got = filt.apply(counts, method='pseudo_inverse')
    ctx.check(set(got) <= set(labels), 'unknown labels %s', set(got))
    ctx.close(vec(got, labels), inv, tol, 'pseudo inverse of counts')
    ctx.close(sum(got.values()), tot, tol, 'total of pseudo inverse')
    if case['consistent']:
        ctx.close(vec(got, labels), true, tol, 'noiseless counts recovered')
    lst = list(y)
    ctx.close(np.asarray(filt.apply(lst, method='pseudo_inverse')), inv, tol, 'pseudo inverse of a list')
    ctx.check(lst == list(y), 'input list modified')
    parts = [y] + [counts_table(d, r, 'dense', 50) for _ in range(case['m'] - 1)]
    long = list(np.concatenate(parts))
    klong = list(long)
    ctx.close(np.asarray(filt.apply(long, method='pseudo_inverse')),
              np.concatenate([np.linalg.solve(a, p) for p in parts]), tol + 1e-6, 'pseudo inverse of long list')
    ctx.check(long == klong, 'input list modified')
    # --- least squares
    if r.rand() < 0.2:
        ls = filt.apply(counts)
    elif r.rand() < 0.2:
        ls = filt.apply(counts, method=None)
    else:
        ls = filt.apply(counts, method='least_squares')
    check_ls(ctx, vec(ls, labels), a, y, 'least squares of counts')
    ctx.check(counts == keep, 'input counts modified')
    if n < 4:
        check_ls(ctx, np.asarray(filt.apply(list(y), method='least_squares')), a, y, 'least squares of list')
        xs = np.asarray(filt.apply(list(long), method='least_squares'))
        ctx.check(xs.shape == (d * case['m'],), 'shape %s', xs.shape)
        for k, p in enumerate(parts):
            check_ls(ctx, xs[k * d:(k + 1) * d], a, p, 'least squares of chunk %d' % k)
    if case['consistent']:
        ctx.close(vec(ls, labels) / tot, true / tot, X_TOL * max(1, np.linalg.cond(a)), 'noiseless counts recovered by least squares')
    # --- Result
    tabs = [np.round(p) for p in parts]
    exps = [qres.experiment('e%d' % i, {format(k, '0%db' % n): int(v) for k, v in
                                        enumerate(t[[labels.index(format(k, '0%db' % n)) for k in range(d)]]) if v},
                            [('c', n)]) for i, t in enumerate(tabs)]
    if all(t.sum() for t in tabs):
        res = qres.result(exps)
        snap = copy.deepcopy(res.to_dict())
        new = filt.apply(res, method='pseudo_inverse')
        for i, t in enumerate(tabs):
            ctx.close(vec(new.get_counts(i), labels), np.linalg.solve(a, t), 1e-8 * max(t.sum(), 1) * np.linalg.cond(a),
                      'result experiment %d' % i)
        ctx.check(res.to_dict() == snap, 'input result modified')
        one = qres.result(exps[:1])
        snap1 = copy.deepcopy(one.to_dict())
        ctx.close(vec(filt.apply(one, method='pseudo_inverse').get_counts(0), labels), np.linalg.solve(a, tabs[0]), 1e-8 * max(tabs[0].sum(), 1) * np.linalg.cond(a), 'result of one experiment')
        ctx.check(one.to_dict() == snap1, 'input result of one experiment modified')
        if n < 4:
            new = filt.apply(res, method='least_squares')
            for i, t in enumerate(tabs):
                check_ls(ctx, vec(new.get_counts(i), labels), a, t, 'least squares of result')
    if d > 2:
        ctx.raises(QiskitError, lambda: filt.apply(list(y)[:-1]), 'short list accepted')
    ctx.raises(QiskitError, lambda: filt.apply({'0' * (n + 1): 5}), 'foreign label accepted')


@st.composite
def tensored_case(draw):
    c = {k: draw(v) for k, v in CASE.items()}
    c['sizes'] = draw(st.sampled_from([[1, 2], [1, 1], [2, 1], [1, 1, 1], [1], [2], [2, 2], [1, 2, 1], [3, 1], [2, 3], [1, 1, 1, 1], [2, 1, 2], [1, 1, 1, 1, 1], [1, 2, 1, 1, 1]]))
    return c


@facet('tensored', tensored_case(), 320, 3000,
       'random block matrices; differential against the full product matrix; non-trivial: at least two blocks with noise', shards=8)
def tensored(case, ctx):
    sizes = case['sizes']
    n = sum(sizes)
    d = 2 ** n
    r = sim.rs(case['seed'])
    mats = [noise_matrix(2 ** s, r, case['eps']) for s in sizes]
    sub = [[format(i, '0%db' % s) for i in range(2 ** s)] for s in sizes]
    if case['perm']:
        sub = [[str(x) for x in r.permutation(l)] for l in sub]
    labels = [format(i, '0%db' % n) for i in range(d)]
    a = np.ones((d, d))
    for i, l1 in enumerate(labels):
        for j, l2 in enumerate(labels):
            end = n
            for b, s in enumerate(sizes):
                a[i, j] *= mats[b][sub[b].index(l1[end - s:end]), sub[b].index(l2[end - s:end])]
                end -= s
    true = counts_table(d, r, case['kind'], case['shots'])
    if true.sum() == 0:
        true[0] = 5
    y = a @ true if case['consistent'] else counts_table(d, r, 'sparse', case['shots'])
    if y.sum() == 0:
        y[-1] = 5
    tot = y.sum()
    ctx.nontrivial(len(sizes) > 1 and case['eps'] > 0)
    if r.rand() < 0.5:
        pat, q = [], 0
        for s in sizes:
            pat.append(list(range(q, q + s)))
            q += s
        fit = TensoredMeasFitter(None, pat, [list(l) for l in sub])
        fit.cal_matrices = mats
        filt = fit.filter
    else:
        filt = TensoredFilter(mats, [list(l) for l in sub])
    if case['seed'] % 5 == 0:
        old = TensoredFilter([np.eye(2)[::-1]] * (n + 1), [['0', '1']] * (n + 1))
        old.apply({'0' * (n + 1): 7}, method='pseudo_inverse')
        old.cal_matrices, old.substate_labels_list = mats, [list(l) for l in sub]
        filt = old
        ctx.label('recalibrated')
    ctx.check(filt.nqubits == n and list(filt.qubit_list_sizes) == list(sizes), 'sizes')
    order = [str(s) for s in r.permutation(labels)]
    counts = {l: y[labels.index(l)] for l in order if y[labels.index(l)] != 0}
    keep = dict(counts)
    tol = 1e-9 * max(tot, 1) * np.linalg.cond(a)
    got = filt.apply(counts, method='pseudo_inverse')
    ctx.close(vec(got, labels), np.linalg.solve(a, y), tol, 'tensored inverse')
    comp = MeasurementFilter(a, labels)
    ctx.close(vec(comp.apply(counts, method='pseudo_inverse'), labels), vec(got, labels), tol, 'tensored vs complete')
    if case['consistent']:
        ctx.close(vec(got, labels), true, tol, 'noiseless counts recovered')
    if n <= 3 or r.rand() < 0.15:
        ls = filt.apply(counts, method=None if r.rand() < 0.2 else 'least_squares')
        check_ls(ctx, vec(ls, labels), a, y, 'tensored least squares')
    ctx.check(counts == keep, 'input modified')
    t = np.round(y)
    if t.sum():
        exps = [qres.experiment('e0', {l: int(v) for l, v in zip(labels, t) if v}, [('c', n)]),
                qres.experiment('e1', {labels[-1]: 9}, [('c', n)])]
        more = [[labels[r.randint(d)], int(r.randint(1, 500))] for _ in range(int(r.choice([0, 0, 3, 12])) if n < 4 else 0)]
        exps += [qres.experiment('x%d' % i, {l: v}, [('c', n)]) for i, (l, v) in enumerate(more)]
        res = qres.result(exps)
        snap = copy.deepcopy(res.to_dict())
        new = filt.apply(res, method='pseudo_inverse')
        ctx.close(vec(new.get_counts(0), labels), np.linalg.solve(a, t), 1e-8 * max(tot, 1) * np.linalg.cond(a), 'result 0')
        ctx.close(vec(new.get_counts('e1'), labels), np.linalg.solve(a, 9.0 * np.eye(d)[-1]), 1e-7 * np.linalg.cond(a), 'result 1')
        for i, (l, v) in enumerate(more):
            ctx.close(vec(new.get_counts('x%d' % i), labels), np.linalg.solve(a, v * np.eye(d)[labels.index(l)]), 1e-7 * v * np.linalg.cond(a), 'result x%d' % i)
        ctx.check(len(new.results) == len(exps), 'number of experiments')
        ctx.check(res.to_dict() == snap, 'input result modified')
        one = qres.result([qres.experiment('e1', {labels[0]: 4, labels[-1]: 9}, [('c', n)])])
        snap1 = copy.deepcopy(one.to_dict())
        ctx.close(vec(filt.apply(one, method='pseudo_inverse').get_counts(0), labels), np.linalg.solve(a, 9.0 * np.eye(d)[-1] + 4.0 * np.eye(d)[0]), 1e-7 * np.linalg.cond(a), 'result of one experiment')
        ctx.check(one.to_dict() == snap1, 'input result of one experiment modified')
