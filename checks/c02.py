"""C02: calibration matrices are the pooled conditional outcome frequencies."""
import copy
import numpy as np
from hypothesis import strategies as st
from qiskit import QiskitError
from qiskit.ignis.mitigation.measurement import (CompleteMeasFitter, TensoredMeasFitter,
                                                 tensored_meas_cal, complete_meas_cal)

import qres
import sim
from harness import facet

ASSUMPTIONS = ['calibration circuits measure exactly the listed qubits into a register of that size',
               'no two experiments in one result carry the same name']


@st.composite
def history(draw, tensored):
    nq = draw(st.sampled_from([3, 2, 4, 5, 1, 6, 7] if tensored else [2, 3, 1, 4, 5]))
    perm = list(draw(st.permutations(list(range(draw(st.sampled_from([nq + 2, nq + 9])))))))[:nq]
    pattern = [perm]
    if tensored:
        pattern, rest = [], list(perm)
        while rest:
            s = draw(st.integers(1, min(draw(st.sampled_from([3, 3, 4])), len(rest))))
            pattern.append(rest[:s])
            rest = rest[s:]
    nres = draw(st.sampled_from([1, 2, 3, 4, 5, 10]))
    return {'pattern': pattern, 'label': draw(st.sampled_from(['', 'mcal', 'zz', 'run[1].', 'a+b', '(x', 'cal_', '\\d'])),
            'seed': draw(st.integers(0, 2 ** 32 - 1)), 'nres': nres,
            'sparse': draw(st.booleans()), 'full': draw(st.booleans()),
            'first': draw(st.sampled_from(['none', 'one', 'list', 'all'])),
            'rebuild': draw(st.lists(st.booleans(), min_size=nres, max_size=nres)),
            'noise_exps': draw(st.booleans()),
            'perm_labels': draw(st.booleans())}


def gen_data(case):
    """results: list of Result; total: {prepared label: array over outcomes}"""
    r = sim.rs(case['seed'])
    pattern = case['pattern']
    n = sum(len(p) for p in pattern)
    circs, _ = tensored_meas_cal([list(p) for p in pattern], circlabel=case['label'])
    total = {c.name[len(case['label']) + 4:]: np.zeros(2 ** n, dtype=np.int64) for c in circs}
    results = []
    for k in range(case['nres']):
        exps = []
        order = list(r.permutation(len(circs)))
        for ci in order:
            circ = circs[ci]
            if not case['full'] and k > 0 and r.rand() < 0.4:
                continue
            tab = r.randint(0, 400, size=2 ** n)
            if case['sparse']:
                tab = tab * (r.rand(2 ** n) < 0.3)
            lab = circ.name[len(case['label']) + 4:]
            if tab.sum() == 0:
                tab[int(lab, 2)] = 17
            total[lab] += tab
            counts = {format(i, '0%db' % n): int(v) for i, v in enumerate(tab) if v}
            keys = list(counts)
            r.shuffle(keys)
            exps.append(qres.experiment(circ.name, {q: counts[q] for q in keys}, [('c0', n)]))
        if case['noise_exps']:
            exps.insert(int(r.randint(0, len(exps) + 1)),
                        qres.experiment('other_%d' % k, {'0' * n: 100}, [('c0', n)]))
        if case['noise_exps'] and r.rand() < .5:
            # a calibration under another label in the same job
            for lab in r.permutation(sorted(total))[:3]:
                exps.insert(int(r.randint(0, len(exps) + 1)), qres.experiment('my%scal_%s' % (case['label'], lab), {'1' * n: 50, '0' * n: 30}, [('c0', n)]))
        if exps:
            results.append(qres.result(exps))
    return results, total, n


def oracle(total, n, start, size, labels):
    m = np.zeros((2 ** size, 2 ** size))
    for lab, tab in total.items():
        j = labels.index(lab[n - start - size:n - start])
        for v, cnt in enumerate(tab):
            bits = format(v, '0%db' % n)
            m[labels.index(bits[n - start - size:n - start]), j] += cnt
    s = m.sum(axis=0)
    for j in range(2 ** size):
        if s[j]:
            m[:, j] /= s[j]
    return m


def feed(cls_make, case, results):
    """Build the fitter through a history of additions and return it."""
    results = list(results)
    if case['first'] == 'none':
        fit = cls_make(None)
        rest = results
    elif case['first'] == 'one':
        fit = cls_make(results[0])
        rest = results[1:]
    elif case['first'] == 'list':
        cut = (len(results) + 1) // 2
        fit = cls_make(results[:cut])
        rest = results[cut:]
    else:
        fit = cls_make(results)
        rest = []
    for i, res in enumerate(rest):
        last = i == len(rest) - 1
        fit.add_data(res if i % 2 else [res], True if last else case['rebuild'][i])
    return fit


def counts_of(results):
    return [[dict(e.data.counts) for e in r.results] for r in results]


@facet('tensored', history(True), 700, 6000,
       'random joint calibration tables split over results and add calls; non-trivial: several blocks or several results', shards=2)
def tensored(case, ctx):
    results, total, n = gen_data(case)
    before = counts_of(results)
    pattern = case['pattern']
    labels = [[format(i, '0%db' % len(p)) for i in range(2 ** len(p))] for p in pattern]
    r = sim.rs(case['seed'] + 1)
    kw = {}
    if case['perm_labels']:
        labels = [list(r.permutation(l)) for l in labels]
        labels = [[str(x) for x in l] for l in labels]
        kw['substate_labels_list'] = [list(l) for l in labels]
    fit = feed(lambda res: TensoredMeasFitter(res, [list(p) for p in pattern],
                                              circlabel=case['label'], **kw), case, results)
    ctx.nontrivial(len(pattern) > 1 or len(results) > 1)
    ctx.check([list(map(str, l)) for l in fit.substate_labels_list] == labels, 'labels %s', fit.substate_labels_list)
    ctx.check(len(fit.cal_matrices) == len(pattern), 'number of matrices')
    start = 0
    for b, block in enumerate(pattern):
        want = oracle(total, n, start, len(block), labels[b])
        ctx.close(fit.cal_matrices[b], want, 1e-12, 'block %s' % block)
        ctx.close(fit.readout_fidelity(b), np.trace(want) / len(want), 1e-12, 'block fidelity')
        start += len(block)
    groups = [[labels[0][i] for i in range(len(labels[0])) if i % 2 == k] for k in range(2)]
    want = oracle(total, n, 0, len(pattern[0]), labels[0])
    ref = np.mean([sum(want[labels[0].index(a), labels[0].index(c)] for a in g for c in g) / len(g) for g in groups])
    ctx.close(fit.readout_fidelity(0, groups), ref, 1e-12, 'grouped fidelity')
    ctx.check(counts_of(results) == before, 'the result data was modified')


@facet('complete', history(False), 700, 6000,
       'random complete calibration; all subsets and orders of qubits; non-trivial: at least two qubits', shards=2)
def complete(case, ctx):
    results, total, n = gen_data(case)
    qubits = case['pattern'][0]
    labels = [format(i, '0%db' % n) for i in range(2 ** n)]
    r = sim.rs(case['seed'] + 1)
    if case['perm_labels']:
        labels = [str(x) for x in r.permutation(labels)]
    fit = feed(lambda res: CompleteMeasFitter(res, list(labels), qubit_list=list(qubits),
                                              circlabel=case['label']), case, results)
    ctx.nontrivial(n > 1)
    want = oracle(total, n, 0, n, labels)
    ctx.close(fit.cal_matrix, want, 1e-12, 'calibration matrix')
    if all(t.sum() for t in total.values()):
        ctx.close(fit.cal_matrix.sum(axis=0), np.ones(2 ** n), 1e-12, 'column sums')
    ctx.check(list(fit.state_labels) == labels and list(fit.qubit_list) == list(qubits), 'labels')
    ctx.close(fit.readout_fidelity(), np.trace(want) / 2 ** n, 1e-12, 'fidelity')
    # groups of labels
    ng = int(r.randint(1, 2 ** n + 1))
    perm = [str(x) for x in r.permutation(labels)]
    groups = [perm[k::ng] for k in range(ng) if perm[k::ng]]
    groups = groups[:int(r.randint(1, len(groups) + 1))]
    ref = np.mean([sum(want[labels.index(a), labels.index(c)] for a in g for c in g) / len(g) for g in groups])
    ctx.close(fit.readout_fidelity(groups), ref, 1e-12, 'grouped fidelity')
    # subset
    k = int(r.randint(1, n + 1))
    sub = [int(q) for q in r.permutation(qubits)[:k]]
    sfit = fit.subset_fitter(list(sub))
    ctx.label('subset of %d/%d' % (k, n))
    m = np.zeros((2 ** k, 2 ** k))
    slabels = list(sfit.state_labels)
    ctx.check(sorted(slabels) == [format(i, '0%db' % k) for i in range(2 ** k)], 'subset labels %s', slabels)

    def red(lab):
        return ''.join(lab[n - 1 - qubits.index(q)] for q in reversed(sub))
    for i, a in enumerate(labels):
        for j, c in enumerate(labels):
            m[slabels.index(red(a)), slabels.index(red(c))] += want[i, j] / 2 ** (n - k)
    ctx.close(sfit.cal_matrix, m, 1e-12, 'subset %s of %s' % (sub, qubits))
    ctx.check(list(sfit.qubit_list) == sub, 'subset qubit list')
    ctx.close(fit.cal_matrix, want, 1e-12, 'calibration matrix changed by taking a subset')
    ctx.raises(QiskitError, lambda: fit.subset_fitter([max(qubits) + 5]), 'foreign qubit accepted')


@facet('unset', st.fixed_dictionaries({'n': st.integers(1, 3), 'seed': st.integers(0, 2 ** 31)}), 60, 600,
       'fitters without data, then with a user-set matrix; non-trivial: every case')
def unset(case, ctx):
    n = case['n']
    _, labels = complete_meas_cal(list(range(n)))
    fit = CompleteMeasFitter(None, labels)
    ctx.nontrivial()
    ctx.raises(QiskitError, fit.readout_fidelity, 'fidelity without data')
    ctx.raises(QiskitError, lambda: fit.subset_fitter([0]), 'subset without data')
    m = sim.rs(case['seed']).dirichlet(np.ones(2 ** n), size=2 ** n).T
    keep = m.copy()
    fit.cal_matrix = m
    m[0, 0] = 9
    ctx.close(fit.cal_matrix, keep, 0, 'set matrix')
    ctx.close(fit.readout_fidelity(), np.trace(keep) / 2 ** n, 1e-12, 'fidelity')
    ctx.close(fit.filter.cal_matrix, keep, 0, 'filter matrix')
    ctx.check(list(fit.filter.state_labels) == list(labels), 'filter labels')
