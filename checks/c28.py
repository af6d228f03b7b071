"""C28: a figure shows the numbers of the object it is drawn from."""
import re
import warnings
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt  # noqa: E402
from matplotlib.contour import ContourSet
from matplotlib.collections import LineCollection
from matplotlib.patches import Rectangle
import matplotlib.axis
import numpy as np
from hypothesis import strategies as st
from qiskit.result.models import ExperimentResult, ExperimentResultData
from qiskit.qobj import QobjExperimentHeader
from qiskit.ignis.verification.randomized_benchmarking import RBFitter, InterleavedRBFitter, PurityRBFitter, CNOTDihedralRBFitter
from qiskit.ignis.verification.quantum_volume import QVFitter
from qiskit.ignis.mitigation.measurement import CompleteMeasFitter, TensoredMeasFitter
from qiskit.ignis.mitigation.expval import CompleteExpvalMeasMitigator, TensoredExpvalMeasMitigator, CTMPExpvalMeasMitigator
from qiskit.ignis.characterization.fitters import BaseCoherenceFitter
from qiskit.ignis.characterization.coherence import T1Fitter, T2Fitter, T2StarFitter
from qiskit.ignis.characterization.hamiltonian import ZZFitter
from qiskit.ignis.characterization.calibrations import RabiFitter, DragFitter
from qiskit.ignis.characterization.gates import AmpCalFitter, AngleCalFitter, AmpCalCXFitter, AngleCalCXFitter
from qiskit.ignis.measurement.discriminator.iq_discriminators import LinearIQDiscriminator, QuadraticIQDiscriminator, SklearnIQDiscriminator

import qres
from harness import facet

# qiskit-terra's plot_histogram uses an attribute which the installed matplotlib no longer has
if not hasattr(matplotlib.axis.Tick, 'label'):
    matplotlib.axis.Tick.label = property(lambda tick: tick.label1)

ASSUMPTIONS = ['figures are judged by the data, texts and tick labels of their matplotlib artists (Agg backend), not by colours, markers or placement']


# ------------------------------------------------------------------ reading a figure

def lines(ax):
    return [np.array(ln.get_xydata(), dtype=float) for ln in ax.get_lines()]


def has_line(ax, x, y, tol=1e-9):
    want = np.array([x, y], dtype=float).T
    return any(d.shape == want.shape and np.allclose(d, want, atol=tol, rtol=1e-9, equal_nan=True) for d in lines(ax))


def bars(ax):
    """end points of the vertical segments of error bars"""
    out = []
    for col in ax.collections:
        if isinstance(col, LineCollection):
            for seg in col.get_segments():
                seg = np.asarray(seg, dtype=float)
                if len(seg) == 2:
                    out.append((seg[0, 0], min(seg[:, 1]), max(seg[:, 1])))
    return np.array(out).reshape(-1, 3)


def has_bars(ax, x, mean, std):
    got = bars(ax)
    return all(len(got) and np.any(np.all(np.isclose(got, [a, m - s, m + s], atol=1e-9), axis=1)) for a, m, s in zip(x, mean, std))


def cloud(ax):
    pts = [np.asarray(c.get_offsets(), dtype=float) for c in ax.collections if not isinstance(c, LineCollection) and hasattr(c, 'get_offsets')]
    return [p for p in pts if p.ndim == 2 and len(p)]


NUM = re.compile(r'[-+]?(?:\d+\.\d*|\.\d+|\d+)(?:[eE][-+]?\d+)?')


def numbers(text):
    return [float(v) for v in NUM.findall(text)]


def shows(texts, value, tol):
    """some text states the value, up to the rounding of a printed number"""
    if not np.isfinite(value):
        return any(s in t.lower() for t in texts for s in ('inf', 'nan'))
    return any(abs(v - value) <= tol(value) for t in texts for v in numbers(t))


def texts(ax):
    return [t.get_text() for t in ax.texts]


def legend(ax):
    return [t.get_text() for t in ax.get_legend().get_texts()] if ax.get_legend() is not None else []


def figure(ctx, fn, given):
    """draw on own axes or on those the call makes; returns the axes drawn on"""
    plt.close('all')
    if given:
        _, axs = plt.subplots(1, 2)
        keep, other = axs
        out = fn(keep)
        ctx.check(not other.get_lines() and not other.collections and not other.images, 'drawn on axes that were not passed')
        ctx.check(len(plt.get_fignums()) == 1, 'another figure was opened although axes were passed')
        return keep, out
    out = fn(None)
    ctx.check(len(plt.get_fignums()) == 1, '%d figures opened', len(plt.get_fignums()))
    return plt.figure(plt.get_fignums()[0]).axes[0], out


# ------------------------------------------------------------------ randomized benchmarking

@st.composite
def rb_case(draw):
    kind = draw(st.sampled_from(['rb', 'interleaved', 'dihedral', 'purity']))
    npat = draw(st.integers(1, 3))
    size = 1 if kind == 'purity' else draw(st.integers(1, 2))
    return {'kind': kind, 'sizes': [size] * npat if kind == 'purity' else [draw(st.integers(1, 2)) for _ in range(npat)],
            'nl': draw(st.integers(4, 7)), 'seeds': draw(st.lists(st.integers(0, 20), min_size=1, max_size=3, unique=True)),
            'seed': draw(st.integers(0, 10 ** 6)), 'array': draw(st.booleans()), 'at': draw(st.integers(0, 2)), 'given': draw(st.booleans()),
            'label': draw(st.booleans()), 'default': draw(st.booleans())}


def jitter(r, nseeds):
    """offsets of the seeds from the true curve: mean zero, the same spread at every length"""
    return r.permutation(np.linspace(-1, 1, nseeds)) if nseeds > 1 else np.zeros(1)


def rb_data(r, case, name, lengths, alphas):
    """independent patterns, each all-zero with the probability of its decay"""
    nb = sum(case['sizes'])
    off = [[amp * jitter(r, len(case['seeds'])) for _ in range(case['nl'])] for amp in r.uniform(.004, .01, len(alphas))]
    out = []
    for si, s in enumerate(case['seeds']):
        exps = []
        for k in range(case['nl']):
            probs = np.ones(1)
            for i, (size, a, lens) in enumerate(zip(case['sizes'], alphas, lengths)):
                d = 2 ** size
                p0 = .95 * (1 - 1 / d) * a ** lens[k] + 1 / d + off[i][k][si]
                probs = np.kron([p0] + [(1 - p0) / (d - 1)] * (d - 1), probs)
            exps.append(qres.experiment('%s_length_%d_seed_%d' % (name, k, s), qres.ints({format(i, '0%db' % nb): p for i, p in enumerate(probs)}, 10 ** 6), [('cr', nb)]))
        out.append(qres.result(exps))
    return out


@facet('rb', rb_case(), 320, 3200, 'another pattern than the first one, or several seeds', shards=4)
def rb(case, ctx):
    r = np.random.RandomState(case['seed'])
    kind, npat = case['kind'], len(case['sizes'])
    nb = sum(case['sizes'])
    at = case['at'] % npat
    lengths = [[int(r.randint(1, 5))] + sorted(int(v) for v in r.choice(np.arange(5, 50), size=case['nl'] - 2, replace=False)) + [int(r.randint(50, 70))] for _ in range(npat)]
    pattern, q = [], list(r.permutation(nb))
    for s in case['sizes']:
        pattern.append([int(q.pop()) for _ in range(s)])
    def data(name, scale=1.0):
        return rb_data(r, case, name, lengths, r.uniform(.93, .98, npat) * scale)
    lens = [np.array(v) for v in lengths] if case['array'] else lengths
    ctx.nontrivial(at > 0 or len(case['seeds']) > 1)
    ctx.label(kind)
    if kind == 'rb':
        f = RBFitter(data('rb'), lens, pattern)
    elif kind == 'interleaved':
        f = InterleavedRBFitter(data('rb'), data('rb_interleaved', .98), lens, pattern)
    elif kind == 'dihedral':
        f = CNOTDihedralRBFitter(data('rb_cnotdihedral_Z'), data('rb_cnotdihedral_X', .99), lens, pattern)
    else:
        # a Bloch vector along z that shrinks; the other settings are unbiased
        res = []
        alphas = r.uniform(.95, .98, npat)
        off = [[amp * jitter(r, len(case['seeds'])) for _ in range(case['nl'])] for amp in r.uniform(.004, .01, len(alphas))]
        for si, s in enumerate(case['seeds']):
            for let in 'ZXY':
                exps = []
                for k in range(case['nl']):
                    probs = np.ones(1)
                    for i, (a, ln) in enumerate(zip(alphas, lengths)):
                        z = np.sqrt(.95 * a ** (2 * ln[k]) + off[i][k][si] + .01) if let == 'Z' else 0.0
                        probs = np.kron([(1 + z) / 2, (1 - z) / 2], probs)
                    exps.append(qres.experiment('rb_purity_%s_length_%d_seed_%d' % (let, k, s), qres.ints(
                        {format(i, '0%db' % nb): p for i, p in enumerate(probs)}, 10 ** 6), [('cr', nb)]))
                res.append(qres.result(exps))
        f = PurityRBFitter(res, 3, lens, pattern)
    x = np.array(lengths[at], dtype=float)

    def draw(ax):
        kw = {} if case['default'] and at == 0 else {'pattern_index': at}
        if not case['label']:
            kw['add_label'] = False
        if ax is not None:
            kw['ax'] = ax
        return f.plot_rb_data(show_plt=False, **kw)
    ax, _ = figure(ctx, draw, case['given'])
    if kind in ('rb', 'purity'):
        src = f if kind == 'rb' else f.rbfit_pur
        sets = [(src.raw_data[at], src.fit[at], src.rb_fit_fun if kind == 'rb' else (lambda v, a, al, b: a * al ** (2 * v) + b))]
        mean, std = src.ydata[at]['mean'], src.ydata[at]['std']
        ctx.check(has_line(ax, x, mean), 'the mean of pattern %d is not plotted', at)
        if std is not None:
            ctx.check(has_bars(ax, x, np.asarray(mean), np.asarray(std)), 'the error bars of pattern %d are not its standard deviations', at)
        fit = src.fit[at]
        stated = [fit['params'][1]] + ([fit['epc']] if kind == 'rb' else [fit['pepc']])
        errs = [fit['params_err'][1]] + ([fit['epc_err']] if kind == 'rb' else [fit['pepc_err']])
    else:
        two = (f.rbfit_std, f.rbfit_int) if kind == 'interleaved' else (f.rbfit_Z, f.rbfit_X)
        sets = [(s.raw_data[at], s.fit[at], s.rb_fit_fun) for s in two]
        joint = (f.fit_int if kind == 'interleaved' else f.fit_cnotdihedral)[at]
        if kind == 'interleaved':
            stated = [joint['alpha'], joint['alpha_c'], joint['epc_est']]
            errs = [joint['alpha_err'], joint['alpha_c_err'], joint['epc_est_err']]
        else:
            stated = [joint['alpha'], joint['epg_est']]
            errs = [joint['alpha_err'], joint['epg_est_err']]
    for raw, fit, fun in sets:
        ctx.check(len(raw) == len(case['seeds']), 'seeds of the raw data')
        for row in raw:
            ctx.check(has_line(ax, x, row), 'the data %s of pattern %d are not plotted', list(row), at)
        ctx.check(has_line(ax, x, fun(x, *fit['params']), 1e-7), 'the fitted curve of pattern %d is not plotted', at)
    said = texts(ax)
    if case['label']:
        for v in stated:
            ctx.check(shows(said, v, lambda t: max(6e-4 * abs(t), 6e-4 if abs(t) > .05 else 0)), 'the label %s does not state %s', said, v)
        for v in errs:
            ctx.check(shows(said, v, lambda t: .06 * abs(t)), 'the label %s does not state the error %s', said, v)
    else:
        ctx.check(not any(numbers(t) for t in said), 'labelled although no label was asked for: %s', said)
    plt.close('all')


# ------------------------------------------------------------------ quantum volume trial

@facet('qv_trial', st.fixed_dictionaries({'widths': st.lists(st.integers(2, 4), min_size=1, max_size=2, unique=True), 'trials': st.sampled_from([2, 3, 1]),
                                          'seed': st.integers(0, 10 ** 6), 'w': st.integers(0, 1), 't': st.sampled_from([1, 2, 0]), 'given': st.booleans()}),
       32, 300, 'another trial than the first one', shards=4)
def qv_trial(case, ctx):
    r = np.random.RandomState(case['seed'])
    ideal, meas, exps, svs = {}, {}, [], []
    widths = sorted(case['widths'])
    for w in widths:
        for t in range(case['trials']):
            name = 'qv_depth_%d_trial_%d' % (w, t)
            v = r.normal(size=2 ** w) + 1j * r.normal(size=2 ** w)
            v /= np.linalg.norm(v)
            ideal[name] = np.abs(v) ** 2
            c = r.multinomial(int(r.randint(60, 500)), .6 * ideal[name] + .4 / 2 ** w)
            meas[name] = {format(i, '0%db' % w): int(m) for i, m in enumerate(c) if m}
            exps.append(qres.experiment(name, meas[name], [('measure', w)]))
            svs.append(ExperimentResult(shots=1, success=True, meas_level=2, data=ExperimentResultData(statevector=v),
                                        header=QobjExperimentHeader(name=name, memory_slots=0, creg_sizes=[], n_qubits=w)))
    f = QVFitter(qres.result(exps), qres.result(svs), [list(range(w)) for w in widths])
    w, t = widths[case['w'] % len(widths)], case['t'] % case['trials']
    name = 'qv_depth_%d_trial_%d' % (w, t)
    ax, out = figure(ctx, lambda a: f.plot_qv_trial(w, t, **({} if a is None else {'ax': a})), case['given'])
    ctx.check((out is None) == case['given'], 'returned figure')
    heights = [p.get_height() for p in ax.get_children() if isinstance(p, Rectangle)]
    tot = sum(meas[name].values())
    med = np.median(ideal[name])
    for what, vals, tol in (('measured', [m / tot for m in meas[name].values()], 6e-4), ('ideal', list(ideal[name]), 6e-4)):
        for v in vals:
            ctx.check(any(abs(h - v) <= tol for h in heights), 'no bar for the %s probability %s of %s', what, v, name)
    ctx.check(any(len(d) == 2 and np.allclose(d[:, 1], med, atol=1e-9) for d in lines(ax)), 'the median %s is not drawn', med)
    heavy = sum(m for k, m in meas[name].items() if ideal[name][int(k, 2)] > med) / tot
    ctx.check(shows(legend(ax), heavy, lambda v: 6e-4), 'the legend %s does not state the heavy output probability %s', legend(ax), heavy)
    ctx.check({2 ** w, t} <= set(numbers(ax.get_title())), 'title %r of trial %d of width %d', ax.get_title(), t, w)
    ctx.nontrivial(t > 0)
    plt.close('all')


# ------------------------------------------------------------------ calibration and mitigation matrices

@st.composite
def mat_case(draw, kinds):
    kind = draw(st.sampled_from(kinds))
    n = draw(st.sampled_from([2, 3, 1]))
    return {'kind': kind, 'n': n, 'seed': draw(st.integers(0, 10 ** 6)), 'given': draw(st.booleans()), 'at': draw(st.integers(0, 2)),
            'type': draw(st.sampled_from(['tensored', 'complete', 'ctmp'])), 'part': draw(st.booleans()), 'qubits': draw(st.permutations(list(range(n)))), 'k': draw(st.integers(1, n)), 'sub': draw(st.booleans())}


def stochastic(r, d, eps):
    m = np.eye(d) * (1 - eps) + eps * r.dirichlet(np.ones(d), d).T
    return m / m.sum(0)


def matrices(case, ctx):
    r = np.random.RandomState(case['seed'])
    n, kind = case['n'], case['kind']
    ctx.nontrivial(n > 1)
    ctx.label(kind)
    cmap = None
    if kind == 'complete':
        labels = [format(i, '0%db' % n) for i in range(2 ** n)]
        if case['sub']:
            labels = [labels[i] for i in r.permutation(2 ** n)[:max(2, 2 ** n - 2)]]
        f = CompleteMeasFitter(None, qubit_list=list(range(n)), state_labels=labels)
        mat = stochastic(r, len(labels), .3)
        f.cal_matrix = mat
        ax, _ = figure(ctx, lambda a: f.plot_calibration(show_plot=False, **({} if a is None else {'ax': a})), case['given'])
        want = mat
    elif kind == 'tensored':
        groups = [[0], [1, 2], [3]][:n]
        subs = [[format(i, '0%db' % len(g)) for i in range(2 ** len(g))] for g in groups]
        if case['sub']:
            subs = [[s[i] for i in r.permutation(len(s))] for s in subs]
        f = TensoredMeasFitter(None, groups, substate_labels_list=subs)
        mats = [stochastic(r, len(s), .3) for s in subs]
        f.cal_matrices = mats
        at = case['at'] % n
        kw = {'cal_index': at} if at or case['part'] else {}
        ax, _ = figure(ctx, lambda a: f.plot_calibration(show_plot=False, **dict(kw, **({} if a is None else {'ax': a}))), case['given'])
        want, labels = mats[at], subs[at]
    else:
        if case['type'] == 'complete':
            mit = CompleteExpvalMeasMitigator(stochastic(r, 2 ** n, .2))
        elif case['type'] == 'tensored':
            mit = TensoredExpvalMeasMitigator([stochastic(r, 2, .3) for _ in range(n)])
        else:
            gens = [('0', '1', [q]) for q in range(n)] + [('1', '0', [q]) for q in range(n)]
            mit = CTMPExpvalMeasMitigator(gens, list(r.uniform(.02, .2, len(gens))))
        qubits = case['qubits'][:n + 1 - case['k']] if case['part'] else None
        fn = mit.plot_assignment_matrix if kind == 'assignment' else mit.plot_mitigation_matrix
        want = mit.assignment_matrix(qubits) if kind == 'assignment' else mit.mitigation_matrix(qubits)
        kw = {} if qubits is None else {'qubits': qubits}
        ax, out = figure(ctx, lambda a: fn(**dict(kw, **({} if a is None else {'ax': a}))), case['given'])
        ctx.check(out is ax, 'the axes drawn on are not returned')
        k = n if qubits is None else len(qubits)
        labels = [format(i, '0%db' % k) for i in range(2 ** k)]
    ctx.check(len(ax.images) == 1, '%d matrices drawn', len(ax.images))
    im = ax.images[0]
    ctx.close(np.asarray(im.get_array(), dtype=float), np.asarray(want, dtype=float), 1e-12, 'drawn matrix')
    lo, hi = im.get_clim()
    ctx.check(lo <= np.min(want) + 1e-9 and np.max(want) <= hi + 1e-9, 'entries of the matrix lie outside of the colour range %s', (lo, hi))
    for what, axis in (('prepared', ax.xaxis), ('measured', ax.yaxis)):
        ctx.check([round(float(v)) for v in axis.get_ticklocs()] == list(range(len(labels))), 'ticks of the %s states', what)
        ctx.check([t.get_text() for t in axis.get_ticklabels()] == labels, 'labels %s of the %s states for %s', [t.get_text() for t in axis.get_ticklabels()], what, labels)
        ctx.check(what in axis.get_label().get_text().lower(), 'the axis of the %s states is labelled %r', what, axis.get_label().get_text())
    plt.close('all')


for _name, _kinds in (('calibration_matrices', ['complete', 'tensored']), ('mitigator_matrices', ['assignment', 'mitigation'])):
    facet(_name, mat_case(_kinds), 200, 2000, 'more than one qubit', shards=2)(matrices)


def iq(name, mem):
    mem = np.asarray(mem)
    return ExperimentResult(shots=len(mem), success=True, meas_level=1, meas_return='single',
                            data=ExperimentResultData(memory=np.stack([mem.real, mem.imag], -1).tolist()),
                            header=QobjExperimentHeader(name=name, memory_slots=mem.shape[1], creg_sizes=[['c', mem.shape[1]]]))


# ------------------------------------------------------------------ characterization

@st.composite
def char_case(draw, kinds):
    kind = draw(st.sampled_from(kinds))
    n = draw(st.sampled_from([2, 3, 1]))
    order = draw(st.permutations(list(range(8))))
    return {'kind': kind, 'qubits': order[:n], 'spec': order[4:4 + n], 'at': draw(st.sampled_from([1, 2, 0])), 'series': draw(st.integers(0, 2)), 'given': draw(st.booleans()),
            'seed': draw(st.integers(0, 10 ** 6)), 'default': draw(st.booleans()), 'unit': draw(st.sampled_from(['micro-seconds', 'ns']))}


def characterization(c, ctx):
    r = np.random.RandomState(c['seed'])
    kind, qs, n = c['kind'], c['qubits'], len(c['qubits'])
    at = c['at'] % n
    zz = kind.startswith('zz')
    num = 14
    x = np.linspace(1, 20, num) if kind in ('t1', 't2', 't2star', 'series') or zz else np.arange(num)
    series = ['0', '1'] if zz else ['a', '0', 'b'] if kind == 'series' and c['seed'] % 2 else ['x', 'y'] if kind == 'series' else ['0']
    prefix = {'t1': 't1circuit', 't2': 't2circuit', 't2star': 't2starcircuit', 'zz': 'zzcircuit', 'zz_plot': 'zzcircuit', 'series': 'my', 'amp': 'ampcal1Qcircuit',
              'angle': 'anglecal1Qcircuit', 'ampcx': 'ampcalcxcircuit', 'anglecx': 'anglecalcxcircuit', 'rabi': '', 'drag': ''}[kind]
    tau = {(s, i): float(r.uniform(8, 30)) for s in series for i in range(n)}
    freq = {(s, i): float(r.uniform(.112, .128)) for s in series for i in range(n)}
    exps = []
    for s in series:
        for k, v in enumerate(x):
            if kind in ('rabi', 'drag'):
                break
            ps = np.ones(1)
            for i in range(n):
                if kind in ('t1', 't2', 'series'):
                    p1 = .9 * np.exp(-v / tau[s, i]) if kind != 't2' else .5 - .5 * np.exp(-v / tau[s, i])
                elif kind == 't2star':
                    p1 = .5 - .5 * np.exp(-v / tau[s, i]) * np.cos(2 * np.pi * freq[s, i] * v)
                elif zz:
                    p1 = .5 - .5 * np.cos(2 * np.pi * freq[s, i] * v)
                else:
                    p1 = .5 + .3 * np.sin(freq[s, i] * v)
                p1 = np.clip(p1 + r.uniform(-.01, .01), 0, 1)
                ps = np.kron([1 - p1, p1], ps)
            exps.append(qres.experiment('%s_%d_%s' % (prefix, k, s), qres.ints({format(i, '0%db' % n): p for i, p in enumerate(ps)}, 10 ** 4), [('c', n)]))
    res = qres.result(exps)
    if kind in ('rabi', 'drag'):
        x = np.linspace(-1, 1, 21) if kind == 'rabi' else np.linspace(-3, 3, 21)
        cf = r.uniform(.6, .9, n) if kind == 'rabi' else r.uniform(-1, 1, n)
        sig = np.array([np.cos(2 * np.pi * v * x) if kind == 'rabi' else .1 * (x - v) ** 2 for v in cf])
        vec = (r.normal(size=n) + 1j * r.normal(size=n)) * 3
        off = r.normal(size=n) + 1j * r.normal(size=n)
        res = qres.result([iq('%ssched_%d_0' % (kind, k), (off + vec * sig[:, k])[None, :] + .01 * (r.normal(size=(6, n)) + 1j * r.normal(size=(6, n))))
                           for k in range(len(x))])
        f = (RabiFitter if kind == 'rabi' else DragFitter)(None, x, qs, [1, 1, 0, 0] if kind == 'rabi' else [1, 0, 0])
        f.add_data(res, refit=False)
        for i in range(n):
            y = np.asarray(f.ydata['0'][i]['mean'])
            sg = np.sign(np.dot(y - y.mean(), sig[i] - sig[i].mean()))
            f.fit_data(qid=i, p0=[sg * abs(vec[i]), cf[i], 0, 0] if kind == 'rabi' else [sg * .1 * abs(vec[i]), cf[i], 0])
    elif kind in ('t1', 't2'):
        f = {'t1': T1Fitter, 't2': T2Fitter}[kind](res, x, qs, [.7, 15, .2], ([0, .1, -1], [2, 500, 1]), time_unit=c['unit'])
    elif kind == 't2star':
        f = T2StarFitter(res, x, qs, [.5, 15, .12, 0, .5], ([0, .1, 0, -3, 0], [1.5, 500, 2, 3, 1]), time_unit=c['unit'])
    elif kind == 'series':
        f = BaseCoherenceFitter('decay', res, x, qs, lambda t, a, tau_, b: a * np.exp(-t / tau_) + b, [.7, 15, .2], ([0, .1, -1], [2, 500, 1]),
                                ['my_%d_' % k for k in range(num)], series=series, expected_state='1', time_index=1, time_unit=c['unit'])
    elif zz:
        f = ZZFitter(res, x, qs, c['spec'], [.5, .12, 0, .5], ([0, 0, -3, 0], [1.5, 2, 3, 1]), time_unit=c['unit'])
    else:
        f = {'amp': AmpCalFitter, 'angle': AngleCalFitter, 'ampcx': AmpCalCXFitter, 'anglecx': AngleCalCXFitter}[kind](
            res, x, qs, [.02, .5], ([-np.pi, -1], [np.pi, 1]))
    s = series[c['series'] % len(series)]
    ctx.nontrivial(at > 0 or s != '0')
    ctx.label(kind)

    def draw(ax):
        kw = {} if ax is None else {'ax': ax}
        if kind == 'zz_plot':
            return f.plot_ZZ(at, show_plot=False, **kw)
        if kind in ('zz', 'series') or not c['default']:
            kw['series'] = s
        return f.plot(at, show_plot=False, **kw)
    ax, out = figure(ctx, draw, c['given'])
    ctx.check(out is ax, 'the axes drawn on are not returned')
    for t in (series if kind == 'zz_plot' else [s]):
        y = f.ydata[t][at]
        ctx.check(has_line(ax, x, y['mean']), 'the data of series %s of qubit %d are not plotted', t, qs[at])
        ctx.check(has_bars(ax, x, np.asarray(y['mean']), np.asarray(y['std'])), 'the error bars of series %s of qubit %d', t, qs[at])
        ctx.check(has_line(ax, x, f.fit_fun(x, *f.params[t][at]), 1e-7), 'the fit of series %s of qubit %d is not plotted', t, qs[at])
    ctx.check(qs[at] in numbers(ax.get_title().split('qubit')[-1]), 'title %r of a plot of qubit %d', ax.get_title(), qs[at])
    if kind == 'rabi':
        v = float(f.pi_amplitude(at))
        ctx.check(any(len(d) == 2 and np.allclose(d[:, 0], v, atol=1e-9) for d in lines(ax)), 'the pi amplitude %s of qubit %d is not marked', v, qs[at])
    said = legend(ax)
    if kind in ('t1', 't2', 't2star', 'zz', 'series'):
        v = float(f.time(at, s))
        ctx.check(any(abs(w - v) <= .051 for t in said for w in numbers(t.split(':')[-1])), 'the legend %s does not state %s', said, v)
        ctx.check(any(c['unit'] in t for t in said) and c['unit'] in ax.get_xlabel(), 'time unit %s in %s and %r', c['unit'], said, ax.get_xlabel())
    elif kind == 'zz_plot':
        for t in series:
            ctx.check(any(numbers(u)[:1] == [c['spec'][at]] and numbers(u)[-1] == int(t) for u in said), 'the legend %s lacks spectator %d in state %s', said, c['spec'][at], t)
    else:
        ctx.check(any(qs[at] in numbers(t) for t in said), 'the legend %s does not name qubit %d', said, qs[at])
    plt.close('all')


for _name, _kinds in (('coherence', ['series', 't1', 't2', 't2star']), ('coupling', ['zz', 'zz_plot']), ('gates', ['amp', 'angle', 'ampcx', 'anglecx']), ('calibrations', ['rabi', 'drag'])):
    facet(_name, char_case(_kinds), 120, 1600, 'another qubit or series than the first one', shards=2)(characterization)


# ------------------------------------------------------------------ discriminators

@st.composite
def disc_case(draw):
    slots = draw(st.sampled_from([2, 3, 1]))
    mask = list(draw(st.permutations(list(range(slots)))))[:draw(st.integers(1, slots))]
    return {'slots': slots, 'mask': mask, 'seed': draw(st.integers(0, 10 ** 6)), 'cls': draw(st.sampled_from(['linear', 'quadratic', 'sklearn'])),
            'plot': draw(st.one_of(st.none(), st.permutations(mask).map(list))), 'k': draw(st.integers(1, 3)), 'std': draw(st.booleans()),
            'flag': draw(st.booleans()), 'data': draw(st.sampled_from([True, True, False])), 'bound': draw(st.booleans()), 'title': draw(st.booleans()),
            'given': draw(st.booleans()), 'color': draw(st.sampled_from([None, 'r']))}


class Nearest:
    def fit(self, x, y):
        x, y = np.asarray(x, dtype=float), np.asarray(y)
        self.c = {lab: x[y == lab].mean(0) for lab in sorted(set(y))}

    def predict(self, x):
        labs = list(self.c)
        return np.array([labs[int(np.argmin([np.sum((p - self.c[lab]) ** 2) for lab in labs]))] for p in np.asarray(x, dtype=float)])


def same_points(a, b, tol=1e-9):
    a, b = np.asarray(a, dtype=float).reshape(-1, 2), np.asarray(b, dtype=float).reshape(-1, 2)
    if a.shape != b.shape:
        return False
    return np.allclose(a[np.lexsort(np.round(a, 7).T)], b[np.lexsort(np.round(b, 7).T)], atol=tol)


@facet('discriminator', disc_case(), 200, 2400, 'several qubits', shards=4)
def discriminator(c, ctx):
    r = np.random.RandomState(c['seed'])
    m, mask = len(c['mask']), c['mask']
    cen = r.normal(size=(c['slots'], 2)) * 2 + 1j * r.normal(size=(c['slots'], 2)) * 2
    # overlapping clouds: some of the training points are misclassified
    exps, rows, labs = [], [], []

    def shots(lab, k):
        lev = [0] * c['slots']
        for j, q in enumerate(mask):
            lev[q] = int(lab[-1 - j])
        base = np.array([cen[q, lev[q]] for q in range(c['slots'])])
        return base + 1.2 * (r.normal(size=(k, c['slots'])) + 1j * r.normal(size=(k, c['slots'])))
    for lab in ['0' * m, '1' * m]:
        mem = shots(lab, 20)
        exps.append(iq('cal_' + lab, mem))
        rows += [np.concatenate([s[mask].real, s[mask].imag]) for s in mem]
        labs += [lab] * len(mem)
    res = qres.result(exps)
    args = (res, mask)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if c['cls'] == 'sklearn':
            d = SklearnIQDiscriminator(Nearest(), *args, standardize=c['std'])
        else:
            d = {'linear': LinearIQDiscriminator, 'quadratic': QuadraticIQDiscriminator}[c['cls']](*args, standardize=c['std'])
    rows = np.array(rows)
    if c['std']:
        rows = (rows - rows.mean(0)) / rows.std(0)
    labs = np.array(labs)
    shown = mask if c['plot'] is None else c['plot'][:max(1, min(c['k'], len(c['plot'])))]
    kw = {'show_fitting_data': c['data'], 'flag_misclassified': c['flag'], 'title': c['title']}
    if c['plot'] is not None:
        kw['qubits_to_plot'] = shown
    bound = c['bound'] and m == 1
    if bound:
        kw['show_boundary'] = True
    plt.close('all')
    if c['given']:
        fig, axs = plt.subplots(len(shown), 1)
        regions = []
        if bound:
            inner = axs.contourf
            axs.contourf = lambda *a, **k: (regions.append(a), inner(*a, **k))[1]
        got, f = d.plot(axs=axs, **kw)
        ctx.check(f is None and len(plt.get_fignums()) == 1, 'a figure was made although axes were passed')
    else:
        got, f = d.plot(**kw)
        ctx.check(f is not None, 'no figure returned')
    ctx.check(len(got) == len(shown), 'number of axes')
    wrong = np.asarray(d.discriminate(rows.tolist())) != labs
    for ax, q in zip(got, shown):
        j = mask.index(q)
        pts = np.stack([rows[:, j], rows[:, m + j]], 1)
        clouds = cloud(ax) if not bound else [p for p in cloud(ax) if len(p) > 1 or not np.allclose(p, 0)]
        if c['data']:
            for lab in sorted(set(labs)):
                ctx.check(any(same_points(p, pts[labs == lab]) for p in clouds), 'the calibration data of qubit %d in state %s are not plotted', q, lab)
                ctx.check(lab in legend(ax), 'the legend %s lacks the state %s', legend(ax), lab)
            if c['flag']:
                if wrong.any():
                    ctx.check(any(same_points(p, pts[wrong]) for p in clouds), 'the misclassified points of qubit %d are not marked', q)
                    ctx.label('misclassified')
            else:
                ctx.check(sum(map(len, clouds)) == len(pts), 'more points plotted than there are calibration points')
        else:
            ctx.check(not any(same_points(p, pts[labs == lab]) for p in clouds for lab in set(labs)), 'the calibration data are plotted although they were not asked for')
        if c['title']:
            ctx.check(numbers(ax.get_title()) == [q], 'title %r of the plot of qubit %d', ax.get_title(), q)
        else:
            ctx.check(ax.get_title() == '', 'title %r although none was asked for', ax.get_title())
    if bound:
        ctx.label('boundary')
        ctx.check(any(isinstance(a, ContourSet) for a in got[0].get_children()), 'no decision regions are drawn')
        if c['given'] and regions and len(regions[0]) >= 3:
            xx, yy, zz = (np.asarray(v, dtype=float) for v in regions[0][:3])
            want = np.array(d.discriminate(np.c_[xx.ravel(), yy.ravel()])).astype(float).reshape(xx.shape)
            ctx.check(zz.shape == want.shape and np.array_equal(zz, want), 'the decision regions are not those of the discriminator')
            for v, col in ((xx, 0), (yy, 1)):
                ctx.check(v.min() <= rows[:, col].min() and rows[:, col].max() <= v.max() + 1e-9, 'the decision regions do not cover the data')
    else:
        ctx.check(not any(isinstance(a, ContourSet) for a in got[0].get_children()), 'decision regions although none were asked for')
    # new data on top
    plt.close('all')
    fresh = [shots(lab, 5) for lab in ['0' * m, '1' * m]]
    new = qres.result([iq('job%d' % i, s) for i, s in enumerate(fresh)])
    _, axs = plt.subplots(m, 1)
    d.plot_xdata(axs, new, **({} if c['color'] is None else {'color': c['color']}))
    x = np.array(d.get_xdata(new, 1), dtype=float)
    for j, ax in enumerate(np.atleast_1d(axs)):
        ctx.check(any(same_points(p, np.stack([x[:, j], x[:, m + j]], 1)) for p in cloud(ax)), 'the data of qubit %d are not plotted', mask[j])
        if not c['std']:
            raw = np.concatenate([s[:, mask[j]] for s in fresh])
            ctx.check(any(same_points(p, np.stack([raw.real, raw.imag], 1)) for p in cloud(ax)), 'the IQ data of qubit %d are not plotted', mask[j])
    ctx.nontrivial(m > 1)
    plt.close('all')
