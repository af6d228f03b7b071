"""C23: coherence and crosstalk experiments recover the physical parameters of the device."""
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np
from hypothesis import strategies as st
from qiskit.ignis.characterization.characterization_utils import pad_id_gates, time_to_ngates
from qiskit.ignis.characterization.coherence import (T1Fitter, T2Fitter, T2StarFitter, t1_circuits, t2_circuits,
                                                     t2star_circuits)
from qiskit.ignis.characterization.hamiltonian import ZZFitter, zz_circuits
from qiskit import QuantumCircuit, QuantumRegister

import qres
from harness import facet

ASSUMPTIONS = ['gates other than identities are instantaneous; the initial guess is within 25 % of the truth']
SHOTS = 10 ** 8


class Qubit:
    """a two-level system that relaxes, dephases and precesses during identity gates"""

    def __init__(self, t1=np.inf, t2=np.inf, df=0.0):
        self.t1, self.t2, self.df = t1, t2, df
        self.rho = np.array([[1, 0], [0, 0]], dtype=complex)
        self.ids = 0

    def idle(self, dt, extra=0.0):
        e1 = np.exp(-dt / self.t1)
        c = np.exp(-dt / self.t2 - 2j * np.pi * (self.df + extra) * dt)
        r = self.rho
        self.rho = np.array([[r[0, 0] + (1 - e1) * r[1, 1], r[0, 1] * c], [r[1, 0] * np.conj(c), e1 * r[1, 1]]])
        self.ids += 1


def run(circ, qubits, gate_time, zeta=None, spec=None):
    """joint outcome distribution of the measured bits (qubits stay in a product state); also identity counts."""
    idx = {q: i for i, q in enumerate(circ.qubits)}
    clb = {b: i for i, b in enumerate(circ.clbits)}
    dev = {i: qubits.get(i) or Qubit() for i in idx.values()}
    for d in dev.values():
        d.rho = np.array([[1, 0], [0, 0]], dtype=complex)
        d.ids = 0
    meas = {}
    for inst, qargs, cargs in circ.data:
        if inst.name in ('barrier', 'snapshot'):
            continue
        q = idx[qargs[0]]
        if inst.name == 'measure':
            meas[clb[cargs[0]]] = dev[q].rho[1, 1].real
            continue
        if inst.name == 'id':
            extra = 0.0
            if zeta and q in zeta:
                extra = zeta[q] * dev[spec[q]].rho[1, 1].real
            dev[q].idle(gate_time, extra)
            continue
        if len(qargs) != 1:
            raise AssertionError('unexpected entangling gate %s' % inst.name)
        u = inst.to_matrix()
        dev[q].rho = u @ dev[q].rho @ u.conj().T
    n = len(clb)
    if set(meas) != set(range(n)):
        raise AssertionError('measured bits %s of %d' % (sorted(meas), n))
    probs = {}
    for v in range(2 ** n):
        p = 1.0
        for b in range(n):
            p *= meas[b] if v >> b & 1 else 1 - meas[b]
        probs[format(v, '0%db' % n)] = p
    return probs, {i: d.ids for i, d in dev.items()}, meas


@st.composite
def qubit_list(draw, mx=3, top=5):
    top = draw(st.sampled_from([top, top, top + 7]))
    mx = draw(st.sampled_from([mx, mx, mx, mx, 2 * mx]))
    return draw(st.permutations(list(range(top))))[:draw(st.integers(1, mx))]


@st.composite
def coherence_case(draw, kind):
    return {'kind': kind, 'qubits': draw(qubit_list()), 'seed': draw(st.integers(0, 10 ** 6)),
            'echos': draw(st.sampled_from([1, 2, 3, 4, 5, 10, 11])), 'alt': draw(st.booleans()), 'nosc': draw(st.integers(1, 4)),
            'list': draw(st.booleans()), 'split': draw(st.sampled_from([1, 2, 3, 6])), 'uniform': draw(st.booleans()),
            'zero': draw(st.booleans())}


def grid(r, num, top, uniform, zero):
    """increasing identity counts up to about top"""
    if uniform:
        step = max(1, top // num)
        g = step * (np.arange(num) + (0 if zero else 1))
    else:
        g = np.unique(np.concatenate([[0 if zero else 1], r.choice(np.arange(1, top), size=min(top - 1, num), replace=False), [top]]))
    return [int(v) for v in g]


def split_results(r, circs, probs, shots, parts):
    """the same total counts, spread over several results (experiments in arbitrary order, some missing in some)"""
    per = [[] for _ in range(parts)]
    for c, p in zip(circs, probs):
        left = qres.ints(p, shots)
        owners = list(r.permutation(parts))[:r.randint(1, parts + 1)]
        cr = [(x.name, x.size) for x in c.cregs]
        for i, o in enumerate(owners):
            part = dict(left) if i == len(owners) - 1 else {k: int(v * r.uniform(0.2, 0.8)) for k, v in left.items()}
            left = {k: v - part.get(k, 0) for k, v in left.items()}
            part = {k: v for k, v in part.items() if v}
            if part:
                per[o].append(qres.experiment(c.name, part, cr))
    out = []
    for exps in per:
        if exps:
            out.append(qres.result([exps[i] for i in r.permutation(len(exps))]))
    return out


def chi2(f, x, y, s, p):
    return float(np.sum(((f(np.asarray(x), *p) - y) / s) ** 2))


def judge_optimum(ctx, fit, series, q, truth):
    """the fitted parameters are at least as good a weighted fit as the true ones, and errors follow from the curvature"""
    y = np.array(fit.ydata[series][q]['mean'])
    s = np.array(fit.ydata[series][q]['std'])
    got = np.array(fit.params[series][q])
    ctx.check(chi2(fit.fit_fun, fit.xdata, y, s, got) <= chi2(fit.fit_fun, fit.xdata, y, s, truth) * (1 + 1e-3) + 1e-4 * len(y),
              'the fit is worse than the true parameters')


def make(c, r):
    kind = c['kind']
    qs = c['qubits']
    gt = float(r.uniform(0.02, 0.4))
    if kind == 't1':
        t = {q: float(r.uniform(20, 90)) for q in qs}
        dev = {q: Qubit(t1=t[q], t2=t[q] * r.uniform(0.3, 1.9), df=r.uniform(-.1, .1)) for q in qs}
        top = int(r.uniform(2.0, 3.0) * np.mean(list(t.values())) / gt)
        g = grid(r, 12, min(top, 900), c['uniform'], c['zero'])
        gt = top * gt / g[-1] if top > 900 else gt
        circs, x = t1_circuits(g if c['list'] else np.array(g), gt, qs)
        per = {q: 1 for q in qs}
        return kind, qs, dev, t, circs, x, gt, g, per, None
    if kind == 't2':
        t = {q: float(r.uniform(20, 90)) for q in qs}
        dev = {q: Qubit(t1=t[q] * r.uniform(0.6, 4), t2=t[q], df=r.uniform(-.1, .1)) for q in qs}
        n = c['echos']
        top = int(r.uniform(2.0, 3.0) * np.mean(list(t.values())) / gt / 2 / n)
        if top > 300:
            gt, top = gt * top / 300, 300
        if top < 20:
            gt, top = gt * top / 20, 20
        g = grid(r, 11, top, c['uniform'], c['zero'])
        circs, x = t2_circuits(g if c['list'] else np.array(g), gt, qs, n_echos=n, phase_alt_echo=c['alt'])
        return kind, qs, dev, t, circs, x, gt, g, {q: 2 * n for q in qs}, None
    t = {q: float(r.uniform(20, 90)) for q in qs}
    span = r.uniform(1.2, 2.0) * np.mean(list(t.values()))
    dev = {q: Qubit(t1=t[q] * r.uniform(0.6, 4), t2=t[q], df=r.uniform(-.4, .4) / span) for q in qs}
    num = 12 + 8 * c['nosc']
    top = max(int(span / gt), 2 * num)
    gt = span / top
    if top > 600:
        gt, top = span / 600, 600
    g = grid(r, num, top, c['uniform'], c['zero'])
    circs, x, osc = t2star_circuits(g if c['list'] else np.array(g), gt, qs, nosc=c['nosc'])
    return kind, qs, dev, t, circs, x, gt, g, {q: 1 for q in qs}, osc


def coherence(c, ctx):
    r = np.random.RandomState(c['seed'])
    kind, qs, dev, t, circs, x, gt, g, per, osc = make(c, r)
    ctx.check(len(circs) == len(g) == len(x), 'number of circuits or delays')
    ctx.close(np.asarray(x, dtype=float), gt * np.array(g) * per[qs[0]], 1e-9 * max(1, gt * g[-1] * per[qs[0]]), 'delays')
    probs = []
    for i, circ in enumerate(circs):
        p, ids, _ = run(circ, dev, gt)
        for q, k in ids.items():
            ctx.check(k == (g[i] * per[q] if q in per else 0), 'qubit %d idles for %d identities in circuit %d', q, k, i)
        for inst, qa, _ in circ.data:
            if inst.name != 'barrier':
                ctx.check(all(circ.qubits.index(b) in qs for b in qa), 'a gate on a qubit that is not listed')
        probs.append(p)
    results = split_results(r, circs, probs, SHOTS, c['split'])
    p0t = np.mean([t[q] for q in qs])
    sign = 1
    if kind == 't1':
        truth = {q: (1.0, t[q], 0.0) for q in qs}
        cls = T1Fitter
        p0 = [0.9, p0t * r.uniform(.8, 1.25), 0.1]
        bounds = ([-2, 0.1, -2], [2, 1e4, 2])
    elif kind == 't2':
        n = c['echos']
        ys = n - (n // 2 if c['alt'] else 0)
        sign = 1 if ys % 2 else -1
        truth = {q: (0.5 * sign, t[q], 0.5) for q in qs}
        cls = T2Fitter
        p0 = [0.4 * sign, p0t * r.uniform(.8, 1.25), 0.5]
        bounds = ([-2, 0.1, -2], [2, 1e4, 2])
    else:
        if osc is not None:
            ctx.close(float(osc) * float(x[-1]), c['nosc'], 1e-9, 'induced oscillations over the longest delay')
        truth = {q: (0.5, t[q], osc + dev[q].df, 0.0, 0.5) for q in qs}
        cls = T2StarFitter
        p0 = [0.5, p0t, osc, 0.0, 0.5]
        bounds = ([0, 0.1, 0, -1.5, 0], [1.5, 1e4, 10, 1.5, 1])
    fit = cls(None, x, qs, p0, bounds)
    for i, res in enumerate(results):
        fit.add_data(res, recalc=i == len(results) - 1, refit=False)
    for k, q in enumerate(qs):
        if kind == 't2star':
            start = [0.45, truth[q][1] * r.uniform(.85, 1.2), truth[q][2] + r.uniform(-.1, .1) / x[-1], 0.1, 0.5]
            fit.fit_data(qid=k, p0=start)
        else:
            fit.fit_data(qid=k, p0=[truth[q][0] * .9, truth[q][1] * r.uniform(.8, 1.25), truth[q][2]])
        ctx.close(np.array(fit.ydata['0'][k]['mean']), fit.fit_fun(np.asarray(x), *truth[q]), 1e-6,
                  'signal of qubit %d of a %s experiment' % (q, kind))
        got = np.array(fit.params['0'][k])
        ctx.close(got[1] / truth[q][1], 1.0, 2e-3, '%s of qubit %d (true %s)' % (kind, q, truth[q][1]))
        ctx.close(float(fit.time(k)), float(got[1]), 0, 'reported time')
        ctx.close(float(fit.time_err(k)), float(fit.params_err['0'][k][1]), 0, 'reported error')
        for j in [0] + list(range(2, len(got))):
            ctx.close(got[j], truth[q][j], 2e-3 if kind != 't2star' or j != 2 else 2e-3 / x[-1], 'fit parameter %d' % j)
        judge_optimum(ctx, fit, '0', k, truth[q])
    ctx.close([float(v) for v in fit.time()], [float(fit.params['0'][k][1]) for k in range(len(qs))], 0, 'times of all qubits')
    ctx.close([float(v) for v in fit.time_err()], [float(fit.params_err['0'][k][1]) for k in range(len(qs))], 0, 'errors of all qubits')
    ctx.check(list(fit.measured_qubits) == list(qs), 'measured qubits')
    # all at once, one guess for every qubit
    if kind != 't2star':
        fit2 = cls(results if len(results) > 1 else results[0], x, qs, p0, bounds)
        for k, q in enumerate(qs):
            ctx.close(fit2.time(k) / t[q], 1.0, 2e-3, '%s of qubit %d, all results at once' % (kind, q))
    elif c['uniform'] and c['nosc'] >= 2:
        for k, q in enumerate(qs):
            guess = fit.guess_params(k)
            binw = 1 / (len(x) * (x[1] - x[0]))
            ctx.check(abs(abs(guess[2]) - truth[q][2]) <= 1.2 * binw, 'frequency guess %s for %s', guess[2], truth[q][2])
    if c['seed'] % 4 == 0:
        k = c['seed'] // 4 % len(qs)
        ax = fit.plot(k, '0', show_plot=False)
        lines = ax.get_lines()
        data = [ln for ln in lines if len(ln.get_xdata()) == len(x)]
        ctx.check(len(data) >= 2, 'plot lacks data or fit')
        ctx.close(np.asarray(data[0].get_ydata(), dtype=float), fit.ydata['0'][k]['mean'], 1e-9, 'plotted data')
        ctx.close(np.asarray(data[-1].get_ydata(), dtype=float), fit.fit_fun(np.asarray(x), *fit.params['0'][k]), 1e-9, 'plotted fit')
        plt.close('all')
    ctx.nontrivial(len(qs) > 1 or c['split'] > 1)
    ctx.label('results%d' % len(results))


facet('t1', coherence_case('t1'), quick=120, thorough=2000, shards=4, rule='several qubits or results')(coherence)
facet('t2', coherence_case('t2'), quick=120, thorough=2000, shards=4, rule='several qubits or results')(coherence)
facet('t2star', coherence_case('t2star'), quick=120, thorough=2000, shards=4, rule='several qubits or results')(coherence)


@st.composite
def zz_case(draw):
    n = draw(st.sampled_from([1, 2, 3, 4, 6]))
    order = draw(st.permutations(list(range(8 if n < 5 else 14))))
    specs = order[len(order) // 2:][:n]
    if draw(st.sampled_from([False, False, True])):
        specs = [draw(st.sampled_from(specs)) for _ in range(n)]
    return {'qubits': order[:n], 'specs': list(specs), 'nosc': draw(st.integers(2, 5)), 'seed': draw(st.integers(0, 10 ** 6)),
            'list': draw(st.booleans()), 'split': draw(st.integers(1, 3)), 'zero': draw(st.booleans()), 'plot': draw(st.integers(0, 5))}


@facet('zz', zz_case(), quick=100, thorough=1500, shards=4, rule='several qubits or results')
def zz(c, ctx):
    r = np.random.RandomState(c['seed'])
    qs, specs = c['qubits'], c['specs']
    num = 14 + 6 * c['nosc']
    span = float(r.uniform(5, 40))
    top = int(r.randint(2 * num, 200))
    g = grid(r, num, top, True, c['zero'])
    gt = span / g[-1]
    circs, x, osc = zz_circuits(g if c['list'] else np.array(g), gt, qs, specs, nosc=c['nosc'])
    ctx.close(np.asarray(x, dtype=float), gt * np.array(g), 1e-9 * span, 'delays')
    ctx.close(float(osc) * span, c['nosc'], 1e-9, 'induced oscillations')
    ctx.check(len(circs) == 2 * len(g), 'number of circuits')
    dev = {q: Qubit(df=r.uniform(-.3, .3) / span) for q in qs}
    zeta = {q: float(r.uniform(-.6, .6) / span) for q in qs}
    spec = dict(zip(qs, specs))
    probs = []
    for circ in circs:
        p, ids, _ = run(circ, dev, gt, zeta, spec)
        probs.append(p)
        k = int(circ.name.split('_')[1])
        for q in qs:
            ctx.check(ids[q] == g[k], 'identities on qubit %d', q)
    results = split_results(r, circs, probs, SHOTS, c['split'])
    fit = ZZFitter(None, x, qs, specs, [0.5, osc, 0.0, 0.5], ([0, 0, -1.5, 0], [1.5, 100, 1.5, 1]))
    for i, res in enumerate(results):
        fit.add_data(res, recalc=i == len(results) - 1, refit=False)
    for k, q in enumerate(qs):
        for s in (0, 1):
            f = osc + dev[q].df + s * zeta[q]
            fit.fit_data(qid=k, p0=[0.48, f + r.uniform(-.1, .1) / span, 0.05, 0.5], series=str(s))
            ctx.close(np.array(fit.ydata[str(s)][k]['mean']), 0.5 + 0.5 * np.cos(2 * np.pi * f * np.asarray(x)), 1e-6, 'signal with spectator in state %d' % s)
            ctx.close(fit.params[str(s)][k][1] * span, f * span, 2e-3, 'frequency with spectator in state %d' % s)
        ctx.close(float(fit.ZZ_rate(k)) * span, zeta[q] * span, 4e-3, 'ZZ rate')
    if all(abs(dev[q].df * span) < .25 and abs((dev[q].df + zeta[q]) * span) < .25 for q in qs):
        single = [[np.array(fit.params_err[str(s)][k]) for k in range(len(qs))] for s in (0, 1)]
        at_once = ZZFitter(results, x, qs, specs, [0.5, osc, 0.0, 0.5], ([0, 0, -1.5, 0], [1.5, 100, 1.5, 1]))
        for k, q in enumerate(qs):
            ctx.close(float(at_once.ZZ_rate(k)) * span, zeta[q] * span, 4e-3, 'ZZ rate, everything fitted at once')
            for s in (0, 1):
                ctx.check(np.shape(at_once.params_err[str(s)][k]) == (4,) and np.all(np.isfinite(at_once.params_err[str(s)][k])), 'errors of qubit %d', q)
                ctx.check(np.all(np.array(at_once.params_err[str(s)][k]) <= 10 * single[s][k] + 1e-3), 'errors of qubit %d: %s, when fitted alone %s', q,
                          at_once.params_err[str(s)][k], single[s][k])
    ctx.close(np.asarray(fit.ZZ_rate()), [float(fit.ZZ_rate(k)) for k in range(len(qs))], 1e-15, 'ZZ rates of all qubits')
    if c['plot'] == 0:
        ax = fit.plot_ZZ(len(qs) - 1)
        data = [ln for ln in ax.get_lines() if len(ln.get_xdata()) == len(x)]
        ctx.check(len(data) >= 4, 'ZZ plot lacks curves')
        plt.close('all')
    ctx.nontrivial(len(qs) > 1 or c['split'] > 1)


@st.composite
def bad_case(draw):
    return {'what': draw(st.sampled_from(['echo', 'length', 'overlap'])), 'qubits': draw(qubit_list(3, 4)), 'v': draw(st.integers(-3, 0)),
            'g': draw(st.lists(st.integers(1, 5), min_size=2, max_size=4))}


@facet('rejects', bad_case(), quick=80, thorough=800, rule='always')
def rejects(c, ctx):
    g = list(np.cumsum(c['g']))
    if c['what'] == 'echo':
        ctx.raises(ValueError, lambda: t2_circuits(g, 0.1, c['qubits'], n_echos=c['v']), 'no echo accepted')
    elif c['what'] == 'length':
        ctx.raises(ValueError, lambda: zz_circuits(np.array(g), 0.1, c['qubits'], [7] * (len(c['qubits']) + 1)), 'numbers of qubits and spectators differ')
    else:
        ctx.raises(ValueError, lambda: zz_circuits(np.array(g), 0.1, c['qubits'], [7] * (len(c['qubits']) - 1) + [c['qubits'][c['v'] % len(c['qubits'])]]),
                   'a qubit is its own spectator')
    ctx.nontrivial()


@st.composite
def pool_case(draw):
    n = draw(st.sampled_from([1, 2, 3, 4, 4, 7]))
    pts = draw(st.sampled_from([1, 2, 3, 4, 5, 12]))
    parts = draw(st.sampled_from([1, 2, 3, 4, 8]))
    exps = draw(st.lists(st.tuples(st.integers(0, parts - 1), st.integers(0, pts - 1), st.integers(0, 1),
                                   st.dictionaries(st.integers(0, 2 ** n - 1), st.integers(1, 3000), min_size=1, max_size=6)),
                         max_size=24))
    return {'n': n, 'pts': pts, 'parts': parts, 'exps': [list(e[:3]) + [{format(k, 'b'): v for k, v in e[3].items()}] for e in exps],
            'kind': draw(st.sampled_from(['t1', 't2', 't2base', 't2star', 'zz'])), 'seed': draw(st.integers(0, 10 ** 6)),
            'base': draw(st.sampled_from(['t2', 'cpmg', 'x_1'])), 'ctor': draw(st.booleans()), 'order': draw(st.permutations(list(range(parts))))}


@facet('pooling', pool_case(), quick=300, thorough=5000, shards=4, rule='several results and qubits')
def pooling(c, ctx):
    n, pts = c['n'], c['pts']
    base = {'t1': 't1', 't2': 't2', 't2base': c['base'], 't2star': 't2star', 'zz': 'zz'}[c['kind']]
    series = ['0', '1'] if c['kind'] == 'zz' else ['0']
    data = {}
    for part, pt, s, cnt in c['exps']:
        s = str(s) if c['kind'] == 'zz' else '0'
        data.setdefault(part, {})[(pt, s)] = {int(k, 2): v for k, v in cnt.items()}
    # every point has data somewhere
    for pt in range(pts):
        for s in series:
            if not any((pt, s) in d for d in data.values()):
                data.setdefault(pt % c['parts'], {})[(pt, s)] = {pt % 2 ** n: 7, 0: 3}
    total = {}
    for d in data.values():
        for key, cnt in d.items():
            for k, v in cnt.items():
                total.setdefault(key, {})[k] = total.setdefault(key, {}).get(k, 0) + v
    r = np.random.RandomState(c['seed'])
    results = []
    for part in c['order']:
        if part in data:
            exps = [qres.experiment('%scircuit_%d_%s' % (base, pt, s), cnt, [('c', n)]) for (pt, s), cnt in data[part].items()]
            results.append(qres.result([exps[i] for i in r.permutation(len(exps))]))
    keep = [res.to_dict() for res in results]
    x = np.arange(1, pts + 1) * 1.5
    qs = list(r.permutation(9)[:n])
    want1 = c['kind'] == 't1'
    args = ([0.5, 10, 0.5], ([-2, 0.1, -2], [2, 1e4, 2]))
    if c['kind'] == 't1':
        fit = T1Fitter(None, x, qs, *args)
    elif c['kind'] == 't2':
        fit = T2Fitter(None, x, qs, *args)
    elif c['kind'] == 't2base':
        fit = T2Fitter(None, x, qs, *args, circbasename=c['base'])
    elif c['kind'] == 't2star':
        fit = T2StarFitter(None, x, qs, [0.5, 10, .1, 0, 0.5], ([-2, 0.1, -2, -4, -4], [2, 1e4, 4, 4, 4]))
    else:
        fit = ZZFitter(None, x, qs, qs, [0.5, 1, 0, 0.5], ([-2, 0.1, -2, -4], [2, 1e4, 4, 4]))
    if c['ctor']:
        for i, res in enumerate(results):
            fit.add_data([res] if i % 2 else res, recalc=i == len(results) - 1, refit=False)
    else:
        fit.add_data(results, refit=False)
    for s in series:
        ctx.check(len(fit.ydata[s]) == n, 'number of qubits in the data')
        for q in range(n):
            mean, std = [], []
            for pt in range(pts):
                cnt = total[(pt, s)]
                tot = sum(cnt.values())
                ones = sum(v for k, v in cnt.items() if k >> q & 1)
                p = (ones if want1 else tot - ones) / tot
                mean.append(p)
                sd = (p * (1 - p) / tot) ** .5
                std.append(sd if sd > 0 else 1e-4)
            ctx.close(np.array(fit.ydata[s][q]['mean'], dtype=float), mean, 1e-12, 'pooled frequency of qubit %d' % q)
            ctx.close(np.array(fit.ydata[s][q]['std'], dtype=float), std, 1e-12, 'standard deviation of qubit %d' % q)
    ctx.check([res.to_dict() for res in results] == keep, 'results were modified')
    ctx.check(len(fit.backend_result) == len(results), 'results kept')
    ctx.nontrivial(len(results) > 1 and n > 1)


@st.composite
def noisy_case(draw):
    return {'kind': draw(st.sampled_from(['t1', 't2'])), 'seed': draw(st.integers(0, 10 ** 6)), 'shots': draw(st.sampled_from([500, 2000, 20000])),
            'n': draw(st.integers(1, 2)), 'list': draw(st.booleans())}


@facet('statistics', noisy_case(), quick=150, thorough=2500, shards=2, rule='always')
def statistics(c, ctx):
    """noisy data: the fit is a weighted least-squares optimum and its errors follow from the curvature there"""
    r = np.random.RandomState(c['seed'])
    n = c['n']
    x = np.sort(r.uniform(1, 150, 14))
    truth = [(r.uniform(.4, .5), r.uniform(30, 60), r.uniform(.3, .5)) for _ in range(n)]
    f = lambda t, a, tau, b: a * np.exp(-np.asarray(t) / tau) + b  # noqa: E731
    exps = []
    for i in range(len(x)):
        ps = [np.clip(f(x[i], *tr), 0, 1) for tr in truth]
        k = [r.binomial(c['shots'], p) for p in ps]
        cnt = {}
        for s in range(c['shots']):
            v = 0
            for q in range(n):
                one = s < k[q] if q == 0 else (s * 7 + 3) % c['shots'] < k[q]
                if c['kind'] == 't2':
                    one = not one
                v |= int(one) << q
            cnt[v] = cnt.get(v, 0) + 1
        exps.append(qres.experiment('%scircuit_%d_0' % (c['kind'], i), cnt, [('c', n)]))
    cls = T1Fitter if c['kind'] == 't1' else T2Fitter
    fit = cls(qres.result(exps), list(x) if c['list'] else x, list(range(n)), [0.45, 45, 0.4], ([-5, 0.1, -5], [5, 1e5, 5]))
    for q in range(n):
        y, s = np.array(fit.ydata['0'][q]['mean']), np.array(fit.ydata['0'][q]['std'])
        got = np.array(fit.params['0'][q])
        ctx.check(chi2(f, x, y, s, got) <= chi2(f, x, y, s, truth[q]) + 1e-6, 'the fit is worse than the truth')
        jac = []
        for j in range(3):
            h = 1e-5 * max(1e-2, abs(got[j]))
            up, dn = got.copy(), got.copy()
            up[j] += h
            dn[j] -= h
            jac.append((f(x, *up) - f(x, *dn)) / (2 * h) / s)
        jac = np.array(jac).T
        grad = jac.T @ ((f(x, *got) - y) / s)
        step = np.linalg.lstsq(jac.T @ jac, grad, rcond=None)[0]
        err = np.sqrt(np.diag(np.linalg.inv(jac.T @ jac)) * chi2(f, x, y, s, got) / (len(x) - 3))
        if got[1] < 300:
            ctx.check(np.all(np.abs(step) <= 0.02 * err + 1e-6 * np.abs(got)), 'the fit stopped away from the optimum')
            ctx.close(np.array(fit.params_err['0'][q]) / err, np.ones(3), 0.05, 'parameter errors')
    if c['seed'] % 5 == 0:
        ax = fit.plot(0, '0')
        line = [ln for ln in ax.get_lines() if len(ln.get_xdata()) == len(x)][-1]
        ctx.close(np.asarray(line.get_ydata(), dtype=float), f(x, *fit.params['0'][0]), 1e-9, 'plotted fit')
        plt.close('all')
    ctx.nontrivial()


@facet('helpers', st.fixed_dictionaries({'gt': st.floats(0.01, 5), 'n': st.lists(st.integers(0, 300), min_size=1, max_size=8),
                                         'off': st.floats(-0.45, 0.45), 'size': st.integers(1, 4), 'q': st.integers(0, 3)}),
       quick=150, thorough=1500, rule='always')
def helpers(c, ctx):
    times = [c['gt'] * (k + c['off']) for k in c['n']]
    got = time_to_ngates(times, c['gt'])
    ctx.check([int(v) for v in got] == [int(k) for k in c['n']], 'gate counts %s of times %s', got, times)
    qr = QuantumRegister(c['size'])
    circ = QuantumCircuit(qr)
    q = c['q'] % c['size']
    out = pad_id_gates(circ, qr, q, c['n'][0])
    ids = [qa[0] for inst, qa, _ in out.data if inst.name == 'id']
    ctx.check(out is circ and len(ids) == c['n'][0] and all(b == qr[q] for b in ids), 'identity padding')
    ctx.check(all(inst.name in ('id', 'barrier') and qa == [qr[q]] for inst, qa, _ in out.data), 'padding adds only identities and barriers on the qubit')
    # a barrier separates identities, so that no compiler merges them
    seq = [inst.name for inst, _, _ in out.data]
    ctx.check('id id' not in ' '.join(seq), 'identities are not separated')
    ctx.nontrivial()
