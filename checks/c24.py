"""C24: gate-calibration experiments recover the injected gate error."""
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np
from hypothesis import strategies as st
from qiskit.ignis.characterization.gates import (AmpCalCXFitter, AmpCalFitter, AngleCalCXFitter, AngleCalFitter,
                                                 ampcal_1Q_circuits, ampcal_cx_circuits, anglecal_1Q_circuits,
                                                 anglecal_cx_circuits)

import qres
from harness import facet

ASSUMPTIONS = ['the initial guess of a fit is within the basin of the true error']
SHOTS = 10 ** 8


def apply(psi, u, qs, n):
    """u acts on qubits qs (first = least significant)"""
    k = len(qs)
    t = psi.reshape([2] * n)
    axes = [n - 1 - q for q in reversed(qs)]
    t = np.tensordot(u.reshape([2] * (2 * k)), t, axes=(list(range(k, 2 * k)), axes))
    t = np.moveaxis(t, list(range(k)), axes)
    return t.reshape(-1)


def run(circ, errors):
    """distribution of the measured bits; errors: {(gate name, qubits): unitary after the gate}"""
    n = len(circ.qubits)
    idx = {q: i for i, q in enumerate(circ.qubits)}
    clb = {b: i for i, b in enumerate(circ.clbits)}
    psi = np.zeros(2 ** n, dtype=complex)
    psi[0] = 1
    meas = {}
    used = {}
    for inst, qa, ca in circ.data:
        if inst.name in ('barrier', 'id'):
            continue
        qs = [idx[q] for q in qa]
        if inst.name == 'measure':
            meas[clb[ca[0]]] = qs[0]
            continue
        key = (inst.name, tuple(qs))
        used[key] = used.get(key, 0) + 1
        psi = apply(psi, inst.to_matrix(), qs, n)
        if key in errors:
            psi = apply(psi, errors[key], qs, n)
    m = len(clb)
    if set(meas) != set(range(m)):
        raise AssertionError('measured bits')
    probs = np.abs(psi) ** 2
    out = {}
    for v in range(2 ** n):
        key = ''.join(str(v >> meas[b] & 1) for b in reversed(range(m)))
        out[key] = out.get(key, 0.0) + probs[v]
    return out, used, meas


KINDS = {'amp1': (ampcal_1Q_circuits, AmpCalFitter, 2), 'angle1': (anglecal_1Q_circuits, AngleCalFitter, 2),
         'ampcx': (ampcal_cx_circuits, AmpCalCXFitter, 1), 'anglecx': (anglecal_cx_circuits, AngleCalCXFitter, 1)}


@st.composite
def case(draw, kind):
    n = draw(st.sampled_from([1, 2, 3, 3, 5]))
    order = draw(st.permutations(list(range(7 if n < 4 else 12))))
    err = st.one_of(st.just(0.0), st.floats(-0.2, 0.2).filter(lambda v: abs(v) > 1e-3))
    errs = draw(st.lists(err, min_size=n, max_size=n))
    if 'angle' in kind:
        errs = [errs[0]] * n
    controls = order[n:2 * n]
    if draw(st.sampled_from([False, False, True])):
        controls = [draw(st.sampled_from(controls)) for _ in range(n)]      # shared between targets
    return {'kind': kind, 'qubits': order[:n], 'controls': controls, 'errs': errs, 'reps': draw(st.one_of(st.integers(5, 12), st.integers(13, 30))),
            'seed': draw(st.integers(0, 10 ** 6)), 'split': draw(st.sampled_from([1, 2, 3, 6])), 'oneshot': draw(st.booleans())}


def body(c, ctx):
    kind, qs, reps = c['kind'], c['qubits'], c['reps']
    make, cls, step = KINDS[kind]
    r = np.random.RandomState(c['seed'])
    errors = {}
    if kind == 'amp1':
        circs, x = make(reps, qs)
        for q, e in zip(qs, c['errs']):
            errors[('u2', (q,))] = np.array([[np.cos(e), -np.sin(e)], [np.sin(e), np.cos(e)]], dtype=complex)
    elif kind == 'angle1':
        circs, x = make(reps, qs, angleerr=c['errs'][0])
    elif kind == 'ampcx':
        circs, x = make(reps, qs, c['controls'])
        for q, ct, e in zip(qs, c['controls'], c['errs']):
            u = np.eye(4, dtype=complex)
            # control is the least significant bit
            for a in (0, 1):
                u[1 + 2 * a, 1 + 2 * a] = np.cos(e)
                u[1 + 2 * a, 1 + 2 * (1 - a)] = -1j * np.sin(e)
            errors[('cx', (ct, q))] = u
    else:
        circs, x = make(reps, qs, c['controls'], angleerr=c['errs'][0])
    ctx.check(len(circs) == reps and list(np.asarray(x)) == [step * i for i in range(reps)], 'repetitions %s', list(x))
    probs = []
    for i, circ in enumerate(circs):
        p, used, meas = run(circ, errors)
        ctx.check([meas[b] for b in range(len(qs))] == list(qs), 'measured qubits')
        for g, on in used:
            ctx.check(set(on) <= set(qs) | (set(c['controls']) if 'cx' in kind else set()), 'gate on another qubit')
            if len(on) == 2:
                ctx.check((on[0], on[1]) in zip(c['controls'], qs), 'entangling gate between the wrong qubits')
        for k, q in enumerate(qs):
            if 'cx' in kind:
                ctx.check(used.get(('cx', (c['controls'][k], q)), 0) == x[i], 'number of CX gates')
            else:
                want = x[i] + 1 if kind == 'amp1' else 2 * x[i] + 2
                ctx.check(used.get(('u2', (q,)), 0) == want, 'number of pulses on qubit %d', q)
        probs.append(p)
    per = [[] for _ in range(c['split'])]
    for circ, p in zip(circs, probs):
        left = qres.ints(p, SHOTS)
        cr = [(a.name, a.size) for a in circ.cregs]
        owners = list(r.permutation(c['split']))
        for i, o in enumerate(owners):
            part = dict(left) if i == len(owners) - 1 else {k: int(v * r.uniform(.2, .8)) for k, v in left.items()}
            left = {k: v - part.get(k, 0) for k, v in left.items()}
            part = {k: v for k, v in part.items() if v}
            if part:
                per[o].append(qres.experiment(circ.name, part, cr))
    results = [qres.result([e[i] for i in r.permutation(len(e))]) for e in per if e]
    fit = cls(None, x, qs, [0.01, 0.5], ([-np.pi, -2], [np.pi, 2]))
    for i, res in enumerate(results):
        fit.add_data(res, recalc=i == len(results) - 1, refit=False)
    xs = np.asarray(x)
    for k, e in enumerate(c['errs']):
        y = np.array(fit.ydata['0'][k]['mean'])
        if e == 0:
            ctx.close(y, 0.5 * np.ones(reps), 1e-6, 'signal of perfect gates on qubit %d' % qs[k])
        ctx.close(y, fit.fit_fun(xs, 2 * e, 0.5), 1e-6, 'signal of qubit %d with error %s' % (qs[k], e))
        start = [2 * e + r.uniform(-.5, .5) / xs[-1], r.uniform(.4, .6)]
        if kind == 'amp1' and abs(e) < 0.06 and c['seed'] % 2:
            start = fit.guess_params(k)
            ctx.check(abs(start[0] - 2 * e) < 0.15 * abs(2 * e) + 1e-6, 'guess %s for error %s', start, e)
        fit.fit_data(qid=k, p0=start)
        ctx.close(float(fit.angle_err(k)), e, 1e-4, 'error of qubit %d' % qs[k])
        ctx.close(fit.fit_fun(xs, *fit.params['0'][k]), y, 1e-4, 'fitted model')
    ctx.close(np.asarray(fit.angle_err(), dtype=float), [float(fit.angle_err(k)) for k in range(len(qs))], 1e-15, 'errors of all qubits')
    if len(set(c['errs'])) == 1 and c['oneshot']:
        e = c['errs'][0]
        fit2 = cls(results if len(results) > 1 else results[0], x, qs, [2 * e + .2 / xs[-1], 0.5], ([-np.pi, -1], [np.pi, 1]))
        ctx.close(np.asarray(fit2.angle_err(), dtype=float), [e] * len(qs), 1e-4, 'errors when fitted at once')
    if c['seed'] % 5 == 0:
        ax = fit.plot(len(qs) - 1)
        data = [ln for ln in ax.get_lines() if len(ln.get_xdata()) == reps]
        ctx.close(np.asarray(data[0].get_ydata(), dtype=float), fit.ydata['0'][len(qs) - 1]['mean'], 1e-9, 'plotted data')
        ctx.close(np.asarray(data[-1].get_ydata(), dtype=float), fit.fit_fun(xs, *fit.params['0'][len(qs) - 1]), 1e-9, 'plotted fit')
        plt.close('all')
    ctx.nontrivial(any(c['errs']))
    ctx.label('qubits%d' % len(qs))
    if 'cx' in kind and len(set(c['controls'])) < len(qs):
        ctx.label('shared control')


for _kind in KINDS:
    facet(_kind, case(_kind), quick=200, thorough=4000, shards=4, rule='a gate error is present')(body)


@st.composite
def pool_case(draw):
    n = draw(st.sampled_from([1, 2, 3, 6]))
    reps = draw(st.sampled_from([2, 3, 4, 5, 12]))
    cnt = st.dictionaries(st.integers(0, 2 ** n - 1), st.integers(1, 3000), min_size=1, max_size=5)
    runs = draw(st.lists(st.lists(cnt, min_size=reps, max_size=reps), min_size=1, max_size=draw(st.sampled_from([3, 3, 8]))))
    return {'n': n, 'reps': reps, 'runs': [[{format(k, 'b'): v for k, v in d.items()} for d in one] for one in runs],
            'kind': draw(st.sampled_from(sorted(KINDS)))}


@facet('pooling', pool_case(), quick=200, thorough=3000, shards=2, rule='several results')
def pooling(c, ctx):
    base = {'amp1': 'ampcal1Q', 'angle1': 'anglecal1Q', 'ampcx': 'ampcalcx', 'anglecx': 'anglecalcx'}[c['kind']]
    results = []
    for one in c['runs']:
        exps = [qres.experiment('%scircuit_%d_0' % (base, i), {int(k, 2): v for k, v in d.items()}, [('c', c['n'])]) for i, d in enumerate(one)]
        results.append(qres.result(exps[::-1] if len(results) % 2 else exps))
    fit = KINDS[c['kind']][1](None, np.arange(c['reps']), list(range(c['n'])), [0.1, 0.5], ([-3, -3], [3, 3]))
    fit.add_data(results, refit=False)
    for q in range(c['n']):
        for i in range(c['reps']):
            tot = sum(sum(one[i].values()) for one in c['runs'])
            ones = sum(v for one in c['runs'] for k, v in one[i].items() if int(k, 2) >> q & 1)
            ctx.close(fit.ydata['0'][q]['mean'][i], ones / tot, 1e-12, 'excited-state frequency')
            sd = (ones / tot * (1 - ones / tot) / tot) ** .5
            ctx.close(fit.ydata['0'][q]['std'][i], sd if sd > 0 else 1e-4, 1e-12, 'deviation')
    ctx.nontrivial(len(results) > 1)
