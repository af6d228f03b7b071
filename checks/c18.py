"""C18: quantum-volume heavy-output statistics and verdicts are exact."""
import math

import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np
from hypothesis import strategies as st
from qiskit import QiskitError
from qiskit.qobj import QobjExperimentHeader
from qiskit.result.models import ExperimentResult, ExperimentResultData
from qiskit.ignis.verification.quantum_volume import QVFitter

import qres
import sim
from harness import facet

ASSUMPTIONS = ['statistics are computed once all circuits of all trials have data (add_data with rerun_fit=False before)']


@st.composite
def case(draw):
    widths = sorted(draw(st.lists(st.sampled_from([1, 2, 3, 4, 5, 6, 10]), unique=True, min_size=1, max_size=draw(st.sampled_from([3, 3, 6])))))
    trials = draw(st.sampled_from([1, 2, 3, 4, 5, 6, 12]))
    return {'widths': widths, 'trials': trials, 'seed': draw(st.integers(0, 10 ** 6)),
            'state': draw(st.sampled_from(['random', 'random', 'ties', 'uniform', 'basis'])),
            'quality': draw(st.sampled_from([0.0, 0.3, 0.5, 0.8, 1.0])),
            'shots': [draw(st.integers(1, 400)) for _ in range(6)],
            'parts': draw(st.sampled_from([1, 2, 3, 6])), 'order': draw(st.integers(0, 10 ** 6)), 'single': draw(st.booleans()),
            'calls': draw(st.integers(1, 3)), 'ctor': draw(st.booleans())}


def sv_result(items):
    """items: [(name, vector)]"""
    exps = []
    for name, vec in items:
        n = int(np.log2(len(vec)))
        exps.append(ExperimentResult(shots=1, success=True, meas_level=2, data=ExperimentResultData(statevector=np.array(vec)),
                                     header=QobjExperimentHeader(name=name, memory_slots=0, creg_sizes=[], n_qubits=n)))
    return qres.result(exps)


def make(c):
    r = np.random.RandomState(c['seed'])
    ideal, counts, parts = {}, {}, {}
    for w in c['widths']:
        for t in range(c['trials']):
            name = 'qv_depth_%d_trial_%d' % (w, t)
            d = 2 ** w
            if c['state'] == 'random':
                v = sim.rand_state(d, r)
            elif c['state'] == 'uniform':
                v = np.ones(d) / np.sqrt(d)
            elif c['state'] == 'basis':
                v = np.eye(d)[r.randint(d)]
            else:                      # exact ties on dyadic probabilities
                p = r.choice([0.0, 1.0, 1.0, 2.0, 4.0], size=d)
                p[0] += 1
                v = np.sqrt(p)          # not normalised: heavy outputs only depend on the order
                v = v / 2.0 ** np.ceil(np.log2(max(1.0, np.sqrt(np.sum(p)))))
            ideal[name] = np.array(v, dtype=complex)
            p = np.abs(v) ** 2 / np.sum(np.abs(v) ** 2)
            q = c['quality'] * p + (1 - c['quality']) / d
            parts[name] = []
            for k in range(c['parts']):
                shots = c['shots'][k] + (t if k == 0 else 0)
                x = r.multinomial(shots, q / q.sum())
                parts[name].append({format(i, '0%db' % w): int(m) for i, m in enumerate(x) if m})
            tot = {}
            for p_ in parts[name]:
                for k_, m in p_.items():
                    tot[k_] = tot.get(k_, 0) + m
            counts[name] = tot
    return ideal, counts, parts


def expected(c, ideal, counts):
    heavy, hcounts, hideal, hexp = {}, {}, {}, {}
    for name, v in ideal.items():
        w = int(name.split('_')[2])
        p = np.abs(v) ** 2
        med = np.median(p)
        heavy[name] = {format(i, '0%db' % w) for i in range(2 ** w) if p[i] > med}
        hcounts[name] = sum(m for k, m in counts[name].items() if k in heavy[name])
        hideal[name] = sum(p[int(k, 2)] for k in heavy[name])
        hexp[name] = hcounts[name] / sum(counts[name].values())
    y = []
    for w in c['widths']:
        names = ['qv_depth_%d_trial_%d' % (w, t) for t in range(c['trials'])]
        m = sum(hcounts[n] for n in names) / sum(sum(counts[n].values()) for n in names)
        mi = float(np.mean([hideal[n] for n in names]))
        y.append([m, math.sqrt(m * (1 - m) / c['trials']), mi, math.sqrt(max(0.0, mi * (1 - mi)) / c['trials'])])
    return heavy, hcounts, hideal, hexp, np.array(y).T


def exps_of(parts):
    return [qres.experiment(n, p, [('measure', int(n.split('_')[2]))]) for n, ps in parts.items() for p in ps]


@facet('fitter', case(), quick=700, thorough=12000, shards=4, rule='several results, trials or widths')
def fitter(c, ctx):
    ideal, counts, parts = make(c)
    heavy, hcounts, hideal, hexp, y = expected(c, ideal, counts)
    o = np.random.RandomState(c['order'])
    names = list(ideal)
    o.shuffle(names)
    lists = [list(range(w)) for w in c['widths']]
    # a result holds every circuit at most once
    groups = []
    for k in range(c['parts']):
        for n in names:
            if c['single'] or not groups or any(e.header.name == n for e in groups[-1]) or o.randint(4) == 0:
                groups.append([])
            groups[-1].append(qres.experiment(n, parts[n][k], [('measure', int(n.split('_')[2]))]))
    o.shuffle(groups)
    results = [qres.result(g) for g in groups]
    svs = []
    for n in names:
        if not svs or o.randint(3) == 0:
            svs.append([])
        svs[-1].append((n, ideal[n]))
    o.shuffle(svs)
    svs = [sv_result(s) for s in svs]
    if c['ctor']:
        f = QVFitter(results if len(results) > 1 else results[0], svs if len(svs) > 1 else svs[0], lists)
    else:
        f = QVFitter(qubit_lists=lists)
        ctx.raises(QiskitError, lambda: f.add_data(results), 'data is accepted before the ideal results')
        for s in svs:
            f.add_statevectors(s)
        cut = sorted(o.randint(0, len(results) + 1, size=c['calls'] - 1).tolist())
        prev = 0
        for k in cut:
            if k > prev:
                f.add_data(results[prev:k], rerun_fit=False)
                prev = k
        if prev < len(results):
            f.add_data(results[prev:])
        else:
            f.calc_data()
            f.calc_statistics()
    ctx.raises(QiskitError, lambda: f.add_statevectors(svs[0]), 'the ideal result of a circuit is accepted twice')
    ctx.check(list(f.depths) == c['widths'], 'depths %s', f.depths)
    for n in names:
        ctx.check(len(f.heavy_outputs[n]) == len(heavy[n]) and set(f.heavy_outputs[n]) == heavy[n], 'heavy outputs %s of %s, expected %s',
                  sorted(f.heavy_outputs[n]), n, sorted(heavy[n]))
        ctx.check(f.heavy_output_counts[n] == hcounts[n], 'heavy counts of %s: %s, expected %s', n, f.heavy_output_counts[n], hcounts[n])
        ctx.close(f.heavy_output_prob_ideal[n], hideal[n], 1e-9, 'ideal heavy-output probability of %s' % n)
    ctx.close(np.array(f.ydata), y, 1e-9, 'mean and deviation')
    ok = f.qv_success()
    ctx.check(len(ok) == len(c['widths']), 'number of verdicts')
    for i in range(len(c['widths'])):
        m, s = y[0, i], y[1, i]
        z = (m - 2 / 3) / (s if s > 0 else 1e-10)
        conf = 0.5 * math.erfc(-z / math.sqrt(2))
        ctx.close(ok[i][1], conf, 1e-9, 'confidence')
        if abs(z - 2) > 1e-6:
            ctx.check(bool(ok[i][0]) == (m > 2 / 3 and z > 2), 'verdict %s for mean %s and deviation %s', ok[i][0], m, s)
            ctx.label('pass' if ok[i][0] else 'fail')
    ctx.check([int(v) for v in f.quantum_volume()] == [2 ** w for w in c['widths']], 'volumes %s of widths %s', f.quantum_volume(), c['widths'])
    ctx.nontrivial(len(results) > 1 or len(names) > 1)


@st.composite
def grow_case(draw):
    widths = draw(st.lists(st.sampled_from([1, 2, 3, 4, 5, 6]), unique=True, min_size=1, max_size=draw(st.sampled_from([3, 3, 5]))))
    steps, t = [], 0
    for i in range(draw(st.integers(1, 6))):
        new = draw(st.integers(1 if i == 0 else 0, draw(st.sampled_from([2, 2, 8]))))
        t += new
        again = draw(st.lists(st.integers(0, max(0, t - new - 1)), unique=True, max_size=4)) if t > new else []
        steps.append({'new': new, 'again': again, 'early': draw(st.booleans()), 'stray': draw(st.integers(0, 3)) == 0, 'read': draw(st.booleans())})
    return {'widths': widths, 'steps': steps, 'seed': draw(st.integers(0, 10 ** 6)), 'reverse': draw(st.booleans())}


@facet('growing', grow_case(), quick=250, thorough=4000, shards=4, rule='a circuit gets data in two evaluated additions')
def growing(c, ctx):
    """Trials and repetitions arrive over time; the statistics are evaluated after every addition."""
    r = np.random.RandomState(c['seed'])
    f = QVFitter(qubit_lists=[list(range(w)) for w in c['widths']])
    ideal, counts = {}, {}
    t = 0
    kept = 0

    def data(names):
        exps = []
        for n in names:
            w = int(n.split('_')[2])
            x = r.multinomial(r.randint(1, 300), np.abs(ideal[n]) ** 2 / np.sum(np.abs(ideal[n]) ** 2))
            part = {format(i, '0%db' % w): int(m) for i, m in enumerate(x) if m}
            for k, m in part.items():
                counts.setdefault(n, {})[k] = counts.get(n, {}).get(k, 0) + m
            exps.append(qres.experiment(n, part, [('measure', w)]))
        return qres.result(exps)

    for step in c['steps']:
        new = ['qv_depth_%d_trial_%d' % (w, i) for i in range(t, t + step['new']) for w in c['widths']]
        if c['reverse']:
            new = new[::-1]
        if step['stray'] and t:
            # a list whose second result belongs to a circuit without an ideal result is refused as a whole
            saved = repr((f.ydata if t == 0 else np.array(f.ydata).tolist(), sorted(f.heavy_output_counts.items())))
            good = qres.result([qres.experiment('qv_depth_%d_trial_0' % c['widths'][0], {'0' * c['widths'][0]: 5}, [('measure', c['widths'][0])])])
            bad = qres.result([qres.experiment('qv_depth_%d_trial_%d' % (c['widths'][0], t + 50), {'0' * c['widths'][0]: 5}, [('measure', c['widths'][0])])])
            ctx.raises(QiskitError, lambda: f.add_data([good, bad]), 'data without an ideal result is accepted')
            ctx.check(repr((np.array(f.ydata).tolist(), sorted(f.heavy_output_counts.items()))) == saved, 'refused data changed the statistics')
            ctx.check(len(f.results) == kept, 'refused data is kept')
        for n in new:
            ideal[n] = sim.rand_state(2 ** int(n.split('_')[2]), r)
        if new:
            f.add_statevectors(sv_result([(n, ideal[n]) for n in new]))
        t += step['new']
        old = ['qv_depth_%d_trial_%d' % (w, i) for i in step['again'] for w in c['widths']]
        res = [data(x) for x in ((old, new) if step['early'] else (new, old)) if x]
        if not res:
            continue
        f.add_data(res if len(res) > 1 else res[0])
        kept += len(res)
        if old:
            ctx.nontrivial()
        heavy, hcounts, hideal, _, y = expected({'widths': c['widths'], 'trials': t}, ideal, counts)
        ctx.check(len(f.results) == kept, 'number of results')
        ctx.check({n: f.heavy_output_counts[n] for n in ideal} == hcounts, 'heavy counts after %d trials', t)
        for n in ideal:
            ctx.check(set(f.heavy_outputs[n]) == heavy[n], 'heavy outputs of %s', n)
            ctx.close(f.heavy_output_prob_ideal[n], hideal[n], 1e-9, 'ideal heavy-output probability')
        ctx.close(np.array(f.ydata), y, 1e-9, 'mean and deviation after %d trials' % t)
        if step['read']:
            ok = f.qv_success()
            for i in range(len(c['widths'])):
                z = (y[0, i] - 2 / 3) / (y[1, i] or 1e-10)
                if abs(z - 2) > 1e-6:
                    ctx.check(bool(ok[i][0]) == (z > 2), 'verdict after %d trials', t)


@facet('verdict', st.fixed_dictionaries({'heavy': st.one_of(st.integers(0, 1000), st.integers(667, 850)), 'trials': st.integers(1, 200)}), quick=150, thorough=3000, shards=4,
       rule='z-value between 1 and 3')
def verdict(c, ctx):
    """Threshold behaviour: one width, a known heavy fraction, many trials."""
    h, t = c['heavy'], c['trials']
    vec = np.sqrt([0.7, 0.3])
    names = ['qv_depth_1_trial_%d' % i for i in range(t)]
    f = QVFitter(qubit_lists=[[0]])
    f.add_statevectors(sv_result([(n, vec) for n in names]))
    f.add_data(qres.result([qres.experiment(n, {'0': h, '1': 1000 - h}, [('measure', 1)]) for n in names]))
    m = h / 1000
    s = math.sqrt(m * (1 - m) / t)
    z = (m - 2 / 3) / (s or 1e-10)
    ctx.close(f.ydata[0][0], m, 1e-9, 'mean')
    ctx.close(f.ydata[1][0], s, 1e-9, 'deviation')
    if abs(z - 2) > 1e-6:
        ctx.check(bool(f.qv_success()[0][0]) == (z > 2), 'verdict for %d heavy of 1000 and %d trials (z=%.4f)', h, t, z)
    ctx.close(f.qv_success()[0][1], 0.5 * math.erfc(-z / math.sqrt(2)), 1e-9, 'confidence')
    ctx.nontrivial(1 < z < 3)


@facet('plots', case(), quick=24, thorough=150, shards=4, rule='at least two trials')
def plots(c, ctx):
    ideal, counts, parts = make(c)
    _, _, hideal, hexp, y = expected(c, ideal, counts)
    f = QVFitter(qres.result(exps_of({n: [counts[n]] for n in counts})), sv_result(list(ideal.items())), [list(range(w)) for w in c['widths']])
    fig, ax = plt.subplots()
    try:
        f.plot_qv_data(ax=ax, show_plt=False)
        data = [np.asarray(ln.get_ydata(), dtype=float) for ln in ax.get_lines()]
        for what, want in (('measured', y[0]), ('ideal', y[2])):
            ctx.check(any(d.shape == want.shape and np.allclose(d, want) for d in data), 'the %s heavy-output probabilities %s are not plotted', what, want)
        ctx.check(any(np.allclose(d, 2 / 3) for d in data), 'the threshold is not plotted')
        plt.close(fig)
        w = c['widths'][0]
        fig, ax = plt.subplots()
        f.plot_hop_accumulative(w, ax=ax)
        hop = np.array([hexp['qv_depth_%d_trial_%d' % (w, t)] for t in range(c['trials'])])
        cum = np.array([np.mean(hop[:t + 1]) for t in range(c['trials'])])
        data = [np.asarray(ln.get_ydata(), dtype=float) for ln in ax.get_lines()]
        ctx.check(any(d.shape == cum.shape and np.allclose(d, cum) for d in data), 'the cumulative heavy-output probability %s is not plotted', cum)
        pts = [np.asarray(col.get_offsets(), dtype=float) for col in ax.collections]
        ctx.check(any(p.shape == (c['trials'], 2) and np.allclose(p[:, 1], hop) for p in pts), 'the individual heavy-output probabilities are not plotted')
    finally:
        plt.close('all')
    ctx.nontrivial(c['trials'] > 1)
