"""C16: accreditation outcomes follow from the accepted runs only."""
import math

import numpy as np
from hypothesis import strategies as st
from qiskit import QiskitError
from qiskit.ignis.verification.accreditation import AccreditationFitter

import qres
from harness import facet

ASSUMPTIONS = ['single classical register; counts as returned by qiskit Result objects']

KINDS = ['ok', 'ok', 'ok', 'trap', 'trap', 'shots', 'noshots', 'ntraps', 'few', 'vzero', 'bound', 'bound']


@st.composite
def history(draw):
    n = draw(st.one_of(st.integers(1, 5), st.sampled_from([9, 14, 33])))
    traps = draw(st.sampled_from([3, 4, 5, 7, 12]))
    steps = []
    for _ in range(draw(st.integers(1, draw(st.sampled_from([12, 12, 30]))))):
        k = draw(st.sampled_from(KINDS))
        if k == 'bound':
            steps.append({'kind': k, 'theta': draw(st.sampled_from([0.001, 0.01, 0.05, 0.1, 0.2, 0.3, 0.5, 0.7, 0.9, 0.99]))})
        else:
            steps.append({'kind': k, 'v': draw(st.integers(0, traps)), 'seed': draw(st.integers(0, 10 ** 6)), 'nbad': draw(st.integers(1, traps)),
                          'kindp': draw(st.integers(0, 2))})
    return {'n': n, 'traps': traps, 'steps': steps, 'who': [draw(st.integers(0, 1)) for _ in steps]}


class Model:
    def __init__(self):
        self.runs = 0
        self.acc = 0
        self.outputs = []
        self.traps = None
        self.flag = None


def bits(v, n):
    return format(v, '0%db' % n)


def run_data(step, n, traps):
    """(result, postp, v_zero, target string, number of failed traps, valid)."""
    r = np.random.RandomState(step['seed'])
    kind = step['kind']
    t = traps
    if kind == 'ntraps':
        t = traps + (1 if step['seed'] % 2 or traps == 3 else -1)
    elif kind == 'few':
        t = step['seed'] % 3
    v = step['v'] % (t + 1)
    pads = [[int(x) for x in r.randint(2, size=n)] for _ in range(t + 1)]
    true = [0] * (t + 1)
    true[v] = int(r.randint(2 ** n))
    bad = 0
    if kind == 'trap':
        for k in r.permutation([i for i in range(t + 1) if i != v])[:step['nbad']]:
            true[k] = int(r.randint(1, 2 ** n)) if r.randint(3) else 1 << int(r.randint(n))
            bad += 1
    exps = []
    off = int(r.randint(t + 1))
    for k in range(t + 1):
        raw = true[k] ^ int(''.join(map(str, pads[k])), 2)
        counts = {bits(raw, n): 1}
        if kind == 'shots' and k == off:
            if r.randint(2):
                counts = {bits(raw, n): int(r.randint(2, 9))}
            else:
                counts[bits(raw ^ 1, n)] = 1
        if kind == 'noshots' and k == off:
            counts = {}
        exps.append(qres.experiment('circ%d' % k, counts, [('c', n)], shots=max(1, sum(counts.values()))))
    if step['kindp'] == 1:
        pads = [np.array(p) for p in pads]
    elif step['kindp'] == 2:
        pads = [tuple(p) for p in pads]
    vz = v
    if kind == 'vzero':
        vz = t + 1 + step['seed'] % 3
    return qres.result(exps), pads, vz, bits(true[v], n), bad


def public(f):
    return (f.num_runs, f.N_acc, list(f.outputs), f.num_traps)


@facet('history', history(), quick=1200, thorough=20000, shards=4, rule='an accepted and a rejected run, or a malformed run after a good one')
def run_history(case, ctx):
    n, traps = case['n'], case['traps']
    fs = [AccreditationFitter(), AccreditationFitter()]
    ms = [Model(), Model()]
    kinds = set()
    for step, who in zip(case['steps'], case['who']):
        f, m, kind = fs[who], ms[who], step['kind']
        if kind == 'bound':
            theta = step['theta']
            if m.acc == 0:
                ctx.raises(QiskitError, lambda: f.bound_variation_distance(theta), 'a bound is reported although nothing was accepted')
                continue
            f.bound_variation_distance(theta)
            bound, conf = 1.0, 1.0
            if m.acc / m.runs > theta:
                bound = min(1.0, 1.7 / (m.traps + 1) / (m.acc / m.runs - theta))
                conf = 1 - 2 * math.exp(-2 * theta ** 2 * m.runs)
            ctx.close(f.bound, bound, 1e-9, 'bound for theta=%s, %d of %d runs accepted with %s traps' % (theta, m.acc, m.runs, m.traps))
            ctx.close(f.confidence, conf, 1e-9, 'confidence for theta=%s and %d runs' % (theta, m.runs))
            kinds.add(kind)
        else:
            res, pads, vz, out, bad = run_data(step, n, m.traps or traps)
            before = public(f)
            valid = kind in ('ok', 'trap') or (kind == 'ntraps' and m.runs == 0)
            if not valid:
                ctx.raises(QiskitError, lambda: f.single_protocol_run(res, pads, vz), 'a run of kind "%s" is accepted as valid' % kind)
                ctx.check(public(f) == before, 'a run rejected with an error (%s) changed the history: %s to %s', kind, before, public(f))
                kinds.add('malformed')
                continue
            f.single_protocol_run(res, pads, vz)
            m.runs += 1
            m.traps = len(pads) - 1
            if bad == 0:
                m.acc += 1
                m.outputs.append(out)
                m.flag = 'accepted'
            else:
                m.flag = 'rejected'
            kinds.add(m.flag)
            ctx.check(f.flag == m.flag, 'run flagged %s, expected %s', f.flag, m.flag)
        for ff, mm in zip(fs, ms):
            ctx.check((ff.num_runs, ff.N_acc) == (mm.runs, mm.acc), 'runs and accepted runs %s, expected %s', (ff.num_runs, ff.N_acc), (mm.runs, mm.acc))
            ctx.check(list(ff.outputs) == mm.outputs, 'outputs %s, expected %s', ff.outputs, mm.outputs)
    ctx.nontrivial({'accepted', 'rejected'} <= kinds or 'malformed' in kinds)


@facet('bound', st.fixed_dictionaries({'acc': st.integers(1, 40), 'rej': st.integers(0, 40), 'traps': st.integers(3, 60),
                                       'thetas': st.lists(st.floats(0.001, 0.999).map(lambda x: round(x, 4)), min_size=1, max_size=4)}),
       quick=200, thorough=4000, shards=4, rule='the bound is below one')
def bound(case, ctx):
    f = AccreditationFitter()
    t = case['traps']
    good = qres.result([qres.experiment('c%d' % k, {'00': 1}, [('c', 2)]) for k in range(t + 1)])
    badr = qres.result([qres.experiment('c%d' % k, {'01': 1}, [('c', 2)]) for k in range(t + 1)])
    pads = [[0, 0]] * (t + 1)
    order = [0] * case['acc'] + [1] * case['rej']
    np.random.RandomState(case['acc']).shuffle(order)
    for o in order:
        f.single_protocol_run(badr if o else good, pads, 0)
    runs = len(order)
    for theta in case['thetas']:
        f.bound_variation_distance(theta)
        frac = case['acc'] / runs
        if frac > theta:
            b = min(1.0, 1.7 / (t + 1) / (frac - theta))
            c = 1 - 2 * math.exp(-2 * theta ** 2 * runs)
        else:
            b, c = 1.0, 1.0
        ctx.close(f.bound, b, 1e-9, 'bound')
        ctx.close(f.confidence, c, 1e-9, 'confidence')
        if b < 1:
            ctx.nontrivial()
