"""C26: IQ discrimination uses exactly the labelled data of each qubit."""
import copy

import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np
from hypothesis import strategies as st
from qiskit import QiskitError
from qiskit.ignis.measurement.discriminator.filters import DiscriminationFilter
from qiskit.ignis.measurement.discriminator.iq_discriminators import (LinearIQDiscriminator, QuadraticIQDiscriminator,
                                                                      SklearnIQDiscriminator)
from qiskit.pulse import Schedule
from qiskit.qobj import QobjExperimentHeader
from qiskit.result.models import ExperimentResult, ExperimentResultData

import qres
from harness import facet

ASSUMPTIONS = ['a schedule name keeps its expected state; names are unique inside one result used for training']


class Recorder:
    """nearest-centroid classifier that remembers what it was trained on"""

    def __init__(self):
        self.fits = []

    def fit(self, x, y):
        x, y = np.asarray(x, dtype=float), [str(v) for v in y]
        if len(x) != len(y):
            raise ValueError('%d points with %d labels' % (len(x), len(y)))
        self.fits.append((x.copy(), list(y)))
        self.centre = {lab: x[[v == lab for v in y]].mean(axis=0) for lab in sorted(set(y))}

    def predict(self, x):
        labs = list(self.centre)
        return np.array([labs[int(np.argmin([np.sum((np.asarray(p) - self.centre[lab]) ** 2) for lab in labs]))] for p in np.asarray(x, dtype=float)])


def iq_exp(name, mem, shots, ret, level=1):
    mem = np.asarray(mem)
    data = np.stack([mem.real, mem.imag], axis=-1).tolist()
    slots = mem.shape[-1]
    return ExperimentResult(shots=int(shots), success=True, meas_level=level, meas_return=ret,
                            data=ExperimentResultData(memory=data),
                            header=QobjExperimentHeader(name=name, memory_slots=slots, creg_sizes=[['c', slots]]))


def centre(r, slots, levels):
    """well separated IQ centres per slot and level"""
    out = np.zeros((slots, levels), dtype=complex)
    for s in range(slots):
        ang = r.uniform(0, 6.28)
        off = r.normal() * 3 + 1j * r.normal() * 3
        for lv in range(levels):
            out[s, lv] = off + 4 * np.exp(1j * (ang + 2 * np.pi * lv / levels))
    return out


def shots_of(r, cen, levels, k, amp=0.15):
    """k single shots with the slots in the given levels"""
    slots = len(cen)
    base = np.array([cen[s, levels[s]] for s in range(slots)])
    return base[None, :] + amp * (r.uniform(-1, 1, (k, slots)) + 1j * r.uniform(-1, 1, (k, slots)))


def feats(mem, mask):
    """features of single shots: I of the masked slots, then Q"""
    mem = np.atleast_2d(mem)[:, mask]
    return np.concatenate([mem.real, mem.imag], axis=1)


@st.composite
def train_case(draw):
    slots = draw(st.sampled_from([1, 2, 3, 4, 6]))
    mask = draw(st.permutations(list(range(slots))))[:draw(st.integers(1, slots))]
    levels = draw(st.sampled_from([2, 2, 3]))
    nst = levels ** len(mask)
    states = draw(st.lists(st.integers(0, nst - 1), min_size=2, max_size=6, unique=True)) if nst > 2 else [0, 1]
    nres = draw(st.sampled_from([1, 2, 3, 3, 5, 7]))
    where = draw(st.lists(st.lists(st.integers(0, nres - 1), min_size=1, max_size=nres, unique=True), min_size=len(states), max_size=len(states)))
    if draw(st.booleans()):
        where = [sorted(set(w) | {0}) for w in where]
    return {'slots': slots, 'mask': list(mask), 'levels': levels, 'states': list(states), 'nres': nres, 'where': where,
            'seed': draw(st.integers(0, 10 ** 6)), 'names': draw(st.sampled_from(['cal', 'own'])), 'objects': draw(st.booleans()),
            'explicit': draw(st.booleans()), 'std': draw(st.booleans()), 'ret': draw(st.sampled_from(['single', 'single', 'avg'])),
            'later': draw(st.integers(0, nres)), 'extra': draw(st.booleans())}


def label(v, base, n):
    out = ''
    for _ in range(n):
        out = str(v % base) + out
        v //= base
    return out


def build(c):
    """results, per-result list of (name, label), and the expected training rows in any order"""
    r = np.random.RandomState(c['seed'])
    cen = centre(r, c['slots'], c['levels'])
    m = len(c['mask'])
    per = [[] for _ in range(c['nres'])]
    info = [[] for _ in range(c['nres'])]
    rows = [[] for _ in range(c['nres'])]
    for s, places in zip(c['states'], c['where']):
        lab = label(s, c['levels'], m)
        name = 'cal_' + lab if c['names'] == 'cal' else 'sched%d' % s
        # the right-most character belongs to the first qubit of the mask
        lev = r.randint(0, 2, size=c['slots'])
        for j, q in enumerate(c['mask']):
            lev[q] = int(lab[-1 - j])
        for p in places:
            k = int(r.randint(4, 9))
            mem = shots_of(r, cen, lev, k)
            if c['ret'] == 'avg':
                mem = mem.mean(axis=0)
            per[p].append(iq_exp(name, mem, k, c['ret']))
            info[p].append((name, lab))
            rows[p] += [(tuple(f), lab) for f in feats(mem, c['mask'])]
    for p in range(c['nres']):
        if c['extra']:
            per[p].insert(0, iq_exp('circuit%d' % p, shots_of(r, cen, r.randint(0, 2, size=c['slots']), 5), 5, 'single'))
    results = [qres.result(e) for e in per]
    return r, cen, results, info, rows


def unique(info):
    return list(dict.fromkeys(info))


def same_rows(ctx, got_x, got_y, want, std, msg):
    gx = np.asarray(got_x, dtype=float)
    wx = np.array([w[0] for w in want], dtype=float)
    wy = [w[1] for w in want]
    ctx.check(gx.shape[0] == len(got_y) == len(want), '%s: %d points and %d labels for %d calibration points', msg, gx.shape[0], len(got_y), len(want))
    if std:
        sd = wx.std(axis=0)
        sd[sd == 0] = 1
        wx = (wx - wx.mean(axis=0)) / sd
    g = sorted((str(y), [round(float(v), 6) for v in x]) for x, y in zip(gx, got_y))
    w = sorted((str(y), [round(float(v), 6) for v in x]) for x, y in zip(wx, wy))
    for a, b in zip(g, w):
        ctx.check(a[0] == b[0] and np.allclose(a[1], b[1], atol=1e-5), '%s: trained on %s instead of %s', msg, a, b)


@facet('training', train_case(), quick=700, thorough=6000, shards=4, rule='several results or several qubits')
def training(c, ctx):
    r, cen, results, info, rows = build(c)
    keep = [res.to_dict() for res in results]
    later = c['later'] if c['later'] < c['nres'] else c['nres'] - 1      # results added afterwards
    first = c['nres'] - later
    # all states must be present at the start for a meaningful classifier; otherwise give everything at once
    if not all(any(p < first for p in places) for places in c['where']):
        first, later = c['nres'], 0
    start = [i for p in range(first) for i in info[p]]
    kw = {'standardize': c['std']}
    by_name = c['names'] == 'cal' and not c['objects']
    if by_name:
        # schedules are found by their names; one state per calibration experiment
        if c['explicit']:
            kw['expected_states'] = [lab for _, lab in start]
    else:
        pairs = unique(start)
        kw['schedules'] = [Schedule(name=n) if c['objects'] else n for n, _ in pairs]
        if c['explicit'] or c['names'] == 'own':
            kw['expected_states'] = [lab for _, lab in pairs]
    kept = {k: list(v) if isinstance(v, list) else v for k, v in kw.items()}
    clf = Recorder()
    arg = results[0] if first == 1 and c['seed'] % 2 else results[:first]
    disc = SklearnIQDiscriminator(clf, arg, c['mask'], **kw)
    ctx.check(disc.fitted, 'not fitted')
    ctx.check(len(clf.fits) >= 1, 'classifier was not trained')
    want = [w for p in range(first) for w in rows[p]]
    same_rows(ctx, *clf.fits[-1], want, c['std'], 'at construction')
    for p in range(first, c['nres']):
        if not info[p]:
            continue
        refit = p == c['nres'] - 1 or c['seed'] % 3 == 0 or not any(info[p + 1:])
        sch = None if by_name else [Schedule(name=n) if c['objects'] else n for n, _ in info[p]]
        disc.add_data(results[p], [lab for _, lab in info[p]], refit=refit, schedules=sch)
        want += rows[p]
        if refit:
            same_rows(ctx, *clf.fits[-1], want, c['std'], 'after adding data')
    for k, v in kept.items():
        now = kw[k]
        ctx.check((list(now) if isinstance(now, list) else now) == v, 'argument %s was modified' % k)
    ctx.check([res.to_dict() for res in results] == keep, 'results were modified')
    ctx.check({str(k): str(v) for k, v in disc.expected_states.items()} == dict(i for p in info for i in p), 'expected states %s', disc.expected_states)
    # the data accessors agree with each other
    if by_name:
        x, y = disc.get_xdata(results, 0), disc.get_ydata(results, 0)
        ctx.check(len(x) == len(y) == sum(len(v) for v in rows), 'numbers of points and labels of the accessors differ')
        if c['extra']:
            xo = disc.get_xdata(results[0], 1)
            xa = disc.get_xdata(results[0], 2)
            ctx.check(len(xo) == 5 and len(xa) == 5 + len(rows[0]), 'selection of calibration and other data')
    ctx.nontrivial(c['nres'] > 1 or len(c['mask']) > 1)
    ctx.label('later%d' % later)


@st.composite
def apply_case(draw):
    slots = draw(st.sampled_from([1, 2, 3, 4, 6]))
    mask = draw(st.permutations(list(range(slots))))[:draw(st.sampled_from([1, 2, 2, 3, 4]))]
    return {'slots': slots, 'mask': list(mask), 'levels': draw(st.sampled_from([2, 2, 3])) if len(mask) < 3 else 2, 'seed': draw(st.integers(0, 10 ** 6)),
            'kind': draw(st.sampled_from(['linear', 'quadratic', 'sklearn', 'lsqr'])), 'std': draw(st.booleans()), 'base': draw(st.booleans()),
            'exps': draw(st.lists(st.tuples(st.sampled_from(['single', 'single', 'avg', 'counts']), st.integers(1, 12), st.integers(0, 3)), min_size=1, max_size=draw(st.sampled_from([5, 12])))),
            'cal': draw(st.booleans())}


@facet('assignment', apply_case(), quick=300, thorough=4000, shards=4, rule='several experiments and shots in several states')
def assignment(c, ctx):
    r = np.random.RandomState(c['seed'])
    m, lv = len(c['mask']), c['levels']
    cen = centre(r, c['slots'], lv)
    states = [label(v, lv, m) for v in range(lv ** m)]
    exps = []
    # scikit-learn's quadratic classifier refuses classes whose (standardized) variances are below 1e-4
    ncal, amp = (40, 0.6) if c['kind'] == 'quadratic' else (14, 0.15)
    for lab in states:
        lev = r.randint(0, 2, size=c['slots'])
        for j, q in enumerate(c['mask']):
            lev[q] = int(lab[-1 - j])
        exps.append(iq_exp('cal_' + lab, shots_of(r, cen, lev, ncal, amp), ncal, 'single'))
    cal = qres.result([exps[i] for i in r.permutation(len(exps))])
    if c['kind'] == 'linear':
        disc = LinearIQDiscriminator(cal, c['mask'], standardize=c['std'])
    elif c['kind'] == 'lsqr':
        disc = LinearIQDiscriminator(cal, c['mask'], standardize=c['std'], discriminator_parameters={'solver': 'lsqr', 'shrinkage': 0.1})
    elif c['kind'] == 'quadratic':
        disc = QuadraticIQDiscriminator(cal, c['mask'], standardize=c['std'])
    else:
        disc = SklearnIQDiscriminator(Recorder(), cal, c['mask'], standardize=c['std'])
    # new data
    exps, want, seen = [], [], set()
    for i, (what, k, nm) in enumerate(c['exps']):
        name = 'circ%d' % nm
        if what == 'counts':
            exps.append(qres.experiment('counts%d' % i, {'0': k}, [('c', c['slots'])]))
            continue
        if what == 'avg':
            k = int(k)
        labs, mem = [], []
        for _ in range(k if what == 'single' else 1):
            lab = states[r.randint(len(states))]
            lev = r.randint(0, 2, size=c['slots'])
            for j, q in enumerate(c['mask']):
                lev[q] = int(lab[-1 - j])
            mem.append(shots_of(r, cen, lev, 1)[0])
            labs.append(lab)
        exps.append(iq_exp(name, np.array(mem) if what == 'single' else mem[0], k, what))
        want.append((name, labs, what))
        seen |= set(labs)
    if c['cal']:
        exps += cal.results
        want += [(e.header.name, [e.header.name[4:]] * ncal, 'single') for e in cal.results]
    data = qres.result(exps)
    keep = copy.deepcopy(data.to_dict())
    flt = DiscriminationFilter(disc, lv) if c['base'] else DiscriminationFilter(disc)
    ctx.check(flt.base == lv, 'base %s of states with %d levels', flt.base, lv)
    out = flt.apply(data)
    ctx.check(data.to_dict() == keep, 'the input was modified')
    ctx.check(out is not data, 'the input is returned')
    ctx.check(len(out.results) == len(want), '%d experiments of %d with IQ data', len(out.results), len(want))
    for i, (name, labs, what) in enumerate(want):
        e = out.results[i]
        ctx.check(e.header.name == name and e.meas_level == 2, 'experiment %d is %s at level %s', i, e.header.name, e.meas_level)
        got = [str(v) for v in e.data.memory]
        ctx.check(got == labs, 'shots of experiment %d are assigned %s instead of %s', i, got, labs)
        cnt = e.data.to_dict()['counts']
        wcnt = {}
        for lab in labs:
            wcnt[hex(int(lab, lv))] = wcnt.get(hex(int(lab, lv)), 0) + 1
        ctx.check(dict(cnt) == wcnt, 'counts %s instead of %s', cnt, wcnt)
        if what == 'single':
            ctx.check(sum(cnt.values()) == e.shots, 'counts do not sum to the shots')
    ctx.check(disc.fitted, 'not fitted')
    ctx.nontrivial(len(want) > 1 and len(seen) > 1)


@st.composite
def misc_case(draw):
    return {'states': draw(st.dictionaries(st.text('abc', min_size=1, max_size=4), st.text('0123456789', min_size=1, max_size=3), min_size=1, max_size=draw(st.sampled_from([5, 12])))),
            'seed': draw(st.integers(0, 10 ** 6)), 'bad': draw(st.booleans()), 'mism': draw(st.integers(1, 3)),
            'name': draw(st.one_of(st.from_regex(r'cal_[0-9]{1,5}[a-z]?', fullmatch=True), st.text('cal_01', max_size=8)))}


@facet('misc', misc_case(), quick=300, thorough=3000, shards=2, rule='always')
def misc(c, ctx):
    import re
    want = max(int(ch) for s in c['states'].values() for ch in s) + 1
    ctx.check(DiscriminationFilter.get_base(c['states']) == want, 'base of %s', c['states'])
    if c['bad']:
        bad = dict(c['states'], zz='0x')
        ctx.raises(QiskitError, lambda: DiscriminationFilter.get_base(bad), 'a label that is not a number was accepted')
    r = np.random.RandomState(c['seed'])
    cen = centre(r, 2, 2)
    res = qres.result([iq_exp('cal_00', shots_of(r, cen, [0, 0], 6), 6, 'single'), iq_exp('cal_11', shots_of(r, cen, [1, 1], 6), 6, 'single')])
    ctx.raises(QiskitError, lambda: SklearnIQDiscriminator(Recorder(), res, [0, 1], expected_states=['00', '11'] + ['01'] * c['mism']),
               'the numbers of schedules and states differ')
    ctx.raises(QiskitError, lambda: SklearnIQDiscriminator(Recorder(), res, [0, 1], schedules=['cal_00', 'nope'], expected_states=['00', '11']),
               'data of a missing schedule')
    disc = SklearnIQDiscriminator(Recorder(), res, [1, 0])
    ctx.check(disc.is_calibration(c['name']) == (re.fullmatch(r'cal_\d+', c['name']) is not None), 'is %r a calibration', c['name'])
    ctx.check([str(s) for s in disc.schedules] == ['cal_00', 'cal_11'], 'schedules')
    # a plot shows the data of the qubit it says
    axs, _ = disc.plot()
    for i, q in enumerate([1, 0]):
        pts = np.concatenate([col.get_offsets() for col in axs[i].collections])
        allm = np.concatenate([np.array(e.data.memory)[:, q] for e in res.results])
        ctx.check({tuple(np.round(p, 9)) for p in np.asarray(pts)} == {tuple(np.round(p, 9)) for p in allm}, 'plotted points of qubit %d', q)
    plt.close('all')
    ctx.raises(QiskitError, lambda: disc.plot(qubits_to_plot=[5]), 'plot of a qubit outside of the mask')
    plt.close('all')
    ctx.nontrivial()
