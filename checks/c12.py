"""C12: randomized-benchmarking fits pool all data and recover the true decay."""
import numpy as np
from hypothesis import strategies as st
from qiskit.ignis.verification.randomized_benchmarking import (
    randomized_benchmarking_seq, RBFitter, InterleavedRBFitter, PurityRBFitter, CNOTDihedralRBFitter)
from qiskit.circuit.library import XGate, CXGate, HGate, TGate, CZGate

import qres
import sim
from harness import facet

ASSUMPTIONS = ['decay recovery is judged on data at 10^9 shots whose lengths span the decay; tolerance 0.5% of 1-alpha (at least 2e-6)',
               'a fit is only requested when every length of every loaded seed has data, as the documented use does']

SHOTS = 10 ** 9


# ------------------------------------------------------------------ arbitrary counts: pooling

PATTERNS = [[[0]], [[0, 1]], [[1], [0]], [[0, 2], [1]], [[3], [1, 0]], [[0], [1], [2]], [[1, 0, 2]], [[2, 3], [1, 0]], [[1], [0, 2]],
            [[0], [2], [1], [3]], [[3, 1, 0, 2]], [[4], [0, 1], [3, 2]], [[5], [4], [3], [2], [0, 1]], [[6], [4], [1], [2], [0], [3], [5]]]


@st.composite
def pool_case(draw):
    pat = draw(st.sampled_from(PATTERNS))
    nl = draw(st.sampled_from([2, 3, 4, 12, 24]))
    seeds = draw(st.lists(st.integers(0, 14), min_size=1, max_size=4, unique=True)) if nl < 5 else draw(st.lists(st.integers(0, 200), min_size=1, max_size=2, unique=True))
    if nl == 2 and draw(st.integers(0, 7)) == 0:
        seeds = draw(st.permutations(list(range(13))))
    nbits = sum(len(p) for p in pat)
    pieces = []
    for s in seeds:
        for _ in range(draw(st.integers(1, 2))):
            pieces.append([s, [draw(counts_st(nbits)) for _ in range(nl)]])
    order = draw(st.permutations(list(range(len(pieces)))))
    return {'pattern': pat, 'nl': nl, 'pieces': [pieces[i] for i in order],
            'group': [draw(st.integers(0, 2)) for _ in pieces], 'kind': draw(st.sampled_from(['rb', 'interleaved', 'dihedral'])),
            'name': draw(st.sampled_from(['rb', 'rb_interleaved', 'rb_cnotdihedral_Z'])),
            'single': draw(st.booleans()), 'ctor': draw(st.booleans()), 'bylength': draw(st.integers(0, 3)) == 0}


def counts_st(nbits):
    return st.dictionaries(st.integers(0, 2 ** nbits - 1).map(lambda v: format(v, '0%db' % nbits)),
                           st.integers(1, 50), min_size=1, max_size=6)


def piece_results(name, piece, nbits, bylength):
    seed, countlist = piece
    exps = [qres.experiment('%s_length_%d_seed_%d' % (name, k, seed), c, [('cr', nbits)]) for k, c in enumerate(countlist)]
    if bylength:
        return [qres.result([e]) for e in exps]
    return [qres.result(exps)]


def expected_raw(case, pieces, seeds):
    raw = []
    start = 0
    for pat in case['pattern']:
        per = []
        for s in seeds:
            row = []
            for k in range(case['nl']):
                tot = good = 0
                for ps, cl in pieces:
                    if ps != s:
                        continue
                    for key, v in cl[k].items():
                        tot += v
                        bits = key[::-1][start:start + len(pat)]
                        if '1' not in bits:
                            good += v
                row.append(good / tot)
            per.append(row)
        raw.append(per)
        start += len(pat)
    return raw


def check_pool(ctx, case, fitter, pieces):
    seeds = list(fitter.seeds)
    ctx.check(sorted(seeds) == sorted({p[0] for p in pieces}), 'seeds %s', seeds)
    raw = expected_raw(case, pieces, seeds)
    ctx.check(len(fitter.raw_data) == len(raw), 'raw_data has %d patterns', len(fitter.raw_data))
    for i, per in enumerate(raw):
        ctx.close(np.array(fitter.raw_data[i], dtype=float), np.array(per), 1e-12, 'raw_data of pattern %d' % i)
        ctx.close(np.array(fitter.ydata[i]['mean'], dtype=float), np.mean(per, 0), 1e-12, 'mean')
        if len(seeds) == 1:
            ctx.check(fitter.ydata[i]['std'] is None, 'std of one seed is not None')
        else:
            ctx.close(np.array(fitter.ydata[i]['std'], dtype=float), np.std(per, 0), 1e-12, 'std')


@facet('pooling', pool_case(), 1500, 20000, 'several seeds or a seed with data in several results', shards=3)
def pooling(case, ctx):
    nbits = sum(len(p) for p in case['pattern'])
    lengths = [[1 + 3 * k for k in range(case['nl'])] for _ in case['pattern']]
    ctx.nontrivial(len(case['pieces']) > 1)
    ctx.label(case['kind'])
    pieces = case['pieces']

    def fill(add, name):
        i = 0
        nres = 0
        while i < len(pieces):
            # consecutive pieces form one list of results of one add_data call
            j = i + 1
            while j < len(pieces) and case['group'][j] == case['group'][i]:
                j += 1
            res = []
            for p in pieces[i:j]:
                res += piece_results(name, p, nbits, case['bylength'])
            nres += len(res)
            if len(res) == 1 and case['single']:
                res = res[0]
            add(res)
            i = j
        return nres

    if case['kind'] == 'rb':
        f = RBFitter(None, lengths, case['pattern'])
        n = fill(lambda r: f.add_data(r, rerun_fit=False), case['name'])
        f.calc_data()
        f.calc_statistics()
        check_pool(ctx, case, f, pieces)
        ctx.check(len(f.results) == n, '%d results kept of %d', len(f.results), n)
        ctx.check(f.cliff_lengths == lengths, 'cliff_lengths')
    else:
        cls, names = ((InterleavedRBFitter, ('rb', 'rb_interleaved')) if case['kind'] == 'interleaved' else
                      (CNOTDihedralRBFitter, ('rb_cnotdihedral_Z', 'rb_cnotdihedral_X')))
        f = cls(None, None, lengths, case['pattern'])
        box = {}
        for i, name in enumerate(names):
            got = []
            box[i] = (fill(got.append, name), got)
        # the second data set has its counts in reverse order of results, and one extra copy of the first piece
        extra = piece_results(names[1], pieces[0], nbits, False)
        for a, b in zip(box[0][1], box[1][1]):
            f.add_data(a, b, rerun_fit=False)
        f.add_data(None, extra, rerun_fit=False)
        f.calc_data()
        f.calc_statistics()
        subs = (f.rbfit_std, f.rbfit_int) if case['kind'] == 'interleaved' else (f.rbfit_Z, f.rbfit_X)
        check_pool(ctx, case, subs[0], pieces)
        check_pool(ctx, case, subs[1], pieces + [pieces[0]])
        ctx.check([len(r) for r in f.results] == [box[0][0], box[1][0] + 1], 'numbers of results %s', [len(r) for r in f.results])
        for attr in ('raw_data', 'ydata', 'seeds', 'results'):
            v = getattr(f, attr)
            ctx.check(len(v) == 2 and v[0] is getattr(subs[0], attr) and v[1] is getattr(subs[1], attr) or repr(v) == repr([getattr(s, attr) for s in subs]),
                      attr + ' is not the pair of data sets')


# ------------------------------------------------------------------ purity of arbitrary counts

@st.composite
def pur_case(draw):
    n = draw(st.sampled_from([1, 1, 1, 2, 2, 3]))
    npat = draw(st.integers(1, {1: 4, 2: 2, 3: 1}[n]))
    qs = draw(st.permutations(list(range(n * npat))))
    pat = [[int(q) for q in qs[i * n:(i + 1) * n]] for i in range(npat)]
    seeds = draw(st.lists(st.integers(0, 12), min_size=1, max_size=3, unique=True))
    return {'pattern': pat, 'seeds': seeds, 'nl': draw(st.sampled_from([1, 2, 2, 11])) if n == 1 else draw(st.integers(1, 4 - n)), 'data': draw(st.integers(0, 10 ** 6)),
            'order': draw(st.integers(0, 10 ** 6)), 'split': draw(st.integers(0, 2)), 'physical': draw(st.booleans())}


ROT = {0: np.eye(2), 1: np.array([[1, -1j], [-1j, 1]]) / np.sqrt(2), 2: np.array([[1, -1], [1, 1]]) / np.sqrt(2)}
LET = 'ZXY'


def purity_counts(case, r, n):
    """{(seed, length, setting): counts} and expected purity [pattern][seed][length]"""
    npat = len(case['pattern'])
    nb = n * npat
    counts, exp = {}, [[[None] * case['nl'] for _ in case['seeds']] for _ in case['pattern']]
    for si, s in enumerate(case['seeds']):
        for k in range(case['nl']):
            rho = sim.rand_density(2 ** nb, r, rank=r.randint(1, 3))
            for d in range(3 ** n):
                if case['physical']:
                    rot = np.eye(1)
                    for _ in range(npat):
                        for i in range(n):
                            rot = np.kron(ROT[d // 3 ** i % 3], rot)
                    p = np.real(np.diag(rot @ rho @ rot.conj().T))
                    c = qres.ints({format(v, '0%db' % nb): max(float(x), 0) for v, x in enumerate(p)}, SHOTS)
                else:
                    c = {format(int(v), '0%db' % nb): int(r.randint(1, 40)) for v in r.permutation(2 ** nb)[:r.randint(1, 2 ** nb + 1)]}
                counts[s, k, d] = c
            for pi in range(npat):
                if case['physical']:
                    # reduced state of the bits of the pattern
                    m = rho.reshape([2] * (2 * nb))
                    keep = list(range(pi * n, (pi + 1) * n))
                    for b in sorted((b for b in range(nb) if b not in keep), reverse=True):
                        half = m.ndim // 2
                        # axis of bit b: half-1-(number of remaining lower bits)
                        rem = [x for x in range(nb) if x in keep or x <= b]
                        ax = half - 1 - rem.index(b)
                        m = np.trace(m, axis1=ax, axis2=half + ax)
                    red = m.reshape(2 ** n, 2 ** n)
                    exp[pi][si][k] = float(np.real(np.trace(red @ red)))
                else:
                    corr = {}
                    for d in range(3 ** n):
                        tot = sum(counts[s, k, d].values())
                        for mask in range(2 ** n):
                            op = tuple(0 if not mask >> i & 1 else 1 + d // 3 ** i % 3 for i in range(n))
                            v = 0
                            for key, cnt in counts[s, k, d].items():
                                bits = int(key, 2) >> (pi * n)
                                v += cnt * (-1) ** bin(bits & mask).count('1')
                            corr.setdefault(op, []).append(v / tot)
                    exp[pi][si][k] = sum(np.mean(v) ** 2 for v in corr.values()) / 2 ** n
    return counts, exp


@facet('purity_data', pur_case(), 300, 4000, 'more than one result order is possible (always)', shards=2)
def purity_data(case, ctx):
    n = len(case['pattern'][0])
    nb = n * len(case['pattern'])
    r = sim.rs(case['data'])
    counts, exp = purity_counts(case, r, n)
    ctx.nontrivial()
    ctx.label('%d-qubit' % n)
    exps = {}
    for (s, k, d), c in counts.items():
        name = 'rb_purity_' + ''.join(LET[d // 3 ** i % 3] for i in range(n)) + '_length_%d_seed_%d' % (k, s)
        exps.setdefault((s, d), []).append((name, c))
    order = sim.rs(case['order']).permutation(len(exps)) if case['order'] % 4 else range(len(exps))
    keys = [list(exps)[i] for i in order]
    results = []
    cr = [('cr', nb)]
    if case['split'] == 0:
        results = [qres.result([qres.experiment(nm, c, cr) for nm, c in exps[k]]) for k in keys]
    elif case['split'] == 1:
        results = [qres.result([qres.experiment(nm, c, cr) for k in keys for nm, c in exps[k]])]
    else:
        for k in keys:
            for part in (0, 1):
                es = []
                for nm, c in exps[k]:
                    h = {b: v // 3 if part else v - v // 3 for b, v in c.items()}
                    h = {b: v for b, v in h.items() if v}
                    if h:
                        es.append(qres.experiment(nm, h, cr))
                if es:
                    results.append(qres.result(es))
    lengths = [[1 + 2 * k for k in range(case['nl'])]] * len(case['pattern'])
    f = PurityRBFitter(None, 3 ** n, lengths, case['pattern'])
    for res in results:
        f.add_data([res], rerun_fit=False)
    f.calc_data()
    f.calc_statistics()
    ctx.check(sorted(f.seeds) == sorted(case['seeds']), 'seeds %s', f.seeds)
    ctx.check(len(f.results) == len(results), 'number of results')
    ctx.check([list(x) for x in f.cliff_lengths] == lengths, 'cliff_lengths')
    for pi in range(len(case['pattern'])):
        want = np.array([exp[pi][case['seeds'].index(s)] for s in f.seeds])
        ctx.close(np.array(f.raw_data[pi]), want, 1e-6 if case['physical'] else 1e-11, 'purity of pattern %d', pi)
        ctx.close(np.array(f.ydata[pi]['mean']), want.mean(0), 1e-6 if case['physical'] else 1e-11, 'mean purity')


# ------------------------------------------------------------------ decay recovery on real sequences

def alpha_st(lo=0.75, hi=0.9985):
    return st.floats(-np.log10(1 - lo), -np.log10(1 - hi)).map(lambda x: round(1 - 10 ** -x, 7))


SEQPAT = [[[0]], [[1, 0]], [[1], [0]], [[0, 2], [1]], [[2], [1, 0]], [[2], [0], [1]], [[1]], [[3], [0], [4], [1], [2]]]


@st.composite
def decay_case(draw, kind):
    if kind == 'purity':
        pat = draw(st.sampled_from([[[0]], [[1], [0]], [[1, 0]], [[2], [0]]]))
    elif kind == 'default':
        pat = [[0]]
    else:
        pat = draw(st.sampled_from(SEQPAT))
    return {'pattern': pat, 'alphas': [draw(alpha_st()) for _ in pat], 'ratio': [draw(st.floats(0.05 if kind == 'int' else 0.3, 3.0)) for _ in pat],
            'amp': [draw(st.floats(0.5, 1.0)) for _ in pat], 'floor': [draw(st.one_of(st.floats(0, 0.12), st.floats(-0.3, 0.6))) for _ in pat],
            'nl': draw(st.integers(4, 8)), 'span': draw(st.floats(1.0, 3.0)), 'nseeds': draw(st.integers(1, 3)),
            'spread': draw(st.sampled_from([0, 0, 0.003, 0.02])), 'seed': draw(st.integers(0, 999)),
            'first': draw(st.sampled_from([1, 1, 0, 2])), 'none': draw(st.integers(0, 5)) == 0,
            'hist': draw(st.integers(0, 3)), 'order': draw(st.integers(0, 99))}


def grid(alphas, case):
    """Lengths per pattern spanning the decay of that pattern."""
    out = []
    for a in alphas:
        top = max(case['nl'] + 2, int(round(case['span'] / -np.log(a))))
        g = sorted({case['first'] + int(round(x)) for x in np.linspace(0, top, case['nl'])})
        while len(g) < case['nl']:
            g.append(g[-1] + 1)
        out.append([int(x) for x in g])
    return out


def survival_results(case, name, surv, lengths):
    """surv(pattern, length) -> mean survival; the seeds spread symmetrically around it."""
    r = sim.rs(case['seed'])
    ns = case['nseeds']
    pats = case['pattern']
    nb = sum(len(p) for p in pats)
    dev = np.zeros((ns, len(pats), case['nl']))
    if ns > 1 and case['spread']:
        u = r.uniform(0.3, 1, size=dev.shape[1:]) * r.choice([-1, 1], size=dev.shape[1:])
        base = [1, -1] if ns == 2 else [1, -0.3, -0.7]
        dev = case['spread'] * np.array([b * u for b in base])
    out = []
    for s in range(ns):
        exps = []
        for k in range(case['nl']):
            segs = [[0, SHOTS]]
            bounds = []
            for pi, p in enumerate(pats):
                y = surv(pi, lengths[pi][k])
                room = min(y, 1 - y)
                y = y + dev[s, pi, k] * min(1.0, room / max(case['spread'], 1e-9) / 2)
                g = int(round(y * SHOTS))
                o = int(r.randint(0, SHOTS))
                bounds.append((o, g))
            cuts = sorted({0, SHOTS} | {b for o, g in bounds for b in (o, (o + g) % SHOTS)})
            counts = {}
            for a, b in zip(cuts[:-1], cuts[1:]):
                val, pos = 0, 0
                for (o, g), p in zip(bounds, pats):
                    if not (a - o) % SHOTS < g:
                        val |= int(r.randint(1, 2 ** len(p))) << pos
                    pos += len(p)
                key = format(val, '0%db' % nb)
                counts[key] = counts.get(key, 0) + b - a
            exps.append(qres.experiment('%s_length_%d_seed_%d' % (name, k, s), counts, [('cr', nb)]))
        out.append(qres.result(exps))
    del segs
    return out


def curve(case, alphas):
    def f(pi, m):
        d = 2 ** len(case['pattern'][pi])
        b = 1 / d + case['floor'][pi] / d
        a = (1 - b) * case['amp'][pi]
        return a * alphas[pi] ** m + b
    return f


def params(case, pi, alpha):
    d = 2 ** len(case['pattern'][pi])
    b = 1 / d + case['floor'][pi] / d
    return np.array([(1 - b) * case['amp'][pi], alpha, b])


def atol(alpha):
    return max(2e-6, 5e-3 * (1 - alpha))


def check_err(ctx, got, absolute, a, what):
    """An uncertainty is the propagated one; dividing it by the decay (close to one) is accepted as well."""
    if not np.isfinite(absolute) or not a > 0:
        return
    ctx.check(absolute * (1 - 1e-6) - 1e-15 <= got <= absolute / a * (1 + 1e-6) + 1e-15, '%s: %s is outside [%s, %s]', what, got, absolute, absolute / a)


def check_fit(ctx, case, fit, alphas):
    for pi, a in enumerate(alphas):
        d = 2 ** len(case['pattern'][pi])
        check_err(ctx, fit[pi]['epc_err'], (d - 1) / d * fit[pi]['params_err'][1], fit[pi]['params'][1], 'epc_err')
        ctx.close(fit[pi]['params'][1], a, atol(a), 'decay parameter')
        ctx.close(fit[pi]['params'], params(case, pi, a), 0.02, 'fit parameters')
        ctx.close(fit[pi]['epc'], (d - 1) / d * (1 - a), atol(a), 'error per Clifford')
        ctx.close(fit[pi]['epc'], (d - 1) / d * (1 - fit[pi]['params'][1]), 1e-12, 'error per Clifford from the fitted decay')


@facet('decay', decay_case('rb'), 300, 3000, 'several seeds or patterns', shards=2)
def decay(case, ctx):
    lengths = grid(case['alphas'], case)
    res = survival_results(case, 'rb', curve(case, case['alphas']), lengths)
    ctx.nontrivial(case['nseeds'] > 1 or len(case['pattern']) > 1)
    ctx.label('spread %s' % case['spread'])
    order = sim.rs(case['order']).permutation(len(res))
    pat = case['pattern']
    if case['none'] and pat == [[0]]:
        pat = None
        ctx.label('default pattern')
    if case['hist'] == 0:
        f = RBFitter(res, lengths, pat)
    elif case['hist'] == 1:
        f = RBFitter(None, lengths, pat)
        for i in order:
            f.add_data(res[i])
    elif case['hist'] == 2:
        f = RBFitter([res[i] for i in order[:1]], lengths, pat)
        f.add_data([res[i] for i in order[1:]] or None)
    else:
        f = RBFitter(None, lengths, pat)
        for i in order:
            f.add_data([res[i]], rerun_fit=False)
        f.calc_data()
        f.calc_statistics()
        f.fit_data()
    check_fit(ctx, case, f.fit, case['alphas'])
    # fitting one pattern from an explicit guess gives the same
    f.fit_data_pattern(0, tuple(params(case, 0, case['alphas'][0]) * 0.99))
    check_fit(ctx, case, f.fit, case['alphas'])


def int_relations(ctx, f, pi, d):
    """The derived quantities follow from the two fitted decays (arXiv:1203.4550, equations 4 and 5)."""
    e = f.fit_int[pi]
    a, c = e['alpha'], e['alpha_c']
    ctx.close([a, c], [f.fit[0][pi]['params'][1], f.fit[1][pi]['params'][1]], 1e-12, 'decays of the two fits')
    ctx.close(e['epc_est'], (d - 1) / d * (1 - c / a), 1e-12, 'epc_est from the fitted decays')
    s1 = (d - 1) * (abs(a - c / a) + 1 - a) / d
    s2 = 2 * (d * d - 1) * (1 - a) / (a * d * d) + 4 * np.sqrt(1 - a) * np.sqrt(d * d - 1) / a
    ctx.close(e['systematic_err'], min(s1, s2), 1e-10, 'systematic error')
    ctx.close([e['systematic_err_L'], e['systematic_err_R']], [e['epc_est'] - e['systematic_err'], e['epc_est'] + e['systematic_err']],
              1e-12, 'systematic error bounds')
    ae, ce = f.fit[0][pi]['params_err'][1], f.fit[1][pi]['params_err'][1]
    ctx.close([e['alpha_err'], e['alpha_c_err']], [ae, ce], 1e-12, 'alpha errors')
    ctx.close(e['epc_est_err'], (d - 1) / d * c / a * np.sqrt((ae / a) ** 2 + (ce / c) ** 2), 1e-10, 'epc_est_err')
    return s2 < s1


@st.composite
def bad_gate_case(draw):
    pat = draw(st.sampled_from([[[0]], [[0, 1]], [[1], [0, 2]]]))
    return {'pattern': pat, 'alphas': [draw(alpha_st(0.99, 0.999999)) for _ in pat], 'comb': [draw(st.floats(0.2, 0.98)) for _ in pat],
            'amp': [draw(st.floats(0.8, 1.0)) for _ in pat], 'floor': [0.0 for _ in pat], 'nl': draw(st.integers(4, 6)), 'nseeds': 1, 'spread': 0,
            'seed': draw(st.integers(0, 999))}


@facet('bad_gate', bad_gate_case(), 100, 1000, 'the second bound of the systematic error is the smaller one', shards=1)
def bad_gate(case, ctx):
    lengths = [[1 + 2 * k for k in range(case['nl'])] for _ in case['pattern']]
    std = survival_results(case, 'rb', curve(case, case['alphas']), lengths)
    inter = survival_results(case, 'rb_interleaved', curve(case, case['comb']), lengths)
    try:
        f = InterleavedRBFitter(std, inter, lengths, case['pattern'])
    except RuntimeError:        # scipy: no convergence (the decay is hardly visible)
        return
    second = [int_relations(ctx, f, pi, 2 ** len(p)) for pi, p in enumerate(case['pattern'])]
    ctx.nontrivial(any(second))


@facet('interleaved_decay', decay_case('int'), 200, 2000, 'always (two data sets)', shards=2)
def interleaved_decay(case, ctx):
    gal = [1 - (1 - a) * x for a, x in zip(case['alphas'], case['ratio'])]
    comb = [a * g for a, g in zip(case['alphas'], gal)]
    lengths = grid([min(a, (c + a) / 2) for a, c in zip(case['alphas'], comb)], case)
    std = survival_results(case, 'rb', curve(case, case['alphas']), lengths)
    inter = survival_results(case, 'rb_interleaved', curve(case, comb), lengths)
    order = sim.rs(case['order']).permutation(len(std))
    pat = None if case['none'] and case['pattern'] == [[0]] else case['pattern']
    ctx.nontrivial()
    if case['hist'] % 2 == 0:
        f = InterleavedRBFitter(std, inter, lengths, pat)
    else:
        f = InterleavedRBFitter(None, None, lengths, pat)
        for i in order:
            f.add_data([std[i]], [inter[i]], rerun_fit=case['hist'] == 1)
        if case['hist'] != 1:
            f.calc_data()
            f.calc_statistics()
            f.fit_data()
    ctx.check(len(f.results[0]) == len(std) and len(f.results[1]) == len(inter), 'results were duplicated or lost')
    check_fit(ctx, case, f.fit[0], case['alphas'])
    check_fit(ctx, case, f.fit[1], comb)
    for pi, (a, c, e) in enumerate(zip(case['alphas'], comb, f.fit_int)):
        d = 2 ** len(case['pattern'][pi])
        tol = 3 * (atol(a) + atol(c))
        ctx.close(e['alpha'], a, atol(a), 'alpha')
        ctx.close(e['alpha_c'], c, atol(c), 'alpha_c')
        ctx.close(e['epc_est'], (d - 1) / d * (1 - gal[pi]), tol, 'epc_est')
        int_relations(ctx, f, pi, d)
    refit(ctx, case, f, [case['alphas'], comb])


def refit(ctx, case, f, both):
    """One pattern of one of the two data sets fitted again from an explicit guess."""
    pi, which = case['order'] % len(case['pattern']), case['seed'] % 2
    keep = [[np.array(e['params']) for e in f.fit[k]] for k in (0, 1)]
    f.fit_data_pattern(pi, tuple(params(case, pi, both[which][pi]) * 0.99), which)
    for k in (0, 1):
        check_fit(ctx, case, f.fit[k], both[k])
        for i, e in enumerate(f.fit[k]):
            if (k, i) != (which, pi):
                ctx.close(e['params'], keep[k][i], 0, 'the fit of pattern %d of data set %d changed when that of pattern %d of set %d was repeated' % (i, k, pi, which))


@facet('dihedral_decay', decay_case('dih'), 200, 2000, 'always (two data sets)', shards=2)
def dihedral_decay(case, ctx):
    aR = [1 - (1 - a) * x for a, x in zip(case['alphas'], case['ratio'])]
    lengths = grid([(a + b) / 2 for a, b in zip(case['alphas'], aR)], case)
    zres = survival_results(case, 'rb_cnotdihedral_Z', curve(case, case['alphas']), lengths)
    xres = survival_results(case, 'rb_cnotdihedral_X', curve(case, aR), lengths)
    pat = None if case['none'] and case['pattern'] == [[0]] else case['pattern']
    ctx.nontrivial()
    if case['hist'] % 2 == 0:
        f = CNOTDihedralRBFitter(zres, xres, lengths, pat)
    else:
        f = CNOTDihedralRBFitter(zres[:1], xres[:1], lengths, pat)
        for z, x in zip(zres[1:], xres[1:]):
            f.add_data([z], x)
    ctx.check(len(f.results[0]) == len(zres) and len(f.results[1]) == len(xres), 'results were duplicated or lost')
    check_fit(ctx, case, f.fit[0], case['alphas'])
    check_fit(ctx, case, f.fit[1], aR)
    for pi, (a, b, e) in enumerate(zip(case['alphas'], aR, f.fit_cnotdihedral)):
        d = 2 ** len(case['pattern'][pi])
        al = (a + d * b) / (d + 1)
        ctx.close(e['alpha'], al, atol(a) + atol(b), 'alpha')
        ctx.close(e['epg_est'], (d - 1) / d * (1 - al), atol(a) + atol(b), 'epg_est')
        ze, xe = f.fit[0][pi]['params_err'][1], f.fit[1][pi]['params_err'][1]
        if np.isfinite(ze + xe):
            check_err(ctx, e['alpha_err'], np.hypot(ze, d * xe) / (d + 1), min(a, b) * 0.98, 'alpha_err')
            check_err(ctx, e['epg_est_err'], (d - 1) / d * e['alpha_err'], e['alpha'], 'epg_est_err')
    refit(ctx, case, f, [case['alphas'], aR])


# ------------------------------------------------------------------ end to end with the generated sequences

@st.composite
def e2e_case(draw):
    kind = draw(st.sampled_from(['rb', 'interleaved', 'purity', 'dihedral']))
    pats = [[[0]], [[1], [0]], [[1, 0]], [[2], [0], [1]]] if kind == 'purity' else [[[0]], [[1, 0]], [[1], [2]], [[0, 2], [1]], [[1], [2, 0]]]
    pat = draw(st.sampled_from(pats))
    mult = 1 if kind == 'purity' else draw(st.sampled_from([1, 1, 2]))
    return {'kind': kind, 'pattern': pat, 'mult': [mult * draw(st.integers(1, 2)) if kind != 'purity' else 1 for _ in pat],
            'alphas': [draw(st.floats(0.7, 0.93)) for _ in pat], 'galphas': [draw(st.floats(0.75, 0.99)) for _ in pat],
            'nseeds': draw(st.integers(1, 2)), 'rand_seed': draw(st.integers(0, 10 ** 6)), 'offset': draw(st.sampled_from([0, 3]))}


def noisy_counts(circ, pattern, lam):
    p = sim.clbit_probs(circ)
    nb = sum(len(x) for x in pattern)
    v = np.zeros(2 ** nb)
    for k, x in p.items():
        v[k] = x
    t = v.reshape([2] * nb)
    pos = 0
    for pat, l in zip(pattern, lam):
        axes = tuple(nb - 1 - b for b in range(pos, pos + len(pat)))
        marg = t.mean(axis=axes, keepdims=True)
        t = l * t + (1 - l) * marg
        pos += len(pat)
    v = t.reshape(-1)
    return qres.ints({format(i, '0%db' % nb): float(max(x, 0)) for i, x in enumerate(v)}, SHOTS)


@facet('end_to_end', e2e_case(), 48, 400, 'always', shards=8)
def end_to_end(case, ctx):
    pat, kind = case['pattern'], case['kind']
    base = [1, 2, 4, 7] if max(len(p) for p in pat) > 1 else [1, 3, 6, 10]
    kw = dict(nseeds=case['nseeds'], length_vector=base, rb_pattern=pat, length_multiplier=list(case['mult']),
              seed_offset=case['offset'], rand_seed=case['rand_seed'])
    ctx.nontrivial()
    ctx.label(kind)
    d = [2 ** len(p) for p in pat]

    def results(circs, xd, lam):
        out = []
        for per_seed in circs:
            out.append(qres.from_circuits(per_seed, [noisy_counts(c, pat, [lam(pi, xd[pi][k]) for pi in range(len(pat))])
                                                     for k, c in enumerate(per_seed)]))
        return out
    al, ga = case['alphas'], case['galphas']
    if kind == 'rb':
        circs, xd = randomized_benchmarking_seq(**kw)
        f = RBFitter(results(circs, xd, lambda i, m: al[i] ** (m + 1)), xd, pat)
        for i in range(len(pat)):
            ctx.close(f.fit[i]['params'][1], al[i], 3e-3, 'decay')
            ctx.close(f.fit[i]['epc'], (1 - 1 / d[i]) * (1 - al[i]), 3e-3, 'epc')
    elif kind == 'interleaved':
        elem = [XGate() if len(p) == 1 else CXGate() for p in pat]
        if case['rand_seed'] % 2:
            elem = [HGate() if len(p) == 1 else CZGate() for p in pat]
        circs, xd, icircs = randomized_benchmarking_seq(interleaved_elem=elem, **kw)
        f = InterleavedRBFitter(results(circs, xd, lambda i, m: al[i] ** (m + 1)),
                                results(icircs, xd, lambda i, m: al[i] ** (m + 1) * ga[i] ** m), xd, pat)
        for i in range(len(pat)):
            ctx.close(f.fit_int[i]['epc_est'], (1 - 1 / d[i]) * (1 - ga[i]), 1e-2, 'interleaved epc_est')
    elif kind == 'purity':
        kw['length_multiplier'] = 1
        circs, xd, npur = randomized_benchmarking_seq(is_purity=True, **kw)
        ctx.check(npur == 3 ** len(pat[0]), 'npurity')
        res = []
        for per_seed in circs:
            res += results(per_seed, xd, lambda i, m: al[i] ** (m + 1))
        if case['rand_seed'] % 2:
            f = PurityRBFitter(res, npur, xd, pat)
        else:
            f = PurityRBFitter(res[:npur], npur, xd, pat)
            f.add_data(res[npur:] or None)
        for i in range(len(pat)):
            ctx.close(np.array(f.ydata[i]['mean']), (1 - 1 / d[i]) * al[i] ** (2 * (np.array(xd[i]) + 1)) + 1 / d[i], 1e-6, 'purity')
            ctx.close(f.fit[i]['params'][1], al[i], 5e-3, 'purity decay')
            ctx.close(f.fit[i]['pepc'], (1 - 1 / d[i]) * (1 - al[i]), 5e-3, 'pepc')
            ctx.close(f.fit[i]['pepc'], (1 - 1 / d[i]) * (1 - f.fit[i]['params'][1]), 1e-12, 'pepc from the fitted decay')
    else:
        zc, xd, xc = randomized_benchmarking_seq(group_gates='CNOT-Dihedral', **kw)
        f = CNOTDihedralRBFitter(results(zc, xd, lambda i, m: al[i] ** (m + 1)), results(xc, xd, lambda i, m: ga[i] ** (m + 1)), xd, pat)
        for i in range(len(pat)):
            a = (al[i] + d[i] * ga[i]) / (d[i] + 1)
            ctx.close(f.fit_cnotdihedral[i]['alpha'], a, 1e-2, 'dihedral alpha')
            ctx.close(f.fit_cnotdihedral[i]['epg_est'], (1 - 1 / d[i]) * (1 - a), 1e-2, 'epg_est')


# ------------------------------------------------------------------ any mean data yields a fit within bounds

@st.composite
def rough_case(draw):
    return {'pattern': draw(st.sampled_from([[[0]], [[0, 1]]])), 'alpha': draw(st.floats(0.2, 0.999)), 'a': draw(st.floats(0.05, 1)),
            'b': draw(st.floats(0, 1)), 'shots': draw(st.sampled_from([100, 1000])), 'seed': draw(st.integers(0, 10 ** 6)),
            'first': draw(st.sampled_from([0, 1, 1, 5])), 'step': draw(st.integers(1, 30)), 'nl': draw(st.integers(4, 8)),
            'nseeds': draw(st.sampled_from([1, 1, 2, 5]))}


@facet('rough', rough_case(), 400, 4000, 'shot-noise data', shards=1)
def rough(case, ctx):
    r = sim.rs(case['seed'])
    lens = [case['first'] + case['step'] * k for k in range(case['nl'])]
    nb = len(case['pattern'][0])
    res = []
    for seed in range(case['nseeds']):
        exps = []
        for k, m in enumerate(lens):
            p = min(1, case['a'] * case['alpha'] ** m + case['b'] * (1 - case['a']))
            g = int(r.binomial(case['shots'], p))
            c = {'0' * nb: g, '1' * nb: case['shots'] - g}
            exps.append(qres.experiment('rb_length_%d_seed_%d' % (k, seed), {x: v for x, v in c.items() if v}, [('cr', nb)]))
        res.append(qres.result(exps))
    ctx.nontrivial()
    try:
        f = RBFitter(res, [lens], case['pattern'])
    except RuntimeError:        # scipy: no convergence on this noise realisation
        ctx.label('no convergence')
        return
    pr = np.array(f.fit[0]['params'])
    ctx.check(np.all(pr >= -1e-12) and np.all(pr <= 1 + 1e-12), 'parameters outside [0,1]: %s', pr)
    y = np.array(f.ydata[0]['mean'])
    x = np.array(lens, dtype=float)
    sd = f.ydata[0]['std']
    w = np.ones(len(x)) if sd is None or np.any(np.array(sd) == 0) else 1 / np.array(sd)
    chi = lambda q: np.sum((w * (q[0] * q[1] ** x + q[2] - y)) ** 2)
    # no worse than a constant, and no better parameters nearby
    if np.all(w == 1):
        ctx.check(chi(pr) <= np.sum((y - y.mean()) ** 2) * (1 + 1e-3) + 1e-6, 'fit worse than a constant: %s > %s', chi(pr), np.sum((y - y.mean()) ** 2))
    else:
        ctx.label('weighted')
    e = np.array(f.fit[0]['params_err'])
    check_err(ctx, f.fit[0]['epc_err'], (2 ** nb - 1) / 2 ** nb * e[1], pr[1], 'epc_err')
    inner = np.all(pr > 1e-3) and np.all(pr < 1 - 1e-3) and np.all(np.isfinite(e)) and np.all(e < 0.2)
    if inner and len(x) > 3:
        jac = np.array([pr[1] ** x, pr[0] * x * pr[1] ** np.maximum(x - 1, 0), np.ones(len(x))]).T * w[:, None]
        info = jac.T @ jac
        if np.linalg.cond(info) < 1e9:
            ctx.label('error bars compared')
            ref = np.sqrt(np.diag(np.linalg.inv(info)) * chi(pr) / (len(x) - 3))
            ctx.close(e / ref, [1, 1, 1], 0.05, 'parameter errors relative to the least-squares ones')
            grad = np.array([w * (pr[0] * pr[1] ** x + pr[2] - y)]) @ jac
            step = np.linalg.solve(info, grad[0])
            ctx.check(np.all(np.abs(step) <= 0.05 * ref + 1e-4), 'better parameters nearby: %s from %s (errors %s)', step, pr, ref)
