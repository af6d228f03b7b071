"""C20: logical error estimates count decoded, discarded and unlikely shots exactly."""
import copy
import math

import networkx as nx
import numpy as np
from hypothesis import strategies as st
from qiskit.ignis.verification.topological_codes import RepetitionCode, GraphDecoder, postselection_decoding, lookuptable_decoding

import repcode
from harness import facet

ASSUMPTIONS = ['every logical value has at least one shot (postselection: one surviving shot)']


def syndrome_graph(d, t):
    """reference syndrome graph of the repetition code: space-like, time-like and diagonal neighbours, and the two boundaries."""
    g = nx.Graph()
    for r in range(t + 1):
        for i in range(d - 1):
            if i + 1 < d - 1:
                g.add_edge((1, r, i), (1, r, i + 1), distance=1)
                if r < t:
                    g.add_edge((1, r + 1, i), (1, r, i + 1), distance=1)
            if r < t:
                g.add_edge((1, r, i), (1, r + 1, i), distance=1)
        g.add_edge((1, r, 0), (0, 0, 0), distance=1)
        g.add_edge((1, r, d - 2), (0, 1, 0), distance=1)
    return g


@st.composite
def results_case(draw, maxd=5):
    d, t = draw(st.one_of(st.tuples(st.integers(2, maxd), st.integers(1, 2)), st.sampled_from([(7, 1), (3, 5), (6, 2), (2, 11), (11, 1)])))
    width = d + t * (d - 1)
    logs = draw(st.sampled_from([['0'], ['1'], ['0', '1'], ['1', '0']]))
    res = {}
    for log in logs:
        cnt = draw(st.dictionaries(st.one_of(st.integers(0, 2 ** width - 1), st.sampled_from([0, 2 ** width - 1, (2 ** d - 1) << (t * (d - 1))])),
                                   st.integers(1, 1000), min_size=1, max_size=12))
        res[log] = [[format(v, '0%db' % width), c] for v, c in cnt.items()]
    return {'size': [d, t], 'res': res, 'scale': draw(st.integers(2, 9)), 'order': draw(st.integers(0, 10 ** 6))}


def spaced(bits, d, t):
    out, pos = [bits[:d]], d
    for _ in range(t):
        out.append(bits[pos:pos + d - 1])
        pos += d - 1
    return ' '.join(out)


def processed(case, key='res'):
    d, t = case['size']
    return {log: {repcode.process(spaced(b, d, t), d, t): c for b, c in cnt} for log, cnt in case[key].items()}


def variants(case, results):
    """the same data in another order, and scaled."""
    r = np.random.RandomState(case['order'])
    out = {}
    for log in sorted(results, reverse=bool(case['order'] % 2)):
        keys = list(results[log])
        r.shuffle(keys)
        out[log] = {k: results[log][k] for k in keys}
    yield 'reordered', out
    yield 'scaled', {log: {k: v * case['scale'] for k, v in cnt.items()} for log, cnt in results.items()}


@facet('matching', results_case(), quick=250, thorough=5000, shards=8, rule='several outcomes')
def matching(case, ctx):
    d, t = case['size']
    res = processed(case)
    keep = copy.deepcopy(res)
    graph = syndrome_graph(d, t)
    dec = GraphDecoder(RepetitionCode(d, t), S=graph.copy())
    got = dec.get_logical_prob(res)
    ctx.check(res == keep, 'results modified')
    ctx.check(set(got) == set(res), 'logical values %s', set(got))
    for log, cnt in res.items():
        sure, either, tot = 0, 0, 0
        exact = 0
        for s, c in cnt.items():
            want, _ = repcode.best_logicals(graph, s[0], s[2], [n[1:] for n in repcode.nodes(s) if n[0] == 1])
            bad = {w[0] != log for w in want}
            tot += c
            sure += c if bad == {True} else 0
            either += c if True in bad else 0
            exact += c if dec.matching(s)[0] != log else 0
        ctx.check(sure / tot - 1e-12 <= got[log] <= either / tot + 1e-12, 'logical error probability %s of %s, expected between %s and %s', got[log], log, sure / tot, either / tot)
        ctx.close(got[log], exact / tot, 1e-12, 'probability of shots decoded to the wrong value')
    for what, other in variants(case, res):
        g2 = dec.get_logical_prob(other)
        for log in res:
            ctx.close(g2[log], got[log], 1e-12, 'probability for %s results' % what)
    ctx.nontrivial(sum(len(c) for c in res.values()) > 1)


@facet('postselection', results_case(), quick=600, thorough=10000, shards=2, rule='a surviving and a discarded outcome')
def postselection(case, ctx):
    res = processed(case)
    d, t = case['size']
    zero = ' '.join(['0' * (d - 1)] * (t + 1))
    for log in res:                                   # at least one surviving shot
        if not any(s.endswith('  ' + zero) for s in res[log]):
            v = log if case['order'] % 3 else str(1 - int(log))
            res[log][v + ' ' + v + '  ' + zero] = 1 + case['order'] % 50
    keep = copy.deepcopy(res)
    got = postselection_decoding(res)
    ctx.check(res == keep, 'results modified')
    disc = False
    for log, cnt in res.items():
        surv = {s: c for s, c in cnt.items() if s.split('  ')[1] == zero}
        disc |= len(surv) < len(cnt)
        bad = sum(c for s, c in surv.items() if s[0] != log)
        ctx.close(got[log], bad / sum(surv.values()), 1e-12, 'postselected error probability of %s' % log)
    for what, other in variants(case, res):
        g2 = postselection_decoding(other)
        for log in res:
            ctx.close(g2[log], got[log], 1e-12, 'probability for %s results' % what)
    ctx.check(set(got) == set(res), 'logical values')
    ctx.nontrivial(disc)


@st.composite
def lookup_case(draw):
    c = draw(results_case(4))
    d, t = c['size']
    width = d + t * (d - 1)
    pool = sorted({b for cnt in c['res'].values() for b, _ in cnt})
    train = {}
    for log in ['0', '1']:
        keys = draw(st.lists(st.one_of(st.sampled_from(pool), st.integers(0, 2 ** width - 1).map(lambda v: format(v, '0%db' % width))), unique=True, max_size=12))
        train[log] = [[k, draw(st.integers(1, 20))] for k in keys]
    c['train'] = train
    return c


@facet('lookup', lookup_case(), quick=600, thorough=10000, shards=2, rule='an outcome that is in the training table')
def lookup(case, ctx):
    res, train = processed(case), processed(case, 'train')
    keep = copy.deepcopy((res, train))
    got = lookuptable_decoding(train, res)
    ctx.check((res, train) == keep, 'results modified')
    ctx.check(set(got) == set(res), 'logical values')
    seen = False
    for log, cnt in res.items():
        other = '1' if log == '0' else '0'
        bad = sum(c for s, c in cnt.items() if train[other].get(s, 0) > train[log].get(s, 0))
        seen |= any(s in train['0'] or s in train['1'] for s in cnt)
        ctx.close(got[log], bad / sum(cnt.values()), 1e-12, 'look-up error probability of %s' % log)
    for what, v in variants(case, res):
        g2 = lookuptable_decoding(train, v)
        for log in res:
            ctx.close(g2[log], got[log], 1e-12, 'probability for %s results' % what)
    ctx.nontrivial(seen)


@st.composite
def weight_case(draw):
    d, t = draw(st.integers(2, 5)), draw(st.integers(1, 3))
    return {'size': [d, t], 'p': draw(st.sampled_from([0.0, 0.02, 0.1, 0.3, 0.5])), 'shots': draw(st.integers(1, 400)), 'seed': draw(st.integers(0, 10 ** 6)),
            'scale': draw(st.integers(2, 9)), 'order': draw(st.integers(0, 10 ** 6))}


@facet('weights', weight_case(), quick=300, thorough=5000, shards=4, rule='noisy data')
def weights(case, ctx):
    d, t = case['size']
    r = np.random.RandomState(case['seed'])
    width = d + t * (d - 1)
    table = {}
    for _ in range(case['shots']):
        s = repcode.process(spaced(''.join('1' if x < case['p'] else '0' for x in r.rand(width)), d, t), d, t)
        table[s] = table.get(s, 0) + 1
    # results of logical 1 play no role
    res = {'0': dict(table), '1': {repcode.join('1', '1', [], d, t): 5}}
    keep = copy.deepcopy(res)
    dec = GraphDecoder(RepetitionCode(d, t), S=syndrome_graph(d, t))
    before = set(dec.S.edges)
    dec.weight_syndrome_graph(res)
    ctx.check(res == keep, 'results modified')
    ctx.check(set(dec.S.edges) == before, 'edges of the graph changed')
    tot = sum(table.values())
    first = {}
    for a, b in dec.S.edges:
        n = {}
        for s, c in table.items():
            nodes = set(repcode.nodes(s))
            n[(a in nodes, b in nodes)] = n.get((a in nodes, b in nodes), 0) + c
        ratios = []
        for x in ((False, False), (True, True), (False, True), (True, False)):
            y = (not x[0], not x[1])
            if n.get(y, 0) > 0:
                ratios.append(n.get(x, 0) / n[y])
        want = -math.log(max(min(ratios), 0.5 / tot))
        first[frozenset((a, b))] = want
        ctx.close(dec.S.edges[a, b]['distance'], want, 1e-9, 'distance of %s-%s for counts %s' % (a, b, n))
    # a second call replaces the weights, and order does not matter
    keys = list(table)
    np.random.RandomState(case['order']).shuffle(keys)
    dec.weight_syndrome_graph({'0': {k: table[k] for k in keys}})
    for a, b in dec.S.edges:
        ctx.close(dec.S.edges[a, b]['distance'], first[frozenset((a, b))], 1e-9, 'distance after weighting again')
    # a weighted graph still decodes everything
    out = dec.get_logical_prob({'0': table})
    ctx.check(0 <= out['0'] <= 1, 'logical error probability %s', out)
    if case['p'] == 0:
        ctx.check(out['0'] == 0, 'logical errors in error-free data')
    ctx.nontrivial(case['p'] > 0)
