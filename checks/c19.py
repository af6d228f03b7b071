"""C19: repetition-code decoding corrects every fault it promises to."""
import itertools

import networkx as nx
import numpy as np
from hypothesis import strategies as st
from qiskit.ignis.verification.topological_codes import RepetitionCode, GraphDecoder

import sim
import repcode
from harness import facet

ASSUMPTIONS = ['bit-flip faults act on basis states, so a classical interpreter of the circuit is exact',
               'every round but the last resets the link qubits, as the constructor of the code does']

_CACHE = {}


def get(d, rounds):
    key = (d, rounds)
    if key not in _CACHE:
        code = RepetitionCode(d, rounds)
        small = d * rounds <= 6                 # the decoder simulates every fault to build its graph: slow for larger codes,
        _CACHE[key] = (code, GraphDecoder(code) if small else GraphDecoder(code, S=reference_graph(code)))
    return _CACHE[key]                          # whose graph is compared in the facet "graph"


def reference_graph(code):
    graph = nx.Graph()
    circ = code.circuit['0']
    for loc in locations(circ):
        if loc[0] == 'x':
            nodes = repcode.nodes(repcode.process(apply(circ, [loc]), code.d, code.T))
            if nodes:
                graph.add_edge(*nodes, distance=1)
    return graph


def run(circ, faults=None, meas=()):
    """formatted outcome of the circuit with the given faults."""
    _, c = sim.classical_bits(circ, faults, meas)
    return sim.fmt(circ, sum(b << i for i, b in enumerate(c)))


sizes = st.one_of(st.tuples(st.integers(2, 5), st.integers(1, 3)), st.sampled_from([(6, 1), (7, 1), (3, 4), (7, 2), (3, 6), (9, 1), (9, 2), (11, 1), (3, 11), (5, 6)])).map(list)


@st.composite
def build_case(draw):
    return {'size': [draw(st.sampled_from([2, 3, 4, 5, 6, 7, 8, 11])), draw(st.sampled_from([1, 2, 3, 4, 5, 6, 11]))], 'route': draw(st.booleans()), 'barrier': draw(st.booleans()), 'reset': draw(st.booleans()),
            'xs': draw(st.integers(0, 3))}


@facet('noiseless', build_case(), quick=300, thorough=2000, rule='at least two rounds')
def noiseless(case, ctx):
    d, t = case['size']
    if case['route']:
        code = RepetitionCode(d)
        ctx.check(not any(o[0] == 'measure' for c in code.circuit.values() for o in sim.ops(c)), 'measurement in a code without rounds')
        for _ in range(case['xs']):
            code.x(barrier=case['barrier'])
        for k in range(t):
            code.syndrome_measurement(reset=(k < t - 1) or case['reset'], barrier=case['barrier'])
        code.readout()
        flip = case['xs'] % 2
    else:
        code = RepetitionCode(d, t)
        flip = 0
    ctx.check(code.T == t and code.d == d, 'size of the code')
    lst = code.get_circuit_list()
    for log in ('0', '1'):
        circ = code.circuit[log]
        ctx.check(lst[int(log)] is circ or sim.ops(lst[int(log)]) == sim.ops(circ), 'circuit list')
        ctx.check(circ.name == log, 'name %s of the circuit of logical %s', circ.name, log)
        n_meas = sum(o[0] == 'measure' for o in sim.ops(circ))
        ctx.check(n_meas == t * (d - 1) + d and len(circ.clbits) == n_meas, '%d measurements for d=%d, T=%d', n_meas, d, t)
        raw = run(circ)
        val = str(int(log) ^ flip)
        ctx.check(raw == ' '.join([val * d] + ['0' * (d - 1)] * t), 'noiseless outcome %r of logical %s', raw, log)
        got = code.process_results({log: {raw: 7}})
        want = val + ' ' + val + '  ' + ' '.join(['0' * (d - 1)] * (t + 1))
        ctx.check(got == {log: {want: 7}}, 'processed %s, expected %s', got, want)
    ctx.nontrivial(t > 1)


def locations(circ):
    """all single bit-flip fault locations: ('x', position, qubit) before an operation, ('m', position) at a measurement."""
    out = []
    for pos, (name, _, qs, _) in enumerate(sim.ops(circ)):
        if name in sim.SKIP:
            continue
        for q in qs:
            out.append(('x', pos, q))
        if name == 'measure':
            out.append(('m', pos, None))
    return out


def apply(circ, chosen):
    faults, meas = {}, set()
    for kind, pos, q in chosen:
        if kind == 'x':
            lst = faults.setdefault(pos, [])
            lst.append(q)
        else:
            meas ^= {pos}
    return run(circ, faults, meas)


def decode(ctx, code, dec, log, raw):
    proc = code.process_results({log: {raw: 1}})[log]
    ctx.check(list(proc.values()) == [1], 'processing of %r', raw)
    string = list(proc)[0]
    ctx.check(string == repcode.process(raw, code.d, code.T), 'processed %r, expected %r', string, repcode.process(raw, code.d, code.T))
    return string, dec.matching(string)


@facet('faults', st.fixed_dictionaries({'size': sizes, 'log': st.sampled_from(['0', '1']),
                                        'picks': st.lists(st.integers(0, 10 ** 6), min_size=0, max_size=5)}),
       quick=500, thorough=12000, shards=8, rule='at least one fault with a non-trivial syndrome')
def faults(case, ctx):
    d, t = case['size']
    code, dec = get(d, t)
    circ = code.circuit[case['log']]
    locs = locations(circ)
    chosen = [locs[p % len(locs)] for p in case['picks'][:(d - 1) // 2]]
    raw = apply(circ, chosen)
    string, logical = decode(ctx, code, dec, case['log'], raw)
    ctx.check(logical == case['log'] + ' ' + case['log'], '%d faults %s of the d=%d, T=%d code for logical %s (outcome %r) are decoded to %r',
              len(chosen), chosen, d, t, case['log'], raw, logical)
    p = dec.get_logical_prob({case['log']: {string: 3}})
    ctx.check(p == {case['log']: 0.0}, 'logical error probability %s of correctable faults', p)
    ctx.nontrivial('1' in string.split('  ')[1])


@facet('exhaustive', st.just({}), quick=1, thorough=1, rule='every single fault of the small codes and every pair of faults of d=5',
       shards=1)
def exhaustive(case, ctx):
    del case
    total = 0
    for d, t in ((3, 1), (3, 2), (3, 3), (4, 1), (4, 2), (5, 1)):
        code, dec = get(d, t)
        for log in ('0', '1'):
            circ = code.circuit[log]
            locs = locations(circ)
            sets = [(a,) for a in locs]
            if d == 5:
                sets += [s for i, s in enumerate(itertools.combinations(locs, 2)) if i % 3 == 0]
            seen = {}
            for s in sets:
                raw = apply(circ, s)
                total += 1
                if raw not in seen:
                    seen[raw] = decode(ctx, code, dec, log, raw)
                string, logical = seen[raw]
                if len(s) == 1:
                    ones = string.split('  ')[1].count('1')
                    ends = sum(x != log for x in string.split('  ')[0].split(' '))
                    ctx.check(ones + ends in (0, 2), 'a single fault %s triggers %d syndrome changes and %d boundary flips', s, ones, ends)
                ctx.check(logical == log + ' ' + log, 'faults %s of d=%d, T=%d, logical %s decoded to %r', s, d, t, log, logical)
    ctx.label('%d fault sets' % total)
    ctx.nontrivial(True)


@facet('graph', st.fixed_dictionaries({'size': st.sampled_from([[2, 1], [3, 1], [3, 2], [4, 1], [2, 3], [4, 2], [3, 3], [5, 1], [5, 2], [6, 1]])}),
       quick=12, thorough=40, shards=4, rule='always')
def graph(case, ctx):
    """The syndrome graph joins exactly the pairs of elements one fault can trigger."""
    d, t = case['size']
    code = RepetitionCode(d, t)
    dec = GraphDecoder(code)
    circ = code.circuit['0']
    edges = set()
    for loc in locations(circ):
        if loc[0] == 'm':
            continue
        nodes = repcode.nodes(repcode.process(apply(circ, [loc]), d, t))
        ctx.check(len(nodes) in (0, 2), 'a fault %s triggers %d elements', loc, len(nodes))
        if nodes:
            edges.add(frozenset(nodes))
    got = {frozenset(e) for e in dec.S.edges}
    ctx.check(got == edges, 'edges of the syndrome graph: missing %s, extra %s', edges - got, got - edges)
    ctx.check(all(dec.S.edges[e]['distance'] == 1 for e in dec.S.edges), 'edges of the unweighted graph have distance other than one')
    want_nodes = {(0, 0, 0), (0, 1, 0)} | {(1, r, i) for r in range(t + 1) for i in range(d - 1)}
    ctx.check(set(dec.S.nodes) == want_nodes, 'nodes of the syndrome graph')
    ctx.nontrivial(True)


@st.composite
def raw_case(draw):
    d, t = draw(st.sampled_from([2, 3, 4, 5, 6, 7, 11])), draw(st.sampled_from([1, 2, 3, 4, 5, 11]))
    width = d + t * (d - 1)
    res = {}
    for log in draw(st.sampled_from([['0'], ['1'], ['0', '1'], ['1', '0']])):
        res[log] = {format(v, '0%db' % width): c for v, c in
                    draw(st.dictionaries(st.integers(0, 2 ** width - 1), st.integers(1, 1000), max_size=10)).items()}
    return {'size': [d, t], 'res': res}


def spaced(bits, d, t):
    out, pos = [bits[:d]], d
    for _ in range(t):
        out.append(bits[pos:pos + d - 1])
        pos += d - 1
    return ' '.join(out)


@facet('processing', raw_case(), quick=500, thorough=8000, shards=2, rule='several outcomes')
def processing(case, ctx):
    d, t = case['size']
    code = RepetitionCode(d, t)
    raw = {log: {spaced(b, d, t): c for b, c in cnt.items()} for log, cnt in case['res'].items()}
    keep = {log: dict(cnt) for log, cnt in raw.items()}
    got = code.process_results(raw)
    ctx.check(raw == keep, 'input modified')
    want = {log: {repcode.process(s, d, t): c for s, c in cnt.items()} for log, cnt in raw.items()}
    ctx.check(got == want, 'processed results %s, expected %s', got, want)
    for log in raw:
        ctx.check(len(got[log]) == len(raw[log]), 'outcomes are merged by processing')
        ctx.check({repcode.unprocess(s, d, t): c for s, c in got[log].items()} == raw[log], 'processing loses information')
    ctx.nontrivial(sum(len(c) for c in raw.values()) > 1)


@facet('optimal', st.fixed_dictionaries({'size': sizes, 'seed': st.integers(0, 10 ** 6), 'weight': st.one_of(st.integers(0, 6), st.integers(7, 12)), 'weighted': st.booleans()}),
       quick=300, thorough=6000, shards=8, rule='at least two triggered elements')
def optimal(case, ctx):
    """The decoder's answer is that of a matching of minimum total distance (arbitrary syndromes)."""
    d, t = case['size']
    code, dec = get(d, t)
    r = np.random.RandomState(case['seed'])
    elems = [(rd, i) for rd in range(t + 1) for i in range(d - 1)]
    on = [elems[i] for i in r.permutation(len(elems))[:case['weight']]]
    logs = r.randint(2)
    first = str(logs)
    last = str((logs + sum(1 for rd in range(t + 1) for i in range(d - 1) if (rd, i) in on)) % 2)
    string = repcode.join(first, last, on, d, t)
    if case['weighted']:
        dec = GraphDecoder(code, S=dec.S.copy())
        width = d + t * (d - 1)
        table = {}
        for _ in range(r.randint(1, 60)):
            bits = ''.join('1' if x < 0.12 else '0' for x in r.rand(width))
            s = repcode.process(spaced(bits, d, t), d, t)
            table[s] = table.get(s, 0) + int(r.randint(1, 40))
        dec.matching(string)                   # with the old distances
        dec.weight_syndrome_graph({'0': table})
    want, best = repcode.best_logicals(dec.S, first, last, on)
    got = dec.matching(string)
    ctx.check(got in want, 'syndrome %r is decoded to %r, but the matchings of least distance %.4f give %s', string, got, best, sorted(want))
    ctx.check(dec.matching(string) == got, 'decoding twice gives another answer')
    p = dec.get_logical_prob({first: {string: 3}})
    ctx.check(p == {first: float(got[0] != first)}, 'logical error probability %s of %r decoded to %r', p, string, got)
    ctx.nontrivial(len(on) > 1)
