"""C09: tomography count utilities are exact marginals, sums and expectations."""
import numpy as np
from hypothesis import strategies as st
from qiskit.result import Counts
from qiskit.ignis.verification.tomography import (marginal_counts, count_keys, combine_counts,
                                                  expectation_counts)
from qiskit.ignis.utils import build_counts_dict_from_list

from harness import facet

ASSUMPTIONS = ['bit positions requested for a marginal are distinct and valid; the marginal lists them in ascending position']


def split(key, seps):
    out, last = [], 0
    for s in sorted(set(x for x in seps if 0 < x < len(key))):
        out.append(key[last:s])
        last = s
    out.append(key[last:])
    return ' '.join(out)


@st.composite
def counts_st(draw, n=None, spaces=True, zeros=True, maxn=9):
    n = n or draw(st.integers(1, maxn))
    vals = draw(st.dictionaries(st.integers(0, 2 ** n - 1), st.integers(0 if zeros else 1, 10 ** 6), min_size=1, max_size=20))
    seps = draw(st.lists(st.integers(1, 6), max_size=2)) if spaces else []
    return n, {split(format(k, '0%db' % n), seps): v for k, v in vals.items()}


@st.composite
def marg_case(draw):
    n, counts = draw(counts_st())
    mode = draw(st.sampled_from(['list', 'list', 'list', 'true', 'default']))
    qs = list(draw(st.permutations(list(range(n)))))[:draw(st.integers(1, n))]
    return {'n': n, 'counts': counts, 'mode': mode, 'qubits': qs, 'pad': draw(st.booleans())}


@facet('marginal', marg_case(), 2400, 20000,
       'random counts (register separators included) and positions; non-trivial: proper subset', shards=2)
def marginal(case, ctx):
    n, counts = case['n'], dict(case['counts'])
    keep = dict(counts)
    full = case['mode'] != 'list' or len(case['qubits']) == n
    ctx.nontrivial(not full)
    if any(' ' in k for k in counts):
        ctx.label('separators')
    kw = {} if not case['pad'] else {'pad_zeros': True}
    if case['mode'] == 'list':
        arg = list(case['qubits'])
        got = marginal_counts(counts, arg, **kw)
        ctx.check(arg == case['qubits'], 'argument list modified')
    elif case['mode'] == 'true':
        got = marginal_counts(counts, True, **kw)
    else:
        got = marginal_counts(counts, **kw)
    qs = list(range(n)) if full else sorted(case['qubits'])
    want = {}
    for key, v in counts.items():
        bits = key.replace(' ', '')
        k = ''.join(bits[n - 1 - q] for q in reversed(qs))
        want[k] = want.get(k, 0) + v
    ctx.check({k: v for k, v in got.items() if v} == {k: v for k, v in want.items() if v},
              'marginal %s expected %s', got, want)
    ctx.check(all(len(k) == len(qs) and set(k) <= {'0', '1'} for k in got), 'keys %s', list(got))
    if case['pad']:
        ctx.check(sorted(got) == [format(i, '0%db' % len(qs)) for i in range(2 ** len(qs))], 'padded keys %s', list(got))
    elif not full:
        ctx.check(all(v != 0 for v in got.values()), 'zero entries without padding')
    ctx.check(counts == keep, 'counts modified')


@st.composite
def pair_case(draw):
    n, a = draw(counts_st())
    _, b = draw(counts_st(n=n, spaces=False))
    return {'a': a, 'b': b, 'ints': draw(st.booleans())}


@facet('combine', pair_case(), 600, 8000, 'two random count dictionaries; non-trivial: they share a key')
def combine(case, ctx):
    a, b = dict(case['a']), dict(case['b'])
    if case['ints']:
        a = {int(k.replace(' ', ''), 2): v for k, v in a.items()}
        b = {int(k, 2): v for k, v in b.items()}
    ka, kb = dict(a), dict(b)
    ctx.nontrivial(bool(set(a) & set(b)))
    got = combine_counts(a, b)
    want = {k: ka.get(k, 0) + kb.get(k, 0) for k in set(ka) | set(kb)}
    ctx.check(dict(got) == want, 'combined %s expected %s', got, want)
    ctx.check(a == ka and b == kb, 'arguments modified')
    rev = combine_counts(b, a)
    ctx.check(dict(rev) == want, 'combination is not symmetric')
    if not case['ints']:
        got = combine_counts(Counts({k: v for k, v in ka.items() if ' ' not in k} or {'0': 1}), {})
        ctx.check(sum(got.values()) == (sum(v for k, v in ka.items() if ' ' not in k) if any(' ' not in k for k in ka) else 1), 'total')


@facet('pool', st.lists(pair_case(), min_size=1, max_size=9), 400, 5000,
       'lists of count dictionaries pooled; non-trivial: at least two')
def pool(case, ctx):
    dicts = [dict(c['a']) for c in case]
    keep = [dict(d) for d in dicts]
    ctx.nontrivial(len(dicts) > 1)
    got = build_counts_dict_from_list(dicts)
    want = {}
    for d in keep:
        for k, v in d.items():
            want[k] = want.get(k, 0) + v
    ctx.check(dict(got) == want, 'pooled %s expected %s', got, want)
    ctx.check(dicts == keep, 'arguments modified')


@facet('expectation', counts_st(zeros=False, maxn=8).map(lambda t: {'n': t[0], 'counts': t[1]}), 500, 6000,
       'all correlators of random counts; non-trivial: at least two bits', shards=4)
def expectation(case, ctx):
    n, counts = case['n'], dict(case['counts'])
    keep = dict(counts)
    got = expectation_counts(counts)
    ctx.nontrivial(n > 1)
    ctx.check(set(got) == {format(i, '0%db' % n) for i in range(2 ** n)}, 'keys %s', sorted(got))
    for op, val in got.items():
        want = sum((-1) ** sum(int(o) & int(b) for o, b in zip(op, k.replace(' ', ''))) * v for k, v in counts.items())
        ctx.check(val == want, 'operator %s: %s expected %s', op, val, want)
    ctx.check(counts == keep, 'counts modified')


@facet('keys', st.fixed_dictionaries({'n': st.integers(1, 12)}), 40, 60, 'outcome labels in order; non-trivial: n>1')
def keys(case, ctx):
    n = case['n']
    ctx.nontrivial(n > 1)
    ctx.check(list(count_keys(n)) == [format(i, '0%db' % n) for i in range(2 ** n)], 'labels for %s bits', n)
