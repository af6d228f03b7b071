"""C11: randomized-benchmarking sequences always return to their start state."""
import itertools
import numpy as np
from hypothesis import strategies as st
from qiskit import QuantumCircuit, QiskitError
from qiskit.circuit.library import CXGate, XGate, HGate, SGate, TGate, ZGate, CZGate, SwapGate, IGate, SdgGate, TdgGate, YGate
from qiskit.quantum_info import Clifford, random_clifford
from qiskit.ignis.verification.randomized_benchmarking import randomized_benchmarking_seq
from qiskit.ignis.verification.randomized_benchmarking.dihedral import CNOTDihedral, random_cnotdihedral

import sim
from harness import facet

ASSUMPTIONS = ['at most 5 qubits in the circuit, 3 in a group element, sequence lengths up to 12',
               'group elements are delimited by barriers on the qubits of their pattern entry']


@st.composite
def pattern_st(draw, maxq=5, sizes=(1, 2, 3), uniform=False):
    n = draw(st.integers(1, maxq))
    perm = [int(q) for q in draw(st.permutations(list(range(n))))]
    pat = []
    size = draw(st.sampled_from(sizes))
    most = draw(st.sampled_from([3, 3, 5]))
    while perm and len(pat) < most:
        k = min(size if uniform else draw(st.sampled_from(sizes)), len(perm))
        if uniform and k < size:
            break
        pat.append(perm[:k])
        perm = perm[k:]
        if draw(st.booleans()):
            break
    if not pat:
        pat = [[perm[0]]]
    return pat


@st.composite
def wide_st(draw):
    """Larger elements, more simultaneous entries, many seeds; short sequences."""
    shape = draw(st.sampled_from([[4], [3, 2], [1, 1, 1, 1], [1, 2, 1, 1], [3, 1], [1, 1, 1, 1, 1], [2, 2, 1], [3], [1], [1, 1, 1, 1, 1, 1], [1, 1, 1, 1, 1, 1, 1, 1]]))
    n = draw(st.integers(sum(shape), max(6, sum(shape))))
    perm = [int(q) for q in draw(st.permutations(list(range(n))))]
    pat = []
    for k in shape:
        pat.append(perm[:k])
        perm = perm[k:]
    lengths = sorted(draw(st.sets(st.integers(1, 4), min_size=1, max_size=2)))
    if len(shape) == 1 and shape[0] == 1:
        lengths = sorted(draw(st.sampled_from([[1, 40], list(range(1, 26)), [3, 60]])))
    mult = draw(st.one_of(st.just(1), st.lists(st.sampled_from([1, 1, 2, 4, 7]), min_size=len(pat), max_size=len(pat))))
    return {'pattern': pat, 'lengths': lengths, 'mult': mult, 'nseeds': draw(st.integers(1, 3)), 'offset': draw(st.sampled_from([0, 12, 100])),
            'align': draw(st.booleans()), 'group': None, 'rand_seed': draw(st.integers(0, 2 ** 31)), 'rstate': draw(st.integers(0, 4)) == 0}


@st.composite
def purity3_st(draw):
    n = draw(st.integers(3, 4))
    perm = [int(q) for q in draw(st.permutations(list(range(n))))]
    return {'pattern': [perm[:3]], 'lengths': draw(st.sampled_from([[1], [2], [1, 2]])), 'mult': 1, 'nseeds': 1, 'offset': draw(st.sampled_from([0, 2])),
            'align': draw(st.booleans()), 'group': None, 'rand_seed': draw(st.integers(0, 10 ** 6)), 'rstate': False}


@st.composite
def case_st(draw, inter=False, purity=False, dihedral=None):
    group = draw(st.sampled_from([None, '0', 'Clifford', 'clifford'])) if not dihedral else \
        draw(st.sampled_from(['1', 'Non-Clifford', 'NonClifford', 'CNOTDihedral', 'CNOT-Dihedral']))
    sizes = (1, 2) if (purity or dihedral) else (1, 2, 3)
    pat = draw(pattern_st(sizes=sizes, uniform=purity, maxq=4 if dihedral or purity else 5))
    small = sum(len(p) for p in pat) <= 2
    lengths = sorted(draw(st.sets(st.integers(1, 6), min_size=1, max_size=3)))
    if small and draw(st.integers(0, 3)) == 0:
        lengths = sorted(draw(st.sets(st.integers(1, 25), min_size=2, max_size=4)))
    elif small and draw(st.integers(0, 7)) == 0:
        lengths = list(range(1, 13))
    mult = 1
    if not purity:
        mult = draw(st.one_of(st.just(1), st.integers(1, 3), st.lists(st.integers(1, 3), min_size=len(pat), max_size=len(pat))))
    c = {'pattern': pat, 'lengths': lengths, 'mult': mult, 'nseeds': draw(st.integers(1, 2)) if max(lengths) > 2 or not small else draw(st.sampled_from([1, 2, 3, 11])),
         'offset': draw(st.sampled_from([0, 0, 3, 10])), 'align': draw(st.booleans()), 'group': group,
         'rand_seed': draw(st.one_of(st.just(0), st.integers(1, 10 ** 6))), 'rstate': draw(st.integers(0, 4)) == 0}
    if inter:
        c['elem'] = [[draw(st.sampled_from(['circuit', 'object', 'gate'])), draw(st.integers(0, 500))] for _ in pat]
    return c


def interleaved(case, dihedral):
    """List of elements to interleave and their matrices."""
    objs, mats = [], []
    for (kind, seed), pat in zip(case['elem'], case['pattern']):
        k = len(pat)
        if kind == 'gate' and k <= 2:
            if dihedral:
                opts = [XGate(), TGate(), SGate(), ZGate(), TdgGate()] if k == 1 else [CXGate()]
            else:
                opts = [XGate(), HGate(), SGate(), SdgGate(), ZGate(), YGate()] if k == 1 else [CXGate(), CZGate(), SwapGate()]
            g = opts[seed % len(opts)]
            objs.append(g)
            mats.append(g.to_matrix())
            continue
        el = random_cnotdihedral(k, seed=seed) if dihedral else random_clifford(k, seed=seed)
        circ = el.to_circuit()
        mats.append(sim.unitary(circ))
        objs.append(circ if kind != 'object' else el)
    return objs, mats


def generate(case, **kw):
    seed = case['rand_seed']
    if case['rstate']:
        seed = np.random.RandomState(seed)
    return randomized_benchmarking_seq(
        nseeds=case['nseeds'], length_vector=list(case['lengths']), rb_pattern=[list(p) for p in case['pattern']],
        length_multiplier=case['mult'] if not kw.get('is_purity') else (1 if case['rstate'] else case['mult']),
        seed_offset=case['offset'], align_cliffs=case['align'], group_gates=case['group'], rand_seed=seed, **kw)


def mults(case):
    m = case['mult']
    return list(m) if isinstance(m, list) else [m] * len(case['pattern'])


def close_phase(a, b, tol=1e-8):
    if a.shape != b.shape:
        return False
    return abs(abs(np.vdot(a, b)) - np.vdot(b, b).real) < tol * len(a)


def local_unitary(ops, qs):
    """Unitary of a list of (name, inst, qubits) acting within qs."""
    k = len(qs)
    u = np.eye(2 ** k, dtype=complex)
    for name, inst, oq, _ in ops:
        if name in sim.SKIP:
            continue
        u = sim.apply_matrix(u, inst.to_matrix(), [qs.index(q) for q in oq], k)
    return u


PAULI1 = [np.array([[0, 1], [1, 0]]), np.diag([1.0, -1.0])]


def is_clifford(u):
    k = int(np.log2(len(u)))
    for q in range(k):
        for p in PAULI1:
            op = np.kron(np.kron(np.eye(2 ** (k - 1 - q)), p), np.eye(2 ** q))
            m = u @ op @ u.conj().T
            # a Pauli (up to sign) has exactly one non-zero entry per row, of equal structure
            nz = np.abs(m) > 1e-8
            if not ((nz.sum(0) == 1).all() and (nz.sum(1) == 1).all()):
                return False
            rows = np.argmax(nz, axis=1)
            x = rows[0]
            if not (rows == (np.arange(len(u)) ^ x)).all():
                return False
            v = m[np.arange(len(u)), rows] / m[0, rows[0]]
            z = sum((1 << b) for b in range(k) if v[1 << b].real < 0)
            want = np.array([(-1) ** bin(i & z).count('1') for i in range(len(u))])
            if np.abs(v - want).max() > 1e-8:
                return False
    return True


def is_dihedral(u):
    """Monomial, affine permutation, phases exp(i pi/4 f) with f a cubic of the CNOT-dihedral type."""
    d = len(u)
    k = int(np.log2(d))
    nz = np.abs(u) > 1e-8
    if not ((nz.sum(0) == 1).all() and (nz.sum(1) == 1).all()):
        return False
    perm = np.argmax(nz, axis=0)
    c = perm[0]
    lin = [perm[1 << b] ^ c for b in range(k)]
    for i in range(d):
        v = c
        for b in range(k):
            if (i >> b) & 1:
                v ^= lin[b]
        if perm[i] != v:
            return False
    ph = np.angle(u[perm, np.arange(d)] / u[perm[0], 0]) / (np.pi / 4)
    return np.abs(ph - np.round(ph)).max() < 1e-6


def segments(circ, case, pi):
    """Operations of pattern entry pi split at its barriers: list of op lists (last = after last)."""
    qs = case['pattern'][pi]
    out = [[]]
    for op in sim.flat_ops(circ):
        name, _, oq, _ = op
        if name == 'measure':
            continue
        if name == 'barrier':
            if sorted(oq) == sorted(qs):
                out.append([])
            continue
        if set(oq) & set(qs):
            out[-1].append(op)
    return out


def check_common(ctx, case, circ, length, group_dihedral, inter_mats=None):
    flat = [q for p in case['pattern'] for q in p]
    n = max(flat) + 1
    ctx.check(circ.num_qubits == n, 'number of qubits %s', circ.num_qubits)
    ctx.check(len(circ.clbits) == len(flat), 'number of classical bits')
    ctx.check(sim.measured_map(circ) == {i: q for i, q in enumerate(flat)}, 'measurements %s', sim.measured_map(circ))
    for name, _, qs, _ in sim.ops(circ):
        ctx.check(set(qs) <= set(flat), 'operation %s on qubits %s outside the pattern', name, qs)
        if name not in ('barrier', 'measure'):
            ctx.check(any(set(qs) <= set(p) for p in case['pattern']), 'operation %s couples pattern entries %s', name, qs)


def elements(ctx, case, circ, pi, count, dihedral, lead=0):
    """Unitaries of the elements and of the trailing part."""
    qs = case['pattern'][pi]
    seg = segments(circ, case, pi)
    align_same = case['align'] and sorted(qs) == sorted(q for p in case['pattern'] for q in p)
    # empty segments caused by alignment barriers on the same qubits
    if align_same:
        ctx.check(len(seg) - 1 >= count, 'too few barriers')
        keep, m = [], mults(case)[pi]
        per = m * (count // (case['cur'] * m)) if case['cur'] else 1
        i = 0
        while i < len(seg) - 1:
            keep += seg[i:i + per]
            i += per
            if i < len(seg) - 1:
                ctx.check(not seg[i], 'operations between alignment barriers')
                i += 1
        keep.append(seg[-1])
        seg = keep
    ctx.check(len(seg) - 1 == count, 'pattern entry %s has %s delimited elements, expected %s', qs, len(seg) - 1, count)
    us = [local_unitary(s, qs) for s in seg]
    for u in us[:-1]:
        ctx.check(is_dihedral(u) if dihedral else is_clifford(u), 'an element is not in the group')
    return us


def sequence_checks(ctx, case, circs, dihedral, strip=None, inter=None, base=None):
    """circs: one list per seed.  Returns element unitaries per seed and pattern of the longest circuit."""
    store = []
    for circs_s in circs:
        ctx.check(len(circs_s) == len(case['lengths']), 'number of circuits per seed')
        per_pat = []
        for pi, qs in enumerate(case['pattern']):
            prev = None
            for circ, length in zip(circs_s, case['lengths']):
                case['cur'] = length
                m = mults(case)[pi] * length
                us = elements(ctx, case, circ, pi, m if inter is None else 2 * m, dihedral)
                total = np.eye(2 ** len(qs))
                for u in us:
                    total = u @ total
                ctx.check(close_phase(total, np.eye(2 ** len(qs))), 'sequence of length %s on %s does not compose to the identity', length, qs)
                if prev is not None:
                    for a, b in zip(prev, us):
                        ctx.check(close_phase(a, b), 'longer sequence does not extend the shorter one')
                prev = us[:-1]
            per_pat.append(prev)
            if inter is not None:
                for i, u in enumerate(prev):
                    if i % 2:
                        ctx.check(close_phase(u, inter[pi]), 'interleaved gate is not the requested one on %s', qs)
            if len(prev) >= 12 and inter is None:
                ctx.check(not all(close_phase(prev[0], u) for u in prev), 'all random elements are equal')
        store.append(per_pat)
    return store


def expect_zero(ctx, circ, what):
    p = sim.clbit_probs(circ).get(0, 0.0)
    ctx.close(p, 1.0, 1e-9, '%s does not return to the start state', what)


def same_circuits(a, b):
    if isinstance(a, QuantumCircuit):
        return a.name == b.name and [(n, q, c, list(map(float, i.params)) if i.params else []) for n, i, q, c in sim.ops(a)] == \
            [(n, q, c, list(map(float, i.params)) if i.params else []) for n, i, q, c in sim.ops(b)]
    return len(a) == len(b) and all(same_circuits(x, y) for x, y in zip(a, b))


def xdata_check(ctx, case, xdata):
    ctx.check(np.array_equal(np.array(xdata), np.array([[l * m for l in case['lengths']] for m in mults(case)])), 'xdata %s', xdata)


def mark(case, ctx):
    ctx.nontrivial(max(case['lengths']) > 1 and (len(case['pattern']) > 1 or len(case['pattern'][0]) > 1))
    for p in case['pattern']:
        ctx.label('%d-qubit' % len(p))
    if len(case['pattern']) > 1:
        ctx.label('simultaneous')
    if case['align']:
        ctx.label('aligned')


def names_ok(ctx, case, circs, fmt):
    got = [c.name for s in circs for c in s]
    want = [fmt % (li, s + case['offset']) for s in range(case['nseeds']) for li in range(len(case['lengths']))]
    ctx.check(got == want, 'names %s expected %s', got, want)


def reproducible(ctx, case, first, **kw):
    second = generate(case, **kw)
    for a, b in zip(first, second):
        if isinstance(a, list):
            ctx.check(same_circuits(a, b), 'the same seed gives different circuits')
    if case['nseeds'] > 1 and kw.get('is_purity') is None:
        a, b = first[0][0][-1], first[0][1][-1]
        if max(case['lengths']) >= 5 and len(case['pattern'][0]) > 1:
            b = b.copy(name=a.name)
            ctx.check(not same_circuits(a, b), 'two seeds give the same sequence')


@facet('clifford', case_st(), 140, 2500, 'patterns, lengths, multipliers; non-trivial: several elements on several qubits', shards=4)
def clifford(case, ctx):
    mark(case, ctx)
    out = generate(case)
    ctx.check(len(out) == 2, 'number of returned fields')
    circs, xdata = out
    ctx.check(len(circs) == case['nseeds'], 'number of seeds')
    xdata_check(ctx, case, xdata)
    names_ok(ctx, case, circs, 'rb_length_%d_seed_%d')
    for s in circs:
        for c, l in zip(s, case['lengths']):
            check_common(ctx, case, c, l, False)
            expect_zero(ctx, c, c.name)
    sequence_checks(ctx, case, circs, False)
    if case['align']:
        flat = [q for p in case['pattern'] for q in p]
        for s in circs:
            for c, l in zip(s, case['lengths']):
                full = sum(1 for n, _, q, _ in sim.ops(c) if n == 'barrier' and sorted(q) == sorted(flat))
                base = mults(case)[0] * l if len(case['pattern']) == 1 else 0
                ctx.check(full == base + l, 'alignment barriers: %s expected %s', full, base + l)
    reproducible(ctx, case, out)


@facet('wide', wide_st(), 24, 500, 'elements of up to 4 qubits, up to 5 simultaneous entries, up to 60 elements', shards=4)
def wide(case, ctx):
    clifford(case, ctx)


@facet('interleaved', case_st(inter=True), 80, 1500, 'random interleaved elements as circuits, gates or group objects', shards=4)
def inter(case, ctx):
    mark(case, ctx)
    objs, mats = interleaved(case, False)
    out = generate(case, interleaved_elem=objs)
    ctx.check(len(out) == 3, 'number of returned fields')
    circs, xdata, icircs = out
    xdata_check(ctx, case, xdata)
    names_ok(ctx, case, circs, 'rb_length_%d_seed_%d')
    names_ok(ctx, case, icircs, 'rb_interleaved_length_%d_seed_%d')
    for s in circs + icircs:
        for c, l in zip(s, case['lengths']):
            check_common(ctx, case, c, l, False)
            expect_zero(ctx, c, c.name)
    a = sequence_checks(ctx, case, circs, False)
    b = sequence_checks(ctx, case, icircs, False, inter=mats)
    for sa, sb in zip(a, b):
        for ua, ub in zip(sa, sb):
            for x, y in zip(ua, ub[::2]):
                ctx.check(close_phase(x, y), 'interleaved sequence uses other random elements than its partner')
    plain = generate(case)
    ctx.check(same_circuits(plain[0], circs), 'interleaving changes the reference sequences')
    reproducible(ctx, case, out, interleaved_elem=objs)


@facet('dihedral', case_st(dihedral=True, inter=True).map(lambda c: dict(c, use_inter=c['elem'][0][1] % 2)), 100, 1500,
       'CNOT-dihedral sequences, plain and interleaved, from |0..0> and |+..+>', shards=4)
def dihedral(case, ctx):
    mark(case, ctx)
    kw = {}
    mats = None
    if case['use_inter']:
        objs, mats = interleaved(case, True)
        kw = {'interleaved_elem': objs}
        ctx.label('interleaved')
    out = generate(case, **kw)
    ctx.check(len(out) == (5 if case['use_inter'] else 3), 'number of returned fields')
    xdata_check(ctx, case, out[1])
    sets = [('rb_cnotdihedral_Z_length_%d_seed_%d', out[0], None, 0), ('rb_cnotdihedral_X_length_%d_seed_%d', out[2], None, 1)]
    if case['use_inter']:
        sets += [('rb_cnotdihedral_interleaved_Z_length_%d_seed_%d', out[3], mats, 0),
                 ('rb_cnotdihedral_interleaved_X_length_%d_seed_%d', out[4], mats, 1)]
    for fmt, circs, im, x in sets:
        names_ok(ctx, case, circs, fmt)
        for s in circs:
            for c, l in zip(s, case['lengths']):
                check_common(ctx, case, c, l, True)
                expect_zero(ctx, c, c.name)
        if not x:
            sequence_checks(ctx, case, circs, True, inter=im)
    # the X circuits are the Z circuits between Hadamards on every measured qubit
    for zc, xc in [(out[0], out[2])] + ([(out[3], out[4])] if case['use_inter'] else []):
        for sz, sx in zip(zc, xc):
            for z, x in zip(sz, sx):
                body = [o for o in sim.ops(x) if o[0] not in ('barrier', 'measure')]
                ref = [o for o in sim.ops(z) if o[0] not in ('barrier', 'measure')]
                nq = sum(len(p) for p in case['pattern'])
                ctx.check([o[0] for o in body[:nq]] == ['h'] * nq and [o[0] for o in body[-nq:]] == ['h'] * nq, 'Hadamards of the |+> sequence')
                ctx.check([(o[0], o[2]) for o in body[nq:len(body) - nq]] == [(o[0], o[2]) for o in ref], 'the |+> sequence differs from the |0> sequence')
    reproducible(ctx, case, out, **kw)


@facet('purity', case_st(purity=True), 60, 800, 'all rotated circuits of purity sequences', shards=4)
def purity(case, ctx):
    mark(case, ctx)
    case['mult'] = 1
    out = generate(case, is_purity=True)
    ctx.check(len(out) == 3, 'number of returned fields')
    circs, xdata, npur = out
    k = len(case['pattern'][0])
    ctx.check(npur == 3 ** k and all(len(s) == 3 ** k for s in circs), 'number of purity circuits')
    xdata_check(ctx, case, xdata)
    flat = [q for p in case['pattern'] for q in p]
    seen = set()
    for si, s in enumerate(circs):
        for group in s:
            for li, c in enumerate(group):
                check_common(ctx, case, c, case['lengths'][li], False)
                parts = c.name.split('_')
                ctx.check(parts[:2] == ['rb', 'purity'] and parts[3:] == ['length', str(li), 'seed', str(si + case['offset'])], 'name %s', c.name)
                label = parts[2]
                ctx.check(len(label) == k and set(label) <= set('XYZ'), 'label %s', label)
                seen.add((si, li, label))
                rot = {'Z': np.eye(2), 'X': None, 'Y': None}
                r = 1 / np.sqrt(2)
                rot['X'] = np.array([[r, -1j * r], [-1j * r, r]])
                rot['Y'] = np.array([[r, -r], [r, r]])
                want = np.eye(2 ** c.num_qubits, dtype=complex)
                for p in case['pattern']:
                    for j, q in enumerate(p):
                        want = sim.apply_matrix(want, rot[label[j]], [q], c.num_qubits)
                psi = sim.statevector(c)
                ctx.close(abs(np.vdot(want[:, 0], psi)), 1, 1e-9, 'state before measurement of %s is not the rotated start state', c.name)
    ctx.check(len(seen) == case['nseeds'] * len(case['lengths']) * 3 ** k, 'rotations missing')
    ref = dict(case)
    plain = generate(ref)
    for si, s in enumerate(circs):
        zz = [g for g in s if g[0].name.split('_')[2] == 'Z' * k][0]
        for c, pc in zip(zz, plain[0][si]):
            ctx.check(same_circuits(c.copy(name='a'), pc.copy(name='a')), 'unrotated purity circuit differs from the standard sequence')
    reproducible(ctx, case, out, is_purity=True)


@facet('purity3', purity3_st(), 6, 40, '27 rotated circuits of a three-qubit sequence', shards=3)
def purity3(case, ctx):
    purity(case, ctx)


@facet('errors', st.integers(0, 11), 12, 12, 'invalid requests are rejected')
def errors(case, ctx):
    ctx.nontrivial()
    calls = [lambda: randomized_benchmarking_seq(rb_pattern=[[0, 1], [1]]),
             lambda: randomized_benchmarking_seq(rb_pattern=[[0], [1]], length_multiplier=[1]),
             lambda: randomized_benchmarking_seq(rb_pattern=[[0], [1]], length_multiplier=[0, 1]),
             lambda: randomized_benchmarking_seq(rb_pattern=[[0, 1], [2]], is_purity=True),
             lambda: randomized_benchmarking_seq(rb_pattern=[[0, 1]], is_purity=True, length_multiplier=[2]),
             lambda: randomized_benchmarking_seq(rb_pattern=[[0, 1]], interleaved_elem=[XGate()]),
             lambda: randomized_benchmarking_seq(rb_pattern=[[0]], interleaved_elem=[CNOTDihedral(1)]),
             lambda: randomized_benchmarking_seq(rb_pattern=[[0, 1], [2]], interleaved_elem=[XGate(), CXGate()]),
             lambda: randomized_benchmarking_seq(rb_pattern=[[0, 1], [2]], interleaved_elem=[CXGate()]),
             lambda: randomized_benchmarking_seq(rb_pattern=[[0]], interleaved_elem=[Clifford(XGate())], group_gates='CNOT-Dihedral'),
             lambda: randomized_benchmarking_seq(rb_pattern=[[0], [1]], length_multiplier=[1.5, 1.0]),
             lambda: randomized_benchmarking_seq(group_gates='no such group')]
    ctx.raises((ValueError, QiskitError), calls[case], 'invalid request %s accepted' % case)
    _ = (itertools, IGate)
