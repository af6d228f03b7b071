"""C13: conversions between gate counts, coherence times and error rates follow their definitions."""
import numpy as np
from hypothesis import strategies as st
from qiskit import QuantumCircuit, QuantumRegister, ClassicalRegister, QiskitError, assemble
from qiskit.ignis.verification.randomized_benchmarking import rb_utils as ru
from qiskit.ignis.verification.randomized_benchmarking import randomized_benchmarking_seq

import sim
from harness import facet

ASSUMPTIONS = ['circuits use one quantum register, as transpiled circuits do']

G1 = ['u1', 'u2', 'u3', 'h', 'x', 'id']


@st.composite
def circs_case(draw):
    n = draw(st.one_of(st.integers(1, 4), st.sampled_from([7, 12])))
    ops = []
    many = draw(st.sampled_from([3, 3, 3, 9]))
    for _ in range(draw(st.integers(1, many))):          # seeds
        seed = []
        for _ in range(draw(st.just(len(ops[0])) if ops else st.integers(1, many))):
            c = []
            for _ in range(draw(st.integers(0, 8 if many < 4 else 3))):
                k = draw(st.sampled_from(['cx', 'u1', 'u2', 'u3', 'h', 'x', 'id', 'barrier', 'measure', 'cz'] if n > 1 else
                                         ['u1', 'u2', 'u3', 'h', 'x', 'id', 'barrier', 'measure']))
                if k in ('cx', 'cz'):
                    q = [int(x) for x in draw(st.permutations(list(range(n))))[:2]]
                elif k == 'barrier':
                    q = sorted(draw(st.sets(st.integers(0, n - 1), min_size=1)))
                else:
                    q = [draw(st.integers(0, n - 1))]
                c.append([k, q])
            seed.append(c)
        ops.append(seed)
    qubits = [int(q) for q in draw(st.permutations(list(range(n))))[:draw(st.integers(1, n))]]
    basis = draw(st.lists(st.sampled_from(['cx', 'u1', 'u2', 'u3', 'h', 'cz', 'id', 'x', 'rz', 'measure', 'barrier']), unique=True, min_size=1, max_size=7))
    return {'n': n, 'ops': ops, 'qubits': qubits, 'basis': basis,
            'lengths': [draw(st.integers(0, 200)) for _ in ops[0]], 'array': draw(st.booleans())}


def build(c, n):
    circ = QuantumCircuit(QuantumRegister(n, 'q'), ClassicalRegister(n, 'c'))
    for k, q in c:
        if k == 'barrier':
            circ.barrier(*q)
        elif k == 'measure':
            circ.measure(q[0], q[0])
        elif k == 'u1':
            circ.u1(0.3, q[0])
        elif k == 'u2':
            circ.u2(0.3, 0.4, q[0])
        elif k == 'u3':
            circ.u3(0.3, 0.4, 0.5, q[0])
        elif k == 'id':
            circ.i(q[0])
        else:
            getattr(circ, k)(*q)
    return circ


@facet('counting', circs_case(), 600, 8000, 'a gate of the basis acts on a counted qubit', shards=2)
def counting(case, ctx):
    circs = [[build(c, case['n']) for c in seed] for seed in case['ops']]
    tot = sum(len(case['ops']) * (x + 1) for x in case['lengths'])
    want = {q: {b: 0 for b in case['basis']} for q in case['qubits']}
    percirc = []
    for seed in case['ops']:
        for c in seed:
            t = [[0] * len(case['basis']) for _ in case['qubits']]
            for k, qs in c:
                for q in qs:
                    if q in want and k in want[q]:
                        want[q][k] += 1
                        t[case['qubits'].index(q)][case['basis'].index(k)] += 1
            percirc.append(t)
    ctx.nontrivial(any(v for w in want.values() for v in w.values()))
    lens = np.array(case['lengths']) if case['array'] else list(case['lengths'])
    got = ru.gates_per_clifford(circs, lens, list(case['basis']), list(case['qubits']))
    ctx.check(set(got) == set(want), 'qubits %s', list(got))
    for q in want:
        ctx.check(set(got[q]) == set(want[q]), 'gates of qubit %s: %s', q, list(got[q]))
        for b in want[q]:
            ctx.close(got[q][b], want[q][b] / tot, 1e-12, 'gates %s of qubit %s per Clifford', b, q)
    # the object form
    qobjs = [assemble(s) for s in circs]
    got2 = ru.gates_per_clifford(qobjs, lens, list(case['basis']), list(case['qubits']))
    ctx.check({q: dict(v) for q, v in got.items()} == {q: dict(v) for q, v in got2.items()} or
              all(abs(got[q][b] - got2[q][b]) < 1e-12 for q in want for b in want[q]), 'circuit and qobj counts differ')
    full = np.concatenate([np.asarray(ru.count_gates(o, list(case['basis']), list(case['qubits']))) for o in qobjs])
    ctx.close(full, np.array(percirc).reshape(full.shape) if np.size(percirc) == full.size else np.array(percirc), 1e-12, 'count_gates')


@facet('invalid_circuits', st.sampled_from(['str', 'list', 'none']).map(lambda k: {'kind': k}), 3, 3, 'always')
def invalid_circuits(case, ctx):
    ctx.nontrivial()
    bad = {'str': 'abc', 'list': [1], 'none': None}[case['kind']]
    ctx.raises(QiskitError, lambda: ru.gates_per_clifford([[QuantumCircuit(1), bad]], [1, 2], ['u1'], [0]), 'no error for a non-circuit')


# ------------------------------------------------------------------ coherence limit

@st.composite
def coh_case(draw):
    n = draw(st.sampled_from([1, 2]))
    t1 = [draw(st.floats(0.5, 500)) for _ in range(n)]
    t2 = [draw(st.floats(0.01, 2.0)) * t for t in t1]
    return {'n': n, 't1': t1, 't2': t2, 'len': draw(st.one_of(st.just(0.0), st.floats(1e-4, 200))),
            'which': draw(st.integers(0, 3)), 'more': draw(st.floats(1.01, 3)), 'not2': draw(st.booleans()),
            'array': draw(st.booleans())}


def relax(t1, t2, t):
    """Superoperator (row-major vec) of relaxation and dephasing."""
    e1, e2 = np.exp(-t / t1), np.exp(-t / t2)
    s = np.zeros((4, 4))
    s[0, 0] = 1
    s[0, 3] = 1 - e1
    s[3, 3] = e1
    s[1, 1] = s[2, 2] = e2
    return s


def avg_infid(supers):
    """1 - average gate fidelity of the product channel, process fidelity = trace of superoperator / d^2."""
    fpro = np.prod([np.trace(s) / 4 for s in supers])
    d = 2 ** len(supers)
    return 1 - (d * fpro + 1) / (d + 1)


def haar_infid(t1, t2, t):
    """Average over the six cardinal states (a 2-design) of the state infidelity, one qubit."""
    s = relax(t1, t2, t)
    tot = 0
    for v in ([1, 0], [0, 1], [1, 1], [1, -1], [1, 1j], [1, -1j]):
        v = np.array(v, dtype=complex) / np.linalg.norm(v)
        rho = np.outer(v, v.conj())
        tot += np.real(v.conj() @ (s @ rho.reshape(-1)).reshape(2, 2) @ v)
    return 1 - tot / 6


@facet('coherence', coh_case(), 1500, 20000, 'a gate of non-zero length', shards=1)
def coherence(case, ctx):
    n, t = case['n'], case['len']
    ctx.nontrivial(t > 0)
    conv = np.array if case['array'] else list

    def limit(t1, t2, tt):
        return ru.coherence_limit(n, conv(t1), None if t2 is None else conv(t2), tt)
    got = limit(case['t1'], case['t2'], t)
    want = avg_infid([relax(a, b, t) for a, b in zip(case['t1'], case['t2'])])
    ctx.close(got, want, 1e-10, 'coherence limit')
    if n == 1:
        ctx.close(got, haar_infid(case['t1'][0], case['t2'][0], t), 1e-10, 'coherence limit (state average)')
    ctx.close(limit(case['t1'], None, t), limit(case['t1'], [2 * x for x in case['t1']], t), 1e-12, 'T2 default')
    ctx.check(-1e-12 <= got <= 1, 'limit %s outside the physical range', got)
    ctx.check(got >= limit(case['t1'], case['t2'], t / case['more']) - 1e-12, 'a shorter gate has a larger error')
    better1, better2 = list(case['t1']), list(case['t2'])
    (better1 if case['which'] % 2 else better2)[case['which'] // 2 % n] *= case['more']
    ctx.check(got >= limit(better1, better2, t) - 1e-12, 'a longer coherence time has a larger error')
    if n == 2:
        ctx.close(limit(case['t1'][::-1], case['t2'][::-1], t), got, 1e-12, 'qubits exchanged')
    if t == 0:
        ctx.close(got, 0, 1e-12, 'error of an instantaneous gate')
    # wrong sizes
    ctx.raises(ValueError, lambda: ru.coherence_limit(n, case['t1'] + [1.0], case['t2'], t), 'extra T1 accepted')
    ctx.raises(ValueError, lambda: ru.coherence_limit(n, case['t1'], case['t2'] + [1.0], t), 'extra T2 accepted')
    ctx.raises(ValueError, lambda: ru.coherence_limit(3, [1.0] * 3, [1.0] * 3, t), 'three qubits accepted')


# ------------------------------------------------------------------ epc / epg conversions

@st.composite
def conv_case(draw):
    qs = draw(st.lists(st.integers(0, 12), min_size=2, max_size=3, unique=True))
    name = draw(st.sampled_from(['cx', 'cx', 'cz', 'ecr']))
    gpc = {}
    ncx = draw(st.floats(0.2, 3))
    for q in qs:
        gpc[str(q)] = {'u1': draw(st.floats(0, 2)), 'u2': draw(st.floats(0.01, 2)), 'u3': draw(st.floats(0, 2)), name: ncx}
    # a basis set that is not u1, u2, u3
    if draw(st.booleans()):
        for q in qs:
            gpc[str(q)]['sx'] = draw(st.floats(0, 2))
    epg = []
    err = st.one_of(st.floats(0, 0.05), st.floats(0, 0.45))
    for _ in range(2):
        e = {k: draw(err) for k in ['u1', 'u2', 'u3']}
        if draw(st.booleans()):
            e['sx'] = draw(err)
        if draw(st.integers(0, 4)) == 0:
            e.pop(draw(st.sampled_from(sorted(e))))
        epg.append(e)
    return {'gpc': gpc, 'qs': qs, 'name': name, 'epg': epg, 'epg2': draw(st.one_of(st.floats(0, 0.1), st.floats(0, 0.7))), 'epc': draw(st.one_of(st.floats(0, 0.3), st.floats(0, 0.75))),
            'bump': draw(st.floats(0, 0.01)), 'unit': draw(st.booleans()), 'missing': draw(st.integers(13, 19))}


def alpha1(gpc, q, epg):
    a = 1.0
    for g, e in epg.items():
        a *= (1 - 2 * e) ** gpc[q].get(g, 0)
    return a


@facet('conversions', conv_case(), 1500, 20000, 'non-zero gate errors', shards=1)
def conversions(case, ctx):
    gpc = {int(q): dict(v) for q, v in case['gpc'].items()}
    name = case['name']
    q0, q1 = case['qs'][:2]
    if case['unit']:
        for q in gpc:
            gpc[q][name] = 1.0
    n2 = gpc[q0][name]
    e0, e1 = case['epg']
    ctx.nontrivial(case['epg2'] > 0 and any(e0.values()))
    kw = {} if name == 'cx' else {'two_qubit_name': name}
    snap = repr((gpc, e0, e1))

    # one qubit
    g1 = {q: {k: v for k, v in d.items() if k != name} for q, d in gpc.items()}
    g1[q1]['cx'] = 0
    for q, e in ((q0, e0), (q1, e1)):
        want = 1 - np.prod([(1 - x) ** g1[q].get(k, 0) for k, x in e.items()])
        got = ru.calculate_1q_epc(g1, e, q)
        ctx.close(got, want, 1e-12, '1q epc')
        ctx.check(-1e-15 <= got <= 1, '1q epc %s', got)
        up = {k: v + case['bump'] for k, v in e.items()}
        ctx.check(ru.calculate_1q_epc(g1, up, q) >= got - 1e-12, '1q epc decreases with the gate error')
        r = ru.calculate_1q_epg(g1, case['epc'], q)
        den = g1[q]['u2'] + 2 * g1[q]['u3']
        ctx.check(set(r) == {'u1', 'u2', 'u3'}, 'gates %s', list(r))
        ctx.close([r['u1'], r['u2'], r['u3']], [0, case['epc'] / den, 2 * case['epc'] / den], 1e-12, '1q epg')
        # the linearised definition is satisfied
        ctx.close(sum(r[k] * g1[q][k] for k in r), case['epc'], 1e-10, 'sum of 1q gate errors')
    ctx.close(ru.calculate_1q_epc(g1, {k: 0 for k in e0}, q0), 0, 1e-15, 'perfect gates')

    # two qubits
    a0, a1 = alpha1(gpc, q0, e0), alpha1(gpc, q1, e1)
    a1q = (a0 + a1 + 3 * a0 * a1) / 5
    want = 3 / 4 * (1 - a1q * (1 - 4 / 3 * case['epg2']) ** n2)
    got = ru.calculate_2q_epc(gpc, case['epg2'], [q0, q1], [e0, e1], **kw)
    ctx.close(got, want, 1e-12, '2q epc')
    ctx.close(ru.calculate_2q_epc(gpc, case['epg2'], [q1, q0], [e1, e0], **kw), want, 1e-12, '2q epc with the pair exchanged')
    ctx.close(ru.calculate_2q_epc(gpc, 0, [q0, q1], [{}, {}], **kw), 0, 1e-12, 'perfect gates')
    for change in (0, 1, 2):
        u0 = {k: v + case['bump'] for k, v in e0.items()} if change == 0 else e0
        u1 = {k: v + case['bump'] for k, v in e1.items()} if change == 1 else e1
        u2 = case['epg2'] + (case['bump'] if change == 2 else 0)
        ctx.check(ru.calculate_2q_epc(gpc, u2, [q0, q1], [u0, u1], **kw) >= got - 1e-12, '2q epc decreases with a gate error')
    want = 3 / 4 * (1 - (1 - 4 / 3 * case['epc']) / a1q) / n2
    ctx.close(ru.calculate_2q_epg(gpc, case['epc'], [q0, q1], [e0, e1], **kw), want, 1e-11, '2q epg')
    ctx.close(ru.calculate_2q_epg(gpc, case['epc'], [q1, q0], [e1, e0], **kw), want, 1e-11, '2q epg with the pair exchanged')
    ctx.close(ru.calculate_2q_epg(gpc, case['epc'], [q0, q1], **kw), case['epc'] / n2, 1e-11, '2q epg without single-qubit errors')
    if case['unit']:
        ctx.close(ru.calculate_2q_epg(gpc, got, [q0, q1], [e0, e1], **kw), case['epg2'], 1e-10, '2q epg of the epc')
        ctx.label('round trip')
    if name == 'cx':
        two = {q: gpc[q] for q in (q0, q1)}
        lo, hi = sorted((q0, q1))
        el, eh = (e0, e1) if lo == q0 else (e1, e0)
        errs = [el.get(k, 0) for k in ('u1', 'u2', 'u3')] + [eh.get(k, 0) for k in ('u1', 'u2', 'u3')] + [case['epg2']]
        three = {k: v for k, v in e0.items() if k != 'sx'}, {k: v for k, v in e1.items() if k != 'sx'}
        ctx.close(ru.twoQ_clifford_error(two, [0, 0, 0, 1, 1, 1, -1], errs),
                  ru.calculate_2q_epc(gpc, case['epg2'], [q0, q1], list(three)), 1e-12, 'deprecated and new 2q epc')
        if len(gpc) != 2:
            ctx.raises(QiskitError, lambda: ru.twoQ_clifford_error(gpc, [0, 0, 0, 1, 1, 1, -1], errs), 'three qubits accepted')

    # rejected inputs
    m = case['missing']
    bad = [lambda: ru.calculate_1q_epg(g1, 0.1, m), lambda: ru.calculate_1q_epc(g1, e0, m),
           lambda: ru.calculate_1q_epg({q0: {'u1': 1, 'u2': 1, 'u3': 1, 'cx': 0.5}}, 0.1, q0),
           lambda: ru.calculate_1q_epg({q0: {'u1': 1, 'u2': 1}}, 0.1, q0), lambda: ru.calculate_1q_epg({q0: {'u1': 1, 'u3': 1}}, 0.1, q0)]
    for pair in ([q0, m], [m, q1], [m, m + 1]):
        for lst in ([e0, e1], [e0], []):
            bad.append(lambda pair=pair, lst=lst: ru.calculate_2q_epg(gpc, 0.1, pair, lst, **kw))
            bad.append(lambda pair=pair, lst=lst: ru.calculate_2q_epc(gpc, 0.1, pair, lst, **kw))
    for pair in ([q0], [q0, q1, m]):
        bad.append(lambda pair=pair: ru.calculate_2q_epg(gpc, 0.1, pair, [e0, e1], **kw))
        bad.append(lambda pair=pair: ru.calculate_2q_epc(gpc, 0.1, pair, [e0, e1], **kw))
    bad.append(lambda: ru.calculate_2q_epg(gpc, 0.1, [q0, q1], [e0, e1], two_qubit_name='zz'))
    bad.append(lambda: ru.calculate_2q_epc(gpc, 0.1, [q0, q1], [e0, e1], two_qubit_name='zz'))
    for i, b in enumerate(bad):
        ctx.raises(QiskitError, b, 'invalid input %d accepted' % i)
    ctx.check(repr((gpc, e0, e1)) == snap, 'arguments were modified')


@facet('sequences', st.fixed_dictionaries({'pattern': st.sampled_from([[[0]], [[1, 0]], [[2], [0, 1]]]), 'seed': st.integers(0, 10 ** 5),
                                           'nseeds': st.integers(1, 3)}), 12, 100, 'always', shards=1)
def sequences(case, ctx):
    """Counting on generated benchmarking circuits; the 1q conversion round trip."""
    circs, xd = randomized_benchmarking_seq(nseeds=case['nseeds'], length_vector=[1, 4], rb_pattern=case['pattern'], rand_seed=case['seed'])
    qs = sorted(q for p in case['pattern'] for q in p)
    basis = ['h', 's', 'sdg', 'cx', 'x', 'y', 'z', 'swap']
    got = ru.gates_per_clifford(circs, xd[0], basis, qs)
    n = {q: {b: 0 for b in basis} for q in qs}
    for s in circs:
        for c in s:
            for name, _, oq, _ in sim.ops(c):
                for q in oq:
                    if name in basis:
                        n[q][name] += 1
    tot = case['nseeds'] * 7
    ctx.nontrivial()
    for q in qs:
        for b in basis:
            ctx.close(got[q][b], n[q][b] / tot, 1e-12, 'gates per Clifford')
