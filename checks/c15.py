"""C15: accreditation circuits keep the target output and make traps certain."""
import numpy as np
from hypothesis import strategies as st
from qiskit import QuantumCircuit, QuantumRegister, ClassicalRegister, QiskitError
from qiskit.ignis.verification.accreditation import AccreditationCircuits, QOTP, QOTPCorrectCounts

import sim
from harness import facet

QUICK_SCALE = 1
ASSUMPTIONS = ['target circuits have one quantum and one classical register, unitary gates and final measurements',
               'statistical statements about random pads use fixed seeds and margins above six standard deviations']

ONE = ['h', 'x', 's', 't', 'sdg', 'z', 'u3']
TWO = ['cx', 'cz', 'swap', 'cx']


@st.composite
def circuit_case(draw, nmax=4, maps=True):
    n = draw(st.integers(1, nmax))
    ops = []
    for _ in range(draw(st.integers(0, draw(st.sampled_from([10, 10, 20]))))):
        k = draw(st.sampled_from((ONE + TWO + TWO + ['barrier']) if n > 1 else ONE + ['barrier']))
        if k in TWO:
            q = [int(x) for x in draw(st.permutations(list(range(n))))[:2]]
        elif k == 'barrier':
            q = sorted(draw(st.sets(st.integers(0, n - 1), min_size=1)))
        else:
            q = [draw(st.integers(0, n - 1))]
        ops.append([k, q] + ([round(draw(st.floats(-3, 3)), 3), round(draw(st.floats(-3, 3)), 3)] if k == 'u3' else []))
    m = draw(st.one_of(st.just(n), st.integers(1, n + 1)))
    k = min(n, m) if draw(st.booleans()) else draw(st.integers(1, min(n, m)))
    if draw(st.booleans()) and m == n:
        meas = [[i, i] for i in range(n)]
    else:
        qs = draw(st.permutations(list(range(n))))[:k]
        cs = draw(st.permutations(list(range(m))))[:k]
        meas = [[int(a), int(b)] for a, b in zip(qs, cs)]
    coupling = None
    if maps and n > 1 and draw(st.integers(0, 3)) == 0:
        size = n + draw(st.integers(0, 1))
        order = [int(x) for x in draw(st.permutations(list(range(size))))]
        coupling = []
        for i in range(1, size):
            a, b = order[i], order[draw(st.integers(0, i - 1))]
            coupling += [[a, b], [b, a]]
    return {'n': n, 'm': m, 'ops': ops, 'meas': meas, 'coupling': coupling,
            'gate': draw(st.sampled_from(['cx', 'cz'])), 'seed': draw(st.integers(0, 10 ** 6)),
            'traps': draw(st.sampled_from([0, 1, 2, 3, 4, 11])), 'qname': draw(st.sampled_from(['q', 'qr'])), 'cname': draw(st.sampled_from(['c', 's']))}


def build(case):
    circ = QuantumCircuit(QuantumRegister(case['n'], case['qname']), ClassicalRegister(case['m'], case['cname']))
    for op in case['ops']:
        k, q = op[0], op[1]
        if k == 'barrier':
            circ.barrier(*q)
        elif k == 'u3':
            circ.u3(op[2], op[3], 0.3, q[0])
        else:
            getattr(circ, k)(*q)
    for q, c in case['meas']:
        circ.measure(q, c)
    return circ


def corrected(circ, postp):
    raw = {sim.fmt(circ, v): p for v, p in sim.clbit_probs(circ).items() if p > 1e-12}
    return QOTPCorrectCounts(raw, postp)


def same_dist(ctx, got, want, what):
    keys = sorted(set(got) | set(want))
    ctx.close([got.get(k, 0) for k in keys], [want.get(k, 0) for k in keys], 1e-6, '%s distribution over %s' % (what, keys))


def skeleton(circ):
    """entangling gates in order (per layer sorted) and measurements."""
    two, meas = [], []
    for name, _, qs, cs in sim.ops(circ):
        if name in sim.SKIP:
            continue
        if name == 'measure':
            meas.append((tuple(qs), tuple(cs)))
        elif len(qs) > 1:
            two.append((name, tuple(qs)))
    return two, sorted(meas)


def two_qubit(case):
    return any(op[0] in TWO for op in case['ops'])


def offdiag(case):
    return [q for q, _ in case['meas']] != [c for _, c in case['meas']] or case['m'] != case['n']


@facet('qotp', circuit_case(), quick=500, thorough=6000, shards=4, rule='a two-qubit gate, or measured bits that are not those of the qubits, or a coupling map')
def qotp(case, ctx):
    circ = build(case)
    want = {sim.fmt(circ, v): p for v, p in sim.clbit_probs(circ).items() if p > 1e-12}
    before = sim.ops(circ)
    circs, postps = QOTP(circ, 3, two_qubit_gate=case['gate'], coupling_map=case['coupling'], seed=case['seed'])
    ctx.check(len(circs) == 3 and len(postps) == 3, 'number of pads')
    sk = [skeleton(c) for c in circs]
    for c, p in zip(circs, postps):
        ctx.check(len(p) == case['m'], 'pad has %d bits for %d classical bits', len(p), case['m'])
        same_dist(ctx, corrected(c, p), want, 'one-time-padded')
        ctx.check(skeleton(c) == sk[0], 'pads of one circuit differ in entangling gates or measurements')
        ctx.check(all(name == case['gate'] for name, _ in sk[0][0]), 'entangling gates %s are not %s', sk[0][0], case['gate'])
        if case['coupling']:
            ctx.check(all(list(q) in case['coupling'] for _, q in sk[0][0]), 'gates %s outside of the coupling map', sk[0][0])
    ctx.check([(a[0], a[2], a[3]) for a in before] == [(a[0], a[2], a[3]) for a in sim.ops(circ)], 'target circuit modified')
    if case['coupling'] is None:
        again, postp2 = QOTP(circ, 3, two_qubit_gate=case['gate'], seed=case['seed'])
        for a, b, p, q in zip(circs, again, postps, postp2):
            ctx.check(list(p) == list(q), 'the same seed gives another pad')
            ctx.check([(x[0], x[2], x[3]) for x in sim.ops(a)] == [(x[0], x[2], x[3]) for x in sim.ops(b)], 'the same seed gives another circuit')
    ctx.nontrivial(two_qubit(case) or offdiag(case) or case['coupling'] is not None)


@facet('accreditation', circuit_case(), quick=400, thorough=5000, shards=4, rule='a two-qubit gate and at least one trap')
def accreditation(case, ctx):
    circ = build(case)
    want = {sim.fmt(circ, v): p for v, p in sim.clbit_probs(circ).items() if p > 1e-12}
    acc = AccreditationCircuits(circ, two_qubit_gate=case['gate'], coupling_map=case['coupling'], seed=case['seed'])
    for rnd in range(2):
        circs, postps, v_zero = acc.generate_circuits(case['traps'])
        ctx.check(len(circs) == case['traps'] + 1 == len(postps), 'number of circuits')
        ctx.check(0 <= v_zero <= case['traps'], 'position %s of the target', v_zero)
        zero = '0' * case['m']
        for k, (c, p) in enumerate(zip(circs, postps)):
            ctx.check(len(p) == case['m'], 'pad has %d bits for %d classical bits', len(p), case['m'])
            same_dist(ctx, corrected(c, p), want if k == v_zero else {zero: 1.0},
                      '%s %d of round %d' % ('target' if k == v_zero else 'trap', k, rnd))
            ctx.check(skeleton(c) == skeleton(circs[v_zero]), 'circuit %d differs from the target in entangling gates or measurements: %s / %s',
                      k, skeleton(c), skeleton(circs[v_zero]))
        ctx.check(len({c.name for c in circs}) == len(circs), 'circuit names are not unique')
        two = skeleton(circs[0])[0]
        ctx.check(all(name == case['gate'] for name, _ in two), 'entangling gates %s are not %s', two, case['gate'])
        if case['coupling']:
            ctx.check(all(list(q) in case['coupling'] for _, q in two), 'gates %s outside of the coupling map', two)
            ctx.label('coupling map')
    ctx.nontrivial(two_qubit(case) and case['traps'] > 0)


@facet('retarget', st.tuples(circuit_case(nmax=3), circuit_case(nmax=3)).map(list), quick=100, thorough=1500,
       rule='two different targets')
def retarget(case, ctx):
    """target_circuit() replaces the target of an existing object."""
    a, b = case
    acc = AccreditationCircuits(build(a), two_qubit_gate=a['gate'], coupling_map=a['coupling'], seed=a['seed'])
    acc.generate_circuits(2)
    circ = build(b)
    acc.target_circuit(circ, two_qubit_gate=b['gate'], coupling_map=b['coupling'])
    want = {sim.fmt(circ, v): p for v, p in sim.clbit_probs(circ).items() if p > 1e-12}
    circs, postps, v_zero = acc.generate_circuits(3)
    for k, (c, p) in enumerate(zip(circs, postps)):
        same_dist(ctx, corrected(c, p), want if k == v_zero else {'0' * b['m']: 1.0}, 'retargeted circuit %d' % k)
        ctx.check(skeleton(c) == skeleton(circs[v_zero]), 'circuits differ after a change of target')
        ctx.check(all(name == b['gate'] for name, _ in skeleton(c)[0]), 'entangling gates after a change of target')
        if b['coupling']:
            ctx.check(all(list(q) in b['coupling'] for _, q in skeleton(c)[0]), 'gates outside of the new coupling map')
    ctx.nontrivial(a['ops'] != b['ops'])


def stretches(circ):
    """per qubit: products of the one-qubit gates before, between and after its entangling gates"""
    out = [[np.eye(2, dtype=complex)] for _ in range(circ.num_qubits)]
    for name, inst, qs, _ in sim.flat_ops(circ):
        if name in sim.SKIP or name == 'measure':
            continue
        if len(qs) == 1:
            out[qs[0]][-1] = inst.to_matrix() @ out[qs[0]][-1]
        else:
            for q in qs:
                out[q].append(np.eye(2, dtype=complex))
    return out


def classes(us):
    """index of the first equal (up to phase) matrix"""
    reps, out = [], []
    for u in us:
        for i, r in enumerate(reps):
            if abs(abs(np.vdot(r, u)) - 2) < 1e-6:
                out.append(i)
                break
        else:
            out.append(len(reps))
            reps.append(u)
    return out


@st.composite
def random_case(draw):
    c = draw(circuit_case(nmax=3, maps=False))
    c['n'] = max(c['n'], 2)
    c['m'] = c['n']
    c['meas'] = [[i, i] for i in range(c['n'])]
    c['ops'] = c['ops'][:8] + [['cx', [0, 1]]]
    c['pauli'] = draw(st.sampled_from(['x', 'y', 'z']))
    c['pos'] = draw(st.integers(0, 10 ** 6))
    return c


@facet('randomness', random_case(), quick=32, thorough=400, shards=8, rule='always')
def randomness(case, ctx):
    """Pads, target positions and traps are random, and traps notice Pauli faults next to the entangling gates."""
    circ = build(case)
    n = case['n']
    acc = AccreditationCircuits(circ, two_qubit_gate=case['gate'], seed=case['seed'])
    num = 40
    circs, postps, v_zero = acc.generate_circuits(num)
    pads = np.array([list(p) for p in postps])
    mean = pads.mean(axis=0)
    ctx.check(np.all(np.abs(mean - 0.5) < 0.48), 'pad bits are not random: means %s over %d circuits', mean, num + 1)
    ctx.check(len({tuple(p) for p in pads.tolist()}) > 1, 'all circuits use the same pad')
    same = np.mean(pads[:, 0] == pads[:, 1])
    ctx.check(0.02 < same < 0.98, 'pad bits of different qubits are the same')
    pos = [acc.generate_circuits(3)[2] for _ in range(30)]
    ctx.check(len(set(pos)) >= 2, 'the position of the target is always %s', pos[0])
    # every stretch of one-qubit gates hides behind a random Pauli, independent of that of the other qubits
    pads = [stretches(c) for c in QOTP(circ, num, two_qubit_gate=case['gate'], seed=case['seed'] + 1)[0]]
    for q in range(n):
        for s in range(len(pads[0][q])):
            kinds = classes([p[q][s] for p in pads])
            ctx.check(len(set(kinds)) >= 3, 'stretch %d of qubit %d has only %d different Paulis in %d pads', s, q, len(set(kinds)), num)
    for s in (0, -1):
        joint = set(zip(classes([p[0][s] for p in pads]), classes([p[1][s] for p in pads])))
        ctx.check(len(joint) >= 7, 'Paulis of two qubits are not independent: %d combinations', len(joint))
    # a Pauli fault between the layers of entangling gates is noticed by a fair share of the traps
    places = [i for i, o in enumerate(sim.ops(circs[0])) if len(o[2]) > 1 and o[0] not in sim.SKIP]
    if not places:      # all entangling gates cancelled
        return
    which = case['pos'] % len(places)
    seen = 0
    for k, (c, p) in enumerate(zip(circs, postps)):
        if k == v_zero:
            continue
        where = [i for i, o in enumerate(sim.ops(c)) if len(o[2]) > 1 and o[0] not in sim.SKIP][which]
        bad = QuantumCircuit(*c.qregs, *c.cregs)
        for i, (inst, qs, cs) in enumerate(c.data):
            bad.append(inst, qs, cs)
            if i == where:
                getattr(bad, case['pauli'])(qs[(case['pos'] // 97) % 2])
        d = corrected(bad, p)
        if d.get('0' * n, 0) < 0.5:
            seen += 1
    ctx.check(seen >= 0.1 * num, 'only %d of %d traps notice a %s fault after entangling gate %d', seen, num, case['pauli'], which)
    ctx.nontrivial(True)


@st.composite
def wide_case(draw):
    n = draw(st.sampled_from([5, 6, 7, 7, 8, 10]))
    ops = [['h', [q]] for q in range(n)]
    perm = [int(x) for x in draw(st.permutations(list(range(n))))]
    for i in range(draw(st.one_of(st.just(n // 2), st.integers(0, n // 2)))):          # a layer of disjoint gates
        ops.append(['cx', perm[2 * i:2 * i + 2]])
    if draw(st.booleans()) and n % 2:                      # the idle qubit meets one of them
        ops += [['t', [perm[-1]]], ['cx', draw(st.sampled_from([[perm[-1], q] for q in perm[:-1]] + [[q, perm[-1]] for q in perm[:-1]]))]]
    for _ in range(draw(st.integers(3, 14))):
        k = draw(st.sampled_from(['cx', 'cx', 'cx', 'cz', 'h', 't', 't', 'barrier']))
        q = [int(x) for x in draw(st.permutations(list(range(n))))[:2 if k in ('cx', 'cz') else n if k == 'barrier' else 1]]
        ops.append([k, q])
    m = [int(x) for x in draw(st.permutations(list(range(n))))]
    return {'n': n, 'm': n, 'ops': ops, 'meas': [[a, b] for a, b in enumerate(m)], 'coupling': None, 'gate': draw(st.sampled_from(['cx', 'cz'])),
            'seed': draw(st.integers(0, 10 ** 6)), 'traps': 2, 'qname': 'q', 'cname': 'c'}


@facet('wide', wide_case(), quick=60, thorough=800, shards=4, rule='several entangling gates on five to seven qubits')
def wide(case, ctx):
    accreditation(case, ctx)


@facet('position', st.fixed_dictionaries({'traps': st.sampled_from([1, 1, 2]), 'seed': st.integers(0, 10 ** 6), 'gate': st.sampled_from(['cx', 'cz'])}),
       quick=4, thorough=16, shards=4, rule='always')
def position(case, ctx):
    """Every position of the target occurs (80 draws: a missing one has probability below 1e-13)."""
    circ = QuantumCircuit(QuantumRegister(1, 'q'), ClassicalRegister(1, 'c'))
    circ.h(0)
    circ.measure(0, 0)
    acc = AccreditationCircuits(circ, two_qubit_gate=case['gate'], seed=case['seed'])
    pos = [acc.generate_circuits(case['traps'])[2] for _ in range(80)]
    ctx.check(set(pos) == set(range(case['traps'] + 1)), 'positions of the target %s with %d traps', sorted(set(pos)), case['traps'])
    ctx.nontrivial()


@facet('rejects', circuit_case(nmax=3, maps=False), quick=60, thorough=600, rule='an unsupported operation')
def rejects(case, ctx):
    circ = QuantumCircuit(QuantumRegister(2, 'q'), ClassicalRegister(2, 'c'))
    circ.h(0)
    circ.cx(0, 1)
    if case['seed'] % 2:
        circ.reset(case['seed'] // 2 % 2)
        circ.h([0, 1])
        circ.measure([0, 1], [0, 1])
        ctx.raises(QiskitError, lambda: AccreditationCircuits(circ), 'a circuit with reset is accepted')
        ctx.raises(QiskitError, lambda: QOTP(circ, 1), 'a circuit with reset is accepted')
    else:
        circ.measure([0, 1], [0, 1])
        ctx.raises(QiskitError, lambda: AccreditationCircuits(circ, two_qubit_gate='swap'), 'an unknown two-qubit gate is accepted')
        ctx.raises(QiskitError, lambda: QOTP(circ, 1, two_qubit_gate='swap'), 'an unknown two-qubit gate is accepted')
    ctx.nontrivial(True)


@facet('correct', st.fixed_dictionaries({'counts': st.dictionaries(st.text('01', min_size=4, max_size=4), st.integers(1, 500), max_size=9),
                                         'pad': st.lists(st.integers(0, 1), min_size=4, max_size=4), 'kind': st.integers(0, 2)}),
       quick=300, thorough=3000, rule='a pad with a one')
def correct(case, ctx):
    pad = [case['pad'], np.array(case['pad']), tuple(case['pad'])][case['kind']]
    orig = dict(case['counts'])
    got = QOTPCorrectCounts(case['counts'], pad)
    want = {''.join(str(int(a) ^ b) for a, b in zip(k, case['pad'])): v for k, v in orig.items()}
    ctx.check(got == want, 'corrected counts %s, expected %s', got, want)
    ctx.check(case['counts'] == orig, 'input counts modified')
    ctx.check(QOTPCorrectCounts(got, pad) == orig, 'correcting twice is not the identity')
    ctx.nontrivial(any(case['pad']))
