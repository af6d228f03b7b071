"""C14: the CNOT-dihedral algebra is a faithful representation of its circuits."""
import itertools
import re
import numpy as np
from hypothesis import strategies as st
from qiskit import QuantumCircuit, QiskitError
from qiskit.circuit.library import XGate, YGate, ZGate, CXGate, CZGate, TGate, SGate, SdgGate, TdgGate, IGate, U1Gate, HGate, CCXGate
from qiskit.quantum_info import Operator, Pauli, ScalarOp
from qiskit.ignis.verification.randomized_benchmarking import CNOTDihedral, random_cnotdihedral, decompose_cnotdihedral
from qiskit.ignis.verification.randomized_benchmarking import dihedral as dh

import sim
from harness import facet

QUICK_SCALE = 1
ASSUMPTIONS = ['dense unitaries up to 4 qubits (5 in the random-element facet), basis-state action up to 10 qubits',
               'circuits over x, y, z, u1(k pi/4), cx, cz, id, as CNOTDihedral accepts them',
               'tensor puts the first operand on the first qubits, as the existing tests fix it']

GATES = ['cx', 'u1', 'x', 'cx', 'cz', 'y', 'z', 'id']


@st.composite
def gates_st(draw, n, lo=0, hi=12):
    out = []
    for _ in range(draw(st.integers(lo, hi))):
        g = draw(st.sampled_from(GATES))
        if g in ('cx', 'cz'):
            if n == 1:
                g = 'u1'
            else:
                a = draw(st.integers(0, n - 1))
                b = draw(st.integers(0, n - 2))
                out.append([g, a, b if b < a else b + 1])
                continue
        if g == 'u1':
            out.append([g, draw(st.integers(-9, 17)), draw(st.integers(0, n - 1))])
        else:
            out.append([g, draw(st.integers(0, n - 1))])
    return out


@st.composite
def elem_st(draw, n, hi=12):
    if draw(st.integers(0, 2)) == 0:
        return {'kind': 'random', 'n': n, 'seed': draw(st.integers(0, 10 ** 6))}
    return {'kind': 'circuit', 'n': n, 'gates': draw(gates_st(n, hi=hi))}


T = np.exp(1j * np.pi / 4)
M = {'x': np.array([[0, 1], [1, 0]]), 'y': np.array([[0, -1j], [1j, 0]]), 'z': np.diag([1, -1]), 'id': np.eye(2),
     'cz': np.diag([1, 1, 1, -1]), 'cx': np.array([[1, 0, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0], [0, 1, 0, 0]])}


def circuit(spec):
    qc = QuantumCircuit(spec['n'])
    for g, *a in spec['gates']:
        if g == 'u1':
            qc.append(U1Gate(a[0] * np.pi / 4), [a[1]])
        elif g == 'id':
            qc.i(a[0])
        else:
            getattr(qc, g)(*a)
    return qc


def gates_unitary(spec):
    n = spec['n']
    u = np.eye(2 ** n, dtype=complex)
    for g, *a in spec['gates']:
        if g == 'u1':
            u = sim.apply_matrix(u, np.diag([1, T ** a[0]]), [a[1]], n)
        else:
            u = sim.apply_matrix(u, M[g], a, n)
    return u


def build(spec):
    """(element, unitary)"""
    if spec['kind'] == 'random':
        e = random_cnotdihedral(spec['n'], seed=spec['seed'])
        return e, represented(e)
    return CNOTDihedral(circuit(spec)), gates_unitary(spec)


def apply_elem(e, x):
    """Image of a basis state: (phase exponent mod 8, state), by the definition in the module docstring."""
    n = e.num_qubits
    b = [x >> i & 1 for i in range(n)]
    p = int(e.poly.weight_0)
    for i in range(n):
        p += int(e.poly.get_term([i])) * b[i]
    for t in itertools.combinations([i for i in range(n) if b[i]], 2):
        p += int(e.poly.get_term(list(t)))
    for t in itertools.combinations([i for i in range(n) if b[i]], 3):
        p += int(e.poly.get_term(list(t)))
    y = 0
    for r in range(n):
        v = int(e.shift[r])
        for c in range(n):
            v += int(e.linear[r][c]) * b[c]
        y |= (v % 2) << r
    return p % 8, y


def represented(e):
    d = 2 ** e.num_qubits
    u = np.zeros((d, d), dtype=complex)
    for x in range(d):
        p, y = apply_elem(e, x)
        u[y, x] = T ** p
    return u


def same(a, b):
    return a.shape == b.shape and abs(abs(np.vdot(a, b)) - len(a)) < 1e-7


def snapshot(e):
    return (np.array(e.linear).tolist(), np.array(e.shift).tolist(), int(e.poly.weight_0), np.array(e.poly.weight_1).tolist(),
            np.array(e.poly.weight_2).tolist(), np.array(e.poly.weight_3).tolist())


def valid(ctx, e, u, what):
    """e is a well-formed group element that represents u; its circuit, gate and matrix too."""
    ctx.check(isinstance(e, CNOTDihedral), '%s is a %s', what, type(e).__name__)
    ctx.check(same(represented(e), u), '%s represents another unitary', what)
    ctx.check(bool(e.is_cnotdihedral()), '%s is not a valid element', what)


def full(ctx, e, u, what):
    valid(ctx, e, u, what)
    snap = snapshot(e)
    circ = e.to_circuit()
    ctx.check(circ.num_qubits == e.num_qubits, 'qubits of the circuit of %s', what)
    ctx.check(same(sim.unitary(circ), u), 'the circuit of %s implements another unitary', what)
    ctx.check({o[0] for o in sim.ops(circ)} <= {'cx', 'cz', 'u1', 'x', 'id'}, 'gates of the circuit of %s', what)
    ctx.check(same(sim.unitary(decompose_cnotdihedral(e)), u), 'decompose_cnotdihedral of %s', what)
    ctx.check(CNOTDihedral(circ) == e, 'circuit and back of %s gives another element', what)
    inst = e.to_instruction()
    ctx.check(inst.num_qubits == e.num_qubits and CNOTDihedral(inst) == e, 'instruction and back of %s', what)
    ctx.check(same(np.asarray(e.to_matrix()), u), 'the matrix of %s', what)
    ctx.check(same(e.to_operator().data, u), 'the operator of %s', what)
    ctx.check(snapshot(e) == snap, 'conversion changed %s', what)


def nstates(n):
    return st.sampled_from([2, 3, 2, 1, 4][:n])


@st.composite
def pair_case(draw):
    n = draw(nstates(5))
    a, b = draw(elem_st(n)), draw(elem_st(n))
    if draw(st.integers(0, 5)) == 0:
        b = a
    return {'a': a, 'b': b, 'power': draw(st.integers(1, 4))}


@facet('algebra', pair_case(), 800, 10000, 'elements on at least two qubits', shards=8)
def algebra(case, ctx):
    A, ua = build(case['a'])
    B, ub = build(case['b'])
    n = case['a']['n']
    ctx.nontrivial(n > 1)
    ctx.label('%d qubits' % n)
    snap = snapshot(A), snapshot(B)
    full(ctx, A, ua, 'an element')
    results = {'compose': (A.compose(B), ub @ ua), 'compose front': (A.compose(B, front=True), ua @ ub), 'dot': (A.dot(B), ua @ ub),
               '@': (A @ B, ub @ ua), 'adjoint': (A.adjoint(), ua.conj().T), 'conjugate': (A.conjugate(), ua.conj()),
               'transpose': (A.transpose(), ua.T), 'power': (A.power(case['power']), np.linalg.matrix_power(ua, case['power']))}
    for name, (e, u) in results.items():
        valid(ctx, e, u, name)
    full(ctx, results['compose'][0], ub @ ua, 'a composed element')
    # results are elements like any other
    C = results['compose'][0]
    valid(ctx, C.adjoint(), (ub @ ua).conj().T, 'adjoint of a composed element')
    valid(ctx, C.compose(A), ua @ ub @ ua, 'compose of a composed element')
    ctx.check(A.compose(A.adjoint()) == CNOTDihedral(n), 'an element times its inverse is not the identity')
    # products keep the phase
    prod = A * B
    ctx.close(represented(prod), represented(A) @ represented(B), 1e-7, 'product with its phase')
    ctx.close(represented(A.__rmul__(B)), represented(B) @ represented(A), 1e-7, 'right product with its phase')
    # equality
    ctx.check((A == B) == same(ua, ub), 'equality %s of elements', A == B)
    ctx.check((A != B) == (not same(ua, ub)), 'inequality of elements')
    if case['a'] == case['b']:
        ctx.check(A == B, 'equal construction, different elements')
    ctx.check(A == A.copy() and CNOTDihedral(A) == A, 'copies differ')
    ctx.check(not A == 'x', 'equal to a string')
    ctx.check((snapshot(A), snapshot(B)) == snap, 'an operation changed its operand')


@st.composite
def tensor_case(draw):
    na, nb = draw(st.sampled_from([[1, 1], [1, 2], [2, 1], [2, 2], [1, 3], [3, 1], [3, 2], [2, 3], [4, 2], [2, 4]]))
    return {'a': draw(elem_st(na)), 'b': draw(elem_st(nb))}


@facet('tensor', tensor_case(), 300, 4000, 'elements of different sizes or not both one qubit', shards=4)
def tensor(case, ctx):
    A, ua = build(case['a'])
    B, ub = build(case['b'])
    snap = snapshot(A), snapshot(B)
    ctx.nontrivial(case['a']['n'] + case['b']['n'] > 2)
    t = A.tensor(B)
    valid(ctx, t, np.kron(ub, ua), 'tensor')
    valid(ctx, A.expand(B), np.kron(ua, ub), 'expand')
    valid(ctx, A ^ B, np.kron(ub, ua), '^')
    if case['a']['n'] + case['b']['n'] <= 4:
        full(ctx, t, np.kron(ub, ua), 'a tensor product')
        valid(ctx, t.compose(A.expand(B)) if case['a']['n'] == case['b']['n'] else t, (np.kron(ua, ub) @ np.kron(ub, ua)) if case['a']['n'] == case['b']['n']
              else np.kron(ub, ua), 'compose of tensor products')
    # the product is independent of its factors
    before = represented(t)
    for e in (A, B):
        e.flip(0)
        e.phase(3, e.num_qubits - 1)
        if e.num_qubits > 1:
            e.cnot(1, 0)
    ctx.close(represented(t), before, 1e-9, 'tensor product changed with its factor')
    ctx.check(snap != (snapshot(A), snapshot(B)), 'in-place gates had no effect')


@st.composite
def inplace_case(draw):
    n = draw(st.sampled_from([2, 3, 1, 4]))
    return {'e': draw(elem_st(n, hi=6)), 'gates': [g for g in draw(gates_st(n, 1, 8)) if g[0] in ('x', 'cx', 'u1')]}


@facet('inplace', inplace_case(), 600, 8000, 'a gate is applied', shards=2)
def inplace(case, ctx):
    """cnot, phase and flip act as the gate applied after the element."""
    e, u = build(case['e'])
    n = case['e']['n']
    c = e.copy()
    keep = snapshot(e)
    for g, *a in case['gates']:
        ctx.nontrivial()
        if g == 'x':
            c.flip(a[0])
            u = sim.apply_matrix(u, M['x'], a, n)
        elif g == 'cx':
            c.cnot(*a)
            u = sim.apply_matrix(u, M['cx'], a, n)
        else:
            c.phase(a[0], a[1])
            u = sim.apply_matrix(u, np.diag([1, T ** a[0]]), [a[1]], n)
    valid(ctx, c, u, 'the element with gates applied')
    ctx.check(snapshot(e) == keep, 'a copy shares its data with the original')
    for bad in (lambda: c.flip(n), lambda: c.phase(1, n), lambda: c.cnot(0, n), lambda: c.cnot(n, 0), lambda: c.flip(-1), lambda: c.phase(1, -1),
                lambda: c.cnot(-1, 0)):
        ctx.raises(QiskitError, bad, 'gate out of range accepted')
    # appending a circuit on chosen qubits
    spec = {'n': n, 'gates': case['gates']}
    d = e.copy()
    out = dh.append_circuit(d, circuit(spec))
    ctx.check(out is d and same(represented(d), gates_unitary(spec) @ build(case['e'])[1]), 'append_circuit')
    perm = list(range(n))[::-1]
    d = e.copy()
    dh.append_circuit(d, circuit(spec), qargs=perm)
    spec2 = {'n': n, 'gates': [[g] + [perm[x] if not (g == 'u1' and i == 0) else x for i, x in enumerate(a)] for g, *a in case['gates']]}
    ctx.check(same(represented(d), gates_unitary(spec2) @ build(case['e'])[1]), 'append_circuit on other qubits')


@facet('large', st.fixed_dictionaries({'n': st.sampled_from([5, 6, 9]), 's': st.integers(0, 10 ** 6), 't': st.integers(0, 10 ** 6),
                                       'x': st.lists(st.integers(0, 1023), min_size=20, max_size=20)}), 24, 150, 'always', shards=8)
def large(case, ctx):
    """Basis-state action of products of larger elements."""
    n = case['n']
    A, B = random_cnotdihedral(n, seed=case['s']), random_cnotdihedral(n, seed=case['t'])
    ctx.nontrivial()
    ctx.label('%d qubits' % n)
    C = A.compose(B)
    ctx.check(bool(C.is_cnotdihedral()) and bool(A.is_cnotdihedral()), 'not an element')
    p0, y0 = apply_elem(A, 0)
    q0, z0 = apply_elem(B, y0)
    base = (p0 + q0) % 8
    r0, w0 = apply_elem(C, 0)
    ctx.check(w0 == z0, 'image of the zero state')
    for x in case['x']:
        x %= 2 ** n
        p, y = apply_elem(A, x)
        q, z = apply_elem(B, y)
        r, w = apply_elem(C, x)
        ctx.check(w == z, 'image of %d is %d, not %d', x, w, z)
        ctx.check((r - r0) % 8 == (p + q - base) % 8, 'relative phase of %d', x)
    ctx.check(CNOTDihedral(C.to_circuit()) == C, 'circuit and back')


@st.composite
def random_case(draw):
    return {'n': draw(st.integers(1, 6)), 'seed': draw(st.integers(0, 2 ** 31)), 'how': draw(st.sampled_from(['int', 'rs', 'global']))}


@facet('random', random_case(), 300, 4000, 'at least two qubits', shards=1)
def random_elements(case, ctx):
    n, seed = case['n'], case['seed']

    def make():
        if case['how'] == 'int':
            return random_cnotdihedral(n, seed=seed)
        if case['how'] == 'rs':
            return random_cnotdihedral(n, seed=np.random.RandomState(seed))
        np.random.seed(seed)
        return random_cnotdihedral(n)
    e = make()
    ctx.nontrivial(n > 1)
    ctx.check(bool(e.is_cnotdihedral()), 'random element is not valid')
    if n <= 5:
        u = represented(e)
        ctx.close(u @ u.conj().T, np.eye(2 ** n), 1e-9, 'not unitary')
        if n <= 4:
            full(ctx, e, u, 'a random element')
    ctx.check(make() == e, 'not reproducible by its seed')
    if case['how'] == 'rs' and n >= 3:
        r = np.random.RandomState(seed)
        ctx.check(random_cnotdihedral(n, seed=r) != random_cnotdihedral(n, seed=r), 'a generator yields the same element twice')
    # membership is a property of the data: break each part in turn
    for what in range(8):
        c = e.copy()
        if what == 0:
            c.linear = np.array(c.linear).copy()
            c.linear[0] = 0
        elif what == 1:
            c.poly.weight_0 = 1
        elif what == 2 and n > 1:
            c.poly.weight_2 = np.array(c.poly.weight_2).copy()
            c.poly.weight_2[0] = 1
        elif what == 3 and n > 2:
            c.poly.weight_3 = np.array(c.poly.weight_3).copy()
            c.poly.weight_3[-1] = 2
        elif what == 4:
            c.poly.weight_1 = np.array(c.poly.weight_1).copy()
            c.poly.weight_1[0] = 8
        elif what == 5:
            c.shift = np.array(c.shift).copy()
            c.shift[0] = 2
        elif what == 6:
            c.linear = np.eye(n + 1, dtype=int)
        elif what == 7:
            c.shift = np.zeros(n + 1, dtype=int)
        else:
            continue
        ctx.check(not c.is_cnotdihedral(), 'broken data (%d) accepted as an element', what)
        if what == 0:
            ctx.raises(QiskitError, lambda c=c: CNOTDihedral(c), 'invalid data accepted by the constructor')


@facet('distribution', st.fixed_dictionaries({'s': st.integers(0, 1000)}), 2, 6, 'always', shards=2)
def distribution(case, ctx):
    """Random one- and two-qubit elements reach the whole group."""
    r = np.random.RandomState(case['s'])
    ctx.nontrivial()
    seen = {}
    for _ in range(600):
        k = random_cnotdihedral(1, seed=r).key
        seen[k] = seen.get(k, 0) + 1
    # 16 elements, uniform: P(some missing) < 1e-15
    ctx.check(len(seen) == 16, '%d of 16 one-qubit elements reached', len(seen))
    lin, w1, w2, sh = set(), set(), set(), set()
    for _ in range(600):
        e = random_cnotdihedral(2, seed=r)
        lin.add(str(np.array(e.linear, dtype=int).tolist()))
        w1.add(str(np.array(e.poly.weight_1, dtype=int).tolist()))
        w2.add(int(e.poly.weight_2[0]))
        sh.add(str(np.array(e.shift, dtype=int).tolist()))
    ctx.check(len(lin) == 6 and len(w2) == 4 and len(sh) == 4 and len(w1) >= 60, 'two-qubit elements reach only %s', (len(lin), len(w1), len(w2), len(sh)))
    w3, nlin = set(), set()
    for _ in range(120):
        e = random_cnotdihedral(3, seed=r)
        w3.add(int(e.poly.weight_3[0]))
        nlin.add(str(np.array(e.linear, dtype=int).tolist()))
    ctx.check(w3 == {0, 4} and len(nlin) > 60, 'three-qubit elements reach only %s', (w3, len(nlin)))


@st.composite
def reject_case(draw):
    n = draw(st.integers(1, 3))
    return {'e': {'kind': 'circuit', 'n': n, 'gates': draw(gates_st(n, hi=5))}, 'bad': draw(st.sampled_from(['h', 'u1', 'measure', 'rx', 'ccx', 'cu1'])),
            'pos': draw(st.integers(0, 5)), 'angle': draw(st.floats(0.02, 0.76)), 'pauli': draw(st.text('IXYZ', min_size=1, max_size=4)),
            'm': draw(st.integers(1, 4))}


@facet('inputs', reject_case(), 300, 3000, 'a gate outside of the group', shards=1)
def inputs(case, ctx):
    """Everything a CNOTDihedral can be made from, and what it must refuse."""
    n = case['e']['n']
    g = case['e']['gates']
    pos = min(case['pos'], len(g))
    qc = QuantumCircuit(max(n, 3), 1)
    for part in (g[:pos], None, g[pos:]):
        if part is None:
            b = case['bad']
            if b == 'h':
                qc.h(0)
            elif b == 'u1':
                qc.append(U1Gate(case['angle']), [0])
            elif b == 'measure':
                qc.measure(0, 0)
            elif b == 'rx':
                qc.rx(case['angle'], 0)
            elif b == 'ccx':
                qc.ccx(0, 1, 2)
            else:
                qc.cu1(case['angle'], 0, 1)
        else:
            qc.compose(circuit({'n': n, 'gates': part}), qubits=list(range(n)), inplace=True)
    ctx.nontrivial()
    ctx.raises(QiskitError, lambda: CNOTDihedral(qc), 'a circuit with %s is not in the group' % case['bad'])
    for gate in (HGate(), CCXGate(), U1Gate(case['angle'])):
        ctx.raises(QiskitError, lambda gate=gate: CNOTDihedral(gate), 'gate %s is not in the group' % gate.name)
    for gate in (XGate(), YGate(), ZGate(), TGate(), TdgGate(), SGate(), SdgGate(), CXGate(), CZGate(), IGate(), U1Gate(case['pos'] * np.pi / 4)):
        valid(ctx, CNOTDihedral(gate), gate.to_matrix(), 'gate ' + gate.name)
    p = Pauli(case['pauli'])
    valid(ctx, CNOTDihedral(p), p.to_matrix(), 'Pauli')
    m = case['m']
    for ident in (m, ScalarOp([2] * m), ScalarOp(2 ** m)):
        valid(ctx, CNOTDihedral(ident), np.eye(2 ** m), 'identity from %r' % (ident,))
    ctx.check(CNOTDihedral(m).to_circuit().num_qubits == m, 'identity circuit')
    for bad in (0, 'x', None, 1.5, ScalarOp(3), ScalarOp([2, 2], 2.0)):
        ctx.raises(QiskitError, lambda bad=bad: CNOTDihedral(bad), 'CNOTDihedral(%r) accepted' % (bad,))
    A, B = CNOTDihedral(n), CNOTDihedral(n + 1)
    for bad in (lambda: A.compose(B), lambda: A.dot(B), lambda: A * B, lambda: B.compose(A, front=True)):
        ctx.raises(QiskitError, bad, 'product of different sizes accepted')
    for bad in (lambda: A.compose(A, qargs=[0]), lambda: A.dot(A, qargs=[0])):
        ctx.raises(NotImplementedError, bad, 'qargs ignored')


# ------------------------------------------------------------------ phase polynomials

@st.composite
def poly_case(draw):
    n = draw(st.sampled_from([2, 3, 1, 4, 10]))
    return {'n': n, 'a': draw(st.integers(0, 10 ** 6)), 'b': draw(st.integers(0, 10 ** 6)), 'c': draw(st.integers(-9, 9)),
            'x': [draw(st.integers(0, 1)) for _ in range(n)], 'sub': sorted(draw(st.sets(st.integers(0, n - 1), max_size=3))), 'low': draw(st.booleans())}


def rand_poly(n, seed, maxdeg=3):
    r = sim.rs(seed)
    p = dh.SpecialPolynomial(n)
    terms = {}
    for d in range(0, min(n, maxdeg) + 1):
        for t in itertools.combinations(range(n), d):
            if r.rand() < 0.6:
                v = int(r.randint(8))
                p.set_term(list(t), v)
                terms[t] = v
    return p, terms


def ev(terms, x):
    return sum(v for t, v in terms.items() if all(x[i] for i in t)) % 8


def text_poly(text, x):
    return eval(re.sub(r'x_(\d+)', lambda m: str(x[int(m.group(1))]), text.strip()), {'__builtins__': {}}) % 8  # pylint: disable=eval-used


@st.composite
def text_case(draw):
    n = draw(st.sampled_from([2, 3, 1, 4]))
    return {'n': n, 'a': draw(st.integers(0, 10 ** 6)), 'e': draw(elem_st(n))}


@facet('text', text_case(), 200, 2000, 'at least two variables')
def text(case, ctx):
    """What is printed is what is represented."""
    n = case['n']
    ctx.nontrivial(n > 1)
    p, tp = rand_poly(n, case['a'])
    for x in itertools.product((0, 1), repeat=n):
        ctx.check(text_poly(str(p), x) == ev(tp, x), 'the text %s has another value at %s', str(p), x)
    e = build(case['e'])[0]
    got = str(e)
    head, fun = got.split('affine function =')
    pol = head.split('phase polynomial =')[1]
    rows = fun.strip()[1:-1].split(',')
    ctx.check(len(rows) == n, 'the text %s has %d components', got, len(rows))
    for v in range(2 ** n):
        x = [v >> i & 1 for i in range(n)]
        ph, y = apply_elem(e, v)
        ctx.check(text_poly(pol, x) == ph, 'the phase of the text %s at %s', got, x)
        ctx.check([text_poly(r, x) % 2 for r in rows] == [y >> i & 1 for i in range(n)], 'the affine function of the text %s at %s', got, x)


@facet('polynomials', poly_case(), 300, 4000, 'at least two variables', shards=2)
def polynomials(case, ctx):
    n = case['n']
    ctx.nontrivial(n > 1)
    p, tp = rand_poly(n, case['a'], 2 if case['low'] else 3)
    q, tq = rand_poly(n, case['b'], 1)
    for t in [[]] + [list(t) for d in (1, 2, 3) for t in itertools.combinations(range(n), d)]:
        ctx.check(int(p.get_term(t)) == tp.get(tuple(t), 0), 'term %s read back as %s', t, p.get_term(t))
    x = case['x']
    ctx.check(int(p.evaluate(x)) == ev(tp, x), 'value %s at %s, expected %s', p.evaluate(x), x, ev(tp, x))
    ctx.check(int((p + q).evaluate(x)) == (ev(tp, x) + ev(tq, x)) % 8, 'sum')
    ctx.check(int((p * case['c']).evaluate(x)) == ev(tp, x) * case['c'] % 8, 'scalar multiple')
    ctx.check(int((case['c'] * p).evaluate(x)) == ev(tp, x) * case['c'] % 8, 'scalar multiple')
    if case['low'] and n < 10:
        ctx.check(int((p * q).evaluate(x)) == ev(tp, x) * ev(tq, x) % 8, 'product')
        ctx.check(int((q * p).evaluate(x)) == ev(tp, x) * ev(tq, x) % 8, 'product')
    j = dh.SpecialPolynomial(n)
    if case['sub']:
        # p_J(x) is the parity of the bits in J, modulo 8 up to terms of degree at most three
        j.set_pj(case['sub'])
        ctx.check(int(j.evaluate(x)) == sum(x[i] for i in case['sub']) % 2, 'p_J is not the parity')
    m = p.mul_monomial(case['sub'][:1])
    ctx.check(int(m.evaluate(x)) == ev(tp, x) * (x[case['sub'][0]] if case['sub'] else 1) % 8 or not case['low'], 'monomial product')
    ctx.check((p == q) == ({t: v for t, v in tp.items() if v} == {t: v for t, v in tq.items() if v}), 'equality of polynomials')
    ctx.raises(QiskitError, lambda: p.get_term([n]), 'index out of range')
    ctx.raises(QiskitError, lambda: p.set_term([n], 1), 'index out of range')
    if n > 1:
        ctx.raises(QiskitError, lambda: p.get_term([1, 0]), 'decreasing indices')
    ctx.raises(QiskitError, lambda: p.evaluate(x + [0]), 'wrong number of variables')
    ctx.raises(QiskitError, lambda: p + dh.SpecialPolynomial(n + 1), 'different numbers of variables')
    ctx.raises(QiskitError, lambda: dh.SpecialPolynomial(0), 'no variables')


@facet('dictionaries', st.fixed_dictionaries({'n': st.sampled_from([1, 2]), 'pick': st.lists(st.integers(0, 10 ** 6), min_size=40, max_size=40)}),
       3, 10, 'always', shards=1)
def dictionaries(case, ctx):
    """The tables of elements by number of CNOT gates list circuits of the elements."""
    n = case['n']
    ctx.nontrivial()
    d0 = dh.make_dict_0(n)
    ctx.check(len(d0) == 16 ** n, '%d elements without CNOT', len(d0))
    dicts = [d0]
    if n == 2:
        d1 = dh.make_dict_next(n, [d0])
        # one CNOT gate: 4096 / ... elements, none of them in the first table
        ctx.check(not set(d1) & set(d0), 'an element is listed twice')
        dicts.append(d1)
    for d in dicts:
        keys = list(d)
        for k in case['pick']:
            key = keys[k % len(keys)]
            e, gates = d[key]
            ctx.check(e.key == key, 'wrong key')
            u = gates_unitary({'n': n, 'gates': [list(g) for g in gates]})
            ctx.check(same(represented(e), u), 'gate list %s of an element', gates)


@facet('exhaustive', st.just({}), 1, 1, 'always: every one-qubit element and every two-qubit element', shards=1)
def exhaustive(case, ctx):
    """Circuit, inverse and equality of every element of the two smallest groups."""
    del case
    ctx.nontrivial()
    for n in (1, 2):
        mats = [[[1]]] if n == 1 else [m for m in ([[a, b], [c, d]] for a in (0, 1) for b in (0, 1) for c in (0, 1) for d in (0, 1))
                                       if (m[0][0] * m[1][1] + m[0][1] * m[1][0]) % 2]
        count = 0
        keys = set()
        for lin, sh, w1, w2 in itertools.product(mats, itertools.product((0, 1), repeat=n), itertools.product(range(8), repeat=n),
                                                 (0, 2, 4, 6) if n == 2 else (0,)):
            e = CNOTDihedral(n)
            e.linear = np.array(lin, dtype=np.int8)
            e.shift = np.array(sh, dtype=np.int8)
            e.poly.weight_1 = np.array(w1, dtype=np.int8)
            if n == 2:
                e.poly.weight_2 = np.array([w2], dtype=np.int8)
            u = represented(e)
            what = 'the element with linear part %s, shift %s and phases %s, %s' % (lin, sh, w1, w2)
            ctx.check(same(sim.unitary(e.to_circuit()), u), 'the circuit of %s implements another unitary', what)
            ctx.check(same(represented(e.adjoint()), u.conj().T), 'the inverse of %s', what)
            keys.add(str(e.key))
            count += 1
        ctx.check(len(keys) == count, 'different elements have the same key')
        ctx.label('%d elements of %d qubits' % (count, n))
