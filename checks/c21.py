"""C21: entanglement circuits prepare GHZ states on any connected device."""
import datetime

import networkx as nx
import numpy as np
from hypothesis import strategies as st
from qiskit.providers.models import BackendProperties, QasmBackendConfiguration
from qiskit.providers.models.backendproperties import Gate, Nduv
from qiskit.test.mock.fake_backend import FakeBackend
from qiskit.ignis.verification import entanglement as ent

import sim
from harness import facet

ASSUMPTIONS = ['devices are connected and number their qubits from zero; GHZ states on devices have at least two qubits']

NOW = datetime.datetime(2020, 1, 1)


class Device(FakeBackend):
    """A mock device with given couplings and CNOT errors."""

    def __init__(self, n, cmap, errors, basis):
        self._conf = QasmBackendConfiguration(
            backend_name='mock', backend_version='0.0.0', n_qubits=n, basis_gates=basis, simulator=False, local=True, conditional=False,
            open_pulse=False, memory=False, max_shots=8192, gates=[], coupling_map=[list(e) for e in cmap])
        gates = []
        for g in basis:
            if g == 'cx':
                for e, err in zip(cmap, errors):
                    gates.append(Gate(gate='cx', name='cx%d_%d' % tuple(e), qubits=list(e),
                                      parameters=[Nduv(NOW, 'gate_error', '', err), Nduv(NOW, 'gate_length', 'ns', 300 + 10 * err)]))
            else:
                for q in range(n):
                    gates.append(Gate(gate=g, name='%s_%d' % (g, q), qubits=[q],
                                      parameters=[Nduv(NOW, 'gate_error', '', 0.001), Nduv(NOW, 'gate_length', 'ns', 50)]))
        qubits = [[Nduv(NOW, 'T1', 'µs', 100.), Nduv(NOW, 'T2', 'µs', 100.), Nduv(NOW, 'frequency', 'GHz', 5.), Nduv(NOW, 'readout_error', '', 0.01)]
                  for _ in range(n)]
        self._props = BackendProperties('mock', '0.0.0', NOW, qubits, gates, [])
        super().__init__(self._conf)

    def properties(self):
        return self._props


@st.composite
def device(draw, lo=2, hi=6, kinds=('tree', 'line', 'graph', 'star')):
    n = draw(st.integers(lo, hi))
    kind = draw(st.sampled_from(kinds))
    order = [int(x) for x in draw(st.permutations(list(range(n))))] if draw(st.booleans()) else list(range(n))
    edges = []
    for i in range(1, n):
        j = {'line': i - 1, 'star': 0}.get(kind)
        if j is None:
            j = draw(st.integers(0, i - 1))
        edges.append((order[j], order[i]))
    if kind == 'graph':
        for _ in range(draw(st.integers(0, n))):
            a, b = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
            if a != b and (a, b) not in edges and (b, a) not in edges:
                edges.append((a, b))
    cmap, errors = [], []
    for a, b in edges:
        way = draw(st.sampled_from(['both', 'both', 'fwd', 'bwd']))
        e1, e2 = draw(st.integers(1, 400)) / 10000, draw(st.integers(1, 400)) / 10000
        if way in ('both', 'fwd'):
            cmap.append([a, b])
            errors.append(e1)
        if way in ('both', 'bwd'):
            cmap.append([b, a])
            errors.append(e1 if draw(st.booleans()) else e2)
    listing = draw(st.sampled_from(['as is', 'sorted', 'sorted', 'reversed', 'shuffled']))
    if listing != 'as is':
        z = sorted(zip(cmap, errors), reverse=listing == 'reversed')
        if listing == 'shuffled':
            z = draw(st.permutations(z))
        cmap, errors = [list(x[0]) for x in z], [x[1] for x in z]
    return {'n': n, 'cmap': cmap, 'errors': errors, 'basis': draw(st.sampled_from([['u1', 'u2', 'u3', 'cx', 'id'], ['rz', 'sx', 'x', 'cx', 'id']])),
            'indicator': draw(st.booleans())}


def make(dev):
    return Device(dev['n'], dev['cmap'], dev['errors'], dev['basis'])


def ghz(n):
    v = np.zeros(2 ** n, dtype=complex)
    v[0] = v[-1] = 1 / np.sqrt(2)
    return v


def overlap(a, b):
    return float(np.abs(np.vdot(a, b)))


def check_mqc(ctx, circ, n, delta, full, qubits, what):
    p = sim.clbit_probs(circ)
    size = n if full else 1
    ctx.check(len(circ.clbits) == size, '%s: %d classical bits', what, len(circ.clbits))
    ctx.check(sim.measured_map(circ) == {i: qubits[i] for i in range(size)}, '%s: measurement %s of qubits %s', what, sim.measured_map(circ), qubits)
    ctx.close(p.get(0, 0.0), (1 + np.cos(n * delta)) / 2, 1e-6, '%s: ground-state probability for n=%d, phase %s' % (what, n, delta))


def check_po(ctx, circ, n, delta, qubits, what):
    ctx.check(sim.measured_map(circ) == {i: qubits[i] for i in range(n)}, '%s: measurement %s', what, sim.measured_map(circ))
    par = sum(p * (-1) ** bin(v).count('1') for v, p in sim.clbit_probs(circ).items())
    ctx.close(par, (-1) ** n * np.cos(n * delta), 1e-6, '%s: parity for n=%d, phase %s' % (what, n, delta))


phases = st.one_of(st.sampled_from([0.0, np.pi / 2, np.pi, 2 * np.pi, -np.pi / 3]), st.floats(-7, 7).map(lambda x: round(x, 4)))


@facet('linear', st.fixed_dictionaries({'n': st.one_of(st.integers(1, 8), st.integers(9, 12)), 'delta': phases, 'full': st.booleans()}), quick=250, thorough=3000, rule='at least two qubits and a phase')
def linear(c, ctx):
    n, delta, full = c['n'], c['delta'], c['full']
    q = list(range(n))
    circ = ent.get_ghz_simple(n, measure=False)
    ctx.check(not circ.clbits, 'classical bits without measurement')
    ctx.close(overlap(sim.statevector(circ), ghz(n)) if n > 1 else overlap(sim.statevector(circ), np.ones(2) / np.sqrt(2)), 1.0, 1e-9, 'GHZ fidelity')
    circ = ent.get_ghz_simple(n, full_measurement=full)
    ctx.check(sim.measured_map(circ) == {i: i for i in range(n if full else 1)}, 'measurement %s', sim.measured_map(circ))
    want = {0: 0.5, (2 ** n - 1 if full else 1): 0.5}
    got = {k: v for k, v in sim.clbit_probs(circ).items() if v > 1e-9}
    ctx.check(set(got) == set(want) and all(abs(got[k] - want[k]) < 1e-9 for k in want), 'outcomes %s of the GHZ circuit', got)
    m = ent.get_measurement_circ(n, 'qq', 'cc', full)
    ctx.check(m.qregs[0].name == 'qq' and m.cregs[0].name == 'cc' and sim.measured_map(m) == {i: i for i in range(n if full else 1)}, 'measurement circuit')
    check_mqc(ctx, ent.get_ghz_mqc(n, delta, full), n, delta, full, q, 'MQC')
    par, t = ent.get_ghz_mqc_para(n, full)
    check_mqc(ctx, par.bind_parameters({t: delta}), n, delta, full, q, 'parametrized MQC')
    check_po(ctx, ent.get_ghz_po(n, delta), n, delta, q, 'parity oscillation')
    par, (t, tn) = ent.get_ghz_po_para(n)
    check_po(ctx, par.bind_parameters({t: delta, tn: -delta}), n, delta, q, 'parametrized parity oscillation')
    ctx.nontrivial(n > 1 and delta != 0)


def check_tiers(ctx, dev, tiers):
    und = nx.Graph([tuple(e) for e in dev['cmap']])
    steps = [tuple(p) for k in sorted(tiers) for p in tiers[k]]
    ctx.check(len(steps) == dev['n'] - 1, '%d CNOTs for %d qubits', len(steps), dev['n'])
    ctx.check(all(und.has_edge(a, b) for a, b in steps), 'CNOTs %s outside of the couplings', steps)
    root = [tuple(p) for p in tiers[min(tiers)]][0][0]
    ctx.check(und.degree(root) == max(d for _, d in und.degree()), 'root %d does not have the most connections', root)
    done = {root}
    for k in sorted(tiers):
        used = [x for p in tiers[k] for x in p]
        ctx.check(len(used) == len(set(used)), 'step %s uses a qubit twice: %s', k, tiers[k])
        for a, b in tiers[k]:
            ctx.check(a in done and b not in done, 'step %s entangles %d with %d, entangled so far %s', k, a, b, sorted(done))
        done |= {b for _, b in tiers[k]}
    ctx.check(done == set(range(dev['n'])), 'qubits %s are not entangled', sorted(set(range(dev['n'])) - done))
    if dev['indicator']:
        err = {}
        for e, v in zip(dev['cmap'], dev['errors']):
            err[tuple(e)] = v
        for a in {a for a, _ in steps}:
            kids = [b for x, b in steps if x == a]
            vals = [err.get((b, a), err.get((a, b))) for b in kids]
            ctx.check(vals == sorted(vals), 'children %s of %d are not in the order of their errors %s', kids, a, vals)


@facet('tiers', device(2, 12), quick=800, thorough=4000, shards=4, rule='at least four qubits')
def tiers(dev, ctx):
    cfg = ent.BConfig(make(dev), dev['indicator'])
    check_tiers(ctx, dev, cfg.get_tier_dict())
    check_tiers(ctx, dev, cfg.get_tier_dict())
    und = nx.Graph([tuple(e) for e in dev['cmap']])
    for n in range(2, dev['n'] + 1):
        circ, layout = cfg.get_ghz_layout(n, transpiled=False, barriered=n % 2 == 0)
        tree_circuit(ctx, circ, layout, n, und, '%d of %d qubits' % (n, dev['n']))
    ctx.nontrivial(dev['n'] > 3)


def tree_circuit(ctx, circ, layout, n, und, what):
    """A Hadamard gate and a tree of CNOTs from entangled to fresh qubits prepare a GHZ state of any size."""
    lay = {q.index: p for q, p in layout.items()}
    ctx.check(sorted(lay) == list(range(n)) and len(set(lay.values())) == n, '%s: layout %s of %d qubits', what, lay, n)
    ops = [(name, qs) for name, _, qs, _ in sim.ops(circ) if name not in sim.SKIP]
    ctx.check(len(ops) == n and ops[0][0] == 'h' and all(o[0] == 'cx' for o in ops[1:]), '%s: gates %s', what, ops)
    done = set(ops[0][1])
    for _, (a, b) in ops[1:]:
        ctx.check(a in done and b not in done, '%s: CNOT %d-%d after %s', what, a, b, sorted(done))
        ctx.check(und.has_edge(lay[a], lay[b]), '%s: no coupling of %d and %d', what, lay[a], lay[b])
        done.add(b)
    ctx.check(done == set(range(n)), '%s: qubits %s are not entangled', what, sorted(set(range(n)) - done))


@facet('large', st.tuples(st.one_of(device(20, 40, ('line', 'tree', 'graph', 'star')), device(60, 75, ('line', 'tree'))), st.integers(0, 10 ** 6)).map(list),
       quick=24, thorough=120, shards=8, rule='always')
def large(c, ctx):
    """Larger devices: the work does not explode and every qubit is reached."""
    dev, pick = c
    cfg = ent.BConfig(make(dev), dev['indicator'])
    check_tiers(ctx, dev, cfg.get_tier_dict())
    und = nx.Graph([tuple(e) for e in dev['cmap']])
    for n in (2 + pick % (dev['n'] - 1), dev['n'], 2 + (pick // 100) % (dev['n'] - 1)):
        circ, layout = cfg.get_ghz_layout(n, transpiled=False, barriered=pick % 2 == 0)
        tree_circuit(ctx, circ, layout, n, und, 'device of %d qubits' % dev['n'])
    ctx.nontrivial(True)


@st.composite
def parallel_case(draw):
    dev = draw(device(2, 6))
    return {'dev': dev, 'n': draw(st.integers(2, dev['n'])), 'delta': draw(phases), 'full': draw(st.booleans()), 'barrier': draw(st.booleans()),
            'other': draw(st.integers(0, 10 ** 6))}


@facet('parallel', parallel_case(), quick=320, thorough=1500, shards=8, rule='at least three qubits')
def parallel(c, ctx):
    dev, n, delta, full = c['dev'], c['n'], c['delta'], c['full']
    cfg = ent.BConfig(make(dev), dev['indicator'])
    directed = [tuple(e) for e in dev['cmap']]
    und = set(directed) | {(b, a) for a, b in directed}

    def phys(layout):
        ctx.check(len(layout) == n, 'layout %s of %d qubits', layout, n)
        lay = {q.index: p for q, p in layout.items()}
        ctx.check(sorted(lay) == list(range(n)) and len(set(lay.values())) == n, 'layout %s', lay)
        return lay

    def couplings(circ, what, cnots=None):
        two = [tuple(qs) for name, _, qs, _ in sim.ops(circ) if len(qs) == 2 and name not in sim.SKIP]
        ctx.check(all(e in directed for e in two), '%s uses couplings %s of a device with %s', what, two, directed)
        ctx.check(cnots is None or len(two) == cnots, '%s has %d entangling gates, expected %s', what, len(two), cnots)

    virt, layout = cfg.get_ghz_layout(n, transpiled=False, barriered=c['barrier'])
    lay = phys(layout)
    ctx.close(overlap(sim.statevector(virt), ghz(n)), 1.0, 1e-9, 'GHZ fidelity of the circuit before transpilation')
    cx = [tuple(lay[q] for q in qs) for name, _, qs, _ in sim.ops(virt) if name == 'cx']
    ctx.check(len(cx) == n - 1 and all(e in und for e in cx), 'CNOTs %s', cx)
    real, layout = cfg.get_ghz_layout(n, barriered=c['barrier'])
    lay = phys(layout)
    psi = sim.statevector(real)
    want = np.zeros(2 ** dev['n'], dtype=complex)
    want[0] = want[sum(1 << lay[i] for i in range(n))] = 1 / np.sqrt(2)
    ctx.close(overlap(psi, want), 1.0, 1e-6, 'GHZ fidelity on the qubits of the layout')
    couplings(real, 'GHZ circuit', n - 1)
    circ, _, layout = cfg.get_ghz_simple(n, full_measurement=full)
    lay = phys(layout)
    ctx.check(sim.measured_map(circ) == {i: lay[i] for i in range(n if full else 1)}, 'measurement %s with layout %s', sim.measured_map(circ), lay)
    got = {k: v for k, v in sim.clbit_probs(circ).items() if v > 1e-7}
    ctx.check(set(got) == {0, 2 ** n - 1 if full else 1} and abs(got[0] - 0.5) < 1e-6, 'outcomes %s', got)
    couplings(circ, 'GHZ circuit with measurement', n - 1)
    circ, layout = cfg.get_ghz_mqc(n, delta, full)
    check_mqc(ctx, circ, n, delta, full, phys(layout), 'MQC on a device')
    couplings(circ, 'MQC circuit', 2 * (n - 1))
    circ, t, layout = cfg.get_ghz_mqc_para(n, full)
    check_mqc(ctx, circ.bind_parameters({t: delta}), n, delta, full, phys(layout), 'parametrized MQC on a device')
    circ, layout = cfg.get_ghz_po(n, delta)
    check_po(ctx, circ, n, delta, phys(layout), 'parity oscillation on a device')
    couplings(circ, 'parity oscillation circuit', n - 1)
    circ, (t, tn), layout = cfg.get_ghz_po_para(n)
    check_po(ctx, circ.bind_parameters({t: delta, tn: -delta}), n, delta, phys(layout), 'parametrized parity oscillation on a device')
    # the configuration serves other sizes afterwards
    m = 2 + c['other'] % (dev['n'] - 1)
    circ, _, layout = cfg.get_ghz_simple(m)
    lay = {q.index: p for q, p in layout.items()}
    ctx.check(sim.measured_map(circ) == {i: lay[i] for i in range(m)}, 'measurement %s with layout %s after another size', sim.measured_map(circ), lay)
    got = {k: v for k, v in sim.clbit_probs(circ).items() if v > 1e-7}
    ctx.check(set(got) == {0, 2 ** m - 1} and abs(got[0] - 0.5) < 1e-6, 'outcomes %s of %d qubits after another size', got, m)
    ctx.nontrivial(n > 2)
