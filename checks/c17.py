"""C17: quantum-volume circuits match their ideal twins and their seed."""
import numpy as np
from hypothesis import strategies as st
from qiskit.ignis.verification.quantum_volume import qv_circuits

import sim
from harness import facet

ASSUMPTIONS = ['qubit lists have different lengths (the names of the circuits hold the length only)']


@st.composite
def case(draw):
    many = draw(st.integers(0, 5)) == 0
    widths = draw(st.lists(st.integers(1, 2), unique=True, min_size=1, max_size=2)) if many else \
        draw(st.lists(st.sampled_from([1, 2, 3, 4, 5, 2, 3, 6]), unique=True, min_size=1, max_size=6))
    if draw(st.booleans()):
        widths = sorted(widths)
    lists = []
    for w in widths:
        kind = draw(st.sampled_from(['range', 'gap', 'perm', 'shift']))
        if kind == 'range':
            q = list(range(w))
        elif kind == 'shift':
            s = draw(st.integers(0, 3))
            q = list(range(s, s + w))
        else:
            q = draw(st.lists(st.integers(0, draw(st.sampled_from([7, 13]))), unique=True, min_size=w, max_size=w))
            if kind == 'gap':
                q = sorted(q)
        lists.append([int(x) for x in q])
    return {'lists': lists, 'trials': draw(st.integers(10, 12)) if many else draw(st.integers(1, 3)), 'seed': draw(st.one_of(st.none(), st.just(0), st.integers(0, 10 ** 6)))}


def gates(circ):
    return [(name, qs, inst) for name, inst, qs, _ in sim.flat_ops(circ) if name not in sim.SKIP and name != 'measure']


@facet('circuits', case(), quick=500, thorough=8000, shards=4, rule='a qubit list other than 0..n-1')
def circuits(c, ctx):
    lists = [list(q) for q in c['lists']]
    circs, ideal = qv_circuits(lists, c['trials'], seed=c['seed'])
    ctx.check(lists == c['lists'], 'qubit lists modified')
    ctx.check(len(circs) == c['trials'] == len(ideal), 'number of trials')
    names = []
    for t in range(c['trials']):
        ctx.check(len(circs[t]) == len(lists) == len(ideal[t]), 'number of circuits of trial %d', t)
        for q, a, b in zip(lists, circs[t], ideal[t]):
            w = len(q)
            ctx.check(a.name == b.name == 'qv_depth_%d_trial_%d' % (w, t), 'names %s and %s of width %d, trial %d', a.name, b.name, w, t)
            names.append(a.name)
            ctx.check(b.num_qubits == w and not any(o[0] == 'measure' for o in sim.ops(b)), 'ideal circuit of %d qubits for width %d', b.num_qubits, w)
            ga, gb = gates(a), gates(b)
            ctx.check(sum(len(x[1]) == 2 for x in gb) == w * (w // 2), '%d two-qubit gates in the square circuit of width %d', sum(len(x[1]) == 2 for x in gb), w)
            used = {x for g in ga for x in g[1]}
            ctx.check(used <= set(q), 'gates on qubits %s for the list %s', sorted(used), q)
            m = sim.measured_map(a)
            ctx.check(len(a.clbits) == w and sorted(m) == list(range(w)) and set(m.values()) == set(q), 'measurement %s of the list %s', m, q)
            # the restriction of the circuit to its listed qubits
            idx = {x: i for i, x in enumerate(q)}
            psi = np.zeros(2 ** w, dtype=complex)
            psi[0] = 1
            for _, qs, inst in ga:
                psi = sim.apply_matrix(psi, inst.to_matrix(), [idx[x] for x in qs], w)
            pm = sim.project(np.abs(psi) ** 2, {k: idx[v] for k, v in m.items()}, w)
            pb = np.abs(sim.statevector(b)) ** 2
            ctx.close([pm.get(v, 0.0) for v in range(2 ** w)], pb, 1e-9, 'outcome probabilities of %s on %s' % (a.name, q))
            ctx.close(float(np.sum(pb)), 1.0, 1e-9, 'norm')
    ctx.check(len(set(names)) == len(names), 'circuit names are not unique')
    if c['seed'] is not None:
        again = qv_circuits(lists, c['trials'], seed=c['seed'])
        for t in range(c['trials']):
            for i in range(len(lists)):
                for x, y in ((circs[t][i], again[0][t][i]), (ideal[t][i], again[1][t][i])):
                    gx, gy = gates(x), gates(y)
                    ctx.check([g[:2] for g in gx] == [g[:2] for g in gy] and
                              all(np.allclose(g[2].to_matrix(), h[2].to_matrix()) for g, h in zip(gx, gy)),
                              'seed %d gives other circuits when used again', c['seed'])
    ctx.nontrivial(any(q != list(range(len(q))) for q in lists))


@facet('independent', st.fixed_dictionaries({'seed': st.one_of(st.none(), st.just(0), st.integers(0, 10 ** 6)), 'w': st.integers(2, 4), 'many': st.sampled_from([30, 30, 60, 150])}),
       quick=60, thorough=600, rule='always')
def independent(c, ctx):
    """Trials and calls are drawn independently; other seeds give other circuits."""
    lists = [list(range(c['w'])), list(range(c['w'] + 1))]
    circs = qv_circuits(lists, 6, seed=c['seed'])[1]
    for i in range(2):
        states = [np.abs(sim.statevector(t[i])) ** 2 for t in circs]
        ctx.check(any(np.max(np.abs(s - states[0])) > 1e-6 for s in states[1:]), 'all trials of seed %s are the same circuit', c['seed'])
    many = qv_circuits([[0, 1]], c['many'], seed=c['seed'])[1]
    ps = [tuple(np.round(np.abs(sim.statevector(t[0])) ** 2, 6)) for t in many]
    ctx.check(len(set(ps[:30])) >= 15, 'only %d different circuits in 30 trials of seed %s', len(set(ps[:30])), c['seed'])
    for k in range(0, c['many'] - 14, 15):
        # the number of equal seeds (of a thousand) among the trials of a window and those before it is small
        new = set(ps[k:k + 15])
        ctx.check(len(new) >= 8 and len(new - set(ps[:k])) >= 2, 'trials %d to %d of seed %s repeat earlier circuits: %d different, %d new', k, k + 14,
                  c['seed'], len(new), len(new - set(ps[:k])))
    other = [qv_circuits(lists, 1, seed=None if c['seed'] is None else c['seed'] + k)[1][0][0] for k in range(1, 5)]
    ref = np.abs(sim.statevector(circs[0][0])) ** 2
    ctx.check(any(np.max(np.abs(np.abs(sim.statevector(o)) ** 2 - ref)) > 1e-6 for o in other), 'seed %s and the next four give the same circuit', c['seed'])
    ctx.nontrivial(True)
