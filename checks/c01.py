"""C01: measurement-calibration circuits prepare and measure exactly the labelled states."""
from hypothesis import strategies as st
from qiskit import QuantumRegister, ClassicalRegister, QiskitError
from qiskit.ignis.mitigation.measurement import complete_meas_cal, tensored_meas_cal

import sim
from harness import facet

ASSUMPTIONS = ['calibration circuits contain only basis-state preparation (x/id), barriers and measurements']

LABEL = st.sampled_from(['', 'a', 'mcal', 'x_', 'cal_', 'run 7 '])


@st.composite
def layout(draw, tensored):
    nq = draw(st.one_of(st.integers(1, 7), st.integers(8, 14)))
    perm = draw(st.permutations(list(range(nq))))
    k = draw(st.integers(1, min(draw(st.sampled_from([5, 8 if tensored else 6])), nq)))
    qubits = list(perm[:k])
    pattern = [qubits]
    if tensored:
        pattern = []
        rest = list(qubits)
        while rest:
            s = draw(st.integers(1, min(draw(st.sampled_from([3, 3, 5])), len(rest))))
            pattern.append(rest[:s])
            rest = rest[s:]
    return {'pattern': pattern, 'label': draw(LABEL),
            'qr': draw(st.sampled_from(['none', 'int', 'reg'])), 'qr_extra': draw(st.integers(0, 2)),
            'cr': draw(st.sampled_from(['none', 'int', 'reg'])), 'cr_extra': draw(st.integers(0, 2)),
            'full': draw(st.booleans()) if not tensored or len(pattern) == 1 else False}


def build(case, tensored):
    pattern = [list(p) for p in case['pattern']]
    flat = [q for p in pattern for q in p]
    nq = max(flat) + 1
    kwargs = {}
    if case['qr'] == 'int':
        nq += case['qr_extra']
        kwargs['qr'] = nq
    elif case['qr'] == 'reg':
        nq += case['qr_extra']
        kwargs['qr'] = QuantumRegister(nq, 'myq')
    if case['cr'] == 'int':
        kwargs['cr'] = len(flat) + case['cr_extra']
    elif case['cr'] == 'reg':
        kwargs['cr'] = ClassicalRegister(len(flat) + case['cr_extra'], 'myc')
    if case['label'] or case['qr_extra']:
        kwargs['circlabel'] = case['label']
    implicit = case['full'] and case['qr'] != 'none' and nq <= 7
    if implicit:
        kwargs.pop('cr', None)
        flat = list(range(nq))
        pattern = [flat]
        if tensored:
            out = tensored_meas_cal(**kwargs)
        else:
            out = complete_meas_cal(**kwargs)
    elif tensored:
        out = tensored_meas_cal([list(p) for p in pattern], **kwargs)
    else:
        out = complete_meas_cal(list(pattern[0]), **kwargs)
    return out, pattern, flat, nq


def judge(circ, pattern, flat, nq, case, ctx):
    """Returns the label the circuit carries after checking that it prepares and measures it."""
    prefix = case['label'] if (case['label'] or case['qr_extra']) else ''
    n = len(flat)
    name = circ.name
    ctx.check(name.startswith(prefix + 'cal_'), 'circuit name %r lacks the prefix', name)
    label = name[len(prefix + 'cal_'):]
    ctx.check(len(label) == n and set(label) <= {'0', '1'}, 'bad label in name %r', name)
    ctx.check(circ.num_qubits == nq, 'circuit has %s qubits, expected %s', circ.num_qubits, nq)
    want_c = n
    if case['cr'] != 'none' and not (case['full'] and case['qr'] != 'none' and nq <= 7):
        want_c += case['cr_extra']
    ctx.check(len(circ.clbits) == want_c, 'circuit has %s clbits expected %s', len(circ.clbits), want_c)
    qb, cb = sim.classical_bits(circ)
    cmap = sim.measured_map(circ)
    ctx.check(cmap == {j: q for j, q in enumerate(flat)},
              'measurement map %s for qubits %s', cmap, flat)
    for j, q in enumerate(flat):
        ctx.check(qb[q] == int(label[n - 1 - j]), 'label %s: qubit %s prepared in %s', label, q, qb[q])
        ctx.check(cb[j] == int(label[n - 1 - j]), 'label %s: clbit %s reads %s', label, j, cb[j])
    for q in range(nq):
        if q not in flat:
            ctx.check(qb[q] == 0, 'unlisted qubit %s was changed', q)
            ctx.check(all(q not in qs for nm, _, qs, _ in sim.ops(circ) if nm not in sim.SKIP),
                      'unlisted qubit %s is acted on', q)
    return label


@facet('complete', layout(False), 400, 4000,
       'generated qubit list, registers and label; non-trivial: qubits not simply 0..n-1, or user registers', shards=2)
def complete(case, ctx):
    (circs, labels), pattern, flat, nq = build(case, False)
    n = len(flat)
    ctx.nontrivial(flat != list(range(nq)) or case['qr'] == 'reg' or case['cr'] == 'reg')
    ctx.check(len(circs) == 2 ** n, '%s circuits for %s qubits', len(circs), n)
    got = [judge(c, pattern, flat, nq, case, ctx) for c in circs]
    ctx.check(sorted(got) == [format(i, '0%db' % n) for i in range(2 ** n)], 'labels %s', got)
    ctx.check(list(labels) == got, 'state labels %s but circuits %s', labels, got)
    ctx.check(len({c.name for c in circs}) == len(circs), 'duplicate names')


@facet('tensored', layout(True), 900, 4000,
       'generated block pattern; non-trivial: at least two blocks', shards=2)
def tensored(case, ctx):
    (circs, back), pattern, flat, nq = build(case, True)
    n = len(flat)
    ctx.nontrivial(len(pattern) > 1)
    if len({len(p) for p in pattern}) > 1:
        ctx.label('mixed block sizes')
    ctx.check([list(p) for p in back] == pattern, 'returned pattern %s expected %s', back, pattern)
    ctx.check(len(circs) == 2 ** max(len(p) for p in pattern), '%s circuits', len(circs))
    got = [judge(c, pattern, flat, nq, case, ctx) for c in circs]
    ctx.check(len(set(got)) == len(got), 'duplicate labels %s', got)
    pos = 0
    for block in pattern:
        k = len(block)
        sub = {g[n - pos - k:n - pos] for g in got}
        ctx.check(len(sub) == 2 ** k, 'block %s covered by %s', block, sub)
        # every basis state of a block is prepared equally often
        counts = {s: sum(1 for g in got if g[n - pos - k:n - pos] == s) for s in sub}
        ctx.check(len(set(counts.values())) == 1, 'block %s is covered unevenly: %s', block, counts)
        pos += k


@facet('rejects', st.fixed_dictionaries({'qubits': st.lists(st.integers(0, 4), min_size=1, max_size=4),
                                          'dup': st.integers(0, 3), 'cut': st.integers(0, 3)}), 60, 500,
       'a qubit listed twice, or no qubits named at all; non-trivial: duplicate across blocks')
def rejects(case, ctx):
    qs = list(dict.fromkeys(case['qubits']))
    dup = qs + [qs[case['dup'] % len(qs)]]
    cut = 1 + case['cut'] % (len(dup) - 1) if len(dup) > 1 else 1
    ctx.nontrivial(True)
    ctx.raises(QiskitError, lambda: tensored_meas_cal([dup[:cut], dup[cut:]]), 'duplicate qubit accepted')
    ctx.raises(QiskitError, lambda: tensored_meas_cal(), 'no qubits accepted')
    ctx.raises(QiskitError, lambda: complete_meas_cal(), 'no qubits accepted')
