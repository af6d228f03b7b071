"""Small independent simulators used as oracles.

Only the gate matrices (Instruction.to_matrix) and the circuit container are taken from
qiskit-terra; nothing comes from qiskit-ignis or Aer.
"""
import numpy as np

SKIP = ('barrier', 'snapshot', 'delay')


def bit_index(circ):
    return ({q: i for i, q in enumerate(circ.qubits)}, {c: i for i, c in enumerate(circ.clbits)})


def ops(circ):
    """[(name, instruction, [qubit indices], [clbit indices])]"""
    qi, ci = bit_index(circ)
    return [(inst.name, inst, [qi[q] for q in qs], [ci[c] for c in cs])
            for inst, qs, cs in circ.data]


def flat_ops(circ):
    """ops with every unitary composite (gates without own matrix) expanded."""
    out = []
    for name, inst, qs, cs in ops(circ):
        out.extend(_flatten(name, inst, qs, cs))
    return out


def _flatten(name, inst, qs, cs):
    if name in SKIP or name in ('measure', 'reset'):
        return [(name, inst, qs, cs)]
    try:
        inst.to_matrix()
        return [(name, inst, qs, cs)]
    except Exception:  # pylint: disable=broad-except
        pass
    out = []
    defn = inst.definition
    qmap = {q: i for i, q in enumerate(defn.qubits)}
    cmap = {c: i for i, c in enumerate(defn.clbits)}
    for sub, sqs, scs in defn.data:
        out.extend(_flatten(sub.name, sub, [qs[qmap[q]] for q in sqs], [cs[cmap[c]] for c in scs]))
    return out


def apply_matrix(state, mat, qs, n):
    """state: array whose first axis has dimension 2**n (little endian qubit order)."""
    k = len(qs)
    extra = state.shape[1:]
    t = state.reshape([2] * n + list(extra))
    axes = [n - 1 - q for q in reversed(qs)]
    m = np.asarray(mat).reshape([2] * (2 * k))
    t = np.tensordot(m, t, axes=(list(range(k, 2 * k)), axes))
    t = np.moveaxis(t, list(range(k)), axes)
    return t.reshape((2 ** n,) + extra)


def unitary(circ):
    """Dense unitary of the circuit ignoring measurement and barriers."""
    n = circ.num_qubits
    u = np.eye(2 ** n, dtype=complex)
    for name, inst, qs, _ in flat_ops(circ):
        if name in SKIP or name == 'measure':
            continue
        u = apply_matrix(u, inst.to_matrix(), qs, n)
    return u


def statevector(circ, init=None):
    n = circ.num_qubits
    psi = np.zeros(2 ** n, dtype=complex)
    psi[0] = 1
    if init is not None:
        psi = np.array(init, dtype=complex)
    for name, inst, qs, _ in flat_ops(circ):
        if name in SKIP or name == 'measure':
            continue
        psi = apply_matrix(psi, inst.to_matrix(), qs, n)
    return psi


def measured_map(circ):
    """{clbit index: qubit index} for terminal measurements (asserts they are terminal)."""
    m = {}
    done = set()
    for name, _, qs, cs in ops(circ):
        if name == 'measure':
            m[cs[0]] = qs[0]
            done.add(qs[0])
        elif name not in SKIP:
            if done.intersection(qs):
                raise ValueError('mid-circuit measurement')
    return m


def clbit_probs(circ, psi=None):
    """Exact outcome distribution over all clbits: {int value of clbits: prob}.

    Unmeasured clbits read 0."""
    n = circ.num_qubits
    if psi is None:
        psi = statevector(circ)
    p = np.abs(psi) ** 2
    return project(p, measured_map(circ), n)


def project(p, cmap, n):
    out = {}
    idx = np.arange(2 ** n)
    val = np.zeros(2 ** n, dtype=np.int64)
    for c, q in cmap.items():
        val |= ((idx >> q) & 1) << c
    for v in np.unique(val):
        out[int(v)] = float(p[val == v].sum())
    return out


def dist(circ, psi=None, tol=1e-12):
    """Distribution keyed by the formatted bit string (spaces between cregs)."""
    return {fmt(circ, v): p for v, p in clbit_probs(circ, psi).items() if p > tol}


def fmt(circ, value):
    s = format(value, '0%db' % len(circ.clbits)) if circ.clbits else ''
    out = []
    pos = len(s)
    for creg in circ.cregs:
        out.append(s[pos - creg.size:pos])
        pos -= creg.size
    return ' '.join(reversed(out))


# ---------------------------------------------------------------- density matrices

def apply_kraus(rho, kraus, qs, n):
    out = 0
    for k in kraus:
        a = apply_matrix(rho, k, qs, n)
        a = apply_matrix(a.conj().T, k, qs, n).conj().T
        out = out + a
    return out


def density(circ, noise=None, rho=None, n=None, qubit_of=None):
    """Density matrix after the circuit.  noise: {gate name: f(inst, qs) -> list of (kraus, qs)}
    applied after the gate (after the ideal matrix)."""
    n = circ.num_qubits
    if rho is None:
        rho = np.zeros((2 ** n, 2 ** n), dtype=complex)
        rho[0, 0] = 1
    for name, inst, qs, _ in flat_ops(circ):
        if name in SKIP or name == 'measure':
            continue
        rho = apply_kraus(rho, [inst.to_matrix()], qs, n)
        if noise and name in noise:
            for kraus, nq in noise[name](inst, qs):
                rho = apply_kraus(rho, kraus, nq, n)
    return rho


# ---------------------------------------------------------------- classical interpretation

def classical_bits(circ, faults=None, meas_faults=()):
    """Run a circuit made of x / cx / id / barrier / measure / reset (and if-less) on basis states.

    faults: {op position: [qubits to flip before that op]}; meas_faults: op positions of measures
    whose recorded value is flipped.  Returns (qubit bits, clbit bits)."""
    q = [0] * circ.num_qubits
    c = [0] * len(circ.clbits)
    for pos, (name, inst, qs, cs) in enumerate(ops(circ)):
        for f in (faults or {}).get(pos, ()):
            q[f] ^= 1
        if name in SKIP or name == 'id':
            continue
        cond = getattr(inst, 'condition', None)
        if cond is not None:
            raise ValueError('conditional instruction')
        if name == 'x':
            q[qs[0]] ^= 1
        elif name == 'cx':
            q[qs[1]] ^= q[qs[0]]
        elif name == 'measure':
            c[cs[0]] = q[qs[0]] ^ (1 if pos in meas_faults else 0)
        elif name == 'reset':
            q[qs[0]] = 0
        else:
            raise ValueError('not classical: ' + name)
    return q, c


# ---------------------------------------------------------------- random objects from a seed

def rs(seed):
    return np.random.RandomState(seed % (2 ** 32))


def rand_unitary(d, r):
    z = r.normal(size=(d, d)) + 1j * r.normal(size=(d, d))
    q, t = np.linalg.qr(z)
    ph = np.diag(t) / np.abs(np.diag(t))
    return q * ph


def rand_state(d, r):
    z = r.normal(size=d) + 1j * r.normal(size=d)
    return z / np.linalg.norm(z)


def rand_density(d, r, rank=None):
    rank = rank or d
    z = r.normal(size=(d, rank)) + 1j * r.normal(size=(d, rank))
    m = z @ z.conj().T
    return m / np.trace(m).real


def rand_kraus(d, r, k=2):
    z = rand_unitary(d * k, r)[:, :d]
    return [z[i * d:(i + 1) * d, :] for i in range(k)]
