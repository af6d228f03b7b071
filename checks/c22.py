"""C22: entanglement analysis computes exact parities, spectra and fidelities."""
import contextlib
import io

import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np
from hypothesis import strategies as st
from qiskit.ignis.verification import entanglement as ent

import sim
from harness import facet

ASSUMPTIONS = ['phases are equally spaced over a full turn, with more than two points per oscillation']


@facet('parity', st.one_of(st.integers(1, 7), st.integers(8, 11)).flatmap(lambda n: st.fixed_dictionaries({
    'n': st.just(n), 'counts': st.dictionaries(st.integers(0, 2 ** n - 1).map(lambda v: format(v, '0%db' % n)), st.integers(0, 5000), max_size=20),
    'norm': st.booleans()})), quick=400, thorough=6000, shards=2, rule='several outcomes')
def parity(c, ctx):
    n, counts = c['n'], dict(c['counts'])
    if c['norm'] and sum(counts.values()):
        tot = sum(counts.values())
        counts = {k: v / tot for k, v in counts.items()}
    keep = dict(counts)
    lst = ent.ordered_list_generator(counts, n)
    ctx.close(np.asarray(lst, dtype=float), [counts.get(format(v, '0%db' % n), 0) for v in range(2 ** n)], 1e-12, 'ordered counts')
    z = ent.composite_pauli_z(n)
    ctx.close(np.asarray(z), np.diag([(-1) ** bin(v).count('1') for v in range(2 ** n)]), 0, 'tensor power of Z')
    want = sum(v * (-1) ** k.count('1') for k, v in counts.items())
    ctx.close(float(ent.composite_pauli_z_expvalue(counts, n)), want, 1e-9 * max(1, abs(want)), 'parity of %s' % counts)
    ctx.check(counts == keep, 'counts modified')
    ctx.nontrivial(len(counts) > 1)


@st.composite
def signal_case(draw):
    n = draw(st.one_of(st.integers(1, 8), st.integers(9, 20)))
    return {'n': n, 'points': draw(st.integers(2 * n + 1, 4 * n + 8)), 'seed': draw(st.integers(0, 10 ** 6)),
            'harmonics': draw(st.booleans()), 'label': draw(st.sampled_from(['mqc', 'po']))}


def signal(r, n, x, harmonics, c, what):
    """parity or ground-state signal of a GHZ-like state with coherence |rho_0n| = c/2 and other harmonics below n."""
    if what == 'po':
        y = c * np.cos(n * x + r.uniform(0, 6))
        base = 0.0
    else:
        base = 0.25 + c * c / 4
        y = base + c * c / 2 * np.cos(n * x)
    amps = np.zeros(n)
    if harmonics:
        for m in range(1, n):
            amps[m] = r.uniform(0, 0.2 / n)
            y = y + amps[m] * np.cos(m * x + r.uniform(0, 6))
    return y, base


@facet('fourier', signal_case(), quick=300, thorough=4000, shards=4, rule='at least two qubits')
def fourier(c, ctx):
    r = np.random.RandomState(c['seed'])
    n, num = c['n'], c['points']
    x = np.linspace(0, 2 * np.pi, num, endpoint=False)
    ca, cm = r.uniform(0.05, 1), r.uniform(0.05, 1)
    y, b = signal(r, n, x, c['harmonics'], ca, c['label'])
    ym, bm = signal(r, n, x, c['harmonics'], cm, c['label'])
    p = {'P0': r.uniform(0, 0.5), 'P1': r.uniform(0, 0.5), 'P0_m': r.uniform(0, 0.5), 'P1_m': r.uniform(0, 0.5)}
    keep = (x.copy(), y.copy(), ym.copy(), dict(p))
    plot = ent.Plotter(c['label'])
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            out = plot.get_fourier_info(n, x, y, ym, p)
        lines = plt.gca().get_lines()
        ctx.check(len(lines) >= 2, 'the spectra are not plotted')
        freq = np.asarray(lines[0].get_xdata(), dtype=float)
        spec = np.asarray(lines[0].get_ydata(), dtype=float)
        want = np.array([abs(np.mean(y * np.exp(-1j * f * x))) for f in freq])
        ctx.close(spec, want, 1e-9, 'plotted spectrum')
        plt.close('all')
        plot.sin_plotter(x, y, ym)
        lines = plt.gca().get_lines()
        ctx.check(len(lines) == 2 and np.allclose(lines[0].get_ydata(), y) and np.allclose(lines[1].get_ydata(), ym) and
                  np.allclose(lines[0].get_xdata(), x), 'plotted signals')
    finally:
        plt.close('all')
    ctx.check(all(np.array_equal(a, b_) for a, b_ in zip(keep[:3], (x, y, ym))) and p == keep[3], 'input modified')
    if c['label'] == 'po':
        ctx.close(abs(out['In']), ca / 2, 1e-9, 'component of frequency n')
        ctx.close(abs(out['In_m']), cm / 2, 1e-9, 'mitigated component of frequency n')
        ctx.close(float(out['F']), (p['P0'] + p['P1'] + ca) / 2, 1e-9, 'raw fidelity')
        ctx.close(float(out['F_m']), (p['P0_m'] + p['P1_m'] + cm) / 2, 1e-9, 'mitigated fidelity')
    else:
        for sfx, amp, base in (('', ca, b), ('_m', cm, bm)):
            ctx.close(abs(out['I0' + sfx]), base, 1e-9, 'mean component%s' % sfx)
            ctx.close(abs(out['In' + sfx]), amp * amp / 4, 1e-9, 'component of frequency n%s' % sfx)
            ctx.close(float(out['LB' + sfx]), amp, 1e-7, 'lower bound%s' % sfx)
            ctx.close(float(out['UB' + sfx]), amp / 2 + np.sqrt(base / 2), 1e-7, 'upper bound%s' % sfx)
            ctx.close(float(out['F' + sfx]), (p['P0' + sfx] + p['P1' + sfx]) / 2 + amp / 2, 1e-7, 'fidelity%s' % sfx)
    ctx.nontrivial(n > 1)


def zpow(n, delta):
    return np.array([np.exp(1j * delta * bin(v).count('1')) for v in range(2 ** n)])


@facet('states', st.fixed_dictionaries({'n': st.integers(1, 5), 'seed': st.integers(0, 10 ** 6), 'kind': st.sampled_from(['ghz', 'noisy', 'random', 'subspace'])}),
       quick=200, thorough=3000, shards=2, rule='not the ideal state')
def states(c, ctx):
    """End to end: density matrix -> signals -> fidelity, and rho_to_fidelity against the definition."""
    n, d = c['n'], 2 ** c['n']
    r = np.random.RandomState(c['seed'])
    g = np.zeros(d, dtype=complex)
    g[0] = 1 / np.sqrt(2)
    g[-1] = np.exp(1j * r.uniform(0, 6)) / np.sqrt(2)
    if c['kind'] == 'ghz':
        rho = np.outer(g, g.conj())
    elif c['kind'] == 'noisy':
        q = r.uniform(0, 1)
        rho = q * np.outer(g, g.conj()) + (1 - q) * np.eye(d) / d
    elif c['kind'] == 'subspace':
        s = sim.rand_density(2, r)
        rho = np.zeros((d, d), dtype=complex)
        rho[np.ix_([0, d - 1], [0, d - 1])] = s
    else:
        rho = sim.rand_density(d, r)
    best = 0.5 * (rho[0, 0] + rho[-1, -1]).real + abs(rho[0, -1])           # overlap with the closest GHZ state of any phase
    grid = []
    for ph in np.linspace(0, 2 * np.pi, 721):
        v = np.zeros(d, dtype=complex)
        v[0], v[-1] = 1 / np.sqrt(2), np.exp(1j * ph) / np.sqrt(2)
        grid.append(np.real(v.conj() @ rho @ v))
    ctx.check(abs(max(grid) - best) < 1e-4, 'oracle')
    ctx.close(float(ent.rho_to_fidelity(rho)), best, 1e-9, 'fidelity of the density matrix')
    if c['kind'] == 'ghz':
        ctx.close(float(ent.rho_to_fidelity(rho)), 1.0, 1e-9, 'fidelity of a GHZ state')
    # parity oscillation signal of rho
    num = 2 * n + 3
    x = np.linspace(0, 2 * np.pi, num, endpoint=False)
    y = []
    for ph in x:
        u = np.array([[1, -np.exp(-1j * ph)], [np.exp(1j * ph), 1]]) / np.sqrt(2)      # u2(ph, -ph)
        full = np.eye(1)
        for _ in range(n):
            full = np.kron(full, u)
        probs = np.real(np.diag(full @ rho @ full.conj().T))
        y.append(ent.composite_pauli_z_expvalue({format(v, '0%db' % n): float(probs[v]) for v in range(d)}, n))
    y = np.array(y)
    p = {'P0': rho[0, 0].real, 'P1': rho[-1, -1].real, 'P0_m': 0.5, 'P1_m': 0.5}
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            out = ent.Plotter('po').get_fourier_info(n, x, y, y, p)
    finally:
        plt.close('all')
    ctx.close(float(out['F']), best, 1e-7, 'fidelity from parity oscillations')
    ctx.nontrivial(c['kind'] != 'ghz')
