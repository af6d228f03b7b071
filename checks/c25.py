"""C25: pulse-calibration fits recover amplitudes from averaged or raw IQ data; schedules play the requested pulses."""
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np
from hypothesis import strategies as st
from qiskit import QiskitError
from qiskit.pulse import Acquire, ControlChannel, DriveChannel, MeasureChannel, Play, Schedule, ShiftPhase, Waveform
from qiskit.pulse import library as plib
from qiskit.pulse.macros import measure
from qiskit.pulse.schedule import ParameterizedSchedule
from qiskit.ignis.characterization.calibrations import DragFitter, RabiFitter, drag_schedules, rabi_schedules
from qiskit.ignis.characterization.calibrations import ibmq_utils
from qiskit.result.models import ExperimentResult, ExperimentResultData
from qiskit.qobj import QobjExperimentHeader
from qiskit.test.mock import FakeOpenPulse2Q, FakeOpenPulse3Q

import qres
from harness import facet

ASSUMPTIONS = ['the mean IQ points of an experiment lie on a line (two-level signal); the initial guess is near the truth']
_B = {2: FakeOpenPulse2Q(), 3: FakeOpenPulse3Q()}


def device(n):
    b = _B[n]
    return b, [b.configuration().drive(i) for i in range(n)], b.defaults().instruction_schedule_map, b.configuration().meas_map


def iq_exp(name, mem, shots, ret):
    """mem: complex array [slots] (avg) or [shots, slots] (single)"""
    mem = np.asarray(mem)
    data = np.stack([mem.real, mem.imag], axis=-1).tolist()
    slots = mem.shape[-1]
    return ExperimentResult(shots=int(shots), success=True, meas_level=1, meas_return=ret,
                            data=ExperimentResultData(memory=data),
                            header=QobjExperimentHeader(name=name, memory_slots=slots, creg_sizes=[['c', slots]]))


@st.composite
def fit_case(draw, kind):
    n = draw(st.sampled_from([1, 2, 3, 3, 5]))
    return {'kind': kind, 'n': n, 'seed': draw(st.integers(0, 10 ** 6)), 'ret': draw(st.sampled_from(['avg', 'single'])),
            'parts': draw(st.sampled_from([1, 2, 3, 6])), 'dirs': draw(st.lists(st.floats(0, 6.28), min_size=n, max_size=n)),
            'list': draw(st.booleans()), 'points': draw(st.integers(16, 30)), 'up': draw(st.booleans())}


def signal(kind, r, n, x, up):
    """per qubit: signal values over x, and the fit parameters of that signal"""
    sig, par = [], []
    for _ in range(n):
        if kind == 'rabi':
            f = float(r.uniform(0.6, 2.5))
            sig.append(np.cos(2 * np.pi * f * x))
            par.append(f)
        else:
            x0 = float(r.uniform(-1, 1))
            sig.append((0.1 if up else -0.1) * (x - x0) ** 2)
            par.append(x0)
    return np.array(sig), par


def fit_body(c, ctx):
    r = np.random.RandomState(c['seed'])
    kind, n = c['kind'], c['n']
    x = np.linspace(-1, 1, c['points']) if kind == 'rabi' else np.linspace(-3, 3, c['points'])
    sig, par = signal(kind, r, n, x, c['up'])
    offs = r.normal(size=n) * 5 + 1j * r.normal(size=n) * 5
    gain = r.uniform(0.5, 20, size=n)
    base = 'rabisched' if kind == 'rabi' else 'dragsched'
    iq = offs[:, None] + (gain * np.exp(1j * np.array(c['dirs'])))[:, None] * sig      # [qubit, point]
    results, pooled = [], np.zeros((n, len(x)), dtype=complex)
    every = [[] for _ in x]
    shots = r.randint(3, 9, size=(c['parts'], len(x)))
    if c['ret'] == 'single' and c['seed'] % 2:
        shots[:] = 5
    for part in range(c['parts']):
        exps = []
        for i in range(len(x)):
            k = int(shots[part, i])
            # each part is off by a drift that cancels in the pooled mean
            if part < c['parts'] - 1:
                d = r.normal(size=n) + 1j * r.normal(size=n)
                pooled[:, i] += k * d
            else:
                d = -pooled[:, i] / k
            m = iq[:, i] + d
            if c['ret'] == 'single':
                noise = r.normal(size=(k, n)) + 1j * r.normal(size=(k, n))
                noise -= noise.mean(axis=0)
                mem = m[None, :] + 0.3 * noise
                every[i].extend(mem)
            else:
                mem = m
            exps.append(iq_exp('%s_%d_0' % (base, i), mem, k, c['ret']))
        results.append(qres.result([exps[j] for j in r.permutation(len(exps))]))
    keep = [res.to_dict() for res in results]
    cls = RabiFitter if kind == 'rabi' else DragFitter
    p0 = [1, 1, 0, 0] if kind == 'rabi' else [1, 0, 0]
    fit = cls(None, list(x) if c['list'] else x, list(range(n)), p0)
    for i, res in enumerate(results):
        fit.add_data(res, recalc=i == len(results) - 1, refit=False)
    for q in range(n):
        y = np.asarray(fit.ydata['0'][q]['mean'])
        ctx.check(y.shape == x.shape and not np.iscomplexobj(y), 'projected signal')
        cen = gain[q] * (sig[q] - sig[q].mean())
        tol = 1e-6 * gain[q] * np.ptp(sig[q])
        ctx.check(np.allclose(y, cen, rtol=0, atol=tol) or np.allclose(y, -cen, rtol=0, atol=tol),
                  'the projection is not the full signal along its line (direction %.3f): %s for %s' % (c['dirs'][q], y[:6], cen[:6]))
        if c['ret'] == 'single':
            ctx.close(np.asarray(fit.ydata['0'][q]['std']), [np.std(np.array(v)[:, q]) for v in every], 1e-9, 'spread of the shots')
        ctx.check(len(fit.ydata['0'][q]['std']) == len(x) and np.all(np.asarray(fit.ydata['0'][q]['std']) > 0), 'deviations')
        sgn = 1 if np.allclose(y, cen, rtol=0, atol=tol) else -1
        if kind == 'rabi':
            start = [sgn * gain[q] * .9, par[q] * r.uniform(.93, 1.07), 0.1, float(y.mean()) - sgn * gain[q] * sig[q].mean()]
            fit.fit_data(qid=q, p0=start)
            ctx.close(float(fit.params['0'][q][1]), par[q], 1e-4 * par[q], 'oscillation frequency')
        else:
            fit.fit_data(qid=q, p0=[sgn * gain[q] * (.08 if c['up'] else -.08), par[q] + r.uniform(-.3, .3), 0.0])
            ctx.close(float(fit.drag_amplitude(q)), par[q], 1e-4, 'optimum drag parameter')
    if kind == 'rabi':
        want = [1 / (2 * f) for f in par]
        ctx.close(np.asarray(fit.pi_amplitude()), want, 1e-3, 'pi amplitudes')
        ctx.close([float(fit.pi_amplitude(q)) for q in range(n)], want, 1e-3, 'pi amplitude')
        ctx.close(np.asarray(fit.pi2_amplitude()), np.array(want) / 2, 1e-3, 'pi/2 amplitudes')
        ctx.close([float(fit.pi2_amplitude(q)) for q in range(n)], np.array(want) / 2, 1e-3, 'pi/2 amplitude')
        for q in range(n):
            g = fit.guess_params(q)
            binw = 1 / (len(x) * (x[1] - x[0]))
            ctx.check(abs(abs(g[1]) - par[q]) <= 1.3 * binw, 'frequency guess %s for %s', g[1], par[q])
    else:
        ctx.close(np.asarray(fit.drag_amplitude(), dtype=float), par, 1e-4, 'optimum drag parameters')
        for q in range(n):
            g = fit.guess_params(q)
            ctx.check(abs(g[1] - par[q]) <= (x[1] - x[0]) * 0.51 + 1e-9, 'optimum guess %s for %s', g[1], par[q])
            fit.fit_data(qid=q, p0=g)
            ctx.close(float(fit.drag_amplitude(q)), par[q], 1e-4, 'optimum from the guess')
    # the same with all results handed over at once
    one = cls(None, x, list(range(n)), p0)
    one.add_data(results, refit=False)
    for q in range(n):
        ctx.close(np.asarray(one.ydata['0'][q]['mean']), np.asarray(fit.ydata['0'][q]['mean']), 1e-9 * gain[q] + 1e-9, 'data of all results at once')
    if n == 1:
        one = cls(results if c['parts'] > 1 else results[0], x, [0], [float(v) for v in fit.params['0'][0] * 0.98])
        ctx.close(float(one.params['0'][0][1]), par[0], 1e-4 * max(1, abs(par[0])), 'fit by the constructor')
    ctx.check([res.to_dict() for res in results] == keep, 'results were modified')
    if c['seed'] % 5 == 0:
        ax = fit.plot(n - 1)
        data = [ln for ln in ax.get_lines() if len(ln.get_xdata()) == len(x)]
        ctx.close(np.asarray(data[0].get_ydata(), dtype=float), fit.ydata['0'][n - 1]['mean'], 1e-9, 'plotted data')
        plt.close('all')
    ctx.nontrivial(n > 1)
    ctx.label(c['ret'])


facet('rabi_fit', fit_case('rabi'), quick=250, thorough=4000, shards=4, rule='several qubits')(fit_body)
facet('drag_fit', fit_case('drag'), quick=250, thorough=4000, shards=4, rule='several qubits')(fit_body)


@st.composite
def bad_case(draw):
    return {'kind': draw(st.sampled_from(['rabi', 'drag'])), 'what': draw(st.sampled_from(['level', 'mixed', 'mixed2'])),
            'at': draw(st.integers(0, 4)), 'n': draw(st.integers(1, 2))}


@facet('rejects', bad_case(), quick=80, thorough=600, rule='always')
def rejects(c, ctx):
    base = 'rabisched' if c['kind'] == 'rabi' else 'dragsched'
    x = np.linspace(-1, 1, 5)
    exps = []
    for i in range(5):
        bad = i == c['at']
        if c['what'] == 'level' and bad:
            exps.append(qres.experiment('%s_%d_0' % (base, i), {'0': 5}, [('c', c['n'])]))
            continue
        ret = 'avg' if (c['what'] == 'mixed2') == bad and c['what'] != 'level' else 'single'
        mem = np.ones(c['n']) * i if ret == 'avg' else np.ones((4, c['n'])) * i
        exps.append(iq_exp('%s_%d_0' % (base, i), mem, 4, ret))
    cls = RabiFitter if c['kind'] == 'rabi' else DragFitter
    split = qres.result(exps) if c['n'] == 1 else [qres.result(exps[:2]), qres.result(exps[2:])]
    ctx.raises(QiskitError, lambda: cls(split, x, list(range(c['n'])), [1, 1, 0, 0] if c['kind'] == 'rabi' else [1, 0, 0]),
               'data that is not IQ data of one kind was accepted (%s)' % c['what'])
    ctx.nontrivial()


@st.composite
def sched_case(draw, kind):
    dev = draw(st.sampled_from([2, 3]))
    n = draw(st.integers(1, dev))
    return {'kind': kind, 'dev': dev, 'qubits': draw(st.permutations(list(range(dev))))[:n], 'seed': draw(st.integers(0, 10 ** 6)),
            'width': draw(st.integers(8, 160)), 'sigma': draw(st.one_of(st.none(), st.floats(2, 40))), 'ratio': draw(st.sampled_from([None, 3, 4, 6])),
            'points': draw(st.integers(6, 14))}


def plays(sched, ch):
    out = []
    for t, inst in sched.instructions:
        if isinstance(inst, Play) and inst.channel == ch:
            p = inst.pulse if isinstance(inst.pulse, Waveform) else inst.pulse.get_sample_pulse()
            out.append((t, np.asarray(p.samples)))
    return sorted(out, key=lambda e: e[0])


def schedules(c, ctx):
    r = np.random.RandomState(c['seed'])
    backend, drives, inst_map, meas_map = device(c['dev'])
    order = np.arange(c['points']) if c['seed'] % 3 else r.permutation(c['points'])      # the swept values in any order
    qs, w = c['qubits'], c['width']
    kw = dict(drives=drives, inst_map=inst_map, meas_map=meas_map)
    if c['sigma'] is not None:
        kw['pulse_sigma'] = c['sigma']
    if c['ratio'] is not None:
        kw['width_sigma_ratio'] = c['ratio']
    sigma = c['sigma'] if c['sigma'] is not None else w / (c['ratio'] or 4)
    rabi = c['kind'] == 'rabi'
    if rabi:
        x = (np.linspace(-1, 1, c['points']) * r.uniform(.3, .95))[order]
        scheds, xd = rabi_schedules(list(x) if c['seed'] % 2 else x, qs, w, **kw)
        total = w
    else:
        # small enough that no sample exceeds one
        x = (np.linspace(-1, 1, c['points']) * r.uniform(.3, .9) * sigma * 0.5)[order]
        amps = [float(a) for a in r.uniform(.1, .5, size=len(qs)) * np.where(r.rand(len(qs)) < .3, -1, 1)]
        scheds, xd = drag_schedules(list(x) if c['seed'] % 2 else x, qs, amps, w, **kw)
        total = 2 * w
    lacking = dict(kw)
    lacking['inst_map' if c['seed'] % 3 else 'meas_map'] = None
    ctx.raises(QiskitError, lambda: rabi_schedules(list(x), qs, w, **lacking) if rabi else drag_schedules(list(x), qs, amps, w, **lacking),
               'schedules without an instruction or measurement map')
    ctx.check(len(scheds) == len(x), 'number of schedules')
    ctx.close(np.asarray(xd, dtype=float), x, 1e-12, 'swept values')
    slots = {}
    for i, s in enumerate(scheds):
        ctx.check(s.name == ('rabisched_%d_0' if rabi else 'dragsched_%d_0') % i, 'schedule name %s', s.name)
        for d in range(c['dev']):
            got = plays(s, drives[d])
            if d not in qs:
                ctx.check(not got, 'a pulse on qubit %d that was not asked for', d)
                continue
            if rabi:
                want = [plib.gaussian(duration=w, amp=x[i], sigma=sigma).samples]
            else:
                a = amps[qs.index(d)]
                want = [plib.drag(duration=w, amp=a, beta=x[i], sigma=sigma).samples,
                        plib.drag(duration=w, amp=-a, beta=x[i], sigma=sigma).samples]
            ctx.check(len(got) == len(want), '%d pulses on qubit %d', len(got), d)
            for k, (t, smp) in enumerate(got):
                ctx.check(t == k * w, 'pulse %d starts at %d', k, t)
                ctx.close(smp, want[k], 1e-9, 'pulse %d of qubit %d' % (k, d))
        acq = [(t, inst) for t, inst in s.instructions if isinstance(inst, Acquire)]
        ctx.check({inst.channel.index for _, inst in acq} == set(qs) and len(acq) == len(qs), 'acquired qubits')
        ctx.check(all(t >= total for t, _ in acq), 'a qubit is measured before its pulses end')
        for t, inst in s.instructions:
            if isinstance(inst, Play) and isinstance(inst.channel, MeasureChannel):
                ctx.check(t >= total, 'a readout pulse before the drive ends')
        alone = measure(sorted(qs), inst_map=inst_map, meas_map=meas_map)
        first = min(t for t, inst in alone.instructions if isinstance(inst, Acquire))
        ctx.check(min(t for t, _ in acq) == total + first, 'the readout does not follow the pulses at once')
        slots[i] = {inst.channel.index: inst.mem_slot.index for _, inst in acq}
    # run them: the signal of a qubit follows its own pulses and ends in the memory slot the schedule says
    width = max(max(v.values()) for v in slots.values()) + 1
    par = {q: float(r.uniform(.8, 2)) if rabi else float(r.uniform(-.3, .3)) * max(x) for q in qs}
    line = {q: r.uniform(1, 9) * np.exp(1j * r.uniform(0, 6.28)) for q in qs}
    unit = plib.gaussian(duration=w, amp=1, sigma=sigma).samples.sum().real
    exps = []
    for i, s in enumerate(scheds):
        mem = r.normal(size=width) + 1j * r.normal(size=width)
        for q in qs:
            p = plays(s, drives[q])
            if rabi:
                v = np.cos(2 * np.pi * par[q] / max(x) * sum(a.sum().real for _, a in p) / unit)
            else:
                v = ((x[i] - par[q]) / max(x)) ** 2
            mem[slots[i][q]] = 0.3 - 2j + line[q] * v
        exps.append(iq_exp(s.name, mem, 100, 'avg'))
    cls = RabiFitter if rabi else DragFitter
    fit = cls(None, xd, qs, [1, 1, 0, 0] if rabi else [1, 0, 0])
    fit.add_data(qres.result(exps), refit=False)
    for k, q in enumerate(qs):
        v = np.cos(2 * np.pi * par[q] * x / max(x)) if rabi else ((x - par[q]) / max(x)) ** 2
        cen = abs(line[q]) * (v - v.mean())
        y = np.asarray(fit.ydata['0'][k]['mean'], dtype=float)
        ctx.check(np.allclose(y, cen, atol=1e-6) or np.allclose(y, -cen, atol=1e-6), 'the data of qubit %d is not its own', q)
    ctx.nontrivial(qs != list(range(len(qs))))


facet('rabi_schedules', sched_case('rabi'), quick=160, thorough=2000, shards=4, rule='qubits are not 0..n-1')(schedules)
facet('drag_schedules', sched_case('drag'), quick=160, thorough=2000, shards=4, rule='qubits are not 0..n-1')(schedules)


def rz(a):
    return np.diag([np.exp(-.5j * a), np.exp(.5j * a)])


def rot(theta, phase):
    """rotation by theta about the axis at angle phase in the xy plane"""
    c, s = np.cos(theta / 2), np.sin(theta / 2)
    return np.array([[c, -1j * s * np.exp(-1j * phase)], [-1j * s * np.exp(1j * phase), c]])


@st.composite
def ugate_case(draw):
    dev = draw(st.sampled_from([2, 3]))
    return {'dev': dev, 'qubits': draw(st.permutations(list(range(dev))))[:draw(st.integers(1, dev))], 'seed': draw(st.integers(0, 10 ** 6)),
            'tied': [draw(st.lists(st.integers(0, 5), unique=True, max_size=3)) for _ in range(dev)], 'twice': draw(st.booleans()),
            'sched': draw(st.booleans()), 'p': draw(st.lists(st.floats(-6.3, 6.3), min_size=3, max_size=3)), 'dur': draw(st.integers(10, 200))}


def tie(inst_map, q, drive, chans, foreign):
    """gates of qubit q as a device defines them whose control channels share the frame of the drive"""
    def fc(name, off, ch, t):
        return lambda **kw: ShiftPhase(-kw[name] + off, ch).shift(t)
    pulse = Play(Waveform(np.full(16, .1j)), drive).shift(0)
    u2 = [fc('P1', np.pi / 2, ch, 0) for ch in chans] + [pulse] + [fc('P0', -np.pi / 2, ch, 16) for ch in chans]
    u3 = [fc('P2', 0., ch, 0) for ch in chans] + [pulse] + [fc('P0', -np.pi, ch, 16) for ch in chans] + [pulse.shift(16)] \
        + [fc('P1', np.pi, ch, 32) for ch in chans]
    if foreign:     # another qubit's frame, shifted by a constant
        u2.append(ShiftPhase(.3, ControlChannel(9)).shift(0))
        u3.insert(0, ShiftPhase(.4, ControlChannel(9)).shift(0))
    inst_map.add('u2', q, ParameterizedSchedule(*u2, parameters=['P0', 'P1'], name='u2'))
    inst_map.add('u3', q, ParameterizedSchedule(*u3, parameters=['P0', 'P1', 'P2'], name='u3'))


@facet('u_gates', ugate_case(), quick=120, thorough=1500, shards=4, rule='always')
def u_gates(c, ctx):
    r = np.random.RandomState(c['seed'])
    import copy
    backend, drives, inst_map, _ = device(c['dev'])
    inst_map = copy.deepcopy(inst_map)
    qs = c['qubits']
    params = [{'amp': float(r.uniform(.05, .3)), 'duration': c['dur'] + 4 * i, 'beta': float(r.uniform(-.5, .5)), 'sigma': c['dur'] / 4}
              for i in range(c['dev'])]
    pulses = [plib.drag(**p) for p in params]
    scheds = None
    if c['sched']:
        if c['seed'] % 2:       # the schedules have pulses of their own
            pulses = [plib.drag(amp=.2, duration=c['dur'] + 4 * (i + 3), beta=.1, sigma=c['dur'] / 5) for i in range(c['dev'])]
        scheds = []
        for i in range(c['dev']):
            s = Schedule()
            s += Play(pulses[i], drives[i])
            scheds.append(s)
    frames = {q: {drives[q]} for q in range(c['dev'])}
    for q in range(c['dev']):
        if c['tied'][q] and c['seed'] % 4:
            frames[q] |= {ControlChannel(k) for k in c['tied'][q]}
            tie(inst_map, q, drives[q], sorted(frames[q], key=str) if c['seed'] % 2 else sorted(frames[q], key=str)[::-1], c['seed'] % 3 == 0)
    before = {q: [inst_map.get(g, q, *[.1] * k).instructions for g, k in (('u2', 2), ('u3', 3))] for q in range(c['dev']) if q not in qs}
    if c['twice']:
        old = [dict(p, amp=0.5 * p['amp'], duration=p['duration'] + 7) for p in params]
        ibmq_utils.update_u_gates(old, qubits=qs, inst_map=inst_map, drives=drives)
    ibmq_utils.update_u_gates(params, pi2_pulse_schedules=scheds, qubits=qs, inst_map=inst_map, drives=drives)
    for q, v in before.items():
        ctx.check(v == [inst_map.get(g, q, *[.1] * k).instructions for g, k in (('u2', 2), ('u3', 3))], 'gates of qubit %d changed', q)
    for q in qs:
        th, ph, lam = c['p']
        for name, kw, want, num in (
                ('u2', {'P0': ph, 'P1': lam}, rz(ph) @ rot(np.pi / 2, np.pi / 2) @ rz(lam), 1),
                ('u3', {'P0': th, 'P1': ph, 'P2': lam}, rz(ph) @ rot(th, np.pi / 2) @ rz(lam), 2)):
            s = inst_map.get(name, q, **kw)
            ch = drives[q]
            seq = sorted([(t, 0 if isinstance(i, ShiftPhase) else 1, k, i) for k, (t, i) in enumerate(s.instructions) if i.channel == ch],
                         key=lambda e: (e[0], e[1], e[2]))
            frame, u, count, busy = 0.0, np.eye(2, dtype=complex), 0, 0
            for t, _, _, inst in seq:
                if isinstance(inst, ShiftPhase):
                    ctx.check(t >= busy, 'a phase shift in the middle of a pulse')
                    frame += inst.phase
                elif isinstance(inst, Play):
                    ctx.check(t >= busy, 'pulses overlap')
                    ctx.close(np.asarray(inst.pulse.samples), pulses[q].samples, 1e-12, 'pulse of %s on qubit %d' % (name, q))
                    u = rot(np.pi / 2, frame) @ u
                    count += 1
                    busy = t + inst.duration
            # a virtual Z: the frame change is undone after the gate
            u = rz(-frame) @ u
            ctx.check(count == num, '%s plays %d pulses', name, count)
            ov = abs(np.trace(want.conj().T @ u)) / 2
            ctx.check(abs(ov - 1) < 1e-9, 'schedule of %s%s is another gate (overlap %s)', name, tuple(kw.values()), ov)
            # channels whose frame is tied to the drive get the same shifts
            shifts = {}
            for t, inst in s.instructions:
                if isinstance(inst, ShiftPhase):
                    shifts.setdefault(inst.channel, []).append((t, round(float(inst.phase), 9)))
            vals = [sorted(v) for v in shifts.values()]
            ctx.check(all(v == vals[0] for v in vals), 'frames of tied channels differ')
            ctx.check(set(shifts) == frames[q], '%s of qubit %d shifts the frames of %s, the device ties %s', name, q, sorted(map(str, shifts)), sorted(map(str, frames[q])))
    ctx.nontrivial()


@facet('pulse_fit', st.fixed_dictionaries({'dev': st.sampled_from([2, 3]), 'seed': st.integers(0, 10 ** 6)}), quick=60, thorough=600, shards=2, rule='always')
def pulse_fit(c, ctx):
    """the parameters of the DRAG pulse in a u2 schedule are found again"""
    import copy
    r = np.random.RandomState(c['seed'])
    backend, drives, inst_map, _ = device(c['dev'])
    inst_map = copy.deepcopy(inst_map)
    qs = list(r.permutation(c['dev'])[:r.randint(1, c['dev'] + 1)])
    want = []
    for q in qs:
        dur = int(r.randint(60, 200))
        p = {'amp': float(r.uniform(.1, .4)), 'duration': dur, 'sigma': dur / float(r.uniform(3.5, 5)), 'beta': float(r.uniform(-.5, .5))}
        s = Schedule(name='u2')
        s += Play(Waveform(plib.drag(**p).samples * np.exp(-.5j * np.pi)), drives[q])
        if c['seed'] % 2:
            s = Schedule(ShiftPhase(-1.0, drives[q]), s)
        inst_map.add('u2', int(q), (lambda t: lambda P0, P1: t)(s))
        want.append(p)
    got = ibmq_utils.get_single_q_pulse(inst_map, [int(q) for q in qs])
    ctx.check(len(got) == len(qs), 'number of qubits')
    for g, p in zip(got, want):
        for k in p:
            ctx.close(float(g[k]), p[k], 1e-3 * max(1, abs(p[k])), 'pulse parameter %s' % k)
    ctx.nontrivial()
