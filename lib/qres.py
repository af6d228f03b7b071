"""Build qiskit Result objects from synthetic data."""
import numpy as np
from qiskit.result import Result
from qiskit.result.models import ExperimentResult, ExperimentResultData
from qiskit.qobj import QobjExperimentHeader


def experiment(name, counts, cregs, shots=None):
    """counts: {formatted key or int: value}; cregs: [(name, size)] in circuit order."""
    data = {}
    for k, v in counts.items():
        iv = int(k.replace(' ', ''), 2) if isinstance(k, str) else int(k)
        data[hex(iv)] = data.get(hex(iv), 0) + v
    slots = sum(s for _, s in cregs)
    if shots is None:
        shots = sum(counts.values())
    header = QobjExperimentHeader(
        name=name, memory_slots=slots, creg_sizes=[[n, s] for n, s in cregs],
        clbit_labels=[[n, i] for n, s in cregs for i in range(s)])
    return ExperimentResult(shots=int(shots), success=True, meas_level=2,
                            data=ExperimentResultData(counts=data), header=header)


def result(experiments):
    return Result(backend_name='synthetic', backend_version='0', qobj_id='q', job_id='j',
                  success=True, results=list(experiments))


def from_circuits(circs, countslist):
    return result([experiment(c.name, cnt, [(r.name, r.size) for r in c.cregs])
                   for c, cnt in zip(circs, countslist)])


def ints(probs, shots):
    """Integer counts proportional to probs ({key: p}) with exact total (largest remainder)."""
    keys = list(probs)
    raw = np.array([probs[k] for k in keys], dtype=float) * shots
    base = np.floor(raw + 1e-9).astype(np.int64)
    rem = int(round(shots - base.sum()))
    order = np.argsort(-(raw - base), kind='stable')
    for i in range(max(rem, 0)):
        base[order[i % len(keys)]] += 1
    return {k: int(b) for k, b in zip(keys, base) if b > 0}
