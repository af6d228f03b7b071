#!/usr/bin/env python3
"""Generate properties.jsonl and MANIFEST.json from the one table below.

usage: python3 tools/gen.py            (rewrites both files)
Only properties whose check module checks/<id>.py exists are registered.
"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IG = 'qiskit/ignis/'

P = []


def prop(id_, title, statement, over, text, why, files, mech, technique, note, observe=None):
    P.append(dict(id=id_, title=title, statement=statement, over=over, text=text, why=why,
                  files=[IG + f for f in files],
                  mech=[dict(name=n, where=IG + w) for n, w in mech],
                  technique=technique, note=note, observe=observe or []))


MM = 'mitigation/measurement/'
prop('C01', 'Calibration circuits prepare and measure exactly the labelled states',
     'For every choice of qubits (any order, any subset, optional user-supplied registers, optional label), the '
     'measurement-calibration circuits consist of one circuit per basis state (complete) or per basis state of the largest block, '
     'together preparing every basis state of every block (tensored); a noiseless run of the circuit named for a label returns '
     'that label with certainty on the listed qubits and leaves all other qubits untouched. Circuit names are unique and carry the '
     'caller\'s label, and the returned state labels are exactly those of the circuits.',
     ['inputs', 'configurations'],
     'every qubit list / block partition (order and gaps included), register choice and circuit label',
     'Tests use one 3-qubit line in ascending order with default registers; order, gaps, user registers and mixed block sizes are unsampled.',
     [MM + 'circuits.py'], [('complete_meas_cal / tensored_meas_cal', MM + 'circuits.py')],
     'property-based testing, basis-state interpreter oracle',
     'Generated layouts interpreted by an independent classical bit-flip interpreter of the circuit instructions.')

prop('C02', 'Calibration matrices are the pooled conditional outcome frequencies',
     'For any calibration counts, each column of a calibration matrix is the observed distribution of measured labels given the '
     'prepared label (rows measured, columns prepared, columns summing to one), and it depends only on the total counts: not on '
     'result order, on how the data is split over results or added over time. Per-block matrices of a tensored calibration are the '
     'marginals of the joint data, a fitter restricted to a subset of qubits gives the marginal matrix of those qubits in the requested '
     'order, and the readout fidelity is the average probability of reading back the prepared label (or the given group of labels).',
     ['inputs', 'histories'],
     'every set of calibration counts, every split and ordering of results, every subset of qubits and label grouping',
     'Tests feed a handful of recorded data sets in one order in one piece.',
     [MM + 'fitters.py'], [('CompleteMeasFitter, TensoredMeasFitter', MM + 'fitters.py')],
     'property-based testing, reference model and metamorphic splitting',
     'Generated count tables against a direct numpy tabulation; histories of add_data calls.')

prop('C03', 'Readout mitigation inverts the calibrated noise and preserves shots',
     'Applying a measurement-error filter to data produced by exactly the calibrated noise returns the noiseless data; for arbitrary '
     'data the inversion method returns the solution of the calibration equations and the least-squares method returns a non-negative '
     'vector with the same total that no other such vector fits better. The answer is the same whatever the input format '
     '(counts, list, concatenated list, result object) or key order, the input is never modified, and a tensored filter agrees '
     'with the complete filter built from the product of its block matrices.',
     ['inputs', 'configurations'],
     'every invertible calibration matrix, every count data set, every format, method and block layout',
     'Tests check four recorded distributions on a fixed three-qubit layout.',
     [MM + 'filters.py'], [('MeasurementFilter.apply, TensoredFilter.apply', MM + 'filters.py')],
     'property-based testing, forward-noise round trip and differential oracle',
     'Generated stochastic matrices and counts; exact linear-algebra oracle; KKT-style optimality test for least squares.')

EV = 'mitigation/expval/'
prop('C04', 'Error-mitigated expectation values are exact for the modelled noise',
     'For any diagonal observable, any choice and order of qubits and measured bits, the expectation value and its standard deviation '
     'computed from counts equal the direct statistical definition; with a mitigator (complete, tensored or Markov-process) whose noise '
     'produced the counts, the mitigated expectation equals the noiseless one. Bit i of an outcome always belongs to the i-th listed '
     'qubit, and the same physical question asked with qubits listed in another order has the same answer.',
     ['inputs', 'configurations'],
     'every diagonal, every qubit/bit ordering and subset, every invertible noise model',
     'Tests use a few fixed diagonals with all qubits in ascending order, and the Markov tests do not run in this environment.',
     [EV + 'utils.py', EV + 'complete_mitigator.py', EV + 'tensored_mitigator.py', EV + 'ctmp_mitigator.py', EV + 'base_meas_mitigator.py'],
     [('expectation_value', EV + 'utils.py'), ('*.expectation_value', EV + 'complete_mitigator.py')],
     'property-based testing, dense linear-algebra oracle',
     'Exact counts from random noise matrices; the Monte Carlo sampled Markov estimator is compared within a stated statistical bound.')

prop('C05', 'Expectation-value calibration reproduces the noise and its cost figures',
     'Calibration circuits for expectation-value mitigation prepare the state in their label, and fitting data generated by a known noise model '
     '(complete, tensored or Markov-process) yields a mitigator whose assignment matrix on any subset of qubits is that model '
     'restricted to them (other qubits in state zero), with the mitigation matrix its inverse. Assignment fidelity, mitigation overhead, required shots and the '
     'standard-deviation bound follow their defining formulas from those matrices.',
     ['inputs', 'configurations'],
     'every noise model of each kind, every qubit subset and order, every calibration data set',
     'Tests use one fixed 2-4 qubit model and never ask for a proper subset of qubits.',
     [EV + 'circuits.py', EV + 'fitter.py', EV + 'ctmp_fitter.py', EV + 'ctmp_generator_set.py', EV + 'ctmp_mitigator.py',
      EV + 'tensored_mitigator.py', EV + 'complete_mitigator.py', EV + 'base_meas_mitigator.py', EV + 'utils.py'],
     [('ExpvalMeasMitigatorFitter.fit', EV + 'fitter.py'), ('fit_ctmp_meas_mitigator', EV + 'ctmp_fitter.py')],
     'property-based testing, forward noise model oracle', 'Generated noise models; formulas recomputed from dense matrices.')

TO = 'verification/tomography/'
prop('C06', 'State tomography reconstructs every state from ideal data',
     'For every state, every supported measurement basis, every selection and order of measured qubits and every fitting method, the '
     'tomography circuits measure what their labels say (the first label and the first listed qubit go together) and fitting the ideal '
     'outcome frequencies returns the reduced state of the listed qubits in the listed order. Extra classical registers, extra '
     'subsets of circuits kept informationally complete, or splitting the data over several results do not change the answer.',
     ['inputs', 'programs', 'configurations'],
     'every prepared state, measured-qubit selection and order, basis, method, register layout and data split',
     'Tests sample a couple of random states on qubits 0..n-1 in ascending order.',
     [TO + 'basis/circuits.py', TO + 'basis/paulibasis.py', TO + 'basis/tomographybasis.py', TO + 'fitters/base_fitter.py', TO + 'fitters/state_fitter.py',
      TO + 'fitters/lstsq_fit.py', TO + 'fitters/cvx_fit.py'],
     [('state_tomography_circuits', TO + 'basis/circuits.py'), ('StateTomographyFitter.fit', TO + 'fitters/state_fitter.py')],
     'property-based testing, exact simulation round trip',
     'Random states simulated with an independent statevector simulator; probabilities scaled to integer counts.')

prop('C07', 'Process tomography reconstructs every channel from ideal data',
     'For every channel acting on the listed qubits, every preparation/measurement basis, qubit order and fitting method, the circuits prepare and '
     'measure what their labels say and fitting the ideal outcome frequencies returns the Choi matrix of that channel on the listed qubits in the '
     'listed order. Separate preparation and measurement qubits and data split over several results do not change the answer.',
     ['inputs', 'programs', 'configurations'],
     'every unitary or noisy channel on 1-2 qubits, basis, qubit order and method',
     'Tests sample a few random unitaries on ascending qubits.',
     [TO + 'basis/circuits.py', TO + 'basis/paulibasis.py', TO + 'basis/sicbasis.py', TO + 'basis/tomographybasis.py', TO + 'fitters/base_fitter.py',
      TO + 'fitters/process_fitter.py'],
     [('process_tomography_circuits', TO + 'basis/circuits.py'), ('ProcessTomographyFitter.fit', TO + 'fitters/process_fitter.py')],
     'property-based testing, exact simulation round trip',
     'Random unitaries and channels simulated independently; Choi compared within tolerance.')

prop('C08', 'Tomography output is physical and optimal for any data',
     'Whatever counts are supplied, the fitted state is positive semidefinite with the requested trace and the fitted channel is positive '
     'semidefinite and trace preserving where that is requested; options to drop those constraints and to weight the data are honoured. '
     'The result is the best fit to the data: no physical candidate, in particular the true one, has a smaller weighted residual beyond solver tolerance, and '
     'data outside the positive cone yields the closest positive matrix rather than an arbitrary one.',
     ['inputs', 'configurations'],
     'every count data set (sampled, adversarial, inconsistent), weighting and constraint option, for both fitting methods',
     'Tests only compare to near-ideal targets at a loose fidelity tolerance.',
     [TO + 'fitters/lstsq_fit.py', TO + 'fitters/cvx_fit.py', TO + 'fitters/base_fitter.py'],
     [('lstsq_fit, make_positive_semidefinite', TO + 'fitters/lstsq_fit.py'), ('cvx_fit', TO + 'fitters/cvx_fit.py')],
     'property-based testing, validity predicate and optimality oracle',
     'Random and adversarial counts; optimality is judged against randomly perturbed feasible candidates and a closed-form projection.')

prop('C09', 'Tomography count utilities are exact marginals, sums and expectations',
     'Marginalising counts to any listed positions, combining two count dictionaries, enumerating outcome labels and computing expectation '
     'values of correlators agree with their definitions for every number of bits and every counts dictionary, including labels with register '
     'separators. None of them changes its arguments.',
     ['inputs'], 'every counts dictionary, bit subset and pair of dictionaries',
     'There are no direct tests of these helpers beyond one fixed use.',
     [TO + 'data.py', 'utils.py'], [('marginal_counts, combine_counts, expectation_counts', TO + 'data.py'), ('build_counts_dict_from_list', 'utils.py')],
     'property-based testing, reference model', 'Generated counts against brute-force definitions; argument snapshots.')

prop('C10', 'Gate set tomography recovers the gate set up to gauge',
     'For every basis and gate set, the gate-set-tomography circuits are exactly the preparation-gate-measurement sequences their labels state, and from the '
     'ideal frequencies the fit returns gates, initial state and measurement that reproduce the probability of every such sequence, i.e. the true gate set up to '
     'a change of gauge, with the gauge pinned to the ideal gates: noise-free data give the ideal gates themselves. Gauge optimisation never changes those '
     'probabilities and never increases the distance to the ideal gate set.',
     ['inputs', 'programs'],
     'every single-qubit noisy gate set and basis near an informationally complete one',
     'Tests sample one basis with a few fixed gates, and the fit tests do not run in this environment.',
     [TO + 'fitters/gateset_fitter.py', TO + 'basis/gatesetbasis.py', TO + 'basis/circuits.py'],
     [('GatesetTomographyFitter', TO + 'fitters/gateset_fitter.py'), ('GateSetBasis', TO + 'basis/gatesetbasis.py')],
     'property-based testing, exact channel model and gauge-invariant comparison',
     'Random noisy gate sets in the Pauli transfer representation.')

RB = 'verification/randomized_benchmarking/'
prop('C11', 'Randomized-benchmarking sequences always return to their start state',
     'For every pattern, sequence length, length multiplier, group and seed, each generated benchmarking circuit (standard, interleaved, purity-rotated, '
     'non-Clifford) composes to the identity before its final rotation/measurement, so a noiseless run returns the documented outcome, acts only on the pattern\'s '
     'qubits, contains the stated number of group elements, and differs from its interleaved partner only by the interleaved gate and the '
     'inversion. The same seed gives the same circuits and the number and names of circuits follow the documented scheme.',
     ['inputs', 'programs', 'configurations'],
     'every pattern (order, gaps, sizes), length vector, multiplier, seed, group and option combination',
     'Tests run a fixed list of patterns and lengths with few seeds.',
     [RB + 'circuits.py', RB + 'rb_groups.py'], [('randomized_benchmarking_seq', RB + 'circuits.py')],
     'property-based testing, independent statevector simulation',
     'Circuits of up to five qubits simulated instruction by instruction.')

prop('C12', 'Benchmarking fits pool all data and recover the true decay',
     'For every pattern, set of lengths, seeds and split of the data over results and additions, the survival data are the pooled ground-state '
     'frequencies with their mean and spread over seeds; the fitted decay and the derived error rate (standard, interleaved, purity, non-Clifford) '
     'equal those of the generating decay curve. The order and grouping in which results are added never matters.',
     ['inputs', 'histories', 'configurations'],
     'every decay, pattern, length vector, number of seeds, shots, order of results and add history',
     'Tests compare to a few recorded results with hand-made expected values.',
     [RB + 'fitters.py'], [('RBFitter and subclasses', RB + 'fitters.py')],
     'property-based testing, synthetic data with known decay and metamorphic history splitting',
     'Noise-free synthetic counts at large shot numbers; stated fit tolerance.')

prop('C13', 'Benchmarking error-rate conversions follow their definitions',
     'Gate counts per circuit and per group element, the coherence limit and the conversions between gate errors and errors per group '
     'element agree with their published definitions for every input: counting is exact, errors lie in the physical range, a perfect device has zero error, and '
     'more error in any gate never lowers the computed error.',
     ['inputs', 'programs'],
     'every circuit set, basis, coherence times and gate errors',
     'Tests evaluate a few fixed numeric examples.',
     [RB + 'rb_utils.py'], [('coherence_limit, calculate_*q_ep*', RB + 'rb_utils.py')],
     'property-based testing, independent formulas and monotonicity', 'Closed-form reference implementations plus channel-based recomputation of coherence limits.')

prop('C14', 'CNOT-dihedral algebra is a faithful representation of its circuits',
     'For all CNOT-dihedral elements, composition, product, inverse, conjugate, transpose, tensor and conversion to a circuit or matrix agree with the same '
     'operations on the unitaries they represent, up to a global phase; two elements are equal exactly when their unitaries are. Converting '
     'to a circuit and back gives the same element, operations never alter their operands, and random elements are always valid members.',
     ['inputs', 'programs'],
     'every element (random circuits over the generating gates, 1-4 qubits) and every pair of elements',
     'Tests check the two-qubit group enumeration and a few random samples of some operations.',
     [RB + 'dihedral.py'], [('CNOTDihedral', RB + 'dihedral.py')],
     'property-based testing, dense-unitary homomorphism oracle', 'Dense unitaries up to four qubits built by an independent gate interpreter.')

AC = 'verification/accreditation/'
prop('C15', 'Accreditation circuits keep the target output and make traps certain',
     'For every target circuit of the supported form, after the supplied one-time-pad correction the noiseless output distribution of the target '
     'circuit equals that of the original, and every trap circuit returns the all-zero string with certainty. All circuits in a set look alike: '
     'same entangling gates and measurements, with the target at the reported position; pads and positions are random, and traps notice Pauli faults next to the entangling gates.',
     ['inputs', 'programs', 'configurations'],
     'every supported circuit, number of traps, two-qubit-gate type, measurement mapping and seed',
     'Tests use one four-qubit target with qubits measured to bits in the same order.',
     [AC + 'circuits.py', AC + 'qotp.py'], [('AccreditationCircuits.generate_circuits', AC + 'circuits.py'), ('QOTP', AC + 'qotp.py')],
     'property-based testing, statevector differential oracle', 'Random layered circuits on up to four qubits.')

prop('C16', 'Accreditation outcomes follow from the accepted runs only',
     'For every sequence of single-shot runs, a run is accepted exactly when all its traps return zero after correction; the reported counts are those of the '
     'target circuits of accepted runs and the bound and confidence follow the documented formulas. Inputs that break the protocol (wrong number of traps '
     'or strings, several shots, nothing accepted) are rejected with an error and leave no trace, and results never leak between fitters.',
     ['inputs', 'histories'],
     'every history of accepted/rejected/malformed runs',
     'Tests feed one recorded noiseless and one noisy history.',
     [AC + 'fitters.py'], [('AccreditationFitter', AC + 'fitters.py')],
     'stateful property-based testing, reference model', 'Histories of appended runs against a small model.')

QV = 'verification/quantum_volume/'
prop('C17', 'Quantum-volume circuits match their ideal twins and their seed',
     'For every list of qubit sets, number of trials and seed, the circuits with measurement, noiselessly run, have exactly the output distribution of '
     'the partner ideal circuits of the same name, act only on the listed qubits, and have width equal to depth. The same seed (zero included) '
     'gives the same circuits, and trials are drawn independently.',
     ['inputs', 'configurations'], 'every nested list of qubits (order and gaps included), trial count and seed',
     'Tests only count the circuits.', [QV + 'circuits.py'], [('qv_circuits', QV + 'circuits.py')],
     'property-based testing, statevector differential oracle', 'Up to four-qubit widths; distribution compared to 1e-9.')

prop('C18', 'Quantum-volume heavy-output statistics and verdicts are exact',
     'For all ideal distributions and measured counts, heavy outputs are those strictly above the median ideal probability, heavy-output counts and '
     'probabilities are those of the pooled data, and the mean, deviation, confidence and pass/fail verdict per width follow the documented '
     'two-thirds criterion; the volume of each width is two to its power. The order and grouping in which results and ideal data are added does not matter, and rejected data leaves no trace.',
     ['inputs', 'histories'], 'every distribution, counts, trials, order and split of added data',
     'Tests compare to one recorded simulated data set.', [QV + 'fitters.py'], [('QVFitter', QV + 'fitters.py')],
     'property-based testing, reference model', 'Generated statevectors and counts against a direct tabulation.')

TC = 'verification/topological_codes/'
prop('C19', 'Repetition-code decoding corrects every fault it promises to',
     'For every distance and number of syndrome rounds, noiseless runs give trivial syndromes with the encoded logical value; any single Pauli or '
     'measurement fault anywhere in the circuit triggers no syndrome change or one matched pair, matching finds a pairing of least total distance, and corrects every set of fewer than half the distance '
     'of bit-flip faults (data or measurement, any rounds), leaving the logical value intact. Result processing is a lossless re-encoding of the measured bits.',
     ['inputs', 'fault_sequences', 'configurations'], 'every distance, round count, fault set of correctable weight, logical value and raw outcome',
     'Tests check a few decoder strings for d=3..5 and single faults at small T.',
     [TC + 'circuits.py', TC + 'fitters.py'], [('RepetitionCode', TC + 'circuits.py'), ('GraphDecoder.matching', TC + 'fitters.py')],
     'fault-injection property testing, exhaustive for small sizes', 'Classical bit simulation with injected X and measurement faults.')

prop('C20', 'Logical error estimates count decoded, discarded and unlikely shots exactly',
     'For every set of processed or raw code results, the logical error probability by matching, by post-selection and by look-up table equals its '
     'definition applied shot by shot, lies in [0,1] and does not depend on the order of outcomes or scale of counts. Syndrome-graph edge weights '
     'estimated from data are minus the log of the smallest observed ratio of complementary outcomes, with half a shot for an unobserved one.',
     ['inputs'], 'every results dictionary, decoder and training table',
     'Tests evaluate two or three fixed dictionaries.',
     [TC + 'fitters.py'], [('GraphDecoder.get_logical_prob, postselection_decoding, lookuptable_decoding', TC + 'fitters.py')],
     'property-based testing, reference model', 'Generated results against brute-force definitions.')

EN = 'verification/entanglement/'
prop('C21', 'Entanglement circuits prepare GHZ states on any connected device',
     'For every number of qubits and (for the parallelised form) every connected device graph and calibration data, the circuits prepare the GHZ state, and '
     'use only couplings of the device with each qubit entangled exactly once; the coherence and parity-oscillation variants turn a phase on every qubit into the '
     'documented full-contrast interference signal. Full-contrast means all-zero probability (1+cos(nφ))/2 or parity cos(nφ) up to the documented convention.',
     ['inputs', 'configurations'], 'every n, phase, device graph and calibration record',
     'The existing tests do not even load in this environment; they check one device.',
     [EN + 'linear.py', EN + 'parallelize.py'], [('get_ghz_*', EN + 'linear.py'), ('BConfig', EN + 'parallelize.py')],
     'property-based testing, statevector oracle', 'Random connected graphs as mock devices.')

prop('C22', 'Entanglement analysis computes exact parities, spectra and fidelities',
     'For every counts dictionary and phase signal, parity expectation values equal their definition over all bit strings, Fourier '
     'components of a synthetic oscillation are recovered at the right frequency, and the fidelity reported for data of an ideal GHZ state is one and for a '
     'mixed state is its true overlap.',
     ['inputs'], 'every counts dictionary, density matrix and oscillation signal', 'Tests do not load in this environment.',
     [EN + 'analysis.py'], [('composite_pauli_z_expvalue, rho_to_fidelity, Plotter', EN + 'analysis.py')],
     'property-based testing, reference model', 'Brute-force definitions; plotting output suppressed.')

CH = 'characterization/'
prop('C23', 'Coherence and crosstalk experiments recover the physical parameters',
     'For every device model (relaxation, dephasing, detuning, echo count, crosstalk) and set of delays, the generated circuits run on that '
     'model and fitted give back its T1, T2, T2* with frequency, and ZZ rate; delays returned are the true ones in the circuits. Each qubit\'s result depends '
     'only on its own marginal data, pooled over all results for the same delay in whatever order they arrive.',
     ['inputs', 'programs', 'configurations', 'histories'], 'every decay parameter set, delay grid, qubit list, echo option and data split',
     'Tests fit a few fixed noise settings from recorded data.',
     [CH + 'coherence/circuits.py', CH + 'coherence/fitters.py', CH + 'hamiltonian/circuits.py', CH + 'hamiltonian/fitters.py', CH + 'fitters.py',
      CH + 'characterization_utils.py'],
     [('t1_circuits, t2_circuits, t2star_circuits, zz_circuits', CH + 'coherence/circuits.py'), ('BaseFitter', CH + 'fitters.py')],
     'property-based testing, density-matrix device model round trip', 'Identity gates are given the device model; fit tolerance stated.')

prop('C24', 'Gate-calibration experiments recover the injected gate error',
     'For every amplitude or angle error injected into the gates of the single- and two-qubit calibration circuits, and every qubit list, the '
     'fitted error equals the injected one, and without error the circuits give the balanced signal they are designed for. Fit results for each qubit '
     'depend only on that qubit\'s data, and evaluating the fitted model reproduces the data.',
     ['inputs', 'programs'], 'every small coherent error, repetition range and qubit list', 'Tests use one fixed error value per experiment.',
     [CH + 'gates/circuits.py', CH + 'gates/fitters.py', CH + 'fitters.py'],
     [('ampcal_*, anglecal_*', CH + 'gates/circuits.py'), ('AmpCal*Fitter, AngleCal*Fitter', CH + 'gates/fitters.py')],
     'property-based testing, simulation with injected errors', 'Statevector simulation with over-rotated gates.')

prop('C25', 'Pulse-calibration fits recover amplitudes from averaged or raw IQ data',
     'For every oscillation (Rabi) or quadratic (Drag) signal rotated to any direction and offset in the IQ plane, averaged or '
     'single-shot, the fit of the corresponding experiment returns the true pi amplitude or optimum drag parameter, independently per qubit. The generated schedules play '
     'the pulses of the requested amplitudes on the right channels, updated gate definitions realise their gate with the new pulses in every frame the device ties to '
     'the qubit, and bad inputs are rejected with an error.',
     ['inputs', 'configurations'], 'every IQ orientation, oscillation, qubit list and data level', 'No fitter test exists for these.',
     [CH + 'calibrations/fitters.py', CH + 'calibrations/pulse_schedules.py', CH + 'fitters.py'],
     [('RabiFitter, DragFitter, IQFitter', CH + 'calibrations/fitters.py'), ('rabi_schedules, drag_schedules', CH + 'calibrations/pulse_schedules.py')],
     'property-based testing, synthetic IQ data round trip', 'Noise-free synthetic IQ data.')

ME = 'measurement/discriminator/'
prop('C26', 'IQ discrimination uses exactly the labelled data of each qubit',
     'For every set of calibration schedules, results, qubit mask and scaling choice, training uses each calibration shot once with its own label, well-separated '
     'states are assigned their own label on every qubit, and adding data later is equivalent to supplying it all at once. Applying the discriminator to kerneled results produces '
     'one set of counts per kerneled experiment in the same order, which sum to the shots and follow the per-shot assignments of the qubits; the input is not modified.',
     ['inputs', 'histories', 'configurations'], 'every cluster layout, qubit mask, schedule list, result split and test data',
     'Tests use one or two qubits with one fixed cloud layout.',
     [ME + 'discriminators.py', ME + 'iq_discriminators.py', ME + 'filters.py'],
     [('BaseDiscriminationFitter', ME + 'discriminators.py'), ('IQDiscriminationFitter', ME + 'iq_discriminators.py'), ('DiscriminationFilter', ME + 'filters.py')],
     'property-based testing, known-label round trip', 'Separated synthetic clusters with known labels.')

prop('C27', 'What is logged is read back completely and only what was asked for',
     'Every key-value set logged to file while logging is on can be read back through the log reader, every value whole and in the order of logging, whatever mixture of '
     'loggers, threads, configuration, rotation and restarts happened; rotation only drops the oldest entries once all allowed files are full. Nothing is written while logging is off, '
     'the configured file (exactly as spelled) and limits are used, key and time filters return exactly the matching entries, and ordinary console messages appear once.',
     ['inputs', 'histories', 'configurations'], 'every sequence of configure/enable/disable/log/read/restart calls, thread interleaving and printable value',
     'Tests log one fixed pair of values.', ['logging/ignis_logging.py'],
     [('IgnisLogger.log_to_file', 'logging/ignis_logging.py'), ('IgnisLogReader.read_values', 'logging/ignis_logging.py')],
     'stateful property-based testing, list model', 'Histories run in a scratch directory with the home directory redirected.')


prop('C28', 'A figure shows the numbers of the object it is drawn from',
     'For every fitter, mitigator and discriminator and every choice of pattern, qubit, series, group, trial and axes, its plot shows exactly the data, error bars, fitted curve or matrix that the object '
     'reports for that choice, and every number, qubit, state or time stated in labels, legends, titles and ticks is the one the object reports; only the axes passed are drawn on, and optional '
     'parts (labels, titles, calibration points, marked misclassified points, decision regions) appear when asked for.',
     ['inputs', 'configurations'], 'every data set, selection and option of the plot methods', 'Tests never look at a figure.',
     ['verification/randomized_benchmarking/fitters.py', 'verification/quantum_volume/fitters.py', 'mitigation/measurement/fitters.py', 'mitigation/expval/base_meas_mitigator.py',
      'characterization/fitters.py', 'measurement/discriminator/iq_discriminators.py'],
     [('RBFitter.plot_rb_data', 'verification/randomized_benchmarking/fitters.py'), ('BaseCoherenceFitter.plot', 'characterization/fitters.py'),
      ('IQDiscriminationFitter.plot', 'measurement/discriminator/iq_discriminators.py')],
     'property-based testing: artists of generated figures against the public state of the object', 'Figures are drawn with the Agg backend and read back as matplotlib artists.')


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, (p['id'], len(p['title']))
            d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                     quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                     anchors=dict(files=p['files'], mechanism=p['mech'], hook_needed=None))
            if p['observe']:
                d['anchors']['observe_at'] = p['observe']
            f.write(json.dumps(d) + '\n')
    checks, na = [], []
    for p in P:
        if os.path.exists(os.path.join(ROOT, 'checks', p['id'].lower() + '.py')):
            checks.append(dict(property=p['id'], quick_cmd='bash run.sh %s quick' % p['id'],
                               thorough_cmd='bash run.sh %s thorough' % p['id'],
                               technique=p['technique'], level='exploration', level_note=p['note']))
        else:
            na.append(dict(property=p['id'], reason='check not built yet'))
    m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na)
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
