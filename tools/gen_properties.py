#!/usr/bin/env python3
"""Writes properties.jsonl (source of truth for the property texts)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, qtext, why, files, mech, observe, over=('inputs',),
         state=None):
    a = {'files': ['harold/' + f for f in files],
         'mechanism': [{'name': n, 'where': 'harold/' + w} for n, w in mech],
         'observe_at': observe, 'hook_needed': None}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': 'harold/' + w}
                      for n, m, w in state]
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': list(over), 'text': qtext},
              'why_tests_cant': why, 'anchors': a})


CL = '_classes.py'
prop('C01', 'Sums of state models add their responses',
     'Adding or subtracting state-space models, scalars, arrays or transfer models to a state model, and negating one, yields a state model whose transfer matrix is the sum, difference or negation of the operands at every frequency, with the common sampling period. Single-channel models and scalars are added to every channel of a multichannel operand.',
     'all real data of operands of the bounded orders and shapes, static or dynamic, either operand order, continuous or discrete',
     'tests compare a few fixed matrices; the identity must hold for all coefficient values, shapes, static/dynamic mixes and both time domains',
     [CL], [('state addition', CL + ':State.__add__'), ('reflected and difference operators', CL + ':State.__radd__/__sub__/__rsub__/__neg__')],
     ['a, b, c, d and sampling period of the result'])
prop('C02', 'Products and quotients of state models compose their responses',
     'Multiplying state models (by models, matrices, scalars or transfer models, on either side) yields a model whose transfer matrix is the matrix product in the written order, with a single-channel operand scaling every channel, and with the common sampling period. Dividing by a scalar or by a model with invertible feedthrough is multiplication by the reciprocal or inverse system.',
     'all real data of conformable operands of the bounded orders and shapes, both operand orders, continuous or discrete',
     'the order of factors, shapes and static/dynamic branches interact; tests use single fixed instances',
     [CL], [('series connection', CL + ':State.__matmul__/__rmatmul__'), ('product and division operators', CL + ':State.__mul__/__rmul__/__truediv__/__rtruediv__')],
     ['a, b, c, d and sampling period of the result'])
prop('C03', 'Sums of transfer models add their rational functions',
     'Adding or subtracting transfer models, scalars and arrays, and negating, yields a transfer model whose every entry equals the sum, difference or negation of the operand entries as a rational function, with the common sampling period. Single-channel operands are added to every entry; adding a state model gives a state model with the same response.',
     'all real coefficients within bounded degrees and shapes, static or dynamic, shared or distinct denominators, either order',
     'the code has special branches for equal denominators, gains, single channel and multichannel operands; tests fix the coefficients',
     [CL, '_polynomial_ops.py'], [('transfer addition', CL + ':Transfer.__add__'), ('common denominators', '_polynomial_ops.py:haroldlcm')],
     ['numerator, denominator and sampling period of the result'])
prop('C04', 'Products and quotients of transfer models match rational arithmetic',
     'The elementwise product, the matrix product and the quotient of transfer models, scalars and arrays give, entry by entry and in the written operand order, the corresponding product or quotient of rational functions with the common sampling period. Single-channel operands scale every entry, and a noncausal quotient is rejected.',
     'all real coefficients within bounded degrees and shapes, static or dynamic operands, either order',
     'order of factors, degree cancellations and gain branches depend on values that tests fix',
     [CL, '_polynomial_ops.py'], [('transfer products', CL + ':Transfer.__mul__/__rmul__/__matmul__/__rmatmul__'), ('division', CL + ':Transfer.__truediv__/__rtruediv__')],
     ['numerator, denominator and sampling period of the result'])
prop('C05', 'Incompatible operands are rejected and never silently combined',
     'Combining two models with different sampling periods, or multichannel models whose shapes do not fit the operation, raises an error for every arithmetic operator and for feedback. Complex valued gains are rejected and no operand is modified by an arithmetic operation.',
     'all pairs of state/transfer, static/dynamic models over a set of sampling period pairs and shape pairs, all operators, any data',
     'the product of operators, representations, static flags, shapes and sampling periods is far larger than the tested pairs',
     [CL, '_bd_algebra.py'], [('operand checks', CL + ':State/Transfer arithmetic'), ('loop checks', '_bd_algebra.py:feedback')],
     ['exception raised by the operator', 'operand data after the operation'], over=('inputs', 'configurations'))
prop('C06', 'Feedback interconnection realises the closed loop response',
     'The feedback of a plant and a return model has the closed-loop transfer matrix (I+GH)^-1 G for negative and (I-GH)^-1 G for positive feedback, keeps the sampling period and needs no more states than the two models have together. An ill-posed loop (singular algebraic loop) raises an error.',
     'all real data of loops of the bounded orders and shapes, both signs, state or transfer operands, scalar or matrix return gains',
     'signs and feedthrough terms only matter for data that tests do not vary',
     ['_bd_algebra.py'], [('closed loop formula', '_bd_algebra.py:feedback')],
     ['a, b, c, d of the result', 'exception on ill-posed loops'])
prop('C07', 'Transfer to state conversion preserves the response',
     'Converting a transfer model to state-space form yields a model with the same transfer matrix, shape and sampling period, for single and multichannel models, any relative degree, zero entries, common or distinct denominators and static gains.',
     'all real coefficients with bounded degrees and shapes',
     'monic normalisation, feedthrough extraction and zero entries depend on coefficient values',
     [CL], [('realisation', CL + ':transfer_to_state')], ['a, b, c, d of the result or returned matrices'])
prop('C08', 'State to transfer conversion preserves the response',
     'Converting a state model to a transfer model yields entries equal to C(sI-A)^-1 B + D as rational functions, with the same shape and sampling period, for single and multichannel, static and dynamic models.',
     'all real data with bounded orders and shapes',
     'the conversion goes through poles, zeros and gains of every channel; degenerate channels depend on data',
     [CL], [('conversion', CL + ':state_to_transfer')], ['numerator and denominator of the result or returned lists'])
prop('C09', 'Model construction is faithful and rejects inconsistent data',
     'A constructed model represents exactly the data it was given (entries, shape, static flag, single/multichannel flag, sampling period), independent of the container used, and does not change when the caller later modifies their arrays. Data that are inconsistent in shape, noncausal, with a zero denominator or a nonpositive sampling period are rejected.',
     'all real data in every accepted container form with bounded shapes and degrees',
     'container, shape and value-dependent branches multiply; tests cover chosen literals',
     [CL], [('transfer argument validation', CL + ':Transfer.validate_arguments'), ('state argument validation', CL + ':State.validate_arguments')],
     ['public attributes of the constructed model', 'exception raised'])
prop('C10', 'Indexing a model selects exactly the requested channels',
     'Indexing a model with integers, slices or index lists yields the model of exactly those output and input channels, preserving entries, order of the channels and sampling period. The system matrix assembled from a state model is [A B; C D].',
     'all real data of models up to the bounded shapes and every enumerated index expression',
     'index normalisation differs between representations and shapes; only a few combinations are tested',
     [CL], [('indexing', CL + ':State.__getitem__/Transfer.__getitem__'), ('concatenation', CL + ':concatenate_state_matrices')],
     ['entries of the sliced model'])
DF = '_discrete_funcs.py'
prop('C11', 'Rational discretisations substitute the right frequency map',
     'Discretising with the Tustin, forward/backward difference or user supplied linear fractional methods gives a model whose response at z equals the continuous response at the mapped frequency, and undiscretising with the same method inverts this map, so a round trip returns the original response. Prewarping makes continuous and discrete responses agree at the prewarp frequency.',
     'all real data with bounded order, all positive sampling periods, all supported rational methods, state and transfer models',
     'an error in one scaling factor is invisible unless response identities are checked for all data and periods',
     [DF], [('discretisation', DF + ':discretize/_discretize'), ('continuous recovery', DF + ':undiscretize/_undiscretize')],
     ['a, b, c, d and sampling period of the result'])
prop('C12', 'Hold discretisations sample the held-input response exactly',
     'Zero-order-hold discretisation reproduces the continuous state response at the sampling instants for piecewise constant inputs, and first-order-hold does so for piecewise linear inputs. Undiscretising with the same hold returns the original model.',
     'all real data of bounded order and all sampling periods for which the exponential series identities hold termwise',
     'the block exponential layout and the input terms must be right for every A, B, C, D and period',
     [DF], [('zoh and foh', DF + ':_discretize'), ('inverse hold', DF + ':_undiscretize')], ['a, b, c, d of the result'])
TD = '_time_domain.py'
prop('C13', 'Linear simulation follows the model equations',
     'Simulating a model over a uniform time grid returns outputs and states that satisfy the sampled state recursion from the given initial state with the given input, for discrete models and for continuous models whose input is held constant between samples. Inputs, times and initial states with inconsistent sizes, nonuniform grids and grids that do not match the sampling period are rejected.',
     'all real model data, inputs and initial states with bounded orders, shapes and number of samples',
     'off-by-one and ordering errors depend on data and sizes not sampled by tests',
     [TD], [('simulation', TD + ':simulate_linear_system')], ['returned output, time and state arrays'])
prop('C14', 'Step and impulse responses are simulations with the right stimulus',
     'The step and impulse responses equal, per input channel, the simulated response to a unit step or unit-area impulse, on the given time grid or on an automatically chosen increasing uniform grid that starts at zero and is a multiple of the sampling period for discrete models.',
     'all real model data with bounded order and shape, given grids of bounded length; pole patterns for the automatic grid',
     'the per-channel loop, the discrete scaling and the automatic grid depend on pole values',
     [TD], [('responses', TD + ':simulate_step_response/simulate_impulse_response'), ('grid choice', TD + ':_compute_tfinal_and_dt/_check_for_int_float_array')],
     ['returned response and time arrays'])
FD = '_frequency_domain.py'
prop('C15', 'Frequency response samples the transfer matrix on the grid',
     'The frequency response equals the transfer matrix at j*w for continuous and at exp(j*w*dt) for discrete models at every grid frequency and channel, with input and output frequency units converted consistently. Given frequencies above the Nyquist frequency of a discrete model are dropped, and a grid with none below it, an unknown unit or a two-dimensional grid is rejected.',
     'all real model data with bounded order and shape, all real grids of bounded length, all supported unit combinations',
     'unit conversion, channel order and static branches interact with data',
     [FD], [('frequency response', FD + ':frequency_response'), ('grid choice', FD + ':_get_freq_grid')], ['returned response and frequency arrays'])
prop('C16', 'Lyapunov solvers return solutions of their equations',
     'The Lyapunov solver returns the solution of the continuous, discrete or generalised equation it was asked to solve, for every symmetric right-hand side of a regular equation. Wrongly shaped data and unknown forms are rejected, and inputs are left unmodified.',
     'all real data of bounded size for which the equation is regular',
     'block recursions over the Schur form depend on eigenvalue patterns; few patterns are tested',
     ['_solvers.py'], [('solver', '_solvers.py:lyapunov_eq_solver'), ('kernels', '_solvers.py:_solve_*_lyapunov')], ['returned matrix', 'input arrays after the call'])
SP = '_system_props.py'
prop('C17', 'System norms equal their definitions',
     'The H2 norm equals the energy of the impulse response, and is infinite exactly for unstable models and for continuous models with feedthrough. The Hinf norm is the peak gain over all frequencies within its tolerance, in either time domain and for static gains too, and is infinite for models that are not stable. An unknown norm kind is rejected.',
     'all real data with bounded order, continuous or discrete, stable or unstable',
     'stability, feedthrough and time-domain branches interact with data',
     [SP, '_solvers.py'], [('norms', SP + ':system_norm')], ['returned norm'])
KO = '_kalman_ops.py'
prop('C18', 'Reachability tests and Kalman forms agree with subspace definitions',
     'The controllability and observability matrices consist of the blocks B, AB, ... and C, CA, ... in order, the controllability and observability tests agree with their rank, and the Kalman decomposition is a similarity transformation with the block zero structure of the reachable and observable subspaces. The controllability indices count, per input, the columns kept when dependent columns are removed from left to right, so their sum is the rank.',
     'all real data of bounded order and shape',
     'rank decisions and block ordering depend on data; tests use single examples',
     [KO, '_system_props.py'], [('matrices', KO + ':controllability_matrix/observability_matrix'), ('tests', KO + ':is_kalman_controllable/is_kalman_observable'), ('decomposition', KO + ':kalman_decomposition')],
     ['returned matrices, ranks and flags'])
SF = '_system_funcs.py'
prop('C19', 'Staircase and Hessenberg forms are similarity transformations',
     'The staircase and Hessenberg reductions return triplets that are orthogonally similar to the given data, by the returned transformation matrix where one is returned, have the announced zero structure, and preserve feedthrough and transfer matrix.',
     'all real data of bounded order and shape, both forms and inversion options',
     'the recursion depends on ranks of intermediate blocks',
     [SF, KO], [('staircase', KO + ':staircase'), ('hessenberg', SF + ':hessenberg_realization')], ['returned matrices'])
prop('C20', 'Minimal realisation preserves the response',
     'The minimal realisation of a model has the same transfer matrix, representation, shape and sampling period, has no more states than the original, and removes uncontrollable and unobservable or cancelling modes.',
     'all real data with bounded order, including data with exact cancellations',
     'cancellation decisions depend on data; tests use a few examples',
     [SF], [('minimal realisation', SF + ':minimal_realization')], ['entries of the result'])
SC = '_static_ctrl_design.py'
prop('C21', 'Pole placement assigns the requested poles',
     'For a controllable single-input model the computed state feedback gives the closed-loop matrix exactly the requested real or conjugate-paired poles. Multi-input, uncontrollable or wrongly sized requests are rejected.',
     'all real controllable pairs of bounded order and all self-conjugate pole sets',
     'the gain formula must hold for all data, not for a tested pair',
     [SC], [('placement', SC + ':ackermann')], ['returned gain', 'exception raised'])
prop('C22', 'Regulator design solves the stated optimal control problem',
     'The regulator gain is the stationary optimal gain of the Riccati equation with exactly the weights the caller supplied: state or output weighting, cross term, default identity input weight and continuous or discrete equation as the model requires. The returned Riccati solution, gain and closed-loop poles are consistent, and badly shaped weights are rejected.',
     'all real model data, weights of bounded size, with an arbitrary Riccati solution (contract)',
     'the assembly of weights for output weighting with feedthrough and cross terms depends on data',
     [SC], [('regulator', SC + ':lqr')], ['arguments reaching the Riccati solver', 'returned gain, solution and eigenvalues'])
PO = '_polynomial_ops.py'
prop('C23', 'Polynomial helpers compute the algebra they name',
     'Sums, products, division, companion matrices and polynomials from roots agree with polynomial arithmetic for any coefficients and lengths, including zero polynomials, leading zeros and mixed containers.',
     'all real coefficients with bounded degrees and number of arguments',
     'padding and trimming depend on lengths and zero patterns',
     [PO], [('sum, product, division', PO + ':haroldpolyadd/haroldpolymul/haroldpolydiv'), ('companion and roots', PO + ':haroldcompanion/haroldpoly')],
     ['returned coefficients'])
prop('C24', 'Common multiples and divisors have the divisibility they promise',
     'The least common multiple of polynomials is a monic common multiple of minimal degree and each returned multiplier times its argument, made monic, gives it, and the greatest common divisor is monic, divides every argument and has maximal degree.',
     'all real coefficients within bounded degrees, with shared and distinct roots',
     'rank decisions drive the degree; tests use a few root patterns',
     [PO], [('lcm', PO + ':haroldlcm'), ('gcd', PO + ':haroldgcd')], ['returned polynomials'])
prop('C25', 'Linear algebra helpers satisfy their definitions',
     'Kernel bases are annihilated by the matrix and span its null space, the economic singular value factors multiply back to the matrix with the right rank, unit vectors and matrix slices select exactly the requested columns and blocks, and complex numbers are paired with their conjugates without losing any.',
     'all real matrices of bounded shape and every enumerated slice or index',
     'rank and shape branches depend on data',
     ['_aux_linalg.py'], [('kernel, svd', '_aux_linalg.py:haroldker/haroldsvd'), ('slices and pairing', '_aux_linalg.py:matrix_slice/e_i/pair_complex_numbers')],
     ['returned arrays'])
prop('C26', 'Pole, zero and stability attributes describe the current model',
     'The poles, zeros, stability flag, static flag and sampling attributes of a model always describe its current data and sampling period, after construction and after any accepted attribute assignment; rejected assignments leave the model unchanged.',
     'all real data of bounded size and histories of construction followed by assignments',
     'stale cached attributes only show after specific assignment histories',
     [CL], [('bookkeeping', CL + ':_recalc/_set_stability and property setters'), ('zeros', CL + ':transmission_zeros')],
     ['poles, zeros, stability and sampling attributes'], over=('inputs', 'histories'))
prop('C27', 'Static and damping properties follow from the poles and response',
     'The DC gain of a model equals its transfer matrix at s=0 or z=1, per channel, and pole properties list for every pole its natural frequency and damping consistently with its location in either time domain.',
     'all real data with bounded order and shape for which the value exists',
     'the evaluation point and pole mapping depend on the time domain',
     [CL, '_frequency_domain.py'], [('pole properties', CL + ':_pole_properties'), ('gain', CL + ':dcgain')], ['returned arrays'])
prop('C28', 'Analysis and design calls leave their arguments unchanged',
     'No public function of the library modifies the models or arrays passed to it: the caller\'s data are equal before and after any call, whether or not the call succeeds.',
     'all real data of bounded sizes passed to each listed public function',
     'aliasing shows only when inputs have particular shapes, dtypes or memory order',
     [CL, KO, SF, SC, '_solvers.py', TD, FD, DF], [('public entry points', 'all modules')], ['argument arrays and model matrices after the call'])
prop('C29', 'Plots draw the computed responses of every model',
     'The Bode, Nyquist, step and impulse plots draw for every given model and channel one curve, in the panel of that channel, whose data equal the frequency or time response on the given or automatic grid: magnitude (log10 or dB) and continuous phase (degrees or radians) against frequency in the chosen unit, real against imaginary part with the mirrored curve unless it is switched off, or amplitude against time. Discrete models are drawn held between samples and with a line at the Nyquist frequency, styles are applied in order, and arguments that are not models are rejected.',
     'all real gains and poles for one to three models of bounded shape and order, both units, each option',
     'drawn data depend on combinations of several models, shapes, time domains and options, and plots are normally only checked for their panel layout',
     ['_frequency_domain_plots.py', '_time_domain_plots.py'],
     [('frequency plots', '_frequency_domain_plots.py'), ('time plots', '_time_domain_plots.py')],
     ['data, labels, colours and draw styles of the returned axes'])
prop('C30', 'Random models have the requested size, period and kind of poles',
     'A random state model has the requested numbers of states, outputs and inputs and the requested sampling period, and is stable whenever a stable model is requested, in either time domain. Without the stability request the poles of a model with several states are of the kinds that were given a nonzero probability (real, complex pair, integrator, pair on the stability boundary), and probabilities of the wrong number are rejected.',
     'all outcomes of the random number generator for bounded sizes, all sampling periods',
     'a test sees only the few outcomes of its seed; rare combinations of pole kinds, sizes and time domains stay unseen',
     [CL], [('generator', CL + ':random_state_model')], ['matrices and sampling period of the returned model'])
prop('C31', 'Bounds on the distance to lost controllability are true bounds',
     'For a pair (F, G) the first reported bound equals the smallest singular value of [F-pI, G] at the reported point p and does not exceed the second one, and the reported lower bound is below the smallest singular value at every point of the complex plane. A pair that has already lost rank is reported with distance zero at the lost mode, and pairs of inconsistent shape are rejected.',
     'all points of the complex plane, for a family of pairs and random directions',
     'a lower bound over the whole plane cannot be established by evaluating points; the suite checks only the shape errors',
     [SF], [('bounds', SF + ':cancellation_distance')], ['the five returned numbers'])

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
if __name__ == '__main__':
    import sys
    try:
        import jsonschema
        sch = json.load(open('/root/.vp/PROPERTIES.schema.json'))
        for p in P:
            assert len(p['title']) <= 80, p['id']
            jsonschema.validate(p, sch)
        print('valid', len(P))
    except ImportError:
        pass
