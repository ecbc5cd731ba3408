"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    a['hook_needed'] = hook
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=a))


M = 'mocat/src/'
prop('C01', 'Metropolis-corrected kernels leave their target exactly invariant',
     'One update of a Metropolis-corrected sampler, from any state, accepts its proposal with exactly the reported acceptance probability '
     '(zero when that probability is undefined) and otherwise keeps the current value and its recorded quantities. '
     'The reported probability is the Metropolis(-Hastings) one for the scenario at its current temperature, so that the kernel satisfies '
     'detailed balance and preserves exp(-potential), including potentials that are infinite or NaN in places.',
     ['inputs', 'configurations', 'schedules'],
     'every state, every value of every random draw, every scenario, temperature, stepsize, dimension and correction',
     'tests compare sample moments of a few fixed-key chains on Gaussians within loose tolerances; a kernel that is slightly wrong, or wrong only at boundary/NaN/rejection branches, passes',
     [M + 'mcmc/metropolis.py', M + 'mcmc/standard_mcmc.py', M + 'mcmc/sampler.py', M + 'mcmc/qn_underdamped.py'],
     [('Metropolis.correct', M + 'mcmc/metropolis.py'), ('mh_acceptance_probability', M + 'mcmc/metropolis.py'),
      ('RandomWalk.proposal/acceptance_probability', M + 'mcmc/standard_mcmc.py')],
     observe=['mocat.run chain.value/potential/alpha', 'MCMCSampler.update'])
prop('C02', 'Leapfrog dynamics are reversible, exact and pair with the right momentum rules',
     'The (preconditioned) leapfrog integrator returns the documented trajectory of the state and both half and full step momenta, is time reversible under a momentum flip, preserves volume, and records potentials and gradients of the points visited at the given temperature. '
     'The underdamped samplers refresh momenta exactly by the Ornstein-Uhlenbeck law (stationary for the sampler\'s Gaussian momenta at every friction and stepsize), continue in the direction of travel after an acceptance, reverse it after a rejection, and accept with the change in total energy, so that the extended target is invariant.',
     ['inputs', 'configurations', 'schedules'],
     'every start, momentum, stepsize, friction, number of leapfrog steps, temperature and sequence of accept/reject outcomes',
     'tests assert one leapfrog trajectory and long-run averages; reversibility, momentum persistence after rejection and the friction-dependent refresh law are never exercised',
     [M + 'utils.py', M + 'mcmc/standard_mcmc.py', M + 'mcmc/qn_underdamped.py'],
     [('leapfrog', M + 'utils.py'), ('Underdamped.always/proposal', M + 'mcmc/standard_mcmc.py'), ('bfgs_leapfrog, QNUnderdamped', M + 'mcmc/qn_underdamped.py')],
     observe=['mocat.utils.leapfrog', 'mocat.utils.bfgs_leapfrog', 'MCMCSampler.update'])
prop('C03', 'A run returns exactly the requested chain, with consistent records',
     'For every sampler and every n, run returns one row per state, n of them for MCMC, the first being the given (or prior-drawn) initial state, the others the states of successive updates up to termination, in order. '
     'Every recorded potential, gradient, distance or tuned parameter of a row is that of the row\'s own value, also when the run is resumed from the last state of an earlier one (whatever temperature that was recorded at), and a rejected update repeats the row.',
     ['inputs', 'configurations', 'histories'],
     'every sampler, n, dimension, correction, initial state (given, partial, resumed or absent)',
     'tests look at chain.value statistics for a handful of n and never compare recorded fields against re-evaluation or the chain against step-by-step updates',
     [M + 'sample.py', M + 'utils.py', M + 'mcmc/sampler.py', M + 'mcmc/standard_mcmc.py', M + 'mcmc/qn_underdamped.py', M + 'transport/sampler.py'],
     [('run', M + 'sample.py'), ('while_loop_stacked', M + 'utils.py'), ('startup/clean_chain', M + 'mcmc/sampler.py')],
     observe=['mocat.run'])
prop('C04', 'Robbins-Monro adaptation moves the parameter the right way, then freezes',
     'At each adapted step the tuned parameter changes by the Robbins-Monro increment scale*iter^-exponent times (metric minus target), additively or on the log scale as configured, in the direction that moves the metric towards its target for the declared monotonicity. '
     'No adaptation happens after the cut-off, the recorded parameter is the one used by the next step, and each run starts from the sampler\'s configured value (or the documented default when unset).',
     ['schedules', 'configurations', 'histories'],
     'every sequence of metric values (accept/reject outcomes), schedule constants, cut-off, monotonicity and reuse of the sampler or correction',
     'tests only check that the final acceptance rate is near the target for one configuration',
     [M + 'mcmc/metropolis.py', M + 'abc/mcmc.py', M + 'transport/smc.py'],
     [('RMMetropolis.adapt', M + 'mcmc/metropolis.py'), ('RMMetropolisDiagStepsize', M + 'abc/mcmc.py'), ('RMMetropolisedSMCSampler', M + 'transport/smc.py')],
     observe=['chain.stepsize', 'mocat.run'])
prop('C05', 'Results depend only on the current configuration and key, not on history',
     'Running an algorithm twice with equal scenario, sampler settings, inputs and random key gives equal results. '
     'Earlier runs, filters or evaluations with the same scenario or sampler objects, and earlier values of attributes that have since been reassigned, never influence a later result: a mutated and reused object behaves as a freshly built one with the same settings.',
     ['histories', 'configurations'],
     'every sequence of constructions, attribute reassignments, runs and evaluations followed by a run',
     'each test builds fresh objects and runs once; stale compiled code, state left on samplers and mutated inputs only show after a second use',
     [M + 'sample.py', M + 'core.py', M + 'utils.py', M + 'ssm/filtering.py', M + 'ssm/backward.py', M + 'ssm/online_smoothing.py', M + 'ssm/nonlinear_gaussian.py', M + 'mcmc/qn_underdamped.py', M + 'scenarios/toy_examples.py', M + 'transport/svgd.py', M + 'transport/smc.py', M + 'transport/teki.py', M + 'abc/smc.py'],
     [('jit static arguments', M + 'utils.py'), ('Sampler.startup', M + 'sample.py'), ('__setattr__ of scenarios', M + 'core.py')],
     observe=['mocat.run', 'mocat.ssm functions'])
prop('C06', 'Every random draw uses fresh, independent randomness',
     'Within one call of any sampler, filter or smoother, no random key is consumed by two different draws, nor both drawn from and split, and particles, ensemble members, steps and components receive distinct keys. '
     'Hence all draws of the algorithm are mutually independent for any key the user supplies. (Deterministic priors; the likelihood may be stochastic.)',
     ['configurations', 'schedules'],
     'every sampler/filter/smoother, number of steps and particles, and every branch taken',
     'correlated draws leave the moments checked in tests almost unchanged',
     [M + 'mcmc/standard_mcmc.py', M + 'mcmc/metropolis.py', M + 'mcmc/qn_underdamped.py', M + 'transport/smc.py', M + 'transport/svgd.py', M + 'transport/teki.py', M + 'abc/mcmc.py', M + 'abc/smc.py', M + 'abc/importance.py', M + 'ssm/filtering.py', M + 'ssm/backward.py', M + 'ssm/online_smoothing.py', M + 'ssm/ssm.py', M + 'ssm/nonlinear_gaussian.py'],
     [('random.split discipline', M + 'sample.py')], observe=['jax.random calls'])
prop('C07', 'Potential, gradient and tempering of a scenario stay consistent',
     'At every point, a scenario\'s potential is prior + temperature * likelihood potential, each gradient function is the derivative of the matching potential, and each combined function returns that potential and gradient, with temperature 0 and 1 reducing to prior and posterior. '
     'This holds for any combination of supplied potential/prior/likelihood functions, in one or more dimensions, and still holds after any sequence of reassignments of temperature, potentials or parameters (a reassigned potential counts, as in the constructor, as a likelihood potential with zero prior).',
     ['histories', 'inputs', 'configurations'],
     'every kind of scenario definition, sequence of attribute assignments, temperature and point',
     'tests evaluate default scenarios once; re-assignment histories and tempered values are not covered',
     [M + 'core.py', M + 'scenarios/toy_examples.py', M + 'scenarios/twodim/vectorise.py', M + 'abc/scenarios/linear_gaussian.py'],
     [('Scenario.__init__/__setattr__/init_grad', M + 'core.py')], observe=['Scenario.*potential*', 'Scenario.grad_*'])
prop('C08', 'Built-in scenarios and Gaussian potentials are the densities they claim',
     'Gaussian potentials in every accepted parameterisation (scalar, diagonal, full precision, precision square root, single or vectorised points) equal minus the log density, and built-in toy, two-dimensional, Gaussian and mixture scenarios equal minus the log of the documented density up to a constant, for every mean, covariance and weight. '
     'Vectorised evaluation agrees with pointwise evaluation and reassigning a covariance updates every derived quantity.',
     ['inputs', 'configurations', 'histories'],
     'every parameter value, parameterisation, batch shape and point, correlated covariances included',
     'tests use identity or diagonal covariances, where transposed or inverted factors coincide',
     [M + 'utils.py', M + 'scenarios/toy_examples.py', M + 'scenarios/twodim/toy_examples.py', M + 'scenarios/twodim/vectorise.py', M + 'abc/scenarios/linear_gaussian.py'],
     [('gaussian_potential, reset_covariance', M + 'utils.py'), ('GaussianMixture', M + 'scenarios/toy_examples.py')],
     observe=['Scenario.potential', 'mocat.utils.gaussian_potential'])
prop('C09', 'Tempered SMC follows its temperature schedule and weights correctly',
     'A tempered SMC run visits strictly the scheduled temperatures (or, adaptively, the next temperature at which the conditional effective sample size meets the threshold, capped by the maximum), starts at the prior and ends exactly at the maximum temperature. '
     'At every iteration log-weights accumulate the potential increments since the last resample, the effective sample size and log normalising constant are those of the weights, resampling happens exactly when the effective sample size is at or below the threshold fraction and resets the weights, and mutation targets the current temperature. (Adaptive temperatures: likelihood potentials finite.)',
     ['inputs', 'schedules', 'configurations'],
     'every particle configuration, schedule, threshold, resampling decision and move outcome',
     'tests compare final sample moments from hundreds of particles; wrong weights or temperatures by one index shift them too little',
     [M + 'transport/smc.py', M + 'transport/sampler.py', M + 'metrics.py'],
     [('SMCSampler.update', M + 'transport/smc.py'), ('TemperedSMCSampler', M + 'transport/smc.py')],
     state=[('log_weight', 'log-weights since last resample', M + 'transport/smc.py')],
     observe=['chain.temperature', 'chain.log_weight', 'chain.ess', 'chain.log_norm_constant'])
prop('C10', 'Resampling draws whole particles with probability proportional to weight',
     'Whenever a sampler, particle filter or smoother resamples, each output particle is an independent draw from the weighted particles, with probability proportional to the weight (zero-weight particles never survive), all fields of the particle (value, potentials, simulated data, ancestry) are gathered together from the same parent, and the weights are reset to equal. '
     'When it does not resample, particles and weights are left as they were. (At least one weight positive.)',
     ['schedules', 'inputs'],
     'every weight vector, resampling outcome and particle record',
     'tests check averages over many particles, which tolerate misaligned fields or slightly wrong probabilities',
     [M + 'transport/smc.py', M + 'abc/smc.py', M + 'ssm/filtering.py', M + 'ssm/online_smoothing.py', M + 'abc/importance.py'],
     [('SMCSampler.resample', M + 'transport/smc.py'), ('resample_particles', M + 'ssm/filtering.py')],
     observe=['chain rows after resampling', 'mocat.ssm.resample_particles'])
prop('C11', 'ABC samplers keep distances, thresholds, weights and parameters in step',
     'Every ABC sample or particle records the distance of its own simulated data to the observed data; importance ABC returns independent draws of the importance proposal with weights that are exactly the configured function of that distance; ABC-MCMC accepts only proposals within the threshold, with the prior ratio. '
     'ABC-SMC thresholds never increase, follow the schedule or retained-quantile rule, kill exactly the particles beyond the threshold, never revive or move dead ones, and report as effective sample size the number alive and as acceptance rate that of the living (at least one particle alive).',
     ['schedules', 'inputs', 'configurations'],
     'every simulated-data outcome, threshold schedule, number of particles and accept/reject pattern',
     'tests only check that posterior means are roughly right on a linear Gaussian and GK example',
     [M + 'abc/abc.py', M + 'abc/importance.py', M + 'abc/mcmc.py', M + 'abc/smc.py'],
     [('ABCSMCSampler', M + 'abc/smc.py'), ('RandomWalkABC', M + 'abc/mcmc.py'), ('ImportanceABC', M + 'abc/importance.py')],
     observe=['chain.distance', 'chain.threshold', 'chain.log_weight', 'chain.ess'])
prop('C12', 'cdict behaves as a record of arrays under indexing, joining, copying and JAX',
     'Indexing a cdict indexes every array field (recursively, except static sub-dicts and scalars) and leaves the original untouched; adding concatenates matching array fields along the first axis and keeps the rest of the left operand; copies are independent at their documented depth. '
     'Flattening/unflattening through any JAX transformation returns an equal cdict of the same type with the same keys (static sub-dicts are opaque leaves of an index or sum).',
     ['programs', 'inputs'],
     'every sequence of these operations on every nesting and mixture of field types',
     'tests apply each operation once to one small cdict',
     [M + 'core.py'], [('cdict', M + 'core.py')], observe=['mocat.cdict'])
prop('C13', 'Saving a cdict never loses an existing file and round-trips exactly',
     'Loading a saved cdict returns equal values, types and nesting, and the file written is the path the caller named (with the .cdict suffix added if absent). '
     'An existing file is never altered unless overwriting was requested, and if saving fails or the process dies at any point, the path afterwards holds either the complete old content or the complete new content, and no partial file that blocks a later save (one writer at a time).',
     ['crash_points', 'fault_sequences', 'histories'],
     'every filesystem-operation prefix of every save history, every failing operation, every path spelling',
     'the tests save once to a fresh path with no faults',
     [M + 'core.py'], [('save_cdict, load_cdict', M + 'core.py')], observe=['file system', 'mocat.save_cdict', 'mocat.load_cdict', 'cdict.save'])
prop('C14', 'Particle filters weight, resample and estimate exactly as the model prescribes',
     'At each observation time particles are resampled only when the effective sample size is below the threshold, propagated by the transition from their own parent between the right two times, and weighted by the observation potential of the right observation with the proposal correction. '
     'For any model the filter\'s weighted averages are properly weighted: the expected product of average weights is exactly the likelihood, and incrementally propagating one observation at a time gives the same particle system law as the batch filter. (For the optimal filter the initial weights are up to the common factor p(y_0).)',
     ['inputs', 'schedules', 'configurations'],
     'every model, proposal, number of particles, thresholds, observation times and outcome of every draw',
     'tests compare filter means to smoothed truths with many particles on simple models',
     [M + 'ssm/filtering.py', M + 'ssm/nonlinear_gaussian.py', M + 'ssm/ssm.py'],
     [('run_particle_filter_for_marginals', M + 'ssm/filtering.py'), ('propagate_particle_filter', M + 'ssm/filtering.py'), ('OptimalNonLinearGaussianParticleFilter', M + 'ssm/nonlinear_gaussian.py')],
     observe=['mocat.ssm.* outputs value/log_weight/ess/log_norm'])
prop('C15', 'Backward simulation draws trajectories with the exact backward weights',
     'Given filter particles, each simulated trajectory picks its final state by filter weight and then, backwards in time, each earlier particle with probability proportional to its filter weight times the transition density to the already chosen next state. '
     'The law of the output is the same for the full, the rejection-sampling and the hybrid (capped rejection) variants given a valid bound on the transition density, and every trajectory consists of actual filter particles at the right times.',
     ['inputs', 'schedules', 'configurations'],
     'every filter output, transition density, rejection bound and cap, and every outcome of every draw',
     'tests only compare smoothed means within loose tolerance',
     [M + 'ssm/backward.py'], [('backward_simulation', M + 'ssm/backward.py'), ('forward_filtering_backward_simulation', M + 'ssm/backward.py')],
     observe=['mocat.ssm.backward_simulation'])
prop('C16', 'Online fixed-lag smoothing only rewrites the lag window, with the right law',
     'Propagating a particle smoother by one observation appends exactly one time step, never changes any trajectory before the lag window except by whole-trajectory resampling, and keeps time and observation records aligned. '
     'Stitching joins a fixed early part to a candidate recent part with probability proportional to the candidate\'s weight times the joining transition density over the density from its own parent, whether computed fully or by (capped) rejection.',
     ['inputs', 'schedules', 'configurations', 'histories'],
     'every sequence of propagations, lag, particle numbers and outcome of every draw',
     'tests compare final means for one lag only',
     [M + 'ssm/online_smoothing.py'], [('propagate_particle_smoother_pf/bs', M + 'ssm/online_smoothing.py'), ('fixed_lag_stitching', M + 'ssm/online_smoothing.py')],
     observe=['mocat.ssm.propagate_particle_smoother'])
prop('C17', 'Kalman filtering and smoothing equal exact Gaussian conditioning',
     'For every linear Gaussian model (time-varying or homogeneous, any dimensions, correlated covariances, irregular times) the filter and smoother results equal the conditional means and covariances of the joint Gaussian and the lag-one results the conditional second moments E[x_t x_{t+1}^T], for every number of observations from one up. '
     'The exact posterior of a linear Gaussian toy or ABC scenario equals the conditional Gaussian likewise.',
     ['inputs', 'configurations'],
     'every model matrix, covariance, initial law, observation sequence and length',
     'tests use diagonal matrices and long sequences and compare with particle averages',
     [M + 'ssm/linear_gaussian/kalman.py', M + 'ssm/linear_gaussian/linear_gaussian.py', M + 'utils.py', M + 'abc/scenarios/linear_gaussian.py'],
     [('run_kalman_filter_for_marginals', M + 'ssm/linear_gaussian/kalman.py'), ('run_kalman_smoother_for_marginals_and_lag_ones', M + 'ssm/linear_gaussian/kalman.py')],
     observe=['mocat.ssm.run_kalman_*'])
prop('C18', 'State-space potentials, samplers and gradients describe one and the same model',
     'For every state-space scenario and parameter value, initial, transition and observation potentials are minus the log densities (up to an additive constant in the states, for fixed parameters and times) of what the corresponding sampler draws, at every time and time gap, and the built-in models are the documented ones. '
     'The smoothing potential of a trajectory is the sum of these over its length, for every length, and all gradient functions are the derivatives of the matching potentials.',
     ['inputs', 'configurations'],
     'every scenario, parameter value (correlated covariances included), time gap, trajectory length and state',
     'tests check a single model with unit gaps and diagonal covariances',
     [M + 'ssm/ssm.py', M + 'ssm/nonlinear_gaussian.py', M + 'ssm/linear_gaussian/linear_gaussian.py', M + 'ssm/scenarios/stochastic_volatility.py', M + 'ssm/scenarios/nonlinear1d.py', M + 'ssm/scenarios/lorenz63.py', M + 'ssm/scenarios/lorenz96.py'],
     [('StateSpaceModel.smoothing_potential', M + 'ssm/ssm.py'), ('NonLinearGaussian', M + 'ssm/nonlinear_gaussian.py')],
     observe=['StateSpaceModel.*'])
prop('C19', 'Kernels are symmetric and their derivatives are true derivatives',
     'Every kernel\'s gradient, diagonal and mixed second derivative functions equal the derivatives of its evaluation function, for every bandwidth or preconditioner and pair of points, and evaluation is symmetric. '
     'Derivatives that are rewritten or inherited agree with automatic differentiation, and bandwidth update rules compute the documented statistic of the ensemble.',
     ['inputs', 'configurations'],
     'every kernel, parameter value, dimension and pair of points (coinciding points included)',
     'the tests evaluate one kernel at bandwidth one',
     [M + 'kernels.py'], [('Kernel subclasses', M + 'kernels.py')], observe=['mocat.kernels.*'])
prop('C20', 'Generic numeric utilities meet their definitions on every input',
     'The stacked loop returns exactly the states of an ordinary while loop (condition checked before every step, cut at the iteration limit), for every condition pattern including immediate termination; root bracketing keeps the sign change bracketed, converges or reports its iterations, and returns when no sign change exists. '
     'Index, distance and correlation-taper helpers equal their definitions for every size.',
     ['programs', 'inputs'],
     'every loop program up to the bound, every bracket and monotone function, every index and size',
     'tests exercise a couple of instances of each',
     [M + 'utils.py'], [('while_loop_stacked, bisect, leave_one_out_indices, gc_matrix', M + 'utils.py')], observe=['mocat.utils.*'])
prop('C21', 'Quasi-Newton factors represent one positive-definite inverse-consistent matrix',
     'For every history of positions and gradients, the computed limited-memory factors define a Hessian approximation and an inverse that are mutually inverse, positive definite when regularised, satisfy the secant condition for the latest admissible update, and skipped updates have no effect. '
     'Factor products, transposed products and determinants agree with the explicit matrices.',
     ['inputs', 'histories'],
     'every history of vals/grads up to the bound, initial diagonal, regularisation and update mask',
     'tests check one random history',
     [M + 'utils.py', M + 'mcmc/qn_underdamped.py'], [('bfgs_sqrt_pqut and products', M + 'utils.py')], observe=['mocat.utils.bfgs_*'])
prop('C22', 'SVGD moves every particle by the kernelised Stein direction',
     'Each SVGD iteration moves every ensemble member by stepsize times the average over the (mini-batched) ensemble of kernel times score plus kernel gradient, batches are drawn uniformly (with replacement) from the ensemble for each member, potentials and gradients recorded are of the current positions, and the stepsize schedule (iteration k uses schedule(k), k from 1) and iteration limit are honoured. '
     'The result is equivariant to relabelling of the particles when no batching is used.',
     ['inputs', 'schedules', 'configurations'],
     'every ensemble, kernel, stepsize schedule, batch size and batch outcome',
     'tests check only the final mean of a large ensemble',
     [M + 'transport/svgd.py', M + 'transport/sampler.py', M + 'kernels.py'], [('SVGD.update', M + 'transport/svgd.py')], observe=['mocat.run with SVGD'])
prop('C23', 'Ensemble Kalman inversion performs tempered updates to the end temperature',
     'Each tempered ensemble Kalman iteration moves every member by the ensemble-estimated gain at the current temperature increment applied to its own simulated-data mismatch; temperatures strictly increase along the given or adaptive schedule, never exceed and finally equal the maximum temperature. '
     'The run terminates there.',
     ['inputs', 'schedules', 'configurations'],
     'every ensemble, data, schedule, and every simulated-noise outcome',
     'tests check only final ensemble means',
     [M + 'transport/teki.py'], [('TemperedEKI, AdaptiveTemperedEKI', M + 'transport/teki.py')], observe=['mocat.run with TemperedEKI'])
prop('C24', 'Sample metrics equal their mathematical definitions on every chain',
     'Autocorrelation, integrated autocorrelation time, effective sample sizes, squared jumping distance and kernel Stein discrepancy equal the direct evaluation of their definitions on every chain, for every lag bound, length, dimension, weighting and batching, and ignore constants added to log-weights (integrated autocorrelation time: with its automatic window).',
     ['inputs', 'configurations'],
     'every chain, lag cut-off, weights and batch configuration',
     'tests check one or two chains per metric',
     [M + 'metrics.py'], [('autocorrelation, ksd, log_ess_log_weight', M + 'metrics.py')], observe=['mocat.autocorrelation etc.'])
prop('C25', 'Built-in simulators draw from the process they document',
     'Every built-in ABC simulator (g-and-k, Lotka-Volterra, SIR, Ricker, linear Gaussian) produces, for each outcome of its underlying draws, exactly the data of the documented process under the given parameters, read off at the requested observation times. '
     'Event choices follow the rates, populations evolve by the stoichiometry, stay non-negative and freeze once no event is possible, and priors and their potentials match the samplers. (Rows an event-limited simulation never reached are not constrained.)',
     ['inputs', 'schedules', 'configurations'],
     'every parameter value, observation grid and outcome of every draw up to the bound',
     'most of these simulators have no test at all; the others are sampled once',
     [M + 'abc/scenarios/gk.py', M + 'abc/scenarios/lotka_volterra.py', M + 'abc/scenarios/SIR.py', M + 'abc/scenarios/ricker.py', M + 'abc/scenarios/linear_gaussian.py'],
     [('likelihood_sample', M + 'abc/scenarios/')], observe=['ABCScenario.likelihood_sample'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    print(len(P))
