"""Writes properties.jsonl (kept as code so that long texts stay editable)."""
import json, os
INF, INT, ANA, KF, SH = ('sdepy/infrastructure.py', 'sdepy/integration.py', 'sdepy/analytical.py', 'sdepy/kfun.py', 'sdepy/shortcuts.py')
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))

p('A01', 'A process stores exactly the timeline and values it was built from',
  "A process built from a timeline and an array (full values, deterministic values, or a constant) has shape (time points,) + value shape + (paths,), holds at every time, component and path exactly the given value (a constant being repeated at every time point), and exposes the same timeline, time increments and value view. Giving none or more than one kind of values, a timeline that is empty or multidimensional, or values whose first dimension does not match the timeline is rejected with an error.",
  ['inputs'], 'all real timelines and values; all value shapes up to 2 axes of size <=3, up to 4 time points, up to 3 paths',
  'Tests build processes from a handful of fixed random arrays; they cannot show that no value or shape combination is misplaced.',
  [INF], [('process.__new__', INF), ('vshape/paths/dt/dtx/tx', INF)], ['p.t, p.x, p.shape, p.vshape, p.paths, p.dt, p.dtx, p.tx'])
p('A02', 'Arithmetic on processes is elementwise and keeps the right timeline',
  "Any elementwise operation between a process and a number, an array, or another process yields, at every time, component and path, the operation applied to the corresponding values, as a process on the timeline of the non-constant operand. Two processes are combined only if they share the same timeline or one of them has a single time point, and if their value and path axes match one by one (equal or of size one); every other combination raises an error and never silently mixes axes.",
  ['inputs'], 'all real values and timelines; binary operators and ufuncs, in-place forms, both operand orders, shapes and timelines compatible or not within 3 time points, 2 value axes, 3 paths',
  'Tests try some shapes with one random fill; compatibility must be decided right for every pair of timelines and shapes.',
  [INF], [('__array_prepare__/__array_wrap__/_is_compatible', INF)], ['the returned process x and t'])
p('A03', 'Process interpolation is exact at its nodes, linear between, flat outside',
  "Evaluating a process at any array of times returns, for every component and path, its stored value at its own time points, the linear interpolation of the neighbouring values in between, and the first or last value before or after its timeline; a single time point process is constant. Evaluating with an increment returns value(s+ds) - value(s), and rebasing on a new timeline gives the process with those interpolated values; piecewise constant processes return the value of the interval or nearest node as their mode states.",
  ['inputs'], 'all real evaluation times (before, at, between, after nodes), increments of any sign, values and timelines; 1-4 nodes, scalar or array arguments, modes mid/forward/backward',
  'Tests compare with the same scipy call at a few times; the claim is about every time and node position.',
  [INF], [('process.interp/__call__/rebase', INF), ('piecewise', INF)], ['p(s), p(s, ds), p.rebase(t), piecewise(...)(s)'])
p('A04', 'Time, value and path indexing, reshaping and copies address the right data',
  "Indexing a process by time, by value components or by paths returns a process holding exactly the selected values, with the timeline restricted to the selected times or unchanged; reshaping to another value shape only adds or removes leading value axes of size one and otherwise fails. Copies of values, of timeline or of both are equal to the original, and writing to what was copied leaves the original unchanged while what was not copied stays shared.",
  ['inputs'], 'all real values; integer (both signs), slice, list and multi-index keys within 4 time points, 2 value axes, 3 paths',
  'Tests sample some keys; aliasing and axis selection must be right for each key and shape.',
  [INF], [('process.__getitem__, shapeas, pcopy/xcopy/tcopy', INF)], ["p['t',i], p['v',i], p['p',i], p.shapeas, p.pcopy"])
p('A05', 'Summaries across paths, values or time are the sample statistics they name',
  "The minimum, maximum, sum, mean, variance and standard deviation of a process across paths, across value components or across time equal those statistics of the stored numbers along that axis only (variances with the requested degrees of freedom correction). Results keep the timeline (across paths or components) or its first point (across time) and the remaining axes; the cumulative sum over time holds at each time the sum up to and including it.",
  ['inputs'], 'all real values, including ties and sign changes; up to 3 time points, 2 value axes, 3 paths; ddof 0, 1 and 2; integer and boolean values as well',
  'Tests compare with numpy on random fills; the order and tie structure of the sample is the quantifier.',
  [INF], [('p*/v*/t* summary methods', INF)], ['pmin..tstd, tcumsum'])
p('A06', 'Discrete calculus on processes: differences, derivative and integral invert',
  "Process increments are the differences of consecutive values divided by the given power of the time step, assigned to the left or right end of each step as requested. The derivative and the integral invert each other: integrating the derivative gives the process minus its initial value, and differentiating the integral gives back the process, on the timeline without its last point; the integral starts at zero.",
  ['inputs'], 'all strictly increasing timelines of 2-4 points, all real values, exponents 0, 1/2, 1, 2, -1, both directions; integer and boolean values as well',
  'Tests use equally spaced or few timelines; uneven spacings are where indexing mistakes hide.',
  [INF], [('tdiff, tder, tint', INF)], ['p.tdiff, p.tder, p.tint'])
p('A07', 'Empirical characteristic function and distribution of a process are sample means',
  "At each requested time (or at the process own times) and argument, the empirical characteristic function is the mean over paths of exp(i u x) and the empirical distribution function is the fraction of paths with value not above the argument. Results are indexed by time, then by argument, then by value component.",
  ['inputs'], 'all real values, arguments and evaluation times; up to 2 times, 2x2 arguments, 3 paths, 1 value axis',
  'Tests check normal samples to statistical tolerance, which cannot separate < from <= or axis mixups.',
  [INF], [('process.chf, process.cdf', INF)], ['p.chf, p.cdf'])

p('B01', 'Wiener increments are centred gaussians with variance |dt| and given correlation',
  "For every time, time increment of either sign, value shape and number of paths, the increments delivered by a Wiener source are zero mean gaussians, independent across times, paths and uncorrelated components, with variance equal to the absolute value of the increment; with a correlation matrix (or a vector of pairwise correlations between the first and second half of the components), constant or time dependent, components along the last value axis have that correlation evaluated at the midpoint of the step. Correlation parameters whose shape does not fit the value shape are rejected.",
  ['inputs', 'configurations'], 'all real t, dt (arrays up to 2x2), correlations in [-1,1]; value shapes up to 2 axes with 1-4 correlated components, 1-2 paths; correlation constant, callable, with trailing axis, via matrix or vector',
  'Statistical tests sample with tolerance and a few shapes; the law must be exact for every dt and correlation.',
  [INF], [('wiener_source.__call__', INF), ('_get_corr_matrix', INF)], ['covariance of the returned array as a function of base noise'])
p('B02', 'Poisson increments: rate lam(midpoint)*|dt|, sign of dt, one draw per entry',
  "For every time and increment, a Poisson source returns integer counts with the sign of the increment, each an independent Poisson draw with mean equal to the absolute increment times the intensity, which is taken at the midpoint of the step when time dependent and broadcast over components and paths. Intensities that cannot broadcast to the source shape are rejected.",
  ['inputs', 'configurations'], 'all real t, dt and intensities >= 0; arrays of steps up to 2, value shapes up to 1 axis of 2, 1-2 paths; counts 0-2 per draw',
  'Tests check sample means to tolerance for a few dt.',
  [INF], [('poisson_source.__call__', INF)], ['requested Poisson means and returned counts'])
p('B03', 'Compound Poisson increments are the signed sums of the jumps that occurred',
  "Each increment of a compound Poisson source equals, for every component and path, the sum of exactly as many independent jump sizes as the number of Poisson jumps it drew in that step, with the sign of the time increment, and is zero when no jump occurred; jump sizes are drawn from the given distribution, taken at the midpoint of the step when time dependent. The number of jumps and the jump sizes the source reports after the call are those that produced the increment.",
  ['inputs', 'schedules'], 'all real jump sizes, dt of either sign or zero; step arrays up to 2, 1-2 components, 1-2 paths, 0-3 jumps each',
  'Tests compare sample moments; a misattributed jump preserves them.',
  [INF], [('cpoisson_source.__call__', INF)], ['returned dz, dn_value, y_value'])
p('B04', 'Antithetic sources repeat the first half of the paths, mirrored or copied',
  "Antithetic sources deliver an even number of paths in which the second half equals minus the first half (Wiener) or a copy of the first half (Poisson and compound Poisson), the first half being a plain source of half the paths with the same parameters. An odd number of paths is rejected, and the declared paths, value shape and generator are those of the delivered values.",
  ['inputs'], 'all real t, dt and noise; 2 or 4 paths, value shapes up to 1 axis, with correlations and jump parameters',
  'Tests check one seed; the mirror must hold for each draw.',
  [INF], [('_antithetics', INF)], ['returned increments'])
p('B05', 'Realized Wiener paths: one consistent Brownian motion under any query order',
  "A Wiener source with memory answers any sequence of time queries, in any order, on both sides of its initial time and repeated, with the values of one and the same path: asking again returns the same value, increments over adjacent intervals add up, and the value at the initial time is the given one. Jointly, the values it returns have the law of a Brownian motion with the given correlation: covariance between two times on the same side of the initial time equals the correlation integrated up to the closer one, and zero across sides (time dependent correlation being taken at the midpoint of each generated sub-interval).",
  ['histories', 'inputs'], 'every sequence of up to 4 scalar or array queries at arbitrary real times (every ordering and coincidence; distinct times differ by more than the tolerance), any initial time and value, constant or linear time dependent correlation',
  'Tests use a few fixed query orders with statistical tolerance; bridging errors show only for specific orders.',
  [INF], [('true_source._retrieve_old_or_generate_new', INF), ('true_wiener_source.new_inside/new_outside', INF)], ['returned values, source.t'])
p('B06', 'Realized Poisson and compound Poisson paths stay consistent under refinement',
  "A Poisson or compound Poisson source with memory answers any sequence of time queries with the values of one path: repeated queries agree, increments over adjacent intervals add up, earlier answers never change when intermediate times are asked later, counts never decrease in time, and each refined count is drawn binomially in proportion to time. A compound path moves by exactly the jumps whose count the underlying Poisson path records, for every jump size including zero or cancelling ones.",
  ['histories', 'inputs'], 'every sequence of up to 4 queries at arbitrary real times on both sides of the initial time (equal or farther apart than the tolerance); up to 2 jumps per generated interval, any real jump sizes, 1-2 paths',
  'Tests use fixed seeds and continuous jump sizes; refinement bookkeeping depends on order and on special jump sizes.',
  [INF], [('true_poisson_source.new_inside', INF), ('true_cpoisson_source.new_inside/_encode_y/_decode_y', INF)], ['returned values, source.dn'])
p('B07', 'Jump size distributions have the stated law, moments and exponential mean',
  "The normal, uniform, exponential and double exponential jump distributions draw samples with the stated parameters (sign and scale of each branch, upward branch chosen with the stated probability), their means, variances and standard deviations are those of the sampled law, and their exponential mean is the expectation of exp(jump), infinite where it diverges, elementwise for array parameters. Mapping a distribution through a function applies it to each sample, with the time passed when either depends on time, and time dependent parameters are evaluated at the time requested.",
  ['inputs'], 'all admissible real parameters, scalar or arrays of 2 (upward branch probability positive where its mean is one or more); all uniform/exponential/normal base draws',
  'Tests check a handful of parameter values by simulation.',
  [INF], [('norm_rv.., _exp_rv, _double_exp_rv, rvmap', INF)], ['rvs, mean, var, std, exp_mean'])

p('C01', 'Monte Carlo moments do not depend on how the sample is fed',
  "After any sequence of updates, the mean, variance, standard deviation, skewness, kurtosis (standardized third and fourth moments) and standard error of a Monte Carlo accumulator are those of the pooled sample of at least two paths, for every split of the sample into batches, choice of paths axis, and component. Antithetic accumulation uses the half sums or half differences of the paired paths, needs an even sample, and counts half the paths; selecting components selects their statistics.",
  ['histories', 'inputs'], 'all real samples of 2 to 4 paths in every split into up to 3 batches, value shapes up to 2 axes, any axis, modes all/even/odd',
  'Tests compare a few random batches against numpy for one split.',
  [INF], [('montecarlo.update/_update_moments', INF)], ['mean, var, std, skew, kurtosis, stderr, paths, vshape'])
p('C02', 'Monte Carlo histograms account for every path, and densities integrate to one',
  "After any sequence of updates the histogram counts of each component are those of the pooled sample on the bins fixed at the first update (or given), and counts plus the reported outside paths equal the number of paths. The density histogram integrates to one, the cumulative distribution is consistent with the counts at the bin edges when interpolated and is the integral of the kernel density otherwise, and the interpolated density equals the density at bin midpoints and vanishes outside.",
  ['histories', 'inputs'], 'all real samples of up to 3 paths in up to 2 batches, 1-3 bins, explicit or automatic edges, 1-2 components; all evaluation points and bandwidths',
  'Tests check total counts on random normal samples.',
  [INF], [('montecarlo._update_histogram/_pdf_or_cdf', INF)], ['histogram, density_histogram, outpaths, outerr, pdf, cdf'])

p('D01', 'Integration visits every requested step and stores every output time once',
  "For every output timeline, step specification (none, a number, or an iterable of times) and index of the initial time, path generation advances through exactly the union of the output times and the admissible steps inside the timeline, each interval once, forwards from the initial time and backwards before it, and stores the result at every output time, in timeline order, with the initial condition at the initial time. The reported numbers of computed and stored steps match when the integration runs in one direction, and invalid timelines or indexes are rejected.",
  ['schedules', 'inputs'], 'all strictly increasing timelines of 1-4 points, step iterables of up to 3 arbitrary times or counts up to 4, every initial index of either sign',
  'Tests use fixed grids; coincidences between steps and outputs, and each initial index, are the quantifier.',
  [INT], [('paths_generator.__call__/_generate_paths/pace', INT)], ['(t, dt) sequence of integrator steps, returned process, info'])
p('D02', 'Preset processes follow their documented Euler recursion step by step',
  "Along any sequence of steps, the realized path of each preset process (Wiener, lognormal, Ornstein-Uhlenbeck, Hull-White with any number of factors, Cox-Ingersoll-Ross, Heston, jump-diffusion, Merton, Kou) satisfies at each step and for each component and path the Euler recursion of its documented stochastic differential equation driven by the source increments of that step, starting from the documented initial value. Positive processes stay positive, and the square root and stochastic variance dynamics use the positive part of the state.",
  ['inputs', 'schedules'], 'all real parameters in their domain (scalar or per component), initial values, source increments and timelines of 2-3 points, with or without intermediate steps, forward and backward',
  'Tests compare sample moments to exact ones within statistical and discretization error; a wrong drift term of the order of dt is inside tolerance.',
  [INT], [('*_SDE.sde/init/let/result', INT), ('integrator.euler_next', INT)], ['returned process'])
p('D03', 'Parameters may depend on time or path: each step uses their value at its start',
  "Replacing a constant parameter of a process by a function of time, an array over components, a per-path array, or a process gives at each integration step the same result as the constant having the value of that function at the start of the step (for the drift and diffusion coefficients), for each component and path. Initial values may likewise be given per component and per path, and a deterministic parameter equal to a constant gives the constant parameter result.",
  ['inputs', 'configurations'], 'arbitrary functions of time (uninterpreted), arrays, processes with arbitrary nodes; timelines of 3 points; all presets',
  'Tests try a few functions with tolerance; evaluation at the wrong end of the step only shows at order dt.',
  [INT, INF], [('SDE.A, _sde_args_setup', INT), ('_variable_param_setup', INF)], ['returned process'])
p('D04', 'Systems of equations: each equation gets its own state, noise and initial value',
  "For a system of q equations, for any value shape and with equations stacked along the last value axis or along a new one, the k-th output process satisfies the Euler recursion of the k-th equation (of its logarithm, where the logarithm is integrated), driven by its own block of source components and started at its own initial value; terms missing from an equation count as zero. Stacking and unstacking are inverse to each other, and a system of decoupled equations gives the results of the equations integrated separately on the same noise.",
  ['inputs', 'programs'], 'arbitrary (uninterpreted) coefficient functions, q of 1-3, value shapes up to 2 axes of size 1-2, 1-2 paths, 2-3 time points',
  'Tests use q=2 examples with fixed shapes.',
  [INT], [('SDEs.pack/unpack/A/init/result/shapes', INT)], ['returned processes'])
p('D05', 'Equations given as plain functions integrate as the equivalent class',
  "Turning a function returning the coefficients of each source into an integrator, for one equation or a list of equations, with or without logarithmic state, gives for any step sequence the same result as the documented Euler recursion of those coefficients, the parameters of the function being settable by keyword and defaulting to its defaults. Unknown, missing or contradictory parameters, unknown sources and wrongly structured coefficients are rejected rather than ignored.",
  ['programs', 'inputs'], 'arbitrary coefficient functions over sources dt, dw, dn, dj and a custom source; parameters of any value; 2-3 time points',
  'Tests integrate a few example functions.',
  [INT], [('integrate, _SDE_from_function, _consolidate_args, _inspect_args_defaults', INT)], ['returned process, raised errors'])
p('D06', 'Each source is drawn once per step over that interval, from the given generator',
  "During an integration each stochasticity source of the equation is queried exactly once per step, with the start time and the signed length of the step, whether built internally or passed as a class or instance; internally built sources have the paths, components, correlation and intensity of the process and draw only from the random generator given. Sources whose paths or value shape do not match are rejected.",
  ['schedules', 'configurations'], 'all timelines of up to 3 points with up to 2 extra steps; sources given as none, class, instance, process, antithetic; all presets',
  'Tests compare results for a few seeds; duplicated or reordered draws keep the marginal law.',
  [INT, INF], [('SDE.dZ, source_dw/dn/dj', INT), ('_source_setup, _check_source', INF)], ['sequence of source calls, generator draws'])
p('D07', 'Process variants and diagnostics agree with the full computation',
  "The Heston process equals the price component of the full Heston process on the same noise, a one factor Hull-White process equals the multi factor one with a single factor, and the diagnostics of a forward integration agree with the path: the count of negative variance states equals, for each component and path, the number of steps started from a negative variance, and the jump count equals the number of jumps drawn when the source reports them. The jump rate reported per output interval is the number of jumps per path and unit time.",
  ['inputs', 'schedules'], 'all real parameters, noise, up to 3 time points with extra steps, 1-2 components and paths',
  'Tests check existence of the diagnostics, not their values.',
  [INT], [('heston_SDE.let/result, full_heston_SDE.info_next, jumpdiff_SDE.info_*', INT)], ['returned processes, info'])
p('D08', 'On a realized driving path, results do not depend on the integration steps',
  "When the driving noise is a realized path (a source with memory, or a process used as a source), processes with constant coefficients (Wiener, lognormal, and their jump versions) give at every output time the exact closed form function of the driving path, whatever the output timeline, the intermediate steps and the order in which coarser and finer integrations are run. Using a process as a source, each step is driven by the increment of that process over the step.",
  ['schedules', 'histories'], 'all real noise, timelines of up to 3 points, up to 2 arbitrary extra steps, all constant parameters',
  'Tests compare one fine with one coarse grid for fixed seeds.',
  [INT, INF], [('integrator.euler_next', INT), ('true_source', INF), ('process.__call__', INF)], ['returned processes'])

p('E01', 'Exact means and variances solve the moment equations of the simulated dynamics',
  "For the Wiener, lognormal, Ornstein-Uhlenbeck, one factor Hull-White and Cox-Ingersoll-Ross processes, the closed form mean, variance and standard deviation as functions of time satisfy the moment equations implied by the drift and diffusion coefficients that the corresponding simulated process actually uses, with the right initial values, for every admissible parameter; standard deviations are the square roots of the variances, and array parameters are handled elementwise.",
  ['inputs'], 'all real parameters in their domains and all t >= 0 (identities in the parameters, up to 2 components)',
  'Tests compare simulation and formula at a few parameter points within sampling error.',
  [ANA, INT], [('wiener_*, lognorm_*, oruh_*, cir_*', ANA), ('*_SDE.sde', INT)], ['analytical functions vs coefficients of the SDE classes'])
p('E02', 'Heston log mean and variance solve the moment equations of the Heston dynamics',
  "The closed form mean, variance and standard deviation of the logarithm of a Heston process satisfy, for all parameters and times, the system of moment equations implied by the drift, diffusion and correlation of the simulated Heston process, with the initial condition log(x0) and zero variance.",
  ['inputs'], 'all real parameters in their domains and all t >= 0 (identity in 9 parameters)',
  'Tests compare at one or two parameter points.',
  [ANA, INT], [('heston_log_mean/var/std', ANA), ('full_heston_SDE.sde', INT)], ['heston_log_mean, heston_log_var, heston_log_std'])
p('E03', 'Densities are derivatives of distributions, centred and scaled by the moments',
  "For the Wiener, lognormal, Ornstein-Uhlenbeck and Hull-White processes, the density is the derivative of the distribution function in the value, both depend on the value only through its standardization by the exact mean and standard deviation (of the logarithm for the lognormal), and the density solves the forward equation of the simulated dynamics. The lognormal density and distribution vanish for non positive values.",
  ['inputs'], 'all real values, parameters in their domains, t > 0',
  'Tests check one set of parameters.',
  [ANA], [('*_pdf, *_cdf', ANA)], ['pdf and cdf functions'])
p('E04', 'Characteristic functions are normalized and solve the generator equation',
  "The exact characteristic functions (Wiener, and logarithms of lognormal, Merton, Kou and Heston processes) equal one at zero argument, reduce to the initial condition at time zero, and evolve in time as prescribed by the drift, diffusion and jump law of the corresponding simulated process; their first two derivatives at zero agree with the exact mean and variance where those are provided.",
  ['inputs'], 'all parameters in their domains, all t >= 0, all imaginary arguments (moment generating form) in the domain of convergence; real arguments for the exponential-affine ones',
  'Tests compare with simulated characteristic functions at a few points within sampling error.',
  [ANA, INT], [('wiener_chf, lognorm_log_chf, mjd_log_chf, kou_log_chf, heston_log_chf', ANA)], ['chf functions'])
p('E05', 'Exact means of jump-diffusions match the drift and the jump law they simulate',
  "The exact means of Merton and Kou jump-diffusion processes grow at the rate given by the drift plus intensity times the exponential mean of the jump distribution (less one) used by the corresponding simulated process, and equal the corresponding characteristic function at the argument giving the expectation; with zero intensity they are the lognormal mean.",
  ['inputs'], 'all parameters in their domains (upward jump mean below one), all t >= 0',
  'Tests compare simulation and formula for one parameter set.',
  [ANA, INF, INT], [('mjd_mean, kou_mean', ANA), ('norm_rv, double_exp_rv exp_mean', INF)], ['mjd_mean, kou_mean'])
p('E06', 'Black-Scholes prices: parity, deltas, pricing equation and boundary cases',
  "For all strikes, maturities, spot, rates, yields and volatilities, call minus put equals discounted forward minus discounted strike, the deltas are the derivatives of the prices with respect to the spot and differ by the discount factor of the yield, and prices satisfy the pricing equation with the payoff as value at zero maturity or zero volatility. Array arguments are handled elementwise, and d1 - d2 equals volatility times square root of maturity.",
  ['inputs'], 'all positive strikes and spots, t >= 0, sigma >= 0, all real rates',
  'Tests check parity at a few points.',
  [ANA], [('bsd1d2, bscall, bsput, deltas', ANA)], ['bscall, bsput, bscall_delta, bsput_delta, bsd1d2'])
p('E07', 'Two factor Hull-White formulas match the sum of two correlated factors',
  "For every admissible parameter, given as scalars, two component vectors, or arrays with a factors axis, the exact mean and variance of the two factor process solve the moment equations of the sum of the two simulated factors with the given correlation, the standard deviation is the square root of the variance, and density and distribution are those of the gaussian with that mean and variance; a second factor that is identically zero gives the one factor formulas. Parameters with a factors axis longer than two are rejected.",
  ['inputs', 'configurations'], 'all real parameters in their domains, t >= 0; scalar, (2,), (2,1), (n,2,1) parameter shapes',
  'Tests compare one parameter set with simulation.',
  [ANA, INT], [('_hw2f_args_setup, hw2f_*', ANA)], ['hw2f_mean, hw2f_var, hw2f_std, hw2f_pdf, hw2f_cdf'])
p('E08', 'Densities by inversion and the CIR density solve what they claim',
  "The Merton, Kou and Heston log densities are, for a scalar or array of times or of values, the other being a scalar, the inverse Fourier integral over the whole line of the characteristic function with the same parameters; the Cox-Ingersoll-Ross density is, for scalars or arrays, the normalized solution of the forward equation of the simulated Cox-Ingersoll-Ross dynamics (a Poisson mixture of gamma densities).",
  ['inputs'], 'all parameters in their domains, t > 0, x > 0; the integrand at every argument; numerical quadrature itself out of scope',
  'Tests check one parameter set.',
  [ANA], [('_chf_to_pdf, *_log_pdf, cir_pdf', ANA)], ['integrand passed to quadrature; cir_pdf'])

p('F01', 'Parameter overrides on curried objects merge, never leak, and never mutate',
  "Calling a curried function or class with parameters only gives an object storing them; calling that object with further parameters behaves as the original called with the merged parameters, later values taking precedence, whether variables are given in the same call or later, positionally or by keyword. The original object and its parameters are never changed by such calls, and the reported parameters are defaults updated by the stored ones.",
  ['programs', 'histories'], 'all real parameter values and variables, chains of up to 3 calls in every combination of given parameters; functions of 1-2 variables and classes',
  'Tests exercise a few chains.',
  [KF], [('kfunc_class_wrapper.__new__/__call__/params, _kfunc_decorate_function', KF)], ['values returned, .params'])
p('F02', 'Shortcuts compute what the objects they abbreviate compute',
  "Each shortcut name (sources, processes, exact formulas) gives, for every input, the results of the full name it abbreviates, when called directly with variables and parameters or in two steps (parameters first, then variables), and a curried process reports the actual parameters it uses.",
  ['programs', 'inputs'], 'all shortcuts; arbitrary real parameters, noise and timelines of 2-3 points',
  'Tests check names and some doctest examples.',
  [SH, KF], [('shortcut assignments', SH)], ['values returned'])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as fh:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        fh.write(json.dumps(x) + '\n')
print(len(P))
