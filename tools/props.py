TRUST = ('Trusted: the transfer functions of the abstract interpreter for the numpy/stdlib calls used, and exact real arithmetic in place of '
         'floating point. Code the interpreter cannot follow is reported as undecided in the evidence, never as a violation.')

P('C01', 'Shipped and written exact equations are the Boltzmann averages of their model',
  '''Every shipped exact-solution module for n spins ({-1,1} and {0,1} variants, with triplets, high precision) returns exactly the observables and
  probabilities of the maximum entropy model it is named after: each probability is exp(-E)/Z of one state, in the order of the binary counter, and each returned average is the average
  of the corresponding observable under these probabilities, in the common parameter order. Modules newly written by write_eqns, pairwise, triplet and the Potts file writer
  parse, carry the documented name and satisfy the same for the requested correlations. The shared log-sum-exp primitives stay exact, with the right sign, for terms of any size. This holds for every finite parameter vector.''',
  ['inputs'], 'all parameter vectors of the right length, for every shipped n, basis and number of Potts states, and for modules written anew',
  'The tests compare a few random parameter vectors for n=5 or fewer; a wrong sign or a missing exponential in one of thousands of generated terms of a larger module is never evaluated.',
  ['coniii/ising_eqn/', 'coniii/enumerate.py', 'coniii/enumerate_potts.py'],
  [('generated tables', 'coniii/ising_eqn/ising_eqn_*.py: calc_observables, p'), ('generators', 'coniii/enumerate.py:write_eqns, write_py, pairwise, triplet'),
   ('Potts generator', 'coniii/enumerate_potts.py:SpecificFieldGenericCouplings'), ('log-sum-exp', 'coniii/enumerate.py:fast_logsumexp, mp_fast_logsumexp')],
  technique=AI + '; every generated table is interpreted to a rational function of exponentials and compared with the enumerated model; constants are propagated through the generators and the text they emit is analysed the same way',
  note='Every shipped table is decided completely (all terms); the writers for 2..6 spins, Potts writers for 3 and 4 spins with up to 5 states, some sets of correlations. ' + TRUST, observe=['calc_observables(params)', 'p(params)', 'files written'])

P('C02', 'Energies equal minus parameters times observables in one common layout',
  '''For every model family (Ising in {-1,1}, field-free Ising, triplet, Potts) the energy of a state equals minus the inner product of the parameter
  vector with the observables of this state, with the parameters in one common order (fields first, then pairs in lexicographic order, then triples). The
  Python helpers, the energy derivatives and the compiled sampler classes all agree with this definition on every state and parameter vector.''',
  ['inputs'], 'all states and parameter vectors of the family, any number of rows',
  'Tests evaluate two or three random vectors at one system size; an index slip that only affects some pair, row, spin value or size is not sampled.',
  [U, CPP], [('helper factories', U + ':define_ising_helper_functions, define_ising_helper_functions_sym, define_triplet_helper_functions, define_potts_helper_functions'),
             ('parameter derivative', U + ':calc_de'), ('compiled energies', CPP + ':Ising::calc_e, Potts3::calc_e')],
  technique=AI + ', applied to the Python sources and to the clang AST of the C++ sources',
  note='Decided for 2..5 spins with symbolic states and parameters (larger sizes in the thorough tier), and for any number of spins for the Ising families. ' + TRUST,
  observe=['calc_e', 'calc_observables', 'calc_de', 'native calc_e'])

P('C03', 'Each Metropolis update obeys detailed balance for the energy it uses',
  '''A single Metropolis update of an Ising or Potts state proposes a change of one site by a symmetric rule that can reach every other value of the site,
  and keeps it with probability min(1, exp(-dE)) where dE is exactly the difference of the energy function at the current parameters. The state is left
  either at the proposal with dE returned, or untouched with zero returned. The Python, jitted and compiled kernels, with the default or a passed energy function, all do so.''',
  ['inputs', 'histories'], 'all parameters, all states, all random draws, every site',
  'Tests compare sampled averages with loose tolerances for one small system; a proposal bias, an off-by-one site range or a stale energy shifts averages by less than the tolerance or only for some sites.',
  [S, CPP], [('Python steps', S + ':Metropolis.sample_metropolis, Potts3.sample_metropolis, _jit_sample_metropolis'),
             ('compiled steps', CPP + ':Ising::sample_metropolis, Potts3::sample_metropolis'), ('single-flip energies', 'coniii/ising/utils.py:Ising.neighbor_dE')],
  technique=AI + ' with path enumeration over every proposal; the extracted acceptance guards and energy differences are compared with the Metropolis rule',
  note='Decided for 1..4 sites with symbolic parameters, every starting state and every proposal. ' + TRUST, observe=['sampler.sample_metropolis', 'native sample_metropolis'])

P('C04', 'Samplers record the chain at the requested times',
  '''Generating a sample runs one chain: it performs exactly the requested burn-in, then exactly the requested interval of updates before each record, every
  update continuing from the state left by the previous one. Row i of the sample is the state after interval i, the stored energies are the energies of
  the rows, and exactly the requested number of rows is kept. Systematic iteration visits the sites cyclically and otherwise each update picks any site with equal probability;
  this holds for the Python, parallel and compiled generators.''',
  ['inputs', 'histories'], 'all sample sizes, burn-in lengths, intervals, modes and worker counts; all random histories',
  'Tests only check that the sample has the right shape and that averages are close; a wrong burn-in, a row written one interval late or a chain restarted from a stale state is invisible to that.',
  [S, CPP], [('Python generators', S + ':Metropolis.generate_sample, generate_sample_py, generate_sample_py_parallel'),
             ('compiled generators', CPP + ':Sampler::generate_sample'), ('hand-over', S + ':Metropolis.generate_sample_boost, Potts3.generate_sample')],
  technique=AI + ' over the sequence of update, draw and record events of each path (typestate of the chain)',
  note='Decided by unrolling for sample sizes, burn-in and intervals up to about 5 and for sizes next to every integer the code compares with. ' + TRUST,
  observe=['generate_sample*'])

P('C06', 'Conditional sampling keeps the fixed spins and samples only the others',
  '''When spins are clamped, every recorded state has the clamped spins at exactly the requested values, only the free spins are ever updated, each free
  spin is equally likely to be chosen (or visited cyclically), and every update is judged with the energy of the full state including the clamped spins.
  Free spins appear in the record in spin order. This holds for any set of clamped spins for the Python and compiled conditional samplers.''',
  ['inputs', 'histories'], 'any subset of clamped spins, any values, any sample size, interval, burn-in and mode',
  'No stable test clamps more than one pattern of spins; index mapping between free and full spins is wrong only for some subsets.',
  [S, CPP], [('Python', S + ':Metropolis.generate_cond_sample_py'), ('compiled', CPP + ':Sampler::generate_cond_sample'),
             ('hand-over', S + ':Metropolis.generate_cond_sample_boost'), ('conditional energies', U + ':define_jit_cond_calc_e')],
  technique=AI + ' over the events of each path, for every fixed subset of small systems',
  note='Decided for every clamped subset of up to 4 spins with symbolic parameters. ' + TRUST, observe=['generate_cond_sample*'])

P('C08', 'Basis conversions preserve the model',
  '''Converting parameters between the {0,1} and the {-1,1} description, in vector or matrix form and up to fourth order interactions, gives a model
  in which every configuration has the same energy up to one constant, in the common parameter layout. Converting means and pair correlations between the
  two descriptions gives the averages of the changed variables for every distribution. An unknown target basis is refused.''',
  ['inputs'], 'all parameter and correlation vectors, every number of spins, both directions',
  'Tests convert a few random vectors there and back, so errors that cancel in the round trip, or that need third and fourth order terms or unequal couplings, are not seen.',
  [U], [('parameters', U + ':convert_params, ising_convert_params'), ('correlations', U + ':convert_corr'), ('splitting', U + ':split_concat_params')],
  technique=AI + '; the converted energy is compared as a polynomial in spins and parameters',
  note='Decided for 2..5 spins (7 in the thorough tier) and sizes next to the constants the code compares with, with symbolic contents. ' + TRUST,
  observe=['convert_params', 'ising_convert_params', 'convert_corr', 'split_concat_params'])

P('C21', 'Index maps, layouts and state enumerations are bijective and ordered',
  '''The flat index of a pair, triple or quadruple of spins is its lexicographic rank among the index tuples, and the inverse map returns the tuple. Vector and
  matrix forms of the parameters convert into each other without loss, replacing a diagonal changes nothing else, flattening an upper triangle and unflattening it
  are inverse, and cluster sub-matrices go to and come from the rows and columns of the cluster. Enumerations of binary and Potts states list every state exactly once in counting
  order, and digits in base 2 to 36 are exact, also at powers of the base.''',
  ['inputs'], 'all indices, sizes, matrices and bases',
  'A slip in an index formula shows only for particular index combinations or sizes; a rounding slip of a logarithm only at particular powers.',
  [U, 'coniii/mean_field_ising.py', 'coniii/enumerate.py'],
  [('indices', U + ':sub_to_ind, ind_to_sub, unravel_index'), ('layout', U + ':vec2mat, mat2vec, replace_diag, zero_diag'),
   ('enumeration', U + ':bin_states, xbin_states, xpotts_states, base_repr'), ('triangles', 'coniii/mean_field_ising.py:aboveDiagFlat, unflatten, symmetrizeUsingUpper, coocCluster, JfullFromCluster')],
  technique=AI + ', for every index at fixed sizes with symbolic contents; truncated logarithms are explored with both roundings',
  note='Decided for up to 11 spins (indices), 9 (layouts), 5 (enumerations), and sizes next to the constants the code compares with. ' + TRUST,
  observe=['sub_to_ind', 'ind_to_sub', 'unravel_index', 'vec2mat', 'mat2vec', 'bin_states', 'xbin_states', 'xpotts_states', 'base_repr'])

P('C24', 'Sample statistics are the weighted averages they are named after',
  '''Means, pair correlations, correlations of any order, state frequencies and overlaps computed from a sample are exactly the (weighted) averages over its rows,
  with every accepted form of weights, in lexicographic order of the spins, also with zeros excluded. The Monte Carlo histogram step predicts the averages
  at changed parameters as the importance-weighted average of the model's observables over the sample, normalised by the sum of the same weights.''',
  ['inputs'], 'all samples, all weights, all options, every model family',
  'Tests use a sample with uniform weights and compare totals; wrong normalisation with weights, excluded zeros or a swapped pair order is not seen there.',
  [U], [('statistics', U + ':pair_corr, k_corr, state_probs, calc_overlap'), ('reweighting', U + ':mch_approximation of each helper factory')],
  technique=AI + ', on samples of symbolic entries, compared as rational functions and exponential sums',
  note='Decided for samples of up to 3 rows and 4 spins (5 in the thorough tier) and sizes next to the constants the code compares with. ' + TRUST,
  observe=['pair_corr', 'k_corr', 'state_probs', 'calc_overlap', 'mch_approximation'])

P('C22', 'Pseudolikelihood and probability flow objectives with exact derivatives',
  '''The pseudolikelihood solver minimises, per spin or summed over the spins, the negative log probability of each observed spin given the other observed spins, for Ising
  and Potts models; minimum probability flow minimises the flow (1/N) sum exp((E(x)-E(y))/2) from the data states x to their one-flip neighbours y (or its logarithm),
  with non-data neighbours only when asked. Each gradient or Hessian given to the optimiser is the exact derivative of the objective, repeated evaluations do not influence each
  other, and the parameters returned and stored are the optimum in the {-1,1} basis and the common order, the two estimates of a coupling averaged. A cost function given for Potts
  pseudolikelihood is added to the objective. The functions of pseudo_inverse_ising are the same conditional likelihoods, derivatives and optima for 0/1 samples, where samples that would be too
  small without a spin say nothing about it.''',
  ['inputs'], 'all parameter vectors at which an optimiser may evaluate, all samples, all options',
  'A wrong gradient entry or sign only slows or biases the optimiser, and tests accept any solution close to a known one for one small sample.',
  [SO, U, 'coniii/pseudo_inverse_ising.py'], [('functions for 0/1 samples', 'coniii/pseudo_inverse_ising.py:pseudoInverseIsing, conditionalLogLikelihood, conditionalJacobian, conditionalHessian'), ('pseudolikelihood', SO + ':Pseudo._solve_ising, _solve_general, _solve_potts'), ('probability flow', SO + ':MPF.K, logK, list_adjacent_states, solve'),
            ('helpers', U + ':define_pseudo_ising_helper_functions, define_pseudo_potts_helper_functions, adj, calc_de')],
  technique=AI + '; the objective captured at the optimiser call is compared with the likelihood, its gradient with the symbolic derivative',
  note='Decided for fixed samples containing all states of 2..3 spins and selected states of 4 (more in the thorough tier), Potts models with 2..4 states, and symbolic parameters. ' + TRUST,
  observe=['Pseudo.solve', 'Pseudo._solve_ising', 'Pseudo._solve_general', 'Pseudo._solve_potts', 'MPF.K', 'MPF.logK', 'MPF.solve', 'adj', 'calc_de'])

P('C13', 'Model objects hold one parameter vector and everything they offer uses it',
  '''An Ising, Triplet or Potts3 model object built from any documented form of the parameters (system size, list of vectors, one concatenated vector, matrix with the fields on
  the diagonal) stores the same vector in the common order and the right system size, and refuses parameter sets that fit no system size. After any sequence of set_multipliers
  calls, calc_observables and calc_p use the last parameters by default and the passed ones when given (None where no equations are shipped). setup_sampler gives the sampler the size,
  parameters, energy and random number generator of the model; generate_sample samples with the current (or passed) parameters, sample size, iterations and burn-in and stores that sample;
  set_rng replaces the generator of both. Arrays given by the caller are never changed, and models do not share parameters.''',
  ['inputs', 'histories'], 'all parameter values in every documented form, all sequences of parameter changes and sampling calls',
  'Tests build one or two models at one size and sample once; a stale default, a swapped form or a shared array shows only in particular sequences of calls or forms.',
  [MO, S], [('constructors', MO + ':Ising.__init__, Triplet.__init__, Potts3.__init__'), ('parameter changes', MO + ':*.set_multipliers'),
            ('sampling', MO + ':Model.setup_sampler, generate_sample, set_rng'), ('sampler construction', S + ':Metropolis.__init__, Potts3.__init__, update_parameters')],
  technique=AI + '; the object state after each call sequence is compared with the required one',
  note='Decided for systems of 2..10 spins with symbolic parameters; shipped tables are represented by generic values (C01 decides their content). ' + TRUST,
  observe=['multipliers', 'n', 'calc_e', 'calc_observables', 'calc_p', 'sampler', 'sample'])

P('C10', 'Enumeration solvers solve the moment matching equations (full and sparse)',
  '''Enumerate and SparseEnumerate hand the root finder exactly (model averages - constraints) of the fitted parameters, and the minimiser the size of that vector, evaluated at
  the parameters the optimiser asks for; with SparseEnumerate every parameter that is not fitted is exactly zero and the fitted ones stand at their own indices, for every set of indices,
  sorted or not, repeated or not. Constraints are the averages of the observables over the sample unless the caller passes others, in which case only those count;
  parameters beyond max_param_value in size, and only those, are penalised; the search starts at initial_guess (zero by default); the parameters returned
  and stored are the optimum; arrays of the caller are unchanged; without sample and constraints the solver refuses.''',
  ['inputs'], 'all parameter vectors at which an optimiser may evaluate, all constraints and starting points, all sets of fitted parameters',
  'A misplaced index, a stale constraint or a penalty at the wrong side yields a solver that converges to a model with wrong averages; tests try one sparse set of one system.',
  [SO], [('full', SO + ':Enumerate.solve'), ('sparse', SO + ':SparseEnumerate.solve'), ('placing parameters', SO + ':Solver.set_insertion_ix, fill_in'), ('setup', SO + ':Solver.basic_setup')],
  technique=AI + '; the function captured at the optimiser call is compared with (averages - constraints) at symbols and at points on both sides of the allowed range',
  note='Decided for 2..4 spins, all sets of fitted parameters of 2 and 3 spins (a selection in the quick tier) and symbolic parameters; shipped tables are represented by generic values (C01 decides their content). ' + TRUST,
  observe=['Enumerate.solve', 'SparseEnumerate.solve', 'constraints', 'multipliers', 'fill_in'])

P('C11', 'Monte Carlo histogram iteration (full and sparse)',
  '''MCH.solve and SparseMCH.solve alternate sampling and histogram learning as documented: every sample is drawn at the current parameters with the given iterations, burn-in and
  sampling options and the sample size currently set; each learning round starts from the averages of the latest sample, moves the fitted parameters by
  -(estimate - constraint)*min(distance, 1)*eta per step, takes the estimate of the accumulated change from that sample, and stops once the change exceeds maxdlamda or maxdlamdaNorm or the
  step limit is reached; settings and sample size come from custom_convergence_f of the iteration counter when given. Convergence (flag 0) is reported exactly when the last errors are below
  tol and their norm below tolNorm, flag 1 at the iteration limit; the error history lists every sample; the returned and stored parameters are those of the last sample;
  SparseMCH leaves all other parameters zero; estimate_jac is the central difference of the estimates; arrays of the caller are unchanged.''',
  ['inputs', 'histories'], 'all samples, averages and estimates met during a run, all constraints, starting points, tolerances and learning settings',
  'Runs are random and tests accept any rough solution, so a wrong stopping rule, stale sample or misplaced parameter passes as slow convergence.',
  [SO], [('full', SO + ':MCH.solve, learn_parameters_mch, estimate_jac'), ('sparse', SO + ':SparseMCH.solve, learn_parameters_mch'), ('placing parameters', SO + ':Solver.fill_in')],
  technique=AI + '; all paths of the loops are kept, joined when they differ only in their condition, and compared with the documented iteration; path conditions and values are compared at points covering every exit',
  note='Decided for 2 and 3 spins, up to three iterations with two steps each, with samples, averages and estimates as generic values; the step and iteration limits may be met or exceeded by one (the code runs one more than its documentation says). '
       'MCHIncompleteData is left out (it uses attributes nothing sets). ' + TRUST,
  observe=['MCH.solve', 'MCH.learn_parameters_mch', 'MCH.estimate_jac', 'SparseMCH.solve', 'SparseMCH.learn_parameters_mch'])

P('C12', 'Replica exchange (ParallelTempering) moves states by the exchange rule',
  '''ParallelTempering spaces inverse temperatures evenly between the given bounds, coldest last, and every replica always runs at the parameters times its current inverse temperature,
  with its own generator, for replica_burnin iterations at first and rep_ex_burnin between exchanges. In every round neighbouring replicas exchange in order with probability
  min(1, exp((b-b')(E-E'))), E without temperature, decided by one draw of the sampler's generator per pair; state, index and energy (rescaled to the new temperature) move together and
  the next run starts from the exchanged states; then every replica records the state it holds, and the trajectory lists the indices. optimize_beta measures acceptance as
  the average over samples at the current temperatures, adapts all but the lowest temperature in proportion, and stops once the mean change is at most tol or after max_iter rounds.''',
  ['inputs', 'histories'], 'all parameters, temperatures, replica energies and draws',
  'An exchange at the wrong sign, a state left behind or an energy at the wrong temperature keeps the code running and only biases samples; the tests check shapes.',
  [S], [('sampler', S + ':ParallelTempering')],
  technique=AI + '; Metropolis runs of the replicas return generic states and energies; all paths are compared with the exchange rule at points covering accepted and refused exchanges',
  note='Decided for 2..5 replicas of 2 or 3 spins and up to three rounds with symbolic energies and draws; how a replica itself is sampled belongs to C03 and C04. ' + TRUST,
  observe=['ParallelTempering.generate_sample', 'replicas', 'sample', 'beta'])

P('C23', 'Wolff cluster updates keep the Boltzmann distribution and use one generator',
  '''One step of WolffIsing satisfies detailed balance with p(s) proportional to exp(h.s + sum_(i<j) J_ij s_i s_j), whether the cluster starts at a drawn or at a given site, and can flip every
  single spin; after update_parameters the new couplings (vector or matrix) and fields count alone. generate_sample and generate_sample_parallel return, for every requested state, the outcome of exactly
  n_iters steps, each going on from the one before, beginning at the given initial state (left unchanged) or at drawn +/-1 spins; save_history returns every intermediate state in order.
  Every draw comes from the generator of the sampler; workers have their own generators, seeded from it one by one.''',
  ['inputs', 'histories'], 'all states, couplings, fields, starting sites and draws',
  'A wrong bond probability, a repeated random number or an unexplored site only biases the distribution; the repository itself notes that this sampler has not been properly tested.',
  [S], [('cluster step', S + ':WolffIsing.one_step, build_cluster, find_neighbors, iterate_neighbors'), ('generation', S + ':WolffIsing.generate_sample, generate_sample_parallel')],
  technique=AI + '; the conditions of all paths on the draws give the transition probabilities in closed form, which are compared with the balance equations at points',
  note='Decided for 2..4 spins with symbolic couplings and fields (5 spins with couplings along trees), balance equations evaluated at 12 points each; up to three states and five steps for the generation. ' + TRUST,
  observe=['WolffIsing.one_step', 'WolffIsing.generate_sample', 'WolffIsing.generate_sample_parallel'])

MFI = 'coniii/mean_field_ising.py'
P('C25', 'Cluster expansion and mean field solvers combine the documented entropies',
  '''The {0,1} helpers use E(f) = sum_i h_i f_i + sum over ordered pairs J_ij f_i f_j: weights, averages and entropy are those of the exact model, flattened matrices and cluster submatrices keep their
  indices, co-occurrences are sample averages, mean field couplings, fields and entropy follow the (regularised) formulas, and the fitted objective is model minus data (plus the prior).
  ClusterExpansion: contributions follow inclusion and exclusion relative to the chosen reference; kept are unions of two kept clusters sharing all but one spin whose contribution exceeds the threshold
  in size, once each; parameters and entropy are reference plus kept contributions, converted to the {-1,1} basis.
  RegularizedMeanField: the objective is the squared misfit in standard deviations of a sample drawn from the converted couplings, always from one generator state when reset_rng; the multipliers are
  those of the optimal strength; a bracket is the grid minimum between the lowest points on either side.''',
  ['inputs'], 'all co-occurrences, samples, couplings, priors, thresholds and cluster contributions',
  'A contribution counted twice, a prior that is not handed on or a slip in a factor of two gives plausible but wrong couplings; the tests compare one small example with loose tolerance.',
  [SO, MFI], [('cluster expansion', 'coniii/solvers.py:ClusterExpansion.S, Sindependent, deltaS, subsets, solve'),
   ('mean field', MFI + ':SmeanField, JmeanField, findJmatrixAnalytic_CoocMat, coocExpectations, unsummedZ, analyticEntropy'), ('strength', 'coniii/solvers.py:RegularizedMeanField.solve, bracket1d')],
  technique=AI + '; recursion over clusters is unrolled, all outcomes of the threshold tests are kept apart and compared with the reference expansion at points',
  note='Decided for 1..4 spins, symbolic couplings, co-occurrences and contributions; eigenvalues and inverses are compared at points. The minimisers are assumed to work. ' + TRUST,
  observe=['mean_field_ising.*', 'ClusterExpansion.deltaS', 'ClusterExpansion.solve', 'RegularizedMeanField.solve'])

P('C09', 'Every name, attribute and argument the package uses exists where it is used',
  '''On every path of every function of the package that can be reached, a name that is read is bound (a parameter, an assignment that may have run before, a definition of the module, an import or a builtin);
  what is imported or used from a module of the package exists there; an attribute or method read from self, or from an object the code itself has just built, is provided
  by its class, its bases, or an assignment in one of their methods; a call of a function, method or class of the package gives every required argument, none twice and none unknown; and a returned tuple
  has as many items as it is unpacked into. So no option combination of the public classes ends in a NameError, AttributeError, ImportError or signature TypeError.''',
  ['inputs'], 'all paths of all functions, all option combinations and all dispatches between Python, parallel and compiled variants',
  'Rarely used options (compiled back ends, mean field solvers, parallel sampling, incomplete data) are not run by the tests, and Python finds a stale name or a wrong keyword only when the line runs.',
  ['coniii/'], [('all modules', 'coniii/**/*.py: every function, class and module body'), ('solver and sampler dispatch', SO + ' and ' + S)],
  technique='static analysis of the syntax tree: scope resolution, forward may-assigned dataflow with reachability, attribute universes over the class hierarchy, signature binding and result arity',
  note='Attributes of objects whose class cannot be told from the source (parameters, results of libraries) are not judged, nor is what numpy, scipy and the standard library contain. Three uses in MCHIncompleteData.generate_sample are known findings.',
  level='proof', observe=['NameError', 'AttributeError', 'ImportError', 'TypeError'])

P('C05', 'Sampling is a function of the random generator given',
  '''Every random number that constructing, sampling or sampling again uses (Metropolis, Potts3, ParallelTempering, WolffIsing, Ising2D, sample_ising, and the models that hold these samplers; sequential, parallel,
  conditional; Python or compiled) is drawn from the generator of the object, or from a generator, worker or compiled engine seeded by draws from it: never from the process-wide generator, an unseeded or constantly seeded one,
  the clock or the process. No two workers, replicas, rounds or repeated calls use the same stretch of one random stream. The rows of a parallel sample do not depend on the order in which workers finish.
  A generator given to a solver, a model or set_rng is the one in use from then on; objects that are given none do not share a fixed seed.''',
  ['inputs', 'histories'], 'all generators, sample sizes, modes, worker schedules and sequences of calls',
  'Tests check averages with tolerances; an unseeded worker, a generator that is not handed on or a stream used twice changes no average noticeably.',
  [S, 'coniii/models.py', 'coniii/ising/automaton.py', SO, CPP], [('samplers', S + ':generate_sample*, generate_cond_sample*, sample_metropolis, random_sample, setup_replicas, burn_in_replicas'),
   ('models', 'coniii/models.py:Model.setup_sampler, set_rng'), ('lattice', 'coniii/ising/automaton.py:Ising2D.iterate'), ('solvers', SO + ':Solver.basic_setup'), ('engine', CPP + ':Sampler::Sampler')],
  technique=AI + '; every draw is an event with its source (taint from the given generator through seeds into workers), positions in each stream are tracked across process boundaries',
  note='Two calls each of up to four records, two workers; single updates and their draws are judged apart. ' + TRUST, observe=['rng', 'sample', 'set_rng'])

P('C07', 'Arguments given by the caller are never changed',
  '''No public function or method of the package (solvers, models, samplers, utilities, energy and observable helper functions, equation modules) writes into an array, list or dictionary it is given,
  neither itself nor through another function of the package, through a view, a slice, an alias or an attribute that keeps the argument, in the same call or in a later one.
  Default values of arguments and values bound in class bodies, which all calls and objects share, are never written either. Excepted are the functions whose purpose is to work in place:
  single Monte Carlo updates of a state (sample_metropolis, WolffIsing.one_step, Ising2D.flip_metropolis), the neighbour generators adj and adj_sym, and the result dictionaries of ClusterExpansion.''',
  ['inputs', 'histories'], 'all arguments, all option combinations and all sequences of calls on one object',
  'Tests pass arguments they do not look at again; a guess, sample, weight or parameter matrix that is overwritten corrupts the next computation of the user, not the one tested.',
  ['coniii/'], [('solvers', SO + ': solve, _solve_ising, initial guesses and samples'), ('models', 'coniii/models.py:Ising.__init__, set_multipliers'), ('samplers', S + ': initial samples, parameters'),
                ('utilities', U + ': conversions, statistics, helper factories')],
  technique='static analysis of the syntax tree: flow-sensitive alias analysis of arguments and attributes with interprocedural write, alias and attribute summaries to a fixpoint',
  note='Arrays, lists and dictionaries; attributes set on objects given (models, generators) are what these are for. Calls whose target cannot be told from the source, and user supplied functions, are taken not to write.',
  level='proof', observe=['arguments after the call'])

P('C19', 'Lattice, block spin and pairwise coarse graining tools follow their rules',
  '''Ising2D.flip_metropolis is a Metropolis step for the energy -J sum_<ab> s_a s_b + sum_a h_a s_a of the periodic lattice: only the given site changes, by sign, with probability min(1, exp(-dE)),
  dE = 2 J s (sum of its four neighbours) - 2 h s. Ising2D.iterate proposes at least n_iters sites with the coupling and the field of that site: whole sweeps that propose every site once (systematic),
  or sites drawn uniformly over the lattice. automaton.coarse_grain gives one spin for each complete block of factor x factor sites: the sign of its sum, an independent fair draw for a tie; lattices need not be square.
  utils.coarse_grain_with_func pairs in every round the two most similar columns left, each column once (an odd one stays alone), combines each pair with the given function, and the index lists name the original
  columns of each cluster. ising.utils.Ising: fields and couplings are those given (vectors or one value) in the -1/1 basis and the equivalent ones in the 0/1 basis, correlations those of the shipped equations in either basis,
  and find_basin flips the spin that lowers the energy most until no single flip lowers it.''',
  ['inputs'], 'all lattices, couplings, fields, draws, block sizes, similarities and numbers of rounds',
  'Tests run a small lattice and one grouping; a wrong neighbour at the edge, a biased tie or a mislabelled cluster shows only for particular shapes or orders of similarity.',
  ['coniii/ising/automaton.py', 'coniii/ising/utils.py', U], [('lattice', 'coniii/ising/automaton.py:Ising2D.iterate, flip_metropolis'), ('blocks', 'coniii/ising/automaton.py:coarse_grain'),
    ('pairwise coarse graining', U + ':coarse_grain_with_func'), ('front end', 'coniii/ising/utils.py:Ising')],
  technique=AI + '; flips for every neighbourhood with symbolic coupling and field, sweeps for several permutations, blocks and groupings for several shapes and orders of similarity',
  note='Decided for lattices up to 4x3 (flips) and 8x4 (blocks), 3..9 columns and up to three rounds with symbolic column values, 2..4 spins for the front end. ' + TRUST,
  observe=['Ising2D', 'coarse_grain', 'coarse_grain_with_func', 'Ising.fields', 'Ising.couplings', 'Ising.correlations', 'Ising.find_basin'])

P('C18', 'Heisenberg energies, clusters and homogeneous field helpers are exact',
  '''samplers.calc_e is minus the sum over pairs of coupling times dot product of the unit vectors given by the angles (theta_0, phi_0, theta_1, ...), grad_e its derivatives by the angles and
  grad_e_theta by the couplings. cross and cross_ are the vector product; jit_sample_nearby_vector seeds the generator with the seed given and turns vectors of polar angle sigma times a normal draw and
  uniform azimuth by the rotation that carries the z axis to (otheta, ophi), any number of them, also for sigma zero. iter_cluster returns the connected components of a symmetric bond matrix, every
  site in exactly one; sample_bonds makes a bond between i<j where the draw is below its probability and the coupling is satisfied; pairwise_prod lists s_i s_j in the common pair order. check_e_logp
  lines up unique states, their energies and the logarithms of their frequencies; sample_ising samples the Ising model of the multipliers given (one vector, or fields and couplings) with a generator
  of the given seed, the number of samples and the options given, and returns the sample. In mean_field_ising logCosh is log cosh, exp(-FHomogeneous) integrates to the partition function of
  p ~ exp(h M + J M^2) with M the sum of N spins, dFdT is its temperature derivative at T=1, and SHomogeneous, avgmHomogeneous, avgxHomogeneous, independentEntropyHomogeneous(2) and
  multiInfoHomogeneous are entropy, mean spin, entropy of independent spins of that mean and their difference for that model. fourthOrderCoocMat, coocSampleCovariance, coocMatBayesianMean,
  coocStdevsFlat and isingDeltaCooc follow their formulas in the order of the flattened upper triangle.''',
  ['inputs'], 'all angles, couplings, draws, bond matrices, samples, fields and sizes',
  'None of these functions is run by a test; a wrong sign or index gives plausible numbers.',
  [S, 'coniii/mean_field_ising.py'], [('Heisenberg', S + ':calc_e, grad_e, grad_e_theta, cross, jit_sample_nearby_vector'), ('clusters', S + ':iter_cluster, sample_bonds, pairwise_prod'),
    ('front end', S + ':sample_ising, check_e_logp'), ('homogeneous model', 'coniii/mean_field_ising.py:FHomogeneous, dFdT, SHomogeneous'), ('co-occurrences', 'coniii/mean_field_ising.py:fourthOrderCoocMat')],
  technique=AI + '; terms that are not identical to the defining formula are compared with it at generic points, integrals by the trapezoidal rule on the analysed integrand',
  note='Decided for 2..4 vector spins, all bond matrices of 1..4 sites and six larger ones with every choice of starting site, 2..3 spins for co-occurrences, sizes 1..5 of the homogeneous model. ' + TRUST,
  observe=['calc_e', 'grad_e', 'grad_e_theta', 'iter_cluster', 'sample_bonds', 'jit_sample_nearby_vector', 'sample_ising', 'check_e_logp', 'dFdT', 'SHomogeneous'])

P('C14', 'Iterative solvers end within their tolerance of the best parameters',
  '''Given enough iterations and samples, MCH, SparseMCH, MPF, Pseudo and Enumerate end at parameters whose averages match the constraints within the tolerance asked for.''',
  ['inputs', 'histories'], 'all data sets, tolerances and iteration limits', 'Tests run one small data set with a loose tolerance.',
  [SO], [('solvers', SO + ': solve')],
  na='Whether and where scipy.optimize or the Monte Carlo iteration ends depends on runtime numbers (conditioning, step sizes, sampling noise) that no sound static argument bounds; the equations, objectives, derivatives and update rules they iterate are decided by C10, C11 and C22.')

P('C15', 'Samples are drawn from the Boltzmann distribution after enough iterations',
  '''For burn in and spacing long enough, the rows a sampler returns are independent draws from the Boltzmann distribution of its parameters.''',
  ['inputs', 'histories'], 'all parameters, burn in lengths and spacings', 'Tests compare averages of one system with loose tolerances.',
  [S], [('samplers', S + ': generate_sample')],
  na='How long is enough is the mixing time, a property of the spectrum of the transition matrix at the parameters at hand; no static argument bounds it. That every single transition keeps the distribution, that the chain is recorded at the times asked for and that random numbers are not reused is decided by C03, C04, C05, C12 and C23.')

P('C16', 'Mean field and cluster approximations are close to the exact solution',
  '''The couplings that the mean field solvers and the cluster expansion return approximate those of the exact maximum entropy model within the stated order of the expansion.''',
  ['inputs'], 'all correlation matrices', 'Tests check one small sample against a loose tolerance.',
  [SO, 'coniii/mean_field_ising.py'], [('solvers', SO + ':ClusterExpansion, RegularizedMeanField')],
  na='The error of the approximation depends on the correlations given and has no static bound; that the formulas are the documented ones is decided by C25.')

P('C17', 'Results are free of overflow and cancellation in floating point',
  '''Energies, probabilities, likelihoods and gradients stay finite and accurate for parameters of any representable size.''',
  ['inputs'], 'all finite parameters', 'Tests use parameters of order one.',
  ['coniii/'], [('exponentials of energies', SO + ', ' + U + ' and the equation modules')],
  na='A sound bound on rounding needs bounds on runtime parameters and sample sizes, which callers choose freely; the analysis works in exact real arithmetic. The one structural guard, that shared log-sum-exp primitives subtract their maximum, is part of C01.')
