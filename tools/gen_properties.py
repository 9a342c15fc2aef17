"""Writes /verif/properties.jsonl (kept as a script only so that the wording stays reviewable)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            **({'state': [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
            observe_at=observe or [], hook_needed=None)))

SP='skopt/space/space.py'; TR='skopt/space/transformers.py'; OP='skopt/optimizer/optimizer.py'
BA='skopt/optimizer/base.py'; UT='skopt/utils.py'; AC='skopt/acquisition.py'; CB='skopt/callbacks.py'
KE='skopt/learning/gaussian_process/kernels.py'; GP='skopt/learning/gaussian_process/gpr.py'
FO='skopt/learning/forest.py'; GB='skopt/learning/gbrt.py'

p('C01','Warping a point and unwarping it returns the same point',
 'For every dimension of a search space and every point in it, mapping the point into the warped space the models work in and mapping the result back returns the same point: exactly for integer and categorical dimensions, and up to floating-point rounding for real-valued ones. This holds for every supported transform, prior and logarithm base, for batches of any size, and for whole spaces coordinate by coordinate with every column reassembled in its own position.',
 ['inputs','configurations'],'every dimension kind x transform x prior x base x bounds/category list, every in-range point, every batch size and every mixture of dimensions in a space (categories: distinct scalars of one type; text-producing transforms only in spaces that hold nothing else)',
 'Tests warp a handful of points for a few hand-picked bounds; the claim is over a continuum of bounds and points and over every combination of dimensions in a space.',
 [SP,TR],[('encoder/decoder pairs','transformers.py: LogN, Normalize, LabelEncoder, CategoricalEncoder, StringEncoder, Pipeline'),('per-dimension clip/round/cast','space.py: Real/Integer/Categorical.inverse_transform'),('column slicing by transformed size','space.py: Space.transform / Space.inverse_transform')],
 observe=['Space.transform','Space.inverse_transform','Dimension.transform','Dimension.inverse_transform'])
p('C02','Declared warped bounds and widths are what warping produces',
 'A space declares how many warped columns it has and the bounds of each; every valid point warps to a row of exactly that width whose entries lie within those bounds, each dimension contributing as many columns and bound pairs as it declares. For numeric dimensions the lower and upper end of the dimension warp exactly to the lower and upper warped bound, whatever the prior, logarithm base or transform.',
 ['inputs','configurations'],'every dimension kind, prior, base and transform with a numeric warped representation, every valid point, every list of dimensions',
 'Tests pin the bounds of a few base-10 examples; the guarantee quantifies over every base, prior, transform and every point, and a wrong bound silently confines the search to part of the space.',
 [SP,TR],[('declared bounds','space.py: transformed_bounds of Real/Integer/Categorical/Space'),('declared sizes','space.py: transformed_size, transformed_n_dims'),('encoders','transformers.py')],
 observe=['Space.transformed_bounds','Space.transformed_n_dims','Space.transform'])
p('C03','Every decoded or sampled point lies inside the search space',
 'Any row inside the declared warped bounds decodes to a member of the space, and every point drawn at random from a dimension or a space is a member too. The decoded value has the declared type of the dimension, and nothing out of range is ever produced even when rounding pushes an intermediate value past a bound.',
 ['inputs','configurations'],'every dimension kind, prior, base, transform and bounds, every warped row in bounds (and real overshoot by rounding), every random draw and batch size',
 'Tests sample a few seeds on a few spaces; the claim is over every row a continuous optimiser may return and every draw, including the extreme ends where rounding overshoots.',
 [SP,TR],[('clip to bounds and round','space.py: Real.inverse_transform, Integer.inverse_transform'),('sampling in warped space','space.py: Dimension.rvs, Categorical.rvs, Space.rvs')],
 observe=['Space.rvs','Space.inverse_transform','Dimension.rvs','Optimizer.ask'])
p('C04','Membership in a space is decided exactly, coordinate by coordinate',
 'A point is reported to belong to a space exactly when it has a value inside the closed bounds (or among the categories) of every dimension, ends included. A point or batch handed to the optimizer with any coordinate outside, with a number of coordinates other than one per dimension, or with a number of observed values that does not match the number of points, is refused with an error, and the refused call leaves no trace in the recorded points, values or counters.',
 ['inputs','histories'],'every space, every point and batch (any position of the offending coordinate), every earlier history of observations',
 'Tests try single offending points; which coordinate or batch element is wrong, and what had been recorded before, ranges over everything.',
 [SP,UT,OP],[('membership','space.py: __contains__ of Real/Integer/Categorical/Space'),('observation checks','space.py: check_x_in_space... ; utils.py: check_x_in_space; optimizer.py: Optimizer._check_y_is_valid')],
 state=[('Xi/yi','recorded observations','optimizer.py: Optimizer')],
 observe=['`in` on dimensions and spaces','Optimizer.tell'])
p('C05','The observation history is exactly what was told, in order',
 'After any sequence of reported observations, single or batched, fitted or not, the recorded points and values are precisely those reported, in the order reported, each point paired with its own value; nothing is dropped, duplicated, reordered or rewritten. When the objective also reports durations, the recorded duration is its logarithm and the value is untouched.',
 ['histories'],'every finite sequence of tell calls with any batch sizes, any fit flag, any estimator and acquisition setting',
 'Tests check lengths after short runs; the pairing and order must hold for every history.',
 [OP],[('append/extend of the two parallel lists','optimizer.py: Optimizer._tell')],
 state=[('Xi','points told','optimizer.py: Optimizer.Xi'),('yi','values told','optimizer.py: Optimizer.yi')],
 observe=['Optimizer.Xi','Optimizer.yi','OptimizeResult.x_iters','OptimizeResult.func_vals'])
p('C06','The result reports the first best observation it recorded',
 'In every optimization result the reported best value is the minimum of the recorded values and the reported best point is the one recorded with it, at the first position attaining that minimum; the recorded points and values are the full history and the space is the one searched. When durations are reported together with values, they are separated out and only values decide the optimum.',
 ['histories','inputs'],'every non-empty history of points and values, with ties, with and without durations',
 'Tests check the minimum on a few runs without ties; ties, durations and arbitrary histories are universally quantified.',
 [UT,OP],[('argmin over recorded values','utils.py: create_result'),('result assembly','optimizer.py: Optimizer._tell, Optimizer.get_result')],
 observe=['OptimizeResult.fun','OptimizeResult.x','OptimizeResult.func_vals','OptimizeResult.x_iters'])
p('C07','The initial design is served completely before any model suggestion',
 'The optimizer serves suggestions from its initial design (random points, or the generated design points in order) exactly until the requested number of initial points has been observed, and uses the model from the first moment enough observations are in; observations given in a batch count one each. Asking repeatedly without reporting anything during the model phase returns the same suggestion, and asking never changes what has been recorded.',
 ['histories','configurations'],'every interleaving of ask and tell (any batch sizes), every number of initial points and every initial point generator',
 'Tests follow the ask-tell-ask-tell script; the countdown must be right for every interleaving and batch size.',
 [OP],[('countdown','optimizer.py: Optimizer._n_initial_points in _tell / _ask'),('pre-generated design','optimizer.py: Optimizer._initial_samples')],
 state=[('_n_initial_points','initial points still owed','optimizer.py')],
 observe=['Optimizer.ask','Optimizer.tell','Optimizer.models'])
p('C08','The retained-model list holds the newest models, up to its limit',
 'The list of fitted models kept by the optimizer never exceeds the configured limit (at least one); it holds the most recently fitted models in the order they were fitted, each one fitted on everything observed so far, and with no limit configured it holds all of them. A report that asks for no fitting leaves the list unchanged.',
 ['histories','configurations'],'every limit (or none), every sequence of observations with and without fitting',
 'Tests check one limit for one short run.',
 [OP],[('queue maintenance','optimizer.py: Optimizer._tell')],
 state=[('models','fitted models','optimizer.py: Optimizer.models'),('max_model_queue_size','limit','optimizer.py')],
 observe=['Optimizer.models','OptimizeResult.models'])
p('C09','A batch request yields exactly n points and leaves no side effects',
 'Asking for n points returns a list of exactly n points of the space; asking again for the same n with the same strategy before reporting anything returns the same batch, while anything reported in between discards it. Producing the batch records nothing in the optimizer, and each further point of a batch is chosen after pretending the previous one returned the current minimum, mean or maximum of the observed values according to the chosen strategy; an invalid count or strategy is refused.',
 ['histories','inputs'],'every n, strategy, history, acquisition (including durations) and estimator',
 'Tests ask for a few points from a fresh optimizer; caching, the lie value and absence of side effects must hold for every history.',
 [OP],[('constant liar loop','optimizer.py: Optimizer.ask'),('copy','optimizer.py: Optimizer.copy')],
 state=[('cache_','cached batches','optimizer.py: Optimizer.cache_')],
 observe=['Optimizer.ask(n_points, strategy)'])
p('C10','The suggestion is the candidate with the best acquisition value',
 'In the model phase the suggested point is the decoding of the candidate at which the acquisition function is smallest (most promising) among all candidates examined, so that no examined candidate beats it. With the portfolio strategy every member nominates its own best candidate, each member is credited with the negated model prediction at its nominee, and one nominee is selected with probabilities that favour larger credit and sum to one.',
 ['inputs','histories','configurations'],'every set of candidates and acquisition values, every optimiser of the acquisition (sampling or gradient based), every history',
 'Tests check that good optima are found on average; argmin mistakes or ill-assigned credit still pass them.',
 [OP,AC],[('candidate argmin','optimizer.py: Optimizer._tell'),('portfolio gains and softmax','optimizer.py: Optimizer._tell / _ask')],
 state=[('gains_','accumulated credit','optimizer.py: Optimizer.gains_'),('_next_x','next suggestion','optimizer.py')],
 observe=['Optimizer.ask','acquisition values of sampled candidates'])
p('C11','Minimizers spend exactly the evaluation budget they were given',
 'Every minimizer evaluates the objective exactly the requested number of times unless a callback stops it early; evaluations spent on supplied starting points count towards the budget, and starting points supplied with their values are recorded first without being evaluated again. Supplied starting points are evaluated first and in the given order, and a budget too small for the starting data, starting points of inconsistent length or starting values that do not match the starting points are refused before the objective is ever called.',
 ['inputs','configurations'],'every budget, number of initial points, combination of starting points with or without values, and every minimizer',
 'Tests sample a few (x0, y0, n_calls) combinations; the accounting must add up for all of them.',
 [BA,'skopt/optimizer/dummy.py','skopt/optimizer/gp.py','skopt/optimizer/forest.py','skopt/optimizer/gbrt.py'],[('argument checks and main loop','optimizer/base.py: base_minimize'),('delegation','optimizer/{dummy,gp,forest,gbrt}.py')],
 observe=['number, order and arguments of objective calls','OptimizeResult.x_iters','OptimizeResult.func_vals'])
p('C12','Callbacks see every evaluation once and can stop the run',
 'Every callback given to a minimizer is invoked once after each recorded evaluation, in the given order, with the result up to that point; the run continues unless some callback asks to stop, all callbacks of a round are invoked even when an earlier one asked to stop, and no evaluation happens after a stop request. A single callable is treated as a list of one, and anything not callable is refused.',
 ['inputs','histories'],'every list of callbacks and every pattern of answers over the run',
 'Tests use one or two callbacks with fixed answers.',
 [UT,CB,BA],[('callback evaluation','callbacks.py: check_callback; utils.py: eval_callbacks'),('stop handling','optimizer/base.py: base_minimize')],
 observe=['callback invocations','length of the result'])
p('C13','Early-stopping rules fire exactly on their documented criteria',
 'Each built-in stopping rule decides by its documented criterion and nothing else: small last step, spread of the n best values small enough, value below a threshold, total time exceeded (with the next evaluation projected), too few improvements. Rules that need more history than is available express no opinion, and timers record one non-negative duration per evaluation.',
 ['inputs','histories'],'every result history and every rule parameter',
 'Tests evaluate each rule on one or two hand-made results, far from the boundary cases.',
 [CB],[('criteria','callbacks.py: DeltaXStopper, DeltaYStopper, DeadlineStopper, HollowIterationsStopper..., ThresholdStopper'),('timer','callbacks.py: TimerCallback')],
 observe=['return value of the rule for a result'])
p('C14','Acquisition functions equal their closed forms',
 'At every candidate the acquisition value is the closed form of its name evaluated on the surrogate prediction there: mean minus kappa standard deviations for the confidence bound, the normal-distribution expressions for probability and expectation of improvement over the incumbent by at least xi, and those expressions divided by the expected duration for the per-second variants. Where the predicted deviation is zero the improvement measures are zero, no value depends on any other candidate, and nothing is negative that is a probability or an expected improvement.',
 ['inputs'],'every vector of predicted means and deviations (zeros included), incumbent, xi and kappa, any number of candidates',
 'Tests compare with sampling on a few points to two decimals; sign slips, masks applied to the wrong entries or changed terms survive.',
 [AC],[('closed forms','acquisition.py: gaussian_lcb, gaussian_pi, gaussian_ei, gaussian_acquisition_1D, _gaussian_acquisition')],
 observe=['gaussian_ei/gaussian_pi/gaussian_lcb','acquisition argument of Optimizer'])
p('C15','Acquisition gradients are the true derivatives of the values',
 'Whenever a gradient is requested from an acquisition function, it is the exact derivative, with respect to the candidate, of the value returned with it, given that the surrogate gradients of mean and deviation are correct; where the deviation is zero the gradient is zero. Asking for the gradient does not change the value.',
 ['inputs'],'every mean, deviation, their gradients, incumbent, xi and kappa',
 'Tests compare finite differences at a few random points with a loose tolerance.',
 [AC],[('analytic gradients','acquisition.py: gaussian_lcb, gaussian_pi, gaussian_ei (return_grad)'),('per-second quotient rule','acquisition.py: _gaussian_acquisition')],
 observe=['return_grad=True outputs','gaussian_acquisition_1D'])
p('C16','Kernel derivatives and the category kernel are exact',
 'For every covariance kernel and every pair of points the analytic derivative with respect to the first point equals the derivative of the covariance itself, including compositions by sum, product and power, wherever the kernel is differentiable (coinciding points included). The kernel on categories is symmetric, equals one exactly at identical points, decreases with every differing coordinate as the exponential of its weighted mismatch, and its derivative with respect to its parameters is exact.',
 ['inputs','configurations'],'every kernel and composition, hyperparameter value, pair of points and dimension count',
 'Tests use finite differences at one random point per kernel.',
 [KE],[('gradient_x methods','kernels.py'),('mismatch kernel','kernels.py: HammingKernel')],
 observe=['kernel.gradient_x','HammingKernel.__call__','HammingKernel.diag'])
p('C17','Gaussian-process predictions are the posterior they claim to be',
 'The predicted mean, deviation and covariance are those of the Gaussian posterior given the training data in the original units of the observations, the same whichever combination of outputs is requested; the deviation is never negative, and before any fit the prior of the given kernel is returned. Requested input gradients are the derivatives of the returned mean and deviation, deviation gradients are refused without a deviation, and added observation noise is not part of the predictive deviation.',
 ['inputs','configurations'],'every training set, kernel, noise setting, output normalisation and query point',
 'Tests compare a few random fits with loose tolerances.',
 [GP],[('posterior formulas','gpr.py: GaussianProcessRegressor.predict'),('noise handling','gpr.py: GaussianProcessRegressor.fit')],
 observe=['GaussianProcessRegressor.predict'])
p('C18','Ensemble predictions combine members by the documented formulas',
 'For tree ensembles the predicted mean is the average of the trees and the predicted variance is the average within-leaf variance, floored at the configured minimum, plus the variance of the tree means (law of total variance). For gradient-boosted quantile models the mean is the median model and the deviation is half the distance between the upper and lower quantile models; deviations are never negative for tree ensembles and asking for them never changes the mean.',
 ['inputs','configurations'],'every forest, minimum variance, query matrix and every quantile prediction',
 'Tests check shapes and one toy forest.',
 [FO,GB],[('law of total variance','learning/forest.py: _return_std'),('quantile ensemble','learning/gbrt.py: GradientBoostingQuantileRegressor.predict')],
 observe=['predict(return_std=True)'])
p('C19','Every initial-point generator returns exactly n points of the space',
 'Each initial-point generator asked for n points returns exactly n points, every one a member of the given space with one value per dimension, for spaces mixing real, integer and categorical dimensions. Generating leaves the space as it was found, and the same seed gives the same points.',
 ['inputs','configurations'],'every generator and option, every n >= 1, every space and seed',
 'Tests generate a few sizes on a few spaces.',
 ['skopt/sampler/lhs.py','skopt/sampler/sobol.py','skopt/sampler/halton.py','skopt/sampler/hammersly.py','skopt/sampler/grid.py',SP,UT],[('generate','sampler/*.py'),('restore of transforms','sampler/*.py: space.set_transformer')],
 observe=['InitialPointGenerator.generate','space transformers after the call'])
p('C20','Low-discrepancy designs have the structure that defines them',
 'In the warped unit cube the designs have their defining structure: Latin hypercubes put exactly one point in each of the n equal strata of every coordinate, Halton and Hammersly coordinates are the radical inverses of consecutive indices in pairwise distinct prime bases, Sobol coordinates are exact dyadic fractions in [0,1) with one point per dyadic stratum in each aligned block, and grids put points on the product lattice. Bases used are prime and consecutive.',
 ['inputs','configurations'],'every number of points and dimensions within the supported range, every skip and option',
 'Tests compare a few leading values with tables.',
 ['skopt/sampler/lhs.py','skopt/sampler/sobol.py','skopt/sampler/halton.py','skopt/sampler/hammersly.py','skopt/sampler/grid.py'],[('primes','halton.py: _create_primes'),('radical inverse','halton.py: _van_der_corput_samples'),('strata','lhs.py: _lhs_normalized'),('direction numbers','sobol.py')],
 observe=['generate() on unit cubes'])
p('C21','Named-argument and point/dictionary conversions are mutually inverse',
 'Converting a point between its list form and its name-keyed dictionary form, in either direction, keeps every value under its own dimension and round-trips exactly, the list form being ordered by name however the space was written down; a dictionary that lacks the name of a dimension is refused. An objective wrapped to take named arguments receives each coordinate under the name of its dimension, and unnamed dimensions or a wrong number of coordinates are refused.',
 ['inputs'],'every set of named dimensions, in any order, and every point',
 'Tests use two or three fixed spaces.',
 [UT],[('conversions','utils.py: point_asdict, point_aslist, dimensions_aslist'),('decorator','utils.py: use_named_args')],
 observe=['point_asdict','point_aslist','dimensions_aslist','use_named_args'])
p('C22','Saving without the objective removes only the objective',
 'A result saved and loaded back carries the same contents; saving without the objective drops only the reference to the objective from what is written, and never changes the in-memory result, so the caller can go on using it. A checkpoint callback writes the latest result under its file name on every round.',
 ['inputs','histories'],'every result and every option, including results that hold no objective',
 'Tests save one or two results and do not look at the original afterwards.',
 [UT,CB],[('dump/load','utils.py: dump, load'),('checkpoint','callbacks.py: CheckpointSaver')],
 observe=['skopt.dump','skopt.load','CheckpointSaver'])
p('C23','Bayesian hyperparameter search runs the iterations it was asked for',
 'The hyperparameter search evaluates, per subspace, exactly the requested number of parameter settings (fewer only when a callback asks to stop), never more, whatever the number evaluated in parallel per round; every suggested value reaches the estimator under its own parameter name, and the optimizer is told the negated score of each setting in matching order, so that the best setting found is the one with the best score. The reported total number of iterations is the sum over subspaces, malformed search-space descriptions are refused, and the optimizer settings passed in stay as they were.',
 ['inputs','configurations'],'every search-space description, iteration count, number of points per round and score sequence',
 'Tests run a few searches and look at best scores only.',
 ['skopt/searchcv.py',UT],[('step','searchcv.py: BayesSearchCV._step, _run_search/fit loop'),('space checks','searchcv.py: BayesSearchCV._check_search_space, total_iterations')],
 observe=['cv_results_','optimizer_results_','best_params_','total_iterations'])
p('C24','Distances in a space are metrics and space equality is structural',
 'The distance between points of a dimension is zero exactly for equal points, symmetric and satisfies the triangle inequality, is refused for values outside, and the distance in a space is the sum over dimensions. Two spaces are equal exactly when they have the same number of dimensions and all corresponding dimensions are equal, and two dimensions of different kinds, bounds (beyond rounding), priors or categories are never equal.',
 ['inputs','configurations'],'every pair and triple of points, every pair of spaces',
 'Tests compare a few hand-written distances and equalities of equal-length spaces.',
 [SP],[('distance','space.py: Real/Integer/Categorical/Space.distance'),('equality','space.py: __eq__')],
 observe=['Space.distance','==' ])
p('C25','A fixed seed makes an optimization fully reproducible',
 'With a fixed seed and a deterministic objective, every sampler, surrogate setup, suggestion and minimizer run returns identical results each time; no global random state, clock or iteration order of unordered collections influences a suggestion. A supplied generator object is drawn from rather than reseeded.',
 ['inputs','configurations','histories'],'every seed, space, estimator, acquisition and optimiser setting',
 'Tests rerun a few seeds; any unseeded draw on another path stays hidden.',
 [OP,BA,UT,SP,'skopt/sampler/lhs.py','skopt/sampler/halton.py','skopt/learning/gaussian_process/gpr.py','skopt/learning/gbrt.py'],[('threading of the random state','optimizer.py: Optimizer.__init__, base.py: base_minimize, utils.py: cook_estimator')],
 observe=['results of two runs with equal seeds'])
p('C26','Model-based summaries report points and averages of the model itself',
 'The expected minimum of a result is a point of the searched space together with the last model\'s own prediction there, and it is never worse than the prediction at the best observed point; the sampled variant returns the best among its sampled points. Partial dependence is the average of the model over the sample points with the chosen coordinates fixed to the plotted value and all others untouched.',
 ['inputs','histories'],'every result with a model, every space, number of restarts and seed, every chosen dimension',
 'Tests check rough closeness on one run.',
 [UT,'skopt/plots.py'],[('expected minimum','utils.py: expected_minimum, expected_minimum_random_sampling'),('partial dependence','plots.py: partial_dependence, partial_dependence_1D, partial_dependence_2D, _evenly_sample')],
 observe=['expected_minimum','expected_minimum_random_sampling','partial_dependence'])
p('C27','Dimension descriptions are parsed by the documented rules',
 'A dimension given as a tuple, list or dimension object is interpreted by the documented rules for every length and element type: two whole numbers give an integer range, two numbers with a fraction give a real range, an optional prior and base are honoured, booleans, strings and longer lists give categories, and anything else is refused. The resulting dimension has the given bounds or categories and prior, dimension objects pass through unchanged, and impossible ranges or unknown options are refused at construction.',
 ['inputs'],'every description of any length and element types',
 'Tests list about two dozen examples.',
 [SP],[('parser','space.py: check_dimension'),('constructors','space.py: Real/Integer/Categorical.__init__')],
 observe=['Space(...)','check_dimension'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: 
        assert len(x['title'])<=80, x['title']
        f.write(json.dumps(x)+'\n')
