"""The properties, in one place (source of properties.jsonl, MANIFEST)."""

GVN = ('static: gated value-numbering data-flow analysis (abstract '
       'interpretation with joins) of the source')
CMP = GVN + (', compared with reference formulas by normalisation and random '
             'interpretation of the value graphs')


def P(id, title, statement, over, text, why, files, mech, technique=CMP,
      note='', observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w}
                                       for n, w in mech]}
    if observe:
        a['observe_at'] = observe
    return dict(id=id, title=title, statement=statement,
                quantifier={'over': over, 'text': text}, why_tests_cant=why,
                anchors=a, technique=technique, level_note=note)


def N(id, title, statement, over, text, why, files, mech, reason):
    d = P(id, title, statement, over, text, why, files, mech)
    d['reason'] = reason
    return d


SOUND = ('Decided from the source on every run; constructs the value-graph '
         'language cannot express are reported in the evidence as undecided '
         'and raise no alarm. Equality of value graphs is over exact '
         'arithmetic.')

PROPS = [
P('C01', 'Option sets are validated, isolated and hold documented defaults',
  'Every way of putting an item in a constrained option dictionary '
  '(constructor, item assignment, path tuple keys, update, |=, setdefault) '
  'checks the key against the documented defaults at its node in the tree '
  'and raises UnknownKeyError, or InvalidValueError when a plain value is '
  'given for a sub-dictionary; dictionary values are merged and checked '
  'recursively. An Options object of each solver holds the documented '
  'default of every option the user does not set and the user value of '
  'every option set, dependent options follow their rule, and building or '
  'changing it never changes the defaults of the class.',
  ['inputs', 'configurations', 'histories'],
  'all keys, path lengths, values (plain, dict, ConstrainedDict) and call '
  'sequences; every Options class of the package',
  'tests check a few wrong keys and never that the class defaults survive',
  ['sporco/cdict.py', 'sporco/admm/admm.py', 'sporco/pgm/pgm.py',
   'sporco/dictlrn/cbpdndl.py'],
  [('option dictionaries', 'ConstrainedDict in sporco/cdict.py'),
   ('option sets', 'Options classes of all solver modules')],
  note=SOUND),
P('C06', 'Solvers never hit an undefined name, attribute, option or '
  'unbindable call',
  'For every solver class and every combination of its options (including '
  'omitting the options object), constructing the solver, running its '
  'iterations and calling its public methods never reads a name or attribute '
  'that has not been defined or an option that its options object does not '
  'define, and never calls a function of the package with arguments that do '
  'not fit its signature.',
  ['configurations', 'histories'],
  'all option combinations, real and complex data, all public methods after '
  'any number of iterations',
  'each option combination opens a different path; tests run a handful of '
  'the combinations, and most optional branches are never executed together',
  ['sporco/admm', 'sporco/pgm', 'sporco/dictlrn'],
  [('solver constructors and step methods', 'sporco/admm/admm.py ADMM, '
    'sporco/pgm/pgm.py PGM, sporco/dictlrn/dictlrn.py DictLearn and their '
    'subclasses')],
  technique=GVN + ': definite-assignment and call-binding analysis',
  note=SOUND + ' Only failures whose path condition is a choice of '
  'configuration are reported.'),
P('C07', 'No stale cache after a change of penalty parameter or data',
  'After the penalty parameter of an ADMM solver changes (and the solver is '
  'notified), or its dictionary or coefficient maps are replaced, the next '
  'primal update, objective value and reconstruction are those of the '
  'current parameter and data: no factorisation, transform or product '
  'computed from the previous values influences them.',
  ['histories', 'configurations'],
  'every solver class, every option combination, any parameter value and '
  'data array',
  'tests construct a solver and solve once; stale caches need a change in '
  'the middle of a history, combined with the option that enables the cache',
  ['sporco/admm'],
  [('penalty change hook', 'rhochange methods in sporco/admm/*.py'),
   ('data replacement', 'setdict / setcoef methods in sporco/admm/*.py')],
  note=SOUND),
P('C26', 'ADMM iteration steps compute the documented updates',
  'In every ADMM solver (sparse coding, dictionary update, total variation '
  'and generic), for any iterate, data and option values, the primal '
  'update, the relaxation step, the auxiliary variable update and the dual '
  'update produce exactly the values given by the documented problem '
  '(objective and constraint) of that solver, and the constraint operators '
  'are paired with their true adjoints.',
  ['inputs', 'configurations', 'histories'],
  'all iterates, data arrays, penalty and relaxation parameters, option '
  'combinations, single- and multi-channel dictionaries',
  'a wrong weight, axis or sign in a step still converges to something '
  'plausible, and only shows for the option or shape that reaches it',
  ['sporco/admm'],
  [('step methods', 'xstep, relax_AX, ystep, ustep, cnst_* of the classes in '
    'sporco/admm')],
  note=SOUND),
P('C27', 'Reported objective values are those of the documented functional',
  'For every ADMM and proximal gradient solver, every iterate and every '
  'choice of which variable the terms are evaluated on, the reported '
  'objective value is the documented weighted sum of its terms and each '
  'reported component is its documented term.',
  ['inputs', 'configurations'],
  'all iterates, weights, regularisation parameters, evaluation options',
  'tests check that objective values decrease or reach a bound; a dropped '
  'weight or a term evaluated on the wrong variable passes them',
  ['sporco/admm', 'sporco/pgm'],
  [('objective evaluation', 'eval_objfn, obfn_* methods in sporco/admm and '
    'sporco/pgm')],
  note=SOUND),
P('C28', 'Residuals and stopping tolerances follow their definition',
  'For every ADMM and proximal gradient solver and every iterate, the '
  'reported residuals and the stopping tolerances are those of the '
  'documented definitions for its problem, in both the standard and the '
  'normalised variants.',
  ['inputs', 'configurations'],
  'all iterates, all tolerances, both residual definitions',
  'tests only see whether iteration stops; a tolerance scaled by the wrong '
  'norm still stops, just at the wrong accuracy',
  ['sporco/admm/admm.py', 'sporco/pgm/pgm.py'],
  [('residual computation', 'compute_residuals, rsdl* in sporco/admm and '
    'sporco/pgm')],
  note=SOUND),
P('C19', 'Proximal gradient steps compute the documented updates',
  'In every proximal gradient solver, for any iterate, data and option '
  'values and for each momentum and step size policy, the gradient, the '
  'gradient step, the proximal map, the momentum coefficient and '
  'extrapolation and the step size produce exactly the values given by the '
  'documented problem and policy.',
  ['inputs', 'configurations', 'histories'],
  'all iterates, data arrays, masks, weights, step size and momentum '
  'policies',
  'an inconsistent gradient or policy update still decreases the objective '
  'on test problems; it shows only for the policy or shape that reaches it',
  ['sporco/pgm'],
  [('gradient and proximal map', 'grad_f, hessian_f, prox_g, xstep, ystep in '
    'sporco/pgm'),
   ('policies', 'sporco/pgm/momentum.py, sporco/pgm/stepsize.py')],
  note=SOUND),
P('C09', 'Arrays supplied by the caller are never modified',
  'No solver constructor, solve iteration or public solver method, and no '
  'module-level function of the library, modifies in place an array passed '
  'as an argument or supplied as an option value (initial states, weights, '
  'masks, dictionaries, signals), whatever its data type and memory layout, '
  'except function parameters documented as output buffers.',
  ['inputs', 'histories', 'configurations'],
  'all array contents, data types and layouts; every solver class with each '
  'accepted option form; any number of iterations; every module function',
  'whether a conversion copies depends on the type and layout of the input, '
  'and tests do not compare their inputs before and after a call',
  ['sporco/admm/admm.py', 'sporco/pgm/pgm.py', 'sporco/cnvrep.py',
   'sporco/prox', 'sporco/linalg.py', 'sporco/dictlrn'],
  [('initial states', 'ADMM.__init__, PGM.__init__ and derived classes'),
   ('in-place updates', 'augmented assignments, slice assignments and out= '
    'arguments in sporco/')],
  technique='static: alias and effect analysis by abstract interpretation of '
            'the source',
  note='Memory may be shared by views, numpy conversions that need not copy, '
       'attributes and loop-carried values; functions outside the repository '
       'are taken to modify nothing but their out= argument. CUDA and plot '
       'modules are not covered.'),
P('C10', 'Line searches accept only steps meeting the documented test',
  'The backtracking line searches of the proximal gradient solvers try step '
  'sizes in the documented sequence, accept the first whose objective value '
  'does not exceed its quadratic bound, and leave iterate, extrapolation '
  'point, step size and the recorded bound consistent with the accepted '
  'trial.',
  ['inputs', 'histories'],
  'all iterates and step sizes; zero, one and two rejected trials',
  'how many trials are rejected depends on the data; tests rarely reject '
  'more than one, and stale intermediate values go unnoticed',
  ['sporco/pgm/backtrack.py', 'sporco/pgm/pgm.py'],
  [('line search', 'update methods of the classes in '
    'sporco/pgm/backtrack.py')],
  note=SOUND + ' Searches are unrolled for up to two rejected trials.'),
P('C13', 'Dictionary projection and array layout follow the size description',
  'For every form of dictionary size description (single size, per-block '
  'sizes, per-channel sizes) and every data array, the dictionary constraint '
  'projection crops each filter to its own support, optionally removes its '
  'mean over that support, and normalises it to unit norm (leaving a zero '
  'filter zero), and the inferred numbers of channels, signals, filters and '
  'the internal array shapes are the documented ones.',
  ['inputs', 'configurations'],
  'all array contents; flat, multi-scale and per-channel size descriptions; '
  'one to three spatial dimensions for layouts',
  'multi-scale descriptions have many index computations of which tests '
  'touch a few; a wrong block offset leaves a plausible dictionary',
  ['sporco/cnvrep.py'],
  [('projection', 'sporco/cnvrep.py Pcn, getPcn, zeromean, normalise, zpad, '
    'bcrop'),
   ('layout', 'sporco/cnvrep.py CSC_ConvRepIndexing, CDU_ConvRepIndexing, '
    'stdformD')],
  note=SOUND + ' Size descriptions are a fixed family with up to two blocks '
  'and two channel groups.'),
P('C16', 'Transforms, convolution, gradients and filters match their formula',
  'The Fourier and cosine transform wrappers, transform-domain norms and '
  'convolution, the discrete gradient and its adjoint, the gradient filters '
  'and the noise, mask, grey-scale, Gaussian and Tikhonov filter functions '
  'return exactly the documented value for every input shape and axis '
  'choice (negative axes included), identically with and without the '
  'optional back end.',
  ['inputs', 'configurations'],
  'all array contents, axes (also negative), even and odd lengths, real and '
  'complex data, both back ends',
  'the optional back end hides the other one from the tests, and axis or '
  'parity dependent terms are sampled on few shapes',
  ['sporco/fft.py', 'sporco/signal.py'],
  [('transforms', 'sporco/fft.py'), ('filters', 'sporco/signal.py')],
  note=SOUND),
P('C18', 'Closed-form linear solvers return the documented solution',
  'The diagonal-plus-rank-one, iterated and conjugate gradient solvers, the '
  'factorisation based solvers, inner products and decompositions return '
  'the documented closed form for every input, with or without cached '
  'terms, for tall and wide matrices, and identically with and without '
  'numexpr.',
  ['inputs', 'configurations'],
  'all array contents and axis choices, tall and wide matrices, cached or '
  'recomputed factors',
  'tests use generic random systems of one shape and one back end',
  ['sporco/linalg.py'], [('solvers', 'sporco/linalg.py')],
  note=SOUND + ' The iterated rank-one solver is unrolled for up to three '
  'systems.'),
P('C25', 'Norms, proximal maps and projections equal their closed form',
  'Every norm, proximal operator and projection whose closed form is '
  'documented returns it for every real or complex input, parameter and '
  'axis choice, including inputs that vanish, identically with and without '
  'numexpr.',
  ['inputs', 'configurations'],
  'all array contents (zero included), real and complex, axis None, one or '
  'several axes',
  'the non-default back end and degenerate inputs are not sampled',
  ['sporco/prox', 'sporco/array.py'],
  [('operators', 'sporco/prox/_lp.py, _l21.py, _nuclear.py')],
  note=SOUND),
P('C30', 'Metrics, interpolation and array utilities match their definition',
  'The image quality metrics, interpolation helpers, zero-safe division, '
  'padding, windowing, sub-sampling and layout conversions return the '
  'documented value for every input, including integer valued images and '
  'arrays with vanishing entries.',
  ['inputs'], 'all array contents and shapes, integer and floating types',
  'tests compare a few sample images with stored numbers',
  ['sporco/metric.py', 'sporco/interp.py', 'sporco/array.py',
   'sporco/prox/_util.py', 'sporco/prox/_l1proj.py'],
  [('metrics', 'sporco/metric.py'), ('utilities', 'sporco/array.py'),
   ('interpolation', 'sporco/interp.py')],
  note=SOUND),
P('C08', 'Penalty parameter changes keep the dual variables consistent',
  'Whenever an ADMM solver changes its penalty parameter, by its automatic '
  'adaptation or by a choice of its options, the parameter takes the '
  'documented value (scaled by the documented factor, residual-ratio '
  'dependent when so configured, at the documented iterations only) and all '
  'scaled dual variables are rescaled by the inverse factor, so that the '
  'unscaled dual variables do not change.',
  ['inputs', 'configurations', 'histories'],
  'every ADMM solver class, all residuals and parameters, vanishing '
  'residuals included, all settings of the adaptation options',
  'a missing rescaling changes the path to the solution but not the '
  'solution; the adaptation is off or rarely triggered in tests',
  ['sporco/admm'],
  [('penalty update', 'update_rho, rhochange in sporco/admm/*.py')],
  note=SOUND),
P('C12', 'Iteration loops follow the documented protocol',
  'A solve call of an ADMM or proximal gradient solver performs at most the '
  'maximum number of iterations, each made of the documented steps in their '
  'documented order, evaluates residuals, statistics, penalty or step size '
  'updates and the callback exactly when the options say so, stops when and '
  'only when both residuals meet their tolerances or the callback asks for '
  'it, continues the iteration count when called again, and returns the '
  'minimiser.',
  ['histories', 'configurations'],
  'all residual values, callback results and tolerances; zero to three '
  'iterations, first and repeated calls, all settings of the options that '
  'control the loop',
  'the order of steps and the handling of repeated calls are not visible in '
  'the converged result that tests look at',
  ['sporco/admm/admm.py', 'sporco/admm/rpca.py', 'sporco/pgm/pgm.py'],
  [('iteration loops', 'solve in sporco/admm/admm.py, sporco/pgm/pgm.py')],
  note=SOUND + ' Loops are unrolled for up to three iterations.'),
P('C29', 'Returned results are those of the current iterate and data',
  'The minimiser, dictionary, coefficient maps, primal, auxiliary and dual '
  'variables and reconstruction returned by a solver are the documented '
  'functions of its current iterate, its current data and the supplied '
  'arguments, before and after its dictionary or coefficient maps have been '
  'replaced.',
  ['inputs', 'configurations', 'histories'],
  'every solver class, all iterates, data arrays and option combinations',
  'tests look at the result of one configuration per class, where the '
  'candidate variables nearly coincide after convergence',
  ['sporco/admm', 'sporco/pgm'],
  [('accessors', 'getmin, getdict, getcoef, reconstruct, var_x, var_y, var_u '
    'in sporco/admm and sporco/pgm')],
  note=SOUND),
P('C02', 'Computation is carried out in the data type of the signal',
  'Solvers keep every array of their state (iterates, dictionaries, '
  'signals, weights, factorisations, frequency domain arrays) in the '
  'precision of the selected data type, which is that of the signal unless '
  'the DataType option says otherwise, from construction through every '
  'iteration and after the dictionary or coefficients are replaced, '
  'whatever the precision of the other arguments and options, and return '
  'solutions in that precision; functions of the prox, linalg, cnvrep, fft, '
  'array and signal modules given arrays of single precision (and Python '
  'scalars) return single precision arrays.',
  ['inputs', 'histories', 'configurations'],
  'single precision signals with double precision dictionaries, initial '
  'values, weights, masks and NumPy scalar parameters; all solver classes, '
  'real and complex data; any number of iterations',
  'tests check the data type of three iterates after one iteration with '
  'all arguments of one precision and Python scalar parameters',
  ['sporco/admm', 'sporco/pgm', 'sporco/linalg.py', 'sporco/prox',
   'sporco/cnvrep.py'],
  [('data type selection', 'IterativeSolver.set_dtype/set_attr in '
    'sporco/common.py'),
   ('conversions', 'np.asarray(..., dtype=self.dtype), self.dtype.type() in '
    'constructors and steps')],
  technique='static: data type inference by abstract interpretation of the '
            'source',
  note='Promotion rules of NumPy 2 and numexpr. Two iterations are analysed '
       'from an arbitrary admissible start; the square root of a Python '
       'number is taken to be a Python number. rgb2gray, '
       'local_contrast_normalise and the metric module compute in double '
       'precision by design and are not covered.'),
P('C03', 'Calls follow the documented signatures',
  'Each public function and class constructor accepts the parameters that '
  'its documentation lists, by name and by position in the documented order, '
  'requires no others, allows the documented optional ones to be omitted, '
  'and then uses the documented default values.',
  ['inputs', 'configurations'],
  'every documented function and class constructor of sporco, every way of '
  'binding its documented parameters',
  'tests call most functions in one form only, usually with keywords',
  ['sporco/admm', 'sporco/pgm', 'sporco/dictlrn', 'sporco/linalg.py',
   'sporco/prox', 'sporco/signal.py', 'sporco/metric.py', 'sporco/array.py',
   'sporco/fft.py', 'sporco/cnvrep.py', 'sporco/util.py'],
  [('signatures', 'public functions and __init__ methods of sporco modules')],
  technique='static: call signatures of the function objects obtained by '
  'abstract evaluation of the modules, compared with a table of documented '
  'call forms',
  note='The documented form is a committed table (sa/specs/signatures.py) '
  'taken from the docstrings; what the bodies do with the values is decided '
  'under the other properties.'),
P('C04', 'Timers and attribute helpers behave as documented',
  'For every history of start, stop, reset and context manager operations '
  'on any selection of labels, a timer reports as total time of a label the '
  'sum of its completed periods and of the current one, as current time that '
  'since the start of the current period, is unaffected by starting a '
  'running or stopping a stopped label, and raises KeyError exactly for '
  'unknown labels. The base class of the iterative solvers sets an attribute '
  'only if it is unset or a reset is requested, uses the default only when '
  'no value is given, converts to the requested type, and lets the DataType '
  'option override the data type of the input.',
  ['histories', 'inputs'],
  'every typestate (absent, created, running, stopped, running again, reset) '
  'of the labels, every operation and label selection, symbolic clock '
  'readings; every case of the attribute helpers',
  'tests exercise a few timer histories against the wall clock',
  ['sporco/util.py', 'sporco/common.py'],
  [('timers', 'Timer, ContextTimer in sporco/util.py'),
   ('attribute helpers', 'IterativeSolver.set_attr/set_dtype in '
    'sporco/common.py')],
  technique='static: typestate analysis by abstract evaluation of the timer '
  'operations on symbolic clock readings; case tables of value graphs for '
  'the attribute helpers'),
P('C05', 'Iteration statistics and displayed columns hold the quantity named',
  'Every field of an iteration statistics record holds the quantity it is '
  'documented to hold (iteration number, functional value and its terms, '
  'residuals, tolerances, penalty or step size parameter, relative solve '
  'error, elapsed time), for the dictionary learning solvers the values of '
  'the inner solver or of the accurate evaluation that the options select, '
  'and every column of the verbose display shows the field its heading '
  'names.',
  ['configurations', 'histories'],
  'every solver class, every record field and display heading, all settings '
  'of the options that select the fields',
  'records are positional tuples assembled from several methods and name '
  'maps; tests hardly look at them and never at the display',
  ['sporco/admm', 'sporco/pgm', 'sporco/dictlrn'],
  [('record assembly', 'iteration_stats, hdrtxt, hdrval, itstat_extra in '
    'sporco/admm and sporco/pgm; IterStatsConfig in '
    'sporco/dictlrn/dictlrn.py; isfld, isxmap, isdmap, evlmap, hdrtxt, '
    'hdrmap in sporco/dictlrn/common.py')],
  note=SOUND),
P('C14', 'Dictionary learning alternates coefficient and dictionary updates',
  'A (masked) convolutional or standard dictionary learning solver starts '
  'both of its inner solvers from the same feasible initial dictionary and '
  'the given signal, uses the inner solver classes named by its method '
  'arguments, and in every outer iteration updates the coefficient maps with '
  'the latest dictionary, passes them to the dictionary update, updates the '
  'dictionary, passes it back, records the statistics of that iteration and '
  'consults the callback; the accurately evaluated functional, the returned '
  'dictionary and the reconstruction are those of the current iterates.',
  ['histories', 'configurations', 'inputs'],
  'every batch dictionary learning class and method pair, all data and '
  'iterates, zero to two outer iterations, first and repeated calls',
  'an exchange in the wrong order or of a stale variable still converges to '
  'something close on the few problems that tests solve',
  ['sporco/dictlrn/dictlrn.py', 'sporco/dictlrn/cbpdndl.py',
   'sporco/dictlrn/cbpdndlmd.py', 'sporco/dictlrn/bpdndl.py',
   'sporco/dictlrn/wbpdndl.py'],
  [('outer iteration', 'DictLearn.solve, post_xstep, post_dstep in '
    'sporco/dictlrn/dictlrn.py'),
   ('learner classes', 'ConvBPDNDictLearn, ConvBPDNMaskDictLearn, '
    'BPDNDictLearn, WeightedBPDNDictLearn')],
  note=SOUND + ' Outer loops are unrolled for up to two iterations.'),
P('C20', 'Online dictionary learning performs projected gradient steps',
  'Each solve call of an online (masked) convolutional dictionary learning '
  'solver sparse codes the given data with the current dictionary, moves the '
  'dictionary along the negative gradient of the (mask weighted) data '
  'fidelity term with step eta_a/(j + eta_b), projects it onto the '
  'constraint set, keeps the previous dictionary, and counts the iteration, '
  'whatever the number of channels and training signals, and whether or not '
  'the size of the data is that of the previous call.',
  ['histories', 'inputs', 'configurations'],
  'all dictionaries, data, masks and iteration counts; first call, and later '
  'calls with data of the same and of another size',
  'tests check that a few steps run; gradient errors for particular channel '
  'layouts or masks and state kept between calls stay invisible',
  ['sporco/dictlrn/onlinecdl.py'],
  [('online step', 'solve, init_vars, xstep, setcoef, dstep in '
    'sporco/dictlrn/onlinecdl.py')],
  note=SOUND),
P('C15', 'Parallel solvers perform the documented iterations',
  'The parallel solvers (consensus dictionary learning with and without '
  'mask, and parallel ADMM for convolutional BPDN) compute, in every work '
  'item of every stage, exactly the documented update of that signal or '
  'filter group and write, in place, only the slices of the shared arrays '
  'that belong to it; the shared arrays are allocated in shared memory, '
  'hold the documented initial values, and are never rebound by a work '
  'item; stages run in the documented order with every item of a stage '
  'handed out exactly once and collected before the next stage; the '
  'returned dictionary, maps, residuals and statistics are those of the '
  'final iterates.',
  ['schedules', 'inputs', 'configurations'],
  'every work item for 1 to 3 spatial axes, single and multi channel data '
  'and dictionaries, masked or not; whole solves of 0 to 3 iterations with '
  'and without a process pool, 2 or 3 filter groups',
  'tests run one small problem; a write outside the slice of an item, a '
  'missing item or a wrong stage order depends on grouping and scheduling',
  ['sporco/dictlrn/prlcnscdl.py', 'sporco/admm/parcbpdn.py'],
  [('work items', 'cbpdn_xstep, ccmod_*, cbpdnmd_*, ccmodmd_*, step_group, '
    'md_step_group in sporco/dictlrn/prlcnscdl.py; par_* in '
    'sporco/admm/parcbpdn.py'),
   ('stages', 'ConvBPDNDictLearn_Consensus.step/solve, '
    'ParConvBPDN.solve')],
  note=SOUND + ' Pools are modelled by their contract: map() applies the '
  'function to every item of its list and returns after the last one.'),
P('C31', 'Solvers start from the documented state',
  'A solver object built from user arguments and options starts from the '
  'documented state: data, dictionaries, weights, masks and initial '
  'iterates are stored in the internal layout derived from the given '
  'arrays; Y, X and U start at the option values when these are set and '
  'otherwise at zero or at the values the dual optimality condition '
  'implies; rho, mu, lambda, step size and relaxation defaults are the '
  'documented ones; the options object in use is the one supplied, or the '
  'defaults of the class.',
  ['inputs', 'configurations'],
  'every solver class, all shapes of signal and dictionary (single and multi '
  'channel, one or many signals, 1 to 3 spatial axes), initial values '
  'supplied or not, masks and weights of each accepted form',
  'tests use default options and one array shape per class',
  ['sporco/admm/admm.py', 'sporco/admm/cbpdn.py', 'sporco/pgm/pgm.py',
   'sporco/pgm/cbpdn.py', 'sporco/cnvrep.py'],
  [('constructors', '__init__, yinit, uinit, rsdl of the solver classes in '
    'sporco/admm, sporco/pgm'),
   ('initial state', 'IterativeSolver.set_attr/set_dtype in '
    'sporco/common.py')],
  note=SOUND),
]

NA = [
N('N01', 'Iterations converge to a minimiser',
  'For every convex problem class and valid parameters, the iterates of the '
  'solver converge to a minimiser of the documented objective.',
  ['inputs', 'configurations', 'histories'],
  'all convex problem instances and parameters',
  'convergence is a limit statement over unbounded histories',
  ['sporco/admm', 'sporco/pgm'],
  [('iteration loops', 'sporco/admm/admm.py ADMM.solve, sporco/pgm/pgm.py '
    'PGM.solve')],
  'a limit over floating-point iterates for all data; no static argument in '
  'reach bounds it (the step formulas it rests on are decided under C26)'),
N('N02', 'Floating-point accuracy of the linear solvers',
  'The computed solutions of the linear systems have a relative residual '
  'near machine precision for every well-conditioned input.',
  ['inputs'], 'all well-conditioned systems',
  'accuracy depends on rounding over all inputs',
  ['sporco/linalg.py'], [('linear solvers', 'sporco/linalg.py solve*')],
  'rounding-error bounds over arbitrary array contents need numerical '
  'error analysis of FFT and BLAS code outside the repository'),
]
