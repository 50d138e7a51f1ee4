"""Regenerates properties.jsonl and MANIFEST.json from this file."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ('deterministic simulation with fault injection: seeded search over configurations, schedules and '
        'fault sequences, every run replayable from its seed; ')

W = ['bayeso/wrappers/wrappers_bo_class.py', 'bayeso/wrappers/wrappers_bo_function.py']
MODELS = ['bayeso/bo/bo_w_gp.py', 'bayeso/bo/bo_w_tp.py', 'bayeso/bo/bo_w_trees.py', 'bayeso/bo/base_bo.py']


def P(pid, title, statement, over, text, why, files, mech, state=(), observe=(), level='fault_enumeration',
      note='', tech=''):
    return {'id': pid, 'title': title, 'statement': statement,
            'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
            'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                        'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state],
                        'observe_at': list(observe), 'hook_needed': None},
            '_level': level, '_note': note, '_tech': tech}


PROPS = [
    P('C01', 'Every evaluation happens exactly once and is recorded faithfully',
      'An optimisation round calls the objective exactly once per initial point it has to evaluate and '
      'exactly once per iteration, and returns the initial data followed by every evaluated point in call '
      'order, each paired with the value the objective returned for it. Every suggestion is computed from '
      'the complete history up to that moment. This holds whatever the objective does with the array it is '
      'given or the buffer it returns its value in, arrays passed in by the caller are never modified, and '
      'rounds on the same optimiser do not bleed into each other: what one round returned stays as it was '
      'returned, whatever happens later, and writing to it changes nothing in later rounds.',
      ['histories', 'fault_sequences', 'configurations', 'inputs'],
      'all entry points, surrogates, kernels, acquisitions, samplers, budgets and value shapes; any '
      'sequence of objective behaviours (in-place writes to its argument at once or later, reused return '
      'buffers, latency), transient numeric failures and abnormal inner-optimiser results',
      'Tests run a handful of well-behaved objectives and check shapes; aliasing or bookkeeping errors need '
      'a particular objective behaviour at a particular call.',
      W + MODELS + ['bayeso/thompson_sampling.py'],
      [('copies on the way in and out of the objective', 'wrappers_bo_class.py / wrappers_bo_function.py'),
       ('history grows by stacking', 'optimize_with_all_initial_information')],
      [('X_, Y_', 'evaluation history of the round', 'wrappers_bo_class.py')],
      ['objective calls', 'returned arrays', 'histories given to the model']),
    P('C02', 'Nothing outside the search space is ever suggested or evaluated',
      'Every point the library itself chooses - initial designs, candidate samples, acquisition candidates, '
      'suggestions, evaluated points - is finite and lies inside the closed search box, bounds included and '
      'zero-width coordinates allowed. If the inner optimiser hands back anything else (outside by one ulp, '
      'far away, NaN, infinite), or the objective returns non-finite values, the round raises or recovers '
      'but never evaluates or reports such a point.',
      ['configurations', 'inputs', 'fault_sequences'],
      'all boxes, samplers, surrogates, acquisition optimisers and entry points; any sequence of corrupted '
      'inner-optimiser results and objective values',
      'Tests check a few boxes and never let the inner optimiser misbehave.',
      W + MODELS + ['bayeso/utils/utils_bo.py', 'bayeso/thompson_sampling.py'],
      [('bounds check on every suggestion', 'utils_bo.check_points_in_bounds'),
       ('clipping / scaling of samples', 'base_bo.get_samples')],
      (), ['objective calls', 'suggestions and candidates', 'samples']),
    P('C03', 'Failing factorisations are absorbed proportionately or reported',
      'When a kernel-matrix factorisation fails transiently, fitting and prediction continue with the '
      'smallest sufficient multiple of the identity added to the diagonal - non-decreasing and growing by a '
      'bounded factor per failure - and the factor, inverse, likelihood and gradients returned are those of '
      'the matrix that was actually factorised. When it keeps failing, or fails for any other reason, the '
      'caller gets an exception; a failure is never turned into a plausible number, and no evaluation is '
      'requested after it.',
      ['fault_sequences', 'inputs', 'configurations'],
      'all kernels, data sets (duplicates included), hyperparameters; any sequence of failing '
      'factorisations and inversions inside a single call or a whole round',
      'Failing factorisations do not happen on the tests\' benign data, so the escalation path is not run.',
      ['bayeso/covariance.py', 'bayeso/gp/gp_likelihood.py', 'bayeso/gp/gp_kernel.py',
       'bayeso/tp/tp_likelihood.py', 'bayeso/tp/tp_kernel.py', 'bayeso/utils/utils_covariance.py'],
      [('jitter escalation', 'covariance.get_kernel_cholesky / get_kernel_inverse and callers')],
      (), ['public kernel, likelihood and fitting functions', 'model information of a suggestion']),
    P('C04', 'Failures reach the caller unchanged and leave the optimiser usable',
      'An exception raised by the objective, by the prior mean, by a numeric service or by an interrupt at '
      'any point of a round reaches the caller as that same exception object: it is never swallowed, '
      'replaced or retried behind the caller\'s back, and no evaluation is requested after it. The caller\'s '
      'arrays are unchanged, no worker pool is left running, and the next round on the same optimiser '
      'behaves exactly like a round on a new one.',
      ['crash_points', 'fault_sequences', 'histories'],
      'every exception kind (KeyboardInterrupt, SystemExit, StopIteration and MemoryError included) at '
      'every objective call, prior-mean call, inner-optimiser call and executed source line',
      'Tests never interrupt a round.',
      W + MODELS + ['bayeso/utils/utils_common.py', 'bayeso/trees/trees_common.py'],
      [('no catch-all handlers on the evaluation path', 'wrappers'),
       ('pool in a context manager', 'trees_common.predict_by_trees')],
      (), ['exception seen by the caller', 'a following round']),
    P('C05', 'An interrupted optimisation resumes from its recorded evaluations',
      'If the process dies at any moment, restarting from the evaluations recorded so far continues the '
      'optimisation exactly as if it had not been interrupted, given the same randomness: same remaining '
      'points, same values, same total number of evaluations. Splitting a budget over several rounds, '
      'objects or the class and function interfaces gives the same history as one long round, whatever else '
      'the object is used for in between. Modes that '
      'deliberately remember hyperparameters across suggestions are excluded.',
      ['crash_points', 'histories', 'configurations'],
      'crash at any executed source line or around any evaluation, up to three crashes, all entry points '
      'and surrogates; all ways of splitting the budget',
      'Needs a process killed at an arbitrary point and a bit-exact comparison with the uninterrupted run.',
      W + MODELS,
      [('suggestions are a function of the history', 'BO*.optimize'),
       ('resumption entry points', 'optimize_with_all_initial_information and its function twin')],
      (), ['journal of evaluations', 'returned history'], ),
    P('C06', 'Concurrent and nested optimisations do not influence each other',
      'Optimisers used from several threads at once (separate objects, or one shared object on different '
      'histories), or started from inside another optimiser\'s objective, each deliver exactly the result '
      'they deliver when running alone. Random forests and Thompson sampling, which share a global '
      'generator, still make exactly their own evaluations, inside their own box, and a forest\'s suggestion '
      'is the best of its own candidates under the forest of its own data.',
      ['schedules', 'configurations'],
      'all interleavings of two or three clients at source-line granularity and at evaluation latencies; '
      'nesting at any evaluation',
      'Tests are single-threaded.',
      W + MODELS + ['bayeso/utils/utils_common.py', 'bayeso/covariance.py', 'bayeso/utils/utils_covariance.py'],
      [('no shared mutable state between calls', 'whole package')],
      [('historical_hyps, is_optimize_hyps', 'the only per-object state changed by a suggestion', 'bo_w_gp.py')],
      ['history of every client'], level='exploration'),
    P('C07', 'A seed fixes what it seeds, and nothing else in the process does',
      'With the same seed, initial designs, candidate samples and suggestions are the same whatever the '
      'operating-system entropy, global generator state, clock, core count and earlier activity of the '
      'process (failed optimisations included), through both interfaces; every seed counts, zero '
      'included, and different seeds differ. A round that is given the same draws gives the same result '
      'whatever ran before it in the process, unseeded designs differ between processes and between calls, '
      'and no operation of a Gaussian- or Student-t-process optimiser disturbs the caller\'s global '
      'generators.',
      ['configurations', 'histories', 'fault_sequences'],
      'all samplers, seeds, surrogates and process environments',
      'Tests run every seeded call in one fixed environment.',
      MODELS + W,
      [('local generators built from the seed', 'base_bo._get_random_state, scipy qmc samplers')],
      (), ['designs, candidates, suggestions, rounds in forked environments'], level='exploration'),
    P('C08', 'Parallel forest prediction equals row-by-row prediction',
      'Predicting any number of points with a forest gives, row for row and in order, what predicting each '
      'point alone gives, whatever the number of cores and the order in which worker processes finish. If a '
      'worker or the pool fails the call raises instead of returning partial, reordered or padded results, '
      'and no worker pool is left running. Neither the query nor the forest is modified, and a whole '
      'random-forest round does not depend on the number of workers.',
      ['schedules', 'fault_sequences', 'inputs'],
      'all row counts around the splitting threshold, worker counts, completion orders and worker or pool '
      'failures',
      'Tests run one real pool with whatever order the machine happens to produce and no failures.',
      ['bayeso/trees/trees_common.py', 'bayeso/bo/bo_w_trees.py'],
      [('split, map in order, concatenate', 'trees_common.predict_by_trees')],
      (), ['predicted means and deviations']),
    P('C09', 'Reported durations are where the time went; clocks never steer results',
      'For every initial evaluation a round reports the duration of that evaluation, and for every iteration '
      'the duration of the whole iteration including its evaluation, of the model fit alone and of the '
      'acquisition search alone; each suggestion reports the latter two and their total. A clock that '
      'jumps, runs backwards, stands still or is coarse never changes the evaluated points or values, the '
      'number of reported durations, or makes a round fail.',
      ['fault_sequences', 'configurations', 'histories'],
      'all assignments of latencies to evaluations, fits, acquisition searches and worker tasks; all '
      'sequences of clock faults; all entry points and surrogates',
      'Tests only check that durations are arrays of the right length; real clocks cannot attribute time '
      'exactly.',
      W + MODELS,
      [('time stamps around evaluation, fit and search', 'wrappers and BO*.optimize')],
      (), ['returned duration arrays', 'suggestion information']),
    P('C10', 'A suggestion is the best candidate the acquisition search found',
      'Every end point of the acquisition search is reported as a candidate together with its '
      'acquisition value under the reported model, and the suggestion is one of the candidates, with no '
      'candidate having a better value; as many candidates are examined as were requested. This holds when restarts of the inner optimiser stall, terminate '
      'abnormally or end anywhere in the box. The responses reported with it are the given ones and, where '
      'normalisation is on, their min-max image.',
      ['fault_sequences', 'configurations', 'histories'],
      'all subsets of failing restarts, surrogates, acquisitions, samplers and histories',
      'In tests all restarts succeed, and the choice among candidates is never compared with the candidates.',
      MODELS + ['bayeso/utils/utils_bo.py'],
      [('choice by evaluation', 'utils_bo.get_best_acquisition_by_evaluation; argmin for forests')],
      (), ['suggestion and its information']),
    P('C11', 'A point is evaluated again only if the search offers nothing new',
      'If the suggestion coincides with an already evaluated point (distance below 1e-8) while the search '
      'offered at least one new candidate, the round evaluates the new candidate with the best acquisition '
      'value; a suggestion that is new is evaluated as it is. Only when every candidate is a repetition '
      'may a known point be evaluated again, and the round goes on.',
      ['fault_sequences', 'histories', 'configurations'],
      'all patterns of candidates repeating initial, latest or earlier points exactly or nearly, in every '
      'iteration, through both interfaces and with all surrogates',
      'Real acquisition searches rarely produce repetitions; the code path is excluded from coverage.',
      W + ['bayeso/utils/utils_bo.py'],
      [('next best acquisition', 'utils_bo.get_next_best_acquisition')],
      (), ['evaluated points against candidates']),
    P('C12', 'Diagnostics are inert and emitted once',
      'Debug output, experiment names, log configuration of the host application, progress output and '
      'failing or slow log sinks never change the evaluated points or values, the random state, or make a '
      'round fail. Every iteration of a round is announced exactly once in the log, however many '
      'optimisers were created before in the process.',
      ['fault_sequences', 'configurations', 'histories'],
      'all combinations of debug flags, experiment names, host log settings and sink faults at any write',
      'Tests run with healthy terminals and never compare debug and non-debug runs.',
      ['bayeso/utils/utils_logger.py'] + W + MODELS,
      [('one handler per logger', 'utils_logger.get_logger'), ('log statements without effects', 'package')],
      (), ['history with and without diagnostics', 'log text']),
    P('C13', 'Thompson sampling evaluates the minimiser of one posterior sample',
      'Each Thompson-sampling iteration evaluates the candidate at which one function, drawn from the '
      'model\'s joint posterior over the candidates, is smallest. If the draw fails numerically the '
      'posterior covariance is retried with a growing multiple of the identity added and the same mean, '
      'starting from the unmodified covariance; if every attempt fails, or the failure is of another kind, '
      'the caller gets an exception instead of an arbitrary point.',
      ['fault_sequences', 'configurations', 'inputs'],
      'all outcomes of the draw (position of the minimum, ties), all sequences of failing draws, all '
      'samplers, candidate counts and histories',
      'Tests check that some point is returned, not which; failing draws do not occur.',
      ['bayeso/thompson_sampling.py', 'bayeso/gp/gp.py'],
      [('retry ladder and argmin', 'thompson_sampling.thompson_sampling_gp_iteration')],
      (), ['drawn samples at the sampling seam', 'returned point']),
    P('C14', 'Missing or broken optional dependencies only cost their feature',
      'When an optional package (CMA-ES, DIRECT, plotting) is absent or fails while being imported, the '
      'library still imports, and a round asking for an unavailable or inapplicable acquisition optimiser '
      'gives exactly the round of the default optimiser. When the package is present it is really used: its '
      'answer is the suggestion, and it is only asked about the search box.',
      ['fault_sequences', 'configurations'],
      'all combinations of present, absent and broken optional packages, requested optimisers and '
      'dimensions, through both interfaces',
      'Tests run in one environment in which the fallback branches are excluded from coverage.',
      ['bayeso/utils/utils_bo.py', 'bayeso/bo/bo_w_gp.py', 'bayeso/bo/bo_w_tp.py', 'bayeso/utils/utils_plotting.py'],
      [('guarded imports', 'bo_w_gp.py, bo_w_tp.py, utils_bo.py, utils_plotting.py'),
       ('optimiser check', 'utils_bo.check_optimizer_method_bo')],
      (), ['import outcome', 'round outcome', 'calls into the packages']),
    P('C15', 'Converged mode refits until hyperparameters settle, then never again',
      'In the mode that stops refitting, every suggestion refits the hyperparameters until a fit differs by '
      'less than five per cent (in norm) from the fit of the preceding suggestion; from then on every '
      'suggestion uses exactly that last fit, with a model built from the complete current history, and '
      'never refits, treating the responses the same way before and after. Failing fits and transient factorisation failures do not advance or corrupt this '
      'state, and separate optimisers do not share it.',
      ['histories', 'fault_sequences', 'configurations'],
      'all sequences of fit results (settling at once, late, never, drifting), failing fits at any point, '
      'interleaved optimisers',
      'The branch needs a sequence of suggestions whose fits agree; tests do not produce one.',
      ['bayeso/bo/bo_w_gp.py', 'bayeso/utils/utils_bo.py'],
      [('convergence check and freeze', 'BOwGP.optimize, utils_bo.check_hyps_convergence')],
      [('is_optimize_hyps, historical_hyps', 'refit state', 'bo_w_gp.py')],
      ['fits requested per suggestion', 'reported hyperparameters and matrices']),
    P('C16', 'Forests stay within the data for every random outcome',
      'Whatever the random draws, every leaf of a forest holds training pairs exactly as given (input and '
      'output of the same row) that belong to that leaf\'s region, each tree holds exactly '
      'one bootstrap sample within the depth limit, every point of the space reaches a non-empty '
      'leaf, and the predicted mean lies between the smallest and largest training output with a finite, '
      'non-negative deviation of the documented law of total variance. Building a forest terminates and '
      'leaves the training data unchanged.',
      ['inputs', 'configurations', 'fault_sequences'],
      'all outcomes of the random generator (adversarial bootstrap samples, feature and split choices), '
      'data with ties and repeated rows, tree depths and leaf sizes',
      'Tests check a few seeds and shapes of the result.',
      ['bayeso/trees/trees_common.py', 'bayeso/trees/trees_random_forest.py', 'bayeso/trees/trees_generic_trees.py'],
      [('bootstrap, split, leaf statistics', 'trees_common.subsample, split, predict_by_trees, compute_sigma')],
      (), ['forest structure', 'predictions'], level='exploration'),
    P('C17', 'Every accepted configuration completes its budget once faults stop',
      'For every accepted combination of options, objective and (duplicate or degenerate) initial data with '
      'responses of moderate magnitude, a round completes its full budget with a bounded number of model '
      'fits, searches and factorisations, as long as numeric failures are transient. Degenerate but legal '
      'problems - one initial point, constant responses, repeated initial points, zero-width coordinates - '
      'are included.',
      ['configurations', 'inputs', 'fault_sequences'],
      'all option combinations of both interfaces; bursts of up to two failures per factorisation and '
      'abnormal inner-optimiser results anywhere',
      'The option product is far larger than the tested handful, and faults are absent.',
      W + MODELS + ['bayeso/gp/gp_kernel.py', 'bayeso/tp/tp_kernel.py', 'bayeso/covariance.py',
                    'bayeso/utils/utils_covariance.py'],
      [('fallbacks and escalation', 'package')],
      (), ['completion and work counters']),
    P('C18', 'Saving a figure yields the complete file or an error',
      'A plotting call that is asked to save either leaves a complete figure file under the requested name or '
      'raises the storage error; it never reports success without the file. The saved figure depends only on '
      'the arguments of the call, not on earlier or failed plotting calls and their options. The plotted data '
      'are not modified, no other file is touched, and nothing is saved when no path is given.',
      ['fault_sequences', 'inputs', 'configurations'],
      'all plotting entry points and options; disk full, permission, torn and failing writes at any byte',
      'Tests plot to a healthy disk and do not look at the file.',
      ['bayeso/utils/utils_plotting.py'],
      [('save and close', 'utils_plotting')],
      (), ['file under the requested path', 'exception']),
    P('C19', 'Every suggestion comes from the stated model of the history',
      'The model behind each suggestion is the one the documentation states, built from exactly the history '
      'passed in: the reported covariance matrix and its inverse are those of the chosen kernel at the '
      'reported hyperparameters, the criterion minimised by the fit (marginal likelihood, leave-one-out '
      'predictive probability or Student-t likelihood, with the prior mean function in use) has the stated '
      'value and, where an analytic gradient is used, the gradient of that value, the posterior mean and '
      'deviation are the closed-form ones (random forests: mean and deviation over the trees), and the '
      'acquisition values are the stated function of them up to a constant factor. This holds wherever the '
      'hyperparameter fit ends, when factorisations fail transiently, and for interleaved optimisers. '
      'Predictions by the standalone functions, for points and for sets of points, obey the same formulas.',
      ['histories', 'fault_sequences', 'configurations', 'inputs'],
      'all surrogates, kernels, acquisitions, options, prior mean functions and histories; any outcome of '
      'the hyperparameter fit, any sequence of transient factorisation failures, any interleaving of up to '
      'three optimisers',
      'Tests check shapes and a few constants at default hyperparameters; a wrong term shows only for '
      'particular options, hyperparameters and histories.',
      ['bayeso/gp/gp.py', 'bayeso/gp/gp_kernel.py', 'bayeso/gp/gp_likelihood.py', 'bayeso/tp/tp.py',
       'bayeso/tp/tp_kernel.py', 'bayeso/tp/tp_likelihood.py', 'bayeso/covariance.py', 'bayeso/acquisition.py',
       'bayeso/trees/trees_common.py'] + MODELS,
      [('criterion', 'gp_likelihood / tp_likelihood'), ('closed-form posterior', 'gp.predict_with_cov, '
       'tp.predict_with_cov'), ('acquisition', 'acquisition.py')],
      (), ['fits at the inner-optimiser seam', 'reported model', 'predictions', 'acquisition values']),
    P('C20', 'A saved, restored or copied optimiser continues exactly as the original',
      'An optimiser (class interface or model) with a picklable objective and prior mean can be saved with '
      'pickle or copied with copy.deepcopy between any two steps of its use, and from inside an evaluation. '
      'What was saved and restored - in the same or, after the process died, in another process - or copied '
      'makes the same suggestions and evaluations as the original would have made with the same randomness, '
      'the remembered fits of the converged mode included, and original and copy do not influence each '
      'other afterwards.',
      ['histories', 'crash_points', 'configurations'],
      'all surrogates, options and sequences of suggestions and rounds; any placement of saves, process '
      'deaths and copies in the sequence',
      'No test saves or copies an optimiser; state that is lost or shared shows only when the object is '
      'used after a particular sequence of steps.',
      W + MODELS, [('object state', 'attributes of the wrapper class and the models'),
                   ('remembered fits', 'bo_w_gp.BOwGP.optimize')],
      [('historical_hyps, is_optimize_hyps', 'fits of the converged mode', 'bo_w_gp.py')],
      ['suggestions', 'reported model', 'returned arrays']),
    P('C21', 'Malformed requests are refused before anything is evaluated, and leave no trace',
      'A request with an argument of the wrong type, arrays with a wrong number of dimensions, rows or '
      'columns, a badly shaped or inverted search box, a negative number of initial points, fewer than one '
      'candidate sample (class interface: also fewer than one initial point or iteration), or an unknown '
      'option name is answered with an exception before the objective is evaluated even once. It changes neither the arrays passed in nor '
      'the optimiser: valid requests before and after it, and an evaluation or round in progress while it is '
      'made, give exactly what they give without it.',
      ['histories', 'fault_sequences', 'configurations', 'inputs'],
      'all entry points of both interfaces, the models and Thompson sampling; any malformed argument at any '
      'position in any sequence of valid requests',
      'Tests check assertion errors of single functions with a few arguments, not when they are raised '
      'within a round nor what they leave behind.',
      W + MODELS + ['bayeso/thompson_sampling.py', 'bayeso/utils/utils_bo.py'],
      [('argument checks', 'assertions at the start of every entry point')],
      (), ['exceptions', 'objective calls', 'results of later requests']),
    P('C22', 'Random designs, sampled functions and bootstrap samples follow their stated law',
      'A design of n points has exactly n points (grids: the full grid with n points per coordinate, bounds '
      'included), distributed as its name says: uniform over the box, normal around its centre with a '
      'quarter of its width as deviation and moved to the bounds where outside, or a freshly scrambled '
      'Sobol or Halton sequence with its equidistribution; the candidates of every Thompson-sampling '
      'iteration are such a design, drawn anew. Sampled functions of a Gaussian or Student-t '
      'process have the given joint law (Student-t: one scale per function). The trees of a forest are built '
      'from independent bootstrap samples of the stated size, every row equally likely. Successive draws, '
      'draws of different objects and draws with different seeds are independent, whatever else ran or '
      'failed in between.',
      ['histories', 'inputs', 'configurations'],
      'all samplers, boxes, sizes, degrees of freedom, forest options and seeds; any interleaving of '
      'objects and other, partly failing activity',
      'Tests check shapes, or compare a few fixed draws; a wrong law shows only in many draws.',
      ['bayeso/bo/base_bo.py', 'bayeso/utils/utils_common.py', 'bayeso/gp/gp.py', 'bayeso/tp/tp.py',
       'bayeso/trees/trees_common.py', 'bayeso/trees/trees_generic_trees.py',
       'bayeso/trees/trees_random_forest.py', 'bayeso/thompson_sampling.py'],
      [('samplers', 'base_bo.get_samples, utils_common.get_grids'), ('sample_functions', 'gp.py, tp.py'),
       ('subsample', 'trees_common.py')],
      (), ['designs', 'sampled functions', 'rows held by trees']),
]

NA = [
    P('N02', 'Kernels are symmetric positive semi-definite with correct gradients',
      'Every covariance function yields symmetric positive semi-definite matrices, and the analytic '
      'gradients are the derivatives of the matrix.', ['inputs'], 'all inputs and hyperparameters',
      'Sampled inputs only.', ['bayeso/covariance.py'], [('closed forms', 'covariance.py')],
      note='Pure arithmetic of its arguments; nothing nondeterministic to simulate.'),
    P('N04', 'Hyperparameter vectors and dictionaries convert back and forth',
      'Converting hyperparameters to a vector and back is lossless for every kernel and flag.', ['inputs'],
      'all hyperparameters, kernels and flags', 'Sampled inputs only.', ['bayeso/utils/utils_covariance.py'],
      [('convert_hyps / restore_hyps', 'utils_covariance.py')],
      note='Pure conversion of its arguments; nothing nondeterministic to simulate.'),
    P('N05', 'Result aggregators compute running minima and cumulative times correctly',
      'The helpers that turn histories and durations into curves compute exact running minima, means and '
      'deviations.', ['inputs'], 'all histories', 'Sampled inputs only.', ['bayeso/utils/utils_common.py'],
      [('get_minimum, get_time', 'utils_common.py')],
      note='Pure array arithmetic; nothing nondeterministic to simulate.'),
]


def main():
    built = [p for p in PROPS if os.path.exists(os.path.join(HERE, 'sim/props', p['id'].lower() + '.py'))]
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in built + NA:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
    import sys
    sys.path.insert(0, HERE)
    checks = []
    for p in built:
        import importlib
        mod = importlib.import_module('sim.props.' + p['id'].lower())
        checks.append({
            'property': p['id'], 'quick_cmd': './run.sh check %s' % p['id'],
            'thorough_cmd': './run.sh check %s --tier thorough' % p['id'],
            'technique': TECH + (mod.__doc__ or '').strip().split(':', 1)[-1].strip(),
            'level': mod.LEVEL,
            'level_note': mod.RULE + '. Assumes: ' + '; '.join(mod.ASSUMPTIONS) + '.',
        })
    man = {'version': 1, 'setup_cmd': './run.sh setup', 'checks': checks,
           'not_applicable': [{'property': p['id'], 'reason': p['_note']} for p in NA]}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
