"""Writes properties.jsonl (kept as a program so that the text can be edited in one place)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=state or [], observe_at=observe.split('; '), hook_needed=None)))


M = 'pymcmcstat/MCMC.py'
p('P01', 'Sampling never leaves the parameter limits; unsampled parameters stay fixed',
  'Every row of the chain, and every parameter vector at which a user function (sum-of-squares, model or prior) is evaluated, lies within the '
  'user\'s limits (limits included), whatever random numbers are drawn. Parameters which are not sampled keep their given value in '
  'every evaluation and in the reported parameter vector. Initial values outside the limits are refused before anything is evaluated, and user functions that work in place on the values they are given change nothing.',
  ['inputs', 'configurations', 'histories', 'fault_sequences'],
  'all models, limits (one-sided, touching the start, of zero width), methods, numbers of delayed rejection tries, random draws however extreme, and sequences of fresh, continued and repeated runs',
  'a candidate outside the limits arises only for particular draws, stages and covariances; a test sees a handful of them',
  [M, 'pymcmcstat/samplers/Metropolis.py', 'pymcmcstat/samplers/DelayedRejection.py', 'pymcmcstat/samplers/utilities.py', 'pymcmcstat/settings/ModelParameters.py', 'pymcmcstat/procedures/SumOfSquares.py'],
  [('limit test of a candidate', 'samplers/utilities.py is_sample_outside_bounds'), ('embedding of sampled into all parameters', 'procedures/SumOfSquares.py evaluate_sos_function'), ('delayed rejection tries', 'samplers/DelayedRejection.py run_delayed_rejection')],
  'arguments of the user functions; chain, theta and limits of the results')
p('P02', 'Every chain row is a state that was visited, with its own sum-of-squares',
  'The chain has exactly one row per simulation step, starts at the initial values, and each row is either the previous row or a candidate that was evaluated in that very step. '
  'The sum-of-squares and error variance stored beside a row are those of that row, the reported final parameters are the last row, names and sizes agree across all result arrays, and the settings reported are those of the run.',
  ['inputs', 'configurations', 'histories', 'fault_sequences'],
  'all methods, models with one or several sums-of-squares, non-finite function values, extreme draws, sequences of runs',
  'a row paired with the wrong value appears only for particular acceptance patterns; tests compare shapes or single steps',
  [M, 'pymcmcstat/structures/ResultsStructure.py', 'pymcmcstat/structures/ParameterSet.py', 'pymcmcstat/samplers/DelayedRejection.py', 'pymcmcstat/procedures/SumOfSquares.py'],
  [('recording of a step', 'MCMC.__execute_simulator, __update_chain'), ('results', 'ResultsStructure.add_*')],
  'chain, sschain, s2chain, theta, names of the results against the recorded evaluations')
p('P03', 'Each step follows the Metropolis and delayed rejection rules exactly',
  'Candidates are the current point plus the current proposal factor applied to the normal draws, and a candidate is accepted exactly when its draw is below the acceptance probability computed from sums-of-squares, error variances and priors of the points concerned. '
  'With delayed rejection every later try uses its own scaled proposal and the recursive acceptance probability over all points tried so far, and candidates outside the limits, of zero posterior probability or with an undefined (nan) value are never accepted.',
  ['inputs', 'configurations', 'histories', 'fault_sequences'],
  'all methods, numbers of tries, priors (Gaussian, unbounded, user-supplied), error variances, draws including 0 and values next to 1, non-finite function values',
  'which branch of the acceptance rule decides depends on rare draws; a wrong term in a later try leaves ordinary output plausible',
  ['pymcmcstat/samplers/Metropolis.py', 'pymcmcstat/samplers/DelayedRejection.py', 'pymcmcstat/samplers/utilities.py', 'pymcmcstat/procedures/PriorFunction.py', M],
  [('stage 1', 'Metropolis.run_metropolis_step, evaluate_likelihood_function'), ('later stages', 'DelayedRejection.run_delayed_rejection, alphafun'), ('prior', 'PriorFunction')],
  'random draws, evaluations and rows, replayed in a small reference model')
p('P04', 'The seed alone decides a simulation; watching, logging and delays do not',
  'Two simulations with the same seed, model and settings give identical results and identical sequences of user function calls, whatever the clock, the operating system\'s entropy, random numbers drawn or objects used before. '
  'Logging, saving, printing, the progress bar, slow user functions, observing custom samplers, displays and statistics change nothing, and objects created without a seed, or with another one, draw different random numbers.',
  ['configurations', 'histories', 'schedules', 'fault_sequences'],
  'all models and methods, seeds (0 and arrays included), sequences of runs, and combinations of surroundings',
  'it compares two whole executions over a product of settings; a test fixes one',
  [M, 'pymcmcstat/settings/SimulationOptions.py', 'pymcmcstat/chain/ChainProcessing.py', 'pymcmcstat/utilities/progressbar.py', 'pymcmcstat/utilities/general.py'],
  [('seeding', 'MCMC.__init__'), ('logging', 'MCMC.__save_to_log_file'), ('printing', 'print_rejection_statistics, display_*')],
  'results, evaluation history and draws of paired executions')
p('P05', 'Logs on disk read back as exactly the chain',
  'With logging on, what is read back from the binary and text logs equals the chain, sum-of-squares chain, error variance chain and the chains of custom samplers, each row once and in order, for every save interval, run length, file name and number of continued runs. '
  'A segment is saved every save interval, the log index lists exactly the saved row ranges, one proposal covariance is logged per segment, and reading while the simulation is still going on returns what has been saved so far.',
  ['inputs', 'configurations', 'histories', 'schedules'],
  'save intervals from 0 to beyond the run length, runs of 1 to more than 1000 steps, binary and/or text, one or several parameters, continued runs with changed intervals, any directory listing order, short writes',
  'segment boundaries and remainders are a product of interval, length and continuation; tests use one combination',
  [M, 'pymcmcstat/chain/ChainProcessing.py'],
  [('segments', 'MCMC.__execute_simulator, __save_to_log_file, __save_chains'), ('reading', 'ChainProcessing.read_in_bin_file, read_in_txt_file, read_in_savedir_files')],
  'files in the log directory; arrays returned by the loader')
p('P06', 'After a crash or I/O error the logs still hold a true prefix of the chain',
  'If the process dies or a file operation fails at any point of a logged simulation, everything the log index lists can be read back and equals the beginning of the chain, in both formats, without gaps or repeated rows. '
  'No reader returns rows that were never sampled, and an I/O error reaches the caller instead of being swallowed. Repeated in a directory that already holds logs, a simulation is logged completely or ends with an error.',
  ['crash_points', 'fault_sequences', 'configurations', 'histories'],
  'a crash before, after or in the middle of any write, open or directory creation, full disk, I/O errors, short and torn writes; fresh and continued runs',
  'a test cannot stop the program at every write; what survives depends on order and buffering of writes',
  [M, 'pymcmcstat/chain/ChainProcessing.py'],
  [('order of data and index', 'MCMC.__save_to_log_file'), ('torn rows', 'ChainProcessing.read_in_txt_file')],
  'the log directory after a simulated restart')
p('P07', 'A continued simulation is a faithful continuation',
  'Continuing a simulation keeps all earlier rows unchanged, starts from the last state (parameters, sum-of-squares, error variance and, for adaptive methods, the proposal and its history), and adds exactly the new steps, each following the sampling rules. '
  'Earlier results objects are not altered, options may be set again in between, and continuing without earlier results is refused.',
  ['histories', 'configurations', 'fault_sequences'],
  'histories of fresh, continued, repeated and interrupted runs of one object, with or without logs, with options set again or not',
  'the state carried over is spread over many attributes; only histories of several runs show a stale one',
  [M, 'pymcmcstat/settings/ModelParameters.py', 'pymcmcstat/procedures/CovarianceProcedures.py', 'pymcmcstat/settings/ModelSettings.py', 'pymcmcstat/structures/ResultsStructure.py'],
  [('restoring', 'MCMC.__setup_simulator, __restore_chains, __expand_chains'), ('parameters from results', 'ModelParameters._results_to_params')],
  'results of consecutive runs, evaluation history, logs')
p('P08', 'Saved results round-trip, survive failed saves, and can be restarted from',
  'Results saved to a file load back with the same values as in memory (the light form without the chains), and the file asked for is the one loaded, whatever else lies in the directory. '
  'A save that fails or dies at any point leaves the previous file intact and readable, and a simulation restarted from a saved file begins at its final parameters with its proposal covariance.',
  ['inputs', 'crash_points', 'fault_sequences', 'histories', 'configurations'],
  'all methods and settings, non-finite values, numpy scalars, user-chosen names, repeated saves, crash or I/O error at any write of a save',
  'the value kinds in the results depend on the settings; a torn file needs a crash inside the save',
  ['pymcmcstat/structures/ResultsStructure.py', 'pymcmcstat/utilities/NumpyEncoder.py', 'pymcmcstat/chain/ChainProcessing.py', M, 'pymcmcstat/settings/ModelParameters.py'],
  [('export', 'ResultsStructure.export_simulation_results_to_json_file, export_lightly, save_json_object'), ('load', 'ResultsStructure.load_json_object, ChainProcessing.load_json_object'), ('restart', 'MCMC.__setup_simulator')],
  'the json file, what is loaded from it, first row of a restarted run')
p('P09', 'Parallel chains: results belong to their chains, failures surface, nothing hangs',
  'Under every schedule and number of cores, result i of a parallel simulation is the run of chain i from the i-th initial values with logs in its own directory, what is on disk equals what is in memory, and each chain follows the sampling rules. '
  'User-given initial values are used as given (refused if outside the limits) and generated ones lie within the limits (parameters not sampled keep their value), the objects the user passed in are not altered, and an error in any chain reaches the caller instead of a hang or a partial result.',
  ['schedules', 'inputs', 'configurations', 'fault_sequences'],
  'all interleavings of 1 to 12 chains on 1 to 8 workers, stalls, exceptions at any user function call in any chain, options and initial values',
  'completion order of workers is not under a test\'s control',
  ['pymcmcstat/ParallelMCMC.py', M, 'pymcmcstat/structures/ResultsStructure.py'],
  [('dispatch', 'ParallelMCMC.run_parallel_simulation'), ('one chain', 'ParallelMCMC.run_serial_simulation'), ('initial values', 'generate_initial_values, check_initial_values'), ('directories', 'ParallelMCMC.setup_parallel_simulation, assign_number_of_cores')],
  'results list, directories, user function calls per chain')
p('P10', 'Parallel chains use different random numbers, reproducibly',
  'No two chains of a parallel simulation draw the same random numbers, whichever process runs which chain and whether or not the main object was given a seed. '
  'For one seed, given as rngseed of the main object or to numpy before or after the set up, the initial values and results are the same for every schedule, number of cores and assignment of chains to workers.',
  ['schedules', 'configurations', 'inputs'],
  'all interleavings, assignments of chains to workers, 1 to 12 chains, 1 to 8 workers, seeded and unseeded',
  'whether streams coincide depends on which worker process is reused or forked, and on its inherited state',
  ['pymcmcstat/ParallelMCMC.py', M],
  [('seed of each chain', 'ParallelMCMC.setup_parallel_simulation, run_serial_simulation')],
  'random draws of each chain; results of paired executions')
p('P11', 'Loading parallel chains returns every chain once, in order',
  'Loading the saved chains of a parallel simulation returns each chain exactly once, in chain order, with the values that were saved, whatever the directory listing order, number of chains, formats present and unrelated entries in the directory. '
  'Combining the loaded chains keeps the requested part of every chain, in order, with the matching index of where each row came from.',
  ['inputs', 'configurations', 'schedules', 'histories'],
  '1 to 14 chains of equal or different lengths, any listing order, both log formats and json results, stray files and directories',
  'listing order is the file system\'s choice',
  ['pymcmcstat/chain/ChainProcessing.py', 'pymcmcstat/ParallelMCMC.py', 'pymcmcstat/propagation.py'],
  [('loading', 'ParallelMCMC.load_parallel_simulation_results, ChainProcessing.load_serial_simulation_results'), ('combining', 'ChainProcessing.generate_combined_chain_with_index, generate_chain_list')],
  'loaded results against those in memory')
p('P12', 'The proposal adapts as the methods prescribe',
  'At every adaptation the covariance, mean and weight of the chain history, and from them the proposal factor (and those of the delayed rejection tries), are what the adaptive Metropolis recursion gives for exactly the chain rows not used before; during burn-in the proposal is only scaled by the rejection rate, and the robust adaptive method follows the acceptance probabilities. '
  'Parameters excluded from adaptation keep their proposal, a singular covariance is regularised or leaves the proposal unchanged, and between adaptations, after the step lastadapt, and in methods without adaptation, the proposal never changes.',
  ['inputs', 'configurations', 'histories', 'fault_sequences'],
  'adaptive methods, adaptation intervals, burn-in lengths and scales, initial covariances with weights, excluded parameters, chains that do not move, continued runs',
  'errors appear only after several adaptations, at burn-in edges or for degenerate chains',
  ['pymcmcstat/samplers/Adaptation.py', 'pymcmcstat/procedures/CovarianceProcedures.py', M],
  [('adaptation', 'Adaptation.run_adaptation, below_burnin_threshold, update_cov_from_covchain, check_for_singular_cov_matrix'), ('initial covariance', 'CovarianceProcedures')],
  'proposals recomputed from chain rows and draws; R, qcov, cov, mean of the results')
p('P13', 'Error variances are updated from their conditional distribution',
  'With error variance updating on, after every step each error variance is a fresh draw from the inverse gamma distribution given by the prior guess and its accuracy, the number of observations and the current sum-of-squares of its own data set, and that value is used in the next step. '
  'With updating off it never changes, and the user\'s own settings are never overwritten.',
  ['inputs', 'configurations', 'histories'],
  'one or several data sets and sums-of-squares, scalar and vector settings, integer values, sequences of runs',
  'pairing of data sets, stale values and truncation show only in combinations of settings and runs',
  ['pymcmcstat/procedures/ErrorVarianceEstimator.py', 'pymcmcstat/settings/ModelSettings.py', M],
  [('draw', 'ErrorVarianceEstimator.update_error_variance, gammar'), ('settings', 'ModelSettings._check_dependent_model_settings*')],
  's2chain against the draws; acceptance decisions')
p('P14', 'Progress display, printed statistics and reported time are true',
  'The progress bar counts up without going back or past the end and finishes at the number of steps of the run, in consoles and notebooks, whatever the clock does, and the printed rejection statistics are those of the simulation so far. '
  'The reported simulation time is the time that passed between beginning and end of the run.',
  ['schedules', 'fault_sequences', 'configurations', 'histories'],
  'clock rates, forward and backward jumps, stalls, run lengths from 1, several runs of one object',
  'tests cannot make the clock jump',
  ['pymcmcstat/utilities/progressbar.py', M, 'pymcmcstat/utilities/general.py', 'pymcmcstat/propagation.py'],
  [('bar', 'progressbar.TextProgressBar'), ('statistics', 'MCMC.print_rejection_statistics'), ('time', 'MCMC.run_simulation')],
  'printed text; simutime of the results')
p('P15', 'An exception in a user function surfaces and spoils nothing completed',
  'An exception raised by any user function at any call ends the simulation with that very exception. '
  'Results of completed runs stay intact, and afterwards the object can be run again or the last completed run continued, with results as correct as if the interrupted run had never happened.',
  ['fault_sequences', 'crash_points', 'histories'],
  'every call index of sum-of-squares, model, prior and custom sampler functions, eleven exception types including keyboard interrupts, histories of several runs',
  'the state left behind depends on the call at which the exception strikes',
  [M, 'pymcmcstat/procedures/SumOfSquares.py', 'pymcmcstat/samplers/DelayedRejection.py', 'pymcmcstat/settings/ModelParameters.py'],
  [('retry without custom argument', 'SumOfSquares.evaluate_sos_function'), ('state between runs', 'MCMC.__setup_simulator')],
  'exception seen by the caller; later runs of the object')
p('P16', 'Rejection and stage acceptance statistics count what happened',
  'The reported rejection fraction is the number of rejected steps over the number of simulations, the fraction rejected outside the limits counts exactly the rejected steps whose last candidate was outside them, and acceptances per delayed rejection stage count the steps accepted at that stage. '
  'They always refer to the current run alone.',
  ['inputs', 'configurations', 'histories', 'fault_sequences'],
  'all methods, numbers of tries, limits, extreme draws and non-finite values, sequences of runs',
  'the counters depend on the whole history of outcomes',
  [M, 'pymcmcstat/samplers/DelayedRejection.py', 'pymcmcstat/structures/ResultsStructure.py', 'pymcmcstat/samplers/Adaptation.py'],
  [('counters', 'MCMC.__update_rejected, DelayedRejection'), ('report', 'ResultsStructure.add_basic, add_dram')],
  'total_rejected, rejected_outside_bounds, iacce of the results')
p('P17', 'Intervals are computed from posterior rows with their own error variance',
  'Credible and prediction intervals evaluate the model only at rows of the given chain (randomly chosen ones when fewer are asked for than there are, the whole chain in order otherwise), with parameters not sampled at their final values, and every prediction adds noise with the error variance stored beside the very row used. '
  'The limits are the stated quantiles of those values, column by column, for each data set; neither the chain nor the results are altered.',
  ['inputs', 'configurations', 'histories', 'fault_sequences'],
  'chains of any length, sample numbers, several data sets and outputs, fixed or sampled error variances, results in memory or loaded from disk, user functions that raise',
  'which rows are used is random; a shifted pairing leaves plausible bands',
  ['pymcmcstat/propagation.py', 'pymcmcstat/plotting/PredictionIntervals.py'],
  [('sampling rows', 'propagation.calculate_intervals, define_sample_points'), ('noise', 'observation_sample'), ('class interface', 'PredictionIntervals.generate_prediction_intervals')],
  'arguments of the model, random draws, returned intervals')
p('P18', 'Custom samplers are called once per step, in order, with the current state',
  'Every custom sampler is set up once at the beginning of each run and then called exactly once after every step, in the order given, with that step\'s outcome, number and state including the updated error variance. '
  'What the samplers returned last is what the sum-of-squares function receives in the following evaluations, delayed rejection tries included, and chains they keep are logged like the main chain.',
  ['inputs', 'configurations', 'histories', 'fault_sequences'],
  'one to three custom samplers, all methods, sum-of-squares functions with and without the additional argument, sequences of runs',
  'order and freshness of the passed values matter only in combination with rejection tries and repeated runs',
  [M, 'pymcmcstat/procedures/SumOfSquares.py', 'pymcmcstat/samplers/DelayedRejection.py', 'pymcmcstat/samplers/Metropolis.py'],
  [('calls', 'MCMC._initialize_simulation, __execute_simulator'), ('hand over', 'SumOfSquares.evaluate_sos_function')],
  'calls of the custom samplers and of the sum-of-squares function')
p('P19', 'Simulation objects do not influence each other',
  'Several simulation objects in one process may be built and run alternately, concurrently or within each other\'s user functions; given the random numbers it draws, each produces exactly the results, logs and user function calls it would produce alone. '
  'They may be given the very same arrays, data and functions, none of which is altered, and results handed out earlier do not change.',
  ['schedules', 'histories', 'configurations'],
  'two to four objects, any interleaving at user function calls and file operations, any order of their runs, shared or separate inputs',
  'shared mutable defaults or aliased inputs show only when runs of several objects overlap',
  [M, 'pymcmcstat/settings/SimulationOptions.py', 'pymcmcstat/settings/ModelSettings.py', 'pymcmcstat/settings/ModelParameters.py', 'pymcmcstat/settings/DataStructure.py', 'pymcmcstat/procedures/CovarianceProcedures.py', 'pymcmcstat/samplers/Adaptation.py', 'pymcmcstat/samplers/DelayedRejection.py'],
  [('per-object state', 'constructors of MCMC and its parts')],
  'results, logs and evaluations of each object against the same object alone')
p('P20', 'Chain statistics are those of the chain',
  'Means, standard deviations, Monte Carlo errors, autocorrelation times, Geweke and Gelman-Rubin diagnostics reported for a chain are the defined functions of the rows given, and computing them does not alter the chain.',
  ['inputs'], 'all chains', 'the space of chains is infinite', ['pymcmcstat/chain/ChainStatistics.py'],
  [('statistics', 'ChainStatistics.chainstats, batch_mean_standard_deviation, integrated_autocorrelation_time, geweke, gelman_rubin')],
  'returned and printed statistics')
p('P21', 'Plots show the data they are given',
  'Every plotting function draws the chain, density, histogram or interval values it was given, one panel per parameter, labelled with its name, and alters neither chain nor results.',
  ['inputs', 'configurations'], 'all chains and names', 'the space of chains is infinite',
  ['pymcmcstat/plotting/MCMCPlotting.py', 'pymcmcstat/plotting/utilities.py', 'pymcmcstat/plotting/PredictionIntervals.py', 'pymcmcstat/propagation.py'],
  [('panels', 'MCMCPlotting.plot_*')], 'figures returned')

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
