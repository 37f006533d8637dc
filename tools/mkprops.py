import json
E="smote_variants/evaluation/"
B="smote_variants/base/"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","Job pool: one right outcome per submitted job, in submission order",
"Executing a list of jobs on the timeout-capable process pool returns a list of the same length whose i-th entry is the outcome of the i-th submitted job: the value that job computed if its worker finished, otherwise that job's own timeout/crash fallback. Every job body is started exactly once, every fallback is produced at most once and only for a job whose value is not returned, and no outcome of one job ever appears in another job's slot. This holds for any worker count, job count, duration mix, result size and repeated use of one pool.",
["schedules","inputs","fault_sequences"],
"for every interleaving of the pool's threads and worker processes, every number of jobs and workers, every duration/result size, and any subset of workers dying at any instant",
"tests run a couple of uniform sleeping jobs under whatever schedule the OS gives; they cannot place a preemption between two lines of the dispatcher, a worker death between computing and delivering, or a result larger than the pipe buffer",
[E+"_parallelization.py"],
[("shared job index under a lock","_parallelization.py: pooling_thread"),("per-job result channel","_parallelization.py: process_manager / execute_job_object"),("indexed result slot","_parallelization.py: process_manager results[idx]")],
[("pool.idx","next job to hand out","_parallelization.py: ThreadTimeoutProcessPool"),("pool.results","outcome slots","_parallelization.py: ThreadTimeoutProcessPool")],
["return value of execute()/apply()","job body start/finish and fallback events"])

p("C02","Job pool: always finishes, stays within its worker limit, keeps workers busy",
"As long as every job body terminates or a timeout is set, executing jobs on the pool terminates: no result size, worker death or failure to create a worker process or thread can make the call hang. At no instant are more worker processes running than the configured number of jobs, and while unstarted jobs remain no configured worker stays idle, so the simulated completion time never exceeds that of list scheduling. When the call returns, no worker process of it is still running.",
["schedules","fault_sequences","inputs"],
"for every interleaving, job/worker counts, durations, result sizes, worker deaths at any instant and process- or thread-creation failures",
"liveness and a concurrency bound range over all schedules; a test can only observe that one schedule finished, and a hang needs a pipe-buffer-sized result, a failing fork or a specific ordering of lock operations",
[E+"_parallelization.py"],
[("n_jobs pooling threads","_parallelization.py: ThreadTimeoutProcessPool.execute"),("start lock released after process start","_parallelization.py: process_manager"),("thread/process joins","_parallelization.py: pooling_thread, process_manager")],
[("process_start_lock","serialises process creation","_parallelization.py: pooling_thread")],
["termination of execute()","number of live workers at every step","virtual completion time"])

p("C03","Job timeouts: exact, per job, and final",
"With a positive timeout, a job that needs less than the timeout is never cut, regardless of what other jobs do or how long it waited for a worker; a job that needs more is stopped once its own timeout has passed and its fallback becomes its outcome. After the fallback of a job has been started, nothing the stopped job does is visible any more, in memory or on disk. With no timeout (none, zero or negative) no job is ever cut.",
["schedules","inputs","fault_sequences"],
"for every duration mix around the timeout, queueing delay, scheduling delay, asynchronous delivery of kill signals and interleaving of stopped worker and fallback",
"tests use sleeps seconds away from the timeout on an idle machine; the boundary, the signal-delivery window and jobs finishing while being cut are reachable only when time and signal delivery are controlled",
[E+"_parallelization.py",E+"_sampling.py"],
[("bounded wait then kill","_parallelization.py: process_manager"),("timeout fallback","_sampling.py: SamplingJob.timeout, _parallelization.py: FunctionWrapperJob.timeout")],
[],["outcomes vs durations in virtual time","effects of killed workers after their fallback began"])

p("C04","Cached evaluation is restartable after a crash at any point",
"If a cached evaluation is interrupted at an arbitrary instant by killing the process group or by a power loss, then repeating the same call on the surviving cache directory completes and returns the same results (folds, oversampler and classifier configurations, predictions, scores, errors) as a call that was never interrupted. This holds for both serialization formats, any number of workers, and any number of consecutive interruptions. Work whose results were completely stored before a process kill is not computed again by the repeated call, as long as its stored form was not removed by clean-up.",
["crash_points","schedules","configurations"],
"for every crash instant at system-call granularity, both crash kinds, every set of surviving unsynchronised writes, serialization format, worker count and crash sequence",
"the tests never interrupt an evaluation; a crash can land inside any of thousands of writes in any worker",
[E+"_functions.py",E+"_sampling.py",E+"_evaluation.py",E+"_folding.py",B+"_base.py"],
[("damage check before reuse","_base.py: check_if_damaged"),("flush+fsync on store","_base.py: dump_dict"),("content-addressed cache files","_sampling.py/_evaluation.py: target_filename_damaged")],
[("cache directory","fold/oversampling/evaluation files per dataset","_functions.py: cached_evaluation")],
["results of the repeated call","recomputation count"])

p("C05","Storage faults never produce silently wrong evaluation results",
"When reads or writes of the cache fail (disk full, I/O error, descriptor exhaustion) or a stored file is found truncated, a cached evaluation either raises an error or returns results in which every entry is correct or explicitly carries an error; it never silently returns wrong, missing, duplicated or misattributed entries. Repeating the call after the fault has gone, on the same cache directory, completes and satisfies the same condition.",
["fault_sequences","schedules","configurations"],
"for every placement and kind of storage fault in any process, any truncation of pre-existing cache files, both formats and any worker count",
"tests never inject storage faults; each fault has thousands of possible positions",
[E+"_functions.py",E+"_sampling.py",E+"_evaluation.py",E+"_folding.py",B+"_base.py"],
[("damage check before reuse","_base.py: check_if_damaged"),("exceptions propagate out of jobs","_functions.py: cached_evaluation"),("pool fallback","_parallelization.py: process_manager")],
[],["exception or returned records vs reference model"])

p("C06","Evaluation results equal a sequential reference for every execution mode",
"For every dataset, list of oversamplers and list of classifiers, evaluating them yields exactly one entry per (cross-validation fold, oversampler, classifier) combination. Each entry carries its own fold identity, that fold's true test labels, and the predictions and scores obtained by scaling on the training part only, oversampling only the training part, and scoring the untouched test part mapped by the same transformations. The set of entries and the aggregated table (mean and deviation per configuration) do not depend on the number of workers, on whether or how results are cached, on the serialization format, or on the schedule.",
["schedules","configurations","inputs"],
"for every interleaving of workers, worker count, cached/uncached mode, serialization format, validator setting, scaler and configuration list",
"tests compare shapes on one or two configurations run under one schedule and never against an independent recomputation; result/fold mix-ups depend on when a worker pickles its input",
[E+"_functions.py",E+"_sampling.py",E+"_evaluation.py",E+"_folding.py",B+"_base.py",B+"_metrics.py"],
[("fold generator","_folding.py: fold"),("oversampling job","_sampling.py: do_oversampling"),("evaluation job","_evaluation.py: do_evaluation"),("aggregation","_functions.py: do_parse_results")],
[("fold descriptor","identity of a fold carried through all stages","_folding.py: fold")],
["returned records and aggregated table vs reference model"])

p("C07","A failing or timed-out oversampler is recorded and contained",
"If an oversampler raises a value or runtime error, exceeds its time limit, or its worker process dies on some fold, the entries of exactly that fold and oversampler carry the failure and are scored on the unsampled, scaled training data, while every other entry is exactly what it would have been without the failure. The failing configuration still contributes one entry per fold and appears as a single configuration in the aggregated table. A classifier raising such an error is likewise recorded with its error in exactly its own entries, and does not abort the evaluation.",
["fault_sequences","schedules","configurations"],
"for every subset of (fold, oversampler) cells failing by exception, timeout or worker death at any instant, in every execution mode",
"tests only run one always-failing configuration; partial failures, worker deaths and timeouts mixed with successes are schedule- and fault-dependent",
[E+"_sampling.py",E+"_evaluation.py",E+"_functions.py",E+"_parallelization.py"],
[("error capture","_sampling.py: do_oversampling, _evaluation.py: do_evaluation"),("timeout fallback","_sampling.py: timeout"),("grouping by configuration","_functions.py: do_parse_results")],
[],["returned records and aggregated table vs reference model with the injected failures"])

p("C08","A cache directory never answers a request with another request's results",
"For any history of evaluation calls sharing one cache directory - differing in datasets, oversamplers, classifiers, their parameters, cross-validation settings, scaler, worker count, serialization or clean-up mode, but using one and the same time limit - each call returns what it would have returned on an empty directory. Reuse of stored work is only ever an optimisation.",
["histories","configurations","schedules"],
"for every sequence of calls over one cache directory",
"tests use a fresh directory or repeat one identical call; interference needs a specific earlier call",
[E+"_functions.py",E+"_sampling.py",E+"_evaluation.py",E+"_folding.py"],
[("request-dependent cache file names","_sampling.py/_evaluation.py: target_filename_damaged"),("fold cache","_folding.py: cache_foldings, folding_files")],
[("cache directory","stored folds, oversamplings, evaluations","_functions.py")],
["records returned by each call in a history vs fresh-directory reference"])

p("C09","Results are durable when the call returns; clean-up removes only what it may",
"When a cached evaluation returns, every evaluation result it reports is stored completely in the cache directory and survives an immediate power loss, so a later identical call returns the same entries from storage. Clean-up removes the intermediate files of that dataset that the chosen mode names (none, oversamplings, or oversamplings and folds), and never evaluation results, files of other datasets, or unrelated files, whatever characters the names contain; it runs only after everything that needs them has finished.",
["crash_points","schedules","configurations"],
"for every schedule, worker count, format, clean-up mode, dataset list and neighbouring directory content, with power loss right after return",
"tests look for a few file names after a normal run; durability needs a modelled page cache, and premature clean-up needs a slow worker",
[E+"_functions.py",B+"_base.py"],
[("fsync on store","_base.py: dump_dict"),("clean-up globbing","_functions.py: do_clean_up")],
[],["directory listing and durable content at return"])

p("C10","Model selection returns the best configuration, whatever the schedule",
"Model selection returns an oversampler and a classifier, each constructed with exactly the parameters of one evaluated configuration, whose mean cross-validation score on the requested measure is the maximum over all configurations evaluated. The mean score of the selected configuration is the same for every worker count, caching mode and schedule.",
["schedules","configurations","inputs"],
"for every interleaving, worker count, caching mode, measure and configuration list",
"tests check that something is returned; the result passes through order-dependent aggregation over records arriving in schedule order",
[E+"_functions.py"],
[("aggregation and arg-max","_functions.py: model_selection, _pivot_best_scores, do_parse_results")],
[],["returned objects' parameters vs reference scores"])

p("C11","Reported runtimes measure elapsed time",
"The oversampling and evaluation runtimes reported in evaluation entries equal the time that elapsed while that oversampler or classifier was running, and are never negative for work that completed, even when the system's wall clock is stepped or slewed during the evaluation. Only a timed-out oversampling carries the documented negative marker.",
["fault_sequences","schedules","inputs"],
"for every placement and size of clock jumps, every duration and every interleaving",
"tests cannot move the clock; real clock steps are rare and only show up as odd numbers in results",
[E+"_sampling.py",E+"_evaluation.py"],
[("timestamps around the call","_sampling.py: do_oversampling, _evaluation.py: do_evaluation")],
[],["runtime fields vs virtual elapsed time"])

p("C12","Seeded sampling is reproducible and isolated from everything else running",
"Any oversampler (DEAGO excepted, which trains a TensorFlow model), undersampler, noise filter, metric learning method, multiclass wrapper or oversampling classifier constructed with a fixed integer seed returns bit-identical output for identical input - and the same error where it raises one - no matter what other threads do at the same time (including running other samplers that share its input arrays or parameter dictionaries), what state the process-wide random generators are in, what ran before in the process, and which of several equal instances is used; the n-th call on one object likewise. Nor does importing the library or running a seeded sampler disturb the process-wide random generators of its host program.",
["schedules","histories","inputs"],
"for every interleaving of sampler threads at source-line granularity, every prior history and state of the global generators, and every dataset and parameterisation",
"the reproducibility tests call each sampler twice in a row in a quiet process, where a stray draw from the shared generator or a module-level cache often goes unnoticed",
[B+"_base.py",B+"_oversampling.py",B+"_metrictensor.py","smote_variants/oversampling/","smote_variants/noise_removal/","smote_variants/undersampling/","smote_variants/multiclassoversampling/","smote_variants/datasets/"],
[("per-object generator","_base.py: RandomStateMixin"),("seeds forwarded to components","oversampling/*.py constructors of inner estimators")],
[("np.random / random global state","host program's generators","interpreter")],
["output bits per instance vs solo run","global generator state before/after"])

p("C13","Samplers never touch the caller's data, at any instant",
"No oversampler, undersampler, noise filter, multiclass wrapper, preprocessing transform or oversampling classifier ever modifies the arrays the caller passes in - not even temporarily while it runs, so that concurrent callers can share one dataset, and not when the call is aborted part-way. The arrays a sampling or filtering call returns share no memory with the caller's arrays and are never changed by later calls. Parameter dictionaries and metric tensors passed at construction, and the parameters the object reports, are left unchanged by sampling.",
["schedules","fault_sequences","inputs"],
"for every interleaving of concurrent callers sharing arrays, every abort point, every dataset and parameterisation",
"tests look at outputs after the call; in-place scaling that is undone before returning, or a returned array that aliases an input or an internal buffer, is only visible to a concurrent reader, after an abort or in a later call",
[B+"_oversampling.py","smote_variants/oversampling/","smote_variants/noise_removal/","smote_variants/undersampling/","smote_variants/multiclassoversampling/","smote_variants/classifiers/"],
[("copy-on-write array style","oversampling/*.py: sampling_algorithm"),("copies when nothing is to be done","_oversampling.py: sample, return_copies")],
[],["input bytes at every source line","previously returned arrays after later calls","get_params() and caller's dictionaries after the call"])

p("C14","Earlier calls leave no residue, not even aborted ones",
"If a sampling call is aborted at an arbitrary point by an interrupt, an out-of-memory error, or a run-time error in a component, that exception reaches the caller, and the library afterwards behaves as if the aborted call had never been made: calls on fresh seeded objects give the same output, and process-wide settings (warning filters, floating-point error handling, log level, library flags, random generator state of the host) and the object's own parameters are what they were before. Apart from the position of its random generator, an object carries nothing over from earlier calls, whether they completed or were aborted and whatever data they were given: put back to its seed, it gives the same output, and transforms new data the same way, as a fresh object.",
["fault_sequences","histories"],
"for every abort point at source-line granularity, abort kind, sampler, earlier datasets and follow-up call",
"tests never abort a call and seldom reuse an object; each call has hundreds of possible abort points",
[B+"_oversampling.py","smote_variants/oversampling/","smote_variants/noise_removal/","smote_variants/undersampling/","smote_variants/config.py"],
[("no process-wide state in samplers","oversampling/*.py"),("scoped warning suppression","oversampling/*.py: catch_warnings")],
[],["follow-up results and process-wide settings vs never-aborted twin"])

p("C15","Sampling output is well-formed under every random stream",
"Whatever values the random generator given to a sampler delivers - extreme, repeated or arbitrarily close to the ends of their range - an oversampler terminates within a bounded number of draws and either raises a value or run-time error or returns finite samples, one label per row, no label that was not in the input, in the space its preprocessing transform maps new data to. The number of majority samples does not grow unless the technique is categorised as changing the majority class. Techniques not categorised as changing the majority class, removing noise or reducing the dimension (and other than ADG, DSRBF, MOT2LD and KernelADASYN) return the original samples first, followed by generated samples that are all labelled as minority, and generate no more samples than the proportion requests (other than NDO_sampling, SSO, SMOTE_D, CCR and the polynom_fit family). Interpolating techniques (SMOTE, ADASYN, Borderline_SMOTE1, distance_SMOTE, MWMOTE, ProWSyn, kmeans_SMOTE and the like) generate only within the range of the minority samples. Noise filters and undersamplers return only rows of the input with their own labels. Multiclass oversampling keeps all original samples first and brings no class above the size of the largest one. The oversampling classifier, once fitted, predicts one label of the training set per row of any data with the training data's columns, whatever space its oversampler maps to.",
["inputs","histories"],
"for every legal stream of generator outputs (including extreme and repeated values), every dataset and parameterisation",
"tests use a handful of fixed seeds, which never produce extreme draws such as values next to 0 or 1, or long runs of the same choice",
[B+"_oversampling.py",B+"_simplexsampling.py","smote_variants/oversampling/","smote_variants/noise_removal/","smote_variants/undersampling/","smote_variants/multiclassoversampling/","smote_variants/classifiers/"],
[("sampling contract","_oversampling.py: OverSampling.sample, return_copies, det_n_to_sample"),("simplex sampling","_simplexsampling.py: sample_simplex")],
[],["returned arrays vs input under simulated generator"])

p("C16","Stored results read back correctly at any time, also after a crash",
"Loading the stored results of a dataset - while an evaluation is writing them, after it returned, or after it was killed or lost power at an arbitrary instant - never fails, yields each stored evaluation once, unaltered and under its own dataset, never a partial, foreign or invented one, and never loses an evaluation an earlier load has seen. After the evaluation returned all of its entries are there. A stored result that cannot be read because of an I/O error makes the load raise rather than being left out. The summary built from the loaded results has one row per configuration (dataset, oversampler and classifier with their parameters), for every oversampler, listing exactly the folds that are stored, with the values in all columns belonging to the same fold.",
["crash_points","schedules","inputs"],
"for every instant of reading relative to the writer, every crash point, both serialization formats, any order in which the directory lists its files, and any configuration",
"tests read a complete directory once, in whatever order the file system lists it; unfinished files, partially stored folds and techniques without simplex parameters never occur",
[E+"_processing.py",B+"_base.py"],
[("listing and loading of evaluation files","_processing.py: load_dataset_data, datasets_in_cache"),("grouping by configuration","_processing.py: create_summary, _serialize_data"),("files appear complete","_base.py: dump_dict")],
[],["returned data frames vs the reference model"])

p("C17","The memory budget for distance matrices changes memory use, nothing else",
"Whatever value the process-wide memory budget for distance computations has - including values below the size of a single row - and however other threads change it while a computation runs, distance matrices, neighbour queries under a metric tensor and every seeded oversampler give the same result (up to rounding) as with the default budget, and raise no error they would not raise with it. With a budget set, the intermediate memory of a distance matrix stays within a small multiple of the budget or of one row's need, whichever is larger.",
["schedules","inputs"],
"for every budget, every sequence and placement of budget changes by other threads, all samplers, parameters and datasets",
"the budget is a mutable process-wide setting re-read inside a recursion; tests only set and read it back, so neither block boundaries nor changes in the middle of a computation are ever exercised",
[B+"_metrictensor.py","smote_variants/config.py"],
[("row blocks","_metrictensor.py: pairwise_distances_mahalanobis"),("budget flag","config.py: distance_matrix_max_memory_chunk")],
[("flags[DISTANCE_MATRIX_MAX_MEMORY_CHUNK]","process-wide budget","config.py")],["returned arrays","peak traced memory"])

p("C18","Programs evaluating at the same time on one cache directory do not interfere",
"When two programs run cached evaluations on one cache directory at the same time - the same request or requests differing in data, validation, scaler, oversamplers, classifiers, format or worker count - and neither asks for clean-up, each of them completes and gets the results it would have got alone on a directory of its own. If one of them is killed at an arbitrary instant, the other one, and a call that is started in its place while worker processes of the killed program still run, get the results they would have got alone. With clean-up the files one program needs may be removed by another: it may then raise an error or flag an entry, but never returns wrong, missing, duplicated or misattributed entries. A call made after all of them have ended completes and returns what it would have returned on an empty directory.",
["schedules","fault_sequences","configurations"],
"for every interleaving of the programs' and their workers' file system operations, every pair of requests, formats and worker counts, and every instant at which one of the programs is killed",
"tests run one evaluation at a time; the overlap of two writers of one file, or of one program replacing files another one is reading, exists only in particular interleavings of separate processes",
[E+"_functions.py",E+"_sampling.py",E+"_evaluation.py",E+"_folding.py",B+"_base.py"],
[("files appear complete under their final name","_base.py: dump_dict"),("files named by everything they depend on","_folding.py, _sampling.py, _evaluation.py"),("damage check before reuse","_base.py: check_if_damaged")],
[("cache directory","fold/oversampling/evaluation files per dataset","_functions.py: cached_evaluation")],["exception or returned records of each program vs reference model"])

p("N01","Scores equal their documented formulas",
"Every reported score (accuracy, sensitivity, specificity, balanced accuracy, g-mean, f1, brier, auc, log loss, p-top-20 and the confusion matrix based ones) equals its documented formula on the given labels and predictions, is within its range, and is undefined only where the formula is.",
["inputs"],"for every label vector and prediction vector","tests compare a handful of vectors",
[B+"_metrics.py"],[("score formulas","_metrics.py: calculate_all_scores")],[],["returned score dictionary"])

p("N02","Parameters round-trip and invalid ones are rejected",
"Every sampler constructed from the parameters another one reports is equivalent to it, every set of parameters produced by parameter_combinations is accepted, and every out-of-range or mistyped parameter is rejected with an error at construction.",
["inputs"],"for every class and parameter assignment","tests round-trip default parameters only",
[B+"_base.py","smote_variants/oversampling/"],[("parameter checks","_base.py: ParametersMixin"),("get_params","oversampling/*.py")],[],["constructor outcome, get_params()"])

p("N03","Learnt metrics are valid and neighbour search under them is exact",
"Every metric learning method returns a symmetric positive semi-definite tensor of the data's dimension, and nearest-neighbour queries under a metric tensor return exactly the nearest points under that metric.",
["inputs"],"for every dataset and tensor","tests use a few small datasets",
[B+"_metrictensor.py"],[("metric tensors","_metrictensor.py: MetricTensor"),("chunked distances","_metrictensor.py: pairwise_distances_mahalanobis")],[],["tensor eigenvalues, neighbour indices"])

p("N04","Catalogue queries return exactly the matching techniques",
"get_all_oversamplers, get_all_oversamplers_multiclass, get_n_quickest_oversamplers and the noise filter queries return exactly the techniques that satisfy the documented condition, each once, and only importable ones.",
["inputs"],"for every query argument","tests check that the lists are non-empty",
["smote_variants/queries/_queries.py"],[("queries","_queries.py")],[],["returned lists"])

json.dump(P,open('/tmp/props.json','w'))
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
