CL.update({
 "C04": (T + "evaluation killed or powered off at seeded instants (biased to unsynchronised writes), restarted on the surviving directory, compared with a sequential reference model", "exploration",
         "real evaluation code, json/pickle and io buffering on a simulated page cache and journal; seeded sampling of crash points; file-system model is ext4-like"),
 "C05": (T + "seeded ENOSPC/EIO/EMFILE/EACCES/torn writes and truncated cache files, results compared with a reference model", "exploration",
         "fault placement by seeded sampling in every simulated process; pool workers and joblib workers included"),
 "C06": (T + "whole evaluation on simulated pool and joblib workers under seeded schedules, refinement against a sequential reference model", "exploration",
         "seeded sampling of schedules, modes and configurations; joblib's executor is a stub, its dispatcher is real"),
 "C07": (T + "planned exceptions, virtual time-outs, seeded worker deaths and fork failures per cell, refinement against the reference model", "exploration",
         "stub oversamplers/classifiers carry the failures; seeded sampling"),
 "C08": (T + "seeded request histories over one cache directory under seeded schedules, each call compared with the fresh-directory reference", "exploration",
         "requests are mutations of one another; seeded sampling of histories of length 2-4"),
 "C09": (T + "power loss at return on a modelled page cache/journal, directory contents and later call checked", "exploration",
         "durability judged on the file-system model; a rename of synchronised data counts as durable"),
 "C10": (T + "model selection under seeded schedules, winner compared with the reference model's means", "exploration",
         "seeded sampling; ties accepted"),
 "C11": (T + "virtual monotonic clock, seeded wall-clock jumps and waits, reported runtimes compared with the virtual durations", "exploration",
         "stub jobs with exact virtual durations"),
})
CL.update({
 "C12": (T + "samplers in simulated threads preempted at seeded source lines next to a host thread using the global generators, compared bit for bit with the call made alone in a pristine process", "exploration",
         "real sampler, numpy and scikit-learn code; third-party calls are atomic; classes visited round-robin, parameters, data, histories and schedules by seeded sampling; DEAGO not simulated"),
 "C13": (T + "caller's arrays and earlier results compared at every source line under seeded interleavings and aborts", "exploration",
         "changes made and undone inside one source line or third-party call are not seen; seeded sampling of classes' parameters, data and schedules"),
 "C14": (T + "KeyboardInterrupt, MemoryError or RuntimeError injected at a seeded source line, follow-up calls and process-wide settings compared with a never-aborted twin", "exploration",
         "no injection inside finally/except blocks and with headers; third-party calls are atomic; seeded sampling"),
 "C15": (T + "random generator replaced by a simulated one delivering seeded extreme and repeated draws, output contract checked", "exploration",
         "extremes are within 1e-9 of the range ends (exact 0.0 has probability 2^-53 per draw); seeded sampling of streams, data and parameters"),
})
CL.update({
 "C16": (T + "simulated reader thread beside the evaluation, kills and power losses at seeded instants, seeded directory order; loaded data and summaries compared with the reference model", "exploration",
         "one serialization format per history; readers run in the evaluation's process; seeded sampling"),
 "C17": (T + "host thread changes the memory budget at seeded source lines while distances and samplers are computed; compared with the default-budget run; traced peak memory", "exploration",
         "seeded sampling of budgets, change points, samplers and data without ties; memory judged by tracemalloc"),
})
CL.update({
 "C18": (T + "two simulated programs with their workers on one cache directory under seeded interleavings, one of them killed at seeded instants with its workers living on, each compared with the reference model", "exploration",
         "seeded sampling of schedules, request pairs and kill instants; joblib's executor is a stub; no storage faults at the same time"),
})
PURE = ("a pure function of its arguments: no schedule, time, I/O, randomness or multi-party behaviour for a "
        "simulation to control, so only input enumeration would be left, which is another technique")
NA.update({"N01": PURE + " (scores are nevertheless recomputed independently inside the C06 reference model)",
           "N02": PURE, "N03": PURE + " (reproducibility of metric learning is part of C12)", "N04": PURE})
