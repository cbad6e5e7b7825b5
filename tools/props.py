"""Source of properties.jsonl and MANIFEST.json (python3 tools/props.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, claimed=True, state=None, observe=None, level="model_checking", note="", technique=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                               observe_at=observe or [], hook_needed=None),
                  _claimed=claimed, _level=level, _note=note, _technique=technique, _na=na))


prop("C01", "Local pools deliver every scheduled sample exactly once",
     "Every sample handed to a single-process, process or thread pool is delivered by exactly one poll, on the level it was scheduled for, with the pair of results "
     "its simulation returned, however completions interleave with polls. No poll delivers a sample that was not scheduled or has not finished, and none is lost or delivered twice.",
     ["schedules", "inputs"], "all interleavings of sample completions with polls (completions placed at every instruction of a poll and polls at every instruction of a completion), all mixes of levels and outcomes",
     "The tests poll real pools with whatever timing the machine gives; the loss window between reading and clearing a queue is a few instructions wide.",
     ["mlmc/sampling_pool.py"], [("completion queues read and emptied under their mutex", "OneProcessPool._queues_to_list"), ("completion callback", "OneProcessPool._process_result, ProcessPool.res_callback")],
     state=[("queues", "finished samples per level and outcome", "OneProcessPool._queues, _failed_queues")], observe=["SamplingPool.get_finished", "storage after a whole run"])
prop("C02", "Polls report truthfully how many samples are outstanding and waiting ends",
     "The number of running samples a poll reports equals the samples scheduled and not yet delivered. Waiting without a timeout returns exactly when nothing is outstanding, with everything finished stored; "
     "waiting with a positive timeout polls at least once, ends when nothing is outstanding or when the timeout has passed, and returns the last reported count; a timeout of zero or less returns at once without polling.",
     ["schedules", "inputs"], "all interleavings of completions and polls, all poll scripts of a scripted pool, all timeouts (none, positive, zero)",
     "A count that is off by one makes a run hang or end early only for particular timings and failure mixes; tests run a few fixed configurations.",
     ["mlmc/sampler.py", "mlmc/sampling_pool.py"], [("running counter", "OneProcessPool._n_running"), ("waiting loop", "Sampler.ask_sampling_pool_for_samples")],
     observe=["SamplingPool.get_finished", "Sampler.ask_sampling_pool_for_samples"])
prop("C03", "Sample identifiers are unique and consecutive across rounds and restarts",
     "On every level the k-th sample ever scheduled gets the identifier of level and serial number k, so identifiers never repeat and leave no gap, however targets grow in rounds, samples fail or are renewed, "
     "and however often the sampler is recreated over the same storage. The storage's list of scheduled samples is exactly the identifiers handed to the pool, in order.",
     ["histories", "crash_points"], "all sequences of target changes, scheduling rounds, polls, renewals and restarts over both storages, up to 12 levels",
     "Tests schedule one or two rounds on up to a few levels and never compare the identifiers after a restart.",
     ["mlmc/sampler.py", "mlmc/sample_storage.py", "mlmc/sample_storage_hdf.py"], [("sample tag from the per-level counter", "Sampler._get_sample_tag"), ("counter restored from the storage", "Sampler.__init__")],
     observe=["SamplingPool.schedule_sample arguments", "SampleStorage.load_scheduled_samples"])
prop("C04", "A sample's result depends only on its identifier and level",
     "The random seed a simulation receives is a function of the sample identifier alone and differs between identifiers (up to chance collisions of a 32-bit digest); recomputing a sample in another pool, order, process or run gives the same seed and bitwise the same pair of results.",
     ["schedules", "configurations", "inputs"], "all local pools, worker counts, scheduling orders, processes with different hash seeds and different states of the global random generators",
     "Tests never compute the same sample twice in different pools or processes.",
     ["mlmc/sampling_pool.py"], [("seed from a digest of the identifier", "SamplingPool.compute_seed"), ("seed passed to the simulation", "SamplingPool.calculate_sample")],
     observe=["SamplingPool.compute_seed", "results in get_finished"])
prop("C05", "Scheduling reaches the targets exactly and adaptive adding converges to them",
     "A scheduling round creates on each level exactly the samples missing to the level's target and never more; raising targets never lowers any. Adaptive adding raises each level below its estimate by the requested fraction of what is missing, rounded up "
     "(to the estimate itself when that fraction of the estimate exceeds what is missing), never beyond the estimate; it reports completion only when no level is below its estimate, and otherwise returns only when half of the samples of such levels are finished.",
     ["histories", "inputs"], "all target vectors (explicit, geometric, default), estimates, fractions and poll scripts, on 1 to 12 levels",
     "Tests follow one adaptive loop on synthetic data and check only the final variance, within wide tolerances.",
     ["mlmc/sampler.py"], [("plan = target - scheduled", "Sampler.schedule_samples"), ("growth rule", "Sampler.process_adding_samples"), ("geometric targets", "Sampler.sample_range, set_initial_n_samples")],
     observe=["SamplingPool.schedule_sample calls", "Sampler.l_scheduled_samples", "return values"])
prop("C06", "A failing sample is recorded as failed and affects no other sample",
     "A sample whose simulation raises, returns a result of wrong length or one that cannot be transferred is delivered as failed with a non-empty message (containing the exception's text when one was raised), "
     "while every other sample of the run is delivered and stored with its correct result. The run neither stops nor hangs.",
     ["inputs", "schedules", "fault_sequences"], "all placements of the failure kinds over levels, samples and rounds, in all local pools and both storages",
     "Tests use one simulation that sometimes raises, in a single pool; wrong lengths and undeliverable results are not tested at all.",
     ["mlmc/sampling_pool.py", "mlmc/sampler.py"], [("exception caught and formatted", "SamplingPool.calculate_sample"), ("length check against the result format", "SamplingPool.calculate_sample"), ("error callback", "ProcessPool.schedule_sample")],
     observe=["SamplingPool.get_finished", "storage contents"])
prop("C07", "Storages return exactly the result pairs that were saved",
     "For every level both storages return the saved fine and coarse result vectors unchanged (bitwise, including NaN and infinities), in the order they were saved, fine results only on the coarsest level, "
     "and the number of collected samples equals the number of pairs returned. The result format is returned as it was saved.",
     ["histories", "inputs"], "all sequences of save and read operations, batches over levels in any order and size, result formats with any shapes, times and locations",
     "Tests save one batch of constant vectors and compare shapes and means.",
     ["mlmc/sample_storage.py", "mlmc/sample_storage_hdf.py", "mlmc/tool/hdf5.py"], [("appending to level datasets", "LevelGroup.append_successful, Memory._save_successful"), ("pairs of a level", "sample_pairs, sample_pairs_level")],
     observe=["SampleStorage.sample_pairs", "sample_pairs_level", "get_n_collected", "load_result_format"])
prop("C08", "Storages account for every sample: scheduled, collected, failed, unfinished",
     "On every level the storage reports as scheduled exactly the identifiers saved as scheduled, as finished the number of collected plus failed samples, and (persistent storage) as failed exactly the saved failures and as unfinished exactly the scheduled identifiers neither collected nor failed.",
     ["histories", "inputs"], "all sequences of scheduling, collecting, failing and clearing operations on any levels, with any error messages",
     "Tests make one save per storage and check totals.",
     ["mlmc/sample_storage.py", "mlmc/sample_storage_hdf.py", "mlmc/tool/hdf5.py"], [("unfinished = scheduled - finished", "LevelGroup.get_unfinished_ids"), ("finished counter", "Memory._n_finished, LevelGroup.n_finished")],
     observe=["n_finished", "load_scheduled_samples", "unfinished_ids", "failed_samples", "get_n_levels"])
prop("C09", "The HDF storage survives reopening unchanged and refuses a foreign result format",
     "Closing and reopening the file at any point of any history changes nothing any reader returns: results, scheduled, failed and unfinished samples, costs, level parameters and result format, and later operations continue as if it had never been closed. "
     "Opening it for a simulation with a different result format is refused with an error and leaves the stored data intact.",
     ["histories", "crash_points"], "reopening after every prefix of every operation sequence; formats differing in any one attribute",
     "One test reopens once after a single save.",
     ["mlmc/sample_storage_hdf.py", "mlmc/tool/hdf5.py", "mlmc/quantity/quantity_spec.py"], [("file opened per operation", "HDF5, LevelGroup"), ("format comparison", "SampleStorageHDF.save_global_data, QuantitySpec.__eq__")],
     observe=["all readers after reopening"])
prop("C10", "Renewing failed samples reschedules each failed sample once and nothing else",
     "Renewal hands every sample recorded as failed to the pool once more under its original identifier and level, clears the failure records, and leaves successful and running samples alone, so that afterwards these samples are unfinished until delivered again. "
     "No new identifiers are created and the targets and counts of scheduled samples do not change.",
     ["histories"], "all histories of failures, renewals, repeated failures and restarts over the persistent storage",
     "No test renews anything outside a PBS system.",
     ["mlmc/sampler.py", "mlmc/sample_storage_hdf.py", "mlmc/tool/hdf5.py"], [("renewal loop", "Sampler.renew_failed_samples"), ("failure records reset", "LevelGroup.clear_failed_dataset")],
     observe=["SamplingPool.schedule_sample calls", "failed_samples", "unfinished_ids"])
prop("C11", "A run interrupted at any step resumes without losing or repeating samples",
     "If the process ends between any two storage or pool operations, everything stored before stays stored, and a new sampler over the same file continues the numbering, tells the pool exactly the unfinished samples, and reaches the targets with every sample stored at most once. "
     "A sample is never both collected and failed, and none that was stored is scheduled again.",
     ["crash_points", "histories"], "a crash before any call the sampler makes to its pool or storage, repeatedly, with a pool that remembers (batch system) or forgets its samples",
     "No test interrupts a run.",
     ["mlmc/sampler.py", "mlmc/sample_storage_hdf.py", "mlmc/tool/hdf5.py"], [("state restored from the storage", "Sampler.__init__"), ("unfinished samples passed to the pool", "Sampler._check_failed_samples")],
     observe=["storage after the crash and after resuming", "have_permanent_samples argument"])
prop("C12", "Reading a level by chunks covers every collected sample exactly once",
     "The chunks of a level are consecutive, disjoint, start at the first sample and end at the last, carry that level's number, and the data read through them concatenate to exactly the level's result pairs in order, whatever the number of samples and the length of the result vector. "
     "Asking for the first n samples returns exactly those.",
     ["inputs", "histories"], "all numbers of samples and vector lengths around the chunk boundaries (chunks of 2, 4, 8, 128 samples), after any sequence of appends",
     "Tests use few samples, so every level has a single chunk.",
     ["mlmc/tool/hdf5.py", "mlmc/sample_storage.py", "mlmc/sample_storage_hdf.py"], [("iteration over dataset chunks", "LevelGroup.chunks"), ("reading a slice", "LevelGroup.collected")],
     observe=["SampleStorage.chunks", "sample_pairs_level"])
prop("C13", "The cost of a level is the average over all timed samples, each counted once",
     "The cost per sample that a storage reports for a level is the total of the reported running times divided by the number of samples they cover, over all batches and rounds, and zero before any was reported. "
     "Over a whole run every successful sample's time is reported exactly once by the local pools, however often they are polled.",
     ["histories", "schedules"], "all sequences of time records over levels, all poll scripts, all interleavings of polls and completions",
     "Tests check only the number of cost values.",
     ["mlmc/sampling_pool.py", "mlmc/sample_storage.py", "mlmc/tool/hdf5.py"], [("time accumulation", "OneProcessPool._save_running_time, LevelGroup.n_ops_estimate, Memory.save_n_ops")],
     observe=["get_n_ops", "get_finished times"])
prop("C17", "Sample workspaces are private, complete and cleaned up",
     "A sample that needs a workspace runs in its own directory named by its identifier under the pool's output directory, containing copies of the common files. "
     "Afterwards a failed sample's directory is found under 'failed', the first five serial numbers of each level under 'several_successful', all other directories are removed (kept in debug mode), and a new pool clears the old output unless in debug mode.",
     ["histories", "configurations", "inputs"], "all outcome mixes, serial numbers, debug modes, numbers of common files, previous contents, local pools",
     "Tests never look at the directories.",
     ["mlmc/sampling_pool.py"], [("workspace handling", "SamplingPool.handle_sim_files, move_successful_rm, move_failed_rm, _create_dir")],
     observe=["file system under the work directory", "working directory seen by the simulation"])
prop("C27", "Each level couples its own fine parameter with the previous level's",
     "Every sample scheduled on a level carries that level's parameters as fine and the previous level's parameters as coarse ones (a dummy zero on the coarsest level), for any number of levels and across restarts, and the stored pair holds the results of these two computations in this order.",
     ["configurations", "histories"], "1 to 12 levels with arbitrary distinct parameters, all histories of the sampler",
     "Tests use simulations whose results do not reveal the parameters.",
     ["mlmc/sampler.py", "mlmc/level_simulation.py"], [("creation of level simulations", "Sampler._create_level_sim_objects")],
     observe=["level simulation passed to SamplingPool.schedule_sample", "stored pairs"])

if __name__ == "__main__":
    import importlib, sys
    prop("C31", "Fractures have the sampled sizes, orientations and fluxes",
         "The discrete fracture network generator places fractures inside the domain, with sizes of the power law between the given limits, orientations of the given distribution, and meshes that conform to them.",
         ["inputs"], "all domains, size ranges and intensities", "No test runs the generator.",
         ["mlmc/random/frac_geom.py"], [("fracture geometry", "mlmc/random/frac_geom.py")], observe=["returned geometry"],
         claimed=False, na="mlmc/random/frac_geom.py imports the package geomop, which is not part of the repository and not installed, so the module cannot be imported and no behaviour of it can be recorded")
    prop("C32", "Plots show the data they are given",
         "Every plot of the package draws the series of values it was given, at the given levels and with the given labels.",
         ["inputs"], "all data sets", "Tests only call a few plots.",
         ["mlmc/plot/plots.py"], [("plots", "mlmc/plot/plots.py")], observe=["matplotlib figures"],
         claimed=False, na="a figure is judged by eye; a specification of the drawing calls would repeat the code line by line and alarm on every harmless change of layout")
    prop("C33", "The estimated density converges to the density of the result",
         "With growing numbers of samples and moments the density constructed from an estimate converges to the density of the simulated quantity.",
         ["inputs"], "all distributions with a density", "Tests compare a few distributions within wide tolerances.",
         ["mlmc/tool/simple_distribution.py"], [("maximum entropy density", "SimpleDistribution")], observe=["density"],
         claimed=False, na="an asymptotic statement about approximation in a function space: no finite state model decides it. The exact part (the density reproduces the moments it was built from) is C30")
    sys.path.insert(0, os.path.join(V, "tools"))
    try:
        import props_more
        props_more.add(prop)
    except ImportError:
        pass
    P.sort(key=lambda p: p["id"])
    with open(os.path.join(V, "properties.jsonl"), "w") as fh:
        for p in P:
            fh.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    checks, na = [], []
    for p in P:
        if p["_claimed"]:
            checks.append(dict(property=p["id"], quick_cmd="bin/check %s quick" % p["id"], thorough_cmd="bin/check %s thorough" % p["id"],
                               technique=p["_technique"] or "TLA+ specification checked by TLC; programs generated from it are replayed into the real code and the recorded executions are validated against it by TLC",
                               level=p["_level"],
                               level_note=p["_note"] or "design model exhaustively checked within bounds; conformance by TLC-generated programs and TLC trace validation"))
        else:
            na.append(dict(property=p["id"], reason=p["_na"]))
    m = dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na)
    with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")
    print(len(checks), "claimed", len(na), "not applicable")
