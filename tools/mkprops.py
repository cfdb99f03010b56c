"""Writes /verif/properties.jsonl (run by hand when a property changes)."""
import json, os

B = "bayes_optim/base.py"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n.strip(), "meaning": "state the property is about"} for n in state.split(",")]
    if observe:
        a["observe_at"] = [observe]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


prop("P01", "Every reported evaluation is recorded exactly once, unaltered, in order",
     "In whatever order, grouping and number of messages the results of proposed (or user-chosen) points are reported back, the history holds exactly one entry per successful reported evaluation, in report order, with the reported parameter values attached to the reported objective value(s), neither altered nor swapped, and each marked as evaluated once. "
     "An evaluation reported as failed (NaN or infinite) leaves no entry. "
     "The evaluation counter always equals the number of evaluations reported (counted per objective in the multi-objective case), failed ones included, and the iteration counter the number of completed reports.",
     ["schedules", "histories", "inputs"],
     "all interleavings of several outstanding requests with delivery, loss, duplication, delay, splitting and merging of their results, for every variable mix, list and dictionary format (any key order) and optimizer class",
     "tests report each batch immediately, whole and in order; they never hold several requests open, reorder keys, split or merge batches, or mix failed with successful results",
     [B, "bayes_optim/_base.py", "bayes_optim/mobo.py", "bayes_optim/solution.py"],
     [("report handling", "BaseBO.tell / BaseMOBO.tell / ConditionalBO.tell"), ("conversion from the user's format", "BaseBO._set_aux_vars, Solution.from_dict, Solution.__add__, Solution.__getitem__"), ("failed evaluations", "BaseBO.post_eval_check")],
     "data, eval_count, iter_count", "the optimizer's public history after every report")

prop("P02", "The recommended solution is always the true best of the history",
     "At every moment the recommended solution is an entry of the history, carried with its own objective value, that no other entry beats in the chosen direction (minimisation or maximisation). "
     "The per-iteration progress trace has one value per completed report: the best value known at that time. "
     "As long as no evaluation has succeeded, asking for a recommendation fails with the dedicated error instead of returning anything.",
     ["histories", "schedules", "inputs"],
     "all histories of reports in any order, with ties, failures, huge, tiny and negative values, warm starts, checkpoints restored in between, both directions",
     "tests look at the final recommendation of a short minimisation; they do not check the incumbent after every event of an out-of-order history or when maximising",
     ["bayes_optim/_base.py", B],
     [("incumbent", "BaseOptimizer.xopt, _get_best, recommend"), ("trace", "BaseBO.tell (hist_f)")], "data, hist_f", "recommend(), xopt, hist_f, result of run()")

prop("P03", "Every proposal lies in the declared search space",
     "Every proposed point, from the initial design or the model, alone or in a batch, with or without variables fixed by the user, lies in the declared search space: within bounds, of the declared type or level, on the declared integer step, rounded to the declared precision, fixed variables at their fixed values, in the requested list or dictionary format. "
     "A request is answered with the requested number of points (fewer, but at least one, only when the space left is too small or constrained) or with the dedicated empty-answer error, never with an empty list. "
     "This holds after any history of reports, including failed evaluations and results of points the optimizer never proposed.",
     ["inputs", "histories", "configurations"],
     "all variable mixes, fixed-variable subsets, batch sizes, optimizer classes, acquisition functions and inner optimizers, after every history",
     "tests check a few homogeneous spaces at one seed and do not look at every proposal's type, step, precision and fixed values",
     [B, "bayes_optim/bayes_opt.py", "bayes_optim/search_space/search_space.py", "bayes_optim/acquisition/optim/mies.py", "bayes_optim/acquisition/optim/one_plus_one_cma_es.py", "bayes_optim/acquisition/optim/__init__.py", "bayes_optim/search_space/samplers.py"],
     [("request handling", "BaseBO.ask, create_DoE, arg_max_acquisition"), ("candidate search", "argmax_restart, MIES, OnePlusOne_CMA"), ("fixed variables", "fillin_fixed_value, partial_argument, SearchSpace.filter")], None, "return value of ask()")

prop("P04", "Known points are not proposed again",
     "An optimizer for noise-free problems never proposes a point that is already in its history, and never the same point twice within one request; points count as the same when their discrete parts are equal and their real parts agree up to floating-point tolerance. "
     "When the space is exhausted it says so with the dedicated error rather than repeating a point.",
     ["histories", "inputs"],
     "all histories, in particular small discrete spaces close to exhaustion, warm starts, restored checkpoints and results reported late or out of order",
     "tests use large spaces where a repetition is improbable, and do not compare proposals with the history",
     ["bayes_optim/bayes_opt.py", B],
     [("duplicate filter", "BO.pre_eval_check"), ("replacement by random points", "BaseBO.ask, create_DoE")], "data", "return value of ask() against the history at that time")

prop("P05", "Proposals respect the user's constraints",
     "Every proposed point satisfies the user's inequality constraints (value at most 0) and equality constraints (absolute value at most 0.1), whether it comes from the initial design or the model and with or without fixed variables. "
     "If no such point is found, the request fails with the dedicated empty-answer error; an infeasible point is never returned. "
     "A constraint function that raises makes the request fail with an error, and later requests work again once the function does.",
     ["inputs", "histories", "fault_sequences"],
     "all spaces, constraint shapes, fixed-variable subsets and histories, with the constraint function failing at any call",
     "tests run one or two constrained problems and check only the final incumbent",
     [B, "bayes_optim/search_space/samplers.py", "bayes_optim/search_space/search_space.py", "bayes_optim/acquisition/optim/__init__.py", "bayes_optim/utils/utils.py"],
     [("constrained sampling", "SearchSpace.sample, SCMC"), ("constrained search", "argmax_restart, dynamic_penalty")], None, "return value of ask() evaluated with the user's own constraint functions")

prop("P06", "A restored checkpoint continues exactly where the saved optimizer stood",
     "Loading a checkpoint, in the same or a new process, yields an optimizer with the same history (values, objective values, evaluation counts, labels), counters, progress trace, settings and incumbent as the one saved, at any point of its life. "
     "Given the same random state and the same subsequent reports, the restored optimizer and the one that was never interrupted make identical proposals and reach identical histories from then on, including adaptive and scheduled parameters. "
     "Saving does not change the optimizer that is being saved.",
     ["histories", "crash_points", "configurations"],
     "all moments of a campaign at which a checkpoint is taken and restored (before any data, between request and report, mid-campaign, repeatedly), for every optimizer class and model",
     "one test saves once after a run and only checks that running on does not crash; it never compares the continuation",
     [B, "bayes_optim/solution.py", "bayes_optim/utils/logger.py"],
     [("checkpointing", "BaseBO.save, BaseBO.load"), ("pickling of the history", "Solution.__reduce__/__setstate__")], "everything reachable from the optimizer", "public attributes and ask() after load()")

prop("P07", "Saving a checkpoint is atomic under crashes and disk faults",
     "If the process dies or the disk fails (full disk, I/O error, short or torn write) at any point while a checkpoint is being saved over an older one, the file afterwards loads as exactly the old or exactly the new state; after a successful save it loads as the new one, and a machine that loses power also finds either the old or the new state. "
     "A save that fails is reported as an error and leaves the live optimizer fully usable with all its data, so that a later save succeeds. "
     "No save leaves a corrupt file under the checkpoint's name.",
     ["crash_points", "fault_sequences", "histories"],
     "every system call of a save as crash or fault point, kill and power-loss models, sequences of saves, failures, restarts and restores",
     "tests never interrupt a save nor make the disk fail",
     [B], [("checkpoint writing", "BaseBO.save"), ("restore", "BaseBO.load")], "the checkpoint file; data and logger of the live optimizer", "load() after the fault; the live optimizer after a failed save")

prop("P08", "The evaluation data file is complete and parseable",
     "With a data file configured, after every acknowledged report the file on disk holds one line of its own for each recorded evaluation of all acknowledged reports, in order, from which parameter values and objective values can be read back with a standard CSV reader. "
     "This survives the death of the process at any point and restarts from a checkpoint. "
     "A report whose write fails or is cut short is signalled as an error and can spoil at most its own lines, never those of earlier or later reports.",
     ["crash_points", "fault_sequences", "histories"],
     "every system call of the append as crash or fault point (errors, full disk, torn and short writes), any sequence of reports, crashes and restarts, every variable mix including values that contain the delimiter",
     "no test configures a data file for an optimizer",
     [B, "bayes_optim/mobo.py", "bayes_optim/solution.py"],
     [("append", "BaseBO.tell (data_file), Solution.to_csv")], "the data file", "the file's content after each report")

prop("P09", "Parallel evaluation is exactly-once and aligned with the proposals",
     "However the workers are scheduled, each point of a batch is handed to the objective (each objective, in the multi-objective case) exactly once, and each result is attached to the point that produced it, whether the batch is evaluated sequentially, by worker processes, by the user's own batch objective, or in threads inside the random forest's prediction. "
     "If a worker raises, the iteration fails with that error and records nothing of the batch, and the optimizer can be stepped again. "
     "The outcome is the same as with sequential evaluation of the same batch.",
     ["schedules", "fault_sequences"],
     "all completion orders of the workers, worker counts, batch sizes and failing workers",
     "tests run real pools whose completion order they cannot control, with objectives that do not record their calls",
     ["bayes_optim/_base.py", "bayes_optim/mobo.py", "bayes_optim/bayes_opt.py", "bayes_optim/surrogate/random_forest.py"],
     [("evaluation", "BaseOptimizer.evaluate, BaseMOBO.evaluate"), ("parallel prediction", "RandomForest.predict")], None, "calls received by the objective, values in the history")

prop("P10", "A run stops at the budget or target, and reports truthfully",
     "A run performs iterations until the number of evaluations has reached the budget or the best value beats the target in the chosen direction, and stops at the first iteration boundary where that is so: never earlier, never later, and continuing a finished run evaluates nothing more. "
     "The objective is called exactly as often as the evaluation counter says, failed evaluations included. "
     "The returned solution, value, iteration and evaluation counts and stop reason (and, for the functional interface, the points tried in each iteration) agree with the calls the objective received.",
     ["histories", "fault_sequences", "configurations"],
     "all budgets, targets, directions, batch sizes, failing evaluations and interruptions followed by another run, also after restoring a checkpoint",
     "tests only check that a run ends",
     ["bayes_optim/_base.py", B, "bayes_optim/__init__.py"],
     [("termination", "BaseOptimizer.check_stop, run"), ("functional interface", "fmin")], "eval_count, stop_dict", "objective calls, return values of run() and fmin()")

prop("P11", "A seeded campaign is reproducible",
     "With a fixed random seed, two executions of the same campaign against the same deterministic objective propose identical points and end in identical histories. "
     "The outcome does not depend on the clock, operating-system entropy, string-hash randomisation, object identities, logging or verbosity, or the order in which parallel evaluations finish; it does depend on the seed, any valid integer seed, zero included, being honoured (candidate searches that the user explicitly farms out to several worker processes are excluded).",
     ["schedules", "configurations", "inputs"],
     "all seeds, optimizer classes, models and spaces, re-executed under different clocks, entropy, hash seeds, worker schedules and log settings",
     "a test compares at most two runs in one process, where clock, hash seed and entropy do not change",
     ["bayes_optim/_base.py", "bayes_optim/search_space/search_space.py", "bayes_optim/extension.py", "bayes_optim/search_space/node.py", "bayes_optim/acquisition/optim/__init__.py", "bayes_optim/surrogate"],
     [("seeding", "BaseOptimizer.random_seed, SearchSpace.random_seed"), ("deterministic order", "SearchSpace.get_unconditional_subspace, Node.get_all_path")], "the process-wide random state", "proposals and histories of twin executions")

prop("P12", "Optimizers in one process do not disturb each other",
     "Several optimizers living in one process and used in any interleaving each behave exactly as if they were alone (given the same random draws): same proposals, same histories, counters and parameters. "
     "Constructing, using, saving, loading or discarding one never changes another, nor any object the user passed in (spaces, parameter dictionaries, points, results, warm-start data). "
     "An optimizer only consumes the shared random source; apart from honouring an explicit seed at construction it never resets it.",
     ["schedules", "histories"],
     "all interleavings of the operations of two or three optimizers of the same or different classes, sharing spaces and user objects or not",
     "each test creates one optimizer at a time",
     ["bayes_optim/bayes_opt.py", B, "bayes_optim/search_space/search_space.py", "bayes_optim/solution.py"],
     [("per-instance state", "ParallelBO.__init__, AnnealingBO.__init__, BaseBO.__init__"), ("copying of user data", "BaseBO.ask/tell, Solution")], "class- and module-level state", "each optimizer's proposals and history compared with a solo execution")

prop("P13", "A failing step never corrupts or loses recorded data",
     "If anything fails during a request, evaluation, report or save (the objective or a constraint raises, training the model fails, a report is malformed, the data file cannot be written), the error reaches the caller and everything recorded before is still there, unchanged. "
     "The failing report is either recorded completely (history and counter) or not at all. "
     "Once the cause is gone, requesting, evaluating and reporting work again at once, with proposals, incumbent and counters as they should be for the history.",
     ["fault_sequences", "histories"],
     "every operation of a campaign with a failure injected at any of its calls into user code, model or file system, repeated failures included",
     "tests never make a collaborator fail",
     [B, "bayes_optim/_base.py", "bayes_optim/mobo.py", "bayes_optim/surrogate/random_forest.py"],
     [("report handling", "BaseBO.tell, update_model"), ("iteration", "BaseBO.step, evaluate")], "data, eval_count, iter_count, hist_f", "public history and counters after the error")

prop("P14", "Logging is isolated and never influences the optimisation",
     "Each optimizer logs to exactly the file it was given: all its messages, each once, and no message of another optimizer, whatever the order in which optimizers are created, used, discarded, saved and restored. "
     "A restored optimizer goes on logging to the same file, and does not start printing to the console unless the saved one did. "
     "Turning logging or verbosity on or off, or a failing log disk, changes neither proposals nor history.",
     ["schedules", "histories", "fault_sequences"],
     "all interleavings of optimizers with and without log files, object identities being reused, restores in the same and in new processes, log-file write errors",
     "tests never look at a log file",
     ["bayes_optim/utils/logger.py", "bayes_optim/_base.py", B],
     [("logger set-up", "get_logger"), ("checkpointed logger", "dump_logger, load_logger")], "process-wide logger registry", "content of the log files and of standard output")

prop("P15", "The daemon's pid file and process agree",
     "With commands issued one after the other, starting a daemon leaves exactly one running process whose id is in the pid file, a second start is refused without touching the first, stopping terminates exactly that process within a bounded number of signals and removes the pid file, and restarting replaces it; the daemon removes only its own pid file when it ends. "
     "The status query says running exactly when the recorded process is alive. "
     "A stale, empty or garbled pid file never makes stop, start or the status query crash, nor any other process be signalled.",
     ["histories", "crash_points", "fault_sequences"],
     "all sequences of start, stop, restart, status, daemon crash, slow or stubborn termination and damaged pid file",
     "no test touches the daemon",
     ["bayes_optim/utils/_daemon.py"],
     [("life cycle", "Daemon.start, daemonize, stop, restart, delpid, is_running")], "pid file, process table", "simulated process table and pid file")

prop("P16", "Warm-start data are taken over faithfully and free of charge",
     "An optimizer given warm-start data begins with exactly these points and values as its history, in order, in list, dictionary or solution form, and its incumbent is their best. "
     "They use up none of the evaluation budget and count as no iteration, the initial design is skipped, and the first proposals come from the model and repeat none of them. "
     "From then on, reports, checkpoints and termination work as for any other optimizer.",
     ["inputs", "histories", "configurations"],
     "all variable mixes, formats and sizes of warm data, followed by any campaign including checkpoints and out-of-order reports",
     "one test warm-starts one real-valued problem and checks nothing about history or budget",
     [B, "bayes_optim/__init__.py"], [("warm start", "BaseBO.warm_data, BaseBO.tell(warm_start=True), fmin(x0, y0)")], "data, eval_count, iter_count", "public history right after construction and during the campaign")

prop("P17", "Conditional spaces: valid configurations and right attribution",
     "For a search space with conditions every proposed configuration is consistent: each variable is active (has a value in its domain) exactly when its conditions hold along the chosen branch, and is absent (None) otherwise. "
     "Every result, reported in any order, grouping or delay, is recorded once, unaltered, and used for the branch it belongs to, values such as 0, False or the empty string included. "
     "In a campaign's first requests every branch is tried once before any is repeated.",
     ["schedules", "inputs", "histories"],
     "all trees of conditions, all interleavings of requests and reports, failed evaluations",
     "the only test runs one tree synchronously and checks nothing",
     ["bayes_optim/extension.py", "bayes_optim/search_space/search_space.py", "bayes_optim/search_space/node.py"],
     [("branch selection and attribution", "ConditionalBO.ask, tell"), ("enumeration of branches", "SearchSpace.get_unconditional_subspace, Node.get_all_path")], "data, per-branch optimizers", "ask(), history of the whole and of each branch")

prop("P18", "Multi-objective: the recommended set is exactly the Pareto set",
     "In multi-objective optimisation the recommended set consists of recorded solutions with their own objective values, none of them dominated by any recorded solution (each objective minimised or maximised as declared), and represents every non-dominated objective vector of the history, after every report in any order. "
     "An evaluation with any failed (NaN or infinite) objective leaves no entry and never affects the set. "
     "The progress trace has one entry per completed report: the set known at that time.",
     ["histories", "schedules", "inputs"],
     "all histories with ties, dominated and duplicate objective vectors, mixed directions, failures, out-of-order reports and restored checkpoints, two and three objectives",
     "tests run one problem and do not compare the set with the definition",
     ["bayes_optim/mobo.py", "bayes_optim/utils/multi_objective/pareto.py"],
     [("Pareto set", "BaseMOBO.xopt, is_non_dominated"), ("normalisation", "BaseMOBO.y")], "data", "recommend()/xopt after every report")

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
