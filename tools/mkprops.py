# Writes /verif/properties.jsonl (single source for ids, titles, statements).
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe: d["anchors"]["observe_at"] = [observe]
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m} for n, m in state]
    d["anchors"]["hook_needed"] = hook
    P.append(d)

prop("P01", "Sampled diagram stays a consistent, correctly weighted Feynman diagram",
 "After every Monte Carlo update, after resuming from a saved configuration and after adopting new weights, the sampled diagram is well formed: every vertex has one incoming and one outgoing propagator and one interaction line, exactly one line is the measuring line, spin and momentum are conserved at every vertex up to the worm ends, no two propagators (or interactions) carry equal momentum and the register of used momenta is exact. Each line's weight equals the currently published propagator or interaction evaluated between its end vertices, and the diagram's stored weight, phase and fermion sign equal the product over its lines.",
 ["schedules", "histories", "configurations", "crash_points"],
 "For every seed/sequence of accepted and rejected updates, every lattice size, order, time discretisation, published weights and every point at which the worker is interrupted, resumed or annealed.",
 "The 18 stable tests touch only containers, small vectors and the random generator; no test performs a Monte Carlo update and the reachable configuration space is unbounded.",
 ["src/module/markov/markov.cpp", "src/module/diagram/diagram.cpp", "src/module/diagram/component.cpp", "src/module/diagram/diagram_initialize.cpp", "src/module/weight/component.cpp"],
 [("update moves", "src/module/markov/markov.cpp: CreateWorm..ChangeSpinVertex"), ("configuration rebuild", "src/module/diagram/diagram_initialize.cpp: FixDiagram, FromDict"), ("self check", "src/module/diagram/diagram.cpp: CheckDiagram"), ("weight lookup", "src/module/weight/component.cpp")],
 "diagram data structures after each update; saved configuration files")

prop("P02", "Order-one and order-two Sigma and Polar estimates are unbiased",
 "The Sigma and Polar self energies accumulated by a worker, divided by their normalisation, converge to the sum of all skeleton diagrams of that order built from the published G and W. This holds whatever the reweighting factors, the sampling cut-off order and the pattern of interruptions, saves, resumes and re-announcements of the same weights.",
 ["histories", "configurations", "crash_points", "inputs"],
 "For every published G/W, lattice, time discretisation, reweighting factors, and every interleaving of sampling with save, crash, resume, reweighting and re-announcement.",
 "No test ever samples; a biased acceptance ratio leaves every unit test and every internal consistency check green and shows only in the long-run distribution.",
 ["src/module/markov/markov.cpp", "src/module/markov/markov_monitor.cpp", "src/module/weight/component.cpp", "src/module/parameter/parameter.cpp"],
 [("acceptance ratios", "src/module/markov/markov.cpp"), ("measurement", "src/module/markov/markov_monitor.cpp: Measure"), ("normalisation", "src/module/weight/component.cpp: Sigma/Polar constructors, WeightEstimator")],
 "statistics file: WeightAccu / NormAccu * Norm per order and bin")

prop("P03", "Every measurement is recorded exactly once, in its bin, with its phase",
 "The statistics a worker writes equal the sum over its measurement steps of the sampled diagram's phase, compensated for the reweighting factor of its order in force at that moment, in the bin given by the order, spins, sublattices, displacement and time difference at the measuring line; order-zero steps count only towards the normalisation and worm-sector steps towards neither. A worker measures nothing before its Toss x Sweep thermalisation updates are done, and makes at least Sweep updates between two measurements. Nothing else changes the statistics except the announced squeeze when new weights are adopted.",
 ["schedules", "histories", "crash_points"],
 "For every sampled history, any interleaving of measurement with saving, messages, reweighting and interrupts, and across resume.",
 "No test measures a diagram; existing estimator tests do not run a Markov chain or a save/resume cycle.",
 ["src/module/markov/markov_monitor.cpp", "src/module/weight/component.cpp", "src/module/weight/weight_estimator.cpp", "src/estimator/estimator.cpp"],
 [("measurement", "src/module/markov/markov_monitor.cpp: Measure, SqueezeStatistics"), ("accumulators", "src/module/weight/weight_estimator.cpp: Measure, MeasureNorm, SqueezeStatistics"), ("index map", "src/module/weight/index_map.cpp")],
 "PID_MC_statis file contents against an independently kept account")

prop("P04", "A resumed worker continues exactly where its save left off",
 "A worker restarted from a completed save has the same parameters, random-number state, counters, diagram, statistics and estimators as when the save was taken; from then on it performs exactly the same updates and writes the same results, up to rounding of accumulated sums, as the worker that was never interrupted. A diagram saved at a point with no interacting lines sampled resumes as a valid first-order diagram. A worker whose parameter file was lost or damaged while it was down resumes with its saved statistics, the parameters of its input file and a new valid diagram.",
 ["crash_points", "histories", "configurations"],
 "For every save point reached by any history (worm present or not, either measuring sector, any order), any configuration and any number of restarts.",
 "Tests never save and reload a running simulation; equality has to hold for every reachable state rather than for a sample fixture.",
 ["src/environment/envMonteCarlo.cpp", "src/module/parameter/parameter.cpp", "src/module/diagram/diagram_initialize.cpp", "src/utility/rng.cpp", "src/estimator/estimator.cpp", "src/utility/dictionary.cpp", "IO.py", "hickle.py"],
 [("save and load", "src/environment/envMonteCarlo.cpp: Save, Load"), ("parameter state", "src/module/parameter/parameter.cpp: ToDict, FromDict"), ("configuration", "src/module/diagram/diagram_initialize.cpp: ToDict, FromDict"), ("RNG state", "src/utility/rng.cpp")],
 "state after resume and the next saved files, compared with an uninterrupted twin")

prop("P05", "A worker crash at any instant loses at most the work since its last save",
 "If a worker is killed at any instant, including in the middle of writing a file, or a write fails or is cut short, it can be restarted from the files on disk and continues from a state it actually saved. The parameter and statistics files it leaves are each either the complete previous version or the complete new one, and no measurement is ever counted twice.",
 ["crash_points", "fault_sequences", "schedules"],
 "For every crash instant between or inside the file operations of every save, every sequence of crashes and restarts, and every failing, short or lost write.",
 "Needs a crash between particular file-system operations; the tests never write a save file and cannot stop a process half way through one.",
 ["src/environment/envMonteCarlo.cpp", "IO.py", "hickle.py", "src/utility/dictionary.cpp", "src/utility/abort.cpp"],
 [("atomic replacement of files", "IO.py: SaveDict, SaveBigDict"), ("save sequence", "src/environment/envMonteCarlo.cpp: Save, Load")],
 "files on the simulated disk after a crash; state of the restarted worker")

prop("P06", "Workers adopt each announced version once, completely, and never go back",
 "A worker adopts an announcement exactly when its version is newer than the worker's own; it then uses the weights published on disk at that moment, takes the announced version and temperature (a restarted worker uses the weights on disk when it starts), multiplies its old statistics by one over the announced squeeze factor and keeps a valid diagram. An announcement that is missing, unreadable, stale or whose weights cannot be read leaves the worker entirely unchanged and sampling, and it is retried later.",
 ["schedules", "fault_sequences", "histories", "crash_points"],
 "For every interleaving of announcements, weight publications and worker polls, torn or missing files, repeated and stale announcements, and worker restarts.",
 "Depends on the relative order of two processes' file operations and on faults; no test runs a worker or exchanges a message.",
 ["src/environment/envMonteCarlo.cpp", "src/module/parameter/parameter.cpp", "src/module/weight/weight.cpp", "src/module/markov/markov_monitor.cpp", "src/module/diagram/diagram_initialize.cpp", "dyson/parameter.py", "IO.py"],
 [("message handling", "src/environment/envMonteCarlo.cpp: ListenToMessage"), ("message decoding", "src/module/parameter/parameter.cpp: Message, UpdateWithMessage"), ("squeeze", "src/module/weight/weight_estimator.cpp: SqueezeStatistics; src/estimator/estimator.cpp")],
 "worker state before and after each poll; weights in memory versus weights on disk")

prop("P07", "An interrupt during a save is delayed until the save is complete, then obeyed",
 "When an interrupt or termination signal reaches a worker or the self-consistency process while it is writing its result files, the files are completed before the process reacts, so no partially written result is left behind. The signal is not lost: the process acts on it as soon as the save ends, and a signal outside a save takes effect immediately.",
 ["schedules", "fault_sequences"],
 "For every signal kind, every arrival instant relative to the save, and any number of signals.",
 "Requires a signal at a chosen instant inside a save; no test sends a signal.",
 ["src/utility/abort.cpp", "src/utility/abort.h", "src/main.cpp", "dyson/logger.py", "dyson/main.py"],
 [("delayed interrupts", "src/utility/abort.cpp: InterruptHandler Delay/Resume"), ("call sites", "src/main.cpp: MonteCarlo; dyson/main.py: Measure"), ("Python counterpart", "dyson/logger.py: DelayedInterrupt")],
 "process exit and disk contents after a simulated signal")

prop("P08", "Periodic work happens once per period whatever the clock does",
 "A sampling worker saves, polls for announcements, reports and re-tunes at least once per configured period plus one polling interval, and not more often than the period (periods are counted in whole seconds, rounded down), for as long as its clock advances, and each task keeps its own period. A clock jump may bring one occurrence forward or delay it by the size of the jump, but the worker neither stops sampling nor stops performing any of the tasks afterwards.",
 ["schedules", "fault_sequences", "configurations"],
 "For every combination of periods, step cost, stalls, clock skew and forward or backward jumps.",
 "Needs a controllable clock; the timer tests are not part of the stable set and sleep on the real clock.",
 ["src/utility/timer.cpp", "src/utility/timer.h", "src/main.cpp", "src/module/parameter/parameter.cpp"],
 [("timers", "src/utility/timer.cpp: check, start, restart"), ("main loop", "src/main.cpp: MonteCarlo")],
 "virtual times at which each task starts")

prop("P09", "Re-tuning keeps sampling weights positive and finite and touches nothing else",
 "Automatic re-tuning multiplies each factor by the ratio that steers the visits of its sector to the target (order i: target share times visits of order zero over visits of order i; worm: physical over worm visits; polar: Sigma over Polar visits), leaves every reweighting factor positive and finite, only happens when every order has gathered enough samples, and when samples are insufficient changes nothing at all. Printing progress never changes the simulation, and neither re-tuning nor printing changes the accumulated statistics, the diagram or the parameters other than the reweighting factors.",
 ["histories", "schedules", "configurations"],
 "For every sampled history and any interleaving of printing, re-tuning, saving, annealing and resuming, including histories in which some sector has never been visited.",
 "The degenerate histories (an order or the worm sector never visited before the timer fires) do not occur in any test, and no test compares state before and after.",
 ["src/module/markov/markov_monitor.cpp", "src/environment/envMonteCarlo.cpp", "src/module/markov/markov.cpp"],
 [("re-tuning", "src/module/markov/markov_monitor.cpp: AdjustOrderReWeight"), ("printing", "src/module/markov/markov_monitor.cpp: PrintOrderReWeight; src/module/markov/markov.cpp: PrintDetailBalanceInfo")],
 "complete worker state before and after each print or re-tune")

prop("P10", "Collection merges every readable statistics file exactly once",
 "When the statistics of all workers are collected, the merged self energies are exactly the normalised sum of the complete statistics files present, each counted once; a missing, torn, corrupt or incompatible file contributes nothing to any of the merged quantities. Collection is refused when fewer than three quarters of the files can be used, when there are none, or when no normalisation has been gathered, and temporary files are never collected.",
 ["fault_sequences", "schedules", "inputs"],
 "For every number of workers, every interleaving of the collector's reads with the workers' saves and crashes, and every subset of unreadable or partly readable files.",
 "Tests never run the Python half; the outcome depends on concurrent file replacement and on partially readable files.",
 ["dyson/collect.py", "IO.py", "hickle.py"],
 [("merging", "dyson/collect.py: CollectStatis, MergeFromDict"), ("file selection", "dyson/collect.py: GetFileList"), ("order acceptance", "dyson/collect.py: UpdateWeight")],
 "merged result against an independent sum over the files as they were read")

prop("P11", "A failed self-consistency version leaves no trace",
 "When a self-consistency version fails, because statistics cannot be collected or because the interaction becomes unstable, the next version proceeds from exactly the propagators, interactions and running averages that the last successful version left, apart from the deliberate adjustment of the auxiliary field. A failed version publishes no weights, parameters or announcement, and any number of consecutive failures is survived.",
 ["histories", "fault_sequences", "schedules"],
 "For every sequence of successes and failures of either kind, at any point inside a version.",
 "The effect appears only over a multi-version history with injected failures; no Python test exists.",
 ["dyson/main.py", "dyson/weight.py", "dyson/model.py", "dyson/collect.py"],
 [("version loop", "dyson/main.py: Dyson"), ("running averages", "dyson/weight.py: Merge, RollBack"), ("auxiliary field", "dyson/model.py: RevertField, DecreaseField")],
 "published weights after a failing history against a reference that skips the failed versions")

prop("P12", "Announcements follow durable publication and versions strictly increase",
 "At the instant an announcement becomes visible, the weights file and the parameter file of that version are already completely on disk, and readers never see a partly written weights, parameter or announcement file. Announced versions strictly increase over the whole history, including across crashes, restarts and failed writes of the self-consistency process.",
 ["crash_points", "fault_sequences", "schedules", "histories"],
 "For every crash instant, disk fault and restart of the self-consistency process over any number of versions.",
 "Needs crashes and disk faults between the file operations of a publication and a check over the complete history of the disk.",
 ["dyson/main.py", "dyson/parameter.py", "IO.py"],
 [("publication order", "dyson/main.py: Measure, Dyson"), ("announcement", "dyson/parameter.py: BroadcastMessage, Save"), ("file replacement", "IO.py: SaveDict, SaveBigDict")],
 "every visible state of the simulated disk")

prop("P13", "Published weights solve the Dyson equations for the published self energies",
 "In every published version, G and W are the Dyson-equation results for the bare propagator and interaction and the published running-average self energies, symmetric partners included, and the susceptibility and the observables reported with it (uniform and staggered, sum rule, energy, 1-JP) follow from them. The published parameters hold the auxiliary field under which that version was computed. The running averages combine successive versions with the documented weights within one process lifetime, a failed version does not count, and a restarted process continues from the published G, W and self energies.",
 ["histories", "configurations", "crash_points"],
 "For every lattice, temperature, model field and every history of merged statistics, failures and restarts.",
 "No Python test exists; the relation must hold after every version of any history, including the first version after a restart.",
 ["dyson/calculator.py", "dyson/weight.py", "dyson/main.py", "dyson/model.py"],
 [("Dyson equations", "dyson/calculator.py: G_Dyson, W_Dyson"), ("running average", "dyson/weight.py: Merge"), ("bare quantities", "dyson/model.py: BareFactory")],
 "Weight file after every version, recomputed independently")

prop("P14", "The whole calculation keeps making progress once faults stop",
 "With any number of workers, one self-consistency process and arbitrary crashes, restarts, stalls, torn files and disk errors before a certain time, once faults stop every worker adopts a newer version and saves again, and the self-consistency process publishes a newer version, within a bounded number of periods. At no time does a worker hold a version that was never announced, or exit without a fault of its own having been injected.",
 ["schedules", "fault_sequences", "crash_points", "histories"],
 "For every interleaving of the processes and every fault sequence that eventually stops.",
 "A multi-process liveness property under faults; nothing in the tests starts more than one component.",
 ["src/main.cpp", "src/environment/envMonteCarlo.cpp", "dyson/main.py", "dyson/collect.py", "IO.py"],
 [("worker loop", "src/main.cpp: MonteCarlo"), ("version loop", "dyson/main.py: Dyson"), ("shared files", "IO.py")],
 "virtual-time history of versions, saves and exits")

prop("P15", "Job manager runs every job once, within the limit, and stops cleanly",
 "The job manager starts every queued job exactly once with its own input file, never runs more processor-bound jobs at once than configured, starts the next queued job within a bounded number of polling intervals after one ends, and exits when all jobs have ended. After an interrupt or termination request every started job is terminated and waited for and no further job is started.",
 ["schedules", "fault_sequences", "configurations"],
 "For every number of jobs and processors, every pattern of job durations, simultaneous exits and crashes, and every arrival instant of a stop request.",
 "Depends on the interleaving of polls, exits and signals; the script has no tests.",
 ["job_manager.py", "job_class.py"],
 [("submission loop", "job_manager.py: __main__"), ("reaping", "job_manager.py: check_status"), ("stop", "job_manager.py: StopTheWorld")],
 "simulated process table over virtual time")

prop("P16", "Generated jobs have distinct identities and never overwrite each other",
 "Job generation gives every worker of a campaign its own process identity, its own input and result files and an independent random seed; a fresh campaign numbers workers from zero and a continued campaign resumes exactly the workers whose statistics exist, up to the requested number. Periods are perturbed by at most twenty percent, rounded down to whole seconds, and stay positive, and no job's parameters are affected by another's generation.",
 ["histories", "inputs", "configurations"],
 "For every directory content left by earlier campaigns (including temporary, merged and foreign files), every request and every random draw.",
 "Depends on what earlier, possibly crashed, campaigns left on disk; there are no tests of the Python half.",
 ["job_class.py", "job_manager.py", "inlist.py"],
 [("identity allocation", "job_class.py: get_current_PID, JobMonteCarlo"), ("parameters", "job_class.py: to_dict")],
 "generated input files over successive campaigns")

prop("P17", "Data files read back exactly as written, or not at all",
 "Any parameter set or weight array written through the data-file layer reads back with identical structure, types and values in either language. Under failing, short or interrupted writes a reader gets the previous complete content or the new complete content or an input/output error that the caller can handle, never altered data, and an interrupted write never destroys the previous content.",
 ["inputs", "fault_sequences", "crash_points"],
 "For every nested content, every fault at every operation of the write, and every interleaved reader.",
 "The only round-trip test is excluded from the stable set and covers one fixed dictionary without faults.",
 ["IO.py", "hickle.py", "src/utility/dictionary.cpp", "src/utility/pyglue/type_cast.cpp", "src/utility/pyglue/pywrapper.cpp", "src/utility/pyglue/pyarraywrapper.cpp"],
 [("text files", "IO.py: SaveDict, LoadDict"), ("binary files", "IO.py: SaveBigDict, LoadBigDict; hickle.py"), ("language bridge", "src/utility/dictionary.cpp")],
 "values read after each write on the simulated disk")

prop("P18", "Lattice, Fourier and symmetry maps are correct inverses of each other",
 "Index maps between coordinates, sublattices, spins, time bins and flat indices are bijections consistent between both languages, and Fourier transforms between space/time and momentum/frequency are inverses of each other.",
 ["inputs", "configurations"],
 "For every lattice, size, and index.",
 "Tests cover two lattices; the statement is over all sizes.",
 ["src/lattice/lattice.cpp", "src/module/weight/index_map.cpp", "dyson/weight.py", "dyson/lattice.py"],
 [("index maps", "src/module/weight/index_map.cpp; dyson/weight.py: IndexMap"), ("transforms", "dyson/weight.py: FFT")],
 "pure function values")
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
