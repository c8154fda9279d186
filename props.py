#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json; run it to regenerate both."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, level="exploration", note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, level=level, note=note, na=na))


prop("P01", "Buffered hand-off between threads delivers every item exactly once",
     "When producer threads pass items to consumer threads through buffered write and read ends, every item "
     "written is received by exactly one consumer, unchanged, and the items of one producer reach each consumer "
     "in the order they were written. A write end holds back less than one full buffer of items, a flush makes everything "
     "written before it available without further writes, destroying or ending a write end flushes what is left, and a consumer is told that the stream has "
     "ended only after all items were handed out. No combination of buffer sizes, including write ends that were "
     "never attached or used, deadlocks, crashes or races.",
     ["schedules", "configurations", "histories"],
     "all interleavings of 1-4 producers and 1-4 consumers, all buffer sizes and lane capacities, all flush/end patterns, spurious wake-ups",
     "No test in the suite exercises the buffered lane; a loss or a hang needs a particular interleaving of "
     "partial buffers, capacity and end of stream.",
     ["common/buffered_lane.h"],
     ["lane_write_buffer collects items and moves them to the lane in blocks; lane_read_buffer refills in blocks"],
     note="Seeded schedules of real threads through the real buffers, over a re-implemented aocommon::Lane "
          "(the library is not installed here).")

prop("P02", "A shared parameter set behaves as one atomic map",
     "Copies of a parameter set share one collection, and operations on it from any number of threads (adding, "
     "replacing, removing, reading values with or without default, adopting files, buffers, arguments or other "
     "sets, extracting and subtracting subsets, listing the contents, finding modules, and listing the keys "
     "nobody asked for) behave as if executed one at a time in an order consistent with real time. Adding an "
     "existing key and reading an unknown key without default are errors; a key counts as used once it was read "
     "or extracted. No interleaving deadlocks, crashes or races, also when two sets adopt each other.",
     ["schedules", "histories"],
     "all interleavings of up to 4 threads performing up to 6 operations each, all operation mixes",
     "Tests use parameter sets from a single thread; races and lost updates need particular interleavings.",
     ["common/ParameterSet.h", "common/ParameterSet.cc", "common/ParameterSetImpl.h", "common/ParameterSetImpl.cc"],
     ["one mutex per collection; look-ups return copies; the asked-for keys are tracked under the same mutex"],
     note="Linearizability of recorded histories against a sequential model plus vector-clock race detection, "
          "for case-sensitive sets; case-insensitive sets are not explored.")

prop("P03", "Parameter files hold and give back exactly what was stored, or an error",
     "Writing or appending a parameter set to a file either leaves exactly its keys and values there or reports "
     "an error, and a failed or interrupted append never damages what the file already held. Reading or adopting "
     "a parameter file either yields exactly the keys and values it describes (comments, blank lines, quotes, "
     "continuation lines and prefixes applied, the last definition of a key winning) or reports an error; "
     "missing files are errors. Interrupted system calls and partial transfers are invisible, while failing "
     "opens, reads, writes, closes and full disks are always reported and nothing else is.",
     ["inputs", "fault_sequences", "crash_points", "histories"],
     "all sequences of write, append, adopt and load over several sets and files, with any fault at any system call and a crash at any write",
     "Tests read a few well-formed files on a healthy disk; no test makes an open, read, write or close fail or crashes a writer.",
     ["common/ParameterSetImpl.cc", "common/ParameterSet.h", "common/ParameterValue.cc", "common/StringTools.cc"],
     ["readFile/readStream parse line by line; writeFile streams key=value lines; stream states are checked after reading and after closing"],
     level="fault_enumeration",
     note="Seeded fault and crash sequences at every open, read, write, seek and close; files are real files in a scratch directory.")

prop("P04", "AARTFAAC files deliver every complete time step, in place, or an error",
     "Opening an AARTFAAC correlation file succeeds only if it starts with a complete, valid header (magic "
     "number and the supported correlation mode), and reports the file's properties from that header and the "
     "number of complete time steps in it, a truncated last time step not counting. Sequential reading, skipping, "
     "seeking and metadata look-ahead give for each position exactly the times and visibilities recorded there. "
     "Interrupted and partial reads are invisible; any failing open, seek or read is reported and never turned "
     "into data.",
     ["inputs", "fault_sequences", "histories"],
     "all file geometries, truncation points, access sequences and faults at any system call",
     "No test reads an AARTFAAC file in this configuration, and none injects faults or truncations.",
     ["aartfaac/File.h", "aartfaac/PacketHeader.h"],
     ["fixed-size header plus block per time step; position arithmetic on header plus block size; stream state checked after every read"],
     level="fault_enumeration",
     note="Seeded geometries, truncations, access sequences and system call faults against a byte-level model of the file.")

prop("P05", "Execution timers account for exactly the time that passed",
     "Every start/stop of an execution timer, including scopes left by an exception, adds exactly the elapsed "
     "real time and one count, whatever happens to the system's wall clock (steps forwards or backwards) and "
     "however long threads are stalled. Resetting empties a timer, merging timers adds their totals and counts, "
     "the average is total over count, and the printed report is consistent with these. Several threads can add "
     "their scopes to one shared accumulator at the same time without losing or inventing time.",
     ["schedules", "clock_faults", "histories"],
     "all interleavings of up to 4 threads, all sequences of start, stop, reset, merge and report, wall-clock jumps and stalls at any point",
     "No test moves the clock or shares an accumulator between threads; the timing table DP3 prints is never checked.",
     ["common/Timer.h", "common/PrettyUnits.cc"],
     ["BaseTimer accumulates duration and count of the steady clock; ScopedMicroSecondAccumulator adds to an atomic in its destructor"],
     note="Seeded schedules with a simulated monotonic, wall and processor clock; the oracle knows the simulated time of each call.")

prop("P06", "Linear least-squares solvers return a true minimum or report failure",
     "When an LLS solver (QR, SVD or normal equations) reports success, its result minimises the residual of the "
     "given system (the minimum-norm solution for the SVD solver when there are fewer equations than unknowns), "
     "for every right-hand side. A failing factorisation, and a singular or underdetermined system the method "
     "cannot solve, is reported as a failure and never as a solution. The history of a solver object never "
     "changes what it returns, different solver objects can be used by different threads at the same time, "
     "running out of memory only raises an exception and leaves the solver usable, and nothing outside the "
     "matrices handed in is written.",
     ["inputs", "schedules", "fault_sequences", "histories"],
     "all sizes up to 64x24 with up to 4 right-hand sides, scaled and unevenly scaled columns, all sequences of systems per solver object, up to 3 threads, LAPACK and allocation failures at any call",
     "Tests solve a few small well-conditioned systems once; no test makes LAPACK or an allocation fail, reuses a solver after a failure or runs two at a time.",
     ["ddecal/linear_solvers/LLSSolver.h", "ddecal/linear_solvers/LLSSolver.cc", "ddecal/linear_solvers/QRSolver.h",
      "ddecal/linear_solvers/SVDSolver.h", "ddecal/linear_solvers/NormalEquationsSolver.h"],
     ["workspace kept per object between calls; return value derived from LAPACK's info"],
     level="fault_enumeration",
     note="Seeded systems, schedules and faults; the residual and norm are checked against an independent double-precision solution.")

STEP_NOTE = (" The step and buffer classes are DP3's own; xtensor, casacore and aocommon are small "
             "re-implementations because the libraries are not installed here.")

prop("P07", "Averaging in time and frequency gives the weighted mean of unflagged input",
     "The averager turns every block of the configured number of time slots and channels into one output slot: "
     "each visibility is the weighted mean of the unflagged input samples with their summed weight, flagged when "
     "there are no such samples or fewer than the configured minimum number or percentage (then holding the "
     "weighted mean of all samples), the UVW is the mean over the slots, and time, exposure, frequencies and "
     "widths describe the averaged block, an incomplete last block included. Every input slot contributes to "
     "exactly one output slot, outputs appear in time order, the result does not depend on the number of threads "
     "or their schedule, and errors of later steps are passed on.",
     ["inputs", "schedules", "histories", "fault_sequences"],
     "all shapes, averaging factors, flag patterns, missing values, weights, numbers of slots including none, 1-4 threads under any schedule",
     "The step's own tests use a few regular shapes and flag patterns with whatever schedule the machine gives.",
     ["steps/Averager.h", "steps/Averager.cc", "base/DPInfo.cc", "base/DPBuffer.cc"],
     ["process() accumulates, finish() flushes the last block; average() runs over baselines in parallel"],
     note="Seeded data, schedules and errors of the next step against an independent averaging in double precision." + STEP_NOTE)

prop("P08", "Baseline-dependent averaging loses and invents nothing, also when expanded",
     "The baseline-dependent averager passes on, for every baseline, rows that together cover every input time "
     "slot and channel exactly once: each value is the weighted mean of its unflagged input, each weight the sum "
     "of their weights, the UVW the mean, the exposure and time those of the covered slots, with rows numbered "
     "consecutively, never averaging beyond the configured limits, and with what is left flushed at the end. "
     "The announced averaging of each baseline is the one applied. Expanding gives regular time slots again, in "
     "order, in which every baseline and channel has the value of the averaged row covering it and the total "
     "weight of a baseline is preserved. Errors of later steps are passed on.",
     ["inputs", "histories", "fault_sequences"],
     "all baseline lengths, averaging limits, numbers of slots and channels, flag patterns, buffer sizes, and errors at any later step",
     "The tests average a few fixed baselines with matching factors; defects need uneven remainders or particular flag patterns.",
     ["steps/BDAAverager.h", "steps/BDAAverager.cc", "steps/BdaExpander.h", "steps/BdaExpander.cc",
      "base/BdaBuffer.h", "base/BdaBuffer.cc"],
     ["per-baseline accumulators written to BdaBuffer rows when full; the expander keeps slots until all baselines arrived"],
     note="Seeded inputs and faults of the next step against an independent row-by-row reference." + STEP_NOTE)

prop("P09", "Median flagging follows its definition under every schedule",
     "The median flagger flags a sample exactly when one of the selected correlations exceeds the median by the "
     "threshold times the scaled median absolute deviation over the configured window in time and frequency "
     "(clipped at the edges of the observation and band, for the selected correlations and baselines), and then "
     "flags all correlations of the sample. It never changes data, never removes a flag, never loses or reorders "
     "time slots whatever the window and the number of slots, including none, and its result and flag counts do "
     "not depend on the number of threads or their schedule.",
     ["inputs", "schedules", "histories"],
     "all windows, thresholds, correlation selections, baseline length limits, numbers of slots, flag patterns, 1-4 threads under any schedule",
     "The tests use constant or ramp data with one window, and observe one schedule per run.",
     ["steps/MadFlagger.h", "steps/MadFlagger.cc", "common/Median.h"],
     ["buffers of timewindow slots; flag() runs over baselines in parallel with per-thread scratch; edges are mirrored"],
     note="Seeded data and schedules against an independent computation of the medians; borderline samples are not judged." + STEP_NOTE)

prop("P10", "Interpolation replaces flagged samples only, under every schedule",
     "The interpolation step replaces each flagged sample that has unflagged neighbours within its window in time "
     "and frequency by the normalised, Gaussian-weighted sum of those neighbours and unflags it, leaves finite "
     "unflagged samples untouched, and gives zero and a flag to samples without usable neighbours and to infinite "
     "or undefined unflagged samples. It passes on every time "
     "slot once and in order whatever their number, the result does not depend on the schedule of its worker "
     "threads, it never deadlocks, and errors of later steps are passed on.",
     ["inputs", "schedules", "histories", "fault_sequences"],
     "all window sizes, shapes, flag patterns, numbers of slots including none, 1-4 worker threads under any schedule",
     "The tests check slot counts and one interpolation with the schedule the machine happens to give.",
     ["steps/Interpolate.h", "steps/Interpolate.cc", "common/buffered_lane.h"],
     ["a queue of slots, and tasks handed to worker threads through a buffered lane, joined before a slot is sent on"],
     note="Seeded data and schedules of the real worker threads against an independent interpolation." + STEP_NOTE)

prop("P11", "Upsampling in time covers every output interval once",
     "The upsampling step splits every input time slot into the configured number of output slots with the right "
     "time and exposure and the data, weights and flags of the input. Every output interval covered by the input "
     "appears exactly once and in time order; where consecutive input slots overlap, the later slot is used "
     "unless it is fully flagged. Nothing is lost at the end, no number of slots, including none, crashes the "
     "step, and errors of later steps are passed on.",
     ["inputs", "histories", "fault_sequences"],
     "all upsampling factors, gaps and overlaps of consecutive slots, time jitter, flag patterns, numbers of slots including none",
     "The test uses one factor with two overlapping slots; losses need particular overlaps or ends.",
     ["steps/Upsample.h", "steps/Upsample.cc"],
     ["prev_buffers_ holds the split previous slot until the next one shows which parts overlap"],
     note="Seeded slot spacings, flag patterns and errors of the next step against a reference over output intervals." + STEP_NOTE)

prop("P12", "Cluster and data set descriptions survive files and storage faults",
     "Node, cluster, VDS and VDS part descriptions written to a file or stream and read back describe the same "
     "nodes, mount points, file systems, frequencies, times and parts, with times and time steps accurate enough "
     "not to move a time slot, and finding the file system or mount point of a path picks the longest matching "
     "mount point on path boundaries. Combining part descriptions yields one "
     "description that lists every non-empty part once, spans all their times, counts data sets correctly, and "
     "refuses an empty list of usable parts. A failing read, write or close of any of the files is reported as an exception "
     "and never as a silently shorter or default description.",
     ["inputs", "fault_sequences", "crash_points"],
     "all descriptions, mount tables, part lists including empty parts, and read, write, short-write and close errors at any point",
     "The tests read one description from a healthy disk; lost parts and silent truncation need faults or unusual parts.",
     ["common/NodeDesc.h", "common/NodeDesc.cc", "common/ClusterDesc.h", "common/ClusterDesc.cc", "common/VdsDesc.h",
      "common/VdsDesc.cc", "common/VdsPartDesc.h", "common/VdsPartDesc.cc", "common/VdsMaker.h", "common/VdsMaker.cc"],
     ["descriptions are written as parameter sets with a prefix per part and read back through ParameterSet",
      "VdsMaker::combine merges the part descriptions"],
     level="fault_enumeration",
     note="Seeded descriptions through the real writers, parser and combiner on a simulated disk with seeded faults.")

prop("P13", "A new MeasurementSet holds every time slot once, or an error is reported",
     "Writing a new MeasurementSet stores every time slot that reaches the output step exactly once and in order, "
     "with the data, flags, weights, UVW, times, exposures, antennas and row flags it had and with the channels, "
     "time range, history and phase centre of the processed data, for every schedule of the writer thread. When the output is split in "
     "parts of a number of time slots, each part holds its own slots, and earlier steps can add to every part. "
     "Requested flushes make the slots durable, and everything is flushed at the end. The input set and existing sets that may not be "
     "overwritten are left alone. Every failing table write or thread start is reported as an exception by the "
     "time the run finishes, errors of later steps are passed on, and nothing hangs or terminates the program.",
     ["inputs", "schedules", "fault_sequences", "histories"],
     "all shapes, chunk durations, flush cadences, numbers of slots including none, writer thread schedules, table write errors at any write, thread creation failures, early destruction",
     "The tests that write need the real casacore, write on a healthy disk and observe one schedule of the writer thread.",
     ["steps/MSWriter.h", "steps/MSWriter.cc", "base/MS.cc"],
     ["process() queues slots for a writer thread; finish() joins it, rethrows its error and updates the tables"],
     level="fault_enumeration",
     note="Seeded schedules of the real writer thread and seeded table errors; the tables are an in-memory disk." + STEP_NOTE)

prop("P14", "Reading a MeasurementSet yields a complete, regular series of time slots",
     "Reading a MeasurementSet passes on one buffer for every interval of the selected time range, in order and at "
     "regular times: a slot of the set with the data, flags, weights, UVW, exposure and row numbers stored for it, or, where the set "
     "has no slot or its slot comes out of order, a fully flagged slot with zero data and weights. Start and end selections "
     "(by time, by slot number, by count, before or after the set) give exactly those slots, also when the "
     "stored times are slightly off or lie exactly on the boundary. Channel, baseline and column selections give exactly the selected samples, "
     "infinite or undefined data and rows marked as flagged become flags, and flagging one correlation flags all. "
     "The number of announced slots, channels and baselines matches what follows. Impossible selections, missing "
     "columns without permission and failing reads are reported as errors, never as shorter or other data.",
     ["inputs", "fault_sequences", "histories"],
     "all time grids with jitter, gaps and out-of-order slots, all time, channel and baseline selections, weights options, read errors at any read",
     "The tests that read need the real casacore and a few regular sets on a healthy disk; lost or repeated slots need particular gaps, jitter and selections.",
     ["steps/MsReader.h", "steps/MsReader.cc", "steps/InputStep.cc", "base/MS.cc"],
     ["a table iterator over TIME is compared with the expected next time; missing slots are inserted within a tolerance"],
     level="fault_enumeration",
     note="Seeded sets, selections and read errors against a reference over grid positions; out-of-order slots are "
          "always strictly earlier than the previous one." + STEP_NOTE)

prop("P15", "Several MeasurementSets are read as one complete band",
     "Reading several MeasurementSets together gives every time slot once with the channels of all sets joined in "
     "the order of their frequencies (or as given when ordering is off), where the channels of absent sets are "
     "filled with flagged zero data of the right shape and place. Data, flags, weights, UVW and additional columns are those of "
     "the set a channel belongs to, a sample flagged in one correlation is flagged in all, and time and channel "
     "selections apply as for a single set. Sets whose times, shapes, baselines or intervals do not match, and a "
     "list in which no set exists, are refused, and a failing read of any set is reported as an error.",
     ["inputs", "fault_sequences", "histories"],
     "all numbers, orders and frequencies of sets, absent sets at any position, selections, mismatching sets, read errors at any read of any set",
     "The tests that read need the real casacore and healthy disks; mixed up bands need particular orders and absent sets.",
     ["steps/MultiMsReader.h", "steps/MultiMsReader.cc", "steps/MsReader.cc", "steps/InputStep.cc"],
     ["one MsReader per set, whose results are combined per time slot; fillBands() describes absent sets"],
     level="fault_enumeration",
     note="Seeded sets and read errors against the data generated for each set and channel." + STEP_NOTE)

prop("P16", "Updating a MeasurementSet changes exactly what was asked for",
     "Updating a MeasurementSet in place stores the processed data, flags and weights in exactly the rows and "
     "channels that were selected and read, in the columns that were named or else in those that were read, and only those "
     "of data, flags and weights that earlier steps changed or for which a column was named. Columns that do not "
     "exist are added, row flags are cleared where a new flag is clear (channels that are not updated stay flagged), inserted time slots change nothing, and "
     "apart from an added history entry every other row, channel, column and table keeps its exact contents, whatever the order of the rows in the set. "
     "Updates that cannot work (changed meta data, columns of another type, the WEIGHT column) are refused. "
     "Requested flushes are done in time, every failing read or write is reported as an error, and after an error "
     "every cell holds its old or new value.",
     ["inputs", "fault_sequences", "histories"],
     "all selections of times, channels, baselines and windows, row orders, column choices, chains of updates, flush cadences, read and write errors at any operation",
     "The tests that update a set need the real casacore and check a single regular set without faults.",
     ["steps/MSUpdater.h", "steps/MSUpdater.cc", "steps/MsReader.cc", "steps/MSWriter.cc"],
     ["row numbers of the selected rows travel with each buffer; put functions write slices of the selected channels"],
     level="fault_enumeration",
     note="Seeded sets, selections and table errors; the whole set is compared with the expected contents byte by byte." + STEP_NOTE)

prop("P17", "A DP3 run gives the result of its steps applied in order to the whole input",
     "Running DP3 with any list of steps (averaging, filtering, flagging, scaling, interpolating, combining, intermediate "
     "outputs and so on) writes, in every output set it is asked for, exactly what the listed steps give when "
     "they are applied one after the other to all time slots of the input with all data, flags, weights and UVW read: "
     "which of these are really read and written, the number of threads, and whether settings come from the file or from the command line (which "
     "takes precedence) never change it. A later step never disturbs what an earlier output got. The input set stays exactly as it was "
     "unless an update is requested. A failing read or write or a thread that cannot be started makes the run fail, and running "
     "again with overwriting succeeds; a run that has no such cause and whose settings are valid does not fail or crash. A setting that nothing uses is refused if "
     "checking is requested and otherwise harmless.",
     ["schedules", "inputs", "fault_sequences", "histories"],
     "all chains of the steps that can be built here, their settings, placements of outputs and updates, input selections, thread counts and schedules, read, write and thread failures",
     "The unit tests run steps one at a time with all fields available; the integration tests run a few fixed chains and need the real casacore and data sets.",
     ["base/DP3.cc", "base/DP3.h", "steps/Step.h", "steps/InputStep.cc", "steps/MSWriter.cc", "steps/MSUpdater.cc", "common/Fields.h"],
     ["SetChainProvidedFields and GetChainRequiredFields decide what is read and written; MakeStepsFromParset and MakeOutputStep make the chain"],
     level="fault_enumeration",
     note="Seeded chains; the reference applies the real steps one by one to fully read input, so an error inside the arithmetic of a single step is "
     "left to the checks of the steps. Steps that need absent libraries (calibration, prediction, beam) are not in the chains." + STEP_NOTE)

prop("P18", "The calibration solvers find the least-squares gains, whatever the schedule",
     "Given observed data, weights, flags and per-direction model data, every iteration of each gain solver (scalar, diagonal and full-Jones, "
     "direct and direction-iterative, with full, duo or single visibilities) moves each antenna's solution, by the requested step and along the unit "
     "circle in phase-only mode, towards the weighted least-squares solution given the current solutions of the other antennas, for every channel "
     "block, direction and direction-dependent sub-interval, in any order of threads and for any number of them. Samples that are flagged "
     "or hold a value that is not a finite number in the data or any model have no influence at all; auto-correlations are ignored; an antenna "
     "without usable data gets no solution (not a number) and does not disturb the others; an unknown start value is replaced by the mean amplitude "
     "of the known ones per polarization. A linear equation that cannot be solved makes only its own antenna unknown. Noise-free data are reproduced by the solutions.",
     ["schedules", "inputs", "fault_sequences"],
     "all array sizes, channel blocks, directions, sub-intervals, weights, flags, bad values, step sizes, start values, linear solvers, thread counts and schedules, and failures of single linear equations",
     "The solver tests need libraries that are absent here, check convergence on one data set with fixed settings, and cannot see a wrong iteration that still converges or a schedule-dependent result.",
     ["ddecal/gain_solvers/ScalarSolver.cc", "ddecal/gain_solvers/DiagonalSolver.cc", "ddecal/gain_solvers/FullJonesSolver.cc",
      "ddecal/gain_solvers/IterativeScalarSolver.cc", "ddecal/gain_solvers/IterativeDiagonalSolver.cc", "ddecal/gain_solvers/IterativeFullJonesSolver.cc",
      "ddecal/gain_solvers/SolverBase.cc", "ddecal/gain_solvers/SolveData.cc", "ddecal/gain_solvers/SolverTools.cc"],
     ["PerformIteration per channel block in parallel loops, nested over antennas or visibilities; Step; AssignAndWeight"],
     level="fault_enumeration",
     note="Each iteration of the real solver is compared with a double precision reference, starting from the solver's own previous solutions, so that rounding does not add up." + STEP_NOTE)

prop("P19", "Solvers iterate, constrain, stop and report exactly as configured",
     "In every iteration of a solve the constraints are applied once each in the order they were added, each to the result of the one before, after being told "
     "the iteration number, whether the precision was reached before, and whether this is the last allowed iteration; what they produce is what the next "
     "iteration and the caller get. A solve ends at the first iteration that is not below the minimum and at which the maximum is reached, the "
     "solutions changed by no more than the accuracy (the constraint accuracy as long as a constraint is not satisfied) with all constraints satisfied, or the solutions "
     "have stalled; it reports that number of iterations if it converged and one more if it did not, the number of constrained iterations, and the "
     "constraints' results. A hybrid solver runs its solvers in order, never lets them take more than their own and the remaining total number of iterations, and "
     "stops after a converged one if told so. What was solved before with the same solver has no influence on a solve.",
     ["schedules", "histories", "configurations"],
     "all sequences of solves, constraint behaviours, accuracies, iteration limits, stall settings, hybrid stages, start values, thread counts and schedules",
     "Tests check that fixed data converge; the stop rule, the protocol with constraints that are satisfied late and the state left by earlier solves are not sampled.",
     ["ddecal/gain_solvers/SolverBase.h", "ddecal/gain_solvers/SolverBase.cc", "ddecal/gain_solvers/HybridSolver.cc", "ddecal/constraints/Constraint.h"],
     ["ApplyConstraints, AssignSolutions, ReachedStoppingCriterion, DetectStall, MakeResult; HybridSolver::RunSolver"],
     note="Recording constraints observe the real solvers; the expected course is computed from the recorded solutions." + STEP_NOTE)

prop("P20", "Direction-dependent calibration passes on every time slot with its solutions",
     "DDECal passes on every time slot exactly once, in order and only after it entered, with its time, flags, weights and UVW (and its data, unless it subtracts or "
     "only predicts) unchanged, whatever it flags or weighs internally. The time slots are calibrated in consecutive groups of solint slots; the last group may be "
     "shorter and is then filled up with flagged data that never leave. The solutions of a group are those of a solver that only sees the unflagged data (after UVW selection and the "
     "minimum visibility ratio), weights and models of that group, starting from unity, from the solutions of the previous group (if propagating, and converged if so asked) or from "
     "the initial solutions at the mean time of the group; they do not depend on the thread schedule, on how many groups are buffered or on what earlier groups left behind, and an antenna without "
     "valid data gets no solution of another group. Subtraction gives the data minus the "
     "sum over the directions of J1 M J2^H, keeping the models gives those corrupted models, only predicting gives the sum of the models, with the solutions of the right (used) antennas. The solution "
     "file has, for every group (or part of it with more solutions per direction) that starts within the data, at its central time, the values and weights of each channel block, used "
     "antenna, direction and polarization, with the results of all constraints. Without a solution file nothing is written; an error of the file, of a model or of a later step is reported.",
     ["inputs", "schedules", "faults", "configurations"],
     "all data, flags, weights, solution intervals, modes, solvers, constraints, model sources, unused antennas, sub-solution intervals, file errors, thread counts and schedules",
     "The step needs several groups, unused antennas, shorter last groups or failing writes together with threads to show most of these; tests run fixed cases and look at fixed values.",
     ["steps/DDECal.h", "steps/DDECal.cc", "ddecal/SolutionWriter.cc", "ddecal/SolutionResampler.cc", "ddecal/InitialSolutions.cc", "ddecal/SolverFactory.cc", "ddecal/Settings.cc",
      "ddecal/constraints/RotationAndDiagonalConstraint.cc", "ddecal/constraints/FaradayConstraint.cc", "ddecal/constraints/TecConstraint.cc"],
     ["DDECal::process, doPrepare, doSolve, CorrectAndSubtractModels, WriteSolutions; SolutionWriter::Write; SolutionResampler::Upsample; InitialSolutions::Read"],
     note="The expected solutions come from a new solver of the repository for every group, with constraints set up by the harness; values of ill-conditioned groups (that change much with tiny "
     "changes of the data) are not compared. Model steps and the solution file are stand-ins." + STEP_NOTE)

prop("P21", "Calibration constraints map solutions to their model, independently of history",
     "Every constraint is a function of the solutions and weights it is given: what it was applied to before, the number of threads, their schedule and a failed "
     "earlier application do not matter. Amplitude-only gives the amplitudes; leakage sets the diagonal to one; antenna (and antenna-interval) averaging replace the solutions of the antennas of a set (of consecutive "
     "sub-solutions of an antenna) by the mean of the finite ones, per channel block, direction and polarization, and change nothing else; smoothing gives the weighted kernel average over the channel blocks with a width "
     "that follows the frequency, antenna and direction factors; rotation gives the rotation matrix of the solution; rotation+diagonal and Faraday give diagonal times rotation, "
     "with the diagonal of the requested type, where the Faraday angle is the rotation measure times the squared wavelength and diverging diagonal amplitudes are brought within a factor five of the mean of their polarization; "
     "the TEC family gives unit phases that follow the reported TEC, phase and delay after dividing by the reference antenna. Solutions that already follow the model are kept (for TEC: within the accuracy of its search), up to the given limit of the rotation "
     "measure. Results have a value and a weight for every element of their dimensions, in that order, equal to what the solutions became; weights follow the given weights, and only "
     "antennas without valid solutions and directions and channel blocks that diverged have negative ones. Channel blocks without weight or with invalid solutions do not influence the others, and the scale of the weights does not matter.",
     ["inputs", "schedules", "histories", "faults"],
     "all constraints and modes, numbers of antennas, channel blocks, directions, sub-solutions and threads, flags, weights, histories, memory faults and schedules",
     "Constraints keep per-thread work space and results between iterations; mixed-up indices only show with several directions, sub-solutions and unequal weights, which tests do not combine.",
     ["ddecal/constraints/AmplitudeOnlyConstraint.h", "ddecal/constraints/AntennaConstraint.h", "ddecal/constraints/AntennaIntervalConstraint.cc", "ddecal/constraints/Constraint.cc", "ddecal/constraints/FaradayConstraint.cc",
      "ddecal/constraints/KernelSmoother.h", "ddecal/constraints/PieceWisePhaseFitter.h", "ddecal/constraints/PolarizationLeakageConstraint.cc", "ddecal/constraints/RotationAndDiagonalConstraint.cc",
      "ddecal/constraints/RotationConstraint.cc", "ddecal/constraints/SmoothnessConstraint.cc", "ddecal/constraints/TecConstraint.cc", "ddecal/constraints/TecOffsetDelayConstraint.cc",
      "ddecal/constraints/TecOffsetDelayFitting.cc", "base/PhaseFitter.cc", "common/PhaseLineFitter.h"],
     ["Constraint::Initialize, SetWeights, SetSubSolutionWeights, PrepareIteration, Apply, GetResult of every constraint"],
     note="A truncated smoothing kernel is compared exactly where the window of the code covers it. TEC searches are not exhaustive, hence exact recovery is only asked where they are. "
     "The screen constraint is not included (it needs casacore measures)." + STEP_NOTE)

prop("P22", "Applying calibration solutions corrects each visibility with its own solution",
     "ApplyCal turns each visibility (or, for model data, that of each direction) V of antennas p and q into J_p^-1 V J_q^-H, or J_p V J_q^H without inversion, where J is the solution of the file, "
     "parameter database or buffer that is nearest to, or interpolated at, the time and channel of the visibility, of the antenna with that name, polarization and direction. Corrections of one step happen in order, and a setting they "
     "do not have is that of the step. How often solutions are read, threads and schedules do not matter. Without a finite, invertible solution the data and weights stay and are flagged, and the "
     "counts are those of newly flagged samples. If asked for, weights follow the propagated variances. Antennas without solution are refused, flagged or kept as requested, an "
     "ambiguous direction is refused, and errors while reading solutions or of a later step are reported. Times and UVW coordinates stay.",
     ["inputs", "schedules", "faults", "configurations"],
     "all data, flags, weights, solutions (valid or not), solution grids, sources, correction types, settings of steps and corrections, read errors, thread counts and schedules",
     "Solutions are cached for several time slots and applied by several threads; mixed-up times, antennas, settings or counts need inputs that differ in all of them, with reads in the middle. Tests use regular files.",
     ["steps/ApplyCal.h", "steps/ApplyCal.cc", "steps/OneApplyCal.h", "steps/OneApplyCal.cc", "base/FlagCounter.cc"],
     ["OneApplyCal constructor, updateInfo, process, updateParmsH5, updateParmsParmDB, CorrectionLoop; ApplyCal::ApplyDiag, ApplyFull, ApplyWeights"],
     note="Solution files, JonesParameters and the parameter database are stand-ins with the same interface. Updating weights with model data is not covered." + STEP_NOTE)

prop("P23", "GainCal solutions solve their own data and are written for their own domain",
     "For every calibration type GainCal fits, per solution interval and frequency cell, antenna solutions to the visibilities that are not flagged, have weight and are within the baseline and UV "
     "selection; no other visibility influences a solution. A converged solution is a fixed point of the iteration, and without noise it reproduces the data. Without usable data an antenna has "
     "no solution: it is marked as invalid, and applying it flags. Each interval is solved by itself unless solutions are propagated. The solutions in the solution file or parameter database are those "
     "which were found, each exactly once, for the times and frequencies of its interval and cell (the last may be shorter), its antenna and polarization, with the quantity that the table or name says; "
     "earlier solutions of the same run parameters are replaced, and how many intervals are written at once does not matter. With applysolution the data are corrected by the solution of their "
     "interval, otherwise data pass unchanged, in order and complete. Threads and schedules do not matter, and errors of the tables, memory, threads or the next step are reported.",
     ["inputs", "schedules", "faults", "configurations"],
     "all data, models, flags, weights, UVW, calibration types, interval and cell sizes (also not dividing the data), earlier solutions, errors, thread counts and schedules",
     "Frequency cells, antennas and polarizations are solved by nested parallel loops that share state; the mix of intervals, cells, missing antennas and output grids is too large for samples. "
     "The unit tests cover the arithmetic of one type only.",
     ["steps/GainCal.h", "steps/GainCal.cc", "base/GainCalAlgorithm.h", "base/GainCalAlgorithm.cc", "parmdb/ParmDBCasa.cc", "base/PhaseFitter.cc"],
     ["GainCal::process, fillMatrices, calibrate, writeSolutionsParmDB, writeSolutionsH5Parm, applySolution, finish; GainCalAlgorithm::doStep, relax, getSolution; ParmDBCasa put and get"],
     note="Tables and solution files are in memory; model data are given. Applying with less than four correlations and weights that differ by correlation (for TEC) are not covered." + STEP_NOTE)

prop("P24", "A parameter database returns exactly what was stored, whatever its history",
     "Values stored in a parameter database (ParmDB, ParmFacadeLocal, or by solving with Parm and ParmCache) are found again, unchanged, with their domain, cells (regular, irregular or with holes), errors, type, "
     "perturbation and mask, by every query of which pattern and domain match, and by no other: in any order of storing, after updates of values or of their cells, after deletions, clearing the tables, "
     "reopening the database or using several handles to it. Existing values are not overwritten by adding. Predicting on a grid gives in each cell whose centre is in a stored cell the value, or the "
     "polynomial on the domain, that is stored there; the native grid and the coefficients are those stored. Default values are found by the longest matching name, as last put, also when "
     "cached; a solution on a domain without values starts with them. Names keep their ids, ranges and default steps are those of what is stored. A grid and its domains describe the same cells. "
     "A failing read changes nothing, and a failing write is reported and leaves the values of other parameters.",
     ["inputs", "histories", "faults"],
     "all sequences of storing, adding, updating, solving, querying, predicting, deleting, clearing and reopening; all names, patterns, domains, grids, values; table errors at any point",
     "What a query returns depends on everything stored, changed and removed before, in which order and through which handle; unit tests use short fixed sequences on one regular grid.",
     ["parmdb/ParmDB.cc", "parmdb/ParmDBCasa.cc", "parmdb/ParmFacadeLocal.cc", "parmdb/ParmSet.cc", "parmdb/ParmCache.cc", "parmdb/Parm.cc", "parmdb/ParmValue.cc", "parmdb/Grid.cc", "parmdb/Axis.cc",
      "parmdb/AxisMapping.cc"],
     ["ParmDBCasa::getValues, putValues, deleteValues, putDefValue, clearTables; ParmFacadeLocal::getValues, getValuesGrid, getCoeff, addValues; ParmDBRep::getDefValue; ParmValueSet::setSolveGrid; "
      "Grid and Axis find, subset, combine, makeAxis"],
     note="The tables are in memory. Domains of one parameter form a grid, as ParmDB requires; the value of a predicted cell with its centre outside all stored cells, logarithmic polynomials, and what "
     "remains of the parameter (or default) of a failed write are not specified.")

TECH = "deterministic simulation with seeded schedules and fault injection"


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=p["mechanism"]))) + "\n")
    m = dict(version=1, setup_cmd="python3 run.py setup",
             hooks=dict(guard="none", enable="no hooks in /repo are needed: the checks compile /repo's sources "
                        "with -fsanitize=thread instrumentation linked to the simulator's own runtime",
                        source_commits=[]),
             checks=[dict(property=p["id"], quick_cmd="python3 run.py check %s quick" % p["id"],
                          thorough_cmd="python3 run.py check %s thorough" % p["id"],
                          technique=p.get("technique", TECH), level=p["level"], level_note=p["note"])
                     for p in P if not p["na"]],
             not_applicable=[dict(property=p["id"], reason=p["na"]) for p in P if p["na"]])
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    for p in P:
        assert len(p["title"]) <= 80, p["id"]


main()
