#!/usr/bin/env python3
"""Writes tools/info.json and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REAL = ["cppsas7bdat library: every source of /repo/src and header of /repo/include, compiled from the working tree with ASan and UBSan (bounds, return, vptr)"]
STUB = ["file contents (generated images from an independent writer, corpus files, damaged or cut variants)", "allocator failure decisions (operator new)", "read/readv/write/writev/open outcomes of governed files"]
ASSUME = ["the simulator samples: a clean run is evidence over the runs counted here, not a proof", "the independent SAS7BDAT writer, decoder and value semantics in sim/sas.cpp are the trusted oracle", "interleavings are decided at instrumented control-flow edges of the library's own translation units and at callbacks; the memory model is sequentially consistent"]
gen = "Each episode is one generated file (layout, page mix, compression, endianness, word size, column kinds and values drawn from the seed; some repository corpus files) in one configuration. "
R = {
 "C01": dict(rule=gen + "The whole file is read through one of the delivery paths (own source by value or reference, eager or lazy end, ifstream with short and interrupted reads) and every value of every row is compared with the reference. Non-trivial: a distinct combination of file parameters, configuration and calls.",
   note="Seeded search over file layouts, values and delivery faults; every value compared with an independent decoder. Known finding rdc-tail is recognised by its exact wrong value."),
 "C02": dict(rule=gen + "A random history of read_row/read_rows/read_all/skip/read_row_no_sink/end_of_data/current_row_index/move is compared call by call with a cursor model.",
   note="Call-by-call refinement against a small cursor model over random histories."),
 "C03": dict(rule=gen + "Metadata-heavy files (several text blocks, many columns, spread over pages); properties and column descriptions are compared with the reference at construction, given to the sink, and after every later call, failure or move.",
   note="Properties compared with the reference decoder at every step of a random history with faults."),
 "C04": dict(rule=gen + "Include/Exclude/IncludeExclude/user filters (by value and reference) with present, absent and near-miss names; columns offered to the filter, kept columns, their order and every value are compared with the model.",
   note="Seeded search over filters x files x histories."),
 "C05": dict(rule=gen + "The file ends early at a random, boundary or field-aligned byte; every row on complete pages must be delivered right, nothing else, and construction must fail if metadata is missing.",
   note="Crash point sampled over the whole file; oracle from the independent page map."),
 "C06": dict(rule=gen + "The source fails at a random read or eof call (false, exception, partial fill, sticky or once) or the file gives EIO; the failure must reach the caller before any end of data and rows delivered stay right.",
   note="Fault sequences sampled over read calls and kinds."),
 "C07": dict(rule=gen + "The same call history over an eager source, a lazy source and an ifstream whose reads are short or interrupted; all must behave as the same model, and the recorded histories must be equal.",
   note="Differential over delivery schedules plus the cursor model."),
 "C08": dict(rule=gen + "Bytes are damaged (fields found by the writer's landmarks, header, compressed rows, noise stretches, arbitrary bytes, raw noise files) and cut; under ASan/UBSan, allocation caps and a step budget the library must stay in bounds, finish and raise only std exceptions; rows before the damage stay right.",
   note="Memory errors, hangs (library steps counted), unbounded allocation and wrong earlier rows are detected."),
 "C09": dict(rule=gen + "The n-th library allocation fails, once or for good, for n swept over a range in each episode, during construction or later calls; leaks are detected by repeating the episode. Non-trivial: one per (episode, n).",
   note="Allocation failure points enumerated per episode (up to 120 quick, 400 thorough), episodes sampled."),
 "C10": dict(rule=gen + "Sink, filter and source callbacks throw (own type, std::exception type, int) at chosen calls; the same exception must reach the caller, earlier rows count, and reading goes on at the right row.",
   note="Exception points sampled; the exception's identity is compared."),
 "C11": dict(rule=gen + "2-4 simulated threads each drive their own reader on the same or different data under a seeded scheduler that preempts at library control-flow edges and callbacks; or one thread interleaves several readers and checks that an earlier row stays valid until the next call of its reader; kept copies of columns and properties are used meanwhile.",
   note="Seeded preemption at every library edge; not a weak-memory exploration."),
 "C12": dict(rule=gen + "Random histories of construct/move/assign/swap/destroy/default-construct over several readers with counted sources, sinks and filters; kept column copies outlive readers; every object is destroyed exactly once, references are not copied, nothing is used after destruction and nothing leaks.",
   note="Lifecycle histories sampled under ASan with object counting and leak detection by repetition."),
 "C13": dict(rule=gen + "An intact, cut or damaged file is read twice: once in fresh state, once after other files were read and with allocations and stack filled with other bytes; every observation is hashed and compared.",
   note="Same bytes and calls in two differently dirtied worlds; observation histories compared."),
 "C14": dict(rule=gen + "The file is read into the csv stream, csv file or print sink (moved 0-3 times, partial reads, skips, filters); the text is parsed back against the model; then the device fails after N bytes, refuses once, throws, or writes are short or interrupted: the output must be a prefix and the failure visible.",
   real=["csv and print sinks", "std::ofstream on a governed descriptor"], note="Output text parsed against the model; failing device position sampled."),
 "C15": dict(rule=gen + "The command line tool's main runs in a process of its own on 1-3 inputs (fine, missing, directory, cut, damaged) with simulated read errors, short and interrupted reads and writes, full, closed or limited outputs; exit status, created files, output text and the inputs' bytes are checked.",
   real=["apps/cppsas7bdat-ci.cpp in a forked process", "docopt"], note="Process-level runs with injected I/O faults; scratch directory only."),
 "C16": dict(rule=gen + "One to three readers of the Python package (by-row, chunk, whole-data, ready-made and __slots__ sinks, shared sinks, column filters) run a random history of read_row/read_rows/read_all/skip/end_of_data/properties/flush/df/read_sas calls, drops, garbage collections, nested calls from callbacks, callback exceptions (Exception and BaseException), failing allocations of the extension (the n-th of a call, once or for good) and failing, short or interrupted reads; every callback, value, data frame, return value and exception is judged by a model fed from the independent decoder.",
   real=["python/pycppsas7bdat (extension and modules) built from the working tree with ASan and UBSan, in CPython with malloc-backed objects"], stub=["pandas (a minimal DataFrame)"], note="Histories of the real extension module in a sanitized interpreter, judged by an independent model; memory errors, lost or repeated rows, swallowed or pending exceptions and leaked sinks are detected."),
 "C17": dict(rule=gen + "One to three readers of the R package (environment sinks and the three R6 sinks, shared sinks, column filters) run a random history of calls, drops, forced garbage collections (also at every n-th R allocation: gctorture), nested calls from callbacks, errors in callbacks, failing allocations of the extension and failing, short or interrupted reads; every callback, index, value, data frame, return value and error is judged by a model fed from the independent decoder.",
   real=["R/CPPSAS7BDAT (shared library and R code) built from the working tree with ASan and UBSan, in R"], note="Histories of the real R package in a sanitized process, judged by an independent model; memory errors, collected or overwritten values, lost or repeated rows and swallowed errors are detected."),
}
T = {"C01": "seeded simulation of file delivery against an independent decoder", "C02": "seeded call histories against a cursor model", "C03": "seeded histories with faults, properties re-checked each step", "C04": "seeded filters and histories against a model", "C05": "crash-point simulation (truncation) against a page model", "C06": "source fault injection over seeded histories", "C07": "seeded delivery schedules, differential and model", "C08": "stored-byte corruption simulation under sanitizers with step budget", "C09": "allocation failure injection swept in simulation", "C10": "callback exception injection over seeded histories", "C11": "deterministic scheduler with seeded preemption", "C12": "seeded lifecycle histories with object accounting", "C13": "replay in differently dirtied worlds", "C14": "output device fault simulation with text model", "C15": "process-level simulation with I/O faults", "C16": "seeded histories of the Python package with callback, collection and read faults against a model", "C17": "seeded histories of the R package with callback, collection and read faults against a model"}
EXTRA = os.path.join(V, "tools", "extra_info.json")
cmds = {k: "python3 tools/check.py " + k for k in R}
if os.path.exists(EXTRA):
    x = json.load(open(EXTRA)); R.update(x["props"]); T.update(x["technique"]); cmds.update(x["cmds"])
R["C20"] = dict(rule=gen + "Files of hundreds of small pages (and some of large ones, and the repository's larger files) are read whole, in chunks, row by row, by skipping, and on after many sink exceptions, also into the csv and print sinks. During every call the bytes the library holds, the bytes it allocates, the control-flow edges it executes and how far it has read the source are measured and compared with bounds computed from the pages and rows the call covers. The rows themselves are compared with the model as in C01.",
   note="Memory, work and read-ahead metered in every call of seeded histories; bounds are about eight times what the code needs, so only growth with the file is refused.")
T["C20"] = "seeded histories over many-page files with memory, work and read-ahead metered against bounds"
cmds["C20"] = "python3 tools/check.py C20"
NA = [("C18", "pure table lookup of one byte: no schedule, clock, fault, I/O or history for a simulator to control"), ("C19", "pure function of one value: no schedule, clock, fault, I/O or history for a simulator to control")]
NA += [(p, "check under construction") for p in ("C16", "C17") if p not in R]
json.dump({"real": REAL, "stub": STUB, "assumptions": ASSUME, "props": R}, open(os.path.join(V, "tools", "info.json"), "w"), indent=1)
json.dump({"version": 1, "setup_cmd": "python3 tools/check.py build",
  "checks": [{"property": p, "quick_cmd": cmds[p], "thorough_cmd": cmds[p], "technique": "deterministic simulation: " + T[p], "level": R[p].get("level", "exploration"), "level_note": R[p]["note"]} for p in sorted(R)],
  "not_applicable": [{"property": p, "reason": r} for p, r in NA],
  "notes": "No hooks were needed in /repo: the library's own seams (source, sink and filter templates), operator new, read/write interposition and compiler edge instrumentation put every source of nondeterminism behind the simulator."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
