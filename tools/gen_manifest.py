#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl (properties without an entry become not_applicable)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SML = "stateless model checking of the real code (controlled scheduler + C11 memory model)"
SEQ = "exhaustive enumeration of operation sequences on the real code against a reference model"
CHECKS = {
 "C01": (SML, "model_checking", "every interleaving of the listed thread scripts (2-4 threads, up to 3 operations each, within and beyond the capacity) under sequential consistency (unbounded for two threads), and with bounded preemptions and stale reads/spurious failures under a release/acquire memory model; larger scripts and load-buffering executions are not covered"),
 "C02": (SEQ, "model_checking", "every enqueue/dequeue/peek/new-consumer sequence up to the stated length for capacities 1-5 from several wrap offsets; longer histories rest on the small state of the ring"),
 "C03": (SEQ + "; " + SML, "model_checking", "element types recording construction and destruction, all short sequences, all interleavings of 2-3 producers including delays inside destructors, and weak-memory executions of the producers within bounds"),
 "C04": (SEQ, "exploration", "a real history of 2^32 enqueues, then every short operation sequence from 12 positions around each of seven edges (2^7 to 2^32); larger counters cannot be reached by running"),
 "C05": (SEQ, "model_checking", "every sequence of allocator calls, save points and readings to the stated depth over a small alphabet of sizes, a refusal possible at every request, and 2^32 calls of each kind; the system allocator is a stand-in that records the calls"),
 "C06": (SEQ, "model_checking", "every sequence of allocate/free/save/read to the stated depth for several capacities of the save point ring; sizes are taken from a small alphabet"),
 "C07": (SML, "model_checking", "every interleaving of the listed scripts (2-3 threads) under sequential consistency, and with bounded preemptions and stale reads under a release/acquire model; save points are taken by one thread at a time"),
 "C08": (SEQ, "model_checking", "every sequence of allocator calls to the stated depth over the listed sizes and alignments, refusals included, and a ladder of sizes and alignments up to 2^22 and beyond 32 bits, against a recording stand-in of the system allocator and against the real one"),
 "C09": ("exhaustive enumeration of the input grid on the real code against a reference model", "exploration", "a finite grid of sizes and uses, dense around every class boundary; points between grid points rest on the decision chain being piecewise constant"),
 "C10": ("exhaustive enumeration of the input grid on the real code against a reference model", "exploration", "a finite grid of sizes and uses, dense around every class boundary; points between grid points rest on the decision chain being piecewise constant"),
 "C11": ("exhaustive enumeration of all field combinations on the real code against a reference model", "exploration", "all combinations over an alphabet of values per field spanning 32 bits"),
 "C12": (SML + " over enumerated configurations", "model_checking", "all configurations over small domains; worker interleavings explored at the granularity of the user's callbacks and the runner's own synchronisation"),
 "C13": (SML + " over enumerated configurations", "model_checking", "all iterations x threads over small domains, plus huge counts up to and beyond element number 2^31; worker interleavings at the granularity of the user's callbacks"),
 "C14": (SML + " over enumerated configurations, under a virtual clock", "model_checking", "distinct costs per operation, pass and thread from small alphabets; interleavings at the granularity of the user's callbacks"),
 "C15": ("exhaustive enumeration of outcome histories on the real code under a virtual clock", "model_checking", "all histories of per-attempt outcomes up to the stated number of attempts, all limit x class pairs of single operations"),
 "C16": ("exhaustive enumeration of outcome histories on the real code under a virtual clock", "model_checking", "all histories up to the stated number of retries, all pairs of classes"),
 "C17": ("exhaustive enumeration of cost assignments on the real code under a virtual clock", "model_checking", "all assignments over the stated cost alphabet for one and two attempts"),
 "C18": ("exhaustive enumeration of stage combinations and future readiness on the real code", "model_checking", "all combinations of stages, all pending counts up to the stated bound, every order of giving the options, a single-threaded executor"),
 "C19": ("exhaustive enumeration of outcome histories on the real code under a virtual clock", "model_checking", "all histories up to the stated number of reattempts, all pairs of classes, all combinations of limits"),
 "C20": ("exhaustive fault enumeration (a panic at every user call) on the real code under a controlled scheduler", "fault_enumeration", "small configurations of the three runners; one panic per run; panics of several workers at once in selected cases"),
 "C21": ("exhaustive enumeration of figures, sizes, times and classes, the printed text being read back by an independent parser", "exploration", "finite alphabets of memory figures, times and sizes around every unit boundary; whole CRUD reports and everything tests print for every small configuration"),
 "C22": ("exhaustive enumeration of measurers' pending patterns, unit sequences and values on the real code against a reference model", "model_checking", "up to 4 measurers with every pending pattern up to the stated one (and 16 with one slow); every sequence of up to 5 (7) unit uses; a dense grid of values around every scale boundary"),
 "C23": ("exhaustive enumeration of the configuration space, each one compiled and observed under a virtual clock", "exploration", "all 2^7 feature sets (in thorough also on top of the defaults, and in release mode), one probing program each"),
}
LEVEL_OF = {}
NA = {}
hooks = json.load(open(f"{V}/tools/hooks.json")) if os.path.exists(f"{V}/tools/hooks.json") else None
ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
m = {"version": 1, "setup_cmd": "./run.sh build"}
if hooks: m["hooks"] = hooks
m["checks"] = [{"property": i, "quick_cmd": f"./run.sh check {i}", "thorough_cmd": f"./run.sh check {i} --tier thorough", "technique": CHECKS[i][0], "level": CHECKS[i][1], "level_note": CHECKS[i][2]} for i in ids if i in CHECKS]
m["not_applicable"] = [{"property": i, "reason": NA.get(i, "its checker is still being built")} for i in ids if i not in CHECKS]
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not")
