#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
RB = "src/metrics_allocator/ring_buffer.rs"
MA = "src/metrics_allocator/metrics_allocator.rs"
CO = "src/runners/common.rs"
CR = "src/runners/crud.rs"
ST = "src/runners/standard.rs"
BU = "src/api/builders/regular_async_builder.rs"
LL = "src/low_level_analysis/low_level_analysis.rs"
TA = "src/low_level_analysis/time_analysis.rs"
SA = "src/low_level_analysis/space_analysis.rs"
TI = "src/low_level_analysis/types/types_impl.rs"
FE = "src/features.rs"
ME = "src/utils/measurements/measurer.rs"
PM = "src/utils/measurements/presentable_measurements.rs"

def p(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    if hook: a["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Ring buffer: concurrent producers and consumers never lose, repeat or tear",
  "While no more than the ring's capacity is outstanding for a consumer, each element enqueued after the consumer was created is delivered exactly once across all threads sharing that consumer and once to every other consumer, complete and visible to the receiving thread, and a peek shows exactly the outstanding elements in queue order. Elements come out in the order they were published, so two elements enqueued one after the other by the same thread never swap. Every enqueue, dequeue and peek finishes without panicking, whatever the scheduling and whatever the memory model of the processor allows.",
  ["schedules"], "every interleaving (up to the stated preemption bound) of 2-4 threads doing 1-3 enqueue/dequeue/peek operations each, from empty and wrapped rings, with up to the stated number of stale reads and spurious compare-exchange failures allowed by the C11 memory model",
  "The only concurrent test runs free threads on one x86 schedule and checks a sum; it never sees a chosen interleaving, a stale read, or an element published before it is written.",
  [RB], [("slot reservation and in-order publication", RB+" RingBuffer::enqueue"), ("head advance by compare-exchange", RB+" RingBufferConsumer::dequeue"), ("two-slice snapshot", RB+" RingBufferConsumer::peek_all")],
  ["RingBuffer::enqueue", "RingBufferConsumer::dequeue", "RingBufferConsumer::peek_all"],
  state=[("reserved / published tails", "slots handed to producers / visible to consumers", RB), ("head", "next position of a consumer", RB)])

p("C02", "Ring buffer: every sequential history matches an unbounded log with a window",
  "In any sequence of operations, each consumer independently sees, first in first out, exactly the elements enqueued after it was created, and peeking shows all outstanding ones in order without consuming them. Once more elements than the capacity are outstanding for a consumer, every later dequeue and peek on that consumer reports the overflow error, for good, while other consumers and producers are unaffected. Exactly as many outstanding elements as the capacity is not an overflow.",
  ["histories"], "all operation sequences over {enqueue, new consumer, dequeue(c), peek(c)} up to the stated depth, for every small capacity and from every wrap position",
  "Tests follow four hand-written sequences with one consumer and one capacity; they never operate again on a consumer after its overflow, nor mix consumers of different ages.",
  [RB], [("overflow detection", RB+" dequeue/peek_all"), ("index arithmetic", RB+" modulo capacity")],
  ["RingBufferConsumer::dequeue", "RingBufferConsumer::peek_all", "RingBuffer::get_buffer_size"])

p("C03", "Ring buffer: stored elements are dropped at most once, and nothing else is",
  "Storing an element never destroys anything except the element it replaces after a full turn of the ring, and each element is destroyed at most once and never while it can still be read without an overflow. Memory that never held an element is never treated as one. This holds for element types that own resources and for types of any size, including zero-sized ones.",
  ["histories", "schedules"], "all enqueue/dequeue/peek sequences up to the stated depth and all interleavings of two producers, with elements that record their own construction and destruction, over rings whose fresh memory holds arbitrary bytes",
  "Tests only store plain integers, for which destroying garbage goes unnoticed.",
  [RB], [("slot overwrite", RB+" RingBuffer::enqueue"), ("uninitialised backing store", RB+" RingBuffer::new")],
  ["Drop of the element type"])

p("C04", "Ring buffer: unlimited number of elements over its life",
  "The ring keeps its delivery, ordering and overflow guarantees however many elements have already passed through it. There is no number of past enqueues after which operations hang, panic, lose elements or report a false overflow.",
  ["histories"], "one real history that crosses 2^32 enqueues, and all operation sequences up to the stated depth explored from states just before and after that point",
  "Tests enqueue some hundred thousand elements; the counters only misbehave after 2^32.",
  [RB], [("ever-growing position counters", RB+" reserved_tail/published_tail/head")],
  ["RingBuffer::enqueue", "RingBufferConsumer::dequeue"])

p("C05", "Allocator metrics account exactly for every allocation",
  "Between a save point and a later reading, the counts and bytes reported for plain allocations, zeroed allocations, deallocations and reallocations equal exactly what was successfully performed, and the current memory in use equals the bytes outstanding. Requests that the system refuses leave all figures unchanged. Taking or reading save points never changes these figures, and a printed reading shows the figures it holds.",
  ["histories", "fault_sequences"], "all sequences of allocate, allocate zeroed, reallocate (grow, shrink, same size) and free over a small alphabet of sizes, with a refusal injected at every request, interleaved with save points and readings, up to the stated depth",
  "Tests drive the private bookkeeping functions along one script, never a real or a refused allocation, nor reallocation.",
  [MA], [("per-operation counters", MA+" compute_*_metrics"), ("global allocator entry points", MA+" impl GlobalAlloc")],
  ["MetricsAllocator::delta_statistics", "MetricsAllocator::save_point"])

p("C06", "Allocator peak and low marks are exact per save point",
  "For each save point, the reported minimum and maximum memory in use are exactly the lowest and highest values the memory in use took from that save point until the reading, regardless of how many other save points were taken before, inside or after that window. When more save points followed than the fixed capacity can hold, the reading reports an error rather than figures, and it never reports one otherwise. Reading a save point any number of times neither disturbs it nor any other save point.",
  ["histories"], "all sequences of allocate, free, save point and reading of any live save point, up to the stated depth, for several small capacities",
  "The test follows one script of four save points and never exceeds the capacity or re-reads.",
  [MA, RB], [("watermark reset and hand-over", MA+" save_point"), ("fold over later save points", MA+" delta_statistics"), ("overflow error", RB+" peek_all")],
  ["MetricsAllocator::delta_statistics"])

p("C07", "Allocator metrics stay correct when threads allocate concurrently",
  "With several threads allocating, reallocating and freeing at once (save points being taken by one thread at a time, and not while another one is reading), once they finish all counts, byte totals and the memory in use equal the sums of what each performed. Any reading taken while they run or afterwards satisfies minimum <= memory in use at the save point, at the reading and at every reading observed in between <= maximum, and never panics. Memory in use never loses or duplicates an update.",
  ["schedules"], "every interleaving, up to the stated preemption bound, of 2-3 threads doing 1-3 memory operations with a thread taking and reading (nested) save points",
  "No test allocates concurrently against a save point under a controlled schedule.",
  [MA], [("atomic counters", MA+" compute_*_metrics"), ("watermark compare-exchange loops", MA+" compute_min_and_max_used_memories"), ("non-atomic watermark reset", MA+" save_point")],
  ["MetricsAllocator::delta_statistics"])

p("C08", "The measuring allocator is transparent to the program",
  "Memory obtained through the measuring allocator behaves as memory from the system allocator: aligned as asked, at least the requested size, disjoint from other live blocks, zeroed when asked, and keeping its contents across reallocation up to the smaller size. A refused request returns null, and a refused reallocation leaves the original block intact. Every request reaches the system allocator exactly once with the size and alignment given.",
  ["histories", "inputs"], "all sequences of allocator calls up to the stated depth over sizes and alignments spanning the small and large classes, with refusals injected",
  "Tests exercise it only implicitly, as the global allocator of ordinary code.",
  [MA], [("delegation to the system allocator", MA+" impl GlobalAlloc")],
  ["GlobalAlloc for MetricsAllocator"])

p("C09", "Classification of regular algorithms follows the published complexity scale",
  "Given resource use on two passes of different sizes, the reported class is the first on the published scale whose reference growth, within the configured tolerance, matches or exceeds the observed growth: exact classes cover the tolerance band around their reference curve and the in-between classes the gap below the next one. Increasing the second pass's use never yields a better class, and no resource use at all on both passes counts as constant. Results do not depend on the unit of the resource for any class up to O(n^4).",
  ["inputs"], "every point of an exhaustive grid of sizes and resource uses, including both sides of every class boundary for every size pair",
  "Tests sweep one size pair and a handful of theoretical points.",
  [LL, FE], [("decision chain", LL+" analyse_complexity"), ("tolerance", FE+" PERCENT_TOLERANCE")],
  ["analyse_complexity"])

p("C10", "Classification of set-resizing algorithms follows the published scale",
  "Given the resource use of two equal passes of additions or removals, the reported class is O(1) when the second pass uses the same within tolerance, better than O(1) when it uses less, O(log n) and O(n) around their reference growth, and the in-between classes for the gaps. Increasing the second pass's use never yields a better class. No resource use at all on both passes counts as O(1).",
  ["inputs"], "every point of an exhaustive grid of sizes and resource uses, including both sides of every class boundary for every size",
  "Tests sweep one size with integers and a handful of theoretical points.",
  [LL], [("decision chain", LL+" analyse_set_resizing_iterator_complexity")],
  ["analyse_set_resizing_iterator_complexity"])

p("C11", "Time and space analyses feed the right quantities into the classification",
  "Time analyses compare the two passes' elapsed times, and space analyses compare each pass's peak memory above what was in use when that pass began, ignoring what is left afterwards and the low mark. Sizes are taken from the passes in order for regular algorithms, smaller to larger for constant-set algorithms whichever way they are given, and from the elements added or removed per pass for set-resizing ones. The result depends on nothing else in the measurements.",
  ["inputs"], "all combinations, over a small value alphabet, of every field of the pass descriptions and measurements, against the classification called directly",
  "Tests vary one field at a time around a few theoretical cases, always with nothing in use before the pass.",
  [TA, SA], [("time entry points", TA), ("space entry points", SA)],
  ["analyse_time_complexity*", "analyse_space_complexity*"])

p("C12", "CRUD analysis runs its phases in the prescribed order",
  "With warm-up requested, the enabled operations first run create, read, update, delete over the warm-up share, then reset is called exactly once with the number of elements created; without warm-up reset is not called. Then create, read and update run over the first pass's elements, then over the second pass's, and finally delete runs over the second pass's elements and then the first's, each operation finishing before the next starts. An operation with zero iterations or zero threads is never called and has no analysis, and is the only kind without one.",
  ["configurations", "schedules"], "all combinations of warm-up share, per-operation iterations and threads over small domains, under every explored interleaving of the worker threads",
  "Tests cover four fixed on/off combinations and only look at words of the report.",
  [CR], [("pass sequencing macros", CR+" internal_analyse_crud_algorithms"), ("join of worker threads", CO+" run_iterator_pass")],
  ["calls received by the user's closures", "analyse_crud_algorithms"])

p("C13", "CRUD passes visit each element exactly once, in one contiguous run per thread",
  "In CRUD analyses and tests alike, for every operation and pass, each element number of that pass is handed to the operation exactly once, for any number of iterations and threads, including counts that do not divide evenly and warm-up shares. Each worker thread receives one contiguous block, walked monotonically, and deletion walks in the opposite direction to creation. When the iterations divide evenly, all requested threads take part with equal shares.",
  ["configurations", "schedules"], "all iterations 0..=N x threads 0..=T x operation x pass x warm-up share over small domains, under every explored interleaving of the workers",
  "The test only uses thread counts that divide 1000 and a set that hides repeated visits.",
  [CO, CR], [("chunking of the range", CO+" run_iterator_pass"), ("range calculation", CR+" calc_*_range")],
  ["calls received by the user's closures"])

p("C14", "CRUD measurements belong to the right operation and pass, undistorted",
  "The time reported for an operation and pass is the average over its worker threads of the time each spent running it, and its memory figures are those in use before and after, and the extremes, while exactly that operation and pass ran. Each analysis carries its own operation's two passes in first/second order, also for deletion (whose second pass runs first), with the set sizes and repetitions configured. No time or memory of a warm-up, reset or other operation leaks into it.",
  ["configurations", "schedules"], "all assignments of distinct costs to (operation, pass, thread, warm-up, reset) over small domains under a virtual clock and every explored interleaving of the workers",
  "Tests measure real time, which cannot tell a mix-up from noise.",
  [CO, CR], [("per-thread timing and averaging", CO+" run_iterator_pass"), ("passes results arrays", CR+" run_constant_set_pass!/run_set_resizing_pass!")],
  ["analyse_crud_algorithms results"])

p("C15", "CRUD tests pass exactly when some allowed attempt meets every limit",
  "A CRUD test passes exactly when, within the allowed number of attempts (at least one), an attempt finds every requested operation within its maximum time and space class, with all earlier attempts failing on time only. A space excess of an operation, when nothing exceeded its time limit, fails the test at once without retry; a time excess is retried after a full reset until attempts run out, and then the test fails naming the operation, the limit and the class observed, the number of attempts made, and how often each operation had failed in earlier ones. Every attempt, retries included, exercises every requested operation up to the one whose excess ends it.",
  ["histories", "configurations"], "all histories of per-attempt outcomes (within limits, time excess or space excess of each operation) up to the stated number of attempts, with all limits x observed classes for a single operation",
  "No test reaches a retry or a rejection deterministically, since timings are real.",
  [CR], [("retry loop", CR+" test_crud_algorithms"), ("limit comparison", CR+" yield_analysis_or_return_with_error!"), ("iteration adaptation", CR+" adapt")],
  ["test_crud_algorithms returns or panics"])

p("C16", "Regular tests pass exactly when some allowed attempt meets both limits",
  "A regular algorithm test passes exactly when, within one attempt plus the allowed retries, an attempt is within both maximum classes with all earlier attempts failing on time only. A space excess fails at once without retry, a time excess is retried until the retries run out, and then the test fails. A failure tells the limit exceeded and the class observed. The comparison accepts a class equal to or better than the maximum and rejects any worse one, for every pair of classes.",
  ["histories", "configurations"], "all histories of attempt outcomes up to the stated number of retries, and all pairs of (maximum, observed) classes for time and for space",
  "Tests have one passing run per function; retries sleep five real seconds so none is ever exercised.",
  [ST], [("retry policy", ST+" test_algorithm"), ("limit comparison", ST+" analyse_algorithm")],
  ["test_algorithm returns or panics"])

p("C17", "Regular tests run reset, pass one, pass two once each and measure each alone",
  "Each attempt calls reset, then the first algorithm, then the second, exactly once each and in that order, and a decided attempt is followed by no further calls. The classes are computed from the time and peak memory of the first and second algorithm alone, with their own set sizes, whatever reset costs or leaves allocated. What one attempt measured never influences the next.",
  ["histories", "inputs"], "all assignments of time and memory costs from a small alphabet to (reset, pass one, pass two) over one and two attempts, under a virtual clock",
  "Tests use real time and memory, where such mix-ups disappear in the tolerance.",
  [ST, CO], [("attempt body", ST+" analyse_algorithm"), ("pass measurement", CO+" run_sync_pass")],
  ["test_algorithm", "calls received by the user's closures"])

p("C18", "Async analyser runs its optional stages in order and threads the data through",
  "For every combination of the optional stages, an attempt runs reset, warm-up, reset again, pass one, its assertion, reset, pass two, its assertion, each given stage exactly once at its place and awaited to completion, and omitted stages are skipped. Pass one receives the data of the latest reset or warm-up that ran, the reset between passes receives the first pass's data, pass two receives that reset's data or else the first pass's, and each assertion sees the data its own pass produced. On a retry the first reset receives the data the previous attempt ended with. The order in which the options were given makes no difference, and an option given again replaces the earlier one.",
  ["configurations", "schedules"], "all 2^4 combinations of optional stages x number of attempts x number of times each stage's future is pending before completing",
  "Tests run one full and one minimal combination, and mostly on a separate debugging path rather than the analysing one.",
  [BU, CO], [("stage sequencing", BU+" raw_analyse_algorithm"), ("awaiting a stage", CO+" run_async_pass")],
  ["RegularAsyncAnalyzerBuilder::test_algorithm", "data received by the user's closures"])

p("C19", "Async tests pass exactly when some allowed attempt meets the limits set",
  "An async test passes exactly when, within one attempt plus the allowed reattempts, an attempt is within the maximum classes that were set, with all earlier attempts failing on time only; a limit that was not set never rejects. A space excess fails at once without retry, a time excess is retried until the reattempts run out and then fails; a failure tells the limit exceeded and the class observed. Only the time and peak memory of the two passes count, including time spent suspended inside them, and not resets, warm-up, or assertions.",
  ["histories", "configurations"], "all histories of attempt outcomes up to the stated number of reattempts x presence of each limit x presence of reattempts, and all (maximum, observed) pairs, under a virtual clock",
  "Tests have one retrying scenario with real sleeps and no rejection.",
  [BU, CO], [("retry policy", BU+" test_algorithm"), ("limit comparison", BU+" raw_analyse_algorithm"), ("pass measurement", CO+" run_async_pass")],
  ["RegularAsyncAnalyzerBuilder::test_algorithm"])

p("C20", "A panic in user code always fails the test and stops the run",
  "If any user-supplied function or assertion panics, at any call, on any worker thread, in any stage or attempt, the test or analysis call panics too, after all its worker threads have ended. No later stage, operation or retry runs afterwards. It never hangs and never reports success.",
  ["fault_sequences", "schedules"], "a panic injected at every single call of every user-supplied function of the three runners, over small configurations and explored interleavings of the worker threads",
  "No test lets a user function panic during a run.",
  [CO, CR, ST, BU], [("joining workers and re-raising", CO+" run_iterator_pass"), ("no catching elsewhere", ST+", "+BU)],
  ["test_algorithm, test_crud_algorithms, analyse_crud_algorithms, RegularAsyncAnalyzerBuilder::test_algorithm"])

p("C21", "Reports state the measured figures and verdicts faithfully and never panic",
  "Printing any measurement or analysis with at least one element per pass never panics, and shows the name, the element counts, both passes' times and per-element times, and the memory figures in their right places with values correct to the displayed precision and unit. A pass' memory figure is its largest departure from what was in use when it began. Memory signs follow whether memory remained allocated or was freed, auxiliary space is the memory used and given back in both passes, and the time and space verdict lines state the respective classes. Unavailable memory figures are printed, too, without failing the run. Every attempt of a regular or async test prints its stages' figures, its own analysis and any limit exceeded, and a CRUD analysis prints the very report it returns.",
  ["inputs"], "all combinations of field values from an alphabet of memory figures (zero, small, unit boundaries, large, unavailable), times and element counts, for the three kinds of measurements and all classes",
  "The serialization test prints the class names and asserts nothing; report tests look for a few words.",
  [TI], [("Display implementations", TI), ("derived figures", TI+" used_auxiliary_space, used_memory_delta, fmt_over_n")],
  ["Display of analyses and measurements", "report returned by analyse_crud_algorithms", "standard output of the runs"])

p("C22", "Custom measurements are taken in order and presented in the right unit",
  "Custom measurers take their before-readings in reverse order of declaration and their after-readings in order of declaration, each receiving its own before-reading exactly once, and results carry their own name, class and description. A presented measurement equals the value divided by the largest scale not exceeding it, to the displayed precision, with that scale's unit, for durations, bytes, bytes per second and custom units. Presenting one custom unit never affects values of another unit presented before or after.",
  ["inputs", "histories"], "all numbers of measurers up to the stated bound with pending futures, and all values around every scale boundary x all orders of custom units up to the stated length",
  "Tests have one measurer and a few values per unit, and never mix custom units.",
  [ME, PM], [("ordering", ME+" measure_all_before_event/measure_all_after_event"), ("auto scaling", PM)],
  ["Display of PresentableMeasurement"], hook="crate-private module `utils` re-exported under a cfg flag")

p("C23", "Every combination of crate features builds and selects what it says",
  "The crate builds under every combination of its features and each choice has its documented effect: no_report silences reports, otherwise report_stderr sends them to standard error only and report_stdout to standard output; tolerance is 25% when asked for, else 10%; no_allocator_metrics leaves the global allocator alone, and otherwise allocations of the program are measured. The async interface exists exactly when async is enabled. No other feature changes the verdicts.",
  ["configurations"], "all 2^7 combinations of the seven features (times default features on/off)",
  "Tests are only ever built with the default features.",
  [FE, "Cargo.toml", "src/lib.rs"], [("feature selection", FE)],
  ["compilation", "stdout/stderr of a run", "observed tolerance bands", "ALLOC statistics"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
