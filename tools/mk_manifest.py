#!/usr/bin/env python3
"""Writes MANIFEST.json and rules.json (both committed) from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GEN = "Every case is a pure function of (VERIF_SEED, property, case number): "
T = {
 "C01": ("AddressSanitizer, MemorySanitizer and Miri over hostile messages and iterator call scripts",
  "hostile and valid messages (26 mutations of 14 layouts for 27 point types), read by every conversion and walked by random iterator scripts, also through iterators that user code created from safe API only. Non-trivial: a distinct (message, reader, script) that the code accepted or rejected while a memory monitor watched.",
  "No memory error, use of uninitialised memory or undefined behaviour was reported by ASan, MSan, Miri (64 and 32 bit) or std's debug assertions on the listed executions. Trusts the sanitizers; red zones miss non-adjacent overflows, which Miri's share of the workload covers at smaller size."),
 "C02": ("monitored executions: panic recorder, allocation monitor and yield counter over hostile messages",
  "hostile messages, hand-made extreme headers and valid ones, read by every conversion in debug and release builds. Non-trivial: a distinct (message, point type, reader) whose outcome, largest allocation and number of yielded points were recorded.",
  "No recorded call panicked, aborted, exceeded the allocation bound or yielded more points than claimed. The bound's constants are stated in DESIGN.md."),
 "C03": ("round-trip monitor comparing every member bit for bit across all writer/reader pairs",
  "random points (all bit patterns, NaNs included) of 27 point types, clouds of 0 to 70000 points, every writer with every reader. Non-trivial: a distinct (type, values, pair).",
  "Every written cloud was read back bit-identical in debug, release and no-rayon builds."),
 "C04": ("reference monitor that decodes written messages independently of the crate",
  "random points of all point types through every writer; an independent model checks header, strides, field list, bytes and flags. Non-trivial: a distinct produced message.",
  "Every produced message satisfied the ROS PointCloud2 rules of the reference model."),
 "C05": ("differential monitor: every reader against an independent decoder, both byte orders",
  "valid messages in 14 layout kinds (permuted, gapped, overlapping, odd strides, extra members, huge strides) in both byte orders. Non-trivial: a distinct valid message whose decoded points were compared.",
  "Every reader returned exactly the points of the reference decoder."),
 "C06": ("differential monitor: readers and writers against each other",
  "valid messages and point clouds through all readers and writers, outcomes compared pairwise. Non-trivial: a distinct cloud or message for which at least two conversions were compared.",
  "All conversions of the same input agreed in outcome and values."),
 "C07": ("oracle monitor: acceptance and rejection against an independent validity verdict",
  "every mutation of valid messages (missing, duplicate, renamed, retyped, moved fields; lengths and strides off by one; wrap-around products) judged by an independent wide-arithmetic verdict. Non-trivial: a distinct message that breaks at least one rule.",
  "Every invalid message was rejected with the documented error and every valid one accepted."),
 "C08": ("trace monitor: iterator call scripts against a double-ended queue model",
  "random call sequences (front, back, nth, nth_back, len, size_hint, count, last, rev, fold, ...) on clouds of 0 to 5000 points against a VecDeque model, size hints checked after every call. Non-trivial: a distinct (cloud, script).",
  "Every observed trace was a trace of the model."),
 "C09": ("trace monitor: recursive producer splits and rayon adaptor chains against the sequence model",
  "random split trees of the producer and of partly consumed iterators, and rayon adaptor chains on pools of 1 to 8 threads, against the sequential sequence. Non-trivial: a distinct (cloud, split tree or adaptor chain).",
  "All observed partitions were exact and in order."),
 "C10": ("ThreadSanitizer and Miri (randomised schedules) plus schedule-independence monitor",
  "parallel reads and writes on pools of different sizes and concurrent conversions of cloned messages, with randomised yields. Non-trivial: a distinct (cloud, workload) compared with its sequential result; schedules are counted from the observed split and thread patterns.",
  "No race was reported by ThreadSanitizer or Miri and no result depended on threads in the observed schedules."),
 "C11": ("cross-host differential monitor: native, Miri big-endian (s390x) and Miri 32-bit (i686) executions",
  "messages and their byte-swapped twins natively; the same cases are executed on an emulated big-endian and a 32-bit host and the recorded digests are compared. Non-trivial: a distinct case with decoded and written values.",
  "Twins decoded equal and all hosts produced the same digests for the listed cases. Trusts Miri's emulation of foreign hosts."),
 "C12": ("MemorySanitizer, Miri and memory-poisoning monitors over written messages",
  "points of padded types whose padding and whose process memory hold poison, written twice with different poison; messages compared and checked for initialisation. Non-trivial: a distinct (points, writer).",
  "Every byte observed was initialised and independent of the poison."),
 "C13": ("monitored executions of freshly generated derived structs, compile-fail probes",
  "each run generates new structs (fields, order, representation, renames, attributes), derives them with the real macro, compares the layout with the compiler's and round-trips them; unsupported structs must not compile. Non-trivial: a distinct generated struct and message.",
  "Every generated struct was described correctly and every unsupported one rejected by the compiler."),
 "C14": ("layout, schema and cross-type monitors over all predefined types",
  "all predefined point types, all writer/reader type pairs with random values. Non-trivial: a distinct (writer type, reader type, values).",
  "Layouts, names and datatypes matched the ROS/PCL schema and each pair exchanged its common members."),
 "C15": ("conversion monitor against the real ROS 2 interface crate and stand-ins of r2r and rosrust messages",
  "random message values, valid or not, converted in both directions; every member compared and the data pointer and capacity observed. Non-trivial: a distinct message value.",
  "No member changed and no data buffer was copied. r2r and rosrust are represented by stand-in message types with the members of the real ones, because those crates need a ROS installation."),
 "C16": ("exhaustive-block monitor of packed colours against integer arithmetic",
  "blocks of 65536 consecutive packed values (all 2^32 in the thorough tier) and random operation sequences, single colours through every conversion. Non-trivial: one block of values together with its operation sequence.",
  "Constructors, accessors, equality, formatting and message transport agreed with the packing for the listed values, also on an emulated big-endian host."),
 "C17": ("oracle monitor of builder call sequences, lazily mapped buffers above 4 GiB",
  "random builder call sequences with buffers up to 12 GiB (virtual zero pages), outcome compared with the documented rules. Non-trivial: a distinct call sequence.",
  "Every builder outcome was the documented one."),
 "C18": ("round-trip monitor over JSON, bincode and CBOR",
  "messages, message parts and all predefined points with arbitrary bit patterns through three formats (text for values it can represent). Non-trivial: a distinct (value, format).",
  "Every value was restored bit for bit."),
 "C19": ("life-cycle ledger of instrumented points with injected panics",
  "owning points that record construction, conversion and drop in a ledger; scenarios with early exit, half-used iterators and panics injected at each position, sequential and parallel. Non-trivial: a distinct (scenario, size, injection position).",
  "Every ledger balanced: one conversion, one drop, no early conversion. ASan and Miri watched a share."),
 "C20": ("exhaustive and block-wise monitor of scalar codecs and datatype codes",
  "all 8 and 16 bit patterns, random blocks of 32 and 64 bit patterns (all 32 bit patterns in the thorough tier), all 256 codes, random and near-miss type names. Non-trivial: one block of patterns.",
  "All observed encodings, decodings and codes were those of the ROS definition, also on an emulated big-endian host."),
 "C21": ("limit monitor with clouds at and beyond 2^32 bytes and points, allocation monitor",
  "clouds whose length or byte size lies at or beyond the 32-bit limits, through every writer that can reach them, plus random small ones; outcome, panic and allocations recorded. Non-trivial: a distinct (type, length, writer).",
  "Every cloud that does not fit was rejected without panic and (from vectors) without a cloud-sized allocation."),
 "C22": ("member monitor over constructors and accessors",
  "random bit patterns through every constructor and accessor, nalgebra conversions in both precisions. Non-trivial: a distinct argument tuple.",
  "Every member and accessor held the expected value."),
 "C23": ("self-checking workload executed on a target without a standard library, digests compared with a twin that has one",
  "a program of core and alloc only (own entry point and allocator, x86_64-unknown-none) converts random clouds of predefined, hand-written and derived points, foreign and hostile messages through all writers and readers, and checks the outcomes itself; a twin with the standard library does the same. Non-trivial: a distinct case with its digest in both programs.",
  "The crate with no features, derive and nalgebra built without std, every self-check held, no allocation leaked and both programs had the same digests. The target without std is x86_64 run on this machine; other bare-metal architectures are not executed."),
 "C24": ("history-independence monitor: the same conversions in shuffled orders, threads, nestings and in a second process with opposite order",
  "sets of 3 to 8 conversions (valid and hostile messages, related point types), executed in order, shuffled, on new and pool threads, with other buffers, between steps of live iterators, inside of sources, parallel closures and user conversions; outcomes compared with the first execution and the reference model, and per-case digests with a process that ran the cases in opposite order. Non-trivial: a distinct set of conversions with its outcomes.",
  "Every repetition had the outcome of the first execution and of the process with the opposite history."),
 "C25": ("oracle monitor: single-fault inputs against the documented error and its text",
  "valid messages with exactly one fault (missing or renamed members, undefined codes, other datatypes, wrong lengths, fields outside of the stride) read by every conversion, builder inputs with one fault, sizes beyond 32 bit. Non-trivial: a distinct faulty input whose error variant, payload and text were checked.",
  "Every observed error had the variant, payload and text of its only fault."),
}
def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
    checks, rules = [], {}
    for p in props:
        need = {"C13": "gen_derive.py", "C15": "interop_check.py", "C23": "nostd_check.py"}.get(p)
        if p not in T or need and not os.path.exists(os.path.join(V, "tools", need)):
            continue
        tech, rule, note = T[p]
        rules[p] = GEN + rule
        checks.append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "python3 check.py " + p,
                       "evidence_file": "evidence/%s.json" % p, "technique": "runtime monitoring: " + tech, "level": "exploration",
                       "level_note": note + " Holds for the executions counted in the evidence, not beyond."})
    m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks,
         "hooks": {"guard": "none", "enable": "nothing to enable: everything is observed through the public API", "source_commits": []},
         "not_applicable": [],
         "notes": "See DESIGN.md. Known findings and repaired defects: known_findings.txt."}
    for n, d in (("MANIFEST.json", m), ("rules.json", rules)):
        with open(os.path.join(V, n), "w") as f:
            json.dump(d, f, indent=1)
            f.write("\n")
main()
