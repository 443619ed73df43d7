#!/usr/bin/env python3
"""Writes checks.json (what each check reports about itself) and MANIFEST.json."""
import json, os
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
LIB="all of src/*.c (unmodified, compiled from /repo's working tree with clang and AddressSanitizer) and the static GSL"
STUB="allocator, open/read/write/close/fstat/ftruncate/mmap/munmap/msync (simulated heap, files and streams of sim/seam.cpp); "
PROG="One case is one program of public API calls generated from the seed, each call chosen from what the library answered to the earlier ones; "
ST="distinct hashes of (operation, result, kind and model state of the objects involved, fault hit) reached"
C={}
def c(id,level,technique,rule,note,measure=ST,real=LIB,stub=STUB,assumptions=(),**kw):
    C[id]=dict(level=level,technique=technique,rule=rule,note=note,measure=measure,real=real,stub=stub,assumptions=list(assumptions),**kw)
c("C01","exploration","deterministic simulation: simulated descriptors and files, seeded splits, EINTR and EAGAIN",
 PROG+"objects of every type are serialized and deserialized through memory, simulated files, blocking and non-blocking descriptors whose every read and write is cut, interrupted or refused with would-block as the seed says, other calls running between the suspensions. The restored object's whole public content is compared with the original's. A case counts as distinct by the states it reached; a state is a transfer or construction step.",
 "Seeded search; a clean run is evidence over the sampled graphs and transfer schedules. The content comparison trusts the public getters, which C06, C07, C09, C10, C11, C13 and C15 check against models.",
 assumptions=["bindings whose space was extended after they were made are not serialized"])
c("C02","exploration","deterministic simulation: crash and restore at seeded points, comparison with an uninterrupted twin",
 PROG+"one tuner (all six kinds) is asked, told and queried by simulated workers; at seeded points it is checkpointed through a simulated file or descriptor (which may fail), and at others the process image is dropped and everything is rebuilt from the last completed checkpoint. The same program without the lost operations and crashes is run in a second process image and every answer compared.",
 "Seeded search over histories and crash points; the reference is the library itself running uninterrupted.",
 stub=STUB+"user-defined tuners are driven by the harness's callbacks, whose state is serialized with the tuner",
 assumptions=["a user-defined tree tuner over a dynamic tree space is left out: the deserialize API takes one callback vector for both"])
c("C03","fault_enumeration","deterministic simulation: every kind of system call failure injected into serialization",
 PROG+"every file or descriptor operation of the program is repeated with a failing system call of each kind and at seeded positions (and with premature end of data) before it is run unharmed; afterwards descriptors, mappings, heap, object content and the rest of the history are compared with a run without faults.",
 "All kinds of failing calls of each operation are injected; positions within many reads and writes are sampled.",
 assumptions=["failures of close and munmap are not required to be reported"])
c("C04","exploration","deterministic simulation: storage corruption (torn, truncated, flipped, spliced images) under a memory checker",
 PROG+"images of objects of every type are damaged in simulated storage (truncated, torn, bytes flipped, zeroed, swapped, length fields inflated, spliced with other images) and deserialized through every transport. Accepted objects are put through the whole public API; refused ones must leave nothing.",
 "Seeded search with AddressSanitizer, a memory budget and a step bound as oracles.",
 assumptions=["a damaged GSL generator state inside an otherwise accepted image is a known finding, see KNOWN_FINDINGS.txt"])
c("C05","fault_enumeration","deterministic simulation: allocation failures at enumerated and sampled positions of every call",
 PROG+"each call that allocates is repeated with its allocations failing one after the other (sampled when there are many; sometimes all later ones fail too) before it is run unharmed. After each failed attempt every live object is compared with its state before, and the whole history with a run without faults.",
 "Every generated call is tried with several failing positions; all positions where a call has few allocations.",
 assumptions=["the GSL error handler is off, as the library documents no own handling","list calls are excluded from the comparison"])
c("C06","exploration","deterministic simulation: asynchronous workers with late, lost, duplicated, reordered and failed results, against an executable model",
 PROG+"simulated workers take asked configurations of plain and tree tuners and report results late, twice, out of order, failed or never, in batches or singly. History, optima and suggestions are compared with an executable model after each step.",
 "Seeded search; the oracle is an independent non-domination model over the told evaluations.")
c("C07","exploration","deterministic simulation: seeded retain and release orders on a checked heap",
 PROG+"objects of every type are built on top of each other, shared, retained and released in seeded orders, with destroy callbacks attached; a model of who holds whom says which objects must be alive, which must be gone and what their content is; the simulated heap must be empty at the end.",
 "Seeded search with poisoned freed memory, reference model and an empty-heap check.")
c("C08","exploration","deterministic simulation: seeded thread scheduler at every shared memory access",
 "One case is two to four programs of API calls, one per thread, run as coroutines of one process; the seeded scheduler switches at memory accesses of the instrumented library. Each thread's log is compared with the same program run alone; conflicting accesses to the same library memory from two threads without ordering are reported.",
 "Seeded search over interleavings at memory-access granularity under sequential consistency.",
 measure="distinct schedules (hash of the sequence of switches with the accesses where they happened)",
 real="all of src/*.c compiled with -fsanitize=thread instrumentation whose runtime is the scheduler",
 stub=STUB+"thread switching; the GSL is linked uninstrumented",
 assumptions=["sequential consistency between schedule points","each thread works on its own objects"])
c("C09","exploration","deterministic simulation: adversarial random streams behind the generator seam, against an independent evaluation",
 PROG+"spaces with conditions, forbidden clauses and joint distributions are sampled with the library's generators and with simulated ones that return zeros, maxima, stuck and alternating values. Every sample, default and check answer is compared with an independent evaluation of the space's definition.",
 "Seeded search; the oracle is an independent implementation of domains, expressions, activation and clauses.",
 stub=STUB+"random generators of some runs (adversarial generator types registered through ccs_create_rng_with_type)",
 assumptions=["normal distributions whose admissible values are unreachable in practice are not sampled: rejection sampling then does not end"])
c("C10","exploration","deterministic simulation: seeded histories with failed calls, against an executable dictionary",
 PROG+"maps are set, read, deleted and cleared with keys and values of every type, while other objects come and go; the whole content is compared with a dictionary model, and the lifetime of the objects in the map with a reference model.",
 "Seeded search against a dictionary model.")
c("C11","exploration","deterministic simulation: growth histories with simulated user callbacks, against an executable tree",
 PROG+"trees are built, re-weighted, attached and read through static and dynamic tree spaces, with adversarial random streams for sampling; every answer is compared with a model tree.",
 "Seeded search against a model tree with independently computed weights.",
 assumptions=["where a static tree has no node for a position, only the existing prefix is compared"])
c("C12","fault_enumeration","deterministic simulation: user callbacks failing at enumerated invocations",
 PROG+"every call that runs user callbacks (tuner vectors, dynamic tree children, user state and user data serializers) is repeated with each of its callback invocations (sampled when many) returning an error before it is run unharmed; afterwards state, heap and the rest of the history are compared with a run without faults.",
 "Each invocation index up to the bound per call is failed.")
c("C13","exploration","deterministic simulation: asynchronous workers under several features, against an executable model",
 PROG+"workers under different (also equal but distinct) features ask, evaluate, fail, duplicate, delay and reorder results on features tuners; history and optima per features and suggestions are compared with a model.",
 "Seeded search against an independent model.")
c("C14","exploration","deterministic simulation: the same program under different heap layouts, memory contents, unrelated activity and inspection",
 PROG+"the program is executed four times: plainly; with other memory fill, address skew and reuse; with an unrelated seeded program interleaved; with all objects inspected in between. All address-free logs must be equal.",
 "Seeded search; the oracle is equality of the logs.")
c("C15","exploration","deterministic simulation: histories of accepted and refused modifications, with a twin that skips the refused ones",
 PROG+"spaces are modified with good and bad arguments; acceptance is compared with a model, the space after a refusal with the space before, and the whole program with the same program without its refused calls.",
 "Seeded search against a model and a twin run.")
c("C16","exploration","deterministic simulation: Kokkos runtime, clock and allocator simulated around the real connector",
 "One case is a sequence of declare, request, begin, end and finalise events with nested contexts chosen by the seed, under a simulated clock that stalls, jumps and runs slowly. Values, fences and attribution are compared with a model.",
 "Seeded search against a model of the connector's measuring and convergence.",
 measure="distinct (region state, convergence stack, event) combinations",
 real="connectors/kokkos/ccs-kokkos-connector.cpp and all of src/*.c",
 stub=STUB+"clock_gettime, the Kokkos runtime that calls the connector, fences",
 time="simulated seconds are reported under extra.simulated_seconds")
c("C17","exploration","deterministic simulation: misuse injected at seeded points of a history, comparison with the history without it",
 PROG+"at seeded points one of about 330 table entries (nearly every public function) is called with one argument spoiled as the seed says, on whatever objects the history has reached; the call has to be refused with the documented error, and the same program without these calls has to give the same log, leave the same objects and an empty heap.",
 "Seeded search; the oracle is the documented error and the library itself running without the incorrect calls.",
 assumptions=["generic binding and context functions only promise to detect missing objects, not objects of another type","where the documentation names no error for a missing pointer the pointer is given"])
c("C18","exploration","deterministic simulation: all access paths compared at seeded points of histories with failures and restores, against an executable model",
 PROG+"at seeded points every way to read an object is exercised and compared with the others and with a model of what was added and set; values are set through every path, with buffers that die after the call.",
 "Seeded search against the model and between the interfaces.")
BUILT=json.load(open(os.path.join(V,"tools","built.json")))
NA={"N01":"Evaluation of an expression is a pure function of the expression and its values: no schedule, clock, I/O, fault or history enters (failed allocations inside it are covered by C05, its use in spaces by C09 and C15).",
    "N02":"Interval operations are pure functions of two intervals; there is nothing for a simulator to schedule or fail.",
    "N03":"A statistical statement about a pure function of the random stream; the simulator controls that stream and so cannot judge its law. What must hold for every stream is C09.",
    "N04":"Parsing is a pure function of its text and lives in the language bindings, outside the simulated process."}
for k in list(C):
    if k not in BUILT: NA[k]="its simulation is not built yet"; 
json.dump({"checks":{k:{x:y for x,y in C[k].items() if x not in("technique","note")} for k in C},
 "assumptions":["single machine, sequentially consistent memory","public API used with valid pointers and live handles","user callbacks return and do not modify the objects of the enclosing call","clang -O1 with AddressSanitizer behaves as the shipped build as far as defined behaviour goes"]},
 open(os.path.join(V,"checks.json"),"w"),indent=1)
m={"version":1,"setup_cmd":"python3 build.py setup","checks":[
  {"property":k,"quick_cmd":"python3 check.py %s quick"%k,"thorough_cmd":"python3 check.py %s thorough"%k,"evidence_file":"evidence/%s.json"%k,
   "technique":C[k]["technique"],"level":C[k]["level"],"level_note":C[k]["note"]} for k in C if k in BUILT],
 "not_applicable":[{"property":k,"reason":NA[k]} for k in NA],
 "notes":"No hooks in /repo: all seams are made at build time by redirecting the library's external symbols (see DESIGN.md). Known and fixed defects: KNOWN_FINDINGS.txt."}
json.dump(m,open(os.path.join(V,"MANIFEST.json"),"w"),indent=1)
