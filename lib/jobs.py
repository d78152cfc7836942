"""Which workloads decide which property."""
import fconst
COMMON_ASSUMPTIONS = [
    "gcc 13 / gfortran 13 on x86_64 with the default sizes unless a workload says otherwise",
    "the verdict covers the executions produced, not paths the workloads never drive",
]
SCRIPTS = {"fconst": fconst.script}

SCALE = 8   # quick budgets of the cheap workloads, in units of the numbers given below
# how often the workloads are repeated with further seeds, by tier and property
ROUNDS = {"quick": {"C01": 4, "C02": 3, "C03": 6, "C04": 3, "C05": 2, "C06": 8, "C07": 8, "C08": 8, "C09": 2, "C11": 2, "C12": 4, "C13": 9, "C14": 3, "C16": 3, "C20": 8, "C21": 2, "C22": 1.5, "C23": 2},
          "thorough": {"C01": 37, "C02": 18, "C03": 25, "C04": 14, "C05": 10, "C06": 30, "C07": 38, "C08": 33, "C09": 11, "C10": 5, "C11": 14, "C12": 16, "C13": 30, "C14": 18, "C15": 12, "C16": 14,
                       "C17": 8, "C18": 6, "C19": 3, "C20": 30, "C21": 18, "C22": 5, "C23": 6}}
def T(tier, q, t): return (q * SCALE if q >= 200 else q) if tier == "quick" else t
def job(engine, n, profile="mixed", lang="c", variant="plain", **k):
    d = dict(engine=engine, n=n, profile=profile, lang=lang, variant=variant); d.update(k); return d
PROPS = {}
def P(pid, jobs, rule, technique, note, level="exploration", must_see=(), assumptions=()):
    PROPS[pid] = dict(jobs=jobs, rule=rule, technique=technique, note=note, level=level, must_see=list(must_see), assumptions=list(assumptions))

HIST = ("Random histories from a seeded generator (posts, blocking calls, probes, completion calls, type and communicator creation and release, freed early or late); "
        "an executable model predicts every result and the full contents of every buffer. ")
P("C01", lambda t: [
    job("p2p", T(t, 6000, 200000), "payload"), job("p2p", T(t, 2000, 40000), "payload", "mix"), job("p2p", T(t, 1500, 40000), "payload", variant="asan"),
    job("p2p", T(t, 1000, 20000), "mixed"), job("p2p", T(t, 800, 20000), "lifetime"), job("p2p", T(t, 60, 2000), "deep")],
  HIST + "Counted distinct by hash of the action sequence and matched pairs; non-trivial: at least two messages matched and two operations pending at once.",
  "runtime monitoring: randomised histories against a typemap model, guarded and shadowed buffers, ASan",
  "Every byte of every buffer is compared with the model at completion in each produced history; says nothing on histories not produced.",
  must_see=["messages matched", "short messages", "truncated messages", "payload bytes compared", "cases with large messages"])
P("C02", lambda t: [
    job("p2p", T(t, 6000, 200000), "matching"), job("p2p", T(t, 250, 8000), "deep", min_chunk=10), job("p2p", T(t, 1500, 30000), "matching", "mix"),
    job("p2p", T(t, 800, 20000), "lifetime"), job("die", T(t, 1500, 40000), "overtake"), job("die", T(t, 500, 12000), "overtake", "mix"), job("p2p", T(t, 500, 10000), "matching", variant="asan"), job("p2p", T(t, 60, 1500), "queue", min_chunk=4), job("p2p", T(t, 1500, 30000), "orphan", noisy=True), job("p2p", T(t, 300, 8000), "orphan", "mix", "asan", noisy=True)],
  HIST + "Every message carries unique random bytes, so a receive identifies the send it got. Distinct by hash of actions and matched pairs; non-trivial: two messages matched, two operations pending.",
  "runtime monitoring: online checker of the matching rules with unique payloads", "Matching order, isolation between communicators and exactly-once delivery are decided for every message of the produced histories.",
  must_see=["collectives among pending traffic", "messages matched", "max:pending operations", "communicators created", "operations orphaned"])
P("C03", lambda t: [
    job("p2p", T(t, 8000, 250000), "complete"), job("p2p", T(t, 2500, 60000), "complete", "mix"), job("p2p", T(t, 60, 2000), "deep"), job("p2p", T(t, 24, 500), "queue", min_chunk=4), job("p2p", T(t, 800, 20000), "complete", variant="asan")],
  HIST + "Completion calls get arrays mixing pending, complete and null requests. Distinct by hash of actions and matches; non-trivial: two messages matched and two pending.",
  "runtime monitoring: model of request states, every completion call and output argument checked online", "Flags, indices, counts, request variables and statuses of each completion call are compared with the model.",
  must_see=["completions observed", "failed tests", "any form, no active request", "any form, one completed", "arrays of more than 255 requests", "testall, not all complete", "all form, all complete", "some form, completions"])
P("C04", lambda t: [
    job("p2p", T(t, 7000, 200000), "status"), job("p2p", T(t, 2500, 50000), "status", "mix"), job("p2p", T(t, 1500, 30000), "complete"), job("p2p", T(t, 500, 10000), "status", variant="asan"),
    job("big", T(t, 1500, 40000), "wide"), job("big", T(t, 800, 20000), "wide", "mix"), job("big", T(t, 300, 10000), "wide", variant="asan"), job("big", T(t, 1, 8), "widemoved", min_chunk=1, cost=9)],
  HIST + "Statuses start out filled with a pattern and sit in exactly sized guarded cells; count and element queries are made in several datatypes. Distinct by hash of actions and matches.",
  "runtime monitoring: status, count and probe oracle over randomised histories", "Each status, count query and probe of the produced histories is compared with the message the model says was meant.",
  must_see=["statuses checked", "count queries", "undefined counts", "counts beyond 31 bits", "messages of more than 2^31 elements", "probe hits", "probe misses", "empty statuses checked"])
P("C06", lambda t: [
    job("types", T(t, 12000, 400000), "geom"), job("types", T(t, 2500, 50000), "geom", "mix"), job("types", T(t, 1500, 40000), "geom", variant="asan"), job("types", T(t, 2000, 60000), "named"), job("p2p", T(t, 1200, 30000), "payload"), job("pack", T(t, 1500, 30000))],
  "Random nested types over every constructor (contiguous, vector, hvector, indexed, indexed block, hindexed, struct, dup; explicit markers, negative and zero displacements, strides, counts), each compared with an independent typemap model and used for a transfer whose whole buffers are compared. Distinct by hash of the resulting typemap and bounds; non-trivial: more than one typemap entry.",
  "runtime monitoring: independent typemap model compared with queries and moved bytes", "Queries and data movement of each generated type are compared with the model; where only the lower bound is explicit the padding of the upper bound may be either reading.",
  must_see=["one element among many of another type", "structures of different types", "long chains of constructors", "geometry queries", "type constructed", "LB marker", "UB marker", "empty type constructed", "type duplicated"])
P("C07", lambda t: [
    job("types", T(t, 2000, 60000), "named"), job("types", T(t, 700, 20000), "named", "mix"), job("types", T(t, 300, 10000), "named", variant="asan"), job("coll", T(t, 1500, 30000)), job("p2p", T(t, 800, 20000), "matching")],
  "Every named datatype of mpi.h and mpif.h is sized, transferred, gathered, packed and used as building block with random values; sizes come from the C compiler and compiled Fortran. Distinct by datatype and use.",
  "runtime monitoring: per-datatype oracle from compiler sizes, values moved and compared", "Every name is exercised in every run.",
  must_see=["one element among many of another type", "geometry queries"])
P("C08", lambda t: [
    job("coll", T(t, 14000, 400000)), job("coll", T(t, 4000, 100000), lang="mix"), job("coll", T(t, 1500, 40000), variant="asan")],
  "Random calls of every collective with random matching send and receive types, displacements, operations, in-place and root-marker arguments; both buffers are compared whole with the model. Distinct by call sequence and layouts; non-trivial: data actually contributed.",
  "runtime monitoring: one-process collective model, whole-buffer comparison, ASan", "Each collective call produced is decided byte for byte.",
  must_see=["operations pending around collectives", "collectives checked", "in-place calls", "root-marker calls", "broadcasts", "barriers"])
P("C11", lambda t: [
    job("handles", T(t, 40, 1500), min_chunk=2), job("handles", T(t, 10, 300), lang="mix", min_chunk=2), job("handles", T(t, 3, 24), min_chunk=1, arg="30000"), job("handles", T(t, 1, 8), min_chunk=1, arg="262000"),
    job("p2p", T(t, 1500, 40000), "lifetime"), job("p2p", T(t, 60, 1500), "crowd", min_chunk=8), job("handles", T(t, 4, 100), variant="asan", min_chunk=1), job("p2p", T(t, 60, 2000), "deep")],
  "Objects of all kinds are created, used and released in random order up to the supported number of handles; every object carries an identity that is verified on use. Distinct by seed and peak number of live objects.",
  "runtime monitoring: live-handle ledger and identity checks under creation/release stress", "Distinctness and identity are checked for each handle at creation, use and release.",
  must_see=["tables refilled after being emptied", "objects created", "objects released", "identities verified", "handle values reused", "max:live objects"])
P("C12", lambda t: [
    job("p2p", T(t, 6000, 200000), "lifetime"), job("p2p", T(t, 1500, 30000), "lifetime", "mix"), job("p2p", T(t, 2500, 60000), "lifetime", variant="asan"), job("types", T(t, 1500, 40000), "geom", variant="asan"), job("p2p", T(t, 300, 8000), "orphan", "mix", "asan", noisy=True),
    job("p2p", T(t, 160, 4000), "crowd", "mix", min_chunk=8), job("p2p", T(t, 24, 800), "crowd", "mix", "asan", min_chunk=3)],
  HIST + "Types, communicators and requests are freed while operations or derived types still use them. Distinct by hash of actions and matches.",
  "runtime monitoring: history model plus ASan for use after free", "Data delivered by operations whose type or request was freed is compared with the model, and ASan watches each access.",
  must_see=["type freed under a pending operation", "pending request freed", "complete request freed", "detached operations served", "communicators freed", "inner type freed early", "crowds of derived types", "max:operations pending with a freed type"])
P("C13", lambda t: [
    job("alg", T(t, 12000, 400000), "alg"), job("alg", T(t, 4000, 80000), "alg", "mix"), job("alg", T(t, 1500, 40000), "alg", variant="asan")],
  "Random group and communicator expressions over the single process against set algebra. Distinct by hash of the operation sequence and results.",
  "runtime monitoring: set-algebra model", "Each group and communicator result produced is compared with the model.",
  must_see=["translations checked", "long rank lists translated", "communicators created"])
P("C14", lambda t: [
    job("p2p", T(t, 1500, 40000), p, "f") for p in ("payload", "matching", "complete", "status", "lifetime")] + [
    job("p2p", T(t, 1500, 40000), "mixed", "mix"), job("coll", T(t, 2500, 60000), lang="f"), job("pack", T(t, 1500, 40000), lang="f"), job("types", T(t, 1500, 40000), "geom", "f"), job("types", T(t, 400, 8000), "named", "f"),
    job("alg", T(t, 2000, 40000), "alg", "f"), job("alg", T(t, 700, 20000), "topo", "f"), job("handles", T(t, 6, 100), lang="f", min_chunk=1), job("p2p", T(t, 24, 400), "queue", "f", min_chunk=4), job("p2p", T(t, 24, 800), "crowd", "f", min_chunk=4), job("types", T(t, 14, 200), "huge", "f", min_chunk=2), job("big", T(t, 1500, 30000), lang="f"), job("big", T(t, 800, 20000), "wide", "f"), job("env", T(t, 300, 6000), lang="f"),
    job("die", T(t, 1000, 20000), "deadlock", "f"), job("die", T(t, 1000, 20000), "misuse", "f"), job("die", T(t, 600, 12000), "packover", "f"),
    job("p2p", T(t, 400, 10000), "mixed", "mix", "asan"), job("coll", T(t, 400, 10000), lang="f", variant="asan"), job("types", T(t, 300, 10000), "geom", "f", "asan"), job("alg", T(t, 300, 10000), "topo", "f", "asan"), job("pack", T(t, 300, 10000), lang="f", variant="asan")],
  "The same models with every call made through the Fortran binding, or each through a randomly chosen binding on shared objects; each Fortran argument lives in an exactly sized guarded cell. Distinct by the engines' own hashes.",
  "runtime monitoring: differential against the same model through the Fortran entry points, guarded argument cells", "Every Fortran entry point the workloads call is held to the model the C binding is held to.",
  must_see=["messages matched", "collectives checked", "packs"])
P("C20", lambda t: [
    job("alg", T(t, 3000, 100000), "topo"), job("alg", T(t, 1500, 30000), "topo", "mix"), job("alg", T(t, 600, 20000), "topo", variant="asan")],
  "Random topology and intercommunicator calls, any number of dimensions, arrays shorter and longer than the grid, in guarded cells. Distinct by hash of arguments and results.",
  "runtime monitoring: topology oracle, guarded cells", "Each topology or intercommunicator call produced is compared with the model.",
  must_see=["topologies queried", "cases with more than 255 live handles", "grids of more than 255 dimensions", "intercommunicators merged"])

P("C05", lambda t: [
    job("die", T(t, 9000, 200000), "deadlock"), job("die", T(t, 4000, 80000), "deadlock", "mix"), job("die", T(t, 300, 8000), "deadlock", variant="asan")],
  "Each case is a child process: a random history of pending sends, receives and requests, then one blocking call (send, ssend, rsend, irsend, recv, probe, sendrecv, wait and its array forms, null-process forms) that a queue model says can or cannot complete. "
  "Cannot: the process must end abnormally with text on standard error within its time; can: it must return with the right data and go on. Distinct by call, verdict, queue depth and arguments.",
  "runtime monitoring: child processes judged on exit status, standard error and time against a queue model", "Decides each blocking call produced, both ways; a hang is a call that outlives 40 s of processor time or 150 s, and again when repeated.",
  must_see=["calls that stopped the process", "calls that returned"])
P("C09", lambda t: [
    job("pack", T(t, 7000, 250000)), job("pack", T(t, 2000, 40000), lang="mix"), job("pack", T(t, 1200, 30000), variant="asan"), job("die", T(t, 5000, 100000), "packover"), job("die", T(t, 1500, 30000), "packover", "mix"),
    job("die", T(t, 400, 8000), "packover", variant="asan"), job("pack", T(t, 300, 8000), variant="tc")],
  "Random sequences of typed items packed at random positions into exactly sized or ample guarded buffers, moved, sent and unpacked; and child processes whose declared size is one byte, several bytes or an overflowing position short. Distinct by item layouts and sizes.",
  "runtime monitoring: round-trip and whole-buffer oracle, child processes for exceeded sizes, ASan", "Positions, bytes and surroundings of each produced pack and unpack are compared with the typemap model.",
  must_see=["packs", "calls that stopped the process", "calls that returned"])
ALLN = [("p2p", "mixed"), ("p2p", "complete"), ("p2p", "status"), ("p2p", "lifetime"), ("coll", "mixed"), ("pack", "mixed"), ("types", "geom"), ("types", "named"), ("alg", "alg"), ("alg", "topo"), ("env", "mixed")]
P("C17", lambda t: [job("die", T(t, 9000, 200000), "misuse"), job("die", T(t, 4000, 80000), "misuse", "mix"), job("die", T(t, 300, 8000), "misuse", variant="asan"), job("die", T(t, 1000, 20000), "packover"), job("die", T(t, 6, 60), "limit", min_chunk=1), job("die", T(t, 3, 30), "limit", "f", min_chunk=1)]
    + [job(e, T(t, 600, 12000), p, l) for e, p in ALLN for l in ("c", "f")] + [job("handles", T(t, 4, 60), min_chunk=1), job("p2p", T(t, 30, 500), "deep")],
  "Each misuse case is a child process: a random valid history, then one misuse out of fifteen kinds (or a valid near miss), with user data in an arena that is compared before and after; plus all valid workloads of the other properties with their output watched. Distinct by kind and arguments.",
  "runtime monitoring: child processes judged on exit status, diagnostics and memory; output of valid workloads captured", "Each misuse produced must stop its process with a diagnostic and unaltered data, each valid call return success silently.",
  must_see=["later initialisations", "calls that stopped the process", "calls that returned", "messages matched", "collectives checked", "packs"])
P("C18", lambda t: [
    job("env", T(t, 2500, 50000)), job("env", T(t, 2500, 50000), lang="f"), job("env", T(t, 1500, 30000), lang="mix"), job("env", T(t, 300, 6000), variant="asan"), job("env", T(t, 300, 6000), lang="f", variant="asan")],
  "Child and in-process cases over initialisation order, thread levels, interposed host names (any length up to and past the limit, failures), error codes, interposed and real clocks, abort codes, versions. Distinct by service and values.",
  "runtime monitoring: interposed system services, guarded buffers, child processes for abort and finalisation", "Each service call produced is compared with what the interposed system answered.",
  must_see=["initialised queries"])
P("C21", lambda t: [
    job("die", T(t, 6000, 150000), "mismatch", variant="tc"), job("die", T(t, 2500, 50000), "mismatch", "mix", "tc"), job("die", T(t, 300, 8000), "mismatch", variant="tcasan"),
    job("p2p", T(t, 1500, 40000), "payload", variant="tc"), job("p2p", T(t, 800, 20000), "mixed", "mix", "tc"), job("coll", T(t, 2500, 50000), variant="tc"), job("coll", T(t, 800, 20000), lang="f", variant="tc"), job("pack", T(t, 800, 20000), variant="tc"),
    job("types", T(t, 800, 20000), "geom", variant="tc"), job("types", T(t, 300, 8000), "named", variant="tc"), job("p2p", T(t, 400, 10000), "payload", variant="tcasan"), job("coll", T(t, 400, 10000), variant="tcasan")],
  "The library compiled with TYPE_CHECKING: pairs of element sequences equal or differing at one place, in point-to-point and collective transfers in child processes; and the ordinary data workloads, which must behave as in the default build. Distinct by the pair of types, the operation and the place.",
  "runtime monitoring: child processes of the type-checking build judged against the element sequences", "Each transfer produced must be stopped exactly when a stored element differs in type.",
  must_see=["calls that stopped the process", "agreeing transfers", "mismatches beyond what is stored", "first mismatches past the end of both types", "messages matched", "collectives checked"])

P("C16", lambda t: [
    job("big", T(t, 40000, 1000000)), job("big", T(t, 15000, 300000), lang="f"), job("big", T(t, 8000, 100000), lang="mix"), job("big", T(t, 2000, 60000), variant="asan"), job("big", T(t, 3, 24), "dense", min_chunk=1, cost=9), job("big", T(t, 1500, 30000), variant="tc"), job("big", T(t, 1500, 40000), "wide", "mix")],
  "Random types whose displacements, strides, markers and extents lie around 1, 2, 3, 4 and 6 GiB and up to 16 GiB, positive and negative; buffers are 72 GiB reservations in which only the pages holding elements of the typemap are mapped and compared afterwards; displacement arguments of v- and w-collectives beyond 32 bits in bytes; absolute addresses with the bottom buffer; contiguous messages longer than 4 GiB; bounds up to 2^55. Distinct by element offsets and operation.",
  "runtime monitoring: sparse page-protected buffers, typemap model, page comparison", "A misplaced access faults or changes a compared page; bounds queries are compared exactly.",
  must_see=["packed sizes beyond 2 GiB", "transfers beyond 2 GiB", "transfers beyond 4 GiB", "bounds beyond 32 bits", "bottom-buffer transfers", "messages longer than 4 GiB"])
MEM = [("p2p", "mixed", 700), ("p2p", "lifetime", 700), ("p2p", "complete", 500), ("coll", "mixed", 700), ("pack", "mixed", 500), ("types", "geom", 900), ("types", "named", 200), ("alg", "alg", 500), ("alg", "topo", 400), ("env", "mixed", 60)]
P("C10", lambda t:
    [job(e, n * T(t, 2, 40), p, "mix", "asan") for e, p, n in MEM] + [job("big", T(t, 3000, 120000), "gaps", variant="asan"), job("big", T(t, 1500, 50000), "gaps", "mix", "asan"), job("big", T(t, 400, 20000), variant="asan"), job("big", T(t, 200, 8000), "wide", "mix", variant="asan"),
    job("p2p", T(t, 16, 300), "deep", variant="asan", min_chunk=2), job("p2p", T(t, 16, 300), "crowd", "mix", variant="asan", min_chunk=2), job("handles", T(t, 3, 60), variant="asan", min_chunk=1), job("types", T(t, 24, 400), "huge", stack_kb=512, min_chunk=3), job("types", T(t, 8, 200), "huge", variant="asan", min_chunk=1), job("coll", T(t, 300, 10000), variant="tcasan"), job("p2p", T(t, 300, 10000), variant="tcasan")]
    + [job(e, n * T(t, 2, 20) // 2, p, "c", "msan") for e, p, n in MEM] + [job("types", T(t, 8, 100), "huge", variant="msan", min_chunk=2), job("p2p", T(t, 16, 200), "deep", variant="msan", min_chunk=2), job("big", T(t, 400, 10000), variant="msan")]
    + [job(e, T(t, 40, 1200), p, "mix", valgrind=True, min_chunk=20, wall=800, cpu=600) for e, p in (("p2p", "mixed"), ("p2p", "lifetime"), ("coll", "mixed"), ("pack", "mixed"), ("types", "geom"), ("alg", "topo"))],
  "All valid workloads under the address and undefined-behaviour sanitizers (gcc), the memory sanitizer (clang, C binding) and valgrind memcheck (both bindings); types of up to a hundred thousand blocks with the stack limited to 512 KiB; transfers with every byte outside the typemap poisoned. Distinct by the engines' own hashes.",
  "runtime monitoring: ASan, UBSan, MSan, valgrind memcheck, poisoned layout gaps, small stacks", "A report on any produced execution is a violation; says nothing on paths the workloads do not drive.",
  must_see=["messages matched", "collectives checked", "packs", "type constructed", "gap bytes poisoned", "type freed under a pending operation"])
P("C22", lambda t: [
    job("conserve", T(t, 1200, 40000), "micro", variant="alloc"), job("conserve", T(t, 500, 15000), "micro", "f", "alloc"), job("conserve", T(t, 500, 15000), "micro", "mix", "alloc"),
    job("conserve", T(t, 700, 15000), "mixed", variant="alloc", min_chunk=8), job("conserve", T(t, 300, 8000), "mixed", "f", "alloc", min_chunk=8), job("conserve", T(t, 300, 8000), "mixed", "mix", "alloc", min_chunk=8)],
  "Balanced histories (thirty small ones over every part of the interface, and the random histories of the other properties) repeated with the same data, at three quiescent points apart: live blocks and bytes of the library's allocator calls, and the number of handles that still fit into the table, must not drift over both intervals. Distinct by history and seed; non-trivial: at least two further repetitions of a history that makes calls.",
  "runtime monitoring: interposed allocator ledger and handle-table headroom at quiescent points of repeated histories", "Decides each history produced; a pool that grows once and is reused does not count as a leak.",
  must_see=["histories repeated", "quiescent points compared", "allocations watched", "finalisations compared", "MPI_Isend", "MPI_Type_struct", "MPI_Comm_dup", "MPI_Group_free"])
P("C23", lambda t: [
    job("oom", T(t, 260, 6000), variant="alloc", min_chunk=4), job("oom", T(t, 200, 2000), lang="f", variant="alloc", min_chunk=4), job("oom", T(t, 200, 2000), lang="mix", variant="alloc", min_chunk=4)],
  "Each case is a random history run once to count the library's allocations, then again in a fresh child for each allocation (every one up to 160, a random sample beyond) with that allocation failing, or it and all later ones. The child's data oracles stay on, and it must either finish right or end abnormally with a diagnostic; a crash by another signal, exit 0 half way, silence or a hang is a violation. Distinct by history and number of allocations.",
  "runtime monitoring: allocation-fault injection with the data oracles of the other workloads", "Every allocation of each small history fails once.", level="fault_enumeration",
  must_see=["fault runs", "faults reported", "allocations failed"])
P("C15", lambda t: [dict(script="fconst", n=T(t, 199, 620), min_chunk=4, chunks=T(t, 30, 60))],
  "Programs compiled from the present sources: one that evaluates every constant name that both header files define (mpif.h and the mpi module against mpi.h), kinds and status layout; Fortran programs (with mpif.h or the module, mpi_init or mpi_init_thread) for each pairing of configured real and double sizes with compiler defaults, which must run silently and move every default type when the sizes agree and be stopped with a diagnostic otherwise; programs whose Fortran side was compiled with one verified constant altered. Distinct by configuration, flags and alteration.",
  "runtime monitoring: compiled programs run per configuration, judged on exit status, output and moved data", "Decides each configuration and alteration run; constants are compared completely.", must_see=["constants compared", "kinds compared", "matching configurations", "mismatched configurations", "altered constants"])
TH = {"MON_THREADS": "6"}
P("C19", lambda t: [
    job("thread", T(t, 6000, 150000), "shared"), job("thread", T(t, 500, 12000), "shared", variant="tsan"), job("thread", T(t, 600, 12000), "levels", "mix"), job("thread", T(t, 64, 400), "levels", "mix", "tsan", min_chunk=4),
    job("p2p", T(t, 1500, 40000), "mixed", env=TH), job("p2p", T(t, 800, 20000), "lifetime", "mix", env=TH), job("p2p", T(t, 800, 20000), "complete", "f", env=TH), job("coll", T(t, 1500, 40000), "mixed", "mix", env=TH), job("pack", T(t, 800, 20000), "mixed", "mix", env=TH),
    job("types", T(t, 1200, 30000), "geom", "mix", env=TH), job("alg", T(t, 800, 20000), "alg", "mix", env=TH), job("alg", T(t, 300, 8000), "topo", "mix", env=TH), job("handles", T(t, 16, 200), "mixed", "mix", env=TH, min_chunk=1), job("die", T(t, 600, 12000), "deadlock", "mix", env=TH), job("die", T(t, 600, 12000), "misuse", "mix", env=TH),
    job("p2p", T(t, 160, 4000), "mixed", "mix", "tsan", env=TH), job("coll", T(t, 160, 4000), "mixed", "mix", "tsan", env=TH), job("types", T(t, 80, 2000), "geom", "mix", "tsan", env=TH), job("pack", T(t, 80, 2000), "mixed", "mix", "tsan", env=TH), job("alg", T(t, 80, 2000), "topo", "mix", "tsan", env=TH)],
  "Three kinds of executions: the histories of the other engines with each library call made by a randomly chosen one of up to seven threads (threads ending and starting in between); programs of two to six threads that take turns inside the library under a lock and exchange uniquely marked messages through it; initialisations with each level in children, on the first or another thread, followed by use at the granted level (concurrent use if the library grants that). Distinct by the engines' hashes, or by seed and number of messages.",
  "runtime monitoring: thread-hopping of the model-checked histories, serialised multi-thread traffic with unique messages, ThreadSanitizer", "Decides the call-to-thread assignments and interleavings produced.",
  must_see=["calls by other threads", "messages between threads", "thread switches between calls", "thread levels checked", "serialised use tried"])
