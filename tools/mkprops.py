#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Point-to-point payload integrity",
 "Whatever datatypes with matching signatures, counts, send mode and posting order are used, a receive ends up with exactly the elements the matched send had in its buffer, element for element in typemap order. "
 "A message shorter than the posted receive is delivered whole, and nothing else changes: gaps in the receive layout, elements past the message, bytes outside the receive layout and the send buffer keep their contents. "
 "A message longer than the receive never writes past the receive buffer.",
 ["inputs","histories"],
 "every pair of matching datatypes and counts, every send call (standard, synchronous, ready, immediate, combined) against every receive call, both posting orders, any number of other pending operations",
 "The tests send a dozen fixed layouts, nearly always one message at a time with equal counts; the send-first path with different counts or layouts on the two sides is never run.",
 ["send.c","recv.c","copy.c","type.c"],
 [("recv-first delivery","send.c MPI_Isend"),("send-first delivery","recv.c MPI_Irecv"),("typemap element copy","copy.c Pcopy_data2")],
 observe=["full contents of both user buffers before and after","guard zones around both buffers"])

p("C02","Message matching: order, tags, isolation, exactly once",
 "On a communicator each receive takes the earliest-posted pending send whose tag fits, and each send goes to the earliest-posted pending receive that accepts its tag, with wildcard tag and source accepting anything. "
 "Every message is delivered to exactly one receive, none is lost, duplicated or delivered across communicators, and transfers to or from the null process match nothing. "
 "This holds for any number and interleaving of pending sends, receives, probes and completions.",
 ["histories"],
 "every history of posts, probes, completions and communicator create/free calls over any tags and communicators, at any queue depth",
 "The tests never have more than five operations pending and always post in one fixed pattern; order with wildcards and out-of-order tags is a property of histories.",
 ["send.c","recv.c","probe.c","list.c","comm.c"],
 [("pending send/receive queues per communicator","comm.c mpi_comm_new, list.c"),("tag match predicates","send.c mpi_match_recv, recv.c mpi_match_send")],
 [("sendlist/recvlist","operations posted and not yet matched, in posting order","mpiP.h Comm")],
 ["payload identity at the receiver (every message carries unique bytes)","status tag"])

p("C03","Request completion calls",
 "A request is reported complete exactly when its operation has been matched (or involves the null process), by every completion call: test, wait and their any, all and some forms; a completed request is released and its variable set to the null request exactly once, all others are left as they were. "
 "The any and some forms report the index (indices) of completed requests, ignore null requests, and report the undefined value when no active request is listed; a failed test-all changes no request. "
 "Null requests complete at once with an empty status.",
 ["histories","inputs"],
 "every mix of pending, complete and null requests in arrays of any length, in any order of completion calls, with or without statuses requested",
 "Only MPI_Wait and MPI_Waitall on complete requests are called by the tests; the any/all/some logic over mixed arrays is never executed.",
 ["req.c","handles.c"],
 [("completion test","req.c MPI_Test"),("array forms","req.c MPI_Testany, MPI_Testall, MPI_Testsome, MPI_Wait*")],
 [("complete","set when the operation matched","mpiP.h Req")],
 ["flag, index, outcount, indices, request variables, statuses"])

p("C04","Statuses, counts and probes tell the truth",
 "The status of a completed receive names source 0, the tag of the message actually received and, through the count and element queries, exactly what was received in units of the queried datatype (undefined when not a whole number or when it does not fit the answer), whichever call completed it. "
 "A probe reports a message exactly when a receive with the same arguments would match one, describes that very message without consuming it, and transfers with the null process report the null source, any tag and zero count. "
 "Statuses are written only where the caller supplied room, never when ignored.",
 ["histories","inputs"],
 "every completion and probe call, any datatypes and counts on both sides, messages shorter than the receive, wildcards, null process, ignored statuses",
 "No test reads a count or an element count, or calls probe; the tests look at a tag at most.",
 ["req.c","recv.c","probe.c","getcount.c"],
 [("status filling","req.c MPI_Test, probe.c MPI_Iprobe"),("count queries","getcount.c")],
 observe=["status fields with canaries around them","MPI_Get_count, MPI_Get_elements"])

p("C05","Operations that can never complete stop with a diagnostic",
 "In a one-process world a blocking call whose match is not already there can never be satisfied: such a send, receive, probe, wait (any, all, some form) or ready-mode send must end the process abnormally with a message on standard error instead of hanging or returning. "
 "Whenever the matching operation is already posted, the same call returns normally and the process goes on.",
 ["histories"],
 "every history of pending operations, followed by any blocking call that is or is not satisfiable at that point",
 "A test suite that must pass cannot contain a call that aborts; no deadlock path is executed at all.",
 ["req.c","send.c","recv.c","probe.c"],
 [("deadlock detection","req.c MPI_Wait*, probe.c MPI_Probe, send.c MPI_Irsend")],
 observe=["exit status and standard error of the process making the call"])

p("C06","Derived-datatype geometry",
 "For every derived datatype, however nested and through whichever constructor it was built, the reported size, lower bound, upper bound and extent are those the MPI typemap rules give, including explicit bound markers, negative and zero displacements and strides, zero counts and block lengths, and alignment padding. "
 "Data moved with the type touches exactly the typemap's bytes, in typemap order, for any count, and a duplicated type behaves like the original.",
 ["inputs"],
 "every composition of contiguous, vector, hvector, indexed, indexed-block, hindexed, struct and dup over every named type, any counts, strides and displacements that fit",
 "About fifteen fixed types are built by the tests, none with bound markers, negative offsets, zero blocks or more than two levels, and geometry queries are not compared to anything.",
 ["type.c","type.h","type_const.c"],
 [("flattening constructor","type.c Type_struct"),("extent and padding","type.c Type_extent, calc_padding, calc_lb, calc_ub")],
 [("typemap","pairs of displacement and basic type","type.h Typestruct")],
 ["MPI_Type_size, _extent, _lb, _ub","order and location of bytes moved through the type"])

p("C07","Every named datatype matches its language type",
 "Every named datatype of the C header and the Fortran include file has the size and extent of the language type it names, counts as one element, and moves every byte of its values unchanged in point-to-point, collective and pack/unpack transfers. "
 "Pair types have the layout of the corresponding C structure or Fortran pair. "
 "A name is usable wherever a datatype is accepted, including as building block of derived types.",
 ["inputs","configurations"],
 "every named datatype, in every transfer operation, alone and inside derived types, for any value bits; for the Fortran real sizes chosen at configuration",
 "The tests use about eight of the some forty-five names, with small round values whose upper bytes are equal.",
 ["mpi.h","mpif.h","type.c","type.h","type_const.c"],
 [("table of named types","type_const.c simpletypes"),("length of a basic type","type.c Simpletype_length")],
 observe=["MPI_Type_size, MPI_Type_extent, transferred bytes against sizeof and against real Fortran storage"])

p("C08","Collectives give the one-process result",
 "On a one-process communicator every gather, scatter, reduce, scan, all-to-all and their all- and v-variants leave in the receive buffer exactly the contribution of rank 0, at the given displacement and in the receive layout, and change nothing else; broadcast and barrier change nothing. "
 "With the in-place argument the data is left as it is, and the result does not depend on the reduction operation. "
 "The root-side marker for intercommunicators is accepted and moves nothing.",
 ["inputs"],
 "every collective, every pair of matching datatypes, counts, displacements (positive, negative, zero), every operation, in-place or not, in C and Fortran",
 "Each collective is called once per language with one fixed type and offset zero (one other offset); in-place and gaps are never used.",
 ["collective.c","copy.c","op.c","mpi.c"],
 [("collective bodies","collective.c"),("Fortran in-place detection","mpi.c mpi_c_in_place")],
 observe=["full contents of send and receive buffers, including surroundings"])

p("C09","Pack and unpack",
 "Packing any sequence of typed items and unpacking them with the same datatypes restores every element, each pack advances the position by exactly what the matching unpack advances, and never by more than the size query promises. "
 "Neither touches a byte outside the packed region between the old and new position, the typed data's own layout, or past the declared buffer size; packed bytes survive being sent, copied or stored. "
 "When the declared size is too small the process stops with a diagnostic, having touched nothing outside the declared region (when unpacking, nothing outside the typed data's layout).",
 ["inputs","histories"],
 "every sequence of pack calls over any datatypes, counts, start positions and buffer sizes (exact, ample, one byte short), C and Fortran",
 "Two fixed structures are packed by the tests into oversized buffers at position 0.",
 ["pack.c","type.c"],
 [("pack/unpack loops with bound check","pack.c Pack, Unpack"),("size query","pack.c Pack_size")],
 observe=["positions, packed buffer and typed buffer with guard zones"])

p("C10","No memory error or undefined behaviour under valid use",
 "No sequence of valid calls makes the library read or write outside live objects, use freed or uninitialised memory in a way that matters, leak what it releases, overflow the stack for large type descriptions, or execute undefined arithmetic. "
 "This includes reads of user buffers: only bytes covered by the datatype and count handed in are accessed.",
 ["histories","inputs"],
 "every valid history mixing point-to-point, completion, datatype, collective, pack, communicator, group and topology calls, with small and very large descriptions",
 "The tests run unsanitised, on stack arrays larger than the layouts they use, so a stray access goes unseen.",
 ["type.c","copy.c","handles.c","list.c","req.c","send.c","recv.c","pack.c","collective.c"],
 [("typemap allocation","type.c Type_struct"),("handle blocks","handles.c"),("list items","list.c")],
 observe=["address, undefined-behaviour and memory sanitizers, valgrind memcheck, allocator guard zones"])

p("C11","Handles stay distinct and stable",
 "At every moment all live requests, communicators and datatypes have pairwise distinct, non-null handle values, and using one never observes or disturbs another, however many exist and in whatever order they were created and released. "
 "Handles stay valid while more are created, released values may be reused only after release, and values survive conversion between C and Fortran in both directions.",
 ["histories"],
 "every history of creating and releasing objects of all kinds, up to the documented 256k simultaneously live, crossing every growth of the handle table",
 "The tests never hold more than a few dozen handles; growth past the first 256 is never reached, reuse order hardly.",
 ["handles.c","req.c","comm.c","type.c"],
 [("free list and blocks","handles.c mpi_alloc_handle, mpi_free_handle, mpi_handle_to_ptr")],
 [("nextfree","list of unused handles","handles.c"),("blocks","handle storage, grows by 256","handles.c")],
 ["handle values, behaviour of each live object"])

p("C12","Freeing an object never harms work still using it",
 "Freeing a datatype while a pending communication uses it, or while types derived or duplicated from it exist, leaves those operations and types working as if it had not been freed, and sets the caller's variable to the null value. "
 "Freeing the request of a pending operation lets the operation itself still match and deliver normally, and freeing a communicator does not disturb other communicators or requests already matched.",
 ["histories"],
 "every order of frees relative to posts, matches and completions, with immediate reuse of the released handles and memory by new objects",
 "Tests free types only after everything that used them is over, and never free a request or a communicator with work outstanding.",
 ["type.c","req.c","comm.c","handles.c","send.c","recv.c"],
 [("type free","type.c MPI_Type_free"),("request free","req.c MPI_Request_free"),("communicator free","comm.c MPI_Comm_free")],
 observe=["delivered data, statuses, sanitizer reports, later behaviour of reused handles"])

p("C13","Group and communicator algebra",
 "Groups behave as sets over the single process: inclusion, range inclusion, union, intersection, difference and rank translation give the set-theoretic result, with the empty and null group distinguished. "
 "Every communicator created by duplication, creation from a non-empty group or a split with a defined colour is non-null, distinct, has size 1 and rank 0; an empty group or undefined colour gives the null communicator, and freeing sets the null value.",
 ["inputs","histories"],
 "every expression over group operations and every sequence of communicator constructors, C and Fortran, applied to any previously created object",
 "Group operations are not called by any test; communicator constructors are called once each.",
 ["group.c","comm.c"],
 [("group constants","mpi.h, mpiP.h MPI_GROUP_ONE"),("communicator constructors","comm.c")],
 observe=["returned handles compared with set results computed from definitions"])

p("C14","The Fortran binding does what the C binding does",
 "Every Fortran entry point has the effect and the results of its C counterpart, with Fortran conventions: results arrive in the argument the binding defines with its declared width, the error argument is set to success, array indices count from one, statuses have the declared layout and size, and nothing beyond the caller's variables is written. "
 "The special constants (ignored status, ignored statuses, in place) work wherever the call accepts them. Objects made through one binding can be used through the other.",
 ["inputs","histories"],
 "every Fortran entry point, any valid arguments, mixed with C calls on the same objects",
 "Most Fortran entry points are never called by the tests, the others once, with stack variables in which a too-wide write goes unseen.",
 ["send.c","recv.c","req.c","collective.c","type.c","pack.c","comm.c","group.c","cart.c","getcount.c","probe.c","mpi.c","fort.F90","mpif.h"],
 [("wrapper functions","FC_FUNC definitions in every file"),("special-constant addresses","mpi.c mpi_save_fort_pointers, mpi_c_status, mpi_c_statuses, mpi_c_in_place")],
 observe=["same oracles as the C calls, each Fortran argument in its own exactly sized guarded cell"])

p("C15","Fortran and C constants agree and start-up verifies it",
 "Every constant that both mpif.h (and the mpi module) and mpi.h define has the same value, status field positions agree, and kinds and lengths fit the C types. "
 "Fortran initialisation succeeds silently when the configured default real and double sizes are those of the compiler in use, and stops the program with a diagnostic when they are not; when the Fortran side of the library was built with a status layout, special constants or type sizes other than those of its C side the program is stopped likewise.",
 ["configurations"],
 "every constant of the include file; every combination of configured real/double sizes and compiler default sizes",
 "Tests run in the one configuration where everything agrees, and use few of the constants.",
 ["mpif.h","mpi.h","mpif.F90","fort.F90","mpi.c","type.h"],
 [("start-up verification","mpi.c mpi_init_fort, fort.F90 mpi_init"),("constant definitions","mpif.h, mpi.h")],
 observe=["values printed by a real Fortran program and a C program; exit status and messages of programs built with other default sizes"])

p("C16","Offsets, counts and addresses beyond 32 bits",
 "Displacements, strides, extents and buffer offsets are honoured at full address width: data separated by more than 2 GiB, absolute addresses with the bottom buffer, negative offsets and element numbers whose byte offset exceeds 32 bits are placed exactly where the typemap says. "
 "Type queries report such bounds unchanged.",
 ["inputs"],
 "every constructor, transfer, collective displacement and pack operation at offsets around and beyond the 31- and 32-bit limits, positive and negative",
 "All test layouts span at most some hundred bytes.",
 ["copy.c","type.c","collective.c","pack.c","mpi.h"],
 [("address-width arithmetic","MPI_Aint in mpi.h, copy.c Pcopy_data2, collective.c offsets, type.c calc_lb/calc_ub")],
 observe=["bytes in sparse mappings several GiB long, reported lb/ub/extent"])

p("C17","Valid use is silent, misuse is stopped",
 "Valid calls return success, never end the process and write nothing to standard output or error. "
 "The misuses the library undertakes to catch (rank, root, source or destination other than the only process, use of an uncommitted type where data is to be transferred, a collective asked to deliver more than is contributed, exceeding pack buffers, grids or node counts above one, group operations on a null group, on ranks a non-empty group does not have, or translating ranks of an empty group, initialising while initialised or after objects were created, more live handles than supported) each end the process with a diagnostic before user data is altered (an exceeded pack buffer or the target of an exceeding unpack may be filled with what does fit), and never return.",
 ["inputs","histories"],
 "every call with valid or invalid argument values at any point of a history",
 "No test exercises a misuse path (they end the process), and nothing checks that valid calls are silent.",
 ["send.c","recv.c","probe.c","collective.c","copy.c","pack.c","group.c","cart.c","handles.c","comm.c"],
 [("argument checks","abort()/exit() sites in each file")],
 observe=["exit status, diagnostics and user buffers of child processes making one misuse each; output of all valid workloads"])

p("C18","Environment services",
 "The initialised query is false before initialisation, true after it and false after finalisation; thread initialisation returns a thread level; processor name, error strings and library version are terminated (blank-padded in Fortran where documented), fit the documented maximum lengths and report their exact length, an error string naming the code it is asked for; the clock advances with real time and never returns nonsense. "
 "Aborting ends the process with the given code and a diagnostic that names it. The version queries agree with the version constants.",
 ["inputs","configurations","histories"],
 "any point in the life of a program, any error code, any host name the system can report (including too long ones and failures), C and Fortran",
 "The tests print some of these values without checking them, on one host name.",
 ["mpi.c","time.c","error.c","info.c"],
 [("state flag","mpi.c initialized"),("string services","mpi.c MPI_Error_string, MPI_Get_processor_name, MPI_Get_library_version"),("clock","time.c")],
 observe=["buffers with guard zones, exit statuses, comparison with the system's own clock and host name (interposed)"])

p("C19","Thread-serialised use",
 "A program that initialises with a thread level and never has two threads inside the library at the same time gets the same results as a single-threaded one, whichever threads make the calls: no state is tied to a thread. "
 "The thread level reported by initialisation is one the library really supports.",
 ["schedules","histories"],
 "every distribution of a valid call history over several threads, with the hand-over points chosen arbitrarily; at the highest level granted, concurrent calls too",
 "The tests are single-threaded.",
 ["mpi.c","handles.c","list.c","send.c","recv.c"],
 [("global state","handles.c free list, list.c counters, mpi.c initialized"),("granted level","mpi.c MPI_Init_thread, fort.F90 mpi_init_thread")],
 observe=["thread sanitizer reports and the usual result oracles"])

p("C20","Topology and intercommunicator calls",
 "Cartesian creation with dimensions of at most one, for any number of dimensions, gives a working communicator distinct from its parent; the topology queries report dimensions of one and coordinates of zero and the periods given, dimension suggestions are all one, and only the requested number of entries is written. "
 "Intercommunicator creation and merging give working, distinct communicators, or the null communicator for null input.",
 ["inputs","histories"],
 "any number of dimensions and any periods, any parent communicator, C and Fortran, mixed with communication on the resulting communicators",
 "cart.c and ic_merge.c are not called by any test.",
 ["cart.c","comm.c","ic_merge.c"],
 [("topology","cart.c"),("intercommunicators","comm.c MPI_Intercomm_create, ic_merge.c")],
 observe=["output arrays with canaries, communication on the results"])

p("C21","Type-checking build flags exactly the mismatches",
 "In the type-checking configuration a transfer whose sent and received basic-type sequences agree behaves exactly as in the default configuration, for point-to-point and collective calls alike. "
 "A transfer that would store an element of one basic type as another stops the process with a diagnostic; only agreeing elements before the mismatch may have been stored.",
 ["inputs","configurations"],
 "every pair of datatypes and counts on the two sides, differing in any position of the element sequence or in none",
 "The option is off in the tested build, so its code is not even compiled.",
 ["copy.c","configure.ac"],
 [("element type comparison","copy.c TYPE_CHECKING block")],
 observe=["exit status and diagnostics of a library built with the option, same data oracles"])

p("C22","Resources are conserved",
 "Whatever is created and released again leaves nothing behind: repeating any balanced history does not increase the memory the library holds, the number of handles in use or the depth of any queue, however often it is repeated. "
 "Blocking calls and completed operations hold no resources after they return. Finalising with everything released leaves no more memory in use than initialising had taken.",
 ["histories"],
 "every history in which all requests are completed or freed, all types and communicators freed, repeated any number of times",
 "The tests run once and exit; a leak per operation is invisible.",
 ["req.c","type.c","comm.c","list.c","handles.c","send.c"],
 [("release paths","handles.c mpi_free_handle, list.c AP_list_delete_item, type.c MPI_Type_free, comm.c MPI_Comm_free")],
 observe=["interposed allocator: live blocks and bytes attributed to the library at quiescent points; handle values"])

p("C23","Running out of memory is survived or reported",
 "If any memory request made by the library fails, the call either still succeeds with correct results or ends the process with a diagnostic. "
 "It never crashes, continues on a missing object, or corrupts or misdelivers user data.",
 ["fault_sequences","crash_points"],
 "every allocation made during a covering workload, failed one at a time (and from that point on)",
 "Allocation never fails in the tests.",
 ["handles.c","list.c","type.c","comm.c"],
 [("checked allocation","handles.c mpi_malloc, list.c AP_listitem_malloc, type.c")],
 observe=["interposed allocator failing the n-th request; exit status and diagnostics; data oracles"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["id"]
        f.write(json.dumps(x)+"\n")
print(len(P))
