#!/usr/bin/env python3
"""Single source of properties.jsonl (run by hand after an edit; output is committed)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Switching partitionings with the preserve flow never loses or corrupts data",
 "When a container is switched to another partitioning with the preserving data flow, every process afterwards finds, at every index it owns, the value that was written for that index before the switch, provided the index had exactly one owner before, or several owners holding the same value. This holds for 1-, 2- and 3-dimensional index spaces, for any ownership pattern without reduction (blocks, halos, full replicas, scattered or empty parts, several memory areas per process), every predefined element type and any sequence of switches. Indexes that a process keeps owning also keep their values.",
 ["inputs","programs","histories","configurations"],"all pairs/sequences of partitionings of 1d/2d/3d spaces, all element sizes, 1..n processes",
 "The tests run a few example programs with block/halo/all partitionings at a handful of sizes and compare a final checksum; arbitrary ownership patterns, dimension mixes and switch histories are never sampled.",
 ["src/space.c","src/data.c","src/action.c","src/backend-mpi.c","src/backend-single.c","src/layout_lex.c"],
 [("transition calculation","src/space.c do_calc_transition"),("container switch","src/data.c laik_switchto_partitioning"),("pack/copy/unpack","src/layout_lex.c"),("execution","src/backend-mpi.c laik_mpi_exec_actions")])

p("C02","Reducing switches combine every contribution exactly once",
 "When a container is switched with a reduction, every process afterwards finds, at every index it owns, the combination under that operation of the values held by all processes owning the index before the switch, each counted exactly once. This holds for every predefined element type and the operations sum, product, minimum, maximum and (for integers) bitwise and/or, and for each communication strategy a backend can use to carry out the reduction. Ownership before and after is arbitrary in 1-d spaces; in 2-d and 3-d spaces it covers reductions from all processes to all or to a single one; indexes without previous owner become the neutral element.",
 ["inputs","programs","configurations"],"all predefined types x operations x ownership patterns x reduction strategies",
 "Tests reduce a sum over doubles from all processes to all or to the master; other types, operations, subset groups and the alternative reduction implementations are unsampled.",
 ["src/space.c","src/action.c","src/type.c","src/backend-mpi.c","src/backend-tcp2.c","src/backend-single.c"],
 [("reduction groups","src/space.c do_calc_transition / appendRedTOp"),("2/3-round reduction expansion","src/action.c laik_aseq_splitReduce, laik_aseq_addReduce*"),("native reduction","src/backend-mpi.c laik_mpi_exec_reduce, laik_mpi_exec_groupReduce")])

p("C03","Init and none flows set exactly the promised elements and move nothing",
 "In a 1-d space, a switch with the initialising flow leaves every element a process owns afterwards equal to the neutral element of the given operation, and a switch with no data flow (in any space) transfers nothing. Neither kind of switch exchanges data messages between processes, and elements outside the switched container are never modified.",
 ["inputs","programs"],"all types x operations x ownership patterns",
 "Tests only init a double sum container before accumulating into it.",
 ["src/space.c","src/data.c","src/type.c"],
 [("init operations","src/space.c do_calc_transition"),("init execution","src/data.c initMaps"),("type init functions","src/type.c laik_*_init")])

p("C04","Communication of collective operations always matches and terminates",
 "For every collective operation sequence, each message a process sends is received by exactly one matching receive of the same size and element type at its addressee, in the same relative order, and nothing is left over when the program ends. No process waits forever, whether the transport buffers messages or only completes a send when the receiver is ready, and whatever the relative speed of the processes. Buffers handed to asynchronous communication are not read or modified by the program before the operation completes.",
 ["programs","schedules","configurations"],"all action sequences generated from transitions, under eager/rendezvous transports and arbitrary process speeds",
 "Tests run on a shared-memory MPI that buffers small messages, so mismatched sizes, wrong orders, missing receives and send/send cycles pass unnoticed.",
 ["src/backend-mpi.c","src/action.c","src/space.c","src/kvs.c"],
 [("2-phase ordering","src/action.c laik_aseq_sort_2phases"),("async transformation","src/backend-mpi.c laik_mpi_asyncSendRecv"),("transition send/recv lists","src/space.c")])

p("C05","Precomputed transitions, action sequences and reservations act like direct switches",
 "Executing a transition or action sequence that was computed in advance, with or without reserved memory, has the same effect on container contents and active partitioning as the corresponding direct switch. It can be executed repeatedly, and interleaved with other switches of the same container, with the same effect every time.",
 ["programs","histories"],"all sequences mixing direct switches, precomputed transitions and action sequences, with and without reservations",
 "One example (jac1d) uses a reservation with one fixed alternation of two partitionings.",
 ["src/data.c","src/action.c","src/backend-mpi.c"],
 [("laik_exec_transition","src/data.c"),("laik_calc_actions / laik_exec_actions","src/data.c"),("laik_reservation_alloc","src/data.c")])

p("C06","Results do not depend on backend or communication options",
 "The same program with the same input ends with the same container contents whichever communication backend runs it, and whichever communication options (own or native reductions, synchronous or asynchronous transfers, text or binary encoding) are selected.",
 ["configurations","programs"],"all backends and option settings",
 "Tests compare fixed example outputs per backend at a few process counts with default options.",
 ["src/backend-mpi.c","src/backend-tcp2.c","src/backend-tcp.c","src/backend-single.c","src/action.c"],
 [("MPI options","src/backend-mpi.c laik_mpi_prepare"),("tcp2 encoding","src/backend-tcp2.c send_data/got_data"),("tcp options","src/backends/tcp/config.c")])

p("C07","Built-in partitioners cover the index space with the promised multiplicity",
 "Every built-in partitioner run on any index space and group assigns only ranges inside the space to existing processes. Block, bisection, grid and reassign partitionings assign every index to exactly one process; the all-partitioner assigns every index to every process, the master-partitioner every index to the first process; halo partitionings assign every index to at least one process. This holds for spaces with arbitrary (also non-zero-based and smaller than the number of processes) bounds.",
 ["inputs","configurations"],"all spaces, group sizes and partitioner parameters",
 "Tests use a few sizes that divide nicely and small groups of processes.",
 ["src/partitioner.c","src/partitioning.c"],
 [("run*Partitioner","src/partitioner.c")])

p("C08","Built-in partitioners produce the documented shapes and balance",
 "Block partitionings are contiguous, in process order, repeated for the requested number of cycles, and share the total index weight in proportion to the process weights, each border at most one index off. Halo partitionings extend each base range by exactly the depth in each dimension (with or without corners), clipped to the space; copy partitionings follow their source in the copied dimension and span the others; reassignment moves only indexes of leaving processes or those needed to feed joining ones and keeps the weights balanced.",
 ["inputs","configurations"],"all spaces, weights, cycles, depths, group sizes",
 "Examples use uniform weights and depth 1; they would not notice a shifted, unbalanced or wrongly clipped part because results stay numerically equal.",
 ["src/partitioner.c"],
 [("block partitioner","src/partitioner.c runBlockPartitioner"),("halo partitioners","src/partitioner.c runHaloPartitioner/runCornerHaloPartitioner"),("copy/reassign","src/partitioner.c")])

p("C09","Partitioning queries report exactly the assigned ownership",
 "For any list of ranges assigned to processes, the queries about it (number of ranges and memory areas per process, access to the n-th range, whether it covers the space, whether the whole space was given to all processes or to a single one, whether two partitionings consist of the same ranges) answer exactly according to the index-to-owner relation the partitioner produced. No assigned index is lost or attributed to another process.",
 ["inputs"],"all range assignments",
 "Only a couple of partitionings are queried by the examples; full-coverage and equality answers have fast paths that are never cross-checked.",
 ["src/rangelist.c","src/partitioning.c"],
 [("laik_rangelist_freeze","src/rangelist.c"),("laik_rangelist_coversSpace/isAll/isSingle/isEqual","src/rangelist.c")])

p("C10","Range and index-space algebra is exact",
 "Intersection, containment, emptiness, equality, expansion, size and copy of ranges, and size, dimension and bounds of index spaces agree with their set-theoretic meaning for 1-, 2- and 3-dimensional ranges with arbitrary 64-bit bounds whose sizes are representable.",
 ["inputs"],"all ranges/spaces",
 "No unit test exercises range algebra; examples use small non-negative bounds.",
 ["src/space.c"],
 [("laik_range_*","src/space.c")])

p("C11","Every process sees the same partitioning, filtered or not",
 "Any process that computes a partitioning completely, only for its own part, or only for the part intersecting another partitioning, sees exactly the ranges (and memory-area numbering) that the complete partitioning contains for that part. Two processes, or two runs of the same partitioner with the same input, never disagree about ownership.",
 ["inputs","configurations"],"all partitioners, spaces, groups, filters",
 "Filters are only used with block/halo partitionings in examples, where a lost range shows only as missing communication in special cases.",
 ["src/partitioning.c","src/rangelist.c"],
 [("filters","src/partitioning.c laik_rangefilter_*"),("store_*ranges","src/partitioning.c")])

p("C12","Range lists are brought into a canonical form that keeps ownership",
 "After a partitioner ran, the ranges are ordered by process; ranges of a process with the same non-zero tag form one memory area and untagged ranges one each; requesting merging in 1-d spaces joins overlapping or adjacent ranges of the same process and tag and nothing else. Lists built from single indexes describe the same ownership as lists built from equivalent ranges, with one memory area per process.",
 ["inputs"],"all range insertion orders, tags, flags",
 "Only two examples use tags or single-index mode, with one insertion order.",
 ["src/rangelist.c","src/partitioning.c"],
 [("freeze/sort/merge","src/rangelist.c"),("map offsets","src/rangelist.c updateMapOffsets")])

p("C13","Memory layouts are bijective and pack/unpack/copy are faithful",
 "A memory layout maps the indexes of each memory area one-to-one into the area's allocation, lexicographically for the default layout with the reported strides. Packing a range and unpacking it elsewhere, in any split into buffers of any size, or copying it directly, transfers exactly the elements of that range and touches nothing else. Specialised and generic implementations give the same result.",
 ["inputs"],"all ranges, layouts, buffer sizes, element sizes, 1-3 dimensions",
 "Buffers in examples are always large enough for a single chunk and ranges start at the layout origin.",
 ["src/layout.c","src/layout_lex.c"],
 [("offset_lex/pack_lex/unpack_lex/copy_lex","src/layout_lex.c"),("generic versions","src/layout.c")])

p("C14","Memory-area access and index conversions are exact inverses",
 "For every process, memory area and owned index, the reported base address, sizes, strides and local index address the same element that any other access path reports; converting a global index to local and back is the identity, and indexes outside all memory areas of a process are reported as such.",
 ["inputs","programs"],"all partitionings with one or more memory areas, all dimensions",
 "Examples use one area and zero offsets mostly.",
 ["src/data.c","src/space.c"],
 [("laik_get_map*","src/data.c"),("laik_global2local*/local2global*","src/data.c")])

p("C15","Container memory is allocated, reused and released correctly",
 "Every memory area handed to the application is large enough for all its indexes, distinct areas that are live together never overlap, and memory is requested from and returned to the container's allocator exactly once, so nothing is leaked, freed twice or used after being freed. Memory provided by the application is used when it fits and never freed, and reserved memory is only released with the reservation.",
 ["programs","histories"],"all sequences of switches, reservations, user allocators, provided memory and frees",
 "Tests do not count allocations and run without memory checkers.",
 ["src/data.c"],
 [("laik_allocateMap/freeMap","src/data.c"),("reservations","src/data.c laik_reservation_*"),("laik_data_provide_memory","src/data.c")])

p("C16","Process groups derive consistently on all processes",
 "Shrinking, cloning and uniting groups yields on every process a group with the expected members in the expected order, where each process has its own unique id (or is reported as non-member), the parent relation and location information match, and collective operations on the new group involve exactly its members.",
 ["inputs","histories","configurations"],"all chains of group derivations and member lists",
 "One test shrinks a group once.",
 ["src/core.c","src/backend-mpi.c","src/backend-tcp2.c"],
 [("laik_new_shrinked_group/laik_clone_group/laik_new_union_group","src/core.c"),("updateGroup","src/backend-mpi.c")])

p("C17","Migrating partitionings between groups keeps ownership",
 "Migrating a partitioning to a derived group keeps each range with the same process under its new id, for all processes alike, and is refused or impossible only when a process that would vanish still owns something. Data held under the migrated partitioning stays accessible and can be switched within the new group without loss.",
 ["inputs","histories"],"all partitionings and group derivations",
 "Only one example path (shrinking in jac/vsum2-like programs) migrates, with block partitionings.",
 ["src/partitioning.c","src/rangelist.c","src/core.c"],
 [("laik_partitioning_migrate","src/partitioning.c"),("laik_rangelist_migrate","src/rangelist.c")])

p("C18","Key-value store synchronisation makes all processes agree",
 "After a collective synchronisation of a key-value store, every process holds the same key-value set: the previously agreed entries updated with all changes made by any process since the last synchronisation. Nothing is lost, truncated, duplicated or invented for arbitrary numbers of processes, keys and byte-string values, including repeated updates of the same key and processes without changes.",
 ["inputs","histories","configurations"],"all histories of per-process set/remove operations between synchronisations",
 "One test sets a few short text keys per process and prints them.",
 ["src/kvs.c","src/backend-mpi.c","src/backend-tcp2.c","src/backend-tcp.c"],
 [("laik_kvs_sync / changes","src/kvs.c"),("MPI tree sync","src/backend-mpi.c laik_mpi_sync"),("tcp2 sync","src/backend-tcp2.c tcp2_sync")])

p("C19","A key-value store behaves as a map between synchronisations",
 "Locally, a key-value store behaves as a map from keys to byte strings: reading returns exactly the last value set, removed keys are absent, counting and enumeration list each key once, and sorting orders by key without changing content. Registered callbacks are invoked exactly for the entries created, changed or removed by a synchronisation.",
 ["inputs","histories"],"all local operation sequences",
 "The test uses a handful of operations in a single order.",
 ["src/kvs.c"],
 [("set/get/remove/sort/find","src/kvs.c")])

p("C20","Objects and locations published between processes arrive unchanged",
 "Index spaces published through the instance's space store are found by every other process under the same name with the same dimensionality and bounds, and follow later changes after the next synchronisation. Location names of all processes are known to all of them after start and map to the right process.",
 ["inputs","histories"],"all published spaces, updates and group sizes",
 "One test publishes one fixed space per process.",
 ["src/space.c","src/core.c","src/kvs.c"],
 [("laik_sync_spaces / spacestore","src/space.c"),("laik_sync_location","src/core.c")])

p("C21","Elastic worlds: processes join and leave only at resize points and all agree",
 "With the elastic TCP backend, the world changes only when all members allow it; afterwards all old and new members agree on epoch, size and order, ids are unique and dense, joining processes learn the phase, and leaving processes are reported as non-members. Every process that asked to join or was asked to leave is served at a following resize, remaining members keep their data, and collective operations work in every resulting world.",
 ["histories","schedules","configurations"],"all sequences of join/remove requests and resize points at arbitrary timing",
 "Tests run a few fixed start/removal patterns with fixed timing.",
 ["src/backend-tcp2.c","src/core.c"],
 [("tcp2_resize","src/backend-tcp2.c"),("laik_allow_world_resize","src/core.c"),("registration protocol","src/backend-tcp2.c got_register/got_myid/...")])

p("C22","The TCP control port tolerates arbitrary clients",
 "Text or binary sent by arbitrary (unregistered, malformed, disconnecting) clients to a process's control port never crashes it, corrupts its memory, or disturbs the running computation's results. Informational requests get an answer. (The port has no authentication: clients that announce themselves as an existing process, and well-formed requests to register, remove or terminate processes, do what they ask for.)",
 ["inputs","fault_sequences","schedules"],"all byte streams and disconnect points from clients",
 "Tests only send a well-formed removal request.",
 ["src/backend-tcp2.c"],
 [("line parser","src/backend-tcp2.c got_bytes_rbuf/process_rbuf"),("commands","src/backend-tcp2.c got_*")])

p("C23","The multi-threaded TCP transport delivers exactly once, in order, race-free",
 "With the socket-based message-passing backend, every message sent between two processes is delivered exactly once with unchanged content to the matching receive, whatever the connection limits, buffer sizes, retry settings and thread timing. Its internal client and server threads never race on shared state or touch released memory, and shutdown completes.",
 ["schedules","configurations","inputs"],"all message patterns, inbox/outbox limits, timings",
 "Tests run a few examples with default configuration.",
 ["src/backends/tcp/minimpi.c","src/backends/tcp/messenger.c","src/backends/tcp/client.c","src/backends/tcp/server.c","src/backends/tcp/map.c"],
 [("messenger inbox/outbox","src/backends/tcp/messenger.c"),("blocking map","src/backends/tcp/map.c"),("minimpi collectives","src/backends/tcp/minimpi.c")])

p("C24","Example applications compute the serial result on any number of processes",
 "Each example application produces the same numerical result for every number of processes, partitioning option, backend and repartitioning point as its sequential computation.",
 ["configurations","inputs"],"all sizes, iteration counts, process counts, options",
 "Tests pin a few parameter sets.",
 ["examples/jac1d.c","examples/jac2d.c","examples/jac3d.c","examples/spmv.c","examples/markov.c","examples/vsum.c","src/data.c","src/space.c"],
 [("whole library","src/*")])

p("C25","Switch statistics report the traffic that really happened",
 "The statistics kept per container (messages and bytes sent, received and reduced, memory currently and maximally allocated) equal the communication and allocation that actually took place, for every switch sequence.",
 ["programs","histories"],"all switch sequences",
 "No test reads the statistics except a few printed totals.",
 ["src/data.c","src/action.c"],
 [("laik_switchstat_*","src/data.c"),("action statistics","src/action.c")])

p("C26","Logging and tracing are faithful and without side effects",
 "Log messages of any length and content are written completely and in order with the configured prefix, at exactly the levels and processes selected; panics are always shown and stop the program. Enabling any log level, log file or profile output changes neither the results of a program nor its communication, and never corrupts memory.",
 ["inputs","configurations","programs"],"all messages, levels, program runs",
 "Tests run with logging off or at one level.",
 ["src/logging.c","src/debug.c"],
 [("laik_log_append/flush","src/logging.c"),("laik_log_*","src/debug.c")])

p("C27","Element-type operations implement their arithmetic",
 "For each predefined element type, initialising writes the neutral element of each supported operation into exactly the requested number of elements, and reducing writes the element-wise combination of both inputs, treating an absent input as neutral, also when output and input are the same memory. Registered user types keep their name, size and functions.",
 ["inputs"],"all types, operations, lengths, values, aliasings",
 "Only double sums are exercised.",
 ["src/type.c"],
 [("laik_*_init, laik_*_reduce","src/type.c")])

p("C28","Repartition control, agents and profiling follow their contract",
 "Program iteration and phase information is returned as set, external agents are loaded, queried and detached in the registered order without loss, failed-node requests reach the repartition logic, and profiling measures only the enabled intervals and writes to the requested file.",
 ["histories","configurations"],"all call sequences",
 "One example with one agent.",
 ["src/external.c","src/program.c","src/profiling.c"],
 [("laik_ext_*","src/external.c"),("laik_set_iteration etc.","src/program.c"),("profiling","src/profiling.c")])

p("C29","No API workload causes memory errors, undefined behaviour or leaks",
 "Any valid program using containers, partitionings, groups, stores and transitions in any order, including freeing them in any permitted order and finalising with objects still alive, executes without invalid memory access, undefined behaviour, failing internal consistency checks or growing memory use across repetitions.",
 ["programs","histories"],"all valid API call sequences",
 "Tests run without sanitizers and free little.",
 ["src/core.c","src/data.c","src/space.c","src/partitioning.c","src/action.c","src/kvs.c"],
 [("object life cycles","src/*.c")])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
