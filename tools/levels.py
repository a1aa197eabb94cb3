NA = {}
COMMON = " The conformance part covers the executions explored (every transition of the bounded model plus seeded random behaviours); memory errors are seen through AddressSanitizer. Trusts TLC, the drivers and the instrumented element/allocator types."
CONC = " Conformance covers the programs and schedules explored; memory-order weaknesses are seen only through happens-before tracking of the orders actually used, not through simulated weak behaviours. Trusts TLC, the scheduler runtime, and the code generation of clang for atomics."
CHECKS = {
 "C01": {"note": "Exhaustive check that the implementation-shaped model (blocks, growth, moves) implements the abstract sequence specification for small shapes; every model transition and random longer histories replayed on Vec, Stack, Array, Slice for four element categories, each observed step validated against the specification." + COMMON},
 "C02": {"note": "Exhaustive check that the circular-buffer model implements the FIFO specification for small capacities and every head position; every model transition and random longer histories replayed on Queue for four element categories." + COMMON},
 "C03": {"note": "Exhaustive check that the sift-up/sift-down model implements the bag-with-minimum specification for small sizes and all value patterns with ties; every model transition and random longer histories replayed on Heap for four element categories." + COMMON},
 "C04": {"note": "Exhaustive check that the robin-hood model implements the finite-map specification for small key sets with adversarial hash patterns; every model transition and random longer histories replayed on Map with user-chosen hashes, for several key and value categories." + COMMON},
 "C05": {"note": "Exhaustive check of the string design model against the byte-sequence specification for short strings over an adversarial alphabet; every model transition and random longer histories replayed on String and String_View, each observed result validated against the specification." + COMMON},
 "C06": {"note": "Exhaustive check that the ownership model of Box, Opt, Variant, Function, Pair and Tuple destroys each content once and keeps moved content; every model transition and random longer histories replayed on the real types with instrumented contents." + COMMON},
 "C07": {"note": "Exhaustive check that the reference-count model of Rc and the linearizable counting protocol of Arc destroy each object once, exactly when its last reference goes, for small programs and every interleaving; every transition and random longer histories replayed on Rc (all payload and allocator kinds), and concurrent programs over Arc run under the deterministic scheduler with every distinct history validated." + COMMON + CONC},
 "C08": {"note": "Exhaustive check that the block-list/size-class model of the range allocator keeps ranges disjoint, aligned and coalesced and fails only without a fitting gap, for small heaps; every model transition and random longer histories (larger heaps, several heap sizes) replayed on Range_Allocator." + COMMON},
 "C09": {"note": "Exhaustive check of the region-stack model (nesting, overflow blocks, depth) against the abstract open-blocks specification; every model transition and random longer histories replayed on the real regions, on several threads, with content patterns checked in all open blocks." + COMMON},
 "C10": {"note": "Exhaustive check that the free-list model keeps every block in exactly one place (object, one list, or given back) and that concurrent use of Mpool never gives a block twice, for small instances; every transition and random longer histories replayed on Free_List and Mpool, and concurrent programs run under the deterministic scheduler with every distinct history validated." + COMMON + CONC},
 "C11": {"note": "Exhaustive check of the linearizable lock/condition/atomic specification for small programs; concurrent programs simulated from it are run on the real Mutex, Lock, Cond and Atomic under a deterministic scheduler (preemption-bounded exhaustive, random and priority schedules, injected spurious wakeups), and every distinct history is validated against the specification, including that nothing is left waiting." + CONC},
 "C12": {"note": "Flag protocol (futex word) model checked for every interleaving with liveness; concurrent programs over flags, promises, futures, spawn and Thread simulated from the specification, run on the real code under the deterministic scheduler, and every distinct history validated." + CONC},
 "C13": {"note": "Task state-word protocol (finish, await, block, poll, abandon) model checked for every interleaving with liveness; concurrent programs over task trees and gates simulated from the specification, run on the real coroutines under the deterministic scheduler, and every distinct history validated, with frame and value accounting." + CONC},
 "C14": {"note": "Pool design (worker queues, event thread, shutdown) model checked for every interleaving with liveness; programs of jobs that suspend, wait for events, timers and other jobs, fork and signal, simulated from the specification, run on the real pool under the deterministic scheduler with virtual time, and every distinct history validated: where and when jobs run, what completes, what shutdown releases." + CONC},
 "C15": {"note": "Concurrent programs over events (own and system descriptors), wait_any and timers simulated from the linearizable specification (small instances checked exhaustively), run on the real code under the deterministic scheduler with virtual time, and every distinct history validated, with descriptor accounting." + CONC},
 "C16": {"note": "Exhaustive check that the accounting model (per-name statistics and current address sets, address reuse, finalizers) implements the abstract statistics for small instances; every transition and random longer histories replayed on the real allocators with finalization observed in a process of its own, and concurrent programs run under the deterministic scheduler with immediate address reuse, every distinct history and final report validated." + COMMON + CONC},
 "C17": {"note": "Exhaustive check that the node-vector model of frames (current node, children lists, frame queue) implements the chain-of-scopes specification and that times add up, for all short sequences of one thread; every transition, long single-thread histories and concurrent programs with reports (also from reporting callbacks that allocate or trace) replayed under the deterministic scheduler with virtual time, every distinct report compared node by node." + CONC},
 "C18": {"note": "Specification of deliveries (mutual exclusion of deliveries, subscriptions and unsubscriptions; both sinks) checked exhaustively for small programs; concurrent programs simulated from it run on the real log under the deterministic scheduler, and every distinct history validated: each callback invocation with its level, thread, location and text, tokens, lifetime of callbacks, and the parsed lines of standard output and log file in delivery order." + CONC},
 "C19": {"note": "Model of the two-pass formatter and of the parse loops checked exhaustively against the definition for all short format strings, argument lists and inputs; formatting of all short format strings with every number of arguments (wrong numbers must be refused), of seeded values of about 90 types nested in every container, type names, joining, and parsing of all short and many long inputs executed, and each result recomputed by the specification from the observed structure of the value." + COMMON},
 "C20": {"note": "Model of open/seek/read/write/close with every bounded combination of failures, interruptions, short transfers and concurrent size changes checked against the specification of reading and writing, with liveness; every transition and long random histories (several files, links, directories, permissions, times, watchers, plain and asynchronous functions) executed in a scratch directory with faults injected at chosen system calls, and every result, the files afterwards, and the open descriptors validated." + COMMON},
 "C21": {"note": "Model of socket objects over reused descriptors with per-address queues checked exhaustively against the specification of sockets (one owner per descriptor, closed once, same packets); transitions of a small instance, refused operations and long random histories (five sockets, a foreign sender, all packet sizes, replies to senders, moves) executed over the loopback interface, and every result validated, with descriptor accounting." + COMMON},
 "C22": {"note": "Range, unit and shuffle algorithms checked for every word of a small machine and every bound (exact image, one sequence of draws per permutation); random histories over streams seeded alike, copied and re-seeded executed for all integer types and extreme bounds, where equal points must yield equal results and bounds hold; evenness judged on fixed seeds, extremes of unit by 2^27 draws." + COMMON},
 "C23": {"note": "Every request on both sides of every precondition, for twenty kinds of object in every small state and with arguments up to 2^64 - 1; what must be refused is executed as the end of a script in three build configurations, and the diagnostics of every sink, the exit status and the memory of the object before the end are checked." + COMMON},
 "C24": {"note": "Multi-digit arithmetic of the specification checked exhaustively for narrow numbers; helpers compared with it for arguments at and around every power of two and at random, for eight integer types, under UndefinedBehaviorSanitizer and optimised." + COMMON},
 "C25": {"note": "Single precision is exact on whole numbers, halves and quarters: there every operation must give exactly its definition, and divisions, roots and angles are compared in thousandths by integer inequalities. The formulas of the library (inverse by blocks, box of a transformed box, matrix of a quaternion) checked against the definitions on bounded domains; every angle in thirty degree steps about every axis, half quaternions, Euler triples, look-at directions, and random arguments for about ninety operations on eleven vector types, matrices, quaternions and boxes executed and judged by the specification. Accuracy beyond thousandths and non-finite values are not covered." + COMMON},
 "C26": {"note": "Walks over cell lists, accumulators and layout rule checked against the sequence specification for all short lists and all declared records; every visit of thirteen records (all member kinds, nested, arrays, templates, partial and reordered registration, const members) written to, const and mutable, shallow and deep, by lvalue and rvalue visitors, random histories, all type lists up to four (five) types, all wrappings of twenty types, all pairs of literals and the limits executed, optimised and under sanitizers, and each result recomputed by the specification." + COMMON},
 "C27": {"note": "The counting-down sleep loop (interrupted at any moment, durations split into the units of the system call) checked against never waking early and always waking; random histories of up to five real threads that sleep, are interrupted by real signals, read counters, pin themselves and change priorities, with real time taken from the system around every call, every long duration that a narrower unit would cut, and times of day in zones from -12 to +13 hours." + COMMON},
}
