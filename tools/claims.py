NOTES = "All checks compile hyperbee from /repo/src (see DESIGN.md) and explore it exhaustively within stated bounds."
RUN = {"C22": "./run_ffi.sh"}
NOT_APPLICABLE = {}
ENV = "Trusts the stand-in core (append-only log, atomic appends), the independent decoder and the reference in mc/harness."
CLAIMS = {
 "C01": ("explicit-state search over tree shapes; every transition of the reference model replayed on the implementation",
         "model_checking", "Exhaustive over all tree shapes up to a key bound, operation sequences up to a depth, local situations of 3-level trees, small awkward alphabets; plus fixed long histories. " + ENV),
 "C02": ("explicit-state search over tree shapes; B-tree invariants checked on every stored tree the implementation writes",
         "model_checking", "Same space as C01; invariants evaluated by an independent decoder on every reached state. " + ENV),
 "C03": ("explicit-state search over tree shapes; bytes appended by the implementation compared with the reference model's on every transition",
         "model_checking", "Same space as C01; the reference is a re-implementation of JavaScript Hyperbee (the package itself is not available offline). " + ENV),
 "C19": ("explicit-state search over tree shapes; log length compared after every operation, including all that must not write",
         "model_checking", "Exhaustive over shapes up to a key bound and all operation kinds. " + ENV),
 "C05": ("explicit-state search over tree shapes; every traversal range replayed on the implementation and compared with the contents",
         "model_checking", "Exhaustive over shapes up to a key bound, all bounds (outside, on, between keys), inclusivities and directions, cold and warm caches, immediate and delayed reads; plus all subsets of awkward byte-string keys. " + ENV),
 "C06": ("exhaustive enumeration of builder call sequences over a finite alphabet of limits, against the stated rule",
         "exploration", "All combinations of unset, infinite and finite limits (set once or twice, in any order), inclusivities and directions."),
 "C07": ("exhaustive enumeration of limits and byte strings up to a length, all operators and operand orders",
         "exploration", "All byte strings up to a length over boundary bytes, all single bytes, long strings; numbers up to a bound and around powers of 2 and 10."),
 "C08": ("exhaustive search over operation sequences through subs and parent; results and appended bytes compared with the same operation on the parent",
         "model_checking", "All prefixes, separators and keys of an alphabet of empty, 0x00/0xff and nested strings, sequences up to a depth. " + ENV),
 "C09": ("exhaustive search over stored key sets and sub ranges on the implementation, compared with the filtered contents",
         "model_checking", "All subsets of the keys of a sub and of the keys around it, all prefixes and separators of an alphabet, all ranges. " + ENV),
 "C10": ("explicit-state search over tree shapes; conditional operations replayed with every predicate, calls of the predicate recorded",
         "model_checking", "Exhaustive over shapes up to a key bound, all keys and gaps, accepting, rejecting and panicking, followed by every further operation. " + ENV),
 "C11": ("stateless exploration of all task interleavings of the implementation up to a preemption bound; linearizability checked per schedule",
         "model_checking", "Two and three tasks on stores where operations collide, split and merge; scheduling points at every lock acquisition and core operation; bound per program counted in the evidence; crowds of up to 40 tasks within a delay bound. " + ENV),
 "C12": ("stateless exploration of all interleavings under strict wake-up semantics, plus exhaustive delays of core operations",
         "model_checking", "Deadlock, lost wake-up, livelock and panic detection on every schedule within the preemption bound, tasks dropped or no longer polled at every point, crowds of up to 70 tasks within a delay bound. Real tokio locks are executed. " + ENV),
 "C13": ("exhaustive fault injection: every core operation of every operation fails, singly and in pairs, on every reachable tree shape",
         "fault_enumeration", "All shapes up to a key bound plus two- and three-level shapes; contents, retry and continuation compared with the specification; pairs of concurrent operations with a failing core operation under all schedules within a bound. " + ENV),
 "C14": ("exhaustive cancellation: every operation dropped at every suspension point, on every reachable tree shape",
         "fault_enumeration", "Suspension points are all lock acquisitions and core operations (before and after they take effect); contents and continuations compared. " + ENV),
 "C15": ("explicit-state search: every mutation at every position (and suspension point) of every traversal",
         "model_checking", "All shapes up to a key bound, plus patterns with a mutation before every item. " + ENV),
 "C18": ("exhaustive damage: every truncation, byte change and structural omission of every block, every operation",
         "fault_enumeration", "Single-block damage on a family of starting logs; damage that makes nodes refer to each other in a cycle is skipped and counted. " + ENV),
 "C21": ("exhaustive lookups through the exported C symbols on tokio's real runtime, with every block missing, damaged or failing",
         "fault_enumeration", "All keys and gaps of a family of stores, all value kinds; allocator tracking for the buffers handed over. " + ENV),
 "C23": ("explicit-state search over tree shapes; height and printed text compared with an independent decoder's",
         "model_checking", "All shapes up to a key bound, two- to four-level trees. " + ENV),
 "C24": ("exhaustive fault injection into every read of every traversal",
         "fault_enumeration", "Failing and missing reads, singly, in pairs and from some point on, on all shapes up to a key bound, all ranges. " + ENV),
 "C04": ("exhaustive search over operation histories with a stop after every block, each prefix reopened and continued on the implementation",
         "model_checking", "All sequences up to a depth over a small alphabet, one and two mutations from all shapes up to a key bound, long histories; in memory and in storage directories. " + ENV),
 "C16": ("explicit-state search over sets of missing blocks, orders of arrival and operations, on the implementation",
         "model_checking", "All subsets of missing blocks of logs with up to 10 blocks; single blocks, pairs, prefixes, suffixes and complements on larger ones; all orders of arrival up to 6 blocks. " + ENV),
 "C17": ("exhaustive operation sequences over two handles, and stateless exploration of all interleavings of a writing and reading handles",
         "model_checking", "Sequences up to a depth on small stores, every mutation of every shape up to a key bound; schedules up to a preemption bound per program, counted in the evidence. " + ENV),
 "C20": ("exhaustive operation sequences, faults, cancellations and interleavings of first writes; block 0 decoded after each",
         "model_checking", "All sequences up to a depth over 17 operations, all metadata of an alphabet, all schedules of two and three first writes within the preemption bound. " + ENV),
 "C25": ("exhaustive operation sequences and interleavings with added streams; every order of delivery between two connected stores",
         "model_checking", "All sequences up to a depth, every operation of small shapes failed or cancelled in between, all delivery orders up to 6 blocks. " + ENV),
 "C26": ("exhaustive histories with every operation completed, failed, cancelled or suspended at every point; users of the core counted after everything is dropped",
         "fault_enumeration", "All operations from all shapes up to a key bound and larger trees. " + ENV),
 "C22": ("exhaustive operation sequences through the generated Python bindings, compared step by step with the Rust API",
         "model_checking", "All sequences up to a depth over alphabets of get, put, delete and version on stores and subs, through the real uniffi 0.26.1 bindings in CPython. " + ENV),
 "C27": ("explicit-state search over tree shapes; every operation replayed on the implementation with all blocks outside its specified set missing",
         "model_checking", "All shapes up to a key bound, all keys, gaps and ranges; the needed set is computed by an independent decoder from the stored tree. " + ENV),
 "C28": ("explicit-state search over batches of a model of the JavaScript implementation; every log and continuation replayed on the implementation, bytes compared",
         "model_checking", "All pairs and triples of mutations in a batch on shapes up to a key bound, every listed encoding of every block; the model re-implements Batch.flush (the package itself is not available offline). " + ENV),
 "C29": ("explicit-state search over tree shapes, faults, cancellations and interleavings, replayed on the implementation under a tracing subscriber",
         "model_checking", "A subscriber of each level (spans, events, both) formats every field; the stores are formatted after each step and at every scheduling point. " + ENV),
 "C31": ("exhaustive fault injection (every core operation failing, every block missing, unreadable or damaged) on the implementation, comparing the cause each error names",
         "fault_enumeration", "One fault at a time (and all from some point on) in every operation on all shapes up to a key bound and characteristic larger ones. " + ENV),
 "C30": ("exhaustive sequences of operations on two stores of one process, and of suspension, failure and drop points of one while the other is used, on the implementation",
         "model_checking", "All sequences up to a depth from several pairs of stores; every operation of all shapes up to a key bound stopped at points of its execution while operations on a second store with the same keys run. " + ENV),
}

