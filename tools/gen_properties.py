#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line). Kept as the readable source of that file."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

HB = ["get/put/del/put_compare_and_swap/del_compare_and_swap/traverse results", "blocks appended to the core"]

prop("C01", "Reads agree with the history of writes",
 "After any sequence of puts and deletes on a store, getting a key returns the value of its latest put not followed by a delete, together with the log index that put reported, and returns nothing for every other key. Every put reports the log index it wrote and the index of the entry it replaced (if any); every delete reports the index of the entry it removed, or nothing if the key was absent. This holds for arbitrary byte-string keys and values, an absent value stays distinguishable from an empty one, and it does not depend on tree depth, on the log length, or on whether the data is already cached.",
 ["inputs", "histories"], "all operation sequences over all keys and values, from every reachable tree shape",
 "The repo's tests insert decimal strings in a handful of orders up to 100 keys and delete in one shuffled order; the shapes at which splits, rotations and merges cascade through several levels are sampled, never enumerated (and none of these tests runs in this environment).",
 ["src/hb.rs", "src/tree.rs", "src/put.rs", "src/del.rs", "src/lib.rs", "src/blocks.rs", "src/changes.rs"],
 [("binary search in a node and descent", "src/lib.rs get_index_of_key, nearest_node"), ("insert and split", "src/put.rs"), ("remove, rotate, merge", "src/del.rs"), ("block cache", "src/blocks.rs Blocks::get")],
 [("tree node", "key references and child references", "src/lib.rs Node"), ("log", "append-only list of blocks", "hypercore")], HB)

prop("C02", "The stored tree is always a valid balanced B-tree",
 "After every mutation the newest stored tree is a valid B-tree: keys are in strictly ascending byte order over the whole tree, every node other than the root has between 4 and 8 keys and the root at most 8, an internal node has exactly one child more than it has keys, all leaves are at the same depth, and the root has no keys only when the store is empty. Every key reference and child reference it contains points to an existing entry of the log.",
 ["inputs", "histories"], "all operation sequences, from every reachable tree shape",
 "check_tree in the unit tests is run after one shuffled delete order of 100 keys; it does not check equal leaf depth and only samples shapes with two or three levels.",
 ["src/put.rs", "src/del.rs", "src/lib.rs", "src/changes.rs", "src/blocks.rs"],
 [("split", "src/put.rs Node::split"), ("repair: rotate then merge", "src/del.rs repair_one, repair"), ("propagation of new child references", "src/put.rs propagate_changes_up_tree")],
 [("node occupancy", "4..8 keys", "src/lib.rs MAX_KEYS, min_keys")], ["blocks appended to the core"])

prop("C03", "Mutations are byte-identical to JavaScript Hyperbee",
 "Each effective put or delete appends exactly one block that is byte-for-byte the block JavaScript Hyperbee would append for the same history: the key and value given (no value for a delete), and an index holding every changed tree node exactly once, root first, in depth-first order, with child references that point to it. The choice of split point, of replacement key for an internal delete, and of rotation before merge and left before right are JavaScript Hyperbee's. Blocks never contain nodes that are unreachable from that block's root.",
 ["inputs", "histories"], "all operation sequences, from every reachable tree shape",
 "tests/disk.rs compares with a live JS run for about ten fixed histories and cannot run here; a wrong node order or donor choice shows only on particular shapes.",
 ["src/blocks.rs", "src/put.rs", "src/del.rs", "src/changes.rs", "src/schema.proto"],
 [("depth-first reordering", "src/blocks.rs reorder_nodes"), ("wire format", "src/schema.proto"), ("donor and repair choice", "src/del.rs")],
 [("block index", "levels of key seqs and (seq, offset) child pairs", "src/schema.proto YoloIndex")], ["blocks appended to the core"])

prop("C04", "Every prefix of the log is a complete snapshot that survives reopening",
 "Stored blocks are never rewritten, and each mutation becomes visible through a single append; so after a stop between any two appends, reopening what was stored gives exactly the contents after the last completed mutation, with the same answers as the handle that wrote it. Opening an existing storage directory keeps its data, and mutations made after reopening continue the same history.",
 ["crash_points", "histories"], "all operation sequences, all points at which the process stops, all reopenings in between",
 "No test reopens a store it wrote with this library and continues writing, and none looks at intermediate log lengths.",
 ["src/tree.rs", "src/blocks.rs", "src/hb.rs", "src/put.rs", "src/del.rs"],
 [("one append per mutation", "src/blocks.rs add_changes"), ("root is node 0 of the last block", "src/tree.rs get_root"), ("open without overwrite", "src/tree.rs from_storage_dir")],
 [("version", "number of blocks in the log", "src/tree.rs version")], ["a fresh handle opened on each prefix of the recorded log"])

prop("C05", "Range traversal yields exactly the keys in range, in order",
 "For every store contents and every traversal range (minimum and maximum each unbounded or any byte string, inclusive or exclusive, forwards or reversed), the traversal yields every stored key in the range exactly once and nothing else, in ascending byte order (descending when reversed), each with its current value and log index, and then ends. This does not depend on where a bound falls in the tree or on how long the underlying reads take.",
 ["inputs", "histories", "schedules"], "all tree shapes, all bounds and inclusivity and direction combinations, all ways in which underlying reads may be delayed",
 "Unit tests use ten one-digit keys in one two-level tree and bounds 3 and 7; bounds that hit internal keys, gaps, ends of leaves, empty trees and deep trees are not enumerated.",
 ["src/traverse.rs", "src/tree.rs", "src/hb.rs", "src/lib.rs"],
 [("start index per node", "src/traverse.rs make_child_key_index_iter"), ("stop on first key out of bounds", "src/traverse.rs TraverseConfig::in_bounds"), ("hand-written poll state machine", "src/traverse.rs Traverse::poll_next")],
 [("traverse state", "iterator over keys and children, child stream", "src/traverse.rs Traverse")], ["items of the traverse stream"])

prop("C06", "Range configuration accepts satisfiable ranges and rejects empty ones",
 "When both a minimum and a maximum are given, building a traversal configuration is rejected exactly when they contradict each other: when the minimum is above the maximum, when both are equal and not both inclusive, or when the minimum is plus infinity or the maximum is minus infinity. Every other combination is accepted, including explicitly given infinite bounds, and a configuration with at most one bound given is always accepted. A configuration that is built carries exactly the given values, with unbounded, inclusive, forward defaults.",
 ["configurations", "inputs"], "all combinations of set and unset bounds, finite and infinite values, inclusivity and direction",
 "The tests build a few configurations with finite bounds only; explicit infinite bounds and equal bounds are not combined.",
 ["src/traverse.rs", "src/keys.rs"],
 [("builder validation", "src/traverse.rs validate_traverse_config_builder"), ("defaults", "src/traverse.rs TraverseConfig")],
 [], ["TraverseConfigBuilder::build"])

prop("C07", "Infinite limits lie strictly outside every key",
 "Positive infinity compares greater than every byte string and negative infinity less than every byte string, from either side of the comparison, and neither is ever equal to a byte string. A finite limit compares with a key exactly as the byte strings do, and a limit made from a number is its decimal text.",
 ["inputs"], "all byte strings, including empty and all-0xff ones, all comparison operators, both operand orders",
 "test_slice compares two slices with three operators.",
 ["src/keys.rs", "src/traverse.rs"],
 [("comparison impls", "src/keys.rs"), ("limit comparison", "src/traverse.rs LimitValue PartialOrd")],
 [], ["comparison results"])

prop("C08", "Sub-database operations act on exactly the prefixed key",
 "Every get, put, delete and compare-and-swap on a sub-database with prefix P and separator S has exactly the effect and result of the same operation on the parent with the key P followed by S followed by the given key, for all prefixes, separators and keys including empty ones; sub-databases and parent always see each other's writes.",
 ["inputs", "histories"], "all prefixes, separators, keys and operation sequences interleaving parent and several subs",
 "One test with one prefix, one key and the default separator.",
 ["src/prefixed.rs", "src/hb.rs"],
 [("key construction", "src/prefixed.rs with_key_prefix"), ("shared tree", "src/hb.rs sub")],
 [("prefix, separator", "address of the sub-database", "src/prefixed.rs Prefixed")], HB)

prop("C09", "Sub-database traversal yields exactly the keys of that sub",
 "Traversing a sub-database with prefix P and separator S yields exactly the stored keys that start with P followed by S and whose remainder lies in the requested range, in order, with P and S removed, and nothing from the parent or from other subs, for all prefixes, separators, ranges and stored keys; it never panics.",
 ["inputs", "histories", "configurations"], "all prefixes and separators (empty, 0xff-terminated, prefixes of each other), all stored keys, all ranges and directions",
 "The traversal test uses one prefix that contains no special byte and neighbours that share no prefix with it.",
 ["src/prefixed.rs", "src/traverse.rs"],
 [("bounds from prefix", "src/prefixed.rs Prefixed::traverse, increment_bytes"), ("prefix stripping", "src/prefixed.rs Prefixed::traverse")],
 [], ["items of the sub's traverse stream"])

prop("C10", "Compare-and-swap decides on the current entry and applies only if accepted",
 "A compare-and-swap put calls its predicate exactly once, with the key's current entry (index, key, value; nothing if absent) and the entry about to be written; a compare-and-swap delete calls it exactly once with the current entry, and not at all if the key is absent. If the predicate accepts, effect and result are those of the plain operation; if it rejects, nothing changes, the result says so, and later operations behave as if it had not been called; the same holds (without a result) if it panics.",
 ["inputs", "histories"], "all operation sequences in which each conditional operation is accepted or rejected, on all tree shapes",
 "Two tests with one key in a tree of one node; what the predicate is shown is never checked.",
 ["src/put.rs", "src/del.rs", "src/hb.rs", "src/prefixed.rs"],
 [("predicate before mutation", "src/put.rs put_compare_and_swap, src/del.rs del_compare_and_swap")],
 [], HB)

prop("C11", "Concurrent operations on a store are linearizable",
 "When several tasks use one store concurrently, through the store and any of its sub-databases, every put, delete, compare-and-swap, header creation, get and opening of a traversal takes effect atomically at some instant between its call and its return: all results, and the final contents and log, equal those of some sequential order consistent with real time. In particular concurrent writes are never lost, never corrupt the tree, and of several conditional writes expecting the same entry at most one succeeds.",
 ["schedules"], "all interleavings of two or three tasks at every lock and core operation, up to the stated preemption bound, on trees where the operations collide, split and merge",
 "No test runs two operations at once.",
 ["src/hb.rs", "src/prefixed.rs", "src/tree.rs", "src/put.rs", "src/del.rs", "src/blocks.rs"],
 [("lock around the tree", "src/hb.rs Hyperbee::tree, src/prefixed.rs Prefixed::tree")],
 [("shared tree", "tree handle shared by store and subs", "src/hb.rs")], ["call and return history of concurrent operations", "final log"])

prop("C12", "Every operation completes under every schedule",
 "Every operation and every traversal that is polled to completion finishes, whatever other tasks do and however underlying reads and appends are delayed: no deadlock, no lost wake-up, no endless loop, no panic. A traversal that its owner has stopped polling, or a cancelled operation, never blocks other operations.",
 ["schedules", "fault_sequences"], "all interleavings up to the stated preemption bound, all positions at which a task is abandoned or suspended, all delays of core operations",
 "Single-task tests on an in-memory core never suspend inside an operation.",
 ["src/traverse.rs", "src/tree.rs", "src/hb.rs", "src/lib.rs", "src/blocks.rs", "src/prefixed.rs"],
 [("wake-ups in poll_next", "src/traverse.rs"), ("lock acquisition order", "src/lib.rs wchildren, src/tree.rs get_root")],
 [], ["task completion under the controlled scheduler"])

prop("C13", "A failed operation is reported and changes nothing",
 "If the core reports an error on any read or append made during an operation, the operation returns an error (it does not panic and does not report success), and the contents seen through this handle and through a newly opened one are exactly those before it (a failed first put may leave the header behind). Retrying, or continuing with other operations, then behaves as if the failed operation had never been attempted; operations running at the same time are not affected.",
 ["fault_sequences", "histories", "schedules"], "every single core operation of every operation failing (and pairs of failures), followed by every further operation; the same while another operation is running, under every schedule",
 "No test injects a core error.",
 ["src/put.rs", "src/del.rs", "src/blocks.rs", "src/tree.rs"],
 [("error propagation", "src/blocks.rs, src/put.rs, src/del.rs"), ("separation of in-progress changes from cached nodes", "src/changes.rs, src/blocks.rs")],
 [("block cache", "decoded nodes shared between operations", "src/blocks.rs Blocks::cache")], HB)

prop("C14", "A cancelled operation takes effect entirely or not at all",
 "Dropping the future of any operation at any point where it can be suspended leaves the store either exactly as before the operation or exactly as after it (a first put may also leave only the header), as seen through the same handle and through a newly opened one, and later operations work normally from that state.",
 ["schedules", "histories"], "every suspension point of every operation, on all operation kinds and tree shapes in bounds, followed by every further operation",
 "No test drops an operation before it completes (tokio::select or timeouts do so in real use).",
 ["src/put.rs", "src/del.rs", "src/blocks.rs", "src/traverse.rs"],
 [("changes become visible only by the append", "src/blocks.rs add_changes"), ("in-memory nodes", "src/put.rs, src/del.rs")],
 [("block cache", "decoded nodes shared between operations", "src/blocks.rs Blocks::cache")], HB)

prop("C15", "An open traversal is a snapshot",
 "A traversal yields exactly the in-range contents of the store at the time it was opened, regardless of puts and deletes performed on the same store between its items (including ones that split, merge or remove the nodes being visited); it never panics, skips, repeats or shows later data, and the mutations are unaffected by it.",
 ["schedules", "histories"], "all positions of the traversal at which mutations happen, all mutations, all tree shapes in bounds",
 "No test mutates while a stream is open.",
 ["src/traverse.rs", "src/put.rs", "src/del.rs", "src/blocks.rs"],
 [("immutable blocks", "src/blocks.rs"), ("root captured at creation", "src/tree.rs traverse")],
 [("nodes visited by the stream", "shared with the block cache", "src/traverse.rs Traverse::root")], ["items of a stream with mutations in between"])

prop("C16", "A partially replicated store never gives a wrong answer",
 "On a core that holds only some of its blocks, every get, traversal and mutation either gives exactly the answer it would give with all blocks present or reports an error; it never reports a present key as absent, a stale or foreign value, or panics. Once the missing blocks have arrived the same handle answers correctly, and when the core grows it answers for the newest version.",
 ["fault_sequences", "histories"], "all subsets of missing blocks of a log in bounds, all operations, all orders in which blocks arrive",
 "One replication test with one key, which needs the replicator crate and loops until it succeeds.",
 ["src/blocks.rs", "src/tree.rs", "src/traverse.rs", "src/lib.rs"],
 [("missing block is an error", "src/blocks.rs Blocks::get"), ("only successful reads are cached", "src/blocks.rs Blocks::get")],
 [("available blocks", "subset of the log present locally", "hypercore")], HB)

prop("C17", "Every read sees the newest completed version of the log",
 "A handle over a core that is also extended from elsewhere (another handle on the same core, or replication) answers every operation from the version that is newest at some instant during that operation, so after a write has completed every later read through any handle reflects it, also when reads and appends interleave.",
 ["schedules", "histories"], "all interleavings of reads on one handle with writes on another up to the stated bound, all operation sequences alternating handles",
 "No test uses two handles on one core.",
 ["src/tree.rs", "src/blocks.rs"],
 [("root looked up from the core length each time", "src/tree.rs get_root")],
 [("version", "length of the core", "src/tree.rs version")], HB)

prop("C18", "Damaged or foreign blocks produce errors, not panics",
 "When a stored block that an operation needs does not decode as a Hyperbee block, or refers to nodes, children or blocks that do not exist, the operation returns an error instead of panicking or hanging; operations that do not need the block are unaffected. No truncation or change of a stored block (short of making stored nodes refer to each other in a cycle) makes an operation panic.",
 ["inputs", "fault_sequences"], "every truncation and every single-byte change of every block of a log in bounds, every structural omission, every operation",
 "No test reads a block that this library or JS Hyperbee did not write.",
 ["src/blocks.rs", "src/lib.rs", "src/traverse.rs"],
 [("decoding", "src/blocks.rs get_from_core, make_node_vec"), ("node lookup", "src/blocks.rs get_tree_node, src/lib.rs Children::get_child")],
 [], HB)

prop("C19", "Only effective mutations extend the log",
 "Gets, traversals, version queries, deletes of absent keys and rejected conditional operations append nothing, except that the first put attempted on an empty log writes the header; every effective put or delete appends exactly one entry. The reported version is always the number of blocks in the log.",
 ["inputs", "histories"], "all operation sequences, including on empty, header-only and emptied stores",
 "Tests do not look at the log length after operations that must not write.",
 ["src/tree.rs", "src/put.rs", "src/del.rs", "src/hb.rs", "src/blocks.rs"],
 [("early returns before the append", "src/put.rs, src/del.rs"), ("ensure_header", "src/tree.rs get_root")],
 [("version", "length of the core", "src/tree.rs")], ["number of appended blocks"])

prop("C20", "The log starts with exactly one Hyperbee header",
 "Block 0 of every log written by this library is a header naming the protocol 'hyperbee', with the metadata passed when it was created explicitly and none otherwise, and no other block is a header. Creating a header on a non-empty log fails and changes nothing; the first put on an empty log creates it automatically, and stores with metadata otherwise behave the same.",
 ["inputs", "histories", "schedules"], "all sequences of header creation and other operations, all metadata values, concurrent first writes",
 "No test creates a header explicitly or inspects block 0.",
 ["src/tree.rs", "src/hb.rs", "src/schema.proto"],
 [("create_header", "src/tree.rs"), ("ensure_header", "src/tree.rs get_root")],
 [], ["block 0 of the core"])

prop("C21", "The C interface delivers every lookup result exactly once",
 "For every store and key, the C lookup function calls its callback exactly once, with no error, the log index and the exact value bytes for a present key, and index 0 with no value for an absent one; a failing lookup calls it once with a non-zero error code. Buffers and strings handed out can be released with the library's deallocation functions, and opening an invalid storage path yields a null handle.",
 ["inputs", "histories"], "all stores, keys and values in bounds (including empty values, absent values, absent keys), failing cores",
 "The C test performs one successful lookup and needs make and a built cdylib.",
 ["src/external.rs"],
 [("hb_get", "src/external.rs"), ("buffer hand-over", "src/external.rs c_vec_from_vec, deallocate_rust_buffer")],
 [], ["arguments of the C callback"])

prop("C22", "Foreign-language bindings behave like the Rust API",
 "Every operation of the generated bindings (version, get, put, delete, sub and the sub's get, put, delete) has the effect and result of the corresponding Rust operation: same values, same old and new indexes, same treatment of absent values and keys, same default separator, for any sequence of operations.",
 ["inputs", "histories"], "all operation sequences in bounds over store and subs through the generated Python bindings",
 "The Python tests run five fixed snippets and need make and network-installed tooling.",
 ["src/ffi.rs", "src/prefixed.rs", "src/error.rs"],
 [("wrapper objects", "src/ffi.rs")],
 [], ["results in Python"])

prop("C23", "Height and print describe the real tree",
 "With the debug feature on, the reported height is the number of levels of the current tree (0 before the first put) and the printed tree lists every key exactly once in ascending order, indented by its depth below the root.",
 ["inputs", "histories"], "all tree shapes in bounds",
 "One unit test prints three keys; deeper trees are compared only against JS fixtures.",
 ["src/tree.rs", "src/traverse.rs", "src/lib.rs", "src/hb.rs"],
 [("height", "src/lib.rs Node::height, src/tree.rs Tree::height"), ("print", "src/traverse.rs print")],
 [], ["height(), print()"])

prop("C24", "A traversal that cannot read reports it",
 "If a block needed by a traversal cannot be read or decoded, the traversal yields an error item and never silently omits keys: without an error item the items are exactly the keys in range. Items other than errors are always stored keys in range, in order and without repetition; the stream still ends and never panics, also when it is polled on after an error.",
 ["fault_sequences", "inputs"], "every read (and pairs of reads) of every traversal failing or finding its block missing, all ranges and directions, store and subs",
 "No test makes a read fail during a traversal.",
 ["src/traverse.rs", "src/prefixed.rs"],
 [("errors pushed into the stream", "src/traverse.rs Traverse::poll_next")],
 [("pending futures of the stream", "iter_fut, next_key, next_child", "src/traverse.rs Traverse")], ["items of the traverse stream"])

prop("C25", "Replication streams reach the core with the requested role",
 "Every stream added to a store is handed to its core exactly once, in order, with the initiator role the caller gave, and data that the core receives through it becomes readable through the store in every delivery order; adding streams does not disturb other operations.",
 ["schedules", "histories"], "all sequences and interleavings of adding streams, local operations and block deliveries in bounds",
 "One test replicates a single key in one order.",
 ["src/hb.rs", "src/tree.rs", "src/blocks.rs"],
 [("add_stream", "src/hb.rs, src/tree.rs, src/blocks.rs")],
 [], ["calls received by the core", "reads on the receiving store"])

prop("C26", "A store is released when it is no longer used",
 "Once a store, its sub-databases, its traversals and its operations have all been dropped, whether they completed, failed, were cancelled or were left suspended, nothing refers to its core any more: the core (and so its storage) is released and can be opened again.",
 ["histories", "schedules", "fault_sequences"], "all operations on all tree shapes in bounds, completed, failed, cancelled at every suspension point, or kept suspended until the end",
 "No test looks at what remains after a store is dropped; a reference cycle between cached blocks and the block store never shows in results.",
 ["src/blocks.rs", "src/lib.rs", "src/tree.rs", "src/prefixed.rs", "src/traverse.rs"],
 [("cache of decoded blocks", "src/blocks.rs Blocks::cache"), ("children look up blocks through a shared handle", "src/lib.rs Children::blocks")],
 [("references to the core", "who still uses it", "hypercore SharedCore")], ["number of users of the core after everything is dropped"])

prop("C27", "Operations read only the blocks on their way",
 "A lookup, put, delete or conditional operation succeeds with exactly its result when only those blocks are available that hold a node on the way from the root to its key (for a delete also the way to a neighbouring leaf key and the siblings next to these nodes) or a key stored in such a node. A traversal needs only the nodes that can hold keys of its range and the keys it yields, and only once it reaches them, so its first items come without reading the rest. Reading the version, creating a header on a written log, adding a stream, opening a handle and making a sub-database need no block at all.",
 ["inputs", "histories"], "all tree shapes in bounds, every key and gap and every range, all blocks outside the stated set missing (refused or never arriving), on new and used handles, stores and subs",
 "Tests have every block present; reading too much never shows in results there, but on a sparsely replicated log it turns into errors or waiting for ever.",
 ["src/lib.rs", "src/blocks.rs", "src/traverse.rs", "src/put.rs", "src/del.rs", "src/prefixed.rs"],
 [("way from the root to a key", "src/lib.rs nearest_node"), ("range pruning", "src/traverse.rs make_child_key_index_iter"), ("choice of siblings", "src/del.rs rebalance")],
 [], ["results with only these blocks present"])

prop("C28", "Logs written by JavaScript Hyperbee can be used and continued",
 "Every log that the JavaScript Hyperbee can write, including batches (whose blocks other than the last hold no tree) and any equivalent encoding of its messages (unknown fields, repeated numbers packed or not or split, fields in another order), shows exactly its contents through lookups, traversals and subs, and mutations continue it with exactly the blocks the JavaScript implementation would append.",
 ["inputs", "histories"], "all batches of operations in bounds on all tree shapes in bounds, all listed encodings of each block, long runs of batches",
 "The interoperability tests need Node and npm packages and only use single puts.",
 ["src/lib.rs", "src/blocks.rs", "src/tree.rs", "src/put.rs", "src/del.rs", "src/schema.proto"],
 [("decoding of blocks", "src/blocks.rs, src/lib.rs BlockEntry"), ("message definitions", "src/schema.proto")],
 [], ["results and appended blocks on logs written in batches"])

prop("C29", "Watching the library changes nothing",
 "While a tracing subscriber listens to the library at any level and formats everything it is told, every operation gives the same results, writes the same blocks and completes just as without it, for all keys and values, failing cores, dropped and concurrent operations; and a store or sub-database can be formatted for debugging at any moment without panicking or waiting.",
 ["inputs", "schedules", "fault_sequences"], "all operations on all tree shapes in bounds at every level and for spans and events separately, faults and cancellation at every point, all interleavings of two operations within a preemption bound",
 "The arguments of trace messages, including awaited locks, are only evaluated when somebody listens, and no test listens.",
 ["src/lib.rs", "src/put.rs", "src/del.rs", "src/traverse.rs", "src/blocks.rs", "src/changes.rs", "src/hb.rs", "src/prefixed.rs"],
 [("tracing::instrument, trace!, info!", "src/*.rs"), ("Debug of nodes and children", "src/lib.rs node_debug, impl Debug for Children")],
 [], ["results and blocks while a subscriber is installed"])

prop("C30", "Stores in one process are independent",
 "Several stores with cores of their own in one process behave as if each were alone: whatever the others hold or do (operations and traversals in progress, suspended, failed or dropped, equal or different keys and numbers of blocks, other headers), every operation on a store has exactly its specified result, writes only to its own core, never waits for an operation on another store, and dropping one store releases it and leaves the others as they are.",
 ["inputs", "histories", "schedules", "fault_sequences"], "all sequences of a few operations on two stores; an operation on one suspended at every point, failed at every read or dropped, while the other is used; all interleavings of two such operations with up to two preemptions at those points",
 "No test has two stores that do different things at the same time; whatever they might share shows only when both are used in a particular order.",
 ["src/tree.rs", "src/blocks.rs", "src/hb.rs", "src/put.rs", "src/del.rs", "src/traverse.rs", "src/prefixed.rs"],
 [("construction", "src/tree.rs Tree::from_blocks"), ("cache and core of a store", "src/blocks.rs Blocks")],
 [], ["results and logs of two stores used in turns"])

prop("C31", "Errors name their cause",
 "When an operation, or an item of a traversal, is an error, the error says what went wrong and not something else: a failed read or append of the core carries the core's own error; a block the core does not have is reported as missing, with its index; a block that does not decode, or holds invalid nodes, as damaged (invalid nodes with the block's index); a reference to a node that does not exist with its offset; reading a tree that does not exist yet as having no root; writing a second header as such. Errors of parts of a traversal wrap, and their text includes, the cause. A storage directory that cannot be opened is reported with the storage's error instead of a panic.",
 ["fault_sequences", "inputs"], "every core operation of every operation failing, every block missing, unreadable or damaged, on all shapes in bounds",
 "No test looks at an error other than those of an invalid traversal range.",
 ["src/error.rs", "src/blocks.rs", "src/tree.rs", "src/lib.rs", "src/traverse.rs", "src/put.rs", "src/del.rs"],
 [("lookup of a block", "src/blocks.rs Blocks::get, get_from_core"), ("checks of what was read", "src/blocks.rs make_node_vec, get_tree_node"), ("errors pushed into the stream", "src/traverse.rs Traverse::poll_next")],
 [], ["errors returned by all operations and yielded by traversals"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
