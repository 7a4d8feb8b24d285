//! Model checker for hyperbee: exhaustive exploration of the real code (compiled from /repo/src) over a modelled core.
//!
//!   mc <property> [--tier quick|thorough] [--out DIR]
//!   mc replay FILE
mod c_clib;
mod c_dmg;
mod c_env;
mod c_err;
mod c_fault;
mod c_iso;
mod c_js;
mod c_map;
mod c_range;
mod c_sched;
mod c_sub;
mod c_watch;
mod exec;
mod js;
mod ops;
mod oracle;
mod raw;
mod report;
mod sched;
mod script;
mod shapes;

use report::Ctx;

#[global_allocator]
static ALLOC: c_clib::Tracking = c_clib::Tracking;

pub struct Meta {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub run: fn(&Ctx),
}

const ENV: &str = "the core (log) behaves as the stand-in in stubs/hypercore: append-only, atomic appends, immutable blocks";
const ORDER: &str = "the code treats keys only by comparing them, so one representative key per gap between stored keys is enough (arbitrary bytes are covered separately on small stores)";

pub static META: &[Meta] = &[
    Meta {
        id: "C01",
        level: "model_checking",
        rule: "states: tree shapes (and logs) the search starts from; transitions: operations executed on the implementation from them; every transition of the reference model is replayed on the implementation, on a cold and a warm handle, and all contents are compared afterwards through the same and a new handle",
        assumptions: &[ENV, ORDER],
        run: c_map::c01,
    },
    Meta {
        id: "C02",
        level: "model_checking",
        rule: "states: tree shapes the search starts from; transitions: mutations executed on the implementation, after each of which the stored tree is decoded by an independent reader and every B-tree invariant checked",
        assumptions: &[ENV, ORDER],
        run: c_map::c02,
    },
    Meta {
        id: "C03",
        level: "model_checking",
        rule: "states: tree shapes the search starts from; transitions: mutations executed on the implementation, after each of which the appended bytes are compared with those of a re-implementation of JavaScript Hyperbee's put and del",
        assumptions: &[ENV, ORDER, "the re-implementation of JavaScript Hyperbee in js.rs is faithful (the JavaScript package is not available offline)"],
        run: c_map::c03,
    },
    Meta {
        id: "C19",
        level: "model_checking",
        rule: "states: tree shapes and logs the search starts from; transitions: operations executed on the implementation, after each of which the number of blocks is compared with the specified one and existing blocks with their previous content",
        assumptions: &[ENV, ORDER],
        run: c_map::c19,
    },
    Meta {
        id: "C05",
        level: "model_checking",
        rule: "states: tree shapes (and stores over a small alphabet of awkward keys) the search starts from; transitions: traversals executed on the implementation; a bound falls outside, on, or between any two keys, inclusive or exclusive, in both directions, on a cold and a warm handle, with reads answered at once or delayed",
        assumptions: &[ENV, ORDER],
        run: c_range::c05,
    },
    Meta {
        id: "C06",
        level: "exploration",
        rule: "all combinations of limits (unset, infinite, finite over an alphabet, set twice), inclusivities, directions (unset or set) and call orders; distinct: accepted configurations told apart by their flags, plus rejected",
        assumptions: &[],
        run: c_range::c06,
    },
    Meta {
        id: "C07",
        level: "exploration",
        rule: "every comparison operator between limits and all byte strings up to a length over an alphabet of boundary bytes, all single bytes, long strings; numbers up to a bound and around all powers of two and ten; distinct: results",
        assumptions: &[],
        run: c_range::c07,
    },
    Meta {
        id: "C08",
        level: "model_checking",
        rule: "states: stores the search starts from; transitions: operations executed on the implementation through subs and parent; results, appended bytes and contents compared with the same operation on the parent",
        assumptions: &[ENV],
        run: c_sub::c08,
    },
    Meta {
        id: "C09",
        level: "model_checking",
        rule: "states: stores the search starts from (subsets of the keys of a sub and of the keys around them); transitions: traversals of the sub executed on the implementation, compared with the filtered contents",
        assumptions: &[ENV],
        run: c_sub::c09,
    },
    Meta {
        id: "C10",
        level: "model_checking",
        rule: "states: tree shapes the search starts from; transitions: conditional operations (and what follows them) executed on the implementation; the calls of the predicate, results, bytes and contents are compared with the specification",
        assumptions: &[ENV, ORDER],
        run: c_sub::c10,
    },
    Meta {
        id: "C13",
        level: "fault_enumeration",
        rule: "every read and append of every operation from every starting store fails (singly, twice in a row, from some point on); then contents through both handles, the retry and other operations are compared with the specification; distinct: different sequences of results",
        assumptions: &[ENV, ORDER, "a failed append appends nothing"],
        run: c_fault::c13,
    },
    Meta {
        id: "C14",
        level: "fault_enumeration",
        rule: "every operation from every starting store is dropped at every point where it can be suspended (every lock acquisition and every core operation, before and after it takes effect); distinct: different sequences of results",
        assumptions: &[ENV, ORDER],
        run: c_fault::c14,
    },
    Meta {
        id: "C15",
        level: "model_checking",
        rule: "states: stores the search starts from; transitions: operations executed on the implementation while a traversal is open, at every position between its items (and at its suspension points), compared with the contents when it was opened",
        assumptions: &[ENV, ORDER],
        run: c_fault::c15,
    },
    Meta {
        id: "C24",
        level: "fault_enumeration",
        rule: "every read of every traversal from every starting store fails or finds no block (singly, in pairs, from some point on); the items are compared with the keys in range; distinct: different sequences of items and errors",
        assumptions: &[ENV, ORDER],
        run: c_fault::c24,
    },
    Meta {
        id: "C11",
        level: "model_checking",
        rule: "states: decision points of the schedule tree; transitions: polls of tasks executing the implementation; each schedule is one execution of the implementation, whose results and final log are explained by a sequential order",
        assumptions: &[ENV, ORDER, "tasks interleave at lock acquisitions and core operations only (the code shares memory only through locks)"],
        run: c_sched::c11,
    },
    Meta {
        id: "C12",
        level: "model_checking",
        rule: "states: decision points of the schedule trees, and stores; transitions: polls of tasks executing the implementation; a task is polled only when it was woken, and every schedule must end with all tasks finished",
        assumptions: &[ENV, ORDER, "tasks interleave at lock acquisitions, inside critical sections and at core operations only", "tokio's locks behave as documented (the real ones are executed)"],
        run: c_sched::c12,
    },
    Meta {
        id: "C04",
        level: "model_checking",
        rule: "states: stores the histories start from; transitions: operations executed on the implementation; each history is stopped after every block, reopened from exactly what was stored, compared with the specification at that length, and continued to the end, which must give the same bytes and results",
        assumptions: &[ENV, "an append is atomic and durable when it returns (torn blocks are the core's business)"],
        run: c_env::c04,
    },
    Meta {
        id: "C16",
        level: "model_checking",
        rule: "states: stores the search starts from; transitions: operations executed on the implementation with a set of missing blocks (all subsets on small logs), refused or waited for, in every order of arrival; answers are the specified ones, or errors if a block that was asked for is missing",
        assumptions: &[ENV, ORDER],
        run: c_env::c16,
    },
    Meta {
        id: "C17",
        level: "model_checking",
        rule: "states: stores the search starts from and decision points of schedule trees; transitions: operations executed on the implementation through two or three handles on one core, one after the other and in all interleavings within the preemption bound",
        assumptions: &[ENV, ORDER, "one handle writes at a time"],
        run: c_env::c17,
    },
    Meta {
        id: "C20",
        level: "model_checking",
        rule: "states: stores the search starts from and decision points of schedule trees; transitions: operations executed on the implementation; block 0 is decoded and compared with the specified header after every one, and no other block is a header",
        assumptions: &[ENV],
        run: c_env::c20,
    },
    Meta {
        id: "C25",
        level: "model_checking",
        rule: "states: stores the search starts from and decision points of schedule trees; transitions: operations executed on the implementation; the streams (identity, role, order) that the core was given are compared with the specified ones; for connected stores, every order of delivery is explored",
        assumptions: &[ENV, "what happens on the wire is the replicator crate's business"],
        run: c_env::c25,
    },
    Meta {
        id: "C26",
        level: "fault_enumeration",
        rule: "every operation from every starting store, completed, failed at every core operation, cancelled or kept suspended at every suspension point, and every traversal stopped after any number of items or polls; then everything is dropped and the number of users of the core must be zero; distinct: sequences of outcomes",
        assumptions: &[ENV, ORDER],
        run: c_env::c26,
    },
    Meta {
        id: "C18",
        level: "fault_enumeration",
        rule: "every truncation, every single-byte change, every structural omission or wrong reference of every block of every starting log; after each, all operations on the implementation: none panics or hangs, those that do not need the block are unaffected, those that need what is not there report an error; distinct: which operations fail",
        assumptions: &[ENV, "damage that makes the stored nodes refer to each other in a cycle is out of scope (counted as skipped_cyclic)"],
        run: c_dmg::c18,
    },
    Meta {
        id: "C21",
        level: "fault_enumeration",
        rule: "every key and every gap of every starting store is looked up through the exported C symbols on tokio's real runtime, with every block missing or damaged and every read failing; the arguments and number of callbacks are compared with the contents, and the buffers handed over with the allocations they are in; distinct: sequences of outcomes",
        assumptions: &[ENV, "lookups that are outstanding at the same time interleave as tokio's scheduler happens to let them (all interleavings of lookups are C11's subject)"],
        run: c_clib::c21,
    },
    Meta {
        id: "C23",
        level: "model_checking",
        rule: "states: trees the search starts from; transitions: operations executed on the implementation; height and printed text compared with those computed by an independent decoder",
        assumptions: &[ENV],
        run: c_range::c23,
    },
    Meta {
        id: "C27",
        level: "model_checking",
        rule: "states: trees the search starts from; transitions: operations executed on the implementation while only the blocks are there that hold a node on the operation's way (computed by an independent reader of the tree) or one of such a node's keys; every operation must give its specified result",
        assumptions: &[ENV, ORDER],
        run: c_js::c27,
    },
    Meta {
        id: "C28",
        level: "model_checking",
        rule: "states: tree shapes that batches start from; transitions: operations executed on the implementation on logs that a re-implementation of JavaScript Hyperbee wrote (by batches of all pairs and triples of mutations within the bounds, by long runs of batches, and with the blocks encoded in every combination of the ways the schema allows); all contents are compared and every block appended is compared with the one JavaScript Hyperbee would append",
        assumptions: &[ENV, ORDER, "the re-implementation of JavaScript Hyperbee's operations and batches is faithful (the JavaScript package is not available offline)"],
        run: c_js::c28,
    },
    Meta {
        id: "C29",
        level: "model_checking",
        rule: "states: trees the search starts from; transitions: operations executed on the implementation while a subscriber records every span and event of the given levels, formatting all of their fields, and the stores themselves are formatted (between operations, and at every scheduling point of concurrent ones); results, contents and appended bytes must be the specified ones, without panics or hangs",
        assumptions: &[ENV, ORDER],
        run: c_watch::c29,
    },
    Meta {
        id: "C30",
        level: "model_checking",
        rule: "states: stores the search starts from; transitions: operations executed on the implementation on two stores with separate cores in one process, in every sequence of a few operations, and with an operation on one suspended at every point, failed at every read, or dropped, while the other is used; every result, log and release must be the specified one",
        assumptions: &[ENV, ORDER],
        run: c_iso::c30,
    },
    Meta {
        id: "C31",
        level: "fault_enumeration",
        rule: "every read and append of every operation from every starting store fails, every block is missing, and every block is damaged in every way that must be noticed, one at a time; the cause named by every error (also those in traversals) is compared with what was done; distinct: different sequences of causes",
        assumptions: &[ENV, ORDER],
        run: c_err::c31,
    },
];

fn replay(file: &str) -> i32 {
    let v: serde_json::Value = serde_json::from_slice(&std::fs::read(file).expect("readable replay file")).expect("a replay file");
    exec::install_hook();
    let kind = v["kind"].as_str().unwrap_or("").to_string();
    let case = v["case"].clone();
    let r = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || -> Result<(u64, u64), String> {
            match &kind[..] {
                "script" => script::run(&serde_json::from_value(case).expect("a script")),
                "pair" => script::run_pair(&serde_json::from_value(case).unwrap()),
                "clib" => c_clib::run(&serde_json::from_value(case).unwrap()),
                "together" => c_clib::run_together(&serde_json::from_value(case).unwrap()),
                "path" => c_clib::run_path(&serde_json::from_value(case).unwrap()),
                "opened" => c_env::run_opened(&serde_json::from_value(case).unwrap()),
                "hist" => c_env::run_hist(&serde_json::from_value(case).unwrap()),
                "arrive" => c_env::run_arrive(&serde_json::from_value(case).unwrap()),
                "repl" => c_env::run_repl(&serde_json::from_value(case).unwrap()),
                "cause" => c_err::run(&serde_json::from_value(case).unwrap()),
                "place" => c_err::run_place(&serde_json::from_value(case).unwrap()),
                "damage" => c_dmg::run(&serde_json::from_value(case).unwrap()),
                "sched" => sched::run(&serde_json::from_value(case).unwrap()),
                "conf" => c_range::run_conf(&serde_json::from_value(case).unwrap()),
                "cmp" => c_range::run_cmp(&serde_json::from_value(case).unwrap()),
                "num" => c_range::run_num(&serde_json::from_value(case).unwrap()),
                "look" => c_range::run_look(&serde_json::from_value(case).unwrap()),
                "need" => c_js::run_need(&serde_json::from_value(case).unwrap()),
                "watched" => c_watch::run(&serde_json::from_value(case).unwrap()),
                "watched_sched" => c_watch::run_sched(&serde_json::from_value(case).unwrap()),
                "look_after" => c_range::run_look_after(&serde_json::from_value(case).unwrap()),
                k => panic!("unknown kind of case {k}"),
            }
        })
        .unwrap()
        .join()
        .unwrap();
    match r {
        Ok(_) => {
            println!("the case passes");
            0
        }
        Err(e) => {
            println!("the case fails: {e}");
            1
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let opt = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    if args.first().is_some_and(|a| a == "replay") {
        std::process::exit(replay(&args[1]));
    }
    if args.first().is_some_and(|a| a == "oracle") {
        return oracle::serve();
    }
    let tier = opt("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
    let out = opt("--out").unwrap_or_else(|| "/verif".into());
    let Some(meta) = args.first().and_then(|a| META.iter().find(|m| m.id == a)) else {
        eprintln!("usage: mc <property> [--tier quick|thorough] [--out DIR] | mc replay FILE");
        std::process::exit(2);
    };
    let ctx = Ctx::new(meta.id, tier == "thorough", out.into());
    (meta.run)(ctx);
    std::process::exit(ctx.finish(Some(meta)));
}
