//! Running cases, counting what was covered, violations, evidence.
use crate::exec;
use serde::Serialize;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

const WORKERS: usize = 8;
/// A case normally takes micro- to milliseconds; one that takes this long does not terminate.
const CASE_LIMIT: Duration = Duration::from_secs(120);
/// The quick tier stops here, and its evidence says so. On the unchanged tree every check ends long before.
const QUICK_LIMIT: Duration = Duration::from_secs(600);

type Ser = fn(*const ()) -> Value;
#[derive(Clone, Copy)]
struct Cur {
    since: Instant,
    kind: &'static str,
    case: *const (),
    ser: Ser,
}
unsafe impl Send for Cur {}
static SLOTS: [Mutex<Option<Cur>>; WORKERS + 1] = [const { Mutex::new(None) }; WORKERS + 1];
thread_local! {
    static SLOT: std::cell::Cell<usize> = const { std::cell::Cell::new(WORKERS) };
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    start: Instant,
    out: PathBuf,
    counts: Mutex<BTreeMap<String, u64>>,
    pub cases: AtomicU64,
    pub ops: AtomicU64,
    outcomes: [Mutex<HashSet<u64>>; 64],
    samples: Mutex<Vec<Value>>,
    pub stop: AtomicBool,
    out_of_time: AtomicBool,
    longest: AtomicU64,
    violation: Mutex<Option<String>>,
    notes: Mutex<Vec<String>>,
}

static GLOBAL: std::sync::OnceLock<&'static Ctx> = std::sync::OnceLock::new();

fn ser_of<T: Serialize>(p: *const ()) -> Value {
    // SAFETY: the slot is cleared before the case it points to goes away
    serde_json::to_value(unsafe { &*(p as *const T) }).unwrap_or(Value::Null)
}

extern "C" fn on_crash(sig: i32) {
    let slot = SLOT.with(|s| s.get());
    if let (Some(ctx), Ok(g)) = (GLOBAL.get(), SLOTS[slot].try_lock()) {
        if let Some(c) = *g {
            let what = match sig {
                libc::SIGABRT => "aborted the process",
                _ => "crashed the process (stack exhausted or bad memory access)",
            };
            let v = (c.ser)(c.case);
            ctx.violate(c.kind, v, &format!("the operation {what}, signal {sig}"));
            ctx.finish(None);
            unsafe { libc::_exit(1) }
        }
    }
    unsafe {
        libc::signal(sig, libc::SIG_DFL);
        libc::raise(sig);
    }
}

fn alt_stack() {
    unsafe {
        let size = 4 << 20;
        let ss = libc::stack_t { ss_sp: libc::malloc(size), ss_flags: 0, ss_size: size };
        libc::sigaltstack(&ss, std::ptr::null_mut());
    }
}

impl Ctx {
    pub fn new(prop: &str, thorough: bool, out: PathBuf) -> &'static Ctx {
        let ctx: &'static Ctx = Box::leak(Box::new(Ctx {
            prop: prop.into(),
            thorough,
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            start: Instant::now(),
            out,
            counts: Default::default(),
            cases: AtomicU64::new(0),
            ops: AtomicU64::new(0),
            outcomes: std::array::from_fn(|_| Default::default()),
            samples: Default::default(),
            stop: AtomicBool::new(false),
            out_of_time: AtomicBool::new(false),
            longest: AtomicU64::new(0),
            violation: Mutex::new(None),
            notes: Default::default(),
        }));
        let _ = GLOBAL.set(ctx);
        exec::install_hook();
        unsafe {
            for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL, libc::SIGFPE] {
                let mut a: libc::sigaction = std::mem::zeroed();
                a.sa_sigaction = on_crash as *const () as usize;
                a.sa_flags = libc::SA_ONSTACK;
                libc::sigaction(s, &a, std::ptr::null_mut());
            }
        }
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_secs(2));
            for s in &SLOTS {
                let c = *s.lock().unwrap_or_else(|e| e.into_inner());
                if let Some(c) = c {
                    if c.since.elapsed() > CASE_LIMIT {
                        let v = (c.ser)(c.case);
                        ctx.violate(c.kind, v, "the operation does not terminate (no step taken, time limit exceeded)");
                        ctx.finish(None);
                        unsafe { libc::_exit(1) }
                    }
                }
            }
        });
        ctx
    }

    pub fn count(&self, name: &str, n: u64) {
        *self.counts.lock().unwrap().entry(name.into()).or_default() += n;
    }
    pub fn get(&self, name: &str) -> u64 {
        self.counts.lock().unwrap().get(name).copied().unwrap_or(0)
    }
    pub fn note(&self, s: impl Into<String>) {
        let s = s.into();
        eprintln!("[{:6.1}s] {s}", self.start.elapsed().as_secs_f64());
        self.notes.lock().unwrap().push(s);
    }
    pub fn distinct(&self, h: u64) {
        self.outcomes[(h >> 58) as usize].lock().unwrap().insert(h);
    }
    pub fn n_distinct(&self) -> u64 {
        self.outcomes.iter().map(|m| m.lock().unwrap().len() as u64).sum()
    }
    pub fn sample(&self, v: Value) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 5 {
            s.push(v)
        }
    }
    pub fn stopped(&self) -> bool {
        if self.stop.load(Relaxed) {
            return true;
        }
        if !self.thorough && self.start.elapsed() > QUICK_LIMIT {
            if !self.stop.swap(true, Relaxed) {
                self.out_of_time.store(true, Relaxed);
                self.note(format!("stopped after {} s: what was left has not been explored", QUICK_LIMIT.as_secs()));
            }
            return true;
        }
        false
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }

    /// Execute one case (guarded against crashes and non-termination); record its outcome or the violation.
    pub fn case<T: Serialize>(&self, kind: &'static str, case: &T, run: impl FnOnce(&T) -> Result<(u64, u64), String>) {
        if self.stopped() {
            return;
        }
        let slot = SLOT.with(|s| s.get());
        *SLOTS[slot].lock().unwrap() = Some(Cur {
            since: Instant::now(),
            kind,
            case: case as *const T as *const (),
            ser: ser_of::<T>,
        });
        let r = run(case);
        if let Some(c) = SLOTS[slot].lock().unwrap().take() {
            self.longest.fetch_max(c.since.elapsed().as_millis() as u64, Relaxed);
        }
        let n = self.cases.fetch_add(1, Relaxed);
        match r {
            Ok((h, ops)) => {
                self.ops.fetch_add(ops, Relaxed);
                self.distinct(h);
                // written out at exponentially spaced positions
                if n & (n.wrapping_sub(1)) == 0 && n >= 64 || n == 0 {
                    let s = serde_json::to_string(case).unwrap_or_default();
                    if s.len() < 4000 {
                        self.sample(json!({"kind": kind, "case": serde_json::from_str::<Value>(&s).unwrap_or(Value::Null)}));
                    } else if n > 0 {
                        self.sample(json!({"kind": kind, "case_abbreviated": s.chars().take(1500).collect::<String>()}));
                    }
                }
            }
            Err(e) => self.violate(kind, serde_json::to_value(case).unwrap(), &e),
        }
    }

    pub fn violate(&self, kind: &str, case: Value, error: &str) {
        let mut g = match self.violation.try_lock() {
            Ok(g) => g,
            Err(_) => return,
        };
        if g.is_some() {
            return;
        }
        let dir = self.out.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}.json", self.prop));
        let v = json!({"property": self.prop, "kind": kind, "error": error, "case": case});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
        println!("property {} is violated: {error}", self.prop);
        println!("replay with: ./run.sh replay {}", path.display());
        println!("VIOLATION property={} replay={}", self.prop, path.display());
        *g = Some(error.into());
        self.stop.store(true, Relaxed);
    }

    /// Work through `items` on all cores, in order
    pub fn par<T: Sync>(&self, items: &[T], f: impl Fn(&T) + Sync) {
        let next = AtomicUsize::new(0);
        std::thread::scope(|s| {
            for w in 0..WORKERS.min(items.len().max(1)) {
                let (next, f) = (&next, &f);
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(s, move || {
                        SLOT.with(|s| s.set(w));
                        alt_stack();
                        mcrt::set_mode(mcrt::Mode::Seq);
                        loop {
                            let i = next.fetch_add(1, Relaxed);
                            if i >= items.len() || self.stopped() {
                                break;
                            }
                            f(&items[i])
                        }
                    })
                    .unwrap();
            }
        });
    }

    /// Evidence. `extra` describes the property's level and rule.
    pub fn finish(&self, meta: Option<&crate::Meta>) -> i32 {
        let violated = self.violation.lock().map(|g| g.is_some()).unwrap_or(true);
        let mut cov = serde_json::Map::new();
        let counts = self.counts.lock().unwrap().clone();
        for (k, v) in &counts {
            cov.insert(k.clone(), json!(v));
        }
        let m = meta.or_else(|| crate::META.iter().find(|m| m.id == self.prop));
        let level = m.map_or("other", |m| m.level);
        let (cases, ops) = (self.cases.load(Relaxed), self.ops.load(Relaxed));
        if level == "model_checking" {
            cov.entry("states").or_insert(json!(0));
            cov.insert("transitions".into(), json!(ops));
            cov.insert("traces_validated_against_impl".into(), json!(cases));
            cov.insert("distinct_outcomes".into(), json!(self.n_distinct()));
        } else {
            cov.insert("evaluations".into(), json!(cases));
            cov.insert("operations".into(), json!(ops));
            cov.insert("distinct_nontrivial".into(), json!(self.n_distinct()));
        }
        cov.insert("rule".into(), json!(m.map_or("", |m| m.rule)));
        cov.insert("samples".into(), json!(self.samples.lock().unwrap().clone()));
        cov.insert("notes".into(), json!(self.notes.lock().unwrap().clone()));
        cov.insert("exhaustive".into(), json!(!violated && !self.out_of_time.load(Relaxed)));
        cov.insert("longest_case_ms".into(), json!(self.longest.load(Relaxed)));
        let ev = json!({
            "property": self.prop,
            "tier": if self.thorough { "thorough" } else { "quick" },
            "seed": self.seed,
            "level": level,
            "coverage": Value::Object(cov),
            "assumptions": m.map_or(vec![], |m| m.assumptions.to_vec()),
            "wall_s": self.elapsed(),
            "violations": violated as u64,
        });
        let dir = self.out.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let _ = std::fs::write(dir.join(format!("{}.json", self.prop)), serde_json::to_string_pretty(&ev).unwrap());
        if violated {
            1
        } else {
            println!(
                "property {}: held on {} cases ({} distinct outcomes, {} operations), {:.1}s",
                self.prop,
                self.cases.load(Relaxed),
                self.n_distinct(),
                self.ops.load(Relaxed),
                self.elapsed()
            );
            0
        }
    }
}
