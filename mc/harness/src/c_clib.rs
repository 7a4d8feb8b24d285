//! C21: the C interface, called through its exported symbols, on tokio's real runtime.
use crate::ops::*;
use crate::report::Ctx;
use crate::script::{self, logser};
use crate::shapes;
use hypercore::mc::{CoreHandle, Log};
use serde::{Deserialize, Serialize};
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::hash_map::DefaultHasher;
use std::ffi::{c_char, c_void, CStr, CString};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

type Callback = unsafe extern "C" fn(i64, *const c_char, u64, *mut u8, usize);
extern "C" {
    fn init_runtime() -> *mut c_void;
    fn close_runtime(rt: *mut c_void);
    fn close_hyperbee(hb: *mut c_void);
    fn hyperbee_from_storage_directory(rt: *mut c_void, dir: *const c_char) -> *mut c_void;
    fn hb_get(rt: *mut c_void, hb: *mut c_void, key: *const u8, len: usize, cb: Callback) -> i32;
    fn deallocate_rust_string(p: *mut c_char);
    fn deallocate_rust_buffer(p: *mut u8, len: usize);
}

/// Remembers the size of every allocation while `TRACK` is set, so that buffers that are handed over can be checked
pub struct Tracking;
static TRACK: AtomicBool = AtomicBool::new(false);
const SLOTS: usize = 1 << 20;
static TABLE: [(AtomicUsize, AtomicUsize); SLOTS] = [const { (AtomicUsize::new(0), AtomicUsize::new(0)) }; SLOTS];
static MISMATCH: AtomicU64 = AtomicU64::new(0);
const GONE: usize = 1;
fn slot(p: usize) -> usize {
    (p >> 3).wrapping_mul(0x9E3779B97F4A7C15) >> 44
}
fn remember(p: usize, size: usize) {
    let mut i = slot(p) % SLOTS;
    for _ in 0..SLOTS {
        let old = TABLE[i].0.load(SeqCst);
        if old == 0 || old == GONE || old == p {
            if TABLE[i].0.compare_exchange(old, p, SeqCst, SeqCst).is_ok() {
                TABLE[i].1.store(size, SeqCst);
                return;
            }
            continue;
        }
        i = (i + 1) % SLOTS;
    }
}
fn size_of(p: usize) -> Option<(usize, usize)> {
    let mut i = slot(p) % SLOTS;
    for _ in 0..SLOTS {
        match TABLE[i].0.load(SeqCst) {
            0 => return None,
            x if x == p => return Some((i, TABLE[i].1.load(SeqCst))),
            _ => i = (i + 1) % SLOTS,
        }
    }
    None
}
fn forget(p: usize, size: usize) {
    if let Some((i, s)) = size_of(p) {
        if s != size {
            MISMATCH.fetch_add(1, SeqCst);
        }
        TABLE[i].0.store(GONE, SeqCst);
    }
}
// SAFETY: forwards to the system allocator
unsafe impl GlobalAlloc for Tracking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if TRACK.load(Relaxed) {
            remember(p as usize, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if TRACK.load(Relaxed) {
            forget(p as usize, l.size());
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if TRACK.load(Relaxed) {
            forget(p as usize, l.size());
        }
        let q = System.realloc(p, l, n);
        if TRACK.load(Relaxed) {
            remember(q as usize, n);
        }
        q
    }
}

/// What a callback was called with
#[derive(Clone, Debug, PartialEq)]
struct Call {
    code: i64,
    message: Option<String>,
    seq: u64,
    value: V,
    /// complaints about the buffers
    bad: Option<String>,
}
static CALLS: Mutex<Vec<Call>> = Mutex::new(vec![]);
static CALLED: Condvar = Condvar::new();

unsafe extern "C" fn callback(code: i64, message: *const c_char, seq: u64, value: *mut u8, len: usize) {
    let mut bad = None;
    let text = (!message.is_null()).then(|| CStr::from_ptr(message).to_string_lossy().into_owned());
    if let Some(t) = &text {
        match size_of(message as usize) {
            Some((_, s)) if s == CStr::from_ptr(message).to_bytes().len() + 1 => (),
            o => bad = Some(format!("the message {t:?} is in an allocation of {o:?}")),
        }
    }
    let v = (!value.is_null()).then(|| if len == 0 { vec![] } else { std::slice::from_raw_parts(value, len).to_vec() });
    if v.is_none() && len != 0 {
        bad = Some(format!("no value, but {len} bytes"));
    }
    if len > 0 && v.is_some() {
        match size_of(value as usize) {
            Some((_, s)) if s == len => (),
            o => bad = Some(format!("the value has {len} bytes, but is in an allocation of {o:?}")),
        }
    }
    let before = MISMATCH.load(SeqCst);
    if bad.is_none() {
        if !message.is_null() {
            deallocate_rust_string(message as *mut c_char);
        }
        if !value.is_null() {
            deallocate_rust_buffer(value, len);
        }
        if !message.is_null() && size_of(message as usize).is_some() || len > 0 && size_of(value as usize).is_some() {
            bad = Some("releasing the buffers did not release them".into());
        }
        if MISMATCH.load(SeqCst) != before {
            bad = Some("a buffer was released with another size than it was allocated with".into());
        }
    }
    CALLS.lock().unwrap().push(Call { code, message: text, seq, value: v, bad });
    CALLED.notify_all();
}

/// Lookups on one store, one after the other
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Lookups {
    #[serde(with = "logser")]
    pub log: Log,
    #[serde(with = "script::keys")]
    pub keys: Vec<K>,
    /// opened from a storage directory (else on a core whose answers are planned)
    pub disk: bool,
    /// the core operation that fails, for every lookup
    pub fail: Option<u64>,
    pub missing: Option<u64>,
    /// this block is damaged: lookups may fail
    pub damaged: Option<u64>,
}

fn scratch() -> std::path::PathBuf {
    std::env::temp_dir().join(format!("mc-c21-{}", std::process::id()))
}
fn store(dir: &std::path::Path, log: &Log) {
    std::fs::create_dir_all(dir).unwrap();
    let mut v = vec![];
    for b in &log.blocks {
        v.extend_from_slice(&(b.len() as u32).to_le_bytes());
        v.extend_from_slice(b);
    }
    std::fs::write(dir.join("blocks"), v).unwrap();
}

struct Rt(*mut c_void);
unsafe impl Sync for Rt {}
unsafe impl Send for Rt {}

/// The threads of the runtime
const THREADS: usize = 2;
fn runtime() -> *mut c_void {
    static RT: std::sync::OnceLock<Rt> = std::sync::OnceLock::new();
    TRACK.store(true, SeqCst);
    RT.get_or_init(|| {
        std::env::set_var("TOKIO_WORKER_THREADS", THREADS.to_string());
        // SAFETY: as the C interface is meant to be used
        Rt(unsafe { init_runtime() })
    })
    .0
}

/// Look a key up from a buffer that is overwritten and released as soon as the call returns
fn look_up(rt: *mut c_void, hb: *mut c_void, k: &[u8], cb: Callback) -> i32 {
    let mut buf = k.to_vec().into_boxed_slice();
    let ptr = if k.is_empty() { std::ptr::null() } else { buf.as_ptr() };
    let r = unsafe { hb_get(rt, hb, ptr, k.len(), cb) };
    buf.fill(b'~');
    drop(std::hint::black_box(buf));
    r
}

/// Callbacks that keep their thread until they are let go
static GATE: Mutex<(usize, bool)> = Mutex::new((0, true));
static OPENED: Condvar = Condvar::new();
unsafe extern "C" fn gated(code: i64, message: *const c_char, seq: u64, value: *mut u8, len: usize) {
    callback(code, message, seq, value, len);
    let mut g = GATE.lock().unwrap();
    g.0 += 1;
    OPENED.notify_all();
    while !g.1 {
        g = OPENED.wait(g).unwrap();
    }
    g.0 -= 1;
}

/// Lookups that are outstanding at the same time: while all threads of the runtime are busy, all of them are started;
/// then every read of the core is delayed.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Together {
    #[serde(with = "logser")]
    pub log: Log,
    #[serde(with = "script::keys")]
    pub keys: Vec<K>,
    pub fail: Option<u64>,
}

pub fn run_together(l: &Together) -> Result<(u64, u64), String> {
    let rt = runtime();
    let spec = Spec::of_log(&l.log);
    let core = CoreHandle::new(l.log.clone());
    let hb = Box::into_raw(Box::new(script::open(&core))) as *mut c_void;
    CALLS.lock().unwrap().clear();
    *GATE.lock().unwrap() = (0, false);
    let first = l.keys[0].clone();
    let mut all = vec![];
    for _ in 0..THREADS {
        all.push(first.clone());
        look_up(rt, hb, &first, gated);
    }
    let end = Instant::now() + Duration::from_millis(500);
    let mut g = GATE.lock().unwrap();
    while g.0 < THREADS && Instant::now() < end {
        g = OPENED.wait_timeout(g, Duration::from_millis(20)).unwrap().0;
    }
    drop(g);
    core.with(|c| {
        c.pend_all = true;
        if let Some(f) = l.fail {
            c.fail.insert(c.ops + f);
        }
    });
    let mut started = Ok(());
    for k in &l.keys {
        let r = look_up(rt, hb, k, callback);
        if r != 0 {
            started = Err(format!("hb_get({}) returned {r}", hex::enc(k)));
        }
        all.push(k.clone());
    }
    GATE.lock().unwrap().1 = true;
    OPENED.notify_all();
    let end = Instant::now() + Duration::from_secs(10);
    while CALLS.lock().unwrap().len() < all.len() && Instant::now() < end {
        if !core.release() {
            std::thread::yield_now();
        }
    }
    let failed = core.with(|c| c.failed);
    let end = Instant::now() + Duration::from_secs(2);
    while GATE.lock().unwrap().0 > 0 && Instant::now() < end {
        std::thread::yield_now();
    }
    let calls = CALLS.lock().unwrap().clone();
    started?;
    if calls.len() != all.len() {
        return Err(format!("{} lookups at the same time, {} calls of the callback", all.len(), calls.len()));
    }
    core.with(|c| c.pend_all = false);
    let mut want: Vec<(u64, V)> = all.iter().map(|k| spec.map.get(k).cloned().unwrap_or((0, None))).collect();
    let mut errors = 0u64;
    for c in &calls {
        if let Some(b) = &c.bad {
            return Err(format!("a lookup called back with {c:?}: {b}"));
        }
        if c.code != 0 {
            errors += 1;
            continue;
        }
        match want.iter().position(|w| *w == (c.seq, c.value.clone())) {
            Some(i) => drop(want.swap_remove(i)),
            None => return Err(format!("of {} lookups at the same time, one called back with {c:?}; still expected: {want:?}", all.len())),
        }
    }
    if (errors > 0) != (failed > 0) {
        return Err(format!("{failed} reads failed, and {errors} lookups reported an error"));
    }
    unsafe { close_hyperbee(hb) };
    let end = Instant::now() + Duration::from_secs(10);
    while core.refs() > 1 {
        if Instant::now() > end {
            return Err("closing the store did not release it".into());
        }
        std::thread::yield_now();
    }
    Ok((errors, all.len() as u64))
}

pub fn run(l: &Lookups) -> Result<(u64, u64), String> {
    let rt = runtime();
    let spec = Spec::of_log(&l.log);
    let mut log = l.log.clone();
    if let Some(d) = l.damaged {
        log.blocks[(d - log.base) as usize] = std::sync::Arc::from(&b"\xff\xff"[..]);
    }
    let core = CoreHandle::new(log.clone());
    let hb = if l.disk {
        let dir = scratch().join("store");
        store(&dir, &log);
        let c = CString::new(dir.to_str().unwrap()).unwrap();
        let hb = unsafe { hyperbee_from_storage_directory(rt, c.as_ptr()) };
        if hb.is_null() {
            return Err("an existing storage directory could not be opened".into());
        }
        hb
    } else {
        Box::into_raw(Box::new(script::open(&core))) as *mut c_void
    };
    core.with(|c| c.missing.extend(l.missing));
    let mut h = DefaultHasher::new();
    CALLS.lock().unwrap().clear();
    let mut n = 0usize;
    let mut result = Ok(());
    for k in &l.keys {
        let planned = l.fail.is_some();
        if planned {
            core.with(|c| {
                c.ops = 0;
                c.failed = 0;
                c.fail.extend(l.fail);
            });
        }
        core.with(|c| c.failed = 0);
        let r = look_up(rt, hb, k, callback);
        n += 1;
        if r != 0 {
            result = Err(format!("hb_get({}) returned {r}", hex::enc(k)));
            break;
        }
        let end = Instant::now() + Duration::from_secs(10);
        let mut calls = CALLS.lock().unwrap();
        while calls.len() < n && Instant::now() < end {
            calls = CALLED.wait_timeout(calls, Duration::from_millis(200)).unwrap().0;
        }
        if calls.len() != n {
            result = Err(format!("hb_get({}): the callback was called {} times", hex::enc(k), calls.len() as i64 - n as i64 + 1));
            break;
        }
        let got = calls.last().unwrap().clone();
        drop(calls);
        let failed = core.with(|c| c.failed) > 0;
        let want = spec.map.get(k).cloned();
        let at = format!("hb_get({}) called back with {got:?}", hex::enc(k));
        (got.code != 0, got.value.is_some()).hash(&mut h);
        result = if let Some(b) = got.bad {
            Err(format!("{at}: {b}"))
        } else if got.code != 0 {
            if failed || l.damaged.is_some() {
                Ok(())
            } else {
                Err(format!("{at}, expected {want:?}"))
            }
        } else if failed {
            Err(format!("{at}, but the core reported an error"))
        } else if (got.seq, &got.value) != want.as_ref().map_or((0, &None), |(s, v)| (*s, v)) {
            Err(format!("{at}, expected {want:?}"))
        } else {
            Ok(())
        };
        if result.is_err() {
            break;
        }
    }
    if result.is_ok() {
        let calls = CALLS.lock().unwrap().len();
        if calls != n {
            result = Err(format!("{n} lookups, {calls} calls of the callback"));
        }
    }
    // tasks may still hold the handle if a callback is missing
    if result.is_ok() {
        let before = core.refs();
        unsafe { close_hyperbee(hb) };
        let end = Instant::now() + Duration::from_secs(10);
        while l.disk && hypercore::mc::built_anywhere() > 0 && result.is_ok() {
            if Instant::now() > end {
                result = Err("closing the store did not release its storage directory".into());
            }
            std::thread::sleep(Duration::from_millis(1));
        }
        if !l.disk && core.refs() >= before {
            // the last task may be going away right now
            let end = Instant::now() + Duration::from_secs(10);
            while core.refs() > 1 && Instant::now() < end {
                std::thread::sleep(Duration::from_millis(1));
            }
            if core.refs() > 1 {
                result = Err("closing the store did not release it".into());
            }
        }
    }
    result.map(|_| (h.finish(), n as u64))
}

/// Paths that cannot be opened
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BadPath(pub u8);
pub fn run_path(p: &BadPath) -> Result<(u64, u64), String> {
    let dir = scratch();
    std::fs::create_dir_all(&dir).unwrap();
    let file = dir.join("a-file");
    std::fs::write(&file, b"x").unwrap();
    let rt = unsafe { init_runtime() };
    if rt.is_null() {
        return Err("no runtime".into());
    }
    let broken = dir.join("broken");
    std::fs::create_dir_all(&broken).unwrap();
    std::fs::write(broken.join("blocks"), [200, 0, 0, 0, 1]).unwrap();
    let nul = dir.join("blocks-is-a-directory");
    std::fs::create_dir_all(nul.join("blocks")).unwrap();
    let path = match p.0 {
        0 => None,
        1 => Some(file.clone()),
        2 => Some(file.join("below")),
        3 => Some(broken),
        4 => Some(nul),
        5 => Some(dir.join("x".repeat(300))),
        _ => Some(dir.join("fine").join("deep")),
    };
    let c = path.as_ref().map(|p| CString::new(p.to_str().unwrap()).unwrap());
    let hb = unsafe { hyperbee_from_storage_directory(rt, c.as_ref().map_or(std::ptr::null(), |c| c.as_ptr())) };
    let ok = p.0 >= 6;
    let null = hb.is_null();
    if !null {
        unsafe { close_hyperbee(hb) }
    }
    unsafe { close_runtime(rt) }
    if null == ok {
        return Err(format!("opening {path:?} gave a{} handle", if null { " null" } else { "" }));
    }
    Ok((null as u64, 1))
}

pub fn c21(ctx: &Ctx) {
    let t = ctx.thorough;
    TRACK.store(true, SeqCst);
    for p in 0..=6 {
        ctx.case("path", &BadPath(p), run_path);
    }
    let mut states = shapes::reachable(ctx, if t { 22 } else { 17 });
    states.push(shapes::state(shapes::header_only()));
    states.extend(crate::c_fault::two_and_three_levels());
    states.extend(shapes::far());
    // awkward keys and values
    let mut log = shapes::header_only();
    let odd: Vec<K> = vec![vec![], vec![0], vec![0, 0], vec![0xff], vec![0xff; 70], b"a".to_vec(), "ü".as_bytes().to_vec(), vec![0x80], vec![b'k'; 5000]];
    let vals: Vec<V> = vec![Some(vec![]), None, Some(vec![0]), Some(vec![0xff; 3]), Some(vec![7; 1 << 16]), Some(b"\0a\0".to_vec()), Some(vec![1; 31]), Some(vec![2; 32]), Some(vec![3; 1000])];
    for (k, v) in odd.iter().zip(&vals) {
        log = shapes::model_step(&log, &Op::Put(k.clone(), v.clone())).unwrap();
    }
    let odd_store = shapes::state(log);
    let mut more = odd;
    more.extend([vec![1], vec![0, 0, 0], vec![0xff; 69], vec![0xff; 71], b"b".to_vec()]);
    ctx.count("starting_stores", states.len() as u64 + 1);
    let go = |log: &Log, keys: Vec<K>, disk: bool, fail: Option<u64>, missing: Option<u64>, damaged: Option<u64>| {
        ctx.case("clib", &Lookups { log: log.clone(), keys, disk, fail, missing, damaged }, run);
    };
    for disk in [true, false] {
        go(&odd_store.log, more.clone(), disk, None, None, None);
    }
    for s in &states {
        if ctx.stopped() {
            break;
        }
        let mut keys: Vec<K> = s.spec.map.keys().cloned().collect();
        keys.extend(shapes::gaps(&s.spec));
        keys.push(vec![]);
        for disk in [true, false] {
            // a file always holds a log from its first block
            if !disk || s.log.base == 0 {
                go(&s.log, keys.clone(), disk, None, None, None);
            }
        }
        if s.spec.map.len() > 20 {
            keys = keys.into_iter().step_by(9).collect();
        }
        // every block missing or damaged; every read failing (once for each lookup, on a cold handle)
        for b in s.log.base.max(1)..s.log.len() {
            go(&s.log, keys.clone(), false, None, Some(b), None);
            go(&s.log, keys.clone(), s.log.base == 0 && b % 2 == 0, None, None, Some(b));
        }
        for k in &keys {
            for f in 0..if t { 12 } else { 8 } {
                go(&s.log, vec![k.clone(), k.clone()], false, Some(f), None, None);
            }
        }
    }
    // lookups at the same time, on handles that have read nothing yet
    for s in states.iter().chain([&odd_store]) {
        if ctx.stopped() {
            break;
        }
        let mut keys: Vec<K> = s.spec.map.keys().cloned().collect();
        keys.extend(s.spec.map.keys().map(|k| [&k[..], b"!"].concat()));
        keys.push(vec![]);
        keys.extend(s.spec.map.keys().rev().cloned());
        if keys.len() > 60 {
            keys = keys.into_iter().step_by(7).collect();
        }
        for fail in [None].into_iter().chain((0..if t { 12 } else { 4 }).map(Some)) {
            ctx.case("together", &Together { log: s.log.clone(), keys: keys.clone(), fail }, run_together);
        }
    }
    TRACK.store(false, SeqCst);
    let d = scratch();
    let _ = std::fs::remove_dir_all(&d);
}
