//! Sequential cases: a starting log and a list of steps, interpreted against the real store and the specification.
use crate::exec::{self, Bad, Flag};
use crate::ops::*;
use crate::raw;
use futures_util::{Stream, StreamExt};
use hyperbee::traverse::KeyDataResult;
use hyperbee::Hyperbee;
use hypercore::mc::{CoreHandle, Log, Missing};
use hypercore::replication::SharedCore;
use mcrt::Mode;
use serde::{Deserialize, Serialize};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;

pub mod logser {
    use super::*;
    #[derive(Serialize, Deserialize)]
    struct L {
        base: u64,
        blocks: Vec<String>,
    }
    pub fn serialize<S: serde::Serializer>(l: &Log, s: S) -> Result<S::Ok, S::Error> {
        L { base: l.base, blocks: l.blocks.iter().map(|b| hex::enc(b)).collect() }.serialize(s)
    }
    pub fn deserialize<'de, D: serde::Deserializer<'de>>(d: D) -> Result<Log, D::Error> {
        let l = L::deserialize(d)?;
        Ok(Log { base: l.base, blocks: l.blocks.iter().map(|b| Arc::from(&hex::dec(b)[..])).collect() })
    }
}

/// Environment answers during one operation
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Plan {
    /// numbers of the core operations that fail
    pub fail: Vec<u64>,
    /// numbers of the core operations that are delayed
    pub pend: Vec<u64>,
    pub pend_all: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Want {
    /// the specified result
    Exact,
    /// the specified result, or an error and no effect
    OrErr,
    /// an error if an injected fault was hit, else the specified result
    ErrIfHit,
    /// the specified result, or, if a read was refused, an error and no effect
    OrErrIfHit,
    /// no particular result (but no panic or hang)
    Any,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    Do { h: usize, op: Op, want: Want, plan: Plan },
    /// run with every lock and core operation a suspension point; drop the operation after `polls` polls
    Cancel { h: usize, op: Op, polls: usize },
    /// open a traversal (of a sub if given)
    Open { h: usize, sub: Option<Sub>, range: Range },
    /// poll traversal `s` up to `polls` times, with every lock and core operation a suspension point
    Poll { s: usize, polls: usize },
    /// take up to `n` items from traversal `s`
    Take { s: usize, n: usize },
    /// take all remaining items and compare with the snapshot
    Finish { s: usize },
    /// like Take, but the items may be errors; other items must follow the snapshot; polled `after` more times after the end of the errors
    DropStream { s: usize },
    /// start an operation, poll it, and keep it suspended for ever
    Suspend { h: usize, op: Op, polls: usize },
    /// go on with the operation that was suspended first (if one still is), until it completes
    Resume,
    /// open another handle on the same core
    Reopen,
    /// blocks that are missing from now on
    Missing { blocks: Vec<u64>, wait: bool },
    Deliver { seq: u64 },
    /// the log is extended from elsewhere (by a put or del that the reference performs)
    Foreign { op: Op },
    /// block 0 is the specified header, and no other block is one
    CheckHeader,
    /// compare the contents seen through handle `h` with the specification (gets of all keys and probes, a traversal)
    Check { h: usize },
    /// the same through a fresh handle
    CheckFresh,
    /// the newest tree is valid
    CheckTree,
    /// every block is what JS Hyperbee writes
    CheckLen,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Script {
    #[serde(with = "logser")]
    pub log: Log,
    pub steps: Vec<Step>,
    /// keys looked up by Check in addition to the stored ones
    #[serde(with = "keys")]
    pub probes: Vec<K>,
    /// Check looks up only every n-th stored key (0: all); traversals are always complete
    #[serde(default)]
    pub stride: usize,
    /// read everything once through handle 0 before the first step
    pub warm: bool,
    /// compare results (else only what Check steps look at)
    pub results: bool,
    /// after every effective mutation, the appended block must be JS Hyperbee's
    pub bytes: bool,
    /// after every operation, the log length must be the specified one
    pub len: bool,
    /// a panic of an operation in Exact mode ends the case without a verdict
    pub panics_elsewhere: bool,
    /// once all handles, traversals and operations are dropped, nothing uses the core any more
    #[serde(default)]
    pub release: bool,
    /// the handles of subs that operations use
    #[serde(default)]
    pub keep: Keep,
}
pub mod keys {
    use super::hex;
    use serde::{Deserialize, Deserializer, Serialize, Serializer};
    pub fn serialize<S: Serializer>(b: &[Vec<u8>], s: S) -> Result<S::Ok, S::Error> {
        b.iter().map(|k| hex::enc(k)).collect::<Vec<_>>().serialize(s)
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<Vec<u8>>, D::Error> {
        Ok(Vec::<String>::deserialize(d)?.iter().map(|s| hex::dec(s)).collect())
    }
}

impl Script {
    pub fn new(log: Log) -> Script {
        Script {
            log,
            steps: vec![],
            probes: vec![],
            stride: 0,
            warm: false,
            results: true,
            bytes: false,
            len: false,
            panics_elsewhere: false,
            release: false,
            keep: Keep::No,
        }
    }
    pub fn op(mut self, op: Op) -> Self {
        self.steps.push(Step::Do { h: 0, op, want: Want::Exact, plan: Plan::default() });
        self
    }
    pub fn step(mut self, s: Step) -> Self {
        self.steps.push(s);
        self
    }
}

type BoxStream = Pin<Box<dyn Stream<Item = KeyDataResult>>>;

struct Open {
    stream: Option<BoxStream>,
    /// what the stream may borrow from
    _sub: Option<Rc<hyperbee::prefixed::Prefixed>>,
    flag: Arc<Flag>,
    want: Vec<Item>,
    pos: usize,
    /// reads may fail: error items are allowed
    ended: bool,
}

type Susp = (Pin<Box<dyn Future<Output = Res>>>, Arc<Flag>, Op);

pub struct World {
    // dropped in this order: suspended work before the handles it borrows from
    suspended: Vec<Susp>,
    streams: Vec<Open>,
    subs: Vec<Option<Rc<Subs>>>,
    handles: Vec<Rc<Hyperbee>>,
    pub core: CoreHandle,
    pub spec: Spec,
    /// lenient: blocks may be missing
    missing: bool,
    /// whether the items of traversals are compared
    results: bool,
    pub ops: u64,
    pub outcome: u64,
}

pub fn open(core: &CoreHandle) -> Hyperbee {
    Hyperbee::from_hypercore(SharedCore::from(core.clone())).expect("opening a handle reads nothing")
}

fn mix(h: &mut u64, x: impl std::hash::Hash) {
    use std::hash::{Hash, Hasher};
    let mut s = std::collections::hash_map::DefaultHasher::new();
    h.hash(&mut s);
    x.hash(&mut s);
    *h = s.finish();
}

pub fn res_eq(want: &Res, got: &Res) -> bool {
    match (want, got) {
        // opening a traversal of a store that was never written may report so or yield nothing
        (Res::NoRoot, Res::Items(v)) => v.is_empty(),
        (a, b) => a == b,
    }
}

fn show<T: std::fmt::Debug>(t: &T) -> String {
    let s = format!("{t:?}");
    if s.len() > 600 {
        format!("{}…", s.chars().take(600).collect::<String>())
    } else {
        s
    }
}

/// Ended early for a reason that is another property's business
pub const ELSEWHERE: &str = "elsewhere";

impl World {
    pub fn new(log: Log) -> World {
        let spec = Spec::of_log(&log);
        let core = CoreHandle::new(log);
        let hb = Rc::new(open(&core));
        World {
            suspended: vec![],
            streams: vec![],
            subs: vec![None],
            handles: vec![hb],
            core,
            spec,
            missing: false,
            results: true,
            ops: 0,
            outcome: 0,
        }
    }

    /// To look at the contents of an existing core
    pub fn over(core: CoreHandle, spec: Spec) -> World {
        World { suspended: vec![], streams: vec![], subs: vec![], handles: vec![], core, spec, missing: false, results: true, ops: 0, outcome: 0 }
    }

    /// Open the subs that a case uses through the newest handle, if they are kept
    fn open_subs(&mut self, sc: &Script) {
        let h = self.handles.len() - 1;
        self.subs.resize(h + 1, None);
        self.subs[h] = Subs::new(sc.keep);
        let Some(subs) = &self.subs[h] else { return };
        for st in &sc.steps {
            match st {
                Step::Do { op, .. } | Step::Cancel { op, .. } | Step::Suspend { op, .. } => {
                    if let Op::In(sub, _) = &*subs.via(op) {
                        subs.get(&self.handles[h], sub);
                    }
                }
                Step::Open { sub: Some(sub), .. } => drop(subs.get(&self.handles[h], sub)),
                _ => (),
            }
        }
    }

    fn exec(&mut self, h: usize, op: &Op) -> Result<Res, Bad> {
        self.ops += 1;
        let (hb, subs) = (self.handles[h].clone(), self.subs[h].clone());
        exec::run(&self.core, async move { apply_opened(&hb, subs.as_deref(), op, &|| ()).await })
    }

    fn describe(i: usize, op: &Op) -> String {
        format!("step {i}: {}", show(op))
    }

    pub fn contents_via(&mut self, h: usize, sc: &Script) -> Result<(), String> {
        let hb = self.handles[h].clone();
        self.contents_of(&hb, sc)?;
        // and through the subs that are kept
        let Some(subs) = self.subs.get(h).cloned().flatten() else { return Ok(()) };
        let core = self.core.clone();
        for (sub, p) in subs.all() {
            let full = sub.full();
            let at = || format!("in the sub {sub:?} that was opened before, ");
            for (k, (seq, v)) in self.spec.map.iter().step_by(sc.stride.max(1)) {
                let Some(k) = k.strip_prefix(&full[..]) else { continue };
                self.ops += 1;
                match exec::run(&core, p.get(k)).map_err(|b| format!("{}get({}) {b}", at(), hex::enc(k)))? {
                    Ok(Some((s, w))) if s == *seq && w == *v => (),
                    o => return Err(format!("{}get({}) returned {}, expected {}", at(), hex::enc(k), show(&o), show(&(seq, v)))),
                }
            }
            let op = Op::In(sub.clone(), Box::new(Op::Traverse(Range::all())));
            let want = self.spec.apply(&op).unwrap();
            let hb = hb.clone();
            let subs = subs.clone();
            self.ops += 1;
            let got = exec::run(&core, async move { apply_opened(&hb, Some(&subs), &op, &|| ()).await }).map_err(|b| format!("{}a traversal {b}", at()))?;
            if !res_eq(&want, &got) {
                return Err(format!("{}a traversal gave {}, expected {}", at(), show(&got), show(&want)));
            }
        }
        Ok(())
    }

    pub fn contents_of(&mut self, hb: &Hyperbee, sc: &Script) -> Result<(), String> {
        let probes = &sc.probes;
        let core = self.core.clone();
        core.plan_reset();
        let keys: Vec<&K> = self.spec.map.keys().step_by(sc.stride.max(1)).chain(probes.iter().filter(|p| !self.spec.map.contains_key(*p))).collect();
        self.ops += keys.len() as u64 + 2;
        for k in keys {
            let want = self.spec.map.get(k).cloned();
            match exec::run(&core, hb.get(k)) {
                Err(b) => return Err(format!("get({}) {b}", hex::enc(k))),
                Ok(Err(e)) => return Err(format!("get({}) failed: {e:?}", hex::enc(k))),
                Ok(Ok(got)) if got != want => {
                    return Err(format!("get({}) returned {}, expected {}", hex::enc(k), show(&got), show(&want)))
                }
                _ => (),
            }
        }
        for r in [Range::all(), Range::all().rev()] {
            let op = Op::Traverse(r);
            let want = self.spec.apply(&op).unwrap();
            let got = exec::run(&core, apply(hb, &op)).map_err(|b| format!("a full traversal {b}"))?;
            if !res_eq(&want, &got) {
                return Err(format!("a full traversal gave {}, expected {}", show(&got), show(&want)));
            }
        }
        match exec::run(&core, hb.version()) {
            Ok(v) if v == self.spec.len => Ok(()),
            o => Err(format!("version gave {o:?}, expected {}", self.spec.len)),
        }
    }

    fn do_op(&mut self, sc: &Script, i: usize, h: usize, op: &Op, want: Want, plan: &Plan) -> Result<(), String> {
        self.core.plan_reset();
        self.core.with(|c| {
            c.fail.extend(plan.fail.iter());
            c.pend.extend(plan.pend.iter());
            c.pend_all = plan.pend_all;
        });
        let before = if sc.bytes || want != Want::Exact { Some(self.core.log()) } else { None };
        let len0 = self.core.len();
        let r = self.exec(h, op);
        let (failed, refused) = self.core.with(|c| (c.failed, c.failed + c.has_not));
        self.core.plan_reset();
        let at = || Self::describe(i, op);
        let asked = match on_parent(op) {
            Op::PutCas(.., Cas::Panic) => true,
            Op::DelCas(k, Cas::Panic) => self.spec.map.contains_key(&k),
            _ => false,
        };
        let got = match r {
            Err(Bad::Panic(p)) if asked && p.contains(PANICS) => {
                // just like a rejection, but without a result
                self.spec.apply(op);
                if self.core.len() != self.spec.len {
                    return Err(format!("{}: the predicate panicked, and the log went from {len0} to {} blocks", at(), self.core.len()));
                }
                return Ok(());
            }
            Ok(r) => r,
            Err(_) if sc.panics_elsewhere && want == Want::Exact => return Err(ELSEWHERE.into()),
            Err(b) => return Err(format!("{} {b}", at())),
        };
        mix(&mut self.outcome, (op.kind(), match &got { Res::Err(_) => Res::Err(String::new()), g => g.clone() }));
        if want == Want::Any {
            self.spec = match std::panic::catch_unwind(|| Spec::of_log(&self.core.log())) {
                Ok(s) => s,
                Err(_) => Spec { len: self.core.len(), ..Default::default() },
            };
            return Ok(());
        }
        let mut next = self.spec.clone();
        let exp = next.apply(op);
        let must_err = want == Want::ErrIfHit && failed > 0;
        let may_err = must_err || want == Want::OrErr || want == Want::OrErrIfHit && refused > 0;
        let is_err = match (&exp, &got) {
            (Some(Res::HeaderExists), Res::HeaderExists) | (Some(Res::NoRoot), Res::NoRoot) => false,
            (_, g) => g.is_err(),
        };
        if must_err && !is_err && !matches!(got, Res::HeaderExists) {
            // an operation that never needed the failed answer may still succeed, but only with the right result
            if !matches!((&exp, &got), (Some(e), g) if res_eq(e, g)) || op.mutates() {
                return Err(format!("{}: the core reported {failed} error(s), the operation returned {}", at(), show(&got)));
            }
            return Err(format!("{}: the core reported {failed} error(s), the operation reported success: {}", at(), show(&got)));
        }
        if may_err && is_err {
            if let (Res::ItemsErr(items, _), Some(Res::Items(want))) = (&got, &exp) {
                subsequence(items, want).map_err(|e| format!("{}: {e}", at()))?;
            }
            let len1 = self.core.len();
            let header_only = len0 == 0 && len1 == 1 && matches!(on_parent(op), Op::Put(..) | Op::PutCas(..));
            if len1 != len0 && !header_only {
                return Err(format!("{}: returned an error ({}) but appended {} block(s)", at(), show(&got), len1 - len0));
            }
            if header_only {
                self.spec.plain_header();
            }
            return Ok(());
        }
        if sc.results || want != Want::Exact {
            if let Some(exp) = &exp {
                if !res_eq(exp, &got) {
                    return Err(format!("{}: returned {}, expected {}", at(), show(&got), show(exp)));
                }
            }
        } else if is_err && !sc.bytes && !sc.len {
            // the operation failed where it should not: some other property's business, the history is off
            return Err(ELSEWHERE.into());
        }
        let len1 = self.core.len();
        if (sc.len || want != Want::Exact) && len1 != next.len {
            return Err(format!("{}: the log has {len1} blocks, expected {} (was {len0})", at(), next.len));
        }
        if let Op::AddStream(..) = op {
            let now = streams_of(&self.core);
            if sc.results && now != next.streams {
                return Err(format!("{}: the core was given the streams (id, initiator) {now:?}, expected {:?}", at(), next.streams));
            }
        }
        if sc.bytes {
            self.bytes(op, before.as_ref().unwrap(), &next).map_err(|e| format!("{}: {e}", at()))?;
        }
        self.spec = next;
        Ok(())
    }

    /// The blocks appended by `op` to `before` are exactly the reference's
    fn bytes(&self, op: &Op, before: &Log, next: &Spec) -> Result<(), String> {
        let after = self.core.log();
        let mut want = before.clone();
        let flat = on_parent(op);
        let effective = match &flat {
            Op::Put(..) => true,
            Op::PutCas(k, _, c) => c.holds(self.spec.map.get(k).map(|o| o.0)),
            Op::Del(k) => self.spec.map.contains_key(k),
            Op::DelCas(k, c) => self.spec.map.get(k).is_some_and(|o| c.holds(Some(o.0))),
            _ => false,
        };
        if want.is_empty() && matches!(flat, Op::Put(..) | Op::PutCas(..)) {
            want.push(&raw::encode_header(&raw::Header { protocol: b"hyperbee".to_vec(), metadata: None }));
        }
        if let Op::Header(m) = &flat {
            if want.is_empty() {
                want.push(&raw::encode_header(&raw::Header { protocol: b"hyperbee".to_vec(), metadata: m.clone() }));
            }
        }
        if effective {
            let b = match &flat {
                Op::Put(k, v) | Op::PutCas(k, v, _) => crate::js::put(&want, k, v.as_deref()),
                Op::Del(k) | Op::DelCas(k, _) => crate::js::del(&want, k).flatten(),
                _ => None,
            };
            want.push(&b.ok_or("the log is malformed: the reference cannot continue it")?);
        }
        let _ = next;
        if after != want {
            let n = before.blocks.len();
            let hexs = |l: &Log| l.blocks[n.min(l.blocks.len())..].iter().map(|b| hex::enc(b)).collect::<Vec<_>>();
            return Err(format!("appended {}, JS Hyperbee appends {}", show(&hexs(&after)), show(&hexs(&want))));
        }
        Ok(())
    }

    fn stream_next(&mut self, s: usize) -> Result<Option<KeyDataResult>, Bad> {
        let core = self.core.clone();
        let st = self.streams[s].stream.as_mut().unwrap();
        self.ops += 1;
        exec::run(&core, st.next())
    }

    fn accept(&mut self, s: usize, x: Option<KeyDataResult>) -> Result<(), String> {
        let missing = self.missing;
        let o = &mut self.streams[s];
        if !self.results {
            o.ended = x.is_none();
            return Ok(());
        }
        match x {
            None => {
                o.ended = true;
                if o.pos < o.want.len() && !missing {
                    return Err(format!("traversal {s} ended after {} items without {}", o.pos, show(&o.want[o.pos])));
                }
            }
            Some(Err(e)) => {
                if !missing {
                    return Err(format!("traversal {s} yielded an error: {e:?}"));
                }
            }
            Some(Ok(kv)) => {
                let got = item(&kv);
                match o.want.get(o.pos) {
                    Some(w) if *w == got => o.pos += 1,
                    w => {
                        return Err(format!(
                            "traversal {s} yielded {} as item {}, expected {}",
                            show(&got),
                            o.pos,
                            show(&w)
                        ))
                    }
                }
            }
        }
        Ok(())
    }

    fn step(&mut self, sc: &Script, i: usize, st: &Step) -> Result<(), String> {
        match st {
            Step::Do { h, op, want, plan } => self.do_op(sc, i, *h, op, *want, plan),
            Step::Cancel { h, op, polls } => {
                let (hb, subs) = (self.handles[*h].clone(), self.subs[*h].clone());
                let op2 = op.clone();
                let mut f: Pin<Box<dyn Future<Output = Res>>> = Box::pin(async move { apply_opened(&hb, subs.as_deref(), &op2, &|| ()).await });
                let flag = Flag::new();
                let len0 = self.core.len();
                mcrt::set_mode(Mode::Explore);
                let r = exec::run_polls(&self.core, &mut f, &flag, *polls);
                let d = exec::catch(move || drop(f));
                mcrt::set_mode(Mode::Seq);
                self.ops += 1;
                let at = Self::describe(i, op);
                d.map_err(|b| format!("{at}: dropping the operation {b}"))?;
                r.map_err(|b| format!("{at} {b}"))?;
                self.core.release();
                let len1 = self.core.len();
                let mut next = self.spec.clone();
                next.apply(op);
                mix(&mut self.outcome, (op.kind(), polls, len1));
                if let Op::AddStream(..) = op {
                    let now = streams_of(&self.core);
                    if now != self.spec.streams && now != next.streams {
                        return Err(format!("{at}: dropped after {polls} polls, the core has streams {now:?}"));
                    }
                    self.spec.streams = now;
                }
                if len1 == len0 {
                    // nothing happened
                } else if len1 == next.len {
                    self.spec = next;
                } else if len0 == 0 && len1 == 1 && matches!(on_parent(op), Op::Put(..) | Op::PutCas(..)) {
                    self.spec.plain_header();
                } else {
                    return Err(format!("{at}: dropped after {polls} polls, it appended {} blocks", len1 - len0));
                }
                Ok(())
            }
            Step::Open { h, sub, range } => {
                let (hb, subs) = (self.handles[*h].clone(), self.subs[*h].clone());
                let conf = range.config();
                let sub2 = if subs.as_ref().is_some_and(|s| s.through()) { Some(sub.clone().unwrap_or(Sub::all())) } else { sub.clone() };
                let r = exec::run(&self.core.clone(), async move {
                    let mut kept = None;
                    let r: Result<BoxStream, String> = match sub2 {
                        None => hb.traverse(conf).await.map(|s| {
                            let b: Pin<Box<dyn Stream<Item = KeyDataResult> + '_>> = Box::pin(s);
                            // SAFETY: handles outlive streams (field order of World; handles are never removed)
                            unsafe { std::mem::transmute::<Pin<Box<dyn Stream<Item = KeyDataResult> + '_>>, BoxStream>(b) }
                        }),
                        Some(sub) => {
                            let p = subs.map_or_else(|| Rc::new(sub.open(&hb)), |s| s.get(&hb, &sub));
                            let r = p.traverse(&conf).await.map(|s| {
                                let b: Pin<Box<dyn Stream<Item = KeyDataResult> + '_>> = Box::pin(s);
                                // SAFETY: the sub is kept at its address until the stream is dropped; the stream does
                                // not borrow from the configuration
                                unsafe { std::mem::transmute::<Pin<Box<dyn Stream<Item = KeyDataResult> + '_>>, BoxStream>(b) }
                            });
                            kept = Some(p);
                            r
                        }
                    }
                    .map_err(|e| format!("{e:?}"));
                    r.map(|s| (s, kept))
                });
                let want = match sub {
                    None => self.spec.range(range),
                    Some(s) => self.spec.sub_range(s, range),
                };
                self.ops += 1;
                let (stream, sub) = match r {
                    Ok(Ok((s, sub))) => (Some(s), sub),
                    Ok(Err(_)) if self.spec.len <= 1 => (None, None),
                    Ok(Err(e)) => return Err(format!("step {i}: opening a traversal failed: {e}")),
                    Err(b) => return Err(format!("step {i}: opening a traversal {b}")),
                };
                let ended = stream.is_none();
                self.streams.push(Open { stream, _sub: sub, flag: Flag::new(), want, pos: 0, ended });
                Ok(())
            }
            Step::Poll { s, polls } => {
                if self.streams[*s].ended {
                    return Ok(());
                }
                mcrt::set_mode(Mode::Explore);
                mcrt::budget(exec::STEP_LIMIT);
                let mut err = None;
                for _ in 0..*polls {
                    if self.streams[*s].ended {
                        break;
                    }
                    let flag = self.streams[*s].flag.clone();
                    if !flag.take() && (!self.core.release() || !flag.take()) {
                        err = Some(format!("step {i}: traversal {s} {}", Bad::Hang));
                        break;
                    }
                    let waker = std::task::Waker::from(flag.clone());
                    let st = self.streams[*s].stream.as_mut().unwrap();
                    let r = exec::catch(|| st.as_mut().poll_next(&mut std::task::Context::from_waker(&waker)));
                    match r {
                        Err(b) => {
                            err = Some(format!("step {i}: traversal {s} {b}"));
                            break;
                        }
                        Ok(std::task::Poll::Pending) => (),
                        Ok(std::task::Poll::Ready(x)) => {
                            flag.0.store(true, std::sync::atomic::Ordering::SeqCst);
                            if let Err(e) = self.accept(*s, x) {
                                err = Some(format!("step {i}: {e}"));
                                break;
                            }
                        }
                    }
                }
                mcrt::set_mode(Mode::Seq);
                err.map_or(Ok(()), Err)
            }
            Step::Take { s, n } => {
                for _ in 0..*n {
                    if self.streams[*s].ended {
                        return Ok(());
                    }
                    let x = self.stream_next(*s).map_err(|b| format!("step {i}: traversal {s} {b}"))?;
                    self.accept(*s, x).map_err(|e| format!("step {i}: {e}"))?;
                }
                Ok(())
            }
            Step::Finish { s } => {
                let mut n = 0;
                while !self.streams[*s].ended {
                    let x = self.stream_next(*s).map_err(|b| format!("step {i}: traversal {s} {b}"))?;
                    self.accept(*s, x).map_err(|e| format!("step {i}: {e}"))?;
                    n += 1;
                    if n > 5000 {
                        return Err(format!("step {i}: traversal {s} does not end"));
                    }
                }
                let p = self.streams[*s].pos;
                mix(&mut self.outcome, ("finish", p));
                Ok(())
            }
            Step::DropStream { s } => {
                let x = self.streams[*s].stream.take();
                self.streams[*s].ended = true;
                exec::catch(move || drop(x)).map_err(|b| format!("step {i}: dropping traversal {s} {b}"))
            }
            Step::Suspend { h, op, polls } => {
                let (hb, subs) = (self.handles[*h].clone(), self.subs[*h].clone());
                let op2 = op.clone();
                let mut f: Pin<Box<dyn Future<Output = Res>>> = Box::pin(async move { apply_opened(&hb, subs.as_deref(), &op2, &|| ()).await });
                let flag = Flag::new();
                mcrt::set_mode(Mode::Explore);
                let r = exec::run_polls(&self.core, &mut f, &flag, *polls);
                mcrt::set_mode(Mode::Seq);
                match r {
                    Err(b) => return Err(format!("{} {b}", Self::describe(i, op))),
                    Ok(Some(_)) => {
                        self.spec.apply(op);
                    }
                    Ok(None) => self.suspended.push((f, flag, op.clone())),
                }
                Ok(())
            }
            Step::Resume => {
                if self.suspended.is_empty() {
                    return Ok(());
                }
                let (mut f, flag, op) = self.suspended.remove(0);
                self.ops += 1;
                let at = Self::describe(i, &op);
                let r = exec::run_polls(&self.core, &mut f, &flag, 20_000).map_err(|b| format!("{at}, resumed, {b}"))?;
                let r = r.ok_or(format!("{at}, resumed, does not complete"))?;
                if let Some(want) = self.spec.apply(&op) {
                    if sc.results && !res_eq(&want, &r) {
                        return Err(format!("{at}, resumed: returned {}, expected {}", show(&r), show(&want)));
                    }
                }
                Ok(())
            }
            Step::Reopen => {
                let hb = Rc::new(open(&self.core));
                self.handles.push(hb);
                self.open_subs(sc);
                Ok(())
            }
            Step::Missing { blocks, wait } => {
                self.missing = !blocks.is_empty();
                self.core.with(|c| {
                    c.missing = blocks.iter().copied().collect();
                    c.on_missing = if *wait { Missing::Wait } else { Missing::None };
                });
                Ok(())
            }
            Step::Deliver { seq } => {
                self.core.deliver(*seq);
                if self.core.with(|c| c.missing.is_empty()) {
                    self.missing = false;
                }
                Ok(())
            }
            Step::Check { h } => {
                self.contents_via(*h, sc).map_err(|e| format!("step {i}: through handle {h}: {e}"))
            }
            Step::CheckFresh => {
                let hb = open(&self.core);
                self.contents_of(&hb, sc).map_err(|e| format!("step {i}: through a new handle: {e}"))
            }
            Step::Foreign { op } => {
                let log = crate::shapes::model_step(&self.core.log(), op).ok_or("internal: the reference cannot step")?;
                self.core.with(|c| c.log = log);
                self.spec.apply(op);
                Ok(())
            }
            Step::CheckHeader => {
                let log = self.core.log();
                let got = raw::header_of(&log);
                if got != self.spec.header {
                    return Err(format!("step {i}: the log starts with the header {got:?}, expected {:?}", self.spec.header));
                }
                if let Some(b) = log.blocks.iter().skip(1).position(|b| raw::decode_header(b).is_some_and(|h| h.protocol == b"hyperbee")) {
                    return Err(format!("step {i}: block {} is a header as well", b + 1));
                }
                Ok(())
            }
            Step::CheckTree => raw::check_tree(&self.core.log()).map(|_| ()).map_err(|e| format!("step {i}: {e}")),
            Step::CheckLen => {
                let l = self.core.len();
                if l != self.spec.len {
                    return Err(format!("step {i}: the log has {l} blocks, expected {}", self.spec.len));
                }
                Ok(())
            }
        }
    }
}

pub fn subsequence(items: &[Item], want: &[Item]) -> Result<(), String> {
    let mut it = want.iter();
    for x in items {
        if !it.any(|w| w == x) {
            return Err(format!("yielded {}, which is not the next stored key in range", show(x)));
        }
    }
    Ok(())
}

/// Run a case. Ok((hash of everything observed, operations performed)) or the violation.
/// Two stores with cores of their own, each with its steps, in an interleaving of the two
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pair {
    pub a: Script,
    pub b: Script,
    /// whose step is next
    pub order: Vec<u8>,
}

/// Both stores give what is specified, and are released, as if the other did not exist
pub fn run_pair(p: &Pair) -> Result<(u64, u64), String> {
    mcrt::set_mode(Mode::Seq);
    let who = ["the first store", "the second store"];
    let mut w = [World::new(p.a.log.clone()), World::new(p.b.log.clone())];
    let scripts = [&p.a, &p.b];
    (0..2).for_each(|x| w[x].open_subs(scripts[x]));
    let mut at = [0, 0];
    let r = (|| {
        for x in 0..2 {
            if scripts[x].warm {
                w[x].exec(0, &Op::Traverse(Range::all())).map_err(|b| format!("{}: warming up: a full traversal {b}", who[x]))?;
            }
        }
        for o in &p.order {
            let x = *o as usize;
            let log = w[1 - x].core.log();
            w[x].step(scripts[x], at[x], &scripts[x].steps[at[x]]).map_err(|e| format!("{}: {e}", who[x]))?;
            at[x] += 1;
            if w[1 - x].core.log() != log {
                return Err(format!("{}: step {}: the log of the other store changed", who[x], at[x] - 1));
            }
        }
        Ok(())
    })();
    mcrt::set_mode(Mode::Seq);
    let mut out = (0, 0);
    let [a, b] = w;
    for (x, w) in [(0, a), (1, b)] {
        mix(&mut out.0, w.outcome);
        out.1 += w.ops;
        let core = w.core.clone();
        let d = exec::catch(move || drop(w));
        if r.is_ok() {
            d.map_err(|b| format!("{}: dropping handles {b}", who[x]))?;
            if core.refs() > 1 {
                return Err(format!("{}: after all its handles were dropped, {} reference(s) to its core remain", who[x], core.refs() - 1));
            }
        }
    }
    r.map(|_| out)
}

pub fn run(sc: &Script) -> Result<(u64, u64), String> {
    run_looking(sc, false)
}

/// The same; with `look`, the handles are formatted after every step
pub fn run_looking(sc: &Script, look: bool) -> Result<(u64, u64), String> {
    mcrt::set_mode(Mode::Seq);
    let mut w = World::new(sc.log.clone());
    w.results = sc.results || !sc.release;
    w.open_subs(sc);
    let r = (|| {
        if sc.warm {
            let r = w.exec(0, &Op::Traverse(Range::all())).map_err(|b| format!("warming up: a full traversal {b}"));
            if r.is_err() && sc.panics_elsewhere {
                return Err(ELSEWHERE.to_string());
            }
            r?;
        }
        for (i, s) in sc.steps.iter().enumerate() {
            w.step(sc, i, s)?;
            if look {
                for hb in &w.handles {
                    crate::c_watch::show(&**hb)?;
                    crate::c_watch::show(&hb.sub(b"p", Default::default()))?;
                }
            }
        }
        let streams = streams_of(&w.core);
        if sc.results && streams != w.spec.streams {
            return Err(format!("the core was given the streams (id, initiator) {streams:?}, expected {:?}", w.spec.streams));
        }
        Ok(())
    })();
    mcrt::set_mode(Mode::Seq);
    let out = (w.outcome, w.ops);
    let core = w.core.clone();
    let d = exec::catch(move || drop(w));
    let users = core.refs() - 1;
    match r {
        Ok(()) if sc.release && users > 0 => Err(format!("after all handles were dropped, {users} reference(s) to the core remain")),
        Ok(()) => d.map(|_| out).map_err(|b| format!("dropping handles {b}")),
        Err(e) if e == ELSEWHERE => Ok(out),
        Err(e) => Err(e),
    }
}
