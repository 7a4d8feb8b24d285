//! C31: errors name their cause.
use crate::c_fault::{all_ops, measure, two_and_three_levels};
use crate::exec;
use crate::ops::*;
use crate::raw::{self, Level};
use crate::report::Ctx;
use crate::script::{self, logser};
use crate::shapes::{self, State};
use hypercore::mc::{CoreHandle, Event, Log, Missing};
use serde::{Deserialize, Serialize};

/// What goes wrong
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Fault {
    Nothing,
    /// this core operation fails
    Op(u64),
    /// all core operations from this one on
    From(u64),
    /// these blocks are missing
    Missing(Vec<u64>),
    /// reading this block fails
    Unreadable(u64),
    /// this block is replaced
    Block {
        seq: u64,
        #[serde(with = "hex")]
        bytes: Vec<u8>,
        /// what has to be said by whoever reads it (or, for `NoNode`, follows the reference)
        cause: Cause,
    },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    #[serde(with = "logser")]
    pub log: Log,
    /// everything has been read before (not with a fault that is there from the beginning)
    pub warm: bool,
    pub fault: Fault,
    pub ops: Vec<Op>,
}

pub fn run(c: &Case) -> Result<(u64, u64), String> {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    let mut n = 0;
    for op in &c.ops {
        n += 1;
        let mut log = c.log.clone();
        if let Fault::Block { seq, bytes, .. } = &c.fault {
            log.blocks[(seq - log.base) as usize] = std::sync::Arc::from(&bytes[..]);
        }
        let core = CoreHandle::new(log);
        let hb = script::open(&core);
        if c.warm {
            exec::run(&core, apply(&hb, &Op::Traverse(Range::all()))).map_err(|b| format!("reading everything {b}"))?;
        }
        core.plan_reset();
        core.with(|k| {
            k.trace = Some(vec![]);
            k.on_missing = Missing::None;
            match &c.fault {
                Fault::Op(f) => {
                    k.fail.insert(*f);
                }
                Fault::From(f) => k.fail.extend(*f..f + 300),
                Fault::Missing(m) => k.missing.extend(m.iter().copied()),
                Fault::Unreadable(s) => {
                    k.bad.insert(*s);
                }
                Fault::Nothing | Fault::Block { .. } => (),
            }
        });
        CAUSES.with(|c| *c.borrow_mut() = Some((vec![], vec![])));
        let got = exec::run(&core, apply(&hb, op));
        let (causes, bad) = CAUSES.with(|c| c.borrow_mut().take()).unwrap();
        let what = |e: String| format!("{:?} of a store of {} blocks with {}: {e}", op, c.log.len(), match &c.fault {
            Fault::Block { seq, bytes, .. } => format!("block {seq} replaced by {}", hex::enc(bytes)),
            f => format!("{f:?}"),
        });
        let got = got.map_err(|b| what(b.to_string()))?;
        causes.hash(&mut h);
        if let Some(b) = bad.first() {
            return Err(what(b.clone()));
        }
        let (failed, read) = core.with(|k| {
            let read: Vec<u64> = k.trace.take().unwrap_or_default().into_iter().filter_map(|e| if let Event::Get(s) = e { Some(s) } else { None }).collect();
            (k.failed, read)
        });
        // what may be named
        let may: Box<dyn Fn(&Cause) -> bool> = match &c.fault {
            Fault::Nothing => Box::new(|_| false),
            Fault::Op(_) | Fault::From(_) | Fault::Unreadable(_) => Box::new(|x| matches!(x, Cause::Core(t) if t.contains("injected by the explorer"))),
            Fault::Missing(m) => Box::new(|x| matches!(x, Cause::NoBlock(s) if m.contains(s))),
            Fault::Block { cause, .. } => Box::new(move |x| x == cause),
        };
        // whether something has to be named
        let must = match &c.fault {
            Fault::Nothing => matches!((op, c.log.len()), (Op::Header(_), 1..) | (Op::Traverse(_) | Op::Print, ..2)),
            Fault::Block { seq, cause, .. } => !matches!(cause, Cause::NoNode(_)) && read.contains(seq),
            _ => failed > 0,
        };
        if must && causes.is_empty() {
            return Err(what(format!("no error is reported, but {got:?}")));
        }
        // what does not depend on what is read
        let always = |x: &Cause| match op {
            Op::Header(_) => *x == Cause::HeaderExists && c.log.len() > 0,
            _ => *x == Cause::NoRoot && c.log.len() < 2,
        };
        if let Some(x) = causes.iter().find(|x| !may(x) && !always(x)) {
            return Err(what(format!("the error that is reported says {x:?}")));
        }
    }
    Ok((h.finish(), n))
}

/// A storage directory that cannot be opened
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Place {
    /// there is a file where the directory should be
    File,
    /// the storage is not what it should be
    NoIndex,
    Short,
    /// what should be a file is a directory
    Dir,
}
pub fn run_place(p: &Place) -> Result<(u64, u64), String> {
    static NEXT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    struct Dir(std::path::PathBuf);
    impl Drop for Dir {
        fn drop(&mut self) {
            for f in ["at/blocks", "at/base", "at"] {
                let f = self.0.join(f);
                let _ = std::fs::remove_file(&f).or_else(|_| std::fs::remove_dir(&f));
            }
            let _ = std::fs::remove_dir(&self.0);
        }
    }
    let n = NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let dir = Dir(std::env::temp_dir().join(format!("mc-err-{}-{n}", std::process::id())));
    let at = dir.0.join("at");
    (|| {
        std::fs::create_dir(&dir.0)?;
        if let Place::File = p {
            return std::fs::write(&at, b"x");
        }
        std::fs::create_dir(&at)?;
        match p {
            Place::NoIndex => std::fs::write(at.join("base"), b"x").and_then(|()| std::fs::write(at.join("blocks"), b"")),
            Place::Short => std::fs::write(at.join("blocks"), [9, 0, 0, 0, 1]),
            _ => std::fs::create_dir(at.join("blocks")),
        }
    })()
    .expect("a scratch directory can be set up");
    let idle = CoreHandle::new(Log::default());
    let r = exec::run(&idle, hyperbee::Hyperbee::from_storage_dir(&at)).map_err(|b| format!("opening a directory that cannot be opened ({p:?}) {b}"))?;
    let e = r.err().ok_or_else(|| format!("opening a directory that cannot be opened ({p:?}) reports success"))?;
    let mut bad = vec![];
    match (p, cause(&e, &mut bad)) {
        (Place::NoIndex | Place::Short, Cause::Core(t)) if t.contains("CorruptStorage") => (),
        (Place::File | Place::Dir, Cause::Core(t)) if t.contains("IO") => (),
        (_, c) => return Err(format!("opening a directory that cannot be opened ({p:?}): the error that is reported says {c:?}")),
    }
    bad.into_iter().next().map_or(Ok((*p as u64, 1)), Err)
}

/// Replacements of a block, and what has to be said about them
fn damages(log: &Log, seq: u64) -> Vec<(Vec<u8>, Cause)> {
    let whole = log.get(seq).unwrap();
    let mut out: Vec<(Vec<u8>, Cause)> = [b"\xff\xff\xff\xff".to_vec(), vec![0x0a, 0x7f], vec![0; 16], whole[..whole.len() - 1].to_vec(), whole[..1].to_vec()]
        .into_iter()
        .map(|b| (b, Cause::Undecodable))
        .collect();
    // the text of a header where the index of a node should be
    out.push((shapes::header(), Cause::Undecodable));
    let Some(b) = raw::decode_block(whole) else { return vec![] };
    for i in 0..b.levels.len() {
        let inner = !b.levels[i].children.is_empty();
        let mut edit = |cause: Cause, f: &dyn Fn(&mut Level)| {
            let mut x = b.clone();
            f(&mut x.levels[i]);
            out.push((raw::encode_block(&x), cause));
        };
        let m = Cause::Malformed(seq);
        edit(m.clone(), &|l| l.children.push(1));
        edit(m.clone(), &|l| l.keys.push(seq + 1));
        if !b.levels[i].keys.is_empty() {
            edit(m.clone(), &|l| l.keys[0] = u64::MAX);
        }
        if inner {
            edit(m.clone(), &|l| l.keys.push(1));
            edit(m.clone(), &|l| l.children.truncate(l.children.len() - 2));
            edit(m.clone(), &|l| l.children[0] = seq + 1);
            edit(m, &|l| {
                l.keys.clear();
                l.children.truncate(2)
            });
            for c in 0..b.levels[i].children.len() / 2 {
                for to in [700, u64::from(u32::MAX), u64::MAX] {
                    edit(Cause::NoNode(to), &|l| l.children[2 * c + 1] = to);
                }
            }
        }
    }
    out
}

pub fn c31(ctx: &Ctx) {
    let t = ctx.thorough;
    let mut states: Vec<State> = shapes::reachable(ctx, if t { 20 } else { 14 });
    states.insert(0, shapes::state(Log::default()));
    states.extend(two_and_three_levels());
    ctx.count("starting_stores", states.len() as u64);
    let ops_of = |s: &State| {
        let mut v: Vec<Op> = all_ops(&s.spec);
        v.extend([Op::Height, Op::Header(None), Op::Version]);
        if let Some(k) = s.spec.map.keys().nth(s.spec.map.len() / 2) {
            for rev in [false, true] {
                v.push(Op::Traverse(Range { min: B::F(k.clone()), rev, ..Range::all() }));
                v.push(Op::Traverse(Range { max: B::F(k.clone()), max_inc: false, rev, ..Range::all() }));
            }
        }
        // keys that are no text cannot be printed
        if s.spec.map.keys().all(|k| std::str::from_utf8(k).is_ok()) {
            v.push(Op::Print);
        }
        v
    };
    let go = |s: &State, warm: bool, fault: Fault, ops: Vec<Op>| {
        ctx.case("cause", &Case { log: s.log.clone(), warm, fault, ops }, run);
        ctx.count("faults", 1);
    };
    ctx.par(&states, |s| go(s, false, Fault::Nothing, ops_of(s)));
    ctx.par(&[Place::File, Place::NoIndex, Place::Short, Place::Dir], |p| ctx.case("place", p, run_place));
    let each: Vec<(&State, Op)> = states.iter().flat_map(|s| ops_of(s).into_iter().map(move |o| (s, o))).collect();
    ctx.par(&each, |(s, op)| {
        for warm in [false, true] {
            if warm && s.log.len() < 2 {
                continue;
            }
            let (n, _) = measure(&s.log, warm, op);
            for f in 0..n {
                go(s, warm, Fault::Op(f), vec![op.clone()]);
                if f % 4 == 0 {
                    go(s, warm, Fault::From(f), vec![op.clone()]);
                }
            }
        }
    });
    ctx.note("every core operation failing");
    let blocks: Vec<(usize, u64)> = states.iter().enumerate().flat_map(|(i, s)| (s.log.base.max(1)..s.log.len()).map(move |b| (i, b))).collect();
    ctx.par(&blocks, |(i, seq)| {
        let s = &states[*i];
        let ops = ops_of(s);
        go(s, false, Fault::Missing(vec![*seq]), ops.clone());
        go(s, false, Fault::Unreadable(*seq), ops.clone());
        // this and all that follow, or precede, or the one two before
        go(s, false, Fault::Missing((*seq..s.log.len()).collect()), ops.clone());
        go(s, false, Fault::Missing((s.log.base..=*seq).collect()), ops.clone());
        if *seq > s.log.base + 2 {
            go(s, false, Fault::Missing(vec![*seq - 2, *seq]), ops);
        }
    });
    ctx.note("missing and unreadable blocks");
    ctx.par(&blocks, |(i, seq)| {
        let s = &states[*i];
        let ops = ops_of(s);
        for (bytes, cause) in damages(&s.log, *seq) {
            go(s, false, Fault::Block { seq: *seq, bytes, cause }, ops.clone());
        }
    });
    ctx.note("damaged blocks");
}
