//! Operations on a store, their results, and the specification of both.
use crate::raw;
use futures_util::StreamExt;
use hyperbee::prefixed::{Prefixed, PrefixedConfig};
use hyperbee::traverse::{LimitValue, TraverseConfig};
use hyperbee::{Hyperbee, HyperbeeError, KeyValueData, Metadata};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

pub type K = Vec<u8>;
pub type V = Option<Vec<u8>>;

pub mod hex {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn enc(b: &[u8]) -> String {
        b.iter().map(|x| format!("{x:02x}")).collect()
    }
    pub fn dec(s: &str) -> Vec<u8> {
        (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
    }
    pub fn serialize<S: Serializer>(b: &[u8], s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&enc(b))
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
        Ok(dec(&String::deserialize(d)?))
    }
}
pub mod ohex {
    use serde::{Deserialize, Deserializer, Serialize, Serializer};
    pub fn serialize<S: Serializer>(b: &Option<Vec<u8>>, s: S) -> Result<S::Ok, S::Error> {
        b.as_ref().map(|b| super::hex::enc(b)).serialize(s)
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Option<Vec<u8>>, D::Error> {
        Ok(Option::<String>::deserialize(d)?.map(|s| super::hex::dec(&s)))
    }
}

/// Predicates of conditional operations
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Cas {
    Accept,
    Reject,
    /// accept iff absent (put)
    IfAbsent,
    /// accept iff present (put)
    IfPresent,
    /// accept iff the current entry has this index
    IfSeq(u64),
    /// does not answer, but panics
    Panic,
}
/// What it says then
pub const PANICS: &str = "the predicate has had enough";
impl Cas {
    pub fn holds(self, old: Option<u64>) -> bool {
        match self {
            Cas::Accept => true,
            Cas::Reject | Cas::Panic => false,
            Cas::IfAbsent => old.is_none(),
            Cas::IfPresent => old.is_some(),
            Cas::IfSeq(s) => old == Some(s),
        }
    }
}

/// A traversal bound
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum B {
    NegInf,
    PosInf,
    F(#[serde(with = "hex")] Vec<u8>),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Range {
    pub min: B,
    pub min_inc: bool,
    pub max: B,
    pub max_inc: bool,
    pub rev: bool,
}
impl Range {
    pub fn all() -> Range {
        Range { min: B::NegInf, min_inc: true, max: B::PosInf, max_inc: true, rev: false }
    }
    pub fn rev(mut self) -> Range {
        self.rev = !self.rev;
        self
    }
    pub fn contains(&self, k: &[u8]) -> bool {
        let lo = match &self.min {
            B::NegInf => true,
            B::PosInf => false,
            B::F(m) => {
                if self.min_inc {
                    k >= &m[..]
                } else {
                    k > &m[..]
                }
            }
        };
        let hi = match &self.max {
            B::NegInf => false,
            B::PosInf => true,
            B::F(m) => {
                if self.max_inc {
                    k <= &m[..]
                } else {
                    k < &m[..]
                }
            }
        };
        lo && hi
    }
    pub fn config(&self) -> TraverseConfig {
        let d = TraverseConfig::default();
        let (neg, pos) = (d.min_value, d.max_value);
        let lim = |b: &B| match b {
            B::NegInf => neg.clone(),
            B::PosInf => pos.clone(),
            B::F(k) => LimitValue::Finite(k.clone()),
        };
        TraverseConfig {
            min_value: lim(&self.min),
            min_inclusive: self.min_inc,
            max_value: lim(&self.max),
            max_inclusive: self.max_inc,
            reversed: self.rev,
        }
    }
}

/// Where an operation is performed: the store, or a sub with a prefix and a separator (None: the default one)
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize, Default)]
pub struct Sub {
    #[serde(with = "hex")]
    pub prefix: Vec<u8>,
    #[serde(with = "ohex")]
    pub sep: Option<Vec<u8>>,
}
impl Sub {
    /// The one that has all keys, as they are
    pub fn all() -> Sub {
        Sub { prefix: vec![], sep: Some(vec![]) }
    }
    pub fn full(&self) -> Vec<u8> {
        let mut p = self.prefix.clone();
        p.extend_from_slice(self.sep.as_deref().unwrap_or(b"\0"));
        p
    }
    pub fn open(&self, hb: &Hyperbee) -> Prefixed {
        let c = match &self.sep {
            None => PrefixedConfig::default(),
            Some(s) => PrefixedConfig { seperator: s.clone() },
        };
        hb.sub(&self.prefix, c)
    }
}

/// Handles of subs that are opened once and used again
pub struct Subs {
    keep: Keep,
    kept: RefCell<Vec<(Sub, Vec<Rc<Prefixed>>, usize)>>,
}
/// How the operations of a case use handles of subs
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Keep {
    /// each operation opens its own
    #[default]
    No,
    /// opened before the first operation, and used by all
    One,
    /// two of each, used in turn
    Two,
    /// as `One`; and all operations on the store itself are performed on a sub without prefix and separator
    Through,
}
impl Subs {
    pub fn new(keep: Keep) -> Option<Rc<Subs>> {
        (keep != Keep::No).then(|| Rc::new(Subs { keep, kept: Default::default() }))
    }
    pub fn get(&self, hb: &Hyperbee, sub: &Sub) -> Rc<Prefixed> {
        let mut kept = self.kept.borrow_mut();
        let i = match kept.iter().position(|k| k.0 == *sub) {
            Some(i) => i,
            None => {
                let n = if self.keep == Keep::Two { 2 } else { 1 };
                kept.push((sub.clone(), (0..n).map(|_| Rc::new(sub.open(hb))).collect(), 0));
                kept.len() - 1
            }
        };
        let k = &mut kept[i];
        k.2 += 1;
        k.1[k.2 % k.1.len()].clone()
    }
    /// the sub on which an operation is performed
    pub fn via<'a>(&self, op: &'a Op) -> std::borrow::Cow<'a, Op> {
        if self.keep == Keep::Through {
            std::borrow::Cow::Owned(through(op))
        } else {
            std::borrow::Cow::Borrowed(op)
        }
    }
    /// those opened so far
    pub fn all(&self) -> Vec<(Sub, Rc<Prefixed>)> {
        self.kept.borrow().iter().flat_map(|(s, v, _)| v.iter().map(move |p| (s.clone(), p.clone()))).collect()
    }
    pub fn through(&self) -> bool {
        self.keep == Keep::Through
    }
}

pub type Pair = (Option<Vec<u8>>, Option<Vec<u8>>);

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Op {
    Get(#[serde(with = "hex")] K),
    Put(#[serde(with = "hex")] K, #[serde(with = "ohex")] V),
    Del(#[serde(with = "hex")] K),
    PutCas(#[serde(with = "hex")] K, #[serde(with = "ohex")] V, Cas),
    DelCas(#[serde(with = "hex")] K, Cas),
    Version,
    /// metadata: (content_feed, user_data)
    Header(Option<Pair>),
    Traverse(Range),
    Height,
    Print,
    /// add a replication stream (identified by a number) with the initiator role
    AddStream(u8, bool),
    /// an operation on a sub (Get, Put, Del, PutCas, DelCas, Traverse)
    In(Sub, Box<Op>),
}

impl Op {
    pub fn mutates(&self) -> bool {
        match self {
            Op::Put(..) | Op::Del(..) | Op::PutCas(..) | Op::DelCas(..) | Op::Header(..) | Op::AddStream(..) => true,
            Op::In(_, o) => o.mutates(),
            _ => false,
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Op::Get(_) => "get",
            Op::Put(..) => "put",
            Op::Del(_) => "del",
            Op::PutCas(..) => "put_cas",
            Op::DelCas(..) => "del_cas",
            Op::Version => "version",
            Op::Header(_) => "header",
            Op::Traverse(_) => "traverse",
            Op::Height => "height",
            Op::Print => "print",
            Op::AddStream(..) => "add_stream",
            Op::In(_, o) => match **o {
                Op::Get(_) => "sub.get",
                Op::Put(..) => "sub.put",
                Op::Del(_) => "sub.del",
                Op::PutCas(..) => "sub.put_cas",
                Op::DelCas(..) => "sub.del_cas",
                _ => "sub.traverse",
            },
        }
    }
}

pub type Item = (K, u64, V);

/// What a predicate was shown: (current entry, entry about to be written); one element per call
pub type CasCalls = Vec<(Option<Item>, Option<Item>)>;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Res {
    Got(Option<(u64, V)>),
    Put(Option<u64>, u64),
    PutCas(Option<u64>, Option<u64>, CasCalls),
    Del(Option<u64>),
    DelCas(Option<(bool, u64)>, CasCalls),
    Version(u64),
    Header(u64),
    HeaderExists,
    NoRoot,
    Items(Vec<Item>),
    Height(usize),
    Print(String),
    Added,
    /// an error other than the two above; text for the report only
    Err(String),
    /// a stream that yielded errors: the other items, and the number of errors
    ItemsErr(Vec<Item>, usize),
}
impl Res {
    pub fn is_err(&self) -> bool {
        matches!(self, Res::Err(_) | Res::NoRoot | Res::HeaderExists | Res::ItemsErr(..))
    }
}

/// What an error says went wrong
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Cause {
    /// the core's own error, as text
    Core(String),
    NoBlock(u64),
    Undecodable,
    Malformed(u64),
    NoNode(u64),
    NoRoot,
    HeaderExists,
    Other(String),
}
thread_local! {
    /// the causes of the errors that operations report, while they are recorded, and what is wrong with their texts
    pub static CAUSES: RefCell<Option<(Vec<Cause>, Vec<String>)>> = const { RefCell::new(None) };
}
fn note(e: &HyperbeeError) {
    CAUSES.with(|c| {
        if let Some((causes, bad)) = &mut *c.borrow_mut() {
            causes.push(cause(e, bad));
        }
    })
}
/// Follow what wraps the error of a part of a traversal
pub fn cause(e: &HyperbeeError, bad: &mut Vec<String>) -> Cause {
    use hyperbee::HyperbeeError::*;
    let text = e.to_string();
    if text.is_empty() {
        bad.push(format!("{e:?} has no text"));
    }
    match e {
        GetChildInTraverseError(inner) | BuildIteratorInTraverseError(inner) => {
            if !text.contains(&inner.to_string()) {
                bad.push(format!("the text {text:?} of {e:?} does not have the text of its cause"));
            }
            match inner.downcast_ref::<HyperbeeError>() {
                Some(inner) => cause(inner, bad),
                None => Cause::Other(text),
            }
        }
        CoreMethodsError(c) => {
            if !text.contains(&c.to_string()) {
                bad.push(format!("the text {text:?} of {e:?} does not have the text of its cause"));
            }
            Cause::Core(format!("{c:?}"))
        }
        HypercoreError(c) => Cause::Core(format!("{c:?}")),
        NoBlockAtSeqError(s) => {
            if !text.contains(&s.to_string()) {
                bad.push(format!("the text {text:?} of {e:?} does not say which block"));
            }
            Cause::NoBlock(*s)
        }
        DecodeError(_) => Cause::Undecodable,
        MalformedBlockError(s) => Cause::Malformed(*s),
        NoNodeAtOffsetError(o) => Cause::NoNode(*o),
        NoRootError => Cause::NoRoot,
        HeaderAlreadyExists => Cause::HeaderExists,
        _ => Cause::Other(format!("{e:?}")),
    }
}

fn err(e: HyperbeeError) -> Res {
    note(&e);
    match e {
        HyperbeeError::NoRootError => Res::NoRoot,
        HyperbeeError::HeaderAlreadyExists => Res::HeaderExists,
        e => Res::Err(format!("{e:?}")),
    }
}
/// The operation on a sub that has all keys, if it is one that subs have
pub fn through(op: &Op) -> Op {
    match op {
        Op::Get(_) | Op::Put(..) | Op::Del(_) | Op::PutCas(..) | Op::DelCas(..) | Op::Traverse(_) => Op::In(Sub::all(), Box::new(op.clone())),
        op => op.clone(),
    }
}
pub fn item(kv: &KeyValueData) -> Item {
    (kv.key.clone(), kv.seq, kv.value.clone())
}

/// A replication stream that can be recognised
pub struct TestStream(pub u8);
impl futures_util::io::AsyncRead for TestStream {
    fn poll_read(self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>, _: &mut [u8]) -> std::task::Poll<std::io::Result<usize>> {
        std::task::Poll::Pending
    }
}
impl futures_util::io::AsyncWrite for TestStream {
    fn poll_write(self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>, b: &[u8]) -> std::task::Poll<std::io::Result<usize>> {
        std::task::Poll::Ready(Ok(b.len()))
    }
    fn poll_flush(self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<std::io::Result<()>> {
        std::task::Poll::Ready(Ok(()))
    }
    fn poll_close(self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<std::io::Result<()>> {
        std::task::Poll::Ready(Ok(()))
    }
}
/// The streams the core was given, in order
pub fn streams_of(core: &hypercore::mc::CoreHandle) -> Vec<(u8, bool)> {
    core.with(|c| c.streams.iter().map(|(s, role)| (s.downcast_ref::<TestStream>().map_or(255, |t| t.0), *role)).collect())
}

/// Most items a traversal may yield before it is reported as endless
const MAX_ITEMS: usize = 600_000;

async fn drain(s: impl futures_util::Stream<Item = Result<KeyValueData, HyperbeeError>>) -> Res {
    let mut s = Box::pin(s);
    let (mut items, mut errs) = (vec![], 0);
    while let Some(x) = s.next().await {
        match x {
            Ok(kv) => items.push(item(&kv)),
            Err(e) => {
                note(&e);
                errs += 1
            }
        }
        if items.len() + errs > MAX_ITEMS {
            return Res::Err("the traversal does not end".into());
        }
    }
    if errs > 0 {
        Res::ItemsErr(items, errs)
    } else {
        Res::Items(items)
    }
}

pub fn meta(m: &Option<Pair>) -> Option<Metadata> {
    m.as_ref().map(|(c, u)| Metadata { content_feed: c.clone(), user_data: u.clone() })
}

/// Perform one operation on the real store
pub async fn apply(hb: &Hyperbee, op: &Op) -> Res {
    apply_opened(hb, None, op, &|| ()).await
}

/// The same; `opened` is called when a traversal has been opened
pub async fn apply_opened(hb: &Hyperbee, subs: Option<&Subs>, op: &Op, opened: &dyn Fn()) -> Res {
    let op = subs.map_or(std::borrow::Cow::Borrowed(op), |s| s.via(op));
    let op: &Op = &op;
    let calls: Rc<RefCell<CasCalls>> = Default::default();
    macro_rules! put_cas {
        ($t:expr, $k:expr, $v:expr, $c:expr) => {{
            let (calls2, c) = (calls.clone(), *$c);
            let r = $t
                .put_compare_and_swap($k, $v.as_deref(), move |old, new| {
                    calls2.borrow_mut().push((old.map(item), Some(item(new))));
                    if c == Cas::Panic {
                        panic!("{PANICS}")
                    }
                    c.holds(old.map(|o| o.seq))
                })
                .await;
            match r {
                Ok((o, n)) => Res::PutCas(o, n, calls.take()),
                Err(e) => err(e),
            }
        }};
    }
    macro_rules! del_cas {
        ($t:expr, $k:expr, $c:expr) => {{
            let (calls2, c) = (calls.clone(), *$c);
            let r = $t
                .del_compare_and_swap($k, move |old| {
                    calls2.borrow_mut().push((Some(item(old)), None));
                    if c == Cas::Panic {
                        panic!("{PANICS}")
                    }
                    c.holds(Some(old.seq))
                })
                .await;
            match r {
                Ok(r) => Res::DelCas(r, calls.take()),
                Err(e) => err(e),
            }
        }};
    }
    match op {
        Op::Get(k) => hb.get(k).await.map_or_else(err, Res::Got),
        Op::Put(k, v) => hb.put(k, v.as_deref()).await.map_or_else(err, |(o, n)| Res::Put(o, n)),
        Op::Del(k) => hb.del(k).await.map_or_else(err, Res::Del),
        Op::PutCas(k, v, c) => put_cas!(hb, k, v, c),
        Op::DelCas(k, c) => del_cas!(hb, k, c),
        Op::Version => Res::Version(hb.version().await),
        Op::Header(m) => hb.create_header(meta(m)).await.map_or_else(err, |o| Res::Header(o.length)),
        Op::Traverse(r) => match hb.traverse(r.config()).await {
            Ok(s) => {
                opened();
                drain(s).await
            }
            Err(e) => err(e),
        },
        Op::Height => hb.height().await.map_or_else(err, Res::Height),
        Op::Print => hb.print().await.map_or_else(err, Res::Print),
        Op::AddStream(id, role) => hb.add_stream(TestStream(*id), *role).await.map_or_else(err, |()| Res::Added),
        Op::In(sub, op) => {
            let s = subs.map_or_else(|| Rc::new(sub.open(hb)), |s| s.get(hb, sub));
            match &**op {
                Op::Get(k) => s.get(k).await.map_or_else(err, Res::Got),
                Op::Put(k, v) => s.put(k, v.as_deref()).await.map_or_else(err, |(o, n)| Res::Put(o, n)),
                Op::Del(k) => s.del(k).await.map_or_else(err, Res::Del),
                Op::PutCas(k, v, c) => put_cas!(s, k, v, c),
                Op::DelCas(k, c) => del_cas!(s, k, c),
                Op::Traverse(r) => match s.traverse(&r.config()).await {
                    Ok(s) => {
                        opened();
                        drain(s).await
                    }
                    Err(e) => err(e),
                },
                o => unreachable!("not an operation of a sub: {o:?}"),
            }
        }
    }
}

/// The specification: a map, the number of blocks, and the header
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Spec {
    pub len: u64,
    pub map: BTreeMap<K, (u64, V)>,
    /// the metadata of the header, once there is one
    pub header: Option<Option<Pair>>,
    /// replication streams added so far
    pub streams: Vec<(u8, bool)>,
}

impl Spec {
    pub fn of_log(log: &hypercore::mc::Log) -> Spec {
        let map = raw::contents(log)
            .expect("initial log is well-formed")
            .into_iter()
            .map(|(k, s, v)| (k, (s, v)))
            .collect();
        Spec { len: log.len(), map, header: raw::header_of(log), streams: vec![] }
    }
    /// the first write to an empty log starts with a plain header
    pub fn plain_header(&mut self) {
        if self.len == 0 {
            self.len = 1;
            self.header = Some(None);
        }
    }
    pub fn range(&self, r: &Range) -> Vec<Item> {
        let mut v: Vec<Item> = self
            .map
            .iter()
            .filter(|(k, _)| r.contains(k))
            .map(|(k, (s, v))| (k.clone(), *s, v.clone()))
            .collect();
        if r.rev {
            v.reverse()
        }
        v
    }
    pub fn sub_range(&self, sub: &Sub, r: &Range) -> Vec<Item> {
        let p = sub.full();
        let mut v: Vec<Item> = self
            .map
            .iter()
            .filter_map(|(k, (s, v))| k.strip_prefix(&p[..]).map(|rest| (rest.to_vec(), *s, v.clone())))
            .filter(|(k, _, _)| r.contains(k))
            .collect();
        if r.rev {
            v.reverse()
        }
        v
    }
    fn write_seq(&mut self) -> u64 {
        self.plain_header();
        let s = self.len;
        self.len += 1;
        s
    }
    /// Height and printed form are not specified here (they depend on the tree): `None`.
    pub fn apply(&mut self, op: &Op) -> Option<Res> {
        Some(match op {
            Op::Get(k) => Res::Got(self.map.get(k).cloned()),
            Op::Put(k, v) => {
                let s = self.write_seq();
                Res::Put(self.map.insert(k.clone(), (s, v.clone())).map(|o| o.0), s)
            }
            Op::PutCas(k, v, c) => {
                let old = self.map.get(k).cloned();
                let oldseq = old.as_ref().map(|o| o.0);
                let newseq = self.len.max(1);
                let calls = vec![(old.map(|(s, v)| (k.clone(), s, v)), Some((k.clone(), newseq, v.clone())))];
                self.plain_header();
                if !c.holds(oldseq) {
                    return Some(Res::PutCas(oldseq, None, calls));
                }
                let s = self.write_seq();
                self.map.insert(k.clone(), (s, v.clone()));
                Res::PutCas(oldseq, Some(s), calls)
            }
            Op::Del(k) => Res::Del(self.map.remove(k).map(|(s, _)| {
                self.write_seq();
                s
            })),
            Op::DelCas(k, c) => match self.map.get(k).cloned() {
                None => Res::DelCas(None, vec![]),
                Some((s, v)) => {
                    let calls = vec![(Some((k.clone(), s, v)), None)];
                    if c.holds(Some(s)) {
                        self.map.remove(k);
                        self.write_seq();
                        Res::DelCas(Some((true, s)), calls)
                    } else {
                        Res::DelCas(Some((false, s)), calls)
                    }
                }
            },
            Op::Version => Res::Version(self.len),
            Op::Header(m) => {
                if self.len > 0 {
                    Res::HeaderExists
                } else {
                    self.len = 1;
                    self.header = Some(m.clone());
                    Res::Header(1)
                }
            }
            Op::Traverse(r) => {
                if self.len <= 1 {
                    Res::NoRoot
                } else {
                    Res::Items(self.range(r))
                }
            }
            Op::AddStream(id, role) => {
                self.streams.push((*id, *role));
                Res::Added
            }
            Op::Height | Op::Print => return None,
            Op::In(sub, op) => {
                let full = |k: &K| [sub.full(), k.clone()].concat();
                return match &**op {
                    Op::Get(k) => self.apply(&Op::Get(full(k))),
                    Op::Put(k, v) => self.apply(&Op::Put(full(k), v.clone())),
                    Op::Del(k) => self.apply(&Op::Del(full(k))),
                    Op::PutCas(k, v, c) => self.apply(&Op::PutCas(full(k), v.clone(), *c)),
                    Op::DelCas(k, c) => self.apply(&Op::DelCas(full(k), *c)),
                    Op::Traverse(r) => Some(if self.len <= 1 { Res::NoRoot } else { Res::Items(self.sub_range(sub, r)) }),
                    o => unreachable!("not an operation of a sub: {o:?}"),
                };
            }
        })
    }
}

/// The same operation expressed on the parent
pub fn on_parent(op: &Op) -> Op {
    match op {
        Op::In(sub, o) => {
            let full = |k: &K| [sub.full(), k.clone()].concat();
            match &**o {
                Op::Get(k) => Op::Get(full(k)),
                Op::Put(k, v) => Op::Put(full(k), v.clone()),
                Op::Del(k) => Op::Del(full(k)),
                Op::PutCas(k, v, c) => Op::PutCas(full(k), v.clone(), *c),
                Op::DelCas(k, c) => Op::DelCas(full(k), *c),
                o => o.clone(),
            }
        }
        o => o.clone(),
    }
}
