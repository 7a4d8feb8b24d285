//! Helpers of the demonstration
#![allow(dead_code)]
pub use futures_util::stream::{Stream, StreamExt};
pub use hyperbee::prefixed::PrefixedConfig;
pub use hyperbee::traverse::{KeyDataResult, LimitValue, TraverseConfig, TraverseConfigBuilder};
pub use hyperbee::{Hyperbee, HyperbeeError};
pub use hypercore::mc::{CoreHandle, Log};
pub use hypercore::replication::SharedCore;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

pub struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, SeqCst)
    }
}

/// Run to completion; panics when it waits for something that nobody will do
pub fn run<T>(f: impl Future<Output = T>) -> T {
    let mut f = Box::pin(f);
    let flag = Arc::new(Flag(AtomicBool::new(true)));
    let w = Waker::from(flag.clone());
    for _ in 0..10_000_000u64 {
        assert!(flag.0.swap(false, SeqCst), "waits for nothing");
        if let Poll::Ready(t) = f.as_mut().poll(&mut Context::from_waker(&w)) {
            return t;
        }
    }
    panic!("does not end")
}

/// A task that is polled step by step
pub struct Task<'a, T> {
    f: Pin<Box<dyn Future<Output = T> + 'a>>,
    flag: Arc<Flag>,
    pub out: Option<T>,
}
impl<'a, T> Task<'a, T> {
    pub fn new(f: impl Future<Output = T> + 'a) -> Self {
        Task { f: Box::pin(f), flag: Arc::new(Flag(AtomicBool::new(true))), out: None }
    }
    /// whether polling makes sense
    pub fn ready(&self) -> bool {
        self.out.is_none() && self.flag.0.load(SeqCst)
    }
    pub fn poll(&mut self) {
        self.flag.0.store(false, SeqCst);
        let w = Waker::from(self.flag.clone());
        if let Poll::Ready(t) = self.f.as_mut().poll(&mut Context::from_waker(&w)) {
            self.out = Some(t);
        }
    }
}
/// Run `a` for `n` steps, then `b` for `m` steps, then both to the end. False if they get stuck.
pub fn interleave<A, B>(a: &mut Task<A>, n: usize, b: &mut Task<B>, m: usize) -> bool {
    mcrt::set_mode(mcrt::Mode::Explore);
    for _ in 0..n {
        if a.ready() {
            a.poll()
        }
    }
    for _ in 0..m {
        if b.ready() {
            b.poll()
        }
    }
    while a.ready() || b.ready() {
        if a.ready() {
            a.poll()
        }
        if b.ready() {
            b.poll()
        }
    }
    mcrt::set_mode(mcrt::Mode::Free);
    a.out.is_some() && b.out.is_some()
}

pub fn open(core: &CoreHandle) -> Hyperbee {
    Hyperbee::from_hypercore(SharedCore::from(core.clone())).unwrap()
}
pub fn core() -> CoreHandle {
    CoreHandle::new(Log::default())
}
pub fn key(i: usize) -> Vec<u8> {
    format!("{i:04}").into_bytes()
}
/// A store with keys 0000, 0001, ... put in this order
pub fn filled(n: usize) -> (CoreHandle, Hyperbee) {
    let c = core();
    let hb = open(&c);
    for i in 0..n {
        run(hb.put(&key(i), Some(&key(i)))).unwrap();
    }
    (c, hb)
}
pub fn items(s: impl Stream<Item = KeyDataResult>) -> Vec<Result<Vec<u8>, String>> {
    run(s.map(|r| r.map(|x| x.key).map_err(|e| e.to_string())).collect())
}
pub fn keys(hb: &Hyperbee, conf: TraverseConfig) -> Vec<Result<Vec<u8>, String>> {
    items(run(hb.traverse(conf)).unwrap())
}

#[derive(Clone, PartialEq, prost::Message)]
pub struct Node {
    #[prost(bytes = "vec", required, tag = "1")]
    pub index: Vec<u8>,
    #[prost(bytes = "vec", required, tag = "2")]
    pub key: Vec<u8>,
    #[prost(bytes = "vec", optional, tag = "3")]
    pub value: Option<Vec<u8>>,
}
#[derive(Clone, PartialEq, prost::Message)]
pub struct Level {
    #[prost(uint64, repeated, tag = "1")]
    pub keys: Vec<u64>,
    #[prost(uint64, repeated, tag = "2")]
    pub children: Vec<u64>,
}
#[derive(Clone, PartialEq, prost::Message)]
pub struct Index {
    #[prost(message, repeated, tag = "1")]
    pub levels: Vec<Level>,
}
#[derive(Clone, PartialEq, prost::Message)]
pub struct Header {
    #[prost(string, required, tag = "1")]
    pub protocol: String,
}
pub fn block(c: &CoreHandle, seq: u64) -> (Node, Vec<Level>) {
    use prost::Message;
    let n = Node::decode(&c.log().get(seq).unwrap()[..]).unwrap();
    let i = Index::decode(&n.index[..]).unwrap();
    (n, i.levels)
}
pub fn is_header(c: &CoreHandle, seq: u64) -> bool {
    use prost::Message;
    Header::decode(&c.log().get(seq).unwrap()[..]).is_ok_and(|h| h.protocol == "hyperbee")
}
