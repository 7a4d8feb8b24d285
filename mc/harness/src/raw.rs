//! Independent decoder and encoder of Hyperbee blocks (protobuf by hand; shares no code with /repo).
use hypercore::mc::Log;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Level {
    pub keys: Vec<u64>,
    /// flat list: seq, offset, seq, offset, ...
    pub children: Vec<u64>,
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Block {
    pub levels: Vec<Level>,
    pub key: Vec<u8>,
    pub value: Option<Vec<u8>>,
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Header {
    pub protocol: Vec<u8>,
    /// (content_feed, user_data)
    pub metadata: Option<(Option<Vec<u8>>, Option<Vec<u8>>)>,
}

pub fn put_varint(out: &mut Vec<u8>, mut v: u64) {
    while v >= 0x80 {
        out.push(v as u8 | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}
fn put_bytes(out: &mut Vec<u8>, field: u8, b: &[u8]) {
    out.push(field << 3 | 2);
    put_varint(out, b.len() as u64);
    out.extend_from_slice(b);
}
fn packed(out: &mut Vec<u8>, field: u8, v: &[u64]) {
    if v.is_empty() {
        return;
    }
    let mut b = vec![];
    v.iter().for_each(|x| put_varint(&mut b, *x));
    put_bytes(out, field, &b);
}

pub fn encode_index(levels: &[Level]) -> Vec<u8> {
    let mut index = vec![];
    for l in levels {
        let mut b = vec![];
        packed(&mut b, 1, &l.keys);
        packed(&mut b, 2, &l.children);
        put_bytes(&mut index, 1, &b);
    }
    index
}

pub fn encode_block(b: &Block) -> Vec<u8> {
    let mut out = vec![];
    put_bytes(&mut out, 1, &encode_index(&b.levels));
    put_bytes(&mut out, 2, &b.key);
    if let Some(v) = &b.value {
        put_bytes(&mut out, 3, v);
    }
    out
}

pub fn encode_header(h: &Header) -> Vec<u8> {
    let mut out = vec![];
    put_bytes(&mut out, 1, &h.protocol);
    if let Some((c, u)) = &h.metadata {
        let mut m = vec![];
        if let Some(c) = c {
            put_bytes(&mut m, 1, c);
        }
        if let Some(u) = u {
            put_bytes(&mut m, 2, u);
        }
        put_bytes(&mut out, 2, &m);
    }
    out
}

struct Rd<'a>(&'a [u8]);
enum Val<'a> {
    Int(u64),
    Bytes(&'a [u8]),
    Skip,
}
impl<'a> Rd<'a> {
    fn varint(&mut self) -> Option<u64> {
        let mut v = 0u64;
        for i in 0..10 {
            let (b, rest) = self.0.split_first()?;
            self.0 = rest;
            if i == 9 && *b > 1 {
                return None;
            }
            v |= ((b & 0x7f) as u64) << (7 * i);
            if b & 0x80 == 0 {
                return Some(v);
            }
        }
        None
    }
    fn take(&mut self, n: u64) -> Option<&'a [u8]> {
        let n = usize::try_from(n).ok()?;
        if n > self.0.len() {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    /// Next field, `Some(None)` at the end, `None` if malformed
    fn field(&mut self) -> Option<Option<(u64, Val<'a>)>> {
        if self.0.is_empty() {
            return Some(None);
        }
        let t = self.varint()?;
        if t > u32::MAX as u64 || t >> 3 == 0 {
            return None;
        }
        let v = match t & 7 {
            0 => Val::Int(self.varint()?),
            1 => {
                self.take(8)?;
                Val::Skip
            }
            2 => {
                let n = self.varint()?;
                Val::Bytes(self.take(n)?)
            }
            5 => {
                self.take(4)?;
                Val::Skip
            }
            // groups are not used by Hyperbee; treated as malformed
            _ => return None,
        };
        Some(Some((t >> 3, v)))
    }
}

fn ints(v: Val, out: &mut Vec<u64>) -> Option<()> {
    match v {
        Val::Int(i) => out.push(i),
        Val::Bytes(b) => {
            let mut r = Rd(b);
            while !r.0.is_empty() {
                out.push(r.varint()?);
            }
        }
        Val::Skip => return None,
    }
    Some(())
}

pub fn decode_index(b: &[u8]) -> Option<Vec<Level>> {
    let mut levels = vec![];
    let mut r = Rd(b);
    while let Some((f, v)) = r.field()? {
        if f == 1 {
            let Val::Bytes(b) = v else { return None };
            let mut l = Level::default();
            let mut r = Rd(b);
            while let Some((f, v)) = r.field()? {
                match f {
                    1 => ints(v, &mut l.keys)?,
                    2 => ints(v, &mut l.children)?,
                    _ => (),
                }
            }
            levels.push(l);
        }
    }
    Some(levels)
}

/// `None`: not a well-formed Hyperbee block
pub fn decode_block(b: &[u8]) -> Option<Block> {
    let mut out = Block::default();
    let mut r = Rd(b);
    let (mut i, mut k) = (false, false);
    while let Some((f, v)) = r.field()? {
        match (f, v) {
            (1, Val::Bytes(b)) => {
                i = true;
                out.levels = decode_index(b)?
            }
            (2, Val::Bytes(b)) => {
                k = true;
                out.key = b.to_vec()
            }
            (3, Val::Bytes(b)) => out.value = Some(b.to_vec()),
            (1..=3, _) => return None,
            _ => (),
        }
    }
    (i && k).then_some(out)
}

pub fn decode_header(b: &[u8]) -> Option<Header> {
    let mut h = Header::default();
    let mut r = Rd(b);
    let mut seen = false;
    while let Some((f, v)) = r.field()? {
        match (f, v) {
            (1, Val::Bytes(b)) => {
                seen = true;
                h.protocol = b.to_vec()
            }
            (2, Val::Bytes(b)) => {
                let mut m = (None, None);
                let mut r = Rd(b);
                while let Some((f, v)) = r.field()? {
                    match (f, v) {
                        (1, Val::Bytes(b)) => m.0 = Some(b.to_vec()),
                        (2, Val::Bytes(b)) => m.1 = Some(b.to_vec()),
                        (1..=2, _) => return None,
                        _ => (),
                    }
                }
                h.metadata = Some(m)
            }
            (1..=2, _) => return None,
            _ => (),
        }
    }
    seen.then_some(h)
}

/// The metadata of the log's header, if it starts with one
pub fn header_of(log: &Log) -> Option<Option<(Option<Vec<u8>>, Option<Vec<u8>>)>> {
    let h = decode_header(log.get(0)?)?;
    (h.protocol == b"hyperbee").then_some(h.metadata)
}

/// A log with its blocks decoded on demand
pub struct View<'a> {
    pub log: &'a Log,
    cache: HashMap<u64, Option<Block>>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct TreeNode {
    pub seq: u64,
    pub offset: u64,
    pub keys: Vec<u64>,
    pub children: Vec<TreeNode>,
}

impl<'a> View<'a> {
    pub fn new(log: &'a Log) -> Self {
        View { log, cache: HashMap::new() }
    }
    pub fn block(&mut self, seq: u64) -> Option<&Block> {
        let log = self.log;
        self.cache
            .entry(seq)
            .or_insert_with(|| log.get(seq).and_then(|b| decode_block(b)))
            .as_ref()
    }
    pub fn level(&mut self, seq: u64, offset: u64) -> Option<Level> {
        self.block(seq)?.levels.get(usize::try_from(offset).ok()?).cloned()
    }
    /// The whole tree of the version whose newest block is `seq`. Errors describe what is malformed.
    pub fn tree(&mut self, seq: u64) -> Result<TreeNode, String> {
        self.node(seq, 0, 0)
    }
    fn node(&mut self, seq: u64, offset: u64, depth: usize) -> Result<TreeNode, String> {
        if depth > 40 {
            return Err("the tree is cyclic or deeper than 40".into());
        }
        let l = self
            .level(seq, offset)
            .ok_or_else(|| format!("reference to node ({seq}, {offset}), which does not exist"))?;
        if l.children.len() % 2 != 0 {
            return Err(format!("node ({seq}, {offset}) has an odd child list"));
        }
        let mut children = vec![];
        for c in l.children.chunks(2) {
            children.push(self.node(c[0], c[1], depth + 1)?);
        }
        Ok(TreeNode { seq, offset, keys: l.keys, children })
    }
    pub fn key(&mut self, seq: u64) -> Option<Vec<u8>> {
        self.block(seq).map(|b| b.key.clone())
    }
}

impl TreeNode {
    /// Shape only: number of keys of each node in pre-order, with the number of children
    pub fn shape(&self, out: &mut Vec<u8>) {
        out.push(self.keys.len() as u8);
        out.push(self.children.len() as u8);
        self.children.iter().for_each(|c| c.shape(out));
    }
    pub fn shape_vec(&self) -> Vec<u8> {
        let mut v = vec![];
        self.shape(&mut v);
        v
    }
    /// Key references in order
    pub fn in_order(&self, out: &mut Vec<u64>) {
        for (i, k) in self.keys.iter().enumerate() {
            if let Some(c) = self.children.get(i) {
                c.in_order(out)
            }
            out.push(*k);
        }
        for c in self.children.iter().skip(self.keys.len()) {
            c.in_order(out)
        }
    }
    pub fn height(&self) -> usize {
        1 + self.children.first().map_or(0, |c| c.height())
    }
    pub fn n_nodes(&self) -> usize {
        1 + self.children.iter().map(|c| c.n_nodes()).sum::<usize>()
    }
}

/// Is the newest tree of `log` a valid Hyperbee B-tree (property C02)?
pub fn check_tree(log: &Log) -> Result<Option<TreeNode>, String> {
    if log.len() <= 1 {
        return Ok(None);
    }
    let mut v = View::new(log);
    let last = log.len() - 1;
    if v.block(last).is_none() {
        return Err(format!("block {last} is not a Hyperbee block"));
    }
    let t = v.tree(last)?;
    fn walk(n: &TreeNode, root: bool, depth: usize, leaf: &mut Option<usize>) -> Result<(), String> {
        let id = format!("node ({}, {})", n.seq, n.offset);
        if n.keys.len() > 8 {
            return Err(format!("{id} has {} keys", n.keys.len()));
        }
        if !root && n.keys.len() < 4 {
            return Err(format!("{id} is not the root and has only {} keys", n.keys.len()));
        }
        if n.children.is_empty() {
            match leaf {
                None => *leaf = Some(depth),
                Some(d) if *d != depth => return Err(format!("leaves at depths {d} and {depth}")),
                _ => (),
            }
        } else {
            if n.keys.is_empty() {
                return Err(format!("{id} is internal and has no keys"));
            }
            if n.children.len() != n.keys.len() + 1 {
                return Err(format!("{id} has {} keys and {} children", n.keys.len(), n.children.len()));
            }
        }
        n.children.iter().try_for_each(|c| walk(c, false, depth + 1, leaf))
    }
    walk(&t, true, 0, &mut None)?;
    let mut order = vec![];
    t.in_order(&mut order);
    let mut prev: Option<Vec<u8>> = None;
    for s in order {
        let k = v.key(s).ok_or_else(|| format!("key reference to block {s}, which does not exist"))?;
        if let Some(p) = &prev {
            if *p >= k {
                return Err(format!("keys out of order or duplicate: {p:?} before {k:?}"));
            }
        }
        prev = Some(k);
    }
    Ok(Some(t))
}

/// Contents of the newest version by the independent decoder: key -> (seq, value)
pub fn contents(log: &Log) -> Result<Vec<(Vec<u8>, u64, Option<Vec<u8>>)>, String> {
    if log.len() <= 1 {
        return Ok(vec![]);
    }
    let mut v = View::new(log);
    let t = v.tree(log.len() - 1)?;
    let mut order = vec![];
    t.in_order(&mut order);
    order
        .into_iter()
        .map(|s| {
            let b = v.block(s).ok_or_else(|| format!("key reference to block {s}, which does not exist"))?;
            Ok((b.key.clone(), s, b.value.clone()))
        })
        .collect()
}
