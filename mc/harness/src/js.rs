//! The reference for written blocks: JavaScript Hyperbee's put and del (v2.1, index.js), re-implemented here from its
//! algorithm on decoded blocks. Shares no code with /repo.
use crate::raw::{encode_block, Block, Level, View};
use hypercore::mc::Log;

const MAX_CHILDREN: usize = 9;
const MIN_KEYS: usize = 4;

#[derive(Clone)]
struct Child {
    seq: u64,
    offset: u64,
    node: Option<usize>,
}
struct Node {
    keys: Vec<u64>,
    children: Vec<Child>,
    changed: bool,
}

struct Batch<'a> {
    view: View<'a>,
    arena: Vec<Node>,
    seq: u64,
    key: &'a [u8],
}

impl<'a> Batch<'a> {
    fn load(&mut self, seq: u64, offset: u64) -> Option<usize> {
        let l = self.view.level(seq, offset)?;
        let children = l.children.chunks(2).map(|c| Child { seq: c[0], offset: c[1], node: None }).collect();
        Some(self.create(Node { keys: l.keys, children, changed: false }))
    }
    fn create(&mut self, n: Node) -> usize {
        self.arena.push(n);
        self.arena.len() - 1
    }
    fn child(&mut self, node: usize, i: usize) -> Option<usize> {
        let c = self.arena[node].children.get(i)?.clone();
        if let Some(n) = c.node {
            return Some(n);
        }
        let n = self.load(c.seq, c.offset)?;
        self.arena[node].children[i].node = Some(n);
        Some(n)
    }
    fn key_of(&mut self, seq: u64) -> Option<Vec<u8>> {
        if seq == self.seq {
            return Some(self.key.to_vec());
        }
        self.view.key(seq)
    }
    /// Binary search: Ok(i) found, Err(i) where it belongs
    fn search(&mut self, node: usize, key: &[u8]) -> Option<Result<usize, usize>> {
        let (mut s, mut e) = (0, self.arena[node].keys.len());
        while s < e {
            let mid = (s + e) >> 1;
            let k = self.key_of(self.arena[node].keys[mid])?;
            match key.cmp(&k[..]) {
                std::cmp::Ordering::Equal => return Some(Ok(mid)),
                std::cmp::Ordering::Less => e = mid,
                std::cmp::Ordering::Greater => s = mid + 1,
            }
        }
        Some(Err(s))
    }
    /// insertKey of a key known to be absent; true if the node still fits
    fn insert(&mut self, node: usize, seq: u64, right: Option<usize>) -> Option<bool> {
        let key = self.key_of(seq)?;
        let i = self.search(node, &key)?.err()?;
        let n = &mut self.arena[node];
        n.keys.insert(i, seq);
        if let Some(r) = right {
            n.children.insert(i + 1, Child { seq: 0, offset: 0, node: Some(r) });
        }
        n.changed = true;
        Some(n.keys.len() < MAX_CHILDREN)
    }
    fn split(&mut self, node: usize) -> (u64, usize) {
        let n = &mut self.arena[node];
        let len = n.keys.len() >> 1;
        let rkeys = n.keys.split_off(n.keys.len() - len);
        let median = n.keys.pop().expect("split of a full node");
        let rchildren = if n.children.is_empty() { vec![] } else { n.children.split_off(n.children.len() - (len + 1)) };
        n.changed = true;
        let right = self.create(Node { keys: rkeys, children: rchildren, changed: true });
        (median, right)
    }
    fn index_changes(&mut self, node: usize, out: &mut Vec<usize>) -> u64 {
        let offset = out.len() as u64;
        out.push(node);
        self.arena[node].changed = false;
        for i in 0..self.arena[node].children.len() {
            let Some(c) = self.arena[node].children[i].node else { continue };
            if !self.arena[c].changed {
                continue;
            }
            let o = self.index_changes(c, out);
            let seq = self.seq;
            let ch = &mut self.arena[node].children[i];
            ch.seq = seq;
            ch.offset = o;
        }
        offset
    }
    fn append(mut self, root: usize, value: Option<&[u8]>) -> Vec<u8> {
        let mut out = vec![];
        self.index_changes(root, &mut out);
        let levels = out
            .iter()
            .map(|n| Level {
                keys: self.arena[*n].keys.clone(),
                children: self.arena[*n].children.iter().flat_map(|c| [c.seq, c.offset]).collect(),
            })
            .collect();
        encode_block(&Block { levels, key: self.key.to_vec(), value: value.map(|v| v.to_vec()) })
    }
    fn root(&mut self) -> Option<Option<usize>> {
        if self.view.log.len() <= 1 {
            return Some(None);
        }
        let s = self.view.log.len() - 1;
        Some(Some(self.load(s, 0)?))
    }
}

fn batch<'a>(log: &'a Log, key: &'a [u8]) -> Batch<'a> {
    Batch { view: View::new(log), arena: vec![], seq: log.len(), key }
}

/// The block JS Hyperbee appends for `put(key, value)` on `log` (which has its header). None: the log is malformed.
pub fn put(log: &Log, key: &[u8], value: Option<&[u8]>) -> Option<Vec<u8>> {
    let mut b = batch(log, key);
    let mut root = match b.root()? {
        Some(r) => r,
        None => b.create(Node { keys: vec![], children: vec![], changed: false }),
    };
    let mut node = root;
    let mut stack = vec![];
    while !b.arena[node].children.is_empty() {
        stack.push(node);
        b.arena[node].changed = true;
        match b.search(node, key)? {
            Ok(i) => {
                b.arena[node].keys[i] = b.seq;
                return Some(b.append(root, value));
            }
            Err(i) => node = b.child(node, i)?,
        }
    }
    if let Ok(i) = b.search(node, key)? {
        b.arena[node].keys[i] = b.seq;
        b.arena[node].changed = true;
        return Some(b.append(root, value));
    }
    let seq = b.seq;
    let mut needs_split = !b.insert(node, seq, None)?;
    while needs_split {
        let (median, right) = b.split(node);
        match stack.pop() {
            Some(parent) => {
                needs_split = !b.insert(parent, median, Some(right))?;
                node = parent;
            }
            None => {
                root = b.create(Node {
                    keys: vec![median],
                    children: vec![
                        Child { seq: 0, offset: 0, node: Some(node) },
                        Child { seq: 0, offset: 0, node: Some(right) },
                    ],
                    changed: true,
                });
                needs_split = false;
            }
        }
    }
    Some(b.append(root, value))
}

/// The block JS Hyperbee appends for `del(key)`; `Some(None)` if it appends nothing
pub fn del(log: &Log, key: &[u8]) -> Option<Option<Vec<u8>>> {
    let mut b = batch(log, key);
    let Some(root) = b.root()? else { return Some(None) };
    let mut node = root;
    let mut stack = vec![];
    loop {
        stack.push(node);
        match b.search(node, key)? {
            Ok(i) => {
                if b.arena[node].children.is_empty() {
                    b.arena[node].keys.remove(i);
                } else {
                    nearest_leaf(&mut b, node, i, &mut stack)?;
                }
                for n in &stack {
                    b.arena[*n].changed = true;
                }
                let root = rebalance(&mut b, stack)?;
                return Some(Some(b.append(root, None)));
            }
            Err(i) => {
                if b.arena[node].children.is_empty() {
                    return Some(None);
                }
                node = b.child(node, i)?;
            }
        }
    }
}

fn leaf_size(b: &mut Batch, mut node: usize, go_left: bool) -> Option<usize> {
    while !b.arena[node].children.is_empty() {
        let i = if go_left { 0 } else { b.arena[node].children.len() - 1 };
        node = b.child(node, i)?;
    }
    Some(b.arena[node].keys.len())
}

fn nearest_leaf(b: &mut Batch, node: usize, index: usize, stack: &mut Vec<usize>) -> Option<()> {
    let mut left = b.child(node, index)?;
    let mut right = b.child(node, index + 1)?;
    let ls = leaf_size(b, left, false)?;
    let rs = leaf_size(b, right, true)?;
    if ls < rs {
        stack.push(right);
        while !b.arena[right].children.is_empty() {
            right = b.child(right, 0)?;
            stack.push(right);
        }
        if b.arena[right].keys.is_empty() {
            return None;
        }
        b.arena[node].keys[index] = b.arena[right].keys.remove(0);
    } else {
        stack.push(left);
        while !b.arena[left].children.is_empty() {
            let last = b.arena[left].children.len() - 1;
            left = b.child(left, last)?;
            stack.push(left);
        }
        b.arena[node].keys[index] = b.arena[left].keys.pop()?;
    }
    Some(())
}

fn rebalance(b: &mut Batch, mut stack: Vec<usize>) -> Option<usize> {
    let root = stack[0];
    while stack.len() > 1 {
        let node = stack.pop()?;
        let parent = *stack.last()?;
        if b.arena[node].keys.len() >= MIN_KEYS {
            return Some(root);
        }
        let mut index = b.arena[parent].children.iter().position(|c| c.node == Some(node))?;
        let left = if index > 0 { Some(b.child(parent, index - 1)?) } else { None };
        let right = if index + 1 < b.arena[parent].children.len() { Some(b.child(parent, index + 1)?) } else { None };
        if let Some(l) = left {
            if b.arena[l].keys.len() > MIN_KEYS {
                b.arena[l].changed = true;
                let k = b.arena[parent].keys[index - 1];
                b.arena[node].keys.insert(0, k);
                if let Some(c) = b.arena[l].children.pop() {
                    b.arena[node].children.insert(0, c);
                }
                b.arena[parent].keys[index - 1] = b.arena[l].keys.pop()?;
                return Some(root);
            }
        }
        if let Some(r) = right {
            if b.arena[r].keys.len() > MIN_KEYS {
                b.arena[r].changed = true;
                let k = b.arena[parent].keys[index];
                b.arena[node].keys.push(k);
                if !b.arena[r].children.is_empty() {
                    let c = b.arena[r].children.remove(0);
                    b.arena[node].children.push(c);
                }
                b.arena[parent].keys[index] = b.arena[r].keys.remove(0);
                return Some(root);
            }
        }
        let (l, r) = match (left, right) {
            (Some(l), _) => {
                index -= 1;
                (l, node)
            }
            (None, Some(r)) => (node, r),
            (None, None) => return None,
        };
        let median = b.arena[parent].keys[index];
        let (rk, rc) = (b.arena[r].keys.clone(), b.arena[r].children.clone());
        let ln = &mut b.arena[l];
        ln.changed = true;
        ln.keys.push(median);
        ln.keys.extend(rk);
        ln.children.extend(rc);
        let p = &mut b.arena[parent];
        p.keys.remove(index);
        p.children.remove(index + 1);
        p.changed = true;
    }
    if b.arena[root].keys.is_empty() && !b.arena[root].children.is_empty() {
        return b.child(root, 0);
    }
    Some(root)
}
