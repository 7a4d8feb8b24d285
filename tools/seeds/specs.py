"""Planted bugs: id -> edits of /repo (file, old, new), demonstration, what it needs."""
SPECS = {}


def seed(id, property, needs, breaks, edits, demo=None, **k):
    SPECS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **k)


HEAD = "mod util;\nuse util::*;\n"

seed("C01-seq32", "C01",
     "a log with more than 2^32 blocks",
     "blocks are read at an index that is cut to 32 bits, so keys whose entries lie beyond block 2^32 cannot be read",
     [("src/blocks.rs", "        match self.core.get(*seq).await? {", "        let index = *seq as u32;\n        match self.core.get(index.into()).await? {")],
     HEAD + """
use prost::Message;
fn main() {
    let base = (1u64 << 32) + 1;
    let index = Index { levels: vec![Level { keys: vec![base], children: vec![] }] };
    let node = Node { index: index.encode_to_vec(), key: b"k".to_vec(), value: Some(b"v".to_vec()) };
    let mut log = Log { base, blocks: vec![] };
    log.push(&node.encode_to_vec());
    let c = CoreHandle::new(log);
    let hb = open(&c);
    assert_eq!(run(hb.get(b"k")).unwrap(), Some((base, Some(b"v".to_vec()))));
    assert_eq!(run(hb.put(b"l", None)).unwrap(), (None, base + 1));
    assert_eq!(run(hb.get(b"l")).unwrap(), Some((base + 1, None)));
}
""")

seed("C02-cascade", "C02",
     "a tree of three levels, and a delete whose merge leaves an inner node below the root with 3 keys",
     "an inner node that a merge below it leaves with one key too few is not repaired",
     [("src/del.rs", "        if path.is_empty() || father_with_repaired_child.read().await.keys.len() >= min_keys(order)\n        {",
       "        if path.is_empty()\n            || father_with_repaired_child.read().await.keys.len() + 1 >= min_keys(order)\n        {")],
     HEAD + """
fn check(c: &CoreHandle, seq: u64, offset: u64, root: bool) {
    let (_, levels) = block(c, seq);
    let l = &levels[offset as usize];
    assert!(root || l.keys.len() >= 4, "a node below the root has {} keys", l.keys.len());
    assert!(l.keys.len() <= 8);
    for x in l.children.chunks(2) {
        check(c, x[0], x[1], false);
    }
}
fn main() {
    let (c, hb) = filled(120);
    for i in 0..120 {
        run(hb.del(&key(i))).unwrap().unwrap();
        check(&c, c.len() - 1, 0, true);
    }
}
""")

seed("C03-tie", "C03",
     "a delete of a key in an inner node whose neighbouring leaves have equally many keys",
     "the replacement for a deleted inner key is taken from the right instead of the left when both sides have as many keys",
     [("src/del.rs", "if num_left_keys < num_right_keys {", "if num_left_keys <= num_right_keys {")],
     HEAD + """
fn main() {
    // root [4], leaves [0 1 2 3] and [5 6 7 8]; one more on each side
    let (c, hb) = filled(9);
    run(hb.put(b"0000a", None)).unwrap(); // 10
    run(hb.put(b"0009", None)).unwrap(); // 11
    run(hb.del(&key(4))).unwrap();
    // JavaScript Hyperbee takes the largest key of the left leaf: 0003, written in block 4
    assert_eq!(block(&c, 12).1[0].keys, vec![4]);
}
""")

seed("C03-order", "C03",
     "a mutation that changes two children of one node (a split or rotation)",
     "the changed nodes of a block are stored in the order right to left instead of depth first, left to right",
     [("src/blocks.rs", "        .filter(|(_i, c)| c.seq == seq)\n        .rev()\n", "        .filter(|(_i, c)| c.seq == seq)\n")],
     HEAD + """
fn main() {
    let (c, _hb) = filled(9);
    let (_, levels) = block(&c, 9);
    let keys: Vec<_> = levels.iter().map(|l| l.keys.clone()).collect();
    assert_eq!(keys, vec![vec![5], vec![1, 2, 3, 4], vec![6, 7, 8, 9]]);
    assert_eq!(levels[0].children, vec![9, 1, 9, 2]);
}
""")

seed("C04-empty-value", "C04",
     "a put with an empty value, read back by the same handle and after reopening",
     "empty values are not stored, and the handle that wrote them keeps answering from a cached entry, so what it says differs after reopening",
     [("src/blocks.rs", """        let node_schema = NodeSchema {
            key,
            value,
            index: index_buf,
        };
""", """        let node_schema = NodeSchema {
            key,
            value: value.clone().filter(|v| !v.is_empty()),
            index: index_buf,
        };
"""), ("src/blocks.rs", "        self.append(&node_schema_buf).await\n    }\n}\n", """        let outcome = self.append(&node_schema_buf).await?;
        let entry = NodeSchema {
            value,
            ..node_schema
        };
        let entry = Arc::new(RwLock::new(BlockEntry::new(entry, seq)?));
        self.cache
            .write()
            .unwrap_or_else(PoisonError::into_inner)
            .insert(seq, entry);
        Ok(outcome)
    }
}
""")],
     HEAD + """
fn main() {
    let c = core();
    let hb = open(&c);
    run(hb.put(b"a", Some(b""))).unwrap();
    run(hb.put(b"b", Some(b"x"))).unwrap();
    let mine = run(hb.get(b"a")).unwrap();
    let reopened = run(open(&CoreHandle::new(c.log())).get(b"a")).unwrap();
    assert_eq!(mine, reopened);
    assert_eq!(reopened, Some((1, Some(vec![]))));
}
""")

seed("C05-exclusive", "C05",
     "an exclusive minimum that equals a key of an inner node",
     "the keys between an exclusive minimum stored in an inner node and the next key of that node are left out",
     [("src/traverse.rs", "                key_index + step_by\n", "                key_index + 2\n")],
     HEAD + """
fn main() {
    let (_c, hb) = filled(30);
    for i in 0..30 {
        let conf = TraverseConfigBuilder::default().min_value(LimitValue::Finite(key(i))).min_inclusive(false).build().unwrap();
        assert_eq!(keys(&hb, conf), (i + 1..30).map(|i| Ok(key(i))).collect::<Vec<_>>());
    }
}
""")

seed("C06-equal", "C06",
     "equal bounds of which only the maximum is exclusive",
     "an empty range with equal bounds is accepted when only its maximum is exclusive",
     [("src/traverse.rs", "                        (_, Some(false)) => true,\n", "                        (None, Some(false)) => true,\n")],
     HEAD + """
fn main() {
    for (min, max) in [(None, Some(false)), (Some(true), Some(false)), (Some(false), Some(true)), (Some(false), None), (Some(false), Some(false))] {
        let mut b = TraverseConfigBuilder::default();
        b = b.min_value(LimitValue::Finite(b"a".to_vec())).max_value(LimitValue::Finite(b"a".to_vec())).clone();
        if let Some(x) = min {
            b = b.min_inclusive(x).clone();
        }
        if let Some(x) = max {
            b = b.max_inclusive(x).clone();
        }
        assert!(b.build().is_err(), "{min:?} {max:?}");
    }
}
""")

seed("C07-empty-key", "C07",
     "the comparison of an infinite limit with the empty byte string",
     "an infinite limit equals the empty key",
     [("src/traverse.rs", "            Infinite(inf) => inf.eq(other),", "            Infinite(inf) => inf.eq(other) || other.is_empty(),")],
     HEAD + """
use hyperbee::traverse::TraverseConfig;
fn main() {
    let conf = TraverseConfig::default();
    for x in [&b""[..], b"a", b"\\xff"] {
        assert!(conf.min_value != *x && conf.max_value != *x);
        assert!(conf.min_value < *x && conf.max_value > *x);
    }
}
""")

seed("C08-empty-prefix", "C08",
     "a sub-database with an empty prefix",
     "the separator is left out when the prefix is empty",
     [("src/prefixed.rs", "        &[&$self.prefix, &$self.conf.seperator, $key].concat()", """        &match $self.prefix.is_empty() {
            true => $key.to_vec(),
            false => [&$self.prefix, &$self.conf.seperator, $key].concat(),
        }""")],
     HEAD + """
fn main() {
    let hb = open(&core());
    let sub = hb.sub(b"", PrefixedConfig { seperator: b"/".to_vec() });
    run(sub.put(b"a", Some(b"1"))).unwrap();
    assert!(run(hb.get(b"a")).unwrap().is_none());
    assert_eq!(run(hb.get(b"/a")).unwrap(), Some((1, Some(b"1".to_vec()))));
}
""")

seed("C09-strip", "C09",
     "a sub-database whose separator is not one byte long",
     "traversing a sub strips one byte for the separator, whatever its length",
     [("src/prefixed.rs", "        let len_drain = self.prefix.len() + self.conf.seperator.len();", "        let len_drain = self.prefix.len() + DEFAULT_PREFIXED_SEPERATOR.len();")],
     HEAD + """
fn main() {
    let hb = open(&core());
    for sep in [&b""[..], b"\\0", b"::"] {
        let sub = hb.sub(b"p", PrefixedConfig { seperator: sep.to_vec() });
        run(sub.put(b"aa", None)).unwrap();
    }
    let sub = hb.sub(b"p", PrefixedConfig { seperator: b"::".to_vec() });
    assert_eq!(items(run(sub.traverse(&TraverseConfig::default())).unwrap()), vec![Ok(b"aa".to_vec())]);
}
""")

seed("C10-absent", "C10",
     "a conditional put of an absent key on a store that is not empty",
     "a conditional put does not ask its predicate when the key is absent from a tree that has other keys",
     [("src/put.rs", "            if !cas(old_key_data.as_ref(), &new_key_data) {", "            if old_key_data.is_some() && !cas(old_key_data.as_ref(), &new_key_data) {")],
     HEAD + """
fn main() {
    let hb = open(&core());
    run(hb.put(b"a", None)).unwrap();
    let mut calls = 0;
    let r = run(hb.put_compare_and_swap(b"b", None, |old, new| {
        assert!(old.is_none() && new.seq == 2);
        calls += 1;
        false
    }))
    .unwrap();
    assert_eq!((r, calls), ((None, None), 1));
    assert_eq!(run(hb.version()), 2);
}
""")

seed("C11-early-release", "C11",
     "two concurrent puts, of which the second starts after the first has chosen its place in the log and before it is written",
     "a put that changes a node below the root lets other writers in before its block is written",
     [("src/put.rs", """                        propagate_changes_up_tree(&mut changes, path, child).await;
                        let _ = self.blocks.read().await.add_changes(changes).await?;
""", """                        propagate_changes_up_tree(&mut changes, path, child).await;
                        drop(_write_guard);
                        let blocks = self.blocks.read().await;
                        blocks.add_changes(changes).await?;
""")],
     HEAD + """
fn main() {
    for n in 0..400 {
        let (c, hb) = filled(9);
        let before = c.len();
        let mut a = Task::new(hb.put(b"0000a", Some(b"a")));
        let mut b = Task::new(hb.put(b"0007a", Some(b"b")));
        assert!(interleave(&mut a, n, &mut b, 400), "stuck");
        assert_eq!(c.len(), before + 2);
        assert!(run(hb.get(b"0000a")).unwrap().is_some(), "a completed write is lost");
        assert!(run(hb.get(b"0007a")).unwrap().is_some(), "a completed write is lost");
    }
}
""")

seed("C12-add-stream", "C12",
     "a stream that is added while another operation is between its two acquisitions of the lock",
     "adding a stream takes the lock for writing; an operation that takes it for reading twice, with the request in between, never ends",
     [("src/tree.rs", """        self.blocks
            .read()
            .await
            .add_stream(stream, is_initiator)""", """        self.blocks
            .write()
            .await
            .add_stream(stream, is_initiator)""")],
     HEAD + """
fn main() {
    for n in 0..60 {
        let (_c, hb) = filled(3);
        let (s, _t) = replicator::utils::create_connected_streams();
        let mut a = Task::new(hb.get(b"0001"));
        let mut b = Task::new(hb.add_stream(s, true));
        assert!(interleave(&mut a, n, &mut b, 60), "stuck after {n} steps");
    }
}
""")

seed("C13-header", "C13",
     "an append of the header that fails",
     "a failure to write the header of a new log is ignored; the first put goes on and reports success",
     [("src/tree.rs", """                other_errors => Err(other_errors),
            },
        }
    }

    /// Create the header""", """                _other_errors => Ok(false),
            },
        }
    }

    /// Create the header""")],
     HEAD + """
fn main() {
    let c = core();
    let hb = open(&c);
    c.with(|s| {
        s.fail.insert(0);
    });
    assert!(run(hb.put(b"a", None)).is_err());
    c.plan_reset();
    run(hb.put(b"a", Some(b"1"))).unwrap();
    assert!(is_header(&c, 0));
    assert_eq!(run(hb.get(b"a")).unwrap(), Some((1, Some(b"1".to_vec()))));
}
""")

CACHE_EARLY = [("src/blocks.rs", """            .map_err(HyperbeeError::NodeEncodingError)?;
        self.append(&node_schema_buf).await
""", """            .map_err(HyperbeeError::NodeEncodingError)?;
        // it is read next, most likely
        let entry = Arc::new(RwLock::new(BlockEntry::new(node_schema, seq)?));
        self.cache
            .write()
            .unwrap_or_else(PoisonError::into_inner)
            .entry(seq)
            .or_insert(entry);
        self.append(&node_schema_buf).await
""")]
seed("C14-cache-early", "C14",
     "an operation that is dropped while it waits for its block to be appended, followed by another mutation",
     "a new entry is cached before it is appended; when the operation is cancelled there, the next one's entry is hidden by it",
     CACHE_EARLY,
     HEAD + """
fn main() {
    // drop at every delayed operation
    for n in 0..20 {
        let (c, hb) = filled(3);
        c.plan_reset();
        c.with(|s| s.pend.extend([n]));
        {
            let mut t = Task::new(hb.put(b"x", Some(b"dropped")));
            for _ in 0..100 {
                if t.ready() {
                    t.poll()
                }
            }
        }
        c.plan_reset();
        run(hb.put(b"y", Some(b"kept"))).unwrap();
        assert!(run(hb.get(b"y")).unwrap().is_some(), "a completed put is not seen (dropped at {n})");
    }
}
""")

seed("C13-fallback", "C13",
     "a delete of a key in an inner node during which a read of the right neighbour fails",
     "a failure to read the right neighbour of a deleted inner key is ignored, and the delete goes on with the left one",
     [("src/del.rs", """        let right_child = node.read().await.get_child(right_child_index).await?;
        let (_, right_path) = nearest_node(right_child, &InfiniteKeys::Negative).await?;
        let num_right_keys = right_path.last().unwrap().0.read().await.keys.len();
""", """        let right_path = match node.read().await.get_child(right_child_index).await {
            Ok(right_child) => nearest_node(right_child, &InfiniteKeys::Negative)
                .await
                .map(|(_, path)| path)
                .unwrap_or_default(),
            Err(_) => vec![],
        };
        let num_right_keys = match right_path.last() {
            Some((leaf, _)) => leaf.read().await.keys.len(),
            None => 0,
        };
""")],
     HEAD + """
fn main() {
    for n in [12, 40] {
        for f in 0..200 {
            let (c, _) = filled(n);
            let hb = open(&c);
            let (_, levels) = block(&c, c.len() - 1);
            let root_key = block(&c, levels[0].keys[0]).0.key;
            c.plan_reset();
            c.with(|s| s.fail.insert(f));
            let r = run(hb.del(&root_key));
            let failed = c.with(|s| s.failed) > 0;
            c.plan_reset();
            if !failed {
                break;
            }
            assert!(r.is_err(), "a delete whose core operation {f} failed reports success");
            assert!(run(hb.get(&root_key)).unwrap().is_some());
        }
    }
}
""")

seed("C15-lazy", "C15",
     "a mutation between opening a traversal and its first item",
     "a traversal looks its tree up at its first item instead of when it is opened",
     [("src/tree.rs", """        let root = self
            .get_root(false)
            .await?
            .ok_or(HyperbeeError::NoRootError)?;
        let stream = Traverse::new(root, conf);
        Ok(stream.map(move |kv_and_node| kv_and_node.0))
""", """        self.get_root(false)
            .await?
            .ok_or(HyperbeeError::NoRootError)?;
        let start = (self.clone(), None::<Traverse<'a>>);
        Ok(futures_lite::stream::unfold(
            start,
            move |(tree, stream)| {
                let conf = conf.clone();
                async move {
                    let mut stream = match stream {
                        Some(stream) => stream,
                        None => Traverse::new(tree.get_root(false).await.ok()??, conf),
                    };
                    let (item, _node) = stream.next().await?;
                    Some((item, (tree, Some(stream))))
                }
            },
        ))
""")],
     HEAD + """
fn main() {
    let (_c, hb) = filled(12);
    let s = run(hb.traverse(TraverseConfig::default())).unwrap();
    run(hb.del(&key(3))).unwrap();
    run(hb.put(b"new", None)).unwrap();
    assert_eq!(items(s), (0..12).map(|i| Ok(key(i))).collect::<Vec<_>>());
}
""")

seed("C16-fallback", "C16",
     "a core whose newest block has not arrived, but the one before it has",
     "when the newest block is not there yet, operations silently use the version before it",
     [("src/tree.rs", """        let root = blocks
            .get(&(version - 1))
            .await?
            .read()
""", """        let newest = match blocks.get(&(version - 1)).await {
            Err(HyperbeeError::NoBlockAtSeqError(_)) if version > 2 => {
                blocks.get(&(version - 2)).await
            }
            newest => newest,
        };
        let root = newest?
            .read()
""")],
     HEAD + """
fn main() {
    let (c, _) = filled(5);
    let last = c.len() - 1;
    let r = CoreHandle::new(c.log());
    r.with(|s| {
        s.missing.insert(last);
    });
    let hb = open(&r);
    assert!(run(hb.get(&key(4))).is_err(), "a stored key is reported absent");
    r.deliver(last);
    assert!(run(hb.get(&key(4))).unwrap().is_some());
}
""")

seed("C17-info", "C17",
     "a second handle (or replication) that extends the log after the first has looked at it",
     "the length of the log is remembered until this handle appends itself",
     [("src/blocks.rs", "    core: ReplicatingCore,\n}\n\nimpl BlocksBuilder {", "    core: ReplicatingCore,\n    #[builder(default)]\n    info: Shared<Option<hypercore::Info>>,\n}\n\nimpl BlocksBuilder {"),
      ("src/blocks.rs", "        self.core.info().await\n", """        if let Some(info) = self.info.read().await.clone() {
            return info;
        }
        let info = self.core.info().await;
        *self.info.write().await = Some(info.clone());
        info
"""),
      ("src/blocks.rs", "        Ok(self.core.append(value).await?)\n", """        *self.info.write().await = None;
        let outcome = self.core.append(value).await?;
        *self.info.write().await = None;
        Ok(outcome)
""")],
     HEAD + """
fn main() {
    let c = core();
    let (a, b) = (open(&c), open(&c));
    run(a.put(b"a", None)).unwrap();
    assert!(run(b.get(b"a")).unwrap().is_some());
    run(a.put(b"b", None)).unwrap();
    assert!(run(b.get(b"b")).unwrap().is_some(), "a completed put is not seen by another handle");
    assert_eq!(run(b.version()), 3);
}
""")

seed("C18-lenient", "C18",
     "a key whose block does not decode, in a store whose newest block is intact",
     "a block that does not decode is taken for an empty one, so operations go on with an empty key instead of failing",
     [("src/blocks.rs", "                let node = NodeSchema::decode(&core_block[..])?;\n", "                let node = NodeSchema::decode(&core_block[..]).unwrap_or_default();\n")],
     HEAD + """
fn main() {
    let (c, _) = filled(3);
    let whole = c.log();
    for damage in [&[0xff][..], &[0x0a, 0x7f]] {
        let mut log = whole.prefix(1);
        log.push(damage);
        log.push(whole.get(2).unwrap());
        log.push(whole.get(3).unwrap());
        let hb = open(&CoreHandle::new(log));
        assert!(run(hb.get(&key(0))).is_err());
    }
}
""")

seed("C19-del", "C19",
     "a delete on an empty log",
     "a delete on an empty log writes a header",
     [("src/del.rs", "        let Some(root) = self.get_root(false).await? else {", "        let Some(root) = self.get_root(true).await? else {")],
     HEAD + """
fn main() {
    let c = core();
    let hb = open(&c);
    assert_eq!(run(hb.del(b"a")).unwrap(), None);
    assert_eq!((c.len(), run(hb.version())), (0, 0));
}
""")

seed("C20-second", "C20",
     "creating a header on a log that holds only a header",
     "a second header can be written directly after the first",
     [("src/tree.rs", "        if self.blocks.read().await.info().await.length != 0 {", "        if self.blocks.read().await.info().await.length > 1 {")],
     HEAD + """
fn main() {
    let c = core();
    let hb = open(&c);
    run(hb.create_header(None)).unwrap();
    assert!(run(hb.create_header(None)).is_err());
    assert_eq!(c.len(), 1);
}
""")

seed("C21-nul", "C21",
     "a key that contains a nul byte, looked up through the C interface",
     "keys given through the C interface end at their first nul byte",
     [("src/external.rs", "    Vec::from(bytes)\n", "    bytes.split(|b| *b == 0).next().unwrap_or_default().to_vec()\n")],
     HEAD + """
use std::ffi::{c_char, c_int, CString};
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
static SEQ: AtomicI64 = AtomicI64::new(-1);
unsafe extern "C" fn cb(code: i64, _m: *const c_char, seq: u64, _b: *mut u8, _n: usize) {
    SEQ.store(if code == 0 { seq as i64 } else { -2 }, SeqCst);
}
type Cb = unsafe extern "C" fn(i64, *const c_char, u64, *mut u8, usize);
extern "C" {
    fn init_runtime() -> *mut u8;
    fn hyperbee_from_storage_directory(rt: *mut u8, dir: *const c_char) -> *mut u8;
    fn hb_get(rt: *mut u8, hb: *mut u8, key: *const u8, n: usize, cb: Cb) -> c_int;
}
fn main() {
    let dir = std::env::temp_dir().join("store");
    let hb = run(Hyperbee::from_storage_dir(&dir)).unwrap();
    run(hb.put(b"a", None)).unwrap();
    run(hb.put(b"a\\0b", None)).unwrap();
    run(hb.put(b"", None)).unwrap();
    drop(hb);
    let d = CString::new(dir.to_str().unwrap()).unwrap();
    unsafe {
        let rt = init_runtime();
        let hb = hyperbee_from_storage_directory(rt, d.as_ptr());
        for (k, want) in [(&b"a"[..], 1), (b"a\\0b", 2), (b"", 3), (b"\\0", 0), (b"a\\0", 0)] {
            SEQ.store(-1, SeqCst);
            hb_get(rt, hb, k.as_ptr(), k.len(), cb);
            for _ in 0..5000 {
                if SEQ.load(SeqCst) != -1 {
                    break;
                }
                std::thread::sleep(std::time::Duration::from_millis(1));
            }
            assert_eq!(SEQ.load(SeqCst), want, "{k:?}");
        }
    }
}
""")

FFI_DEMO = r'''
#!/bin/bash
# Builds the bindings from ./src in a scratch directory and runs demo.py with them.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "${tmp:?}"' EXIT
export CARGO_NET_OFFLINE=true TMPDIR="$tmp"
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET || true
mkdir -p "$tmp/ffi" "$tmp/py"
cp -r "$here/stubs" "$tmp/stubs"
cp "$here/Cargo.lock" "$here/uniffi-bindgen.rs" "$tmp/ffi/"
sed "s|/repo/|$repo/|" "$here/Cargo.toml" >"$tmp/ffi/Cargo.toml"
ln -s "$repo/src" "$tmp/ffi/src"
cd "$tmp/ffi"
cargo build --offline --target-dir "$tmp/target" >"$tmp/log" 2>&1 || { tail -40 "$tmp/log"; exit 3; }
"$tmp/target/debug/uniffi-bindgen" generate --library "$tmp/target/debug/libhyperbee.so" --language python --out-dir "$tmp/py" --no-format >>"$tmp/log" 2>&1 || { tail "$tmp/log"; exit 3; }
cp "$tmp/target/debug/libhyperbee.so" "$tmp/py/"
cd "$tmp/py"
timeout 60 python3 "$here/demo.py"
'''
FFI = {"demo.sh": FFI_DEMO, "Cargo.toml": "@ffi/Cargo.toml", "Cargo.lock": "@ffi/Cargo.lock", "uniffi-bindgen.rs": "@ffi/uniffi-bindgen.rs"}
seed("C22-empty", "C22",
     "an empty value put through a sub of the generated bindings",
     "an empty value put through a sub of the bindings is stored as no value",
     [("src/ffi.rs", """    /// Insert the value into the tree with the provided key plus this [`Prefixed`]'s instance's `prefix`
    async fn put(&self, key: &[u8], value: Option<Vec<u8>>) -> Result<Putten, HyperbeeError> {
        let (old_seq, new_seq) = self
            .rust_prefixed
            .read()
            .await
            .put(key, value.as_deref())
""", """    /// Insert the value into the tree with the provided key plus this [`Prefixed`]'s instance's `prefix`
    async fn put(&self, key: &[u8], value: Option<Vec<u8>>) -> Result<Putten, HyperbeeError> {
        let (old_seq, new_seq) = self
            .rust_prefixed
            .read()
            .await
            .put(key, value.as_deref().filter(|v| !v.is_empty()))
""")], kind="ffi", files=dict(FFI, **{"demo.py": """
import asyncio, os, sys
sys.path.insert(0, os.getcwd())
import hyperbee

async def main():
    hb = await hyperbee.hyperbee_from_ram()
    sub = await hb.sub(b"p", hyperbee.default_sub_config())
    await sub.put(b"a", b"")
    await sub.put(b"b", None)
    r = await sub.get(b"a")
    assert r.seq == 1 and r.value == b"", r
    assert (await sub.get(b"b")).value is None
    assert (await hb.get(b"p\\0a")).value == b""

asyncio.run(main())
"""}))

seed("C23-height", "C23",
     "a tree of four levels",
     "the reported height stops at three levels",
     [("src/lib.rs", """                if cur_child.read().await.n_children().await == 0 {
                    return Ok(out);
                }
""", """                if out == 3 || cur_child.read().await.n_children().await == 0 {
                    return Ok(out);
                }
""")],
     HEAD + """
fn levels(c: &CoreHandle, seq: u64, offset: u64) -> usize {
    let (_, l) = block(c, seq);
    match l[offset as usize].children.get(..2) {
        Some(x) => 1 + levels(c, x[0], x[1]),
        None => 1,
    }
}
fn main() {
    let (c, hb) = filled(700);
    assert_eq!(levels(&c, c.len() - 1, 0), run(hb.height()).unwrap());
}
""")

seed("C24-skip", "C24",
     "a traversal over a core that lacks the block of a key that is not the first it looks at",
     "a traversal silently leaves out keys whose block is not there",
     [("src/traverse.rs", """                    self.next_key = None;
                    return Poll::Ready(Some((out, self.root.clone())));
""", """                    self.next_key = None;
                    if matches!(out, Err(HyperbeeError::NoBlockAtSeqError(_))) {
                        cx.waker().wake_by_ref();
                        return Poll::Pending;
                    }
                    return Poll::Ready(Some((out, self.root.clone())));
""")],
     HEAD + """
fn main() {
    for m in 1..12 {
        let (c, _) = filled(12);
        let r = CoreHandle::new(c.log());
        r.with(|s| {
            s.missing.insert(m);
        });
        let hb = open(&r);
        let Ok(s) = run(hb.traverse(TraverseConfig::default())) else { continue };
        let got = items(s);
        assert!(got.iter().any(|x| x.is_err()) || got.len() == 12, "keys are missing without an error: {got:?}");
    }
}
""")

seed("C25-role", "C25",
     "a stream added as responder to a store that is still empty",
     "an empty store always takes the role of the initiator",
     [("src/tree.rs", """    ) -> Result<(), HyperbeeError> {
        self.blocks
            .read()
            .await
            .add_stream(stream, is_initiator)
            .await
""", """    ) -> Result<(), HyperbeeError> {
        // a store without data asks for it
        let is_initiator = is_initiator || self.version().await == 0;
        self.blocks
            .read()
            .await
            .add_stream(stream, is_initiator)
            .await
""")],
     HEAD + """
fn main() {
    for n in [0, 3] {
        for role in [true, false] {
            let (c, hb) = filled(n);
            let (s, _t) = replicator::utils::create_connected_streams();
            run(hb.add_stream(s, role)).unwrap();
            assert_eq!(c.with(|c| c.streams.iter().map(|s| s.1).collect::<Vec<_>>()), vec![role]);
        }
    }
}
""")

seed("C26-leak", "C26",
     "a traversal that reports an error in a node below the root",
     "a traversal that fails to read a child is leaked, with everything it refers to",
     [("src/traverse.rs", """                    Err(e) => {
                        // Push error into stream
                        return Poll::Ready(Some((
                            Err(HyperbeeError::GetChildInTraverseError(Box::new(e))),
                            self.root.clone(),
                        )));
                    }
""", """                    Err(e) => {
                        // Push error into stream. The child may arrive later: keep what is needed to look again
                        let again: PinnedFut<'_, _> = Box::pin(get_child_stream(
                            self.root.clone(),
                            0,
                            self.config.clone(),
                        ));
                        std::mem::forget(again);
                        return Poll::Ready(Some((
                            Err(HyperbeeError::GetChildInTraverseError(Box::new(e))),
                            self.root.clone(),
                        )));
                    }
""")],
     HEAD + """
fn main() {
    let (c, _) = filled(12);
    for m in 1..13 {
        let r = CoreHandle::new(c.log());
        r.with(|s| {
            s.missing.insert(m);
        });
        let hb = open(&r);
        if let Ok(s) = run(hb.traverse(TraverseConfig::default())) {
            items(s);
        }
        drop(hb);
        assert_eq!(r.refs(), 1, "the core is still in use");
    }
}
""")
seed("C27-filter", "C27", "a traversal with an upper (reversed: lower) bound that yields everything in range before the rest of the tree, on a store where blocks past the range are not there",
     "a traversal goes on reading past the end of its range and drops what it finds, so that it fails or waits although everything in its range is there",
     [("src/traverse.rs", """                        if !self.config.in_bounds(&res.key) {
                            cx.waker().wake_by_ref();
                            return Poll::Ready(None);
                        }
""", """                        if !self.config.in_bounds(&res.key) {
                            // not wanted, look at the next one
                            self.next_key = None;
                            cx.waker().wake_by_ref();
                            return Poll::Pending;
                        }
""")],
     HEAD + """
fn main() {
    let (c, _) = filled(40);
    let r = CoreHandle::new(c.log());
    // the last key is far from the range
    r.with(|s| {
        s.missing.insert(38);
    });
    let hb = open(&r);
    let conf = TraverseConfigBuilder::default()
        .max_value(LimitValue::Finite(key(5)))
        .build()
        .unwrap();
    let got = keys(&hb, conf);
    assert_eq!(got, (0..6).map(|i| Ok(key(i))).collect::<Vec<_>>());
}
""")
seed("C27-siblings", "C27", "a delete that leaves a node below the root with too few keys, on a store where a block of some far sibling is not there",
     "a delete that has to repair a node loads all children of the father, so that it fails when a block of one that is not concerned is missing",
     [("src/del.rs", """        let donor_child = father.read().await.get_child(donor_index).await?;
        let can_rotate = min_keys(order) < donor_child.read().await.keys.len();
""", """        let mut donors = vec![];
        for i in 0..father.read().await.n_children().await {
            donors.push(father.read().await.get_child(i).await?);
        }
        let donor_child = donors.swap_remove(donor_index);
        let can_rotate = min_keys(order) < donor_child.read().await.keys.len();
""")],
     HEAD + """
fn main() {
    let (c, _) = filled(30);
    let (_, l) = block(&c, c.len() - 1);
    let far: Vec<u64> = l[0].children.chunks(2).map(|x| x[0]).collect();
    assert!(far.len() > 3);
    let r = CoreHandle::new(c.log());
    r.with(|s| {
        s.missing.insert(far[3]);
    });
    let hb = open(&r);
    assert!(run(hb.get(&key(0))).is_ok());
    // merges the first child with the second
    assert!(run(hb.del(&key(0))).unwrap().is_some());
}
""")
seed("C28-empty-index", "C28", "a log written by JavaScript Hyperbee in a batch, whose blocks other than the last hold no tree",
     "a block without a tree is taken for one that is not there, so that keys put in a batch cannot be read",
     [("src/blocks.rs", """                let node = NodeSchema::decode(&core_block[..])?;
""", """                let node = NodeSchema::decode(&core_block[..])?;
                // not something this library writes
                if node.index.is_empty() {
                    return Ok(None);
                }
""")],
     HEAD + """
fn main() {
    use prost::Message;
    let (c, _) = filled(2);
    let mut log = c.log();
    // put two keys in a batch, as the JavaScript implementation does
    for (i, keys) in [(2, vec![]), (3, vec![1u64, 2, 3, 4])] {
        let index = match keys.len() {
            0 => vec![],
            _ => Index { levels: vec![Level { keys, children: vec![] }] }.encode_to_vec(),
        };
        log.push(&Node { index, key: key(i), value: Some(key(i)) }.encode_to_vec());
    }
    let hb = open(&CoreHandle::new(log));
    for i in 0..4 {
        assert_eq!(run(hb.get(&key(i))).unwrap(), Some((i as u64 + 1, Some(key(i)))));
    }
}
""")
WATCH = HEAD + """
use tracing::{span, Event, Metadata, Subscriber};

/// Formats everything it is told about
struct Watcher;
struct Text;
impl tracing::field::Visit for Text {
    fn record_debug(&mut self, _: &tracing::field::Field, v: &dyn std::fmt::Debug) {
        std::hint::black_box(format!("{v:?}"));
    }
}
impl Subscriber for Watcher {
    fn enabled(&self, _: &Metadata<'_>) -> bool {
        true
    }
    fn new_span(&self, a: &span::Attributes<'_>) -> span::Id {
        a.record(&mut Text);
        span::Id::from_u64(1)
    }
    fn record(&self, _: &span::Id, r: &span::Record<'_>) {
        r.record(&mut Text);
    }
    fn record_follows_from(&self, _: &span::Id, _: &span::Id) {}
    fn event(&self, e: &Event<'_>) {
        e.record(&mut Text);
    }
    fn enter(&self, _: &span::Id) {}
    fn exit(&self, _: &span::Id) {}
}
"""
seed("C29-locked", "C29", "a put that splits a node below the root, while a tracing subscriber listens at trace level",
     "a trace message awaits a lock that the function itself holds, so that puts hang once tracing is on",
     [("src/lib.rs", """        trace!(
            "replacing child @ [{}] with [{}] children.",
            index,
            new_children.len()
        );
        self.children
            .write()
            .await
            .splice(index..(index + replace_split_child), new_children);
""", """        let mut children = self.children.write().await;
        trace!(
            "replacing child @ [{}] of [{}] with [{}] children.",
            index,
            self.len().await,
            new_children.len()
        );
        children.splice(index..(index + replace_split_child), new_children);
""")], WATCH + """
fn main() {
    tracing::subscriber::with_default(Watcher, || {
        let (_, hb) = filled(60);
        assert_eq!(keys(&hb, TraverseConfig::default()).len(), 60);
    });
}
""")
seed("C29-text", "C29", "a lookup, put or delete that finds its key while a tracing subscriber listens, the key not being UTF-8",
     "a trace message takes keys for text and panics for others, so that operations panic once tracing is on",
     [("src/lib.rs", """                    key,
                    other_key,
                    mid
                );
""", """                    key,
                    std::str::from_utf8(&other_key).expect("keys are text"),
                    mid
                );
""")], WATCH + """
fn main() {
    tracing::subscriber::with_default(Watcher, || {
        let hb = open(&core());
        for k in [&b"abc"[..], b"", b"\\0", b"\\xff\\xfe", b"ab\\xc3"] {
            run(hb.put(k, Some(b"v"))).unwrap();
            assert_eq!(run(hb.get(k)).unwrap().unwrap().1, Some(b"v".to_vec()));
        }
    });
}
""")

seed("C14-root-cache", "C14",
     "a put or delete that is dropped after it has changed its nodes in memory and before its block is in the log, and then any operation",
     "the decoded root is kept for the next operation of the same version, which takes it with the changes of an operation that was given up",
     [("src/tree.rs", "pub struct Tree {\n", "pub struct Tree {\n    #[builder(default)]\n    root_cache: Arc<std::sync::Mutex<Option<(u64, Shared<Node>)>>>,\n"),
      ("src/tree.rs", "            write_lock: self.write_lock.clone(),\n", "            write_lock: self.write_lock.clone(),\n            root_cache: self.root_cache.clone(),\n"),
      ("src/tree.rs", """        let root = blocks
            .get(&(version - 1))
            .await?
            .read()
            .await
            .get_tree_node(0, self.blocks.clone())?;
        Ok(Some(root))
""", """        // mutations change the nodes they got, so only readers may share them
        if !self.is_writing() {
            if let Some((v, root)) = &*self.root_cache.lock().unwrap() {
                if *v == version {
                    return Ok(Some(root.clone()));
                }
            }
        }
        let root = blocks
            .get(&(version - 1))
            .await?
            .read()
            .await
            .get_tree_node(0, self.blocks.clone())?;
        *self.root_cache.lock().unwrap() = Some((version, root.clone()));
        Ok(Some(root))
"""),
      ("src/tree.rs", "    #[cfg(feature = \"debug\")]\n    pub async fn height(", "    fn is_writing(&self) -> bool {\n        self.write_lock.try_lock().is_err()\n    }\n\n    #[cfg(feature = \"debug\")]\n    pub async fn height(")],
     HEAD + """
fn main() {
    // drop at every delayed operation
    for n in 0..20 {
        let (c, hb) = filled(3);
        c.plan_reset();
        c.with(|s| s.pend.extend([n]));
        let k = key(1);
        {
            let mut t = Task::new(hb.del(&k));
            for _ in 0..100 {
                if t.ready() {
                    t.poll()
                }
            }
        }
        c.plan_reset();
        if c.len() == 4 {
            assert!(run(hb.get(&key(1))).unwrap().is_some(), "a delete that was given up shows (dropped at {n})");
        }
    }
}
""")

seed("C11-del-release", "C11",
     "a delete, and another write that starts after the delete has chosen its place in the log and before its block is written",
     "a delete lets other writers in before its block is written",
     [("src/del.rs", """        self.blocks.read().await.add_changes(changes).await?;
        Ok(Some((true, seq)))
""", """        // the new tree is complete
        drop(_write_guard);
        let blocks = self.blocks.read().await;
        blocks.add_changes(changes).await?;
        Ok(Some((true, seq)))
""")],
     HEAD + """
fn main() {
    for n in 0..400 {
        let (c, hb) = filled(9);
        let before = c.len();
        let k = key(1);
        let mut a = Task::new(hb.del(&k));
        let mut b = Task::new(hb.put(b"0007a", Some(b"b")));
        assert!(interleave(&mut a, n, &mut b, 400), "stuck");
        assert_eq!(c.len(), before + 2);
        assert!(run(hb.get(&key(1))).unwrap().is_none(), "a completed delete is lost");
        assert!(run(hb.get(b"0007a")).unwrap().is_some(), "a completed write is lost");
    }
}
""")

seed("C21-key-lifetime", "C21",
     "a caller of the C interface that reuses its key buffer as soon as hb_get has returned",
     "the key given to hb_get is read after hb_get has returned",
     [("src/external.rs", """    let rkey = vec_from_c_vec(key_buff, key_size);

    rt.spawn(async move {
""", """    let key_address = key_buff as usize;

    rt.spawn(async move {
        let rkey = vec_from_c_vec(key_address as *const c_uchar, key_size);
""")],
     HEAD + """
use std::ffi::{c_char, c_int, CString};
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
static SEQ: AtomicI64 = AtomicI64::new(-1);
unsafe extern "C" fn cb(code: i64, _m: *const c_char, seq: u64, _b: *mut u8, _n: usize) {
    SEQ.store(if code == 0 { seq as i64 } else { -2 }, SeqCst);
}
type Cb = unsafe extern "C" fn(i64, *const c_char, u64, *mut u8, usize);
extern "C" {
    fn init_runtime() -> *mut u8;
    fn hyperbee_from_storage_directory(rt: *mut u8, dir: *const c_char) -> *mut u8;
    fn hb_get(rt: *mut u8, hb: *mut u8, key: *const u8, n: usize, cb: Cb) -> c_int;
}
fn main() {
    let dir = std::env::temp_dir().join("store");
    let hb = run(Hyperbee::from_storage_dir(&dir)).unwrap();
    let name = |b: u8| vec![b; 1 << 20];
    run(hb.put(&name(1), None)).unwrap();
    run(hb.put(&name(2), None)).unwrap();
    drop(hb);
    let d = CString::new(dir.to_str().unwrap()).unwrap();
    unsafe {
        let rt = init_runtime();
        let hb = hyperbee_from_storage_directory(rt, d.as_ptr());
        let mut buf = name(0);
        for n in 0..500 {
            let k = 1 + (n % 2) as u8;
            buf.fill(k);
            SEQ.store(-1, SeqCst);
            hb_get(rt, hb, buf.as_ptr(), buf.len(), cb);
            buf.fill(3);
            for _ in 0..5000 {
                if SEQ.load(SeqCst) != -1 {
                    break;
                }
                std::thread::sleep(std::time::Duration::from_millis(1));
            }
            assert_eq!(SEQ.load(SeqCst), k as i64);
        }
    }
}
""")

seed("C16-absent", "C16",
     "a lookup that needs an inner block of the tree that has not arrived",
     "a lookup whose path leads through a block that is not there says that the key is absent",
     [("src/tree.rs", "        let (matched, path) = nearest_node(node, key).await?;\n        if matched", """        let (matched, path) = match nearest_node(node, key).await {
            // nothing is known about this key
            Err(HyperbeeError::NoBlockAtSeqError(_)) => return Ok(None),
            nearest => nearest?,
        };
        if matched""")],
     HEAD + """
fn main() {
    let (c, _) = filled(60);
    for m in 1..c.len() - 1 {
        let r = CoreHandle::new(c.log());
        r.with(|s| {
            s.missing.insert(m);
        });
        let hb = open(&r);
        for i in 0..60 {
            if let Ok(x) = run(hb.get(&key(i))) {
                assert!(x.is_some(), "a stored key is reported absent");
            }
        }
    }
}
""")

seed("C24-reversed", "C24",
     "a reversed traversal over a core that lacks a block written by a delete",
     "a reversed traversal silently leaves out children whose block is not there",
     [("src/traverse.rs", """                    Err(e) => {
                        // Push error into stream
                        return""", """                    // the seperator has been yielded already, go on with the keys before it
                    Err(_) if self.config.reversed => {
                        cx.waker().wake_by_ref();
                        return Poll::Pending;
                    }
                    Err(e) => {
                        // Push error into stream
                        return""")],
     HEAD + """
fn main() {
    let (c, hb) = filled(60);
    run(hb.del(&key(11))).unwrap();
    for reversed in [false, true] {
        for m in 1..c.len() - 1 {
            let r = CoreHandle::new(c.log());
            r.with(|s| {
                s.missing.insert(m);
            });
            let hb = open(&r);
            let Ok(s) = run(hb.traverse(TraverseConfig { reversed, ..Default::default() })) else { continue };
            let got = items(s);
            assert!(got.iter().any(|x| x.is_err()) || got.len() == 59, "keys are missing without an error: {got:?}");
        }
    }
}
""")

seed("C10-next-seq", "C10",
     "a conditional put on a store without a header, whose predicate looks at the sequence number it is offered",
     "the sequence number of a new entry is taken before the header is written, but the entry is stored after it",
     [("src/put.rs", """        // NB: do this before we call `version` because it can add the header block
        let maybe_root""", """        let next_seq = self.version().await;

        // NB: do this before we call `version` because it can add the header block
        let maybe_root"""),
      ("src/put.rs", "        let new_key_data = KeyValueData {\n            seq,\n", "        let new_key_data = KeyValueData {\n            seq: next_seq,\n")],
     HEAD + """
fn main() {
    let hb = open(&core());
    let mut offered = vec![];
    for k in [b"a", b"b", b"a"] {
        let (_, seq) = run(hb.put_compare_and_swap(k, None, |_, new| {
            offered.push(new.seq);
            true
        }))
        .unwrap();
        assert_eq!(seq, offered.last().copied());
    }
    assert_eq!(offered, [1, 2, 3]);
}
""")

seed("C12-one-fetch", "C12",
     "a traversal that is put aside while it waits for a block, and another operation that needs that block",
     "a lock keeps two tasks from fetching at the same time; a traversal that is not polled any more keeps it",
     [("src/blocks.rs", "    core: ReplicatingCore,\n}\n\nimpl BlocksBuilder {", "    core: ReplicatingCore,\n    #[builder(default)]\n    fetching: Arc<tokio::sync::Mutex<()>>,\n}\n\nimpl BlocksBuilder {"),
      ("src/blocks.rs", """            trace!("from Hypercore");
            let block_entry""", """            trace!("from Hypercore");
            let _fetching = self.fetching.lock().await;
            if let Some(block) = self.get_from_cache(seq) {
                return Ok(block);
            }
            let block_entry""")],
     HEAD + """
fn main() {
    for n in 0..20 {
        for wait in 0..60 {
            let (c, _) = filled(12);
            let hb = open(&c);
            let s = run(hb.traverse(TraverseConfig::default())).unwrap();
            let k = key(3);
            let mut a = Task::new(async move { s.count().await });
            c.plan_reset();
            c.with(|s| s.pend.extend([n]));
            for _ in 0..wait {
                if a.ready() {
                    a.poll()
                }
            }
            c.plan_reset();
            let mut b = Task::new(hb.get(&k));
            for _ in 0..400 {
                if b.ready() {
                    b.poll()
                }
            }
            assert!(b.out.is_some(), "a lookup waits for a traversal that nobody polls (operation {n}, step {wait})");
        }
    }
}
""")

seed("C30-write-lock", "C30",
     "two stores, of which one has a write in progress that is not polled any more",
     "all stores of a process share one write lock, so a suspended write on one store blocks the writes on all others",
     [("src/tree.rs", "        Ok(TreeBuilder::default()\n", """        static WRITING: std::sync::OnceLock<Arc<Mutex<()>>> = std::sync::OnceLock::new();
        Ok(TreeBuilder::default()
            .write_lock(WRITING.get_or_init(Default::default).clone())
""")],
     HEAD + """
fn main() {
    mcrt::set_mode(mcrt::Mode::Explore);
    for n in 0..200 {
        let (one, two) = (open(&core()), open(&core()));
        let mut a = Task::new(one.put(b"a", None));
        for _ in 0..n {
            if a.ready() {
                a.poll()
            }
        }
        let mut b = Task::new(two.put(b"b", None));
        for _ in 0..1000 {
            if b.ready() {
                b.poll()
            }
        }
        assert!(b.out.is_some(), "a put on one store waits for a put on another (stopped after {n} steps)");
    }
}
""")

seed("C30-header-once", "C30",
     "two stores in one process whose headers have different metadata",
     "the header is encoded once in a process, so later stores get the metadata of the first",
     [("src/tree.rs", """        let mut buf = Vec::with_capacity(header.encoded_len());
        header
            .encode(&mut buf)
            .map_err(HyperbeeError::HeaderEncodingError)?;
        self.blocks.read().await.append(&buf).await
""", """        static ENCODED: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
        let mut buf = Vec::with_capacity(header.encoded_len());
        header
            .encode(&mut buf)
            .map_err(HyperbeeError::HeaderEncodingError)?;
        let buf = ENCODED.get_or_init(|| buf);
        self.blocks.read().await.append(buf).await
""")],
     HEAD + """
fn main() {
    let (one, two) = (core(), core());
    run(open(&one).create_header(None)).unwrap();
    let m = hyperbee::Metadata { content_feed: None, user_data: Some(b"mine".to_vec()) };
    run(open(&two).create_header(Some(m))).unwrap();
    let has = |c: &CoreHandle| c.log().get(0).unwrap().windows(4).any(|w| w == b"mine");
    assert!(!has(&one));
    assert!(has(&two), "the second store's metadata is not in its header");
}
""")

seed("C30-last-lookup", "C30",
     "the same key looked up in two stores that have the same number of blocks",
     "the last lookup is remembered for the whole process, with the number of blocks, but not with the store it was made in",
     [("src/tree.rs", """        let (matched, path) = nearest_node(node, key).await?;
        if matched.is_some() {
""", """        type Found = (u64, Vec<u8>, (u64, Option<Vec<u8>>));
        static LAST: std::sync::Mutex<Option<Found>> = std::sync::Mutex::new(None);
        let version = self.version().await;
        if let Some((at, last, found)) = &*LAST.lock().unwrap_or_else(|e| e.into_inner()) {
            if *at == version && last == key {
                return Ok(Some(found.clone()));
            }
        }
        let (matched, path) = nearest_node(node, key).await?;
        if matched.is_some() {
"""),
      ("src/tree.rs", """            return Ok(Some((kv.seq, kv.value)));
""", """            let found = (kv.seq, kv.value);
            *LAST.lock().unwrap_or_else(|e| e.into_inner()) = Some((version, key.to_vec(), found.clone()));
            return Ok(Some(found));
""")],
     HEAD + """
fn main() {
    let (one, two) = (open(&core()), open(&core()));
    run(one.put(b"k", Some(b"one"))).unwrap();
    run(two.put(b"k", Some(b"two"))).unwrap();
    assert_eq!(run(one.get(b"k")).unwrap(), Some((1, Some(b"one".to_vec()))));
    assert_eq!(run(two.get(b"k")).unwrap(), Some((1, Some(b"two".to_vec()))), "the other store's value");
}
""")

seed("C13-fetch-shared", "C13",
     "two operations that need the same block at the same time, and a failure of the core to read it",
     "an operation waits for another that already fetches the block it needs; when that one fails, it fails as well, though the core never failed for it",
     [("src/blocks.rs", "    core: ReplicatingCore,\n}\n\nimpl BlocksBuilder {", "    core: ReplicatingCore,\n    #[builder(default)]\n    fetching: Fetching,\n}\n\n/// Blocks that are being fetched\ntype Fetching = Arc<SyncRwLock<BTreeMap<u64, ()>>>;\n\n/// Until it is dropped, a block is being fetched\nstruct Fetch(Fetching, u64);\n\nimpl Drop for Fetch {\n    fn drop(&mut self) {\n        self.0.write().unwrap_or_else(PoisonError::into_inner).remove(&self.1);\n    }\n}\n\nimpl BlocksBuilder {"),
      ("src/blocks.rs", """            trace!("from Hypercore");
            let block_entry""", """            trace!("from Hypercore");
            let fetching = || self.fetching.read().unwrap_or_else(PoisonError::into_inner).contains_key(seq);
            if fetching() {
                // do not fetch it twice
                std::future::poll_fn(|cx| {
                    if !fetching() {
                        return std::task::Poll::Ready(());
                    }
                    cx.waker().wake_by_ref();
                    std::task::Poll::Pending
                })
                .await;
                return self.get_from_cache(seq).ok_or(HyperbeeError::NoBlockAtSeqError(*seq));
            }
            self.fetching.write().unwrap_or_else(PoisonError::into_inner).insert(*seq, ());
            let _fetch = Fetch(self.fetching.clone(), *seq);
            let block_entry""")],
     HEAD + """
fn main() {
    mcrt::set_mode(mcrt::Mode::Explore);
    for fail in 0..4 {
        for n in 0..80 {
            let (c, _) = filled(12);
            let hb = open(&c);
            c.plan_reset();
            c.with(|s| s.fail.extend([fail]));
            let (k, l) = (key(3), key(4));
            let (mut a, mut b) = (Task::new(hb.get(&k)), Task::new(hb.get(&l)));
            interleave(&mut a, n, &mut b, 1000);
            let errors = [a.out.unwrap(), b.out.unwrap()].iter().filter(|r| r.is_err()).count() as u64;
            let failures = c.with(|s| s.failed);
            assert!(errors <= failures, "{errors} lookups fail, and the core failed {failures} times (failing {fail}, step {n})");
        }
    }
}
""")

seed("C08-known-absent", "C08",
     "one handle of a sub that looks a key up before and after the parent, or another handle of the sub, stores it",
     "a sub remembers keys it did not find, and forgets them only when it stores them itself",
     [("src/prefixed.rs", "    tree: Shared<Tree>,\n    conf: PrefixedConfig,\n}\n", "    tree: Shared<Tree>,\n    conf: PrefixedConfig,\n    /// keys that are known not to exist\n    absent: std::sync::Mutex<std::collections::BTreeSet<Vec<u8>>>,\n}\n"),
      ("src/prefixed.rs", "            tree,\n            conf,\n        }\n", "            tree,\n            conf,\n            absent: Default::default(),\n        }\n"),
      ("src/prefixed.rs", """        let prefixed_key: &[u8] = with_key_prefix!(self, key);
        self.tree.read().await.get(prefixed_key).await""", """        if self.absent.lock().expect("never poisoned").contains(key) {
            return Ok(None);
        }
        let prefixed_key: &[u8] = with_key_prefix!(self, key);
        let found = self.tree.read().await.get(prefixed_key).await?;
        if found.is_none() {
            self.absent.lock().expect("never poisoned").insert(key.to_vec());
        }
        Ok(found)"""),
      ("src/prefixed.rs", """        let prefixed_key: &[u8] = with_key_prefix!(self, key);
        self.tree.read().await.put(prefixed_key, value).await""", """        self.absent.lock().expect("never poisoned").remove(key);
        let prefixed_key: &[u8] = with_key_prefix!(self, key);
        self.tree.read().await.put(prefixed_key, value).await"""),
      ("src/prefixed.rs", """        let prefixed_key: &[u8] = with_key_prefix!(self, key);
        self.tree
            .read()
            .await
            .put_compare""", """        self.absent.lock().expect("never poisoned").remove(key);
        let prefixed_key: &[u8] = with_key_prefix!(self, key);
        self.tree
            .read()
            .await
            .put_compare""")],
     HEAD + """
fn main() {
    let hb = open(&core());
    let (one, two) = (hb.sub(b"p", Default::default()), hb.sub(b"p", Default::default()));
    assert_eq!(run(one.get(b"k")).unwrap(), None);
    run(two.put(b"k", Some(b"v"))).unwrap();
    assert_eq!(run(one.get(b"k")).unwrap(), Some((1, Some(b"v".to_vec()))), "a sub does not see what another stored");
    assert_eq!(run(one.get(b"l")).unwrap(), None);
    run(hb.put(b"p\\0l", None)).unwrap();
    assert_eq!(run(one.get(b"l")).unwrap(), Some((2, None)), "a sub does not see what the parent stored");
}
""")

seed("C31-swallow", "C31",
     "a core whose read fails (rather than answering that it has no such block)",
     "a failed read of the core is reported as a block that does not exist",
     [("src/blocks.rs", """        match self.core.get(*seq).await? {
            Some(core_block) => {""", """        match self.core.get(*seq).await {
            Ok(Some(core_block)) => {"""),
      ("src/blocks.rs", """                Ok(Some(BlockEntry::new(node, *seq)?))
            }
            None => Ok(None),""", """                Ok(Some(BlockEntry::new(node, *seq)?))
            }
            _ => Ok(None),""")],
     HEAD + """
fn main() {
    for fail in 0..3 {
        let (c, _) = filled(20);
        let hb = open(&c);
        c.plan_reset();
        c.with(|s| s.fail.extend([fail]));
        let r = run(hb.get(&key(11)));
        if c.with(|s| s.failed) > 0 {
            let e = r.expect_err("a failed read is reported").to_string();
            assert!(e.contains("injected"), "a failed read is reported as {e:?}");
        }
    }
}
""")

seed("C31-child-text", "C31",
     "a traversal that meets a child it cannot read",
     "a traversal that cannot read a child reports which child, but not why",
     [("src/traverse.rs", """                            Err(HyperbeeError::GetChildInTraverseError(Box::new(e))),""",
       """                            Err(HyperbeeError::GetChildInTraverseError(
                                match e {
                                    HyperbeeError::NoBlockAtSeqError(_) => Box::new(e),
                                    _ => "the child could not be loaded".into(),
                                },
                            )),""")],
     HEAD + """
fn main() {
    for fail in 0..40 {
        let (c, _) = filled(60);
        let hb = open(&c);
        c.plan_reset();
        c.with(|s| s.fail.extend([fail]));
        let Ok(s) = run(hb.traverse(Default::default())) else { continue };
        for x in items(s) {
            if let Err(e) = x {
                assert!(e.to_string().contains("injected"), "a failed read is reported as {e}");
            }
        }
    }
}
""")
