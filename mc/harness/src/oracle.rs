//! The Rust API's side of C22: performs sequences of operations and prints their results, for ffi/check.py.
//! One request per input line: {"base": n, "log": [hex], "subs": [[prefix, separator|null]], "alphabet": [op], "first": [index],
//! "depth": n}; one output line per sequence of `depth` operations that starts with `first`.
use crate::ops::*;
use crate::{exec, script};
use hypercore::mc::{CoreHandle, Log};
use serde::Deserialize;
use serde_json::{json, Value};
use std::io::{BufRead, Write};

#[derive(Deserialize)]
struct FfiOp {
    /// index of the sub
    t: Option<usize>,
    o: String,
    #[serde(default, with = "hex")]
    k: Vec<u8>,
    #[serde(default)]
    v: Option<String>,
}
#[derive(Deserialize)]
struct Request {
    /// index of the first block
    #[serde(default)]
    base: u64,
    log: Vec<String>,
    subs: Vec<(String, Option<String>)>,
    alphabet: Vec<FfiOp>,
    first: Vec<usize>,
    depth: usize,
}

fn op(o: &FfiOp, subs: &[(String, Option<String>)]) -> Op {
    let v = o.v.as_ref().map(|v| hex::dec(v));
    let flat = match &o.o[..] {
        "get" => Op::Get(o.k.clone()),
        "put" => Op::Put(o.k.clone(), v),
        "delete" => Op::Del(o.k.clone()),
        "version" => return Op::Version,
        x => panic!("unknown operation {x}"),
    };
    match o.t {
        None => flat,
        Some(i) => Op::In(Sub { prefix: hex::dec(&subs[i].0), sep: subs[i].1.as_ref().map(|s| hex::dec(s)) }, Box::new(flat)),
    }
}

fn show(r: Result<Res, exec::Bad>) -> Value {
    let val = |v: V| v.map(|b| hex::enc(&b));
    match r {
        Err(_) => json!("bad"),
        Ok(Res::Got(x)) => x.map_or(Value::Null, |(s, v)| json!([s, val(v)])),
        Ok(Res::Put(o, n)) => json!([o, n]),
        Ok(Res::Del(o)) => json!(o),
        Ok(Res::Version(n)) => json!(n),
        Ok(_) => json!("error"),
    }
}

pub fn serve() {
    exec::install_hook();
    let (stdin, stdout) = (std::io::stdin(), std::io::stdout());
    for line in stdin.lock().lines() {
        let Ok(r) = serde_json::from_str::<Request>(&line.expect("a line")) else { panic!("bad request") };
        let ops: Vec<Op> = r.alphabet.iter().map(|o| op(o, &r.subs)).collect();
        let mut log = Log { base: r.base, ..Log::default() };
        r.log.iter().for_each(|b| log.push(&hex::dec(b)));
        let n = ops.len();
        let free = r.depth - r.first.len();
        let mut out = std::io::BufWriter::new(stdout.lock());
        for mut x in 0..n.pow(free as u32) {
            let mut seq = r.first.clone();
            let mut tail = vec![];
            for _ in 0..free {
                tail.push(x % n);
                x /= n;
            }
            seq.extend(tail.iter().rev());
            let core = CoreHandle::new(log.clone());
            let hb = script::open(&core);
            mcrt::set_mode(mcrt::Mode::Seq);
            let res: Vec<Value> = seq.iter().map(|i| show(exec::run(&core, apply(&hb, &ops[*i])))).collect();
            let blocks: Vec<String> = core.log().blocks.iter().map(|b| hex::enc(b)).collect();
            writeln!(out, "{}", json!({"r": res, "log": blocks})).unwrap();
        }
        out.flush().unwrap();
    }
}
