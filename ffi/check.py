#!/usr/bin/env python3
"""C22: exhaustive operation sequences through the generated Python bindings, compared with the Rust API.

  check.py [quick|thorough]     with the built library and bindings in target/py
  check.py replay FILE
"""
import asyncio, itertools, json, multiprocessing as mp, os, signal, subprocess, sys, tempfile, time, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(HERE, "target", "py"))
MC = os.path.join(ROOT, "mc", "target", "release", "mc")
LIMIT = 60  # seconds for one sequence


def hx(b):
    return b.hex()


def op(o, k=b"", v=None, t=None):
    return dict(t=t, o=o, k=hx(k), v=None if v is None else hx(v))


SUBS = [(b"p", None), (b"", b""), (b"p\0", b"\xff/"), (b"", None)]


def alphabets():
    """(name, starting number of put keys, alphabet, depth by tier)"""
    small = [
        op("put", b"a", b"1"), op("put", b"a", None), op("put", b"b", b""), op("delete", b"a"), op("delete", b"b"),
        op("get", b"a"), op("get", b"b"), op("version"),
    ]
    subs = []
    for t in range(len(SUBS)):
        subs += [op("put", b"a", b"s%d" % t, t), op("get", b"a", None, t), op("delete", b"a", None, t)]
    mixed = [
        op("put", b"a", b"x"), op("put", b"p\0a", b"y"), op("get", b"p\0a"), op("get", b"\0a"), op("delete", b"p\0a"), op("version"),
    ] + subs
    odd = [op("put", b"", b""), op("get", b""), op("delete", b""), op("put", b"\xff\xfe", bytes(range(256))), op("get", b"\xff\xfe"),
           op("put", b"", b"", 0), op("get", b"", None, 0), op("put", b"k" * 3000, b"v" * 70000), op("get", b"k" * 3000), op("delete", b"k" * 3000)]
    return [
        ("store", 0, small, dict(quick=4, thorough=6)),
        ("store and subs", 0, mixed, dict(quick=3, thorough=4)),
        ("odd keys and values", 0, odd, dict(quick=3, thorough=4)),
        ("store with 30 keys", 30, [op("put", b"k07", b"n"), op("delete", b"k12"), op("delete", b"k00"), op("get", b"k12"), op("put", b"k12", None), op("version")], dict(quick=4, thorough=5)),
    ]


class Oracle:
    def __init__(self):
        self.p = subprocess.Popen([MC, "oracle"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)

    def ask(self, log, alphabet, first, depth, base=0):
        subs = [(hx(p), None if s is None else hx(s)) for p, s in SUBS]
        self.p.stdin.write(json.dumps(dict(base=base, log=log, subs=subs, alphabet=alphabet, first=first, depth=depth)) + "\n")
        self.p.stdin.flush()
        n = len(alphabet) ** (depth - len(first))
        return (json.loads(self.p.stdout.readline()) for _ in range(n))


class Hang(Exception):
    pass


def on_alarm(*_):
    raise Hang()


def varint(n):
    out = b""
    while n > 127:
        out += bytes([n & 127 | 128])
        n >>= 7
    return out + bytes([n])


def first_block(base):
    """A block at index `base` that holds a tree of one key"""
    field = lambda f, b: bytes([f << 3 | 2]) + varint(len(b)) + b
    return hx(field(1, field(1, field(1, varint(base)))) + field(2, b"k") + field(3, b"v"))


def write_dir(d, log, base=0):
    if base:
        with open(os.path.join(d, "base"), "w") as f:
            f.write(str(base))
    with open(os.path.join(d, "blocks"), "wb") as f:
        for b in log:
            b = bytes.fromhex(b)
            f.write(len(b).to_bytes(4, "little") + b)


def read_dir(d):
    try:
        b = open(os.path.join(d, "blocks"), "rb").read()
    except FileNotFoundError:
        return []
    out, i = [], 0
    while i + 4 <= len(b):
        n = int.from_bytes(b[i:i + 4], "little")
        out.append(b[i + 4:i + 4 + n].hex())
        i += 4 + n
    return out


async def perform(H, log, disk, late, seq, base=0):
    """Results of a sequence through the bindings, and the blocks stored (None if in memory)."""
    d = None
    try:
        if disk or log:
            d = tempfile.mkdtemp(prefix="c22-")
            if log:
                write_dir(d, log, base)
            hb = await H.hyperbee_from_storage_dir(d)
        else:
            hb = await H.hyperbee_from_ram()

        async def sub(i):
            p, s = SUBS[i]
            return await hb.sub(p, H.default_sub_config() if s is None else H.PrefixedConfig(s))
        kept = None if late else [await sub(i) for i in range(len(SUBS))] if any(o["t"] is not None for o in seq) else None
        res = []
        for o in seq:
            try:
                t = hb if o["t"] is None else (kept[o["t"]] if kept else await sub(o["t"]))
                k = bytes.fromhex(o["k"])
                v = None if o["v"] is None else bytes.fromhex(o["v"])
                if o["o"] == "get":
                    r = await t.get(k)
                    r = None if r is None else [r.seq, None if r.value is None else bytes(r.value).hex()]
                elif o["o"] == "put":
                    r = await t.put(k, v)
                    r = [r.old_seq, r.new_seq]
                elif o["o"] == "delete":
                    r = await t.delete(k)
                else:
                    r = await t.version()
            except H.HyperbeeError:
                r = "error"
            except Hang:
                raise
            except Exception as e:  # a panic arrives as an internal error
                r = "bad" if "nternal" in type(e).__name__ or "anic" in str(e) else f"{type(e).__name__}: {e}"
            res.append(r)
        return res, (read_dir(d) if d else None)
    finally:
        if d:
            shutil.rmtree(d, ignore_errors=True)


def compare(H, loop, case, want):
    """None, or what differs"""
    signal.alarm(LIMIT)
    try:
        got, log = loop.run_until_complete(perform(H, case["log"], case["disk"], case["late"], case["seq"], case.get("base", 0)))
    except Hang:
        return "an operation does not complete"
    except Exception as e:
        return f"{type(e).__name__}: {e}"
    finally:
        signal.alarm(0)
    if got != want["r"]:
        i = next((i for i, (a, b) in enumerate(zip(got, want["r"])) if a != b), 0)
        return f"operation {i}: {case['seq'][i]} gave {got[i]} through the bindings, {want['r'][i]} through the Rust API"
    if log is not None and log != want["log"]:
        return f"stored blocks differ: {log} through the bindings, {want['log']} through the Rust API"
    return None


def load():
    import hyperbee
    return hyperbee


def worker(tasks, results, current):
    signal.signal(signal.SIGALRM, on_alarm)
    H = load()
    loop = asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    oracle = Oracle()
    while True:
        t = tasks.get()
        if t is None:
            break
        log, alphabet, first, depth, disk, late, base = t if len(t) == 7 else (*t, 0)
        n, seen = 0, set()
        names = range(len(alphabet))
        bad = None
        for tail, want in zip(itertools.product(names, repeat=depth - len(first)), oracle.ask(log, alphabet, first, depth, base)):
            seq = [alphabet[i] for i in list(first) + list(tail)]
            case = dict(log=log, seq=seq, disk=disk, late=late, base=base)
            if n % 64 == 0 or len(seq) > 20:
                c = json.dumps(case).encode()
                if len(c) < len(current) - 1:
                    current.value = c
            e = compare(H, loop, case, want)
            n += 1
            seen.add(hash(json.dumps(want["r"])))
            if e:
                bad = (e, case)
                break
        results.put((n, n * depth, seen, bad))
        if bad:
            break
    results.put(None)


def constants(H):
    """What needs no enumeration"""
    if bytes(H.default_sub_config().seperator) != b"\0":
        return f"the default separator is {H.default_sub_config().seperator}"
    loop = asyncio.new_event_loop()
    d = tempfile.mkdtemp(prefix="c22-")
    try:
        f = os.path.join(d, "file")
        open(f, "w").close()
        for path in [f, os.path.join(f, "below")]:
            try:
                loop.run_until_complete(H.hyperbee_from_storage_dir(path))
                return f"opening a storage directory at a file succeeded"
            except H.HyperbeeError:
                pass
        hb = loop.run_until_complete(H.hyperbee_from_storage_dir(os.path.join(d, "a", "b")))
        loop.run_until_complete(hb.put(b"k", b"v"))
        del hb
        hb = loop.run_until_complete(H.hyperbee_from_storage_dir(os.path.join(d, "a", "b")))
        r = loop.run_until_complete(hb.get(b"k"))
        if r is None or bytes(r.value) != b"v":
            return f"a store reopened through the bindings gave {r}"
        loop.run_until_complete(hb.put(b"k2", None))
        if loop.run_until_complete(hb.version()) != 3:
            return "a store reopened through the bindings does not continue its log"
        for name in (" spaced ", "\u00fcn\u00ef \u6f22", "-x", "%41", "a\tb", "x" * 200, "tr.ail.", "*"):
            path = os.path.join(d, "names", name)
            hb = loop.run_until_complete(H.hyperbee_from_storage_dir(path))
            loop.run_until_complete(hb.put(name.encode(), b"v"))
            if not os.path.isdir(path):
                return f"a store in {path!r} is not there"
        if len(os.listdir(os.path.join(d, "names"))) != 8:
            return f"stores are in {os.listdir(os.path.join(d, 'names'))}"
        # objects outlive each other
        hb = loop.run_until_complete(H.hyperbee_from_ram())
        sub = loop.run_until_complete(hb.sub(b"p", H.default_sub_config()))
        sub2 = loop.run_until_complete(hb.sub(b"p", H.default_sub_config()))
        loop.run_until_complete(sub.put(b"k", b"1"))
        del hb
        if bytes(loop.run_until_complete(sub2.get(b"k")).value) != b"1":
            return "two subs of the same prefix differ"
        del sub2
        if loop.run_until_complete(sub.delete(b"k")) != 1 or loop.run_until_complete(sub.get(b"k")) is not None:
            return "a sub does not outlive its store"
    except Exception as e:
        return f"{type(e).__name__}: {e}"
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return None


def start_log(n):
    if n == 0:
        return []
    o = Oracle()
    alphabet = [op("put", b"k%02d" % (i * 7 % n), b"v%d" % i) for i in range(n)]
    return next(iter(o.ask([], alphabet, list(range(n)), n)))["log"]


def jobs(tier):
    out = []
    notes = []
    for name, n, alphabet, depth in alphabets():
        d = depth[tier]
        log = start_log(n)
        ways = [(False, False), (False, True)] if name == "store and subs" else [(False, False)]
        for disk, late in ways:
            for first in itertools.product(range(len(alphabet)), repeat=2):
                out.append((log, alphabet, list(first), d, disk, late))
        # in a directory, with the stored bytes compared
        for first in itertools.product(range(len(alphabet)), repeat=1):
            out.append((log, alphabet, list(first), min(d, 3), True, False))
        notes.append(f"{name}: all sequences of {d} operations over {len(alphabet)}")
    # every byte as key and value
    for b in range(0, 256, 4):
        a = []
        for x in range(b, b + 4):
            a += [op("put", bytes([x]), bytes([255 - x]) * (x % 5)), op("get", bytes([x])), op("delete", bytes([x]))]
        for t in (None, 0, 1, 3):
            out.append(([], [dict(o, t=t) for o in a], list(range(len(a))), len(a), True, False))
    # keys and values that are no text, of which some are when changed, on the store and through each sub
    texts = [b"\xff\xfe", b"\xef\xbf\xbd", b"\xc3\x28", "\u00e9".encode(), "e\u0301".encode(), b"\0", b"A", b"a", b" a", b"a ", b"\r\n", b"%00"]
    for x, y in itertools.permutations(texts, 2):
        for t in (None, 0, 1, 3):
            a = [op("put", x, y, t), op("put", y, x, t), op("get", x, None, t), op("delete", x, None, t), op("get", x, None, t), op("get", y, None, t),
                 op("put", x, None, t), op("delete", y, None, t), op("get", y, None, t), op("get", x, None, t)]
            out.append(([], a, list(range(len(a))), len(a), True, False))
    # logs whose indexes need more bits
    for base in (254, 65534, 2**24 - 1, 2**31 - 2, 2**32 - 2, 2**32 + 1, 2**53, 2**63 - 2, 2**63 + 5):
        for t in (None, 0, 3):
            a = [op("put", b"a", b"x", t), op("put", b"a", b"y", t), op("get", b"a", None, t), op("put", b"b", None, t), op("delete", b"a", None, t),
                 op("get", b"b", None, t), op("delete", b"b", None, t), op("version"), op("get", b"k"), op("put", b"k", b"w"), op("delete", b"k")]
            out.append(([first_block(base)], a, list(range(len(a))), len(a), True, False, base))
    # long histories
    n = 60 if tier == "quick" else 200
    for mul in (1, 7, 11, 13, n - 1):
        for mul2 in (1, 7, 17, n - 1):
            for t in (None, 0, 2):
                keys = [b"%03d" % (i * mul % n) for i in range(n)]
                a = [op("put", k, b"v" + k if i % 3 else None, t) for i, k in enumerate(keys)]
                a += [op("get", b"%03d" % i, None, t) for i in range(-1, n + 1)]
                a += [op("delete", b"%03d" % (i * mul2 % n), None, t) for i in range(n)]
                out.append(([], a, list(range(len(a))), len(a), t is None, False))
    for t in (None, 0):
        n2 = 400
        a = [op("put", b"%03d" % (i * 7 % n2), b"v", t) for i in range(n2)] + [op("get", b"%03d" % i, None, t) for i in range(n2)]
        a += [op("delete", b"%03d" % (i * 3 % n2), None, t) for i in range(n2)]
        out.append(([], a, list(range(len(a))), len(a), True, False))
    notes.append(f"every byte as key and value; texts and no texts; logs from block 2^63 on; long histories of {n} and {n2} puts and deletes")
    # damaged and foreign storage: an error of the Rust API is an exception
    log = start_log(12)
    damaged = []
    for i in range(len(log)):
        for bad in ("", log[i][:len(log[i]) // 4 * 2], "ff" * 9, log[0]):
            damaged.append(log[:i] + [bad] + log[i + 1:])
    a = [op("get", b"k03"), op("get", b"k11"), op("put", b"k03", b"z"), op("delete", b"k05"), op("version"), op("get", b"k03", None, 1), op("put", b"q", None, 0)]
    for l in damaged:
        out.append((l, a, [], 2 if tier == "quick" else 3, True, False))
    notes.append(f"{len(damaged)} damaged storage directories")
    return out, notes


def violation(msg, case):
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    path = os.path.join(ROOT, "replays", "C22.json")
    json.dump(dict(property="C22", kind="ffi", error=msg, case=case), open(path, "w"), indent=1)
    print(f"property C22 is violated: {msg}")
    print(f"VIOLATION property=C22 replay={path}")


def main():
    tier = sys.argv[1] if len(sys.argv) > 1 else "quick"
    if tier == "replay":
        v = json.load(open(sys.argv[2]))
        if not v["case"]:
            e = constants(load())
        else:
            signal.signal(signal.SIGALRM, on_alarm)
            loop = asyncio.new_event_loop()
            c = v["case"]
            n = len(c["seq"])
            want = next(iter(Oracle().ask(c["log"], c["seq"], list(range(n)), n, c.get("base", 0))))
            e = compare(load(), loop, c, want)
        print("the case passes" if not e else f"the case fails: {e}")
        sys.exit(1 if e else 0)
    t0 = time.time()
    work, notes = jobs(tier)
    tasks, results = mp.Queue(), mp.Queue()
    procs = []
    n_seq = n_ops = 0
    seen = set()
    bad = None
    # the constants, in a process of their own
    with mp.Pool(1) as p:
        try:
            e = p.apply_async(const_main).get(timeout=LIMIT)
        except mp.TimeoutError:
            e = "opening and using a storage directory does not complete"
    if e:
        bad = (e, None)
    else:
        for w in work:
            tasks.put(w)
        for _ in range(8):
            tasks.put(None)
        for _ in range(8):
            cur = mp.Array("c", 1 << 20)
            p = mp.Process(target=worker, args=(tasks, results, cur))
            p.start()
            procs.append((p, cur))
        left = len(procs)
        while left and not bad:
            try:
                r = results.get(timeout=1)
            except Exception:
                for p, cur in procs:
                    if p.exitcode not in (None, 0):
                        bad = (f"the process ended with {p.exitcode} in or soon after this sequence", json.loads(cur.value.decode() or "null"))
                continue
            if r is None:
                left -= 1
                continue
            n, ops, s, b = r
            n_seq += n
            n_ops += ops
            seen |= s
            bad = bad or b
        tasks.cancel_join_thread()
        for p, _ in procs:
            p.kill()
    ev = dict(property="C22", tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking",
              coverage=dict(states=n_seq, transitions=n_ops, traces_validated_against_impl=n_seq, distinct_outcomes=len(seen),
                            rule="states: operation sequences; transitions: operations performed through the generated Python bindings; every result (and, in storage directories, every stored block) is compared with that of the Rust API for the same sequence",
                            samples=[dict(seq=[w[1][i] for i in w[2]][:6]) for w in work[:3]], notes=notes, exhaustive=not bad),
              assumptions=["the core (log) behaves as the stand-in in stubs/hypercore", "asyncio's event loop polls futures one at a time (concurrency is C11's subject)"],
              wall_s=time.time() - t0, violations=1 if bad else 0)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", "C22.json"), "w"), indent=1)
    if bad:
        violation(*bad)
        sys.stdout.flush()
        os._exit(1)
    print(f"property C22: held on {n_seq} sequences ({len(seen)} distinct outcomes, {n_ops} operations), {time.time() - t0:.1f}s")


def const_main():
    return constants(load())


if __name__ == "__main__":
    main()
