#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ from specs.py, and try each: gen.py [verify] [ID...]"""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(os.path.dirname(HERE))
sys.path.insert(0, HERE)
from specs import SPECS
W = "/tmp/seedwork/repo"


def sh(*a, **k):
    return subprocess.run(a, text=True, capture_output=True, **k)


def scratch():
    if not os.path.isdir(W):
        os.makedirs(os.path.dirname(W), exist_ok=True)
        subprocess.check_call(["cp", "-a", "/repo", W])
    subprocess.check_call(["git", "-C", W, "fetch", "-q", "/repo", "HEAD"])
    subprocess.check_call(["git", "-C", W, "checkout", "-q", "-f", "FETCH_HEAD"])


def write(id, s):
    d = os.path.join(ROOT, "seeded", id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    scratch()
    for f, old, new in s["edits"]:
        p = os.path.join(W, f)
        t = open(p).read()
        assert t.count(old) == 1, (id, f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    diff = sh("git", "-C", W, "diff").stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    # every changed line of the original repository
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    subprocess.check_call(["cp", "-r", os.path.join(ROOT, "stubs"), os.path.join(d, "stubs")])
    extra = s.get("kind", "demo")
    if extra == "demo":
        shutil.copy(os.path.join(HERE, "demo.sh"), d)
        shutil.copy(os.path.join(HERE, "util.rs"), d)
        shutil.copy(os.path.join(HERE, "Cargo.lock"), d)
        open(os.path.join(d, "demo.rs"), "w").write(s["demo"].lstrip("\n"))
    else:
        for f, t in s["files"].items():
            if t.startswith("@"):
                shutil.copy(os.path.join(ROOT, t[1:]), os.path.join(d, f))
            else:
                open(os.path.join(d, f), "w").write(t.lstrip("\n"))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    sh("git", "-C", W, "checkout", "-q", "-f", ".")


def verify(id):
    """demo on the unchanged tree passes; with the patch: demo fails. (vcheck does the rest)"""
    d = os.path.join(ROOT, "seeded", id)
    scratch()
    a = sh("bash", os.path.join(d, "demo.sh"), cwd=W)
    subprocess.check_call(["git", "-C", W, "apply", os.path.join(d, "patch.diff")])
    b = sh("bash", os.path.join(d, "demo.sh"), cwd=W)
    sh("git", "-C", W, "checkout", "-q", "-f", ".")
    ok = a.returncode == 0 and b.returncode not in (0, 3)
    print(id, "OK" if ok else "BAD", a.returncode, b.returncode, flush=True)
    if not ok:
        print(a.stdout[-1500:], a.stderr[-1500:], "--- patched:", b.stdout[-1500:], b.stderr[-1500:])
    else:
        print("     ", (b.stderr.strip().splitlines() or ["?"])[-2:] if b.stderr else b.stdout[-200:])
    return ok


if __name__ == "__main__":
    a = sys.argv[1:]
    v = a and a[0] == "verify"
    ids = a[1:] if v else a
    for id, s in SPECS.items():
        if ids and id not in ids:
            continue
        write(id, s)
        if v:
            verify(id)
