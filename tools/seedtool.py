#!/usr/bin/env python3
"""Development: plant a bug in /repo, confirm it (builds, tests pass, demo fails only with it), run the check, undo.
  seedtool.py new FILE.py     define and confirm the bugs of FILE (calls seed(...))
  seedtool.py check ID...     apply each, run its property's check, undo
"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if "stable" in json.load(open("/opt/vp/BASELINE.json")) else None
DEMO = r'''#!/bin/bash
# compiles demo.rs against the library that build.sh has just built, and runs it
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
T=/opt/vp/subset/tree/target/debug
d=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -r -- "$d"' EXIT
ext=()
for c in snapchain @CRATES@; do
    f=$(ls -t "$T"/deps/lib$c-*.rlib | head -1)
    ext+=(--extern "$c=$f")
done
for o in "$T"/build/*/out; do ext+=(-L "native=$o"); done
rustc --edition 2021 -Awarnings -o "$d/demo" "$here/demo.rs" "${ext[@]}" -L "dependency=$T/deps" || exit 9
cd "$d" && ./demo
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def undo():
    sh("git -C /repo checkout -- .")


def build():
    p = sh("bash /opt/vp/build.sh")
    return p.returncode, p.stdout[-1500:] + p.stderr[-3000:]


def tests():
    p = sh("bash /opt/vp/test.sh /tmp/seed.out.json")
    o = json.load(open("/tmp/seed.out.json"))
    return o


def demo(d):
    try:
        p = sh(f"bash {d}/demo.sh", cwd=R, timeout=300)
        return p.returncode, (p.stdout + p.stderr)[-600:]
    except subprocess.TimeoutExpired:
        return -1, "timeout"


def write(id, prop, edits, rs, needs, breaks, crates="prost", sh_=None, files={}):
    d = f"{V}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    undo()
    for f, a, b in edits:
        t = open(f"{R}/{f}").read()
        assert t.count(a) == 1, (id, f, t.count(a), a)
        open(f"{R}/{f}", "w").write(t.replace(a, b))
    open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    undo()
    if rs is not None:
        open(d + "/demo.rs", "w").write(rs.lstrip("\n"))
        open(d + "/demo.sh", "w").write(DEMO.replace("@CRATES@", crates))
    else:
        open(d + "/demo.sh", "w").write(sh_)
    for n, t in files.items():
        open(f"{d}/{n}", "w").write(t)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    return d


SEEDS = []


def seed(id, *a, **k):
    SEEDS.append((id, write(id, *a, **k)))


def check(id):
    d = f"{V}/seeded/{id}"
    p = json.load(open(d + "/meta.json"))["property"]
    assert sh(f"git -C /repo apply {d}/patch.diff").returncode == 0
    r = sh(f"python3 {V}/vf.py check {p}", cwd=V)
    undo()
    print(f"{id}: check {p} exit {r.returncode}", [l for l in r.stdout.splitlines() if "VIOLATION" in l or "NO-ANSWER" in l or "INCOMPLETE" in l or l.startswith("  ")][:4], flush=True)
    return r.returncode


def main():
    if sys.argv[1] == "check":
        for i in sys.argv[2:]:
            check(i)
        return
    exec(open(sys.argv[2]).read(), globals())
    undo()
    rc, t = build()
    assert rc == 0, t
    for id, d in SEEDS:
        rc, t = demo(d)
        print(f"{id}: unchanged tree: demo exit {rc}", "" if rc == 0 else t, flush=True)
    if "nocheck" in sys.argv:
        return
    for id, d in SEEDS:
        assert sh(f"git -C /repo apply {d}/patch.diff").returncode == 0
        rc, t = build()
        if rc:
            undo(); print(f"{id}: DOES NOT BUILD", t); continue
        o = tests()
        failed = o.get("failed", o)
        rc, t = demo(d)
        undo()
        print(f"{id}: passed {len(o.get('passed', []))}, failed {failed}; demo exit {rc} {t.strip()[-200:]}", flush=True)
        check(id)
    undo()
    build()


main()
