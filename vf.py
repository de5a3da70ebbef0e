#!/usr/bin/env python3
"""Driver: regenerate the checked tree from /repo, compile it to LLVM bitcode, decide the harness
assertions with the symbolic executor, replay counterexamples natively, write evidence.

  vf.py setup                 build the executor, the tools and the dependencies
  vf.py check ID [--tier T]   decide one property
  vf.py run ENTRY...          development: run entries, print what happened
  vf.py replay FILE           run a recorded counterexample against the real code
"""
import glob, json, os, re, shutil, subprocess, sys, time, hashlib

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
W = os.environ.get("VF_WORK", os.path.join(V, "work"))
SUB = "/opt/vp/subset"
TRIPLE = "x86_64-unknown-linux-gnu"


class World:
    """1: what builds in this sandbox, as it is.  2: also what stands on RocksDB and malachite, over stand-ins for them"""
    def __init__(self, n):
        s = "" if n == 1 else "2"
        self.n, self.tree, self.h, self.src = n, f"{W}/tree{s}", f"{W}/h{s}", f"{V}/harness{s}/src"
        self.conf, self.toml, self.libs = f"{V}/tools/{'subset' if n == 1 else 'full'}.conf", f"{V}/harness{s}/Cargo.toml.in", f"{W}/libs{s}.txt"

    def mods(self):
        return sorted(os.path.basename(f)[:-3] for f in glob.glob(self.src + "/c[0-9]*.rs"))


X = World(1)


def world(n):
    global X
    X = World(n)


def world_of(mod):
    """select the world that has this harness module (or a module of this property)"""
    for n in (1, 2):
        if any(m == mod or re.fullmatch(mod + "[a-z]", m) for m in World(n).mods()):
            world(n)
            return True
    return False


def env(mode="sym"):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") or k in ("RUSTFLAGS", "RUSTDOCFLAGS"):
            if k not in ("CARGO_HOME",):
                del e[k]
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="stable-" + TRIPLE, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0",
             CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUST_BACKTRACE="0",
             PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    if mode == "sym":
        e["RUSTFLAGS"] = "-Awarnings -Clinker-plugin-lto -Cno-vectorize-loops -Cno-vectorize-slp --cfg symex"
        e["CARGO_TARGET_DIR"] = W + "/target"
    elif mode == "native":
        e["RUSTFLAGS"] = "-Awarnings"
        e["CARGO_TARGET_DIR"] = W + "/native"
    else:
        e["RUSTFLAGS"] = "-Awarnings"
        e["CARGO_TARGET_DIR"] = W + "/tools"
    return e


def put(path, text):
    if not os.path.exists(path) or open(path).read() != text:
        os.makedirs(os.path.dirname(path), exist_ok=True)
        open(path, "w").write(text)


def sh(cmd, **kw):
    return subprocess.run(cmd, **kw)


def die(msg, code=2):
    print("NO-ANSWER: " + msg)
    sys.exit(code)


def tools():
    for d in ("engine", "tools/gen"):
        r = sh(["cargo", "build", "--release", "--offline", "--quiet", "--manifest-path", f"{V}/{d}/Cargo.toml"], env=env("tools"))
        if r.returncode:
            die(f"{d} does not build")


ENGINE = lambda: W + "/tools/release/symex"
GONE = re.compile(r"^(informalsystems-malachitebft-[\w-]+|pre-commit)\s*=")
FEATURES = {'moka = { version = "0.12.10", features = ["future"] }': 'moka = { version = "0.12.10", features = ["future", "sync"] }'}


def gen():
    """mirror /repo into work/tree"""
    tree = X.tree
    os.makedirs(tree, exist_ok=True)
    for rel in ("Cargo.toml", "proto/Cargo.toml", "cli/Cargo.toml"):
        lines = open(f"{REPO}/{rel}").read().splitlines()
        out = []
        dev = False
        for l in lines:
            if l.startswith("["):
                dev = l.strip() in ("[dev-dependencies]", "[package.metadata.precommit]")
            m = re.match(r"^informalsystems-malachitebft-([\w-]+)\s*=", l)
            if m and X.n == 2 and not dev and os.path.exists(f"{V}/shims2/{m.group(1)}"):
                out.append(f'informalsystems-malachitebft-{m.group(1)} = {{ path = "{V}/shims2/{m.group(1)}" }}')
                continue
            if dev or GONE.match(l) or l.startswith("default-run"):
                continue
            l = FEATURES.get(l, l)
            if re.match(r"^rocksdb\s*=", l):
                l = f'rocksdb = {{ path = "{V}/shims2/rocksdb" }}' if X.n == 2 else ""
            if re.match(r"^ed25519-dalek\s*=", l):
                l = f'ed25519-dalek = {{ path = "{V}/shims/ed25519-dalek", features = ["batch"] }}'
            if re.match(r"^fancy-regex\s*=", l):
                l = f'fancy-regex = {{ path = "{V}/shims/fancy-regex" }}'
            out.append(l)
        put(f"{tree}/{rel}", "\n".join(out) + "\n")
    r = sh([W + "/tools/release/gen", REPO, tree, X.conf, SUB + "/words.txt"])
    if r.returncode:
        die("tree generation failed")
    if X.n == 2:
        for f in glob.glob(V + "/shims2/overlay/**/*.rs", recursive=True):
            put(tree + f[len(V + "/shims2/overlay"):], open(f).read())


PATCHED = {"alloy-primitives": [("src/signature/sig.rs", r"#\[inline\]\s*pub fn recover_address_from_prehash", "#[inline(never)]\n    pub fn recover_address_from_prehash"), ("src/utils/mod.rs", r"#\[allow\(unused\)\]\s*fn keccak256_impl", "#[inline(never)]\nfn keccak256_impl"),
    ("src/bits/address.rs", r"None => hasher\.update\(&buf\[2\.\.\]\),\n\s*\}\n\s*let hash = hasher\.finalize\(\);", "None => {}\n        }\n        let hash = if chain_id.is_none() { crate::keccak256(&buf[2..]) } else { hasher.finalize() };")],
    "quanta": [("src/lib.rs", r"if detection::has_counter_support\(\)", "if false")]}


def patched():
    """copies of dependencies in which the functions the executor models are kept out of line"""
    out = ""
    lock = open(REPO + "/Cargo.lock").read()
    for name, edits in PATCHED.items():
        vs = re.findall(r'name = "%s"\nversion = "([^"]+)"' % name, lock)
        for v in vs:
            src = glob.glob(f"{os.environ.get('CARGO_HOME', '/root/.cargo')}/registry/src/*/{name}-{v}")
            if not src:
                continue
            dst = f"{W}/patch/{name}-{v}"
            if not os.path.exists(dst + "/.done"):
                shutil.rmtree(dst, ignore_errors=True)
                shutil.copytree(src[0], dst)
                for f, a, b in edits:
                    t = open(f"{dst}/{f}").read()
                    t, n = re.subn(a, b, t)
                    if n != 1:
                        die(f"{name}-{v}: {f} not as expected")
                    open(f"{dst}/{f}", "w").write(t)
                open(dst + "/.done", "w").write("")
            out += f'{name} = {{ path = "{dst}" }}\n'
    return out


def props():
    return [json.loads(l) for l in open(V + "/properties.jsonl") if l.strip()]


def manifest():
    h = X.h
    mods = X.mods()
    lib = open(X.src + "/lib.rs").read()
    missing = [m for m in mods if f'"{m}" {m}' not in lib]
    if missing:
        die("harness/src/lib.rs does not list " + " ".join(missing))
    t = open(X.toml).read().replace("@V@", V)
    t = t.replace("@FEATURES@", "\n".join(f"{m} = []" for m in mods))
    deps = []
    for l in open(f"{X.tree}/Cargo.toml").read().splitlines():
        if re.match(r"^(prost|alloy-primitives|ed25519-dalek|hex|blake3|serde|serde_json|tokio|tonic|base64|bytes|rocksdb|figment|futures|chrono|toml|libp2p|clap|bs58|alloy-sol-types|strum|strum_macros|sha2|hyper|serde_qs|cadence|informalsystems-malachitebft-core-types)\s*=", l):
            deps.append(l)
    t = t.replace("@DEPS@", "\n".join(deps)) + "\n[patch.crates-io]\n" + patched()
    put(h + "/Cargo.toml", t)
    lock = open(REPO + "/Cargo.lock").read()
    stamp = h + "/.repo-lock"
    if not os.path.exists(stamp) or open(stamp).read() != lock or not os.path.exists(h + "/Cargo.lock"):
        put(h + "/Cargo.lock", lock)
        put(stamp, lock)


def build(mods, mode="sym"):
    manifest()
    cmd = ["cargo", "build", "--offline", "--manifest-path", X.h + "/Cargo.toml", "--message-format=json-render-diagnostics"]
    if mode == "sym":
        cmd += ["--target", TRIPLE, "--lib", "--features", ",".join(mods)]
    else:
        cmd += ["--bin", "replay", "--features", ",".join(list(mods) + ["replay"])]
    p = sh(cmd, env=env(mode), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode:
        sys.stderr.write(p.stderr[-6000:])
        die(f"the checked tree or the harness does not build ({mode})")
    libs, exe = [], None
    for l in p.stdout.splitlines():
        if not l.startswith("{"):
            continue
        m = json.loads(l)
        if m.get("reason") != "compiler-artifact":
            continue
        if mode == "sym":
            libs += [f for f in m["filenames"] if f.endswith(".rlib") and f"/{TRIPLE}/" in f]
        elif m.get("executable") and m["target"]["name"] == "replay":
            exe = m["executable"]
    if mode != "sym":
        return exe
    root = subprocess.run(["rustc", "--print", "sysroot"], env=env(), capture_output=True, text=True).stdout.strip()
    libs.reverse()
    libs += sorted(glob.glob(f"{root}/lib/rustlib/{TRIPLE}/lib/*.rlib"))
    path = X.libs
    open(path, "w").write("\n".join(libs) + "\n")
    return path


def entries_of(mod):
    t = open(f"{X.src}/{mod}.rs").read()
    return re.findall(r"^    fn (c\d\w*)\(\)", t, re.M)


def mod_of(e):
    for n in (1, 2):
        world(n)
        for m in X.mods():
            if e == m or e in entries_of(m):
                return m
    die("no entry " + e)


def engine(libs, entries, budget, focus, out, verbose=False, jobs=8):
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    cmd = [ENGINE(), "--libs", libs, "--out", out, "--budget", str(budget), "--jobs", str(jobs)]
    for e in entries:
        cmd += ["--entry", e]
    for f in focus:
        cmd += ["--focus", f]
    if verbose:
        cmd.append("-v")
    sh(cmd)
    res = {}
    for e in entries:
        f = f"{out}/{e}.json"
        res[e] = json.load(open(f)) if os.path.exists(f) else {"entry": e, "errors": ["the executor ended without a result"], "violations": [], "covers": {}, "known": {}, "stats": {}, "functions": {}, "notes": [], "functions_encoded_total": 0, "samples": [], "seconds": 0}
    return res


def write_trace(path, prop, entry, v, stack=()):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(f"# property={prop} entry={entry}\n# {v.get('kind')}: {v.get('msg')}\n")
        for s in list(stack)[:12]:
            f.write(f"#   in {s}\n")
        for n, h in v["inputs"]:
            f.write(f"{n}={h}\n")


def replay(exe, entry, path):
    try:
        p = subprocess.run([exe, entry, path], capture_output=True, text=True, timeout=120, errors="replace")
        return p.returncode, p.stdout[-3000:] + p.stderr[-1000:]
    except subprocess.TimeoutExpired:
        return 1, "REPLAY: the real code did not finish within 120 s"


def show(res):
    for e, r in res.items():
        s = r["stats"]
        print(f"{e}: {r['seconds']:.1f}s paths={s.get('paths')} returns={s.get('returns')} assume={s.get('assume_ends')} forks={s.get('forks')} merges={s.get('merges')}/{s.get('merge_fail')} instr={s.get('instructions')} q={s.get('queries')} ({s.get('solver_seconds')}s, max {s.get('max_query_seconds')}) asserts={s.get('asserts')}/{s.get('assert_queries')} conc={s.get('concretisations')} expr={s.get('expressions')} covers={r['covers']} known={list(r['known'])} {r['notes']}")
        for x in sorted(set(r["errors"]))[:3]:
            print("   ERROR", x[:400])
        for v in r["violations"]:
            print("   VIOLATION", v["kind"], v["msg"], " < ".join(v["stack"][:8]))
            for n, h in v["inputs"]:
                print("      ", n, h)


def load_known():
    k = []
    f = V + "/known_findings.jsonl"
    if os.path.exists(f):
        k = [json.loads(l) for l in open(f) if l.strip()]
    return k


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    os.makedirs(W, exist_ok=True)
    if a[0] == "setup":
        tools()
        for n in (1, 2):
            world(n)
            mods = X.mods()
            if not mods:
                continue
            gen()
            t0 = time.time()
            build(mods, "sym")
            print(f"world {n}: bitcode build {time.time()-t0:.0f}s", flush=True)
            t0 = time.time()
            build(mods, "native")
            print(f"world {n}: native build {time.time()-t0:.0f}s", flush=True)
        return 0
    if a[0] == "run":
        verbose = "-v" in a
        budget = 300
        if "-b" in a:
            i = a.index("-b"); budget = float(a[i + 1]); del a[i:i + 2]
        norep = "-n" in a
        ents = [x for x in a[1:] if not x.startswith("-")]
        tools()
        mods = sorted({mod_of(e) for e in ents})
        gen()
        t0 = time.time()
        libs = build(mods)
        print(f"build {time.time()-t0:.1f}s", flush=True)
        allents = []
        for e in ents:
            allents += [e] if "_" in e else entries_of(e)
        res = engine(libs, allents, budget, ["snapchain"], W + "/out/run", verbose)
        show(res)
        bad = [(e, v) for e, r in res.items() for v in r["violations"]]
        bad += [(e, {"kind": "known", "msg": k, "inputs": v["inputs"], "stack": []}) for e, r in res.items() for k, v in r["known"].items()]
        if bad and not norep:
            exe = build(mods, "native")
            for i, (e, v) in enumerate(bad):
                p = f"{W}/out/run/{e}.{i}.trace"
                write_trace(p, "-", e, v, v["stack"])
                print(p, *replay(exe, e, p))
        return 0
    if a[0] == "replay":
        head = open(a[1]).readline()
        m = re.search(r"entry=(\S+)", head)
        mod = mod_of(m.group(1))
        tools(); gen()
        exe = build([mod], "native")
        rc, out = replay(exe, m.group(1), a[1])
        print(out)
        return rc
    if a[0] == "check":
        import vfcheck
        return vfcheck.check(a[1], a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick"))
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.path.insert(0, V)
    sys.exit(main())
