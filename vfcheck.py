"""One property: regenerate, compile, decide, replay, report."""
import concurrent.futures as cf, glob, json, os, re, sys, time
import vf

V = vf.V


def mods_of(pid):
    return sorted(os.path.basename(f)[:-3] for f in glob.glob(f"{vf.X.src}/{pid.lower()}*.rs") if re.fullmatch(pid.lower() + r"[a-z]?", os.path.basename(f)[:-3]))


def bodies(mod):
    """entry name -> source text of the entry (for the witnesses it must reach)"""
    t = open(f"{vf.X.src}/{mod}.rs").read()
    parts = re.split(r"^    fn (c\d\w*)\(\)", t, flags=re.M)
    return {parts[i]: parts[i + 1] for i in range(1, len(parts), 2)}


def meta(mod, key):
    return [l[4 + len(key) + 1:].strip() for l in open(f"{vf.X.src}/{mod}.rs").read().splitlines() if l.startswith(f"//! {key}:")]


def try_build(mods, mode):
    """all modules together, or those of them that compile"""
    try:
        return vf.build(mods, mode), mods, []
    except SystemExit:
        pass
    good, bad = [], []
    for m in mods:
        try:
            vf.build([m], mode); good.append(m)
        except SystemExit:
            bad.append(m)
    if not good:
        vf.die("no harness module of this property compiles against this tree")
    return vf.build(good, mode), good, bad


def check(pid, tier):
    t0 = time.time()
    prop = {p["id"]: p for p in vf.props()}.get(pid)
    if not prop:
        vf.die("unknown property " + pid)
    vf.world_of(pid.lower())
    mods = mods_of(pid)
    if not mods:
        vf.die("no harness for " + pid)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    vf.tools()
    vf.gen()
    vf.manifest()
    pool = cf.ThreadPoolExecutor(1)
    libs, mods, lost = try_build(mods, "sym")
    tb = time.time() - t0
    native = pool.submit(lambda: try_build(mods, "native"))
    entries, need = [], {}
    for m in mods:
        for e, body in bodies(m).items():
            if "t_" in e[:6] and tier != "thorough":
                continue
            entries.append(e)
            need[e] = sorted(set(re.findall(r'\bcover\("([^"]+)"\)', body)))
    out = f"{vf.W}/out/{pid}"
    budget = 420 if tier == "quick" else 5400
    res = vf.engine(libs, entries, budget, ["snapchain"], out)
    exe, nmods, _ = native.result()
    try:
        known = [k for k in vf.load_known() if k["property"] == pid]
    except Exception as x:
        vf.die(f"known_findings.jsonl: {x}")
    open_known = {k["id"]: k for k in known if k.get("status") == "open"}

    violations, incomplete, found, unreproduced, validated, mism = [], [], [], [], 0, []
    incomplete += [f"module {m} does not compile against this tree" for m in lost]
    os.makedirs(f"{V}/evidence/replay", exist_ok=True)
    for e, r in res.items():
        for x in r["errors"]:
            incomplete.append(f"{e}: {x}")
        cand = [dict(v, known=None) for v in r["violations"]]
        for k, v in r["known"].items():
            cand.append({"kind": "known", "msg": k, "inputs": v["inputs"], "stack": [], "known": k.split(":")[0]})
        for i, v in enumerate(cand):
            path = f"{V}/evidence/replay/{e}.{i}.trace"
            vf.write_trace(path, pid, e, v, v["stack"])
            # natively hash maps are met in a random order each time
            for _ in range(16):
                rc, txt = vf.replay(exe, e, path)
                if rc != 0:
                    break
            last = [l for l in txt.splitlines() if l.startswith("REPLAY")][-1:] or [f"exit {rc}"]
            if v["known"] is not None:
                if rc != 5:
                    unreproduced.append(f"{e}: known finding {v['msg']} did not reproduce: {last[0]}")
                elif v["known"] in open_known:
                    found.append((v["known"], open_known[v["known"]], path))
                else:
                    violations.append((e, v, path, last[0]))
            elif rc == 1 or rc < 0:
                violations.append((e, v, path, last[0]))
            else:
                unreproduced.append(f"{e}: {v['kind']} {v['msg']}: native replay says: {last[0]}")
        missing = [c for c in need[e] if not r["covers"].get(c)]
        if missing and not r["violations"]:
            incomplete.append(f"{e}: witness not reached: {', '.join(missing)}")
        # the encoding agrees with the real code on a sample of the explored paths
        for i, s in enumerate(r["samples"]):
            path = f"{out}/{e}.sample{i}.trace"
            vf.write_trace(path, pid, e, {"kind": "sample", "msg": "", "inputs": s})
            rc, txt = vf.replay(exe, e, path)
            if rc == 0:
                validated += 1
            else:
                mism.append(f"{e} sample {i}: engine completes, native run says {txt.strip().splitlines()[-1:]}")

    S = lambda k: sum(r["stats"].get(k, 0) for r in res.values())
    fns = {}
    for r in res.values():
        for f, n in r["functions"].items():
            fns[f] = fns.get(f, 0) + n
    real = sorted(f for f in fns if not f.startswith("vfh::"))
    samples = []
    for e, r in res.items():
        for s in r["samples"][:1]:
            samples.append({"entry": e, "inputs": dict((f"{n}#{i}", h[:160]) for i, (n, h) in enumerate(s))})
    assume = ["bounds: " + b for m in mods for b in meta(m, "bounds")] + [a for m in mods for a in meta(m, "assume")] + [
        "LLVM bitcode of rustc at opt-level 1 with overflow checks is what is executed; z3 is trusted; allocation never fails",
        "engine models: allocator, memcpy/memcmp, panics, blake3 (concrete: the real function; symbolic input: an injective uninterpreted function), regex automata, clock (one arbitrary instant per run), text formatting yields an empty string unless an entry asks for the real code",
    ]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": S("paths"), "transitions": S("instructions"), "traces_validated_against_impl": validated, "samples": samples[:12],
            "entries": {e: {"paths": r["stats"].get("paths"), "witnesses": r["covers"], "assertions_checked": r["stats"].get("asserts"), "assertion_queries": r["stats"].get("assert_queries"), "queries": r["stats"].get("queries"), "solver_seconds": r["stats"].get("solver_seconds"), "max_query_seconds": r["stats"].get("max_query_seconds"), "symbolic_bytes": r["stats"].get("symbolic_bytes"), "seconds": r["seconds"]} for e, r in res.items()},
            "assertions_checked": S("asserts"), "solver_queries": S("queries"), "sat": S("sat"), "unsat": S("unsat"), "unknown": S("unknown"),
            "solver_seconds": round(S("solver_seconds"), 3), "state_merges": S("merges"), "forks": S("forks"),
            "functions_encoded": {f: fns[f] for f in real}, "functions_encoded_incl_std": max([r["functions_encoded_total"] for r in res.values()] or [0]),
            "bounds": [b for m in mods for b in meta(m, "bounds")], "incomplete": incomplete, "exhaustive": not incomplete,
            "sample_mismatches": mism, "not_reproduced": unreproduced,
            "known_findings": sorted({k for k, _, _ in found}), "build_s": round(tb, 1),
        },
        "assumptions": assume, "wall_s": round(time.time() - t0, 1), "violations": len(violations),
    }
    os.makedirs(V + "/evidence", exist_ok=True)
    with open(f"{V}/evidence/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid} {tier}: {len(res)} entries, {S('paths')} paths, {S('asserts')} assertions, {S('queries')} queries, {S('solver_seconds'):.1f} s solver, {len(real)} functions of the tree encoded, {validated} sample paths replayed, {time.time()-t0:.0f} s")
    for x in incomplete + mism:
        print("INCOMPLETE " + x[:400])
    for x in unreproduced:
        print("NOT-REPRODUCED " + x[:400])
    for k, d, p in {k: (k, d, p) for k, d, p in found}.values():
        print(f"KNOWN-FINDING: property={pid} {d['what']}")
    for e, v, p, last in violations:
        print(f"  {e}: {v['kind']}: {v['msg']}  [{last}]")
        print(f"VIOLATION property={pid} replay={p}")
    if violations:
        return 1
    if mism:
        return 2
    witnessed = [e for e, r in res.items() if not [c for c in need[e] if not r["covers"].get(c)]]
    if not witnessed:
        return 2
    return 0
