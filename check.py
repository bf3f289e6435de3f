#!/usr/bin/env python3
"""check.py <property> : runs the static analyser over /repo and reports on one property."""
import json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
NIGHTLY = "+nightly"
BUDGET = 640  # seconds for the analysis; what is not analysed by then is reported as undecided
CONFIGS = json.load(open(os.path.join(HERE, "configs.json")))


def sh(args, **kw):
    return subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_driver():
    tgt = os.path.join(HERE, "target")
    r = sh(["bash", os.path.join(HERE, "driver/build.sh"), tgt])
    if r.returncode != 0:
        print(r.stdout[-3000:])
        print("ERROR: the analyser does not build")
        sys.exit(2)
    return os.path.join(tgt, "release/bsa")


def build_core(target, scratch):
    """metadata of the core library for a target that is not installed; returns its sysroot"""
    sysroot = sh(["rustc", NIGHTLY, "--print", "sysroot"]).stdout.strip()
    root = os.path.join(scratch, "core-" + target)
    lib = os.path.join(root, "lib/rustlib", target, "lib")
    os.makedirs(lib)
    env = dict(os.environ, RUSTC_BOOTSTRAP="1")
    common = ["rustc", NIGHTLY, "--target", target, "--crate-type", "rlib", "--emit=metadata", "-Zalways-encode-mir", "-Zmir-opt-level=0", "-Cpanic=abort", "--cap-lints", "allow"]
    r = sh(common + ["--edition", "2024", "--crate-name", "core", os.path.join(sysroot, "lib/rustlib/src/rust/library/core/src/lib.rs"), "-o", os.path.join(lib, "libcore.rmeta")], env=env)
    if r.returncode != 0:
        return None
    cb = os.path.join(root, "cb.rs")
    with open(cb, "w") as f:
        f.write("#![feature(compiler_builtins)]\n#![compiler_builtins]\n#![no_std]\n")
    r = sh(common + ["--edition", "2021", "--crate-name", "compiler_builtins", "--sysroot", root, cb, "-o", os.path.join(lib, "libcompiler_builtins.rmeta")], env=env)
    return root if r.returncode == 0 else None


def run_config(bsa, prop, cfg, scratch, tier, budget, core=None):
    """analyse one build configuration of the crate; returns the analyser's report"""
    if "target" in cfg and core is None:
        return {"config": cfg["name"], "code": -1, "log": "the core library for this target could not be built", "report": None, "wall_s": 0}
    out = os.path.join(scratch, cfg["name"] + ".json")
    sysroot = sh(["rustc", NIGHTLY, "--print", "sysroot"]).stdout.strip()
    env = dict(os.environ)
    env.update(
        BSA_RUSTC=sysroot + "/bin/rustc",
        LD_LIBRARY_PATH=sysroot + "/lib",
        RUSTC_WRAPPER=bsa,
        RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Zmir-enable-passes=-CheckAlignment,-CheckNull " + (" --sysroot " + core if core else "") + " " + cfg.get("rustflags", ""),
        RUST_MIN_STACK="2000000000",
        BSA_PROPS=",".join(CONFIGS["properties"][prop].get("of", [prop])),
        BSA_OUT=out,
        BSA_CONFIG=cfg["name"],
        BSA_TIER=tier,
        BSA_TOTAL=str(int(budget)),
        CARGO_NET_OFFLINE="true",
    )
    cmd = ["cargo", NIGHTLY, "check", "--offline", "--target-dir", os.path.join(scratch, "t-" + cfg["name"])] + cfg.get("args", [])
    if "target" in cfg:
        cmd += ["--target", cfg["target"]]
    t0 = time.time()
    limit = budget + 60
    try:
        r = sh(cmd, cwd=os.path.join(HERE, cfg.get("crate", "harness")), env=env, timeout=limit)
        log = r.stdout
        code = r.returncode
    except subprocess.TimeoutExpired as e:
        log = (e.stdout or b"").decode() if isinstance(e.stdout, bytes) else (e.stdout or "")
        code = -1
    rep = None
    if os.path.exists(out):
        rep = json.load(open(out))
    return {"config": cfg["name"], "code": code, "log": log, "report": rep, "wall_s": round(time.time() - t0, 2)}


def known():
    out = []
    for l in open(os.path.join(HERE, "known-findings.txt")):
        l = l.strip()
        if l.startswith("finding: "):
            prop, _, rest = l[len("finding: property="):].partition(" ")
            out.append((prop, rest))
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    meta = CONFIGS["properties"][prop]
    bsa = build_driver()
    scratch = tempfile.mkdtemp(prefix="bsa-")
    res = []
    try:
        names = meta["configs"] + (meta.get("more", []) if tier == "thorough" else [])
        cfgs = [next(c for c in CONFIGS["configs"] if c["name"] == n) for n in names]
        with ThreadPoolExecutor(4) as ex:
            cores = dict(zip(names, ex.map(lambda c: build_core(c["target"], scratch) if "target" in c else None, cfgs)))
        for i, cfg in enumerate(cfgs):
            left = BUDGET - (time.time() - t0)
            res.append(run_config(bsa, prop, cfg, scratch, tier, max(30, left / (len(cfgs) - i)), cores[cfg["name"]]))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    ok, unk, bad, notes, fns, stats = [], [], [], {}, {}, {}
    err = []
    for r in res:
        rep = r["report"]
        if rep is None:
            # no report: the crate does not compile (no answer), or the analyser failed (nothing was decided)
            err.append({"config": r["config"], "log": r["log"][-3000:], "compile": r["code"] not in (-1, 0) and "error[E" in r["log"] or "error: could not compile `blake2s_simd`" in r["log"] and "panicked" not in r["log"]})
            if not err[-1]["compile"]:
                unk.append([r["config"], "all", 1, "the analyser failed"])
            continue
        of = meta.get("of", [prop])
        for p, w, n in rep["ok"]:
            if p in of:
                ok.append([r["config"], w, n])
        for p, w, n, y in rep["unk"]:
            if p in of:
                unk.append([r["config"], w, n, y])
        for b in rep["bad"]:
            if b["prop"] in of:
                b["config"] = r["config"]
                bad.append(b)
        for k, v in rep["notes"].items():
            notes[r["config"] + ": " + k] = v
        fns[r["config"]] = rep.get("functions", [])
        stats[r["config"]] = rep.get("stats", {})
    if "of" in meta:
        # what is wrong everywhere is the same everywhere
        wrong = {(b["config"], b["what"]) for b in bad}
        open_ = {(c, w) for c, w, _, _ in unk}
        done = [r["config"] for r in res if r["report"] is not None]
        same = []
        for b in bad:
            b["prop"] = prop
            b["holds_in"] = [c for c in done if (c, b["what"]) not in wrong and (c, b["what"]) not in open_ and not any(c == d for d, _ in open_)]
            if not b["holds_in"]:
                same.append(b)
        for b in same:
            bad.remove(b)
            unk.append([b["config"], b["what"], 1, "wrong in every configuration that was decided: " + b["msg"]])
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    kn = known()
    fresh, listed = [], []
    for b in bad:
        k = next((x for x in kn if x[0] == prop and x[1] == b["what"]), None)
        (listed if k else fresh).append(b)
    n_ok = sum(x[2] for x in ok)
    n_unk = sum(x[2] for x in unk)
    cov = {
        "explanation": meta["explanation"],
        "rule": meta["rule"],
        "obligations_discharged": n_ok,
        "obligations_undecided": n_unk,
        "violations": len(fresh),
        "distinct_obligations": len(ok) + len(unk) + len(bad),
        "configurations": [{"name": r["config"], "wall_s": r["wall_s"], "analysed": r["report"] is not None} for r in res],
        "obligations": [{"config": c, "obligation": w, "cases": n} for c, w, n in ok],
        "undecided": [{"config": c, "obligation": w, "cases": n, "why": y} for c, w, n, y in unk],
        "notes": notes,
        "functions": fns,
        "stats": stats,
    }
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "other", "coverage": cov, "wall_s": round(time.time() - t0, 2)}
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for e in err:
        print(e["log"])
        print("ERROR: configuration %s could not be analysed" % e["config"])
    for c, w, n, y in unk:
        print("UNDECIDED [%s] %s (%d cases): %s" % (c, w, n, y))
    for b in listed:
        print("KNOWN-FINDING: property=%s %s" % (prop, b["what"]))
    print("%s: %d cases of %d obligations hold, %d undecided, %d violated" % (prop, n_ok, len(ok), n_unk, len(fresh)))
    if fresh:
        path = os.path.join(HERE, "evidence", prop + ".violation.json")
        with open(path, "w") as f:
            json.dump(fresh, f, indent=1)
        for b in fresh[:10]:
            print("  [%s] %s: %s\n    at %s\n    when %s" % (b["config"], b["what"], b["msg"], b["loc"], b["witness"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    if any(e["compile"] for e in err):
        sys.exit(2)
    sys.exit(0)


main()
