#!/usr/bin/env python3
"""Decide one property by symbolic execution of the real code.

    check.py C07 [--tier quick|thorough] [--jobs N] [--task entry:params] [--keep]

Builds the harness from /repo's current tree (LLVM IR + native binary), runs the
symbolic executor on every task of the property, replays what it reports against
the native build, validates sampled paths, and writes evidence/<id>.json.

Exit 0: held on everything within the bounds. 1: VIOLATION. 2: no answer.
"""
import argparse, fcntl, hashlib, json, os, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor, as_completed

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import tasks as T

REPO = "/repo"
ENGINE = os.path.join(HERE, "engine")
HARNESS = os.path.join(HERE, "harness")
SYMEX = os.path.join(ENGINE, "target/release/symex")
# the crate's features, switched on and off (C24); "" is how everybody builds it
VARIANTS = {"": [], "bare": ["--no-default-features"], "functions": ["--no-default-features", "--features", "functions"], "regex": ["--no-default-features", "--features", "regex"], "trace": ["--features", "trace"]}


def target(variant):
    return os.path.join(HARNESS, "target", *(["v-" + variant] if variant else []))


def native_of(variant):
    return os.path.join(target(variant), "release/harness")


def split(entry):
    """trace@h_seg: entry h_seg of the build with the feature `trace`"""
    v, _, e = entry.rpartition("@")
    return v, e
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "CARGO_INCREMENTAL", "CARGO_TARGET_DIR"):
    ENV.pop(k, None)
CRATES = ["serde_json_path", "serde_json_path_core", "serde_json_path_macros"]


class NoAnswer(Exception):
    pass


def sh(cmd, cwd, what, env=None):
    r = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(r.stdout[-6000:])
        raise NoAnswer(f"{what} failed")
    return r.stdout


def tree_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, c) for c in CRATES] + [os.path.join(HARNESS, "src")]
    files = [os.path.join(REPO, "Cargo.toml"), os.path.join(HARNESS, "Cargo.toml"), os.path.join(HARNESS, "Cargo.lock"), os.path.join(HARNESS, "sym.c"), os.path.join(HARNESS, "build.rs")]
    for r in roots:
        for d, ds, fs in os.walk(r):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            files += [os.path.join(d, f) for f in fs]
    for f in sorted(files):
        if os.path.isfile(f):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def build(variants=("",)):
    """the executor, and the harness linked with /repo's crates; returns the IR file of each variant"""
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        sh(["cargo", "build", "--release", "--offline", "-q"], ENGINE, "building the executor", dict(ENV, CARGO_TARGET_DIR=os.path.join(ENGINE, "target")))
        now = tree_hash()
        with ThreadPoolExecutor(4) as ex:
            return dict(zip(variants, ex.map(lambda v: build_variant(v, now), variants)))


def build_variant(variant, now):
    tgt = target(variant)
    env = dict(ENV, CARGO_TARGET_DIR=tgt)
    stamp = os.path.join(tgt, "tree-hash")
    old = open(stamp).read() if os.path.exists(stamp) else ""
    deps = os.path.join(tgt, "release", "deps")
    if old != now and os.path.isdir(deps):
        # never trust time stamps: the tree may have been put there with old ones
        if os.path.exists(stamp):
            os.unlink(stamp)
        for p in CRATES + ["serde_json_path_macros_internal", "harness"]:
            subprocess.run(["cargo", "clean", "--release", "--offline", "-q", "-p", p], cwd=HARNESS, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        for f in os.listdir(deps):
            if f.startswith("harness-"):
                os.unlink(os.path.join(deps, f))
    what = "building the harness with /repo" + (f" ({variant})" if variant else "")
    sh(["cargo", "rustc", "--release", "--offline", "-q"] + VARIANTS[variant] + ["--", "--emit=llvm-ir,link", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"], HARNESS, what, env)
    lls = [os.path.join(deps, f) for f in os.listdir(deps) if f.startswith("harness-") and f.endswith(".ll")]
    if len(lls) != 1 or not os.path.exists(native_of(variant)):
        raise NoAnswer(f"expected one IR file, found {lls}")
    with open(stamp, "w") as f:
        f.write(now)
    return lls[0]


def native(entry, params, model, timeout=20, fnds=None, timing=False):
    """run the compiled code on one input: (outcome, observations); timing: measure, where the entry compares costs"""
    env = dict(os.environ, HARNESS_TIMING="1") if timing else {k: v for k, v in os.environ.items() if k != "HARNESS_TIMING"}
    try:
        r = subprocess.run([native_of(split(entry)[0]), split(entry)[1], ",".join(map(str, params)), model], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        return "hang", [], ""
    obs, aid, fnd = [], None, []
    for l in r.stdout.splitlines():
        w = l.split()
        if w[:1] == ["OBS"]:
            obs.append([int(w[1]), int(w[2])])
        elif w[:1] == ["ASSERT"]:
            aid = w[1]
        elif w[:1] == ["FINDING"]:
            fnd.append(w[1])
    if fnds is not None:
        fnds += fnd
    if r.returncode == 0:
        return "ok", obs, ""
    if r.returncode == 77:
        return f"assert {aid}", obs, ""
    if r.returncode == 78:
        return "assume", obs, ""
    return ("panic" if r.returncode in (-6, 134, 101) else f"crash {r.returncode}"), obs, r.stderr[-600:]


def known_findings():
    """[{finding, properties, what}] from known-findings.json; 'fixed' entries are only a record"""
    with open(os.path.join(HERE, "known-findings.json")) as f:
        return json.load(f)["known"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--task", action="append", help="only tasks entry or entry:params")
    ap.add_argument("--keep", action="store_true", help="go on after a violation")
    a = ap.parse_args()
    t0 = time.time()
    pid = a.property
    budget = 840 if a.tier == "quick" else 6 * 3600
    per_task = 420 if a.tier == "quick" else 3600
    ts = list(T.QUICK[pid])
    if a.tier == "thorough":
        ts += [t for t in T.THOROUGH.get(pid, []) if (t[0], t[1]) not in {(x[0], x[1]) for x in ts}]
    if a.task:
        ts = [t for t in ts if any(w in (t[0], t[0] + ":" + ",".join(map(str, t[1]))) for w in a.task)]
    ts.sort(key=lambda t: -t[2])
    # deviations the harness recognises exactly (finding ids) and that are recorded for this property
    known = [k for k in known_findings() if pid in k["properties"]]
    kids = [str(k["finding"]) for k in known]

    lls = build(sorted({split(t[0])[0] for t in ts}))
    tb = time.time()
    tmp = tempfile.mkdtemp(prefix="symex-")
    stop = threading.Event()
    procs, plock = set(), threading.Lock()

    def one(t):
        entry, params, _ = t
        if stop.is_set():
            return t, None, "stopped"
        left = budget - (time.time() - t0)
        if left < 5:
            return t, None, "not run: out of time"
        lim = min(per_task, left)
        ps = ",".join(map(str, params))
        out = os.path.join(tmp, f"{entry}.{ps}.json")
        cmd = [SYMEX, "--ll", lls[split(entry)[0]], "--entry", split(entry)[1], "--params", ps, "--time", f"{lim:.0f}", "--samples", "6", "--out", out]
        if not a.keep:
            cmd += ["--stop-first"]
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        with plock:
            procs.add(p)
        try:
            log, _ = p.communicate(timeout=lim + 120)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            return t, None, "executor timed out"
        finally:
            with plock:
                procs.discard(p)
        if stop.is_set():
            return t, None, "stopped"
        if p.returncode not in (0, 1, 2) or not os.path.exists(out):
            return t, None, f"executor ended with {p.returncode}: {log[-300:]}"
        with open(out) as f:
            j = json.load(f)
        os.unlink(out)
        # sampled paths: the compiled code must observe what the executor did
        bad = 0
        for s in j["samples"]:
            oc, obs, _ = native(entry, params, s["model"])
            if oc != "ok" or obs != s["obs"]:
                bad += 1
                j["incomplete"].append(f"path not confirmed natively: {s} -> {oc} {obs}")
        j["validated"] = len(j["samples"]) - bad
        # violations: report only what the compiled code does as well
        for v in j["violations"]:
            fnds = []
            oc, obs, err = native(entry, params, v["model"], fnds=fnds, timing=True)
            want = {"assert": "assert " + v["msg"].split(" ")[0], "panic": "panic"}.get(v["kind"])
            v["replayed"] = oc == want if want else oc == "hang" or oc.startswith("crash")
            if entry in T.COSTS:
                # symbolically instructions, natively time: of several costs compared another may be the first to show
                v["replayed"] = v["replayed"] or oc == "hang" or oc.startswith("assert")
            v["outcome"], v["stderr"] = oc, err
            v["known"] = False
            if v["kind"] == "finding":
                v["replayed"] = v["msg"].split(" ")[0] in fnds
                v["known"] = v["msg"].split(" ")[0] in kids
        if any(v["replayed"] and not v["known"] for v in j["violations"]) and not a.keep:
            stop.set()
            with plock:
                for q in procs:
                    q.kill()
        return t, j, None

    done, problems, viols, found = [], [], [], {}
    try:
        with ThreadPoolExecutor(a.jobs) as ex:
            for f in as_completed([ex.submit(one, t) for t in ts]):
                t, j, err = f.result()
                name = f"{t[0]}({','.join(map(str, t[1]))})"
                if err == "stopped":
                    continue
                if err:
                    problems.append(f"{name}: {err}")
                    continue
                done.append((t, j))
                problems += [f"{name}: {m}" for m in j["incomplete"]]
                if j["unknown"]:
                    problems.append(f"{name}: {j['unknown']} queries undecided")
                for v in j["violations"]:
                    v["entry"], v["params"] = t[0], list(t[1])
                    if not v["replayed"]:
                        problems.append(f"{name}: not reproduced natively: {v['kind']} {v['msg'][:200]} on {v['model']} -> {v['outcome']}")
                    elif v["known"]:
                        found.setdefault(v["msg"].split(" ")[0], v)
                    else:
                        viols.append(v)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    # vacuity: every entry gets to where it asserts, on both sides where there are two
    if not viols and not a.task:
        for e, want in T.REACH.items():
            js = [j for t, j in done if split(t[0])[1] == e]
            got = {int(k) for j in js for k in j["reach"]}
            if js and not set(want) <= got:
                problems.append(f"{e}: never reached {sorted(set(want) - got)}")
        for t, j in done:
            if not j["reach"] and j["paths"] == 0:
                problems.append(f"{t[0]}{t[1]}: no path at all")

    for k in known:
        v = found.get(str(k["finding"]))
        if v:
            print(f"KNOWN-FINDING: property={pid} {k['what']} (e.g. {v['entry']}({','.join(map(str, v['params']))}) input {v['model']})")
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for old in os.listdir(rdir):
        if old.startswith(pid + "-"):
            os.unlink(os.path.join(rdir, old))
    for i, v in enumerate(viols[:10]):
        rp = os.path.join(rdir, f"{pid}-{i}.json")
        with open(rp, "w") as f:
            json.dump(
                {
                    "property": pid, "entry": v["entry"], "params": v["params"], "input_hex": v["model"], "input_text": bytes.fromhex(v["model"]).decode("utf8", "backslashreplace"),
                    "kind": v["kind"], "where": v["msg"], "outcome": v["outcome"], "stderr": v["stderr"],
                    "replay": f"HARNESS_TIMING=1 {native_of(split(v['entry'])[0])} {split(v['entry'])[1]} {','.join(map(str, v['params'])) or ','} {v['model'] or '00'}",
                },
                f, indent=1,
            )
        print(f"VIOLATION property={pid} replay={rp}")
        print(f"  {v['entry']}({','.join(map(str, v['params']))}): {v['kind']} {v['msg'][:300]} on input {bytes.fromhex(v['model'])!r}")
    wall = time.time() - t0
    evidence(pid, a, done, problems, viols, found, ts, wall, tb - t0)
    n = sum(j["paths"] for _, j in done)
    print(f"{pid} {a.tier}: {len(done)}/{len(ts)} tasks, {n} paths, {sum(j['queries'] for _, j in done)} queries, {sum(j['validated'] for _, j in done)} paths confirmed natively, {len(viols)} violations, build {tb - t0:.1f} s, wall {wall:.1f} s")
    if viols:
        return 1
    if problems:
        for p in problems[:20]:
            print("NO ANSWER:", p[:500])
        return 2
    return 0


def quantifier(pid):
    with open(os.path.join(HERE, "properties.jsonl")) as f:
        for l in f:
            p = json.loads(l)
            if p["id"] == pid:
                return p["quantifier"]["text"]
    return ""


def evidence(pid, a, done, problems, viols, found, ts, wall, build_s):
    sm = lambda k: sum(j[k] for _, j in done)
    funcs = {}
    for _, j in done:
        for n, c in j["functions"]:
            funcs[n] = funcs.get(n, 0) + c
    ours = sorted(n for n in funcs if "serde_json_path" in n)
    per = {}
    for t, j in done:
        e = per.setdefault(t[0], {"tasks": 0, "paths": 0, "pruned": 0, "asserts": 0, "queries": 0, "max_symbolic_bytes": 0, "reach": {}, "wall_s": 0.0, "slowest": ["", 0.0]})
        e["tasks"] += 1
        e["paths"] += j["paths"]
        e["pruned"] += j["pruned"]
        e["asserts"] += j["asserts"]
        e["queries"] += j["queries"]
        e["max_symbolic_bytes"] = max(e["max_symbolic_bytes"], j["symbolic_bytes"])
        e["wall_s"] = round(e["wall_s"] + j["wall_s"], 2)
        if j["wall_s"] > e["slowest"][1]:
            e["slowest"] = [",".join(map(str, t[1])), round(j["wall_s"], 2)]
        for k, v in j["reach"].items():
            e["reach"][k] = e["reach"].get(k, 0) + v
    samples = []
    for t, j in done:
        for s in j["samples"][:1]:
            if len(samples) < 12:
                samples.append({"entry": t[0], "params": list(t[1]), "input_hex": s["model"], "input": bytes.fromhex(s["model"]).decode("utf8", "backslashreplace"), "observed": s["obs"]})
    ev = {
        "property": pid, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
        "coverage": {
            "states": sm("paths") + sm("pruned"),
            "transitions": sm("steps"),
            "traces_validated_against_impl": sm("validated"),
            "samples": samples,
            "explanation": "states: explored symbolic execution paths (completed and pruned by an assumption), each standing for every input that satisfies its path condition; transitions: LLVM IR instructions executed symbolically; traces: sampled completed paths whose solver model was run through the compiled code with identical observations",
            "paths_completed": sm("paths"), "paths_pruned_by_assumption": sm("pruned"), "forks": sm("forks"), "assertions_evaluated": sm("asserts"),
            "solver": {"queries": sm("queries"), "sat": sm("sat"), "unsat": sm("unsat"), "undecided": sm("unknown"), "answered_from_cache": sm("cache_hits"), "decided_by_interval": sm("by_range"), "solver_s": round(sm("solver_s"), 2), "slowest_query_s": max([j["max_query_s"] for _, j in done] or [0])},
            "tasks_planned": len(ts), "tasks_completed": len(done), "by_entry": per,
            "functions_encoded": len(funcs), "functions_of_the_repository": ours,
            "bounds": quantifier(pid), "outside_the_bounds": T.OUTSIDE.get(pid, ""), "parameters": {e: " ".join(",".join(map(str, t[1])) for t, _ in done if t[0] == e)[:1500] for e in sorted({t[0] for t, _ in done})}, "known_findings_seen": sorted(found), "no_answer": problems[:20], "build_s": round(build_s, 1),
        },
        "assumptions": T.ASSUMPTIONS,
        "wall_s": round(wall, 2), "violations": len(viols),
    }
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    with open(os.path.join(HERE, "evidence", f"{pid}.times"), "w") as f:
        for t, j in sorted(done, key=lambda x: -x[1]["wall_s"]):
            f.write(f"{j['wall_s']:8.2f} {t[0]}:{','.join(map(str, t[1]))} paths {j['paths']} queries {j['queries']}\n")


if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoAnswer as e:
        print("NO ANSWER:", e)
        sys.exit(2)
