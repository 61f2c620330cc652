#!/usr/bin/env python3
"""check.py PROPERTY | --setup | --replay PROPERTY ENTRY FILE | --all [PROPERTY...]

Decides one property: rebuilds the harness against /repo's working tree, extracts the whole-program
LLVM IR, lets symx explore every path of the property's harnesses with Z3, replays what it finds
(and a sample of what it did not object to) in the natively compiled harness.
Exit 0 held, 1 VIOLATION, 2 no answer.
"""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(HERE, "build")
REPO = "/repo"
sys.path.insert(0, HERE)
from checks import CHECKS, CLOCK_FNS  # noqa: E402

ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
    ENV.pop(k, None)
JOBS = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4))


class NoAnswer(Exception):
    pass


def run(cmd, env=None, cwd=None, timeout=None):
    return subprocess.run(cmd, env=env or ENV, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE,
                          stderr=subprocess.PIPE, text=True, errors="replace", stdin=subprocess.DEVNULL)


def tree_hash(*roots):
    h = hashlib.sha256()
    for r in roots:
        for d, ds, fs in os.walk(r):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "build"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock", ".c")):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()


def build_engine():
    src = os.path.join(HERE, "engine")
    tgt = os.path.join(BUILD, "engine")
    exe = os.path.join(tgt, "release", "symx")
    stamp = os.path.join(tgt, "stamp")
    h = tree_hash(src)
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h:
        return exe
    os.makedirs(tgt, exist_ok=True)
    r = run(["cargo", "build", "--release", "--offline"], env=dict(ENV, CARGO_TARGET_DIR=tgt), cwd=src)
    if r.returncode:
        raise NoAnswer("engine does not build:\n" + r.stderr[-3000:])
    open(stamp, "w").write(h)
    return exe


def build_harness(feature):
    """Native binary and whole-program IR of the harness, from /repo's current tree."""
    src = os.path.join(HERE, "harness")
    tgt = os.path.join(BUILD, "h-" + feature)
    os.makedirs(tgt, exist_ok=True)
    h = tree_hash(REPO + "/src", src, os.path.join(HERE, "model")) + tree_hash(os.path.join(HERE, "bin"))
    h += hashlib.sha256(open(REPO + "/Cargo.toml", "rb").read() + open(HERE + "/bin/extract.sh", "rb").read()).hexdigest()
    stamp = os.path.join(tgt, "stamp")
    exe = os.path.join(tgt, "debug", "harness")
    ll = os.path.join(tgt, "harness.ll")
    if os.path.exists(stamp) and open(stamp).read() == h and os.path.exists(ll) and os.path.exists(exe):
        return exe, ll
    # never trust time stamps for the crate under test
    for d in glob.glob(os.path.join(tgt, "debug", ".fingerprint", "rust-raknet-*")) + \
            glob.glob(os.path.join(tgt, "debug", ".fingerprint", "harness-*")):
        shutil.rmtree(d)
    for f in glob.glob(os.path.join(tgt, "debug", "deps", "harness*")):
        os.remove(f)
    env = dict(ENV, CARGO_TARGET_DIR=tgt, RUSTFLAGS="--cfg rust_raknet_verif")
    r = run(["cargo", "rustc", "--offline", "--locked", "--bin", "harness", "--features", feature, "--",
             "-C", "save-temps"], env=env, cwd=src)
    if r.returncode:
        raise NoAnswer("harness does not build against /repo:\n" + r.stderr[-4000:])
    bc = glob.glob(os.path.join(tgt, "debug", "deps", "*lto.after-restriction.bc"))
    if len(bc) != 1:
        raise NoAnswer("expected one LTO module, got %r" % bc)
    names = run([exe]).stdout.split()
    r = run(["bash", os.path.join(HERE, "bin", "extract.sh"), bc[0], ll, ",".join(names)])
    if r.returncode:
        raise NoAnswer("IR extraction failed:\n" + r.stderr[-3000:])
    for f in glob.glob(os.path.join(tgt, "debug", "deps", "*.bc")) + glob.glob(os.path.join(tgt, "debug", "deps", "*.o")):
        os.remove(f)
    open(stamp, "w").write(h)
    return exe, ll


def explore(symx, ll, entry, outdir, timeout, opts):
    if os.path.isdir(outdir):
        shutil.rmtree(outdir)
    os.makedirs(outdir)
    cmd = [symx, ll, "--entry", entry, "--out", outdir, "--jobs", str(JOBS), "--timeout", str(timeout),
           "--witnesses", str(opts.get("witnesses", 2)), "--max-steps", str(opts.get("max_steps", 20_000_000))]
    for c in CLOCK_FNS if opts.get("clock") else ():
        cmd += ["--clock-fn", c]
    t = time.time()
    try:
        r = run(cmd, timeout=timeout + 60)
    except subprocess.TimeoutExpired:
        raise NoAnswer(f"{entry}: exploration did not stop")
    res = {"wall": time.time() - t}
    parts = [json.load(open(f)) for f in sorted(glob.glob(outdir + "/w*.json"))]
    if r.returncode or not parts:
        raise NoAnswer(f"{entry}: engine failed ({r.returncode}): {r.stderr[-2500:]}")
    for k in ("paths", "assumed_away", "forks", "steps", "asserts", "asserts_solver", "queries", "sat", "unsat",
              "solver_time", "incomplete"):
        res[k] = sum(p[k] for p in parts)
    for k in ("slowest", "max_draws"):
        res[k] = max(p[k] for p in parts)
    for k in ("covers", "fork_at"):
        m = {}
        for p in parts:
            for a, b in p[k].items():
                m[a] = m.get(a, 0) + b
        res[k] = m
    for k in ("errors", "lines", "funcs"):
        res[k] = sorted(set(x for p in parts for x in p[k]))
    for k in ("witnesses", "violations"):
        res[k] = [x for p in parts for x in p[k]]
    shutil.rmtree(outdir)
    return res


def replay(exe, entry, draws, path, timeout=20):
    """Outcome of the natively compiled harness on these draws: (kind, detail, log)."""
    with open(path, "w") as f:
        f.write("\n".join(map(str, draws)) + "\n")
    try:
        r = run([exe, entry, path], timeout=timeout)
    except subprocess.TimeoutExpired:
        return "hang", f"no end within {timeout} s", []
    log = r.stdout.splitlines()
    if r.returncode == 0:
        return "ok", log[-1] if log else "", log[:-1]
    if r.returncode == 3:
        return "assert", log[-1][2:], log[:-1]
    if r.returncode in (77, 78, 79):
        return "mismatch", r.stderr.strip()[-300:], log
    m = re.search(r"panicked at ([^\n]*)\n([^\n]*)", r.stderr)
    d = f"{m.group(1)} {m.group(2)}" if m else r.stderr.strip()[-300:]
    return ("panic" if m else "abort"), f"{d} (status {r.returncode})", log


def same(kind, what, out):
    k, d, _ = out
    if kind == "assert":
        return k == "assert" and d == what
    if kind == "hang":
        return k == "hang"
    return k in ("panic", "abort", "hang")


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": []}


def check(prop, tier, seed):
    t0 = time.time()
    c = CHECKS[prop]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking"}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    evf = os.path.join(HERE, "evidence", prop + ".json")
    if os.path.exists(evf):
        os.remove(evf)
    entries = [e for e in c["entries"] if tier == "thorough" or not e.get("thorough")]
    if tier == "thorough":
        drop = {e.get("replaces") for e in entries}
        entries = [e for e in entries if e["entry"] not in drop]
    budget = 780 if tier == "quick" else 6 * 3600
    symx = build_engine()
    feats, lost = {}, {}
    for f in sorted({e.get("feature", c["feature"]) for e in entries}):
        try:
            feats[f] = build_harness(f)
        except NoAnswer as x:
            lost[f] = x
    if not feats:
        raise next(iter(lost.values()))
    zver = run([symx, "--z3-version"]).stdout.strip()
    built = time.time() - t0
    total = {}
    alarms, known, runs, problems, samples, partial = [], [], [], [], [], []
    funcs, lines = set(), set()
    validated = replays = 0
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, f"{prop}-*")):
        os.remove(f)
    wf = os.path.join(BUILD, f"w-{prop}-{os.getpid()}.txt")
    for e in entries:
        en = e["entry"]
        if e.get("feature", c["feature"]) in lost:
            # an interface of the private modules has changed; the entries through the public one still decide
            partial.append(f"{en}: not decided: {str(lost[e.get('feature', c['feature'])])[:600]}")
            continue
        exe, ll = feats[e.get("feature", c["feature"])]
        left = budget - (time.time() - t0)
        if left < 5:
            partial.append(f"{en}: not started, no time left")
            continue
        try:
            r = explore(symx, ll, en, os.path.join(BUILD, f"out-{en}-{os.getpid()}"), left, e)
        except NoAnswer as x:
            problems.append(str(x))
            continue
        for k in ("paths", "assumed_away", "forks", "steps", "asserts", "asserts_solver", "queries", "sat", "unsat", "solver_time"):
            total[k] = total.get(k, 0) + r[k]
        funcs |= set(r["funcs"])
        lines |= set(r["lines"])
        for er in r["errors"]:
            # what the engine could not follow is undecided; what it did follow is decided
            (partial if "solver gave up" in er or r["paths"] else problems).append(f"{en}: {er}")
        if r["incomplete"] and not r["violations"]:
            partial.append(f"{en}: {r['incomplete']} states left unexplored at the time limit")
        # replay what was found
        over = False
        for i, v in enumerate(r["violations"]):
            p = os.path.join(rdir, f"{prop}-{en}-{i}.txt")
            for _ in range(e.get("replays", 3)):
                out = replay(exe, en, v["draws"], p)
                replays += 1
                if same(v["kind"], v["what"], out):
                    break
            else:
                if v["kind"] == "hang":
                    # it is only long: the native run ended
                    partial.append(f"{en}: {v['what']} ({out[0]} natively)")
                    over = True
                    continue
                problems.append(f"{en}: {v['kind']} {v['what']!r} not reproduced natively: {out[0]} {out[1]} (replay {p}); {v['stack'][:4]}")
                continue
            desc = {"entry": en, "kind": v["kind"], "what": v["what"], "draws": v["draws"], "replay": p,
                    "native": out[0] + " " + out[1], "stack": v["stack"][:8], "log": v["log"][-12:]}
            k = next((k for k in known_findings()["findings"] if k["property"] == prop and k["entry"] == en
                      and k["kind"] == v["kind"] and re.search(k["what"], v["what"])
                      and (not k.get("at") or any(re.search(k["at"], s) for s in v["stack"]))), None)
            (known if k else alarms).append(dict(desc, finding=k["id"] if k else None))
        # cross-check engine against the real thing on a sample of explored paths
        for w in r["witnesses"][: e.get("max_witnesses", 12)]:
            out = replay(exe, en, w["draws"], wf)
            if out[0] != "ok" or out[2] != w["log"]:
                d = next((a + " | " + b for a, b in zip(out[2] + [""] * 9, w["log"] + [""] * 9) if a != b), "")
                problems.append(f"{en}: engine and native run disagree on draws {w['draws'][:40]}: {out[0]} {out[1]}: {d}")
            else:
                validated += 1
        if r["witnesses"]:
            samples.append({"entry": en, "draws": r["witnesses"][-1]["draws"][:40], "log": r["witnesses"][-1]["log"][:20]})
        complete = not over and not r["incomplete"] and not r["errors"]
        miss = [] if not complete else [k for k in e.get("covers", []) if not r["covers"].get(k)]
        if miss and not r["violations"]:
            problems.append(f"{en}: expected situations never reached: {miss}")
        runs.append({"entry": en, "bounds": e["bounds"], "paths": r["paths"], "assumed_away": r["assumed_away"],
                     "forks": r["forks"], "instructions": r["steps"], "assertions": r["asserts"],
                     "assertions_by_solver": r["asserts_solver"], "queries": r["queries"], "sat": r["sat"],
                     "unsat": r["unsat"], "solver_s": round(r["solver_time"], 3), "slowest_query_s": round(r["slowest"], 3),
                     "max_symbolic_inputs": r["max_draws"], "wall_s": round(r["wall"], 2), "situations_reached": r["covers"],
                     "exhausted": not over and not r["incomplete"] and not r["errors"]})
        if os.environ.get("VERIF_VERBOSE"):
            x = runs[-1]
            print(f"  {en}: paths {x['paths']} (assumed away {x['assumed_away']}) instr {x['instructions']} queries {x['queries']} "
                  f"solver {x['solver_s']}s wall {x['wall_s']}s covers {x['situations_reached']}", flush=True)
            top = sorted(r["fork_at"].items(), key=lambda a: -a[1])[:8]
            print("   forks:", top, flush=True)
    if os.path.exists(wf):
        os.remove(wf)
    ev["coverage"] = {
        "states": total.get("paths", 0) + total.get("forks", 0),
        "transitions": total.get("steps", 0),
        "traces_validated_against_impl": validated + replays,
        "samples": samples[:6] or [{"entry": e["entry"], "note": "no completed path"} for e in entries[:1]],
        "exhaustive": not problems and not partial, "not_exhausted": partial,
        "explanation": "states: symbolic paths completed plus fork points; transitions: LLVM instructions interpreted "
                       "symbolically; every path decides its assertions for all values of its symbolic inputs by Z3.",
        "paths": total.get("paths", 0), "paths_excluded_by_assumptions": total.get("assumed_away", 0),
        "queries_discharged": total.get("queries", 0), "sat": total.get("sat", 0), "unsat": total.get("unsat", 0),
        "assertions_evaluated": total.get("asserts", 0), "assertions_needing_solver": total.get("asserts_solver", 0),
        "solver": "Z3 " + zver, "solver_s": round(total.get("solver_time", 0), 3), "build_s": round(built, 2),
        "functions_encoded": sorted(funcs), "repo_lines_executed": len(lines),
        "runs": runs, "outside_bounds": c.get("outside", []),
    }
    ev["assumptions"] = c.get("assumes", []) + COMMON
    ev["known_findings"] = known
    ev["alarms"] = alarms
    ev["problems"] = problems
    ev["violations"] = len(alarms)
    ev["wall_s"] = round(time.time() - t0, 2)
    with open(evf, "w") as f:
        json.dump(ev, f, indent=1)
    for k in {k["finding"]: k for k in known}.values():
        print(f"KNOWN-FINDING: property={prop} {k['finding']}: {k['what']} ({k['native']})")
    for p in problems:
        print("problem:", p[:1500])
    for p in partial:
        print("bound not exhausted:", p)
    for a in alarms:
        print(f"VIOLATION property={prop} replay={a['replay']}")
        print(f"  {a['entry']}: {a['kind']}: {a['what']}; natively: {a['native']}")
        print(f"  draws {a['draws'][:60]}")
        for s in a["stack"][:4]:
            print("   at", s[-160:])
    if alarms:
        return 1
    if problems or not total.get("paths"):
        return 2
    print(f"{prop}: held on {total['paths']} paths, {total['queries']} queries, {ev['wall_s']} s")
    return 0


COMMON = [
    "HashMap hashing is modelled as a constant, so map iteration follows insertion order (of which every one within the bound is explored).",
    "tokio and rand are replaced by the models in /verif/model (single-threaded, cooperative scheduling at await points, explored choices as stated).",
    "rustc front end, LLVM's IR passes used for extraction, the symx interpreter and Z3 are trusted; sampled paths are re-run natively and compared.",
    "debug-assertion/overflow-checked build of /repo, x86-64; allocation never fails.",
]


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if a[0] == "--setup":
            build_engine()
            built = 0
            for f in sorted({e.get("feature", c["feature"]) for c in CHECKS.values() for e in c["entries"]}):
                try:
                    build_harness(f)
                    built += 1
                except NoAnswer as x:
                    print("problem:", x)
            return 0 if built else 2
        if a[0] == "--replay":
            c = CHECKS[a[1]]
            exe, _ = build_harness(next((e["feature"] for e in c["entries"] if e["entry"] == a[2] and "feature" in e), c["feature"]))
            draws = open(a[3]).read().split()
            print(*replay(exe, a[2], draws, os.path.join(BUILD, "replay.txt")), sep="\n")
            return 0
        if a[0] == "--all":
            bad = 0
            for p in a[1:] or sorted(CHECKS):
                t = time.time()
                try:
                    rc = check(p, tier, seed)
                except NoAnswer as x:
                    print("problem:", x)
                    rc = 2
                print(f"== {p}: exit {rc} ({time.time()-t:.1f} s)", flush=True)
                bad |= rc
            return bad
        if len(a) > 1:
            tier = a[1]
        return check(a[0], tier, seed)
    except NoAnswer as x:
        print("problem:", x)
        return 2


if __name__ == "__main__":
    sys.exit(main())
