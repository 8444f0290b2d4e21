#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

Decides one property by symbolic execution of the code in /repo:
 1. compiles the harness together with /repo's current source to LLVM IR,
 2. runs the symbolic executor (engine/) on the harness entries listed in meta/jobs.py,
 3. replays every counterexample against a native build of the same code,
 4. writes evidence/<property>.json.
Exit 0: held on everything explored; exit 1 + VIOLATION line: broken; exit 2: the check could not run.
"""
import json, os, subprocess, sys, time, glob, re, shutil
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "meta"))
import jobs as J

TGT = os.path.join(V, "target")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="nightly-2026-07-07-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_TARGET_DIR=TGT, RUSTFLAGS="", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0")
ENV["PATH"] = "/root/.cargo/bin:" + ENV.get("PATH", "/usr/bin:/bin")
for k in list(ENV):
    if k.startswith("CARGO_PROFILE_") or k in ("CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        del ENV[k]
ENGINE = os.path.join(TGT, "engine", "release", "symx")
NCPU = max(2, os.cpu_count() or 2)


def sh(cmd, cwd, env=None, timeout=None):
    return subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def build_engine():
    r = sh(["cargo", "build", "--release", "--offline", "-q"], os.path.join(V, "engine"), dict(ENV, CARGO_TARGET_DIR=os.path.join(TGT, "engine")))
    if r.returncode:
        print(r.stdout[-4000:])
        print("ERROR: the symbolic executor does not build")
        sys.exit(2)


def crate_dir(b):
    return os.path.join(V, J.CRATE.get(b, "harness"))


def build_ir(b):
    """LLVM IR of harness binary b linked with /repo's current source"""
    feat = ["--features", J.FEATURE[b]] if b in J.FEATURE else []
    r = sh(["cargo", "rustc", "--release", "--offline", "-q", "--bin", b, *feat, "-Zchecksum-freshness", "--", "--emit=llvm-ir,link",
            "-Clink-arg=-Wl,--unresolved-symbols=ignore-all"], crate_dir(b))
    if r.returncode:
        print(r.stdout[-2500:])
        print(f"ERROR: harness {b} does not build against /repo")
        sys.exit(2)
    c = sorted(glob.glob(os.path.join(TGT, "release", "deps", b.replace("-", "_") + "-*.ll")), key=os.path.getmtime)
    if not c:
        print(f"ERROR: no IR for {b}")
        sys.exit(2)
    return c[-1]


def build_native(b, quiet=False):
    r = sh(["cargo", "build", "--offline", "-q", "--features", "native," + J.FEATURE[b] if b in J.FEATURE else "native", "--bin", b, "-Zchecksum-freshness"], crate_dir(b))
    if r.returncode:
        print(r.stdout[-2500:])
        return None
    return os.path.join(TGT, "debug", b)


def native_run(exe, entry, args, valfile, timeout=60, mem_kb=6_000_000):
    cmd = f"ulimit -v {mem_kb}; ulimit -c 0; exec {exe} {entry} " + " ".join(str(a) for a in args)
    try:
        r = subprocess.run(["bash", "-c", cmd], env=dict(ENV, SYM_REPLAY=valfile, RUST_BACKTRACE="0"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")


DEADLINE = time.time() + 1e9


def run_job(j, lls, tier):
    mt = j.get("max_time", 120 if tier == "quick" else 1500)
    left = DEADLINE - time.time()
    if left < 5:
        return {"error": "not started: the check's time budget was used up", "job": j}
    mt = min(mt, left)
    cmd = [ENGINE, "--ll", lls[j["bin"]], "--entry", "h_" + j["entry"], "--max-time", str(mt), "--max-viol", str(j.get("max_viol", 4))]
    for a in j["args"]:
        cmd += ["--arg", str(a)]
    for k in ("max_paths", "max_steps", "query_timeout", "part"):
        if k in j:
            cmd += ["--" + k.replace("_", "-"), str(j[k])]
    t0 = time.time()
    try:
        r = subprocess.run(["bash", "-c", "ulimit -v 14000000; exec \"$@\"", "x"] + cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=mt + 120, errors="replace")
        out = r.stdout.strip().splitlines()
        d = json.loads(out[-1]) if out else {"error": f"rc {r.returncode}: " + r.stderr[-300:]}
    except subprocess.TimeoutExpired:
        d = {"error": "killed after the time limit"}
    except ValueError:
        d = {"error": f"rc {r.returncode}: unreadable output"}
    d["job"] = j
    d["cmd_wall"] = time.time() - t0
    return d


def load_known():
    out = {}
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", l.strip())
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    jobs = J.jobs(prop, tier)
    if not jobs:
        print("ERROR: no jobs for", prop)
        sys.exit(2)
    build_engine()
    lls = {b: build_ir(b) for b in sorted({j["bin"] for j in jobs})}
    t_build = time.time() - t0
    global DEADLINE
    DEADLINE = time.time() + (450 if tier == "quick" else 5400)
    # longest first
    jobs = sorted(jobs, key=lambda j: -j.get("cost", 1))
    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(lambda j: run_job(j, lls, tier), jobs))
    known = load_known()
    known_seen = {}
    confirmed, unconfirmed, notes = [], [], []
    rdir = os.path.join(V, "replays")
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, f"{prop}-*")):
        os.remove(f)
    natives = {}
    nrep = 0
    for d in res:
        j = d["job"]
        name = f"{j['bin']}/{j['entry']}({','.join(map(str, j['args']))})"
        if "error" in d:
            notes.append(f"{name}: {d['error']}")
            continue
        for k, v in d["incomplete"].items():
            notes.append(f"{name}: {k} x{v}")
        for w in j.get("witness", []):
            # (0 stands for any situation)
            if not (any(d["witness"].values()) if w == 0 else d["witness"].get(str(w))) and not d["violations"]:
                notes.append(f"{name}: expected situation {w} never reached")
        viols = d["violations"]
        for k, desc in d["known"].items():
            if (prop, k) in known:
                known_seen[k] = desc
            else:
                viols = viols + [{"kind": "unlisted finding", "msg": k + ": " + desc, "bt": [], "syms": d.get("known_syms", {}).get(k, [])}]
        for v in viols:
            if len(confirmed) >= 3:
                break
            b = j["bin"]
            if b not in natives:
                natives[b] = build_native(b)
            path = os.path.join(rdir, f"{prop}-{nrep}.txt")
            nrep += 1
            with open(path, "w") as f:
                f.write(f"# property {prop}\n# harness {name}\n# {v['kind']}: {v['msg']}\n")
                for t in v["bt"][:12]:
                    f.write(f"# at {t}\n")
                f.write(f"# replay: SYM_REPLAY={path} {TGT}/debug/{b} {j['entry']} {' '.join(map(str, j['args']))}\n")
                for w, x in v["syms"]:
                    f.write(f"{w} {x}\n")
            if not natives[b]:
                unconfirmed.append((name, v, "native build failed"))
                continue
            rc, out = native_run(natives[b], j["entry"], j["args"] + [0] * (4 - len(j["args"])), path, timeout=60)
            bad = rc not in (0, 2) and rc != "timeout"
            if rc == "timeout" and v["kind"] in ("steps", "alloc", "memory", "nontermination"):
                bad = True
            if rc == 0 and v["kind"] == "alloc" and "REPLAY-OK" not in out:
                bad = True
            with open(path, "a") as f:
                f.write("# native replay: rc %s\n" % rc + "".join("#   " + l + "\n" for l in out.splitlines()[-6:]))
            (confirmed if bad else unconfirmed).append((name, v, path if bad else out.strip()[-200:]))
    ok = [d for d in res if "error" not in d]
    fns = sorted({f for d in ok for f in d["functions"] if not f.startswith("h_") and "sym_entries" not in f and "symlib" not in f})
    tot = lambda k: sum(d.get(k, 0) for d in ok)
    cov = {
        "explanation": "Bounded symbolic execution of the LLVM IR compiled from /repo's current source (linked with the harness); every value within the bounds "
                       "is covered symbolically, branches and assertions are decided by z3 (conditions on single input bytes by exact value sets). See DESIGN.md.",
        "jobs": len(jobs),
        "jobs_complete": sum(1 for d in ok if not d["incomplete"]),
        "bounds": J.bounds(prop),
        "entries": [{"harness": f"{d['job']['bin']}/{d['job']['entry']}", "args": d["job"]["args"], "paths": d["paths"], "permitted_panics": d["paths_panic_ok"], "known_finding_paths": d["paths_known"],
                     "assertions": d["assertions"], "queries": d["queries"], "solver_s": d["solver_s"], "wall_s": d["wall_s"], "witness": d["witness"]} for d in ok],
        "paths": tot("paths"), "forks": tot("forks"), "instructions": tot("instructions"), "assertions": tot("assertions"),
        "queries": tot("queries"), "queries_sat": tot("sat"), "queries_unsat": tot("unsat"), "queries_unknown": tot("unknown"), "auxiliary_queries": tot("aux_queries"),
        "byte_domain_decisions": tot("byte_domain_decisions"),
        "solver_s": round(tot("solver_s"), 3), "solver": ok[0]["solver"] if ok else None,
        "functions_encoded": len(fns), "functions": fns,
        "inconclusive": notes,
        "unconfirmed_counterexamples": [f"{n}: {v['kind']}: {v['msg']} ({why})" for n, v, why in unconfirmed],
        "build_s": round(t_build, 1),
    }
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "other", "coverage": cov,
          "assumptions": J.ASSUME + J.assumptions(prop), "wall_s": round(time.time() - t0, 2), "violations": len(confirmed)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for n in notes[:20]:
        print("inconclusive:", n)
    for n, v, why in unconfirmed[:10]:
        print(f"unconfirmed: {n}: {v['kind']}: {v['msg']} [{why}]")
    for k in sorted(known_seen):
        print(f"KNOWN-FINDING: property={prop} {k}: {known[(prop, k)]}")
    print(f"{prop} {tier}: {len(jobs)} jobs, {cov['paths']} paths, {cov['assertions']} assertions, {cov['queries']} queries, "
          f"{cov['solver_s']} s solver, build {t_build:.1f} s, {ev['wall_s']} s, {len(notes)} inconclusive")
    slow = sorted(ok, key=lambda d: -d["wall_s"])[:4]
    print("  slowest: " + ", ".join(f"{d['job']['bin']}/{d['job']['entry']}({','.join(map(str, d['job']['args']))}) {d['wall_s']:.1f} s" for d in slow))
    for n, v, path in confirmed:
        print(f"  {n}: {v['kind']}: {v['msg']}")
    if confirmed:
        print(f"VIOLATION property={prop} replay={confirmed[0][2]}")
        sys.exit(1)
    if not ok:
        print("ERROR: nothing could be run")
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
