#!/usr/bin/env python3
"""check <PROPERTY> [--tier quick|thorough]: decide one property on /repo's current tree."""
import concurrent.futures as cf
import hashlib, json, os, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
sys.path.insert(0, os.path.join(VERIF, "lib"))
if __name__ == "__main__":
    sys.modules["run"] = sys.modules["__main__"]


def sh(cmd, env=None, timeout=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, env=e, timeout=timeout, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")


class CheckError(Exception):
    pass


class Rejected(CheckError):
    """the compiler refuses generated programs (src/cases.rs) although the library itself builds"""

    def __init__(self, crate, out, lines):
        super().__init__(out)
        self.crate, self.out, self.lines = crate, out, lines


def rejected_cases(out, crate):
    """line numbers in cases.rs of the refused programs; None when anything else fails"""
    import re
    if f"could not compile `{crate}`" not in out:
        return None
    lines, errs = [], re.split(r"\n(?=error)", "\n" + out)[1:]
    for e in errs:
        if e.startswith(("error: could not compile", "error: aborting")):
            continue
        m = re.search(r"^ *--> (\S+?):(\d+):", e, re.M)
        if not m or m.group(1) != "src/cases.rs":
            return None
        lines.append((int(m.group(2)), e))
    return lines or None


def cargo_env(target, toolchain="stable"):
    return {
        "RUSTUP_TOOLCHAIN": toolchain,
        "CARGO_NET_OFFLINE": "true",
        "CARGO_TARGET_DIR": target,
        "CARGO_INCREMENTAL": "0",
        "CARGO_TERM_COLOR": "never",
    }


def build_llsym():
    t = os.path.join(BUILD, "llsym")
    os.makedirs(t, exist_ok=True)
    r = sh(["cargo", "build", "--release", "--offline", "--quiet"], cargo_env(t), cwd=os.path.join(VERIF, "llsym"))
    b = os.path.join(t, "release", "llsym")
    if r.returncode or not os.path.exists(b):
        raise CheckError("llsym does not build:\n" + r.stdout[-3000:])
    return b


def repo_hash():
    h = hashlib.sha256()
    for root in [REPO]:
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock")):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    h.update(open(p, "rb").read())
    return h


def crate_hash(crate):
    h = repo_hash()
    h.update(crate.encode())
    # the crates share source files
    for c in sorted(x for x in os.listdir(VERIF) if x.startswith("harness")):
        for d, ds, fs in os.walk(os.path.join(VERIF, c)):
            ds[:] = sorted(x for x in ds if x != "target")
            for f in sorted(fs):
                if f.endswith((".rs", ".toml")):
                    h.update(open(os.path.join(d, f), "rb").read())
    return h.hexdigest()[:20]


LOCK = threading.Lock()


def sync_crate(crate):
    """Run the crate's source generator, if it has one."""
    g = os.path.join(VERIF, crate, "gen.py")
    if os.path.exists(g):
        r = sh([sys.executable, g], cwd=os.path.join(VERIF, crate))
        if r.returncode:
            raise CheckError(f"generator of {crate} failed:\n" + r.stdout[-3000:])
    src = os.path.join(REPO, "Cargo.lock")
    dst = os.path.join(VERIF, crate, "Cargo.lock")
    if not os.path.exists(dst):
        shutil.copy(src, dst)


def build_ir(crate, toolchain="stable"):
    cdir = os.path.join(VERIF, crate)
    with LOCK:
        sync_crate(crate)
    key = crate_hash(cdir)
    ll = os.path.join(BUILD, f"{crate}-{key}.ll")
    if os.path.exists(ll):
        return ll
    target = os.path.join(BUILD, f"sym-{crate}")
    deps = os.path.join(target, "release", "deps")
    os.makedirs(deps, exist_ok=True)
    name = crate.replace("-", "_")
    for f in os.listdir(deps):
        if f.startswith(name + "-"):
            os.unlink(os.path.join(deps, f))
    os.utime(os.path.join(cdir, "src", "main.rs"))
    env = cargo_env(target, toolchain)
    env["RUSTFLAGS"] = "-Csave-temps -Cno-vectorize-loops -Cno-vectorize-slp -Clink-arg=-Wl,--unresolved-symbols=ignore-all"
    r = sh(["cargo", "build", "--release", "--offline"], env, cwd=cdir)
    bcs = [f for f in os.listdir(deps) if f.startswith(name + "-") and f.endswith("cgu.0.rcgu.bc") and "no-opt" not in f and ".lto." not in f]
    if len(bcs) != 1:
        errs = [l for l in r.stdout.splitlines()]
        i = next((k for k, l in enumerate(errs) if l.startswith("error")), 0)
        rej = rejected_cases(r.stdout, crate)
        if rej:
            raise Rejected(crate, "\n".join(errs[i:i + 60]), rej)
        raise CheckError(f"harness crate {crate} does not build against the current tree:\n" + "\n".join(errs[i:i + 60]))
    root = sh(["rustc", "--print", "sysroot"], env).stdout.strip()
    dis = os.path.join(root, "lib/rustlib/x86_64-unknown-linux-gnu/bin/llvm-dis")
    tmp = ll + f".{os.getpid()}"
    r = sh([dis, os.path.join(deps, bcs[0]), "-o", tmp])
    if r.returncode:
        raise CheckError("llvm-dis: " + r.stdout)
    for f in os.listdir(BUILD):
        if f.startswith(crate + "-") and f.endswith(".ll") and len(f) == len(os.path.basename(ll)):
            os.unlink(os.path.join(BUILD, f))
    os.rename(tmp, ll)
    for f in os.listdir(deps):
        if f.endswith(".bc") or f.endswith(".ll"):
            os.unlink(os.path.join(deps, f))
    return ll


def build_native(crate, toolchain="stable"):
    cdir = os.path.join(VERIF, crate)
    with LOCK:
        sync_crate(crate)
    target = os.path.join(BUILD, f"native-{crate}")
    os.makedirs(target, exist_ok=True)
    r = sh(["cargo", "build", "--offline", "--features", "native"], cargo_env(target, toolchain), cwd=cdir)
    b = os.path.join(target, "debug", crate)
    if r.returncode or not os.path.exists(b):
        raise CheckError(f"native build of {crate} failed:\n" + r.stdout[-3000:])
    return b


def replay(binary, job, inputs):
    args = [binary, job["h"], ",".join(map(str, job.get("p", []))), ",".join(i[2] for i in inputs)]
    try:
        r = sh(args, timeout=60)
    except subprocess.TimeoutExpired:
        return 124, "timeout", args
    return r.returncode, r.stdout, args


def run_job(llsym, ll, job, tier, outdir):
    out = os.path.join(outdir, f"{job['h']}-{'_'.join(map(str, job.get('p', [])))}.json")
    t = job.get("t", 200 if tier == "quick" else 3000)
    cmd = [llsym, ll, "--harness", job["h"], "--time", str(t), "--hard", str(job.get("hard", 60 if tier == "quick" else 600)), "--out", out]
    if job.get("p"):
        cmd += ["--params", ",".join(map(str, job["p"]))]
    try:
        r = sh(cmd, timeout=t * 2 + 600)
    except subprocess.TimeoutExpired:
        return {"status": "engine-error", "why": "engine timeout", "job": job}
    if r.returncode or not os.path.exists(out):
        return {"status": "engine-error", "why": r.stdout[-1500:], "job": job}
    j = json.load(open(out))
    j["job"] = job
    return j


def demangle(names):
    try:
        r = subprocess.run(["rustfilt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
        return r.stdout.splitlines()
    except OSError:
        return names


def main():
    import props
    a = sys.argv[1:]
    if a and a[0] == "setup":
        return setup()
    pid = a[0]
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    P = props.PROPS[pid]
    os.makedirs(BUILD, exist_ok=True)
    outdir = os.path.join(BUILD, "out", pid)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    known = load_known(pid)
    violations, kf_hits, problems, incomplete = [], [], [], []
    results = []
    ex = {"smt": None}
    try:
        jobs = [j for j in P.get("jobs", []) if tier in j.get("tiers", ("quick", "thorough"))]
        crates = sorted({j.get("crate", "harness") for j in jobs})
        if P.get("extra"):
            # Python-side SMT obligations (type level / MIR)
            er = P["extra"](tier)
            ex["smt"] = er
            for v in er["violations"]:
                (kf_hits if (v["where"], v["label"]) in known else violations).append(dict(v, replay_ok=v.get("replayed", False)))
            problems += er.get("problems", [])
            incomplete += er.get("incomplete", [])
        native = {}
        if jobs:
            llsym = build_llsym()
            lls = {c: build_ir(c, props.TOOLCHAIN.get(c, "stable")) for c in crates}
            pool_n = cf.ThreadPoolExecutor(len(crates))
            nat = {c: pool_n.submit(build_native, c, props.TOOLCHAIN.get(c, "stable")) for c in crates}
            with cf.ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as pool:
                order = sorted(jobs, key=lambda j: -j.get("w", 1))
                futs = [pool.submit(run_job, llsym, lls[j.get("crate", "harness")], j, tier, outdir) for j in order]
                results = [f.result() for f in futs]
            native = {c: f.result() for c, f in nat.items()}
        nrep = 0
        for r in results:
            job = r["job"]
            who = f"{job['h']}({','.join(map(str, job.get('p', [])))})"
            if r["status"] == "engine-error":
                problems.append(f"{who}: {r['why']}")
                continue
            b = native[job.get("crate", "harness")]
            r["kf"] = 0
            for v in r["violations"]:
                code, out, args = replay(b, job, v["inputs"])
                nrep += 1
                tag = f"FAILED-CHECK {v['label']}"
                if v["label"] == "hang":
                    code = 3 if code == 124 else 0
                    tag = "timeout"
                ok = code == 3 and (v["label"] in ("panic", "memory") or tag in out) or code in (134, 139, -6, -11)
                if not ok:
                    problems.append(f"{who}: counterexample for '{v['label']}' does not reproduce natively (exit {code}): {v['inputs']} {v['detail'][:300]}")
                    continue
                ent = {"where": job["h"], "label": v["label"], "detail": v["detail"], "inputs": v["inputs"], "cmd": args, "out": out[-1500:], "replay_ok": True}
                if (job["h"], v["label"]) in known:
                    r["kf"] += 1
                    kf_hits.append(ent)
                else:
                    violations.append(ent)
            for e, n in r["errors"].items():
                incomplete.append(f"{who}: {e} x{n}")
            if not r["violations"] and not any("time limit" in e for e in r["errors"]):
                for w in job.get("wit", []):
                    if w not in r["witnesses"]:
                        problems.append(f"{who}: vacuous, witness '{w}' not reached")
                for l in job.get("labels", []):
                    if l not in r["checks"]:
                        problems.append(f"{who}: assertion '{l}' never reached")
                if not r["checks"] and not job.get("nochecks"):
                    problems.append(f"{who}: no assertion reached")
            # validate the engine: replay one witness model per harness on the compiled code
            for w, inp in list(r["witnesses"].items())[: job.get("vw", 1)]:
                code, out, _ = replay(b, job, inp)
                if f"WITNESS {w}" not in out:
                    problems.append(f"{who}: witness '{w}' not confirmed by the compiled code: {inp} -> {out[-300:]}")
                else:
                    nrep += 1
    except Rejected as e:
        if not P.get("programs"):
            print(f"ERROR property={pid} {e.out}")
            sys.exit(2)
        src = open(os.path.join(VERIF, e.crate, "src/cases.rs")).read().split("\n")
        results, kf_hits = [], []
        for n, msg in e.lines[:5]:
            violations.append({"where": e.crate, "label": f"program-rejected: {src[n - 1].strip()[:200]}", "detail": msg[:1500], "cmd": f"cd {os.path.join(VERIF, e.crate)} && cargo build --release --offline", "inputs": []})
    except CheckError as e:
        print(f"ERROR property={pid} {e}")
        sys.exit(2)
    # ---------------------------------------------------------------- report
    rep = os.path.join(outdir, "violations.json")
    json.dump(violations, open(rep, "w"), indent=1, ensure_ascii=False)
    for k in known.values():
        if any((h["where"], h["label"]) == (k["where"], k["label"]) for h in kf_hits):
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    write_evidence(pid, P, tier, seed, results, ex["smt"], violations, incomplete, problems, nrep if results else 0, time.time() - t0)
    for x in incomplete[:10]:
        print(f"INCOMPLETE property={pid} {x[:400]}")
    seen = set()
    for v in violations:
        if (v["where"], v["label"]) in seen:
            continue
        seen.add((v["where"], v["label"]))
        f = os.path.join(VERIF, "evidence", f"{pid}-violation-{len(seen)}.json")
        json.dump(v, open(f, "w"), indent=1, ensure_ascii=False)
        print(f"  {v['where']}: '{v['label']}' fails {v.get('detail','')[:200]} inputs={v.get('inputs')}")
        print(f"VIOLATION property={pid} replay={f}")
    if violations:
        sys.exit(1)
    if problems:
        for p in problems[:20]:
            print(f"ERROR property={pid} {p[:800]}")
        sys.exit(2)
    np = sum(r.get("paths", 0) for r in results)
    nq = sum(r.get("queries", 0) for r in results) + (ex["smt"] or {}).get("queries", 0)
    print(f"OK property={pid} tier={tier} paths={np} queries={nq} wall={time.time()-t0:.1f}s")
    sys.exit(0)


def load_known(pid):
    f = os.path.join(VERIF, "known_findings.txt")
    d = {}
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("{"):
                k = json.loads(l)
                if k.get("property") == pid and k.get("status") == "known":
                    d[(k["where"], k["label"])] = k
    return d


def write_evidence(pid, P, tier, seed, results, smt, violations, incomplete, problems, nrep, wall):
    good = [r for r in results if r["status"] != "engine-error"]
    fns = sorted({f for r in good for f in r["functions"]})
    import re
    own = [f for f in fns if "whippyunits" in f]
    samples = []
    for r in good[:40]:
        for w, i in list(r["witnesses"].items())[:1]:
            samples.append({"harness": r["harness"], "params": r["params"], "witness": w, "inputs": i})
    if smt:
        samples += smt.get("samples", [])[:20]
    S = lambda k: sum(r.get(k, 0) for r in good)
    cov = {
        "states": S("paths") + (smt or {}).get("obligations", 0),
        "transitions": S("forks") + S("queries") + (smt or {}).get("queries", 0),
        "traces_validated_against_impl": nrep + (smt or {}).get("replayed", 0),
        "samples": samples[:24] or [{"harness": r["harness"], "params": r["params"]} for r in good[:5]] or ["none"],
        "explanation": "states: symbolic paths explored to the end (llsym) plus SMT obligations over type-level/MIR encodings; transitions: path forks plus solver queries; traces validated: solver models replayed on the compiled code.",
        "solver": {
            "queries": S("queries") + (smt or {}).get("queries", 0),
            "sat": S("sat"), "unsat": S("unsat"), "unknown": S("unknown"),
            "portfolio": S("portfolio"), "byte_domain_decisions": S("byte_queries"), "cache_hits": S("cache_hits"),
            "solver_s": round(S("solver_s") + (smt or {}).get("solver_s", 0), 3),
            "instructions_executed": S("steps"),
        },
        "bounds": P.get("bounds", ""),
        "outside": P.get("outside", ""),
        "functions_encoded": {"repository_instances": len(own), "all": len(fns), "list": own[:400]},
        "harnesses": [
            {k: r.get(k) for k in ("harness", "params", "status", "paths", "killed", "forks", "queries", "sat", "unsat", "solver_s", "wall_s", "checks", "errors", "allowed_panics")}
            for r in good
        ],
        "smt_obligations": (smt or {}).get("detail", []),
        "incomplete": incomplete, "problems": problems,
    }
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": P.get("level", "model_checking"), "coverage": cov,
        "assumptions": P.get("assumptions", []) + ASSUME, "wall_s": round(wall, 3), "violations": len(violations),
    }
    json.dump(ev, open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w"), indent=1, ensure_ascii=False)


ASSUME = [
    "LLVM IR produced by rustc (opt-level 1, fat LTO, overflow checks on) represents the source; llsym's reading of that IR, checked by replaying solver models on the compiled code, is trusted",
    "allocation never fails; getrandom returns zeros; environment variables are unset",
]


def setup():
    import props
    os.makedirs(BUILD, exist_ok=True)
    build_llsym()
    crates = sorted({j.get("crate", "harness") for p in props.PROPS.values() for j in p.get("jobs", []) if "quick" in j.get("tiers", ("quick",))})
    for c in crates:
        try:
            build_ir(c, props.TOOLCHAIN.get(c, "stable"))
            build_native(c, props.TOOLCHAIN.get(c, "stable"))
        except CheckError as e:
            print(e)
            sys.exit(2)
    for f in getattr(props, "SETUP", []):
        f()
    print("setup done")


if __name__ == "__main__":
    main()
