#!/usr/bin/env python3
"""check.py PROPERTY [--thorough] | --setup

Decides one property of /repo's current tree: compiles the library together with the harness to LLVM
bitcode, explores the harness symbolically (engine/, z3 decides every branch), replays every
counterexample and a sample of the explored paths against the natively compiled library, and writes
evidence/PROPERTY.json.  Exit 0: held on everything explored; 1: violated (VIOLATION line);
2: no answer.
"""
import fcntl, glob, json, os, subprocess, sys, time
from checks import PROPS

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, "build")
UNITS = ["main", "build", "more"]  # parts of the harness (its cargo features), each with a target directory of its own
SYMX = os.path.join(BUILD, "symx")
LOADER = os.path.join(BUILD, "loader")
KINDS = {1: "assertion", 2: "panic", 3: "no end within the instruction limit", 4: "memory", 5: "undefined behaviour", 6: "stack overflow"}


def target(unit):
    return os.path.join(BUILD, "target-" + unit)


def env(unit):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO", "RUST"))}
    e.update(HOME="/root", LANG="C.UTF-8", PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin", CARGO_HOME="/root/.cargo",
             RUSTUP_HOME="/root/.rustup", RUSTUP_TOOLCHAIN="1.77.2-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
             CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=target(unit), RUSTC_WRAPPER="",
             RUSTFLAGS="-C save-temps -C no-vectorize-loops -C no-vectorize-slp")
    return e


def stop(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def newer(out, deps):
    return os.path.exists(out) and all(os.path.getmtime(out) >= os.path.getmtime(d) for d in deps)


def start_engine():
    """Compiles the symbolic executor when it is not there (in the background)."""
    src = [os.path.join(HERE, "engine", f) for f in ("main.cpp", "expr.cpp", "solver.cpp", "expr.h", "solver.h", "loader.c")]
    if newer(SYMX, src) and newer(LOADER, src):
        return []
    inc = ["-O2", "-std=c++17", "-I/usr/lib/llvm-18/include", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS"]
    objs, ps = [], []
    for f in ("main", "expr", "solver"):
        o = os.path.join(BUILD, f + ".o")
        objs.append(o)
        ps.append(subprocess.Popen(["g++"] + inc + ["-c", os.path.join(HERE, "engine", f + ".cpp"), "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
    ps.append(subprocess.Popen(["gcc", "-O1", "-rdynamic", "-o", LOADER, src[-1], "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
    return [objs, ps]


def finish_engine(job):
    if not job:
        return
    objs, ps = job
    for p in ps:
        out = p.communicate()[0]
        if p.returncode:
            stop("the engine does not compile:\n" + out.decode()[-3000:])
    r = subprocess.run(["g++", "-o", SYMX] + objs + ["-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-lz3"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        stop("the engine does not link:\n" + r.stdout.decode()[-3000:])


def bitcode(unit):
    return glob.glob(os.path.join(target(unit), "release", "deps", "harness.harness.*-cgu.0.rcgu.bc"))


def build(units):
    """The engine and parts of the harness, compiled from what is there now; one (bitcode, library) for each part."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        job = start_engine()
        cwd = os.path.join(HERE, "harness")
        ps = {}
        for u in units:
            cargo = ["cargo", "build", "--release", "--offline", "--lib", "--features", u]
            ps[u] = subprocess.Popen(cargo, cwd=cwd, env=env(u), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        bad = ""
        for u in units:
            out = ps[u].communicate()[0]
            if ps[u].returncode:
                bad = bad or out.decode(errors="replace")[-4000:]
            elif len(bitcode(u)) != 1:
                # left over from another version: once more from the beginning
                for f in bitcode(u):
                    os.remove(f)
                subprocess.run(["cargo", "clean", "--release", "--offline", "-p", "harness"], cwd=cwd, env=env(u), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                r = subprocess.run(["cargo", "build", "--release", "--offline", "--lib", "--features", u], cwd=cwd, env=env(u), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if r.returncode:
                    bad = bad or r.stdout.decode(errors="replace")[-4000:]
        finish_engine(job)
        if bad:
            stop("the harness does not compile against /repo:\n" + bad)
        res = []
        for u in units:
            if len(bitcode(u)) != 1:
                stop("no bitcode of the harness")
            res.append((bitcode(u)[0], os.path.join(target(u), "release", "deps", "libharness.so")))
        return res


def native(lib, entry, params, lines, verbose=False):
    """What the natively compiled library does on the given inputs, line by line."""
    cmd = [LOADER, lib, entry, ",".join(map(str, params))] + (["-v"] if verbose else [])
    try:
        p = subprocess.run(cmd, input="".join(",".join(map(str, l)) + "\n" for l in lines).encode(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=30 + len(lines))
    except subprocess.TimeoutExpired as e:
        return (e.stdout or b"").decode(errors="replace") + "TIMEOUT\n"
    return p.stdout.decode(errors="replace")


def printable(v):
    return "".join(chr(c) if 32 <= c < 127 else "\\n" if c == 10 else "\\t" if c == 9 else "<%x>" % c for c in v)


def main():
    t0 = time.time()
    if sys.argv[1:] == ["--setup"]:
        build(UNITS)
        return 0
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv[2:] or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    spec = PROPS[prop]
    [(bc, lib)] = build([spec.get("unit", "main")])
    built = time.time() - t0
    budget = 780 if tier == "quick" else 4 * 3600
    deep = 1 if tier == "thorough" else 0
    runs, problems, confirmed, functions, samples, families = [], [], [], set(), [], []
    validated = 0
    tot = {}
    known = set()
    for entry, params in spec["runs"]:
        params = [deep if p == "TIER" else p for p in params]
        left = budget - (time.time() - t0)
        if left < 20:
            problems.append("out of time before " + entry)
            break
        out = os.path.join(BUILD, "out.%s.%d.json" % (prop, os.getpid()))
        cmd = [SYMX, "--bc", bc, "--entry", entry, "--out", out, "--jobs", "8", "--time", str(int(left)), "--maxviol", "12", "--sample", "60"]
        for p in params:
            cmd += ["--param", str(p)]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        try:
            with open(out) as f:
                o = json.load(f)
            os.remove(out)
        except Exception as e:
            problems.append("%s: the engine gave no result (%s): %s" % (entry, e, r.stdout.decode(errors="replace")[-500:]))
            continue
        if o["status"].startswith("error"):
            problems.append("%s: %s" % (entry, o["status"]))
        for k in ("paths", "discarded_by_assume", "instructions", "symbolic_decisions", "queries", "cache_hits", "z3_calls", "z3_sat", "z3_unsat", "z3_unknown", "given_up", "solver_s"):
            tot[k] = tot.get(k, 0) + o[k]
        functions.update(o["functions"])
        known.update(int(k) for k in o["known"])
        runs.append({"entry": entry, "params": params, "paths": o["paths"], "covers": o["covers"], "max_path_instructions": o["max_path_instructions"], "wall_s": o["wall_s"]})
        # counterexamples against the real code
        for v in o["violations"]:
            txt = native(lib, entry, params, [v["inputs"]], True)
            last = txt.strip().splitlines()[-1] if txt.strip() else ""
            if last.startswith(("FAIL", "SIGNAL", "TIMEOUT")):
                confirmed.append({"entry": entry, "params": params, "inputs": v["inputs"], "inputs_text": printable(v["inputs"]), "kind": KINDS.get(v["kind"], v["kind"]),
                                  "engine": v["what"], "native": txt[:6000]})
                if last.startswith("TIMEOUT"):
                    break
            else:
                problems.append("%s: the engine reports %s (%s) on %s, the compiled code answers %s" % (entry, KINDS.get(v["kind"]), v["what"][:200], v["inputs"], last[:200]))
        # explored paths against the real code
        good = [s for s in o["samples"]]
        if good and not o["violations"]:
            txt = native(lib, entry, params, [s["inputs"] for s in good])
            got = txt.strip().splitlines()
            for i, s in enumerate(good):
                g = got[i].split() if i < len(got) else ["nothing"]
                if g[0] == "OK" and g[2] == s["obs"]:
                    validated += 1
                    if len(samples) < 12 and i % 7 == 0:
                        samples.append({"entry": entry, "inputs": s["inputs"], "as_text": printable(s["inputs"]), "observed": "fnv " + s["obs"]})
                else:
                    problems.append("%s: path %s: the engine observed %s, the compiled code %s" % (entry, s["inputs"], s["obs"], " ".join(g)))
                    break
        if not o["violations"] and not o["status"].startswith("error"):
            missing = [k for k in range(o["declared"]) if not o["covers"].get(str(k))]
            if missing:
                problems.append("%s: nothing reached cover points %s" % (entry, missing))
            if o["declared"] == 0 and not o["covers"]:
                problems.append("%s: nothing covered" % entry)
        if confirmed:
            break
        fam = native(lib, entry, (params + [0] * 16)[:9] + [1], [[]], True)
        families += ["%s %s" % (entry, l[5:]) for l in fam.splitlines() if l.startswith("NOTE family")]
    listed = []
    kf = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(kf):
        for l in open(kf):
            f = l.split(None, 3)
            if len(f) == 4 and f[0] == "KNOWN-FINDING:" and f[1] == "property=" + prop and f[2].startswith("index="):
                listed.append((int(f[2][6:]), f[3].strip()))
    for i, text in listed:
        if i in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, text), flush=True)
    unlisted = known - {i for i, _ in listed}
    if unlisted:
        problems.append("known findings %s are not listed" % sorted(unlisted))
    here = [f for f in functions if "conch_parser" in f]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
        "coverage": {
            "states": tot.get("paths", 0), "transitions": tot.get("symbolic_decisions", 0), "traces_validated_against_impl": validated,
            "samples": samples or [{"note": "no path completed"}], "exhaustive": not problems and not confirmed,
            "meaning": "states: explored paths (each stands for every input which follows it); transitions: branches decided by the solver's verdict; traces_validated: paths replayed on the natively compiled library with the same observation",
            "method": spec["how"], "bounds": spec["bounds"], "outside_the_bounds": spec.get("outside", "longer sources and vocabularies not listed under families"), "families": families,
            "functions_encoded": sorted(here)[:400], "functions_encoded_total": len(functions), "runs": runs,
            "queries": tot.get("queries", 0), "queries_answered_from_cache": tot.get("cache_hits", 0), "solver_calls": tot.get("z3_calls", 0), "solver_sat": tot.get("z3_sat", 0),
            "solver_unsat": tot.get("z3_unsat", 0), "solver_unknown": tot.get("z3_unknown", 0), "expressions_enumerated_instead": tot.get("given_up", 0), "solver_s": round(tot.get("solver_s", 0), 3), "llvm_instructions": tot.get("instructions", 0),
            "inputs_outside_the_assumption": tot.get("discarded_by_assume", 0), "problems": problems[:10],
        },
        "assumptions": ["rustc's LLVM bitcode (opt-level 2, overflow checks and debug assertions on) means what the source means", "z3", "engine/ interprets the bitcode correctly (cross-checked by native replay)"] + spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1), "build_s": round(built, 1), "violations": len(confirmed),
    }
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for v in confirmed:
        n = 0
        os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
        while os.path.exists(os.path.join(BUILD, "replay", "%s-%d.json" % (prop, n))):
            n += 1
        path = os.path.join(BUILD, "replay", "%s-%d.json" % (prop, n))
        v["replay_cmd"] = "echo %s | %s %s %s %s -v" % (",".join(map(str, v["inputs"])), LOADER, lib, v["entry"], ",".join(map(str, v["params"])))
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  " + v["native"].strip().replace("\n", "\n  ")[:1500], flush=True)
        return 1
    if problems:
        for p in problems[:10]:
            print("ERROR: " + p)
        return 2
    print("%s held: %d paths, %d solver calls, %.0f s" % (prop, tot.get("paths", 0), tot.get("z3_calls", 0), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
