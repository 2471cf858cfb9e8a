#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only RUN] [-v]

Solver-based check of one property: compiles /repo's current sources and the property's harnesses to LLVM bitcode,
explores every harness entry with the symbolic executor engine/lbsx (Z3), replays each counterexample natively and
reports the reproduced ones. See DESIGN.md."""
import sys, os, json, time, subprocess, hashlib, re, shutil, tempfile, glob
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LBDD_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
CLANG, LLINK = "/usr/bin/clang++-18", "/usr/bin/llvm-link-18"
CFLAGS = ["-std=c++17", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-g1", "-Wno-everything",
          "-include", HERE + "/lib/prefix.h", "-I" + HERE + "/lib/stub", "-I" + HERE + "/lib", "-I" + REPO + "/include"]
NFLAGS = ["-std=c++17", "-g", "-w", "-DSX_NATIVE", "-I" + HERE + "/lib/stub", "-I" + HERE + "/lib", "-I" + REPO + "/include"]
BUDGET = {"quick": 600, "thorough": 850}

def sh(cmd, timeout=None, cwd=None, env=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=cwd, env=env)
        return p.returncode, p.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stdout or b"").decode("utf8", "replace")

def fhash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:20]

def tree(d):
    return [os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs]

def build_engine():
    exe = os.path.join(BUILD, "engine", "lbsx")
    rc, out = sh(["make", "-s", "-j8", "-C", HERE + "/engine", "B=" + BUILD + "/engine"], timeout=600)
    if rc != 0 or not os.path.exists(exe):
        print("engine build failed:\n" + out[-3000:]); sys.exit(2)
    return exe

def sources():
    return sorted(glob.glob(REPO + "/src/*.cpp"))

def compile_all(jobs):
    """jobs: list of (key, cmd, output). Returns key -> (ok, log)."""
    def one(j):
        key, cmd, out = j
        if os.path.exists(out): return key, (True, "")
        tmp = "%s.tmp%d.%s" % (out, os.getpid(), out.split(".")[-1])
        rc, log = sh(cmd + ["-o", tmp], timeout=400)
        if rc == 0: os.replace(tmp, out); return key, (True, "")
        return key, (False, log)
    with ThreadPoolExecutor(8) as ex:
        return dict(ex.map(one, jobs))

def build_bitcode(harnesses, log):
    """bitcode per harness file: repository sources + harness + runtime, linked."""
    os.makedirs(BUILD + "/bc", exist_ok=True)
    libs = [HERE + "/lib/prefix.h", HERE + "/lib/sx.h", HERE + "/lib/hx.h", HERE + "/lib/cx.h", HERE + "/lib/stub/random"]
    inc = tree(REPO + "/include") + tree(REPO + "/src")
    hk = fhash(inc + [HERE + "/lib/prefix.h", HERE + "/lib/stub/random"], " ".join(CFLAGS))
    jobs = []; srcs = sources(); outs = {}
    for s in srcs:
        o = "%s/bc/%s_%s.bc" % (BUILD, os.path.basename(s)[:-4], hk); outs[s] = o
        jobs.append((s, [CLANG] + CFLAGS + ["-emit-llvm", "-c", s], o))
    rt = "%s/bc/runtime_%s.bc" % (BUILD, fhash([HERE + "/lib/runtime.cpp"], " ".join(CFLAGS)))
    jobs.append(("rt", [CLANG] + CFLAGS + ["-D_GLIBCXX_EXTERN_TEMPLATE=0", "-emit-llvm", "-c", HERE + "/lib/runtime.cpp"], rt))
    ky = "%s/bc/keys_%s.bc" % (BUILD, fhash([HERE + "/lib/sx_keys.cpp", HERE + "/lib/sx.h"], " ".join(CFLAGS)))
    jobs.append(("ky", [CLANG] + CFLAGS + ["-emit-llvm", "-c", HERE + "/lib/sx_keys.cpp"], ky))
    for h in harnesses:
        hp = HERE + "/harness/" + h
        o = "%s/bc/h_%s_%s.bc" % (BUILD, h.replace(".", "_"), fhash(inc + libs + [hp], " ".join(CFLAGS))); outs[h] = o
        jobs.append((h, [CLANG] + CFLAGS + ["-emit-llvm", "-c", hp], o))
    res = compile_all(jobs)
    for s in srcs:
        if not res[s][0]:
            log.append("repository source does not compile with clang: %s\n%s" % (s, res[s][1][-2000:])); return None
    for k in ("rt", "ky"):
        if not res[k][0]: print("internal: runtime does not compile\n" + res[k][1][-3000:]); sys.exit(2)
    linked = {}
    for h in harnesses:
        if not res[h][0]:
            log.append("harness %s does not compile against the current tree: %s" % (h, res[h][1][-1500:])); continue
        o = outs[h][:-3] + "_%s.linked.bc" % hashlib.sha256((rt + ky + "".join(outs[s] for s in srcs)).encode()).hexdigest()[:10]
        if not os.path.exists(o):
            rc, out = sh([LLINK] + [outs[s] for s in srcs] + [rt, ky, outs[h], "-o", o + ".tmp"], timeout=120)
            if rc != 0: log.append("link of %s failed: %s" % (h, out[-1000:])); continue
            os.replace(o + ".tmp", o)
        linked[h] = o
    return linked

def build_native(h, variant):
    """native replay binary; variant: plain | asan"""
    d = BUILD + "/native"; os.makedirs(d, exist_ok=True)
    fl = NFLAGS + (["-O2"] if variant == "plain" else ["-O1", "-DSX_EMUL"] if variant == "emul" else ["-O1", "-DSX_ASAN", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"] if variant == "asan" else ["-O0", "-ftrivial-auto-var-init=pattern"])
    inc = tree(REPO + "/include") + tree(REPO + "/src")
    libs = [HERE + "/lib/" + x for x in ("sx.h", "hx.h", "cx.h", "native.cpp", "sx_keys.cpp", "stub/random")]
    hk = fhash(inc + libs + [HERE + "/harness/" + h], " ".join(fl))
    exe = "%s/%s_%s_%s" % (d, h.replace(".", "_"), variant, hk)
    if os.path.exists(exe): return exe
    objs = []; jobs = []
    for s in sources() + [HERE + "/harness/" + h, HERE + "/lib/native.cpp", HERE + "/lib/sx_keys.cpp"]:
        o = "%s_%s.o" % (exe, os.path.basename(s)); objs.append(o); jobs.append((s, ["g++"] + fl + ["-c", s], o))
    res = compile_all(jobs)
    bad = [k for k in res if not res[k][0]]
    if bad: return None
    rc, out = sh(["g++"] + fl + objs + ["-o", exe], timeout=200)
    for o in objs:
        try: os.unlink(o)
        except OSError: pass
    return exe if rc == 0 else None

def replay(h, entry, params, inputs, kind, rdir, tag, desc=False):
    """run the counterexample natively. Returns (reproduced, description, path)"""
    os.makedirs(rdir, exist_ok=True)
    f = os.path.join(rdir, tag + ".in")
    with open(f, "w") as o:
        for k, v in params.items(): o.write("param %s %d\n" % (k, v))
        for k, v in inputs:
            if not k.startswith("note:"): o.write("in %s %d\n" % (k, v))
    tries = [("plain", []), ("emul", ["170"] + (["desc"] if desc else [])), ("asan", None), ("plain", ["255"]), ("plain", ["0"]), ("plain", ["170"]), ("plain", ["1"]), ("o0", ["170"])]
    for variant, fill in tries:
        exe = build_native(h, variant)
        if not exe: continue
        env = dict(os.environ); env["ASAN_OPTIONS"] = "detect_leaks=0:max_malloc_fill_size=100000000:malloc_fill_byte=170:detect_stack_use_after_return=1"; env["UBSAN_OPTIONS"] = "halt_on_error=1"
        # a stack limit guards against runaway recursion, the timeout against loops
        rc, out = sh([exe, f, entry] + (fill or []), timeout=40, env=env)
        last = out.strip().splitlines()[-1] if out.strip() else ""
        if rc == "timeout" : bad, why = kind == "nontermination", "does not terminate within 40 s"
        else: bad, why = rc != 0 and rc != 3, "exit status %s: %s" % (rc, summarise(out))
        if bad:
            with open(f + ".txt", "w") as o:
                o.write("replay: %s %s %s %s\n%s\n\n%s" % (exe, f, entry, " ".join(fill or []), why, out[-6000:]))
            return True, why, f + ".txt"
    return False, "not reproduced natively", f

def summarise(out):
    for l in out.splitlines():
        if "REPLAY-VIOLATION" in l or "ERROR: AddressSanitizer" in l or "Assertion" in l or "runtime error" in l or "terminate called" in l: return l.strip()[:300]
    return (out.strip().splitlines() or [""])[-1][:300]

def load_known():
    r = []
    p = HERE + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) id=(\S+) entry=(\S+) match=/(.*?)/(?: where=(\S+))? :: (.*)$", l.strip())
            if m: r.append({"property": m[1], "id": m[2], "entry": m[3], "match": m[4], "pred": m[5], "what": m[6]})
    return r

def main():
    t0 = time.time()
    a = sys.argv[1:]; prop = a[0]; verbose = "-v" in a
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    only = a[a.index("--only") + 1] if "--only" in a else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    sys.path.insert(0, HERE)
    import plan
    runs = [r for r in plan.PLAN[prop] if tier == "thorough" or r.get("tier", "quick") == "quick"]
    if only: runs = [r for r in runs if r["entry"] == only or r.get("name") == only]
    log = []; exe = build_engine()
    linked = build_bitcode(sorted(set(r["h"] for r in runs)), log)
    work = tempfile.mkdtemp(prefix="lbsx_"); rdir = os.path.join(BUILD, "replay", prop)
    shutil.rmtree(rdir, ignore_errors=True)
    results = []; violations = []; knownhits = []; unconfirmed = []; vac = []
    known = [k for k in load_known() if k["property"] == prop]
    deadline = t0 + BUDGET[tier]
    for idx, r in enumerate(runs):
        name = r.get("name", r["entry"])
        if linked is None or r["h"] not in linked:
            results.append({"run": name, "skipped": "does not compile against this tree"}); continue
        left = deadline - time.time()
        if left < 5: results.append({"run": name, "skipped": "time budget used up"}); log.append("skipped %s: time" % name); continue
        params = dict(r.get("params", {}))
        tl = min(r.get("time", 300), left)
        out = os.path.join(work, "o%d.json" % idx)
        cmd = [exe, linked[r["h"]], "--entry", r["entry"], "--out", out, "--tmp", work, "--time", str(tl), "--workers", str(r.get("workers", 8)), "--frontier", str(r.get("frontier", 512)), "--seed", str(seed), "--steps", str(r.get("steps", 40000000))] + (["--desc"] if r.get("desc") else []) + (["-v"] if verbose else [])
        for k, v in params.items(): cmd += ["-p", "%s=%d" % (k, v)]
        dump = None
        if r.get("xcheck"):
            dump = os.path.join(work, "dump%d" % idx); os.makedirs(dump); cmd += ["--dump", dump]
        rc, so = sh(cmd, timeout=tl + 120)
        if verbose: print(so[-4000:])
        if rc != 0 or not os.path.exists(out):
            log.append("engine failed on %s: rc=%s %s" % (name, rc, so[-500:])); results.append({"run": name, "engine_failure": so[-300:]}); continue
        d = json.load(open(out)); d["run"] = name; d["params"] = params; d["bounds"] = r.get("bounds", "")
        if dump:
            d["cross_solver"] = cross(dump)
            if d["cross_solver"].get("disagreements"): log.append("solver disagreement in %s" % name)
        for m in r.get("reach", ["end"]):
            if not d["reach"].get(m): vac.append("%s: marker '%s' not reached" % (name, m)); d.setdefault("vacuous", []).append(m)
        results.append(d)
        if verbose:
            print(json.dumps({k: v for k, v in d.items() if k not in ("functions", "errors")}, indent=0)[:3000])
        for e in d["errors"]:
            text = "%s|%s|%s" % (e["kind"], e["msg"], e["where"])
            todo = []
            for ex in e["examples"]:
                hit = None
                for k in known:
                    if k["entry"] in ("*", name, r["entry"]) and re.search(k["match"], text):
                        iv = {}
                        for n, v in ex["inputs"]: iv.setdefault(n, []).append(v)
                        if not k["pred"] or eval(k["pred"], {"i": iv, "p": params}): hit = k; break
                if hit:
                    if hit["id"] not in [x["id"] for x in knownhits]: knownhits.append(hit)
                else: todo.append(ex)
            done = False
            if len([v for v in violations]) >= 4: todo = todo[:1]
            for j, ex in enumerate(todo[:4]):
                if done: break
                ok, why, path = replay(r["h"], r["entry"], params, ex["inputs"], e["kind"], rdir, "%s_%d_%d" % (re.sub(r"\W", "_", name), d["errors"].index(e), j), r.get("desc", False))
                if ok:
                    violations.append({"run": name, "error": text, "where": e["where"], "inputs": ex["inputs"], "native": why, "replay": path, "count": e["count"]}); done = True
            if todo and not done:
                unconfirmed.append({"run": name, "error": text, "stack": e["stack"][:400], "inputs": todo[0]["inputs"], "count": e["count"]})
        if violations and len(violations) >= 6: break
    shutil.rmtree(work, ignore_errors=True)
    ran = [d for d in results if "paths" in d]
    tot = lambda k: sum(d.get(k, 0) for d in ran)
    funcs = {}
    for d in ran:
        for f in d["functions"]:
            g = funcs.setdefault(f["name"], {"calls": 0, "insts": f["insts"], "covered": 0}); g["calls"] += f["calls"]; g["covered"] = max(g["covered"], f["covered"])
    ev = {"property": prop, "tier": tier, "seed": seed, "level": plan.LEVEL, "wall_s": round(time.time() - t0, 2), "violations": len(violations),
      "assumptions": plan.ASSUMPTIONS + plan.EXTRA.get(prop, []),
      "coverage": {
        "explanation": "Symbolic execution of the LLVM bitcode of /repo's current sources, solver: Z3 4.8.12. 'states' are completed symbolic paths (each stands for all inputs satisfying its path condition), 'transitions' executed IR instructions.",
        "states": tot("paths"), "transitions": tot("instructions"), "traces_validated_against_impl": len(violations),
        "queries": tot("queries"), "queries_sat": tot("sat"), "queries_unsat": tot("unsat"), "query_cache_hits": tot("cache_hits"), "solver_unknown": tot("solver_unknown"), "solver_seconds": round(tot("solver_s"), 2),
        "assertions_evaluated": tot("checks"), "assertions_decided_by_solver": tot("symbolic_checks"), "forks": tot("forks"),
        "exhaustive": bool(ran) and len(ran) == len(runs) and all(d["complete"] for d in ran) and not vac,
        "runs": [{k: d.get(k) for k in ("run", "params", "bounds", "paths", "error_paths", "assumed_away", "instructions", "max_path_instructions", "queries", "sat", "unsat", "solver_s", "wall_s", "complete", "timed_out", "states_left", "unsupported_msgs", "reach", "cross_solver", "skipped", "engine_failure", "vacuous") if k in d} for d in results],
        "functions_encoded": [{"function": k, **v} for k, v in sorted(funcs.items())],
        "samples": [s for d in ran for s in d["samples"]][:6],
        "violations": violations, "unconfirmed_counterexamples": unconfirmed, "known_findings_seen": [k["id"] for k in knownhits], "vacuity": vac, "log": log}}
    os.makedirs(HERE + "/evidence", exist_ok=True)
    json.dump(ev, open(HERE + "/evidence/%s.json" % prop, "w"), indent=1)
    for d in results:
        if "paths" in d: print("%-34s paths=%-7d instr=%-11d queries=%-7d solver=%.1fs wall=%.1fs %s%s" % (d["run"], d["paths"], d["instructions"], d["queries"], d["solver_s"], d["wall_s"], "complete" if d["complete"] else "INCOMPLETE(%s left=%d unk=%d unsup=%s)" % ("timeout" if d["timed_out"] else "", d["states_left"], d["solver_unknown"], d["unsupported_msgs"][:3]), "" if not d["errors"] else " errors=%d" % len(d["errors"])))
        else: print("%-34s %s" % (d["run"], d.get("skipped") or d.get("engine_failure")))
    for l in log: print("note:", l[:600])
    for v in vac: print("note: vacuity:", v)
    for u in unconfirmed: print("note: unconfirmed counterexample (not reported): %s %s inputs=%s\n      %s" % (u["run"], u["error"], u["inputs"][:40], u["stack"]))
    for k in knownhits: print("KNOWN-FINDING: property=%s %s: %s" % (prop, k["id"], k["what"]))
    for v in violations: print("VIOLATION property=%s replay=%s" % (prop, v["replay"])); print("  %s [%s] native: %s" % (v["error"], v["run"], v["native"]))
    sys.exit(1 if violations else 0)

def cross(d):
    fs = sorted(glob.glob(d + "/*.smt2"))[:40]; agree = dis = unk = 0
    for f in fs:
        rc, a = sh(["cvc5", "--tlimit=10000", f], timeout=20); rc, b = sh(["z3", "-T:10", f], timeout=20)
        a, b = (a.strip().splitlines() or ["?"])[0], (b.strip().splitlines() or ["?"])[0]
        if a in ("sat", "unsat") and b in ("sat", "unsat"):
            if a == b: agree += 1
            else: dis += 1
        else: unk += 1
    return {"queries_compared_z3_cvc5": agree + dis, "disagreements": dis, "inconclusive": unk}

if __name__ == "__main__":
    main()
