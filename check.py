#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   decide one property with nbsym (see DESIGN.md).
exit 0: held on everything explored;  exit 1 + VIOLATION line: broken;  exit 2: the check itself failed."""
import sys, os, json, subprocess, shutil, time, re, concurrent.futures as cf, itertools, random
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS
REPO = os.environ.get("NB_REPO", "/repo")
ENG = os.path.join(HERE, "engine"); BIN = os.path.join(ENG, "bin")
JOBS = int(os.environ.get("NB_JOBS", "8"))
T0 = time.time()

def die(msg, code=2):
    print("ERROR: " + msg); sys.stdout.flush(); sys.exit(code)

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def base_flags(c, native):
    f = ["-std=c++26", "-DBOOST_HANA_CONFIG_ENABLE_STRING_UDL", "-ftemplate-backtrace-limit=0", "-DBOOST_ASIO_NO_TYPEID",
         "-Wno-everything"]
    for s in c.get("stubs_native" if native and "stubs_native" in c else "stubs", []):
        f += ["-I" + os.path.join(HERE, "stubs", s)]
    f += ["-I/usr/include/jsoncpp", "-include", "cstdint", "-include", "string", "-include", "algorithm",
          "-I" + os.path.join(REPO, "include"), "-I" + REPO, "-I" + os.path.join(ENG, "rt"), "-I" + os.path.join(HERE, "harness")]
    return f + c.get("flags", [])

UB = "shift-exponent,signed-integer-overflow,integer-divide-by-zero,unreachable,return,bounds"
SYMF = ["-O1", "-gline-tables-only", "-fno-pic", "-fno-pie", "-fno-vectorize", "-fno-slp-vectorize"] + [
        "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fsanitize=" + UB, "-fsanitize-trap=all"]

def build_bitcode(pid, c, wd):
    outs = []
    src = os.path.join(HERE, "harness", c["harness"])
    bc = os.path.join(wd, "h.bc")
    r = sh(["clang++-18"] + base_flags(c, False) + c.get("symflags", SYMF) + c.get("symflags_extra", []) + ["-emit-llvm", "-c", src, "-o", bc])
    if r.returncode: return None, "harness does not compile against the current tree:\n" + r.stdout[-6000:]
    out = os.path.join(wd, "linked.bc")
    r = sh(["llvm-link-18", bc, "--only-needed", os.path.join(BIN, "rt.bc"), "-o", out])
    if r.returncode: return None, "link: " + r.stdout[-3000:]
    return out, ""

def build_native(pid, c, wd, plain=False):
    src = os.path.join(HERE, "harness", c["harness"])
    out = os.path.join(wd, "native_plain" if plain else "native")
    san = ["-O0" if plain else "-O1", "-g"] + ([] if plain else ["-fsanitize=address," + UB, "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"])
    r = sh(["clang++-18"] + base_flags(c, True) + ["-DNB_NATIVE"] + san + [src, os.path.join(ENG, "rt", "native.cpp"), "-o", out] + c.get("libs", []))
    if r.returncode: return None, "native harness does not compile:\n" + r.stdout[-6000:]
    return out, ""

def case_text(entry, params, inputs):
    t = ["case", "entry " + entry] + ["param %s %s" % kv for kv in sorted(params.items())] + ["in %s %s" % (n, h) for n, h in inputs]
    return "\n".join(t) + "\n"

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1:handle_abort=0", UBSAN_OPTIONS="print_stacktrace=0")

def run_native(binp, text, wd, name, wrapper=None, timeout=600):
    p = os.path.join(wd, name)
    open(p, "w").write(text)
    try: r = sh((wrapper or []) + [binp, p], env=ENV, timeout=timeout)
    except subprocess.TimeoutExpired: return None
    res = []; cur = None
    for line in r.stdout.split("\n"):
        if line.startswith("CASE "): cur = dict(out=[], exit=None); res.append(cur)
        elif line.startswith("EXIT ") and cur is not None: cur["exit"] = int(line.split()[1])
        elif cur is not None: cur["out"].append(line)
    return res

def run_shard(binp, bc, wd, k, sh_, c, tier):
    entry, params, opts = sh_
    out = os.path.join(wd, "shard%d.json" % k)
    cmd = [os.path.join(BIN, "nbsym"), "-e", entry, "-o", out, "--time", str(opts.get("time", c.get("time", 700))), "--tests", str(opts.get("tests", c.get("tests", 40)))]
    for a in ("max-steps", "alloc-limit", "timeout-ms", "depth"):
        v = opts.get(a, c.get(a))
        if v is not None: cmd += ["--" + a, str(v)]
    if c.get("known"): cmd += ["--all-vios"]
    for kv in params.items(): cmd += ["-p", "%s=%s" % kv]
    cmd.append(bc)
    try: r = sh(["bash", "-c", "ulimit -v %d; exec \"$@\"" % (opts.get("mem_gb", 7) * 1024 * 1024), "x"] + cmd, timeout=850)
    except subprocess.TimeoutExpired: return dict(error="shard timed out", entry=entry, params=params)
    if not os.path.exists(out) or os.path.getsize(out) == 0: return dict(error="engine crashed (%s): %s" % (r.returncode, r.stdout[-800:]), entry=entry, params=params)
    try: d = json.load(open(out))
    except Exception as e: return dict(error="bad engine output %s" % e, entry=entry, params=params)
    d["params"] = params; d["entry"] = entry
    return d

def known_findings():
    p = os.path.join(HERE, "known-findings.json")
    return json.load(open(p)) if os.path.exists(p) else dict(findings=[], fixed=[])

def main():
    pid = sys.argv[1]; tier = (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1); random.seed(seed)
    c = CHECKS[pid]
    if not os.path.exists(os.path.join(BIN, "nbsym")) or not os.path.exists(os.path.join(BIN, "rt.bc")):
        r = sh(["bash", os.path.join(HERE, "setup.sh")])
        if r.returncode: die("engine build failed\n" + r.stdout[-3000:])
    wd = os.path.join(os.environ.get("NB_WORK", os.path.join(HERE, "work")), pid + ("" if tier == "quick" else "_t")); shutil.rmtree(wd, ignore_errors=True); os.makedirs(wd)
    evd = os.path.join(HERE, "evidence"); os.makedirs(evd, exist_ok=True)
    parts = c["parts"] if "parts" in c else [c]
    shards_all = []; covers_want = set(); 
    pool = cf.ThreadPoolExecutor(JOBS)
    builds = []
    for i, p in enumerate(parts):
        pw = os.path.join(wd, "p%d" % i); os.makedirs(pw)
        builds.append((p, pw, pool.submit(build_bitcode, pid, p, pw), pool.submit(build_native, pid, p, pw)))
    futs = []; natives = {}
    k = 0
    for p, pw, fb, fn in builds:
        bc, err = fb.result()
        if not bc: die(err)
        gen = p["shards"](tier)
        for s in gen:
            s = (s[0], s[1], s[2] if len(s) > 2 else {})
            futs.append((p, pw, fn, pool.submit(run_shard, None, bc, pw, k, s, p, tier))); k += 1
        covers_want |= set(p.get("covers", []))
    results = []
    for p, pw, fn, f in futs: results.append((p, pw, fn, f.result()))
    errors = []; agg = dict(paths=0, states=0, steps=0, queries=0, z3_calls=0, cache_hits=0, solver_s=0.0, asserts=0, assert_queries=0)
    covers = set(); functions = set(); lines = set(); ends = {}; maxq = 0
    for p, pw, fn, d in results:
        if d.get("error"): errors.append("%s %s: %s" % (d.get("entry"), d.get("params"), d["error"]))
        for a in agg: agg[a] += d.get(a, 0)
        maxq = max(maxq, d.get("max_query_s", 0))
        covers |= set(d.get("covers", [])); functions |= set(d.get("functions", [])); lines |= set(d.get("lines", []))
        for e, n in d.get("path_ends", {}).items(): ends[e] = ends.get(e, 0) + n
    # ---- native: replay violations first
    confirmed = []; unconfirmed = []
    kf = known_findings(); known_hit = {}
    for p, pw, fn, d in results:
        for vi, v in enumerate(d.get("violations", [])):
            if len(confirmed) >= 5: break
            nat, err = fn.result()
            text = case_text(d["entry"], d["params"], v["inputs"])
            ok = False; detail = ""
            if nat:
                r = run_native(nat, text, pw, "vio_%s_%d.case" % (d["entry"], vi))
                if r and r[0]["exit"] not in (0, 78, 79, 2, None): ok = True; detail = "exit %s: %s" % (r[0]["exit"], "\n".join(r[0]["out"])[-3000:])
                elif r: detail = "native exit %s: %s" % (r[0]["exit"], " ".join(r[0]["out"])[-500:])
            if not ok and v["kind"] in ("uninit", "memory", "ub"):
                np_, err = build_native(pid, p, pw, plain=True)
                if np_:
                    p2 = os.path.join(pw, "vg.case"); open(p2, "w").write(text)
                    r = sh(["valgrind", "-q", "--error-exitcode=99", "--child-silent-after-fork=no", np_, p2, "single"], env=ENV, timeout=300)
                    if r.returncode not in (0, 78, 79, 2): ok = True; detail = "valgrind / plain build: exit %d: %s" % (r.returncode, r.stdout[-3000:])
            v2 = dict(v, entry=d["entry"], params=d["params"], native=detail)
            hit = None
            for fnd in kf.get("findings", []):
                if fnd["property"] == pid and re.fullmatch(fnd.get("entry", ".*"), d["entry"]) and re.search(fnd["match"], v["kind"] + ": " + v["msg"] + " @ " + v["loc"]): hit = fnd
            if hit: known_hit.setdefault(hit["id"], hit); continue
            (confirmed if ok else unconfirmed).append((v2, text, p))
    for h in known_hit.values(): print("KNOWN-FINDING: property=%s %s" % (pid, h["what"]))
    # ---- native: validate the translation on the explored paths
    validated = 0; mism = []; samples = []
    if not confirmed:
        jobs = []
        for p, pw, fn, d in results:
            ts = d.get("tests", [])
            if not ts: continue
            nat, err = fn.result()
            if not nat: errors.append(err); break
            jobs.append((d, ts, pool.submit(run_native, nat, "".join(case_text(d["entry"], d["params"], t["inputs"]) for t in ts), pw, "tests_%d.case" % len(jobs))))
        for d, ts, f in jobs:
            r = f.result()
            if r is None or len(r) != len(ts): mism.append("%s %s: native run incomplete" % (d["entry"], d["params"])); continue
            for t, x in zip(ts, r):
                obs = [l[4:] for l in x["out"] if l.startswith("obs ")]; cov = [l[6:] for l in x["out"] if l.startswith("cover ")]
                want = ["%s %s" % (n, h) for n, h in t["obs"]]
                # integer observations are 8 bytes natively
                same = x["exit"] == 0 and cov == t["covers"] and len(obs) == len(want) and all(o.split(" ")[0] == w.split(" ")[0] and o.split(" ")[1].ljust(16, "0") == w.split(" ")[1].ljust(16, "0") for o, w in zip(obs, want))
                if same: validated += 1
                else: mism.append("%s %s inputs %s: engine covers %s obs %s / native exit %s %s" % (d["entry"], d["params"], t["inputs"], t["covers"], want, x["exit"], x["out"][-6:]))
            if len(samples) < 12: samples.append(dict(entry=d["entry"], params=d["params"], inputs=ts[0]["inputs"][:20], covers=ts[0]["covers"]))
    missing = sorted(covers_want - covers)
    rc = 0
    rdir = os.path.join(evd, "replay"); os.makedirs(rdir, exist_ok=True)
    if confirmed:
        rc = 1
        for i, (v, text, p) in enumerate(confirmed):
            path = os.path.join(rdir, "%s-%d.case" % (pid, i)); open(path, "w").write(text)
            open(os.path.join(rdir, "%s-%d.txt" % (pid, i)), "w").write("harness %s entry %s params %s\nkind %s\nmsg %s\nloc %s\nstack\n%s\ninputs %s\nnative replay: %s\nreplay with: python3 check.py --replay %s %s\n" % (p["harness"], v["entry"], v["params"], v["kind"], v["msg"], v["loc"], v["stack"], v["inputs"], v["native"], pid, path))
            print("VIOLATION property=%s replay=%s" % (pid, path)); print("  %s: %s  [%s %s] at %s" % (v["kind"], v["msg"], v["entry"], v["params"], v["loc"][:300]))
    elif unconfirmed:
        rc = 2
        for v, text, p in unconfirmed[:5]: print("UNCONFIRMED (engine only) %s: %s [%s %s] at %s\n  inputs %s\n  native: %s\n%s" % (v["kind"], v["msg"], v["entry"], v["params"], v["loc"][:300], v["inputs"], v["native"], v["stack"]))
    elif errors:
        rc = 2
        for e in errors[:8]: print("ERROR " + e)
    elif mism:
        rc = 2
        print("ERROR %d paths differ between engine and native run" % len(mism))
        for m in mism[:4]: print("  " + m)
    elif missing:
        rc = 2; print("ERROR vacuous: never reached " + ", ".join(missing))
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - T0, 2), violations=len(confirmed),
              coverage=dict(states=agg["states"], transitions=agg["steps"], traces_validated_against_impl=validated, samples=samples, exhaustive=False,
                            paths=agg["paths"], path_ends=ends, assertions=agg["asserts"], assertion_queries=agg["assert_queries"], queries=agg["queries"], solver_calls=agg["z3_calls"], query_cache_hits=agg["cache_hits"], solver_s=round(agg["solver_s"], 3), max_query_s=round(maxq, 3),
                            functions_encoded=sorted(functions), repo_lines_encoded=len(lines), witnesses_reached=sorted(covers), shards=len(results), bounds=c.get("bounds", "")),
              assumptions=c.get("assumptions", []))
    json.dump(ev, open(os.path.join(evd, pid + ".json"), "w"), indent=1)
    print("%s %s: rc=%d shards=%d paths=%d steps=%d queries=%d solver=%.1fs maxq=%.2fs validated=%d/%d covers=%d wall=%.1fs ends=%s" % (pid, tier, rc, len(results), agg["paths"], agg["steps"], agg["queries"], agg["solver_s"], maxq, validated, validated + len(mism), len(covers), time.time() - T0, ends))
    if not os.environ.get("NB_KEEP"): shutil.rmtree(wd, ignore_errors=True)
    sys.exit(rc)

def replay():
    pid, path = sys.argv[2], sys.argv[3]; c = CHECKS[pid]; parts = c.get("parts", [c]); text = open(path).read(); wd = os.path.join(HERE, "work", "replay"); shutil.rmtree(wd, ignore_errors=True); os.makedirs(wd)
    for p in parts:
        nat, err = build_native(pid, p, wd)
        if not nat: die(err)
        r = run_native(nat, text, wd, "r.case")
        if r and r[0]["exit"] == 2: continue
        print("\n".join(r[0]["out"])); print("exit", r[0]["exit"]); sys.exit(0)

if __name__ == "__main__":
    if sys.argv[1] == "--replay": replay()
    else: main()
