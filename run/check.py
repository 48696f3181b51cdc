#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--keep] [--only entry]
Rebuilds the harness and the /repo sources it needs to LLVM IR, decides every entry with the vx engine,
replays counterexamples and witness paths natively, writes evidence/<property>.json.  Exit 0 held / 1 violation."""
import sys, os, json, subprocess, time, shutil, hashlib, re, random, threading, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VX_REPO", "/repo")
sys.path.insert(0, os.path.join(V, "run"))
import props
NJ = int(os.environ.get("VX_JOBS", "8"))
INC = ["", "core", "solvers", "cdream", "cdream/include", "function_objects", "function_objects_1d", "profile_fitting"]
DEFS = ["-DANSI", "-DUSING_SCONS", "-DLINUX", "-DFFTW_THREADING", "-DNO_SIGNALS"]
CLANG = "clang++-18" if shutil.which("clang++-18") else "clang++"
LINK = "llvm-link-18" if shutil.which("llvm-link-18") else "llvm-link"
def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
class BuildError(Exception): pass
def cc_env():
    e = dict(os.environ); e["CCACHE_DIR"] = os.path.join(V, "build", "ccache"); e["CCACHE_MAXSIZE"] = "2G"; e["CCACHE_NOHASHDIR"] = "1"; return e
CCACHE = [shutil.which("ccache")] if shutil.which("ccache") and os.environ.get("VX_CCACHE", "1") == "1" else []
def compile_one(args):
    src, out, flags = args
    r = sh(CCACHE + [CLANG] + flags + ["-c", src, "-o", out], env=cc_env())
    if r.returncode: raise BuildError("%s: %s" % (src, r.stdout[-3000:]))
    return out
def paths(group):
    h = [os.path.join(V, "harness", x) for x in group["harness"]]
    r = [os.path.join(REPO, x) for x in group.get("src", [])]
    return h, r
def build_group(prop, group, tier, work, pool, native=True):
    h, r = paths(group)
    common = ["-std=c++17", "-w", "-ffp-contract=off", "-DTIER=%d" % (2 if tier == "thorough" else 1), "-include", "cstring"] + DEFS + ["-I" + os.path.join(REPO, d) for d in INC] + ["-I" + os.path.join(V, "harness"), "-I" + os.path.join(V, "engine")] + group.get("flags", [])
    bcf = common + ["-O0", "-Xclang", "-disable-O0-optnone", "-gline-tables-only", "-fno-exceptions", "-D_GLIBCXX_ASSERTIONS", "-DVX_ENGINE", "-emit-llvm"]
    g = os.path.join(work, group["name"]); os.makedirs(g, exist_ok=True)
    hflags = group.get("hflags", []); rflags = group.get("rflags", [])
    futs = []; bcs = []
    for i, s in enumerate(h + [os.path.join(V, "harness", "vx_rt.cpp")]):
        o = os.path.join(g, "h%d_%s.bc" % (i, os.path.basename(s))); bcs.append(o); futs.append(pool.submit(compile_one, (s, o, bcf + hflags)))
    for i, s in enumerate(r):
        o = os.path.join(g, "r%d_%s.bc" % (i, os.path.basename(s))); bcs.append(o); futs.append(pool.submit(compile_one, (s, o, bcf + rflags)))
    nat = common + ["-D_GLIBCXX_ASSERTIONS", "-g1", "-O0" if group.get("intra") else "-O1", "-fno-omit-frame-pointer"]
    san = ["-fsanitize=address,undefined", "-fno-sanitize=vptr,function,float-divide-by-zero,signed-integer-overflow,float-cast-overflow", "-fno-sanitize-recover=all"]
    if group.get("fptoint"): san[1] = san[1].replace(",float-cast-overflow", ""); san.insert(1, "-fsanitize=float-cast-overflow")
    if group.get("overflow"): san = ["-fsanitize=address,undefined", "-fno-sanitize=vptr,function,float-divide-by-zero", "-fno-sanitize-recover=all"]
    nfuts = []; nobjs = []
    if native:
        for i, s in enumerate(h + [os.path.join(V, "harness", "vx_native.cpp")] + r):
            o = os.path.join(g, "n%d_%s.o" % (i, os.path.basename(s))); nobjs.append(o); nfuts.append(pool.submit(compile_one, (s, o, nat + san + (hflags if i <= len(h) else rflags))))
    for f in futs: f.result()
    bc = os.path.join(g, "all.bc")
    x = sh([LINK] + ["--override=" + b for b in []] + bcs + ["-o", bc])
    if x.returncode: raise BuildError("llvm-link: " + x.stdout[-2000:])
    return dict(bc=bc, nfuts=nfuts, nobjs=nobjs, san=san, dir=g, common=common, hr=(h, r), nat=nat, hflags=hflags, rflags=rflags)
def wraps(h, group=None, objs=()):  # functions a harness replaces by name (same meaning as the engine's redirection)
    ws = set()
    for f in h: ws |= set(re.findall(r"\b__wrap_(\w+)", open(f).read()))
    if group and group.get("intra"):  # also calls from within the defining source file
        for o in objs: sh(["objcopy"] + ["--weaken-symbol=" + w for w in sorted(ws)] + [o])
        return ["-Wl,--defsym=%s=__wrap_%s" % (w, w) for w in sorted(ws)]
    return ["-Wl,--wrap=" + w for w in sorted(ws)]
def link_native(b, group):
    for f in b["nfuts"]: f.result()
    exe = os.path.join(b["dir"], "native")
    x = sh([CLANG] + b["nobjs"] + wraps(b["hr"][0], group, b["nobjs"]) + b["san"] + ["-rdynamic", "-o", exe] + group.get("libs", []) + ["-lgsl", "-lgslcblas", "-lm", "-ldl", "-lpthread"])
    if x.returncode: raise BuildError("native link: " + x.stdout[-3000:])
    return exe
PLOCK = threading.Lock()
def build_plain(b, group, pool):  # uninstrumented build for valgrind
    with PLOCK: return build_plain1(b, group, pool)
def build_plain1(b, group, pool):
    exe = os.path.join(b["dir"], "plain")
    if os.path.exists(exe): return exe
    h, r = b["hr"]; objs = []; fs = []
    for i, s in enumerate(h + [os.path.join(V, "harness", "vx_native.cpp")] + r):
        o = os.path.join(b["dir"], "p%d_%s.o" % (i, os.path.basename(s))); objs.append(o); fs.append(pool.submit(compile_one, (s, o, b["common"] + ["-D_GLIBCXX_ASSERTIONS", "-g1", "-O0"] + (b["hflags"] if i <= len(h) else b["rflags"]))))
    for f in fs: f.result()
    x = sh([CLANG] + objs + wraps(h, group, objs) + ["-rdynamic", "-o", exe] + group.get("libs", []) + ["-lgsl", "-lgslcblas", "-lm", "-ldl", "-lpthread"])
    if x.returncode: raise BuildError("plain link: " + x.stdout[-2000:])
    return exe
def write_inputs(path, inputs):
    with open(path, "w") as f:
        for n, v in inputs: f.write("%s %s\n" % (n.replace(" ", "_"), v[2:] if v.startswith("0x") else v))
ASAN = "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:max_allocation_size_mb=8000"
def run_native(exe, entry, inpfile, rep, timeout=30, valgrind=False):
    env = dict(os.environ, VX_REPORT=rep, ASAN_OPTIONS=ASAN, UBSAN_OPTIONS="halt_on_error=1:exitcode=98:print_stacktrace=1")
    if os.path.exists(rep): os.remove(rep)
    cmd = [exe, entry, inpfile]
    if valgrind: cmd = ["valgrind", "-q", "--error-exitcode=97", "--undef-value-errors=yes"] + cmd
    try: p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, env=env, cwd=os.path.dirname(rep)); rc, out = p.returncode, p.stdout
    except subprocess.TimeoutExpired: rc, out = "timeout", ""
    lines = open(rep, errors="replace").read().splitlines() if os.path.exists(rep) else []
    return rc, out, lines
def confirm(b, exe, group, entry, v, idx, pool):
    inp = os.path.join(b["dir"], "cex_%s_%d.txt" % (entry, idx)); write_inputs(inp, v["inputs"]); rep = os.path.join(b["dir"], "rep_%s_%d.txt" % (entry, idx))
    rc, out, lines = run_native(exe, entry, inp, rep, timeout=40)
    fail = [l for l in lines if l.startswith("VX-FAIL")]
    if any(l.startswith("VX-ASSUME-FAILED") for l in lines): return False, "assumption not met natively", out
    if v["kind"] == "steps": return rc == "timeout", "native run %s" % rc, out
    if v["kind"] == "check" or v["kind"] == "exit":
        if fail: return True, fail[0], out
    if rc == "timeout": return True, "native run does not terminate", out
    if rc in (98, 99) or (isinstance(rc, int) and rc < 0): 
        m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*)", out); return True, m.group(1)[:200] if m else "native crash rc=%s" % rc, out
    if fail: return True, fail[0], out
    if v["kind"] in ("uninit",) or (v["kind"] == "memory"):
        try: pl = build_plain(b, group, pool)
        except BuildError as e: return False, "plain build failed", str(e)
        rc, out, lines = run_native(pl, entry, inp, rep, timeout=120, valgrind=True)
        if rc == 97: m = re.search(r"==\d+== (Conditional jump[^\n]*|Use of uninit[^\n]*|Invalid [^\n]*|Mismatched[^\n]*|Syscall param[^\n]*)", out); return True, "valgrind: " + (m.group(1) if m else "error"), out
    return False, "not reproduced (rc=%s)" % rc, out
def nanh(x): x = int(x, 16); return (x & 0x7ff0000000000000) == 0x7ff0000000000000 and (x & 0xfffffffffffff) != 0
def validate(b, exe, entry, w, idx):
    inp = os.path.join(b["dir"], "wit_%s_%d.txt" % (entry, idx)); write_inputs(inp, w["inputs"]); rep = os.path.join(b["dir"], "wrep_%s_%d.txt" % (entry, idx))
    rc, out, lines = run_native(exe, entry, inp, rep, timeout=60)
    obs = [l.split()[1:] for l in lines if l.startswith("VX-OBS")]
    exp = w["obs"]
    if rc != 0 and not any(l.startswith("VX-EXIT") for l in lines): return False, "native run of a witness path ended with rc=%s: %s" % (rc, (lines[-1] if lines else out[-300:]))
    if len(obs) != len(exp): return False, "observation count differs (%d native, %d symbolic)" % (len(obs), len(exp))
    for a, e in zip(obs, exp):
        if a[0] != e[0].replace(" ", "_") and a[0] != e[0].split()[0]: return False, "observation order differs"
        av, ev = int(a[1], 16), int(e[1], 16)
        if av != ev:
            if e[2] and nanh(a[1]) and nanh(e[1]): continue
            if not e[2] and (av & 0xffffffff) == (ev & 0xffffffff): continue
            import struct
            if e[2]:
                x, y = struct.unpack("<dd", struct.pack("<QQ", av, ev))
                if x == y or abs(x - y) <= 1e-12 * max(abs(x), abs(y)): continue
            return False, "observation %s differs: native %s, symbolic %s" % (e[0], a[1], e[1])
    return True, ""
def known(prop):
    p = os.path.join(V, "known_findings.json")
    return [k for k in (json.load(open(p)) if os.path.exists(p) else []) if k.get("property") == prop and k.get("status") == "known"]
def matches(k, entry, v):
    if k.get("entry") and k["entry"] != entry: return False
    if k.get("kind") and k["kind"] != v["kind"]: return False
    if k.get("msg") and k["msg"] != v["msg"]: return False
    if k.get("function") and not any(k["function"] in s.split(" @ ")[0] for s in v["stack"][:k.get("depth", 3)]): return False
    if k.get("inputs"):
        d = dict(v["inputs"])
        for n, val in k["inputs"].items():
            if n not in d or int(d[n], 16) not in ([val] if isinstance(val, int) else val): return False
    return True
def main():
    t0 = time.time(); a = sys.argv[1:]; prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    only = a[a.index("--only") + 1] if "--only" in a else None
    verbose = "-v" in a
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = props.PROPS[prop]
    work = os.path.join(V, "build", "work", prop + ("_t" if tier == "thorough" else "")); shutil.rmtree(work, ignore_errors=True); os.makedirs(work, exist_ok=True)
    r = sh([os.path.join(V, "engine", "build.sh")])
    if r.returncode: print("engine build failed\n" + r.stdout[-3000:]); return 2
    budget = P.get("budget", 600) if tier == "quick" else P.get("tbudget", 3000)
    pool = cf.ThreadPoolExecutor(NJ); runpool = cf.ThreadPoolExecutor(NJ)
    results, builds, errors = [], {}, []
    def run_engine(gname, bc, e, part, nparts):
        out = os.path.join(work, "%s_%s_%d.json" % (gname, e["fn"], part)); tm = e.get("time", 200) if tier == "quick" else e.get("ttime", e.get("time", 200) * 4)
        left = budget - (time.time() - t0); tm = max(10, min(tm, left))
        cmd = ["bash", "-c", "ulimit -v %d; exec \"$@\"" % (int(e.get("mem", 8)) * 1024 * 1024), "x", os.path.join(V, "build", "vx"), "--entry", e["fn"], "--out", out, "--repo", REPO, "--time", "%.0f" % tm, "--part", "%d/%d" % (part, nparts), "--steps", str(e.get("steps", 30000000))] + e.get("opts", []) + (["-v"] if verbose else []) + [bc]
        try: p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=tm + 120)
        except subprocess.TimeoutExpired: return dict(entry=e["fn"], part=part, error="engine timeout")
        if verbose: sys.stderr.write(p.stdout[-4000:])
        try: return json.load(open(out))
        except Exception as ex: return dict(entry=e["fn"], part=part, error="engine failed rc=%s: %s" % (p.returncode, p.stdout[-600:]))
    jobs = []
    for group in P["groups"]:
        if group.get("tier") == "thorough" and tier != "thorough": continue
        ents = [e for e in group["entries"] if (not only or e["fn"] == only) and (tier == "thorough" or not e.get("thorough"))]
        if not ents: continue
        try: b = build_group(prop, group, tier, work, pool)
        except BuildError as ex: errors.append("build of %s failed: %s" % (group["name"], ex)); continue
        builds[group["name"]] = (b, group)
        for e in ents:
            n = e.get("parts", 1) if tier == "quick" else e.get("tparts", e.get("parts", 1))
            for part in range(n): jobs.append((group["name"], e, runpool.submit(run_engine, group["name"], b["bc"], e, part, n)))
    for gname, e, f in jobs:
        d = f.result(); d["group"] = gname; d["spec"] = e; results.append(d)
        if d.get("error"): errors.append("%s: %s" % (e["fn"], d["error"]))
    exes = {}
    for gname, (b, group) in builds.items():
        try: exes[gname] = link_native(b, group)
        except BuildError as ex: errors.append("native build of %s failed: %s" % (gname, ex))
    # replay
    K = known(prop); viol, kf, unconf = [], [], []; n = 0; validated, mism = 0, []
    vj = []
    for d in results:
        if d.get("error"): continue
        gname = d["group"]
        if gname not in exes: continue
        b, group = builds[gname]
        for v in d["violations"]:
            if v["kind"] in P.get("skip_kinds", []): continue
            n += 1; vj.append((d, v, pool.submit(confirm, b, exes[gname], group, d["entry"], v, n, runpool)))
    wj = []
    rnd = random.Random(seed); wtot = [(d, w) for d in results if not d.get("error") and d["group"] in exes for w in d["witnesses"] if not d["violations"]]
    rnd.shuffle(wtot); byent = {}
    for d, w in wtot:
        c = byent.setdefault(d["entry"], 0)
        if c >= (12 if tier == "thorough" else 6): continue
        byent[d["entry"]] += 1; n += 1
        wj.append((d, w, pool.submit(validate, builds[d["group"]][0], exes[d["group"]], d["entry"], w, n)))
    repdir = os.path.join(V, "evidence", "replay"); os.makedirs(repdir, exist_ok=True)
    for f in os.listdir(repdir):
        if f.startswith(prop + "-"): os.remove(os.path.join(repdir, f))
    for d, v, f in vj:
        ok, how, out = f.result()
        rec = dict(entry=d["entry"], kind=v["kind"], msg=v["msg"], loc=v["loc"], stack=v["stack"], inputs=v["inputs"], confirmed=ok, how=how)
        hit = next((k for k in K if matches(k, d["entry"], v)), None)
        if not ok: unconf.append(rec); continue
        if hit: kf.append((hit, rec)); continue
        p = os.path.join(repdir, "%s-%d.txt" % (prop, len(viol) + 1))
        with open(p, "w") as fo:
            fo.write("property %s violated: [%s] %s at %s\nentry %s, harness %s\nnative replay: %s\nstack:\n  %s\ninputs (bits):\n" % (prop, v["kind"], v["msg"], v["loc"], d["entry"], builds[d["group"]][1]["harness"], how, "\n  ".join(v["stack"])))
            for q in v["inputs"]: fo.write("  %s %s\n" % tuple(q))
            fo.write("native output:\n" + out[-3000:])
        rec["replay"] = p; viol.append(rec)
    for d, w, f in wj:
        ok, how = f.result()
        if ok: validated += 1
        else: mism.append("%s: %s" % (d["entry"], how))
    good = [d for d in results if not d.get("error")]
    S = lambda k: sum(d.get(k, 0) for d in good)
    fns = sorted({"%s (%s:%d)" % (f[0], f[1], f[2]) for d in good for f in d["functions"]})
    missing = []
    for gname, (b, group) in builds.items():
        for e in group["entries"]:
            rs = [d for d in good if d["entry"] == e["fn"] and d["group"] == gname]
            if not rs: continue
            tags = set(); 
            for d in rs: tags |= set(d["reach"])
            for t in e.get("reach", []):
                if t not in tags: missing.append("%s:%s" % (e["fn"], t))
    incomplete = sorted({d["entry"] for d in good if not d["complete"]})
    seen = set(); samples = []
    for d in good:
        if d["entry"] in seen: continue
        seen.add(d["entry"]); w = d["witnesses"][0] if d["witnesses"] else None
        samples.append(dict(entry=d["entry"], paths=d["paths"], inputs=(w["inputs"][:12] if w else []), observed=(w["obs"][:6] if w else []), check_sites=dict(list(d["check_sites"].items())[:6])))
    cov = dict(states=S("paths"), transitions=S("instructions"), traces_validated_against_impl=validated, samples=samples[:12], exhaustive=not incomplete and not errors and S("unknown") == 0,
        queries=S("queries"), queries_sat=S("sat"), queries_unsat=S("unsat"), queries_unknown=S("unk"), query_cache_hits=S("cache_hits"), interval_decided=S("interval_decided"), branches_kept_without_feasibility_proof=S("over"), solver_seconds=round(S("solver_seconds"), 3), max_query_seconds=max([d["max_query_seconds"] for d in good] + [0]),
        checks_evaluated=S("checks"), checks_discharged=S("checks_discharged"), functions_encoded=fns, functions_encoded_count=len(fns),
        bounds=[dict(entry=e["fn"], bounds=(e.get("tbounds") if tier == "thorough" else None) or e.get("bounds", "")) for g in P["groups"] for e in g["entries"] if (tier == "thorough" or not e.get("thorough"))],
        outside_the_claim=P.get("outside", ""), incomplete_entries=incomplete, unknowns=sorted({u for d in good for u in d["unknowns"]})[:20], undecided=S("unknown"), unmodelled=sorted({u for d in good for u in d["unmodelled"]}), build_or_engine_errors=errors[:6],
        reach_missing=missing, witness_mismatches=mism[:10], unconfirmed_counterexamples=unconf[:6], entries=[dict(entry=d["entry"], part=d["part"], paths=d["paths"], complete=d["complete"], seconds=d["seconds"], queries=d["queries"], solver_seconds=d["solver_seconds"], unknown=d["unknown"], rss_mb=d["max_rss_mb"]) for d in good],
        known_findings=[dict(id=k.get("id"), entry=r["entry"], msg=r["msg"], how=r["how"]) for k, r in kf])
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov, assumptions=P.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    print("%s [%s]: %d paths, %d instructions, %d checks (%d discharged), %d queries (%d unknown), solver %.1fs, %d functions, witnesses validated %d, wall %.1fs" % (prop, tier, cov["states"], cov["transitions"], cov["checks_evaluated"], cov["checks_discharged"], cov["queries"], cov["queries_unknown"], cov["solver_seconds"], len(fns), validated, time.time() - t0))
    for x in errors: print("ERROR: " + x[:1500])
    if incomplete: print("INCOMPLETE (budget): " + ", ".join(incomplete))
    if cov["undecided"]: print("UNDECIDED: %d (%s)" % (cov["undecided"], "; ".join(cov["unknowns"][:5])))
    if missing: print("NOT REACHED: " + ", ".join(missing))
    for m in mism[:10]: print("WITNESS MISMATCH: " + m)
    for u in unconf[:10]: print("UNCONFIRMED: %s [%s] %s at %s (%s)" % (u["entry"], u["kind"], u["msg"], u["loc"], u["how"]))
    done = set()
    for k, r in kf:
        if k.get("id") in done: continue
        done.add(k.get("id")); print("KNOWN-FINDING: property=%s %s" % (prop, k.get("what", k.get("msg", ""))))
    for v in viol[:8]: print("VIOLATION property=%s replay=%s" % (prop, v["replay"])); print("   %s [%s] %s at %s (%s)" % (v["entry"], v["kind"], v["msg"], v["loc"], v["how"]))
    if "--keep" not in a and not viol and not os.environ.get("VX_KEEP"): shutil.rmtree(work, ignore_errors=True)
    if viol: return 1
    if not good: return 2
    return 0
if __name__ == "__main__":
    rc = main(); sys.stdout.flush(); os._exit(rc)
