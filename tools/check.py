#!/usr/bin/env python3
"""Decide one property by symbolic execution of /repo's current sources.

  check.py build                 build the executor (and the models) into /verif/build
  check.py run P07 [--tier T]    run one property's scenarios
  check.py scen P07 s_name       run one scenario verbosely (development)
"""
import sys, os, re, json, time, glob, hashlib, subprocess, shutil, mmap, struct, argparse
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(V, "build")
CXX = "clang++-18"
NPROC = min(8, os.cpu_count() or 8)

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:24]

def tree(*roots, exts=None):
    r = []
    for root in roots:
        for d, ds, fs in os.walk(root):
            for f in fs:
                if exts is None or os.path.splitext(f)[1] in exts: r.append(os.path.join(d, f))
    return r

class BuildError(Exception): pass

def cached(key, name, make):
    """build/<name>.<key> built once; make(tmp) writes the file"""
    os.makedirs(B, exist_ok=True)
    out = os.path.join(B, "%s.%s" % (name, key))
    if os.path.exists(out):
        os.utime(out); return out
    tmp = out + ".tmp%d" % os.getpid()
    make(tmp)
    os.rename(tmp, out)
    # drop stale versions of the same artefact
    old = sorted((f for f in glob.glob(os.path.join(B, name + ".*")) if not ".tmp" in f), key=os.path.getmtime)
    for f in old[:-6]:
        try: os.unlink(f)
        except OSError: pass
    return out

def run_or_die(cmd, what):
    r = sh(cmd)
    if r.returncode: raise BuildError("%s failed:\n%s\n%s" % (what, " ".join(cmd), r.stdout[-4000:]))

def engine():
    src = glob.glob(V + "/engine/*")
    def make(tmp):
        fl = sh(["llvm-config-18", "--cxxflags"]).stdout.split()
        fl = [f for f in fl if f != "-fno-exceptions"]
        run_or_die([CXX, "-O2", "-std=c++17", "-w"] + fl + ["-fexceptions", V + "/engine/symx.cc", "-o", tmp, "-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-lz3"], "building the executor")
    return cached(digest(src), "symx", make)

def config_h():
    d = os.path.join(B, "inc"); os.makedirs(d, exist_ok=True)
    ver = "0"
    try:
        m = re.search(r"version:\s*'([^']*)'", open(REPO + "/meson.build").read()); ver = m.group(1) if m else "0"
    except OSError: pass
    p = os.path.join(d, "config.h"); txt = '#define VERSION "%s"\n' % ver
    if not os.path.exists(p) or open(p).read() != txt: open(p, "w").write(txt)
    return d

BCFLAGS = ["-std=c++14", "-DMODEM_IS_MODEMCF", "-O1", "-w", "-Xclang", "-disable-lifetime-markers", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops",
           "-fno-builtin-printf", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-D_FILE_OFFSET_BITS=64", "-U_FORTIFY_SOURCE", "-DSYMX"]
NFLAGS = ["-std=c++14", "-DMODEM_IS_MODEMCF", "-O1", "-w", "-D_FILE_OFFSET_BITS=64", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-g1"]

def repo_sources():
    r = []
    for f in tree(REPO + "/src", exts={".cc", ".cpp", ".cxx", ".c"}): r.append(f)
    return sorted(r)

def repo_state():
    fs = tree(REPO + "/src", REPO + "/ext", exts={".cc", ".cpp", ".cxx", ".c", ".h", ".hh", ".hpp", ".inc"}) if os.path.isdir(REPO + "/ext") else tree(REPO + "/src")
    return digest(fs, config_h())

def compile_all(prop, pool, native=False):
    """-> list of object/bitcode files for prop's harness + models/native + repo"""
    inc = config_h()
    mod = sorted(glob.glob(V + "/models/*") + tree(V + "/shim"))
    hfiles = sorted(glob.glob(V + "/harness/*.h") + glob.glob(V + "/harness/*.inc"))
    st = repo_state()
    jobs = []
    def add(src, name, key, extra, flags):
        def make(tmp):
            if native:
                run_or_die([CXX] + flags + extra + ["-c", src, "-o", tmp], "compiling " + src); return
            run_or_die([CXX] + flags + extra + ["-c", src, "-o", tmp + ".u"], "compiling " + src)
            # vector code is split into scalars; where LLVM 18's pass fails (complex<float> DSP code) the module is kept as is
            if sh(["opt-18", "-passes=function(scalarizer)", "-scalarize-load-store", tmp + ".u", "-o", tmp]).returncode: shutil.copy(tmp + ".u", tmp)
            os.unlink(tmp + ".u")
        jobs.append(pool.submit(cached, key, name, make))
    if not native:
        fl = BCFLAGS + ["-isystem", V + "/shim", "-I" + inc, "-I" + REPO, "-I" + V + "/harness", "-I" + V + "/models", "-emit-llvm"]
        mk = digest(mod, " ".join(fl))
        add(V + "/models/models.cc", "models.bc", mk, ["-D__NO_INLINE__=1"], fl)
        sfx = ".bc"
    else:
        fl = NFLAGS + ["-I" + inc, "-I" + REPO, "-I" + V + "/harness", "-I" + V + "/models"]
        mk = digest([V + "/models/symx.h"], " ".join(fl))
        add(V + "/harness/native.cc", "native.o", digest([V + "/harness/native.cc"], mk), [], fl)
        sfx = ".o"
    for s in repo_sources():
        nm = "repo_" + os.path.relpath(s, REPO).replace("/", "_")
        add(s, nm + sfx, digest([s], st + mk), ["-Dmain=redsea_main"] if os.path.basename(s) == "redsea.cc" else [], fl)
    h = V + "/harness/p_%s.cc" % prop
    add(h, "h_" + prop + sfx, digest([h] + hfiles, st + mk), [], fl)
    return [j.result() for j in jobs]

def link_bc(prop, files):
    def make(tmp):
        run_or_die(["llvm-link-18"] + files + ["-o", tmp], "linking")
    return cached(digest(files), "x_" + prop + ".bc", make)

def link_native(prop, files):
    def make(tmp):
        run_or_die([CXX, "-fsanitize=address,undefined", "-rdynamic"] + files + ["-o", tmp, "-lsndfile", "-lliquid", "-ldl"], "linking the replay program")
    return cached(digest(files), "replay_" + prop, make)

def scenarios(prop, tier):
    """// @scenario name quick=SEC thorough=SEC Q.n=3 T.n=4 (quick=0: thorough only)"""
    r = []
    txt = open(V + "/harness/p_%s.cc" % prop).read()
    for m in re.finditer(r"^// @scenario (\w+)([^\n]*)", txt, re.M):
        a = dict(x.split("=", 1) for x in m.group(2).split())
        t = float(a.get(tier, a.get("quick", 60)))
        if t <= 0: continue
        par = {}
        for k, v in a.items():
            if k.startswith("Q.") and tier == "quick": par[k[2:]] = v
            if k.startswith("T.") and tier == "thorough": par[k[2:]] = v
            if k.startswith("P."): par[k[2:]] = v
        if os.environ.get("SCEN_P"): par.update(x.split("=", 1) for x in os.environ["SCEN_P"].split(","))   # development only
        if os.environ.get("SCEN_T"): t = float(os.environ["SCEN_T"])
        r.append({"name": m.group(1), "budget": t, "params": par, "steps": a.get("steps")})
    bounds = re.findall(r"^// @bound ([^\n]*)", txt, re.M)
    assume = re.findall(r"^// @assume ([^\n]*)", txt, re.M)
    return r, bounds, assume

def merge(base):
    tot = {}; um = {}; re_ = {}; errs = []; samples = []; fns = set(); n = 0
    for f in glob.glob(base) + glob.glob(base + ".*"):
        if f.endswith(".tmp"): continue
        try: d = json.load(open(f))
        except ValueError: continue
        n += 1
        for k, v in d.items():
            if isinstance(v, (int, float)): tot[k] = max(tot.get(k, 0), v) if k in ("wall_s", "maxsteps") else tot.get(k, 0) + v
        for k, v in d["unsupmsg"].items(): um[k] = um.get(k, 0) + v
        for k, v in d["reached"].items(): re_[k] = re_.get(k, 0) + v
        errs += d["errors"]; samples += d["samples"]; fns |= set(d["functions"])
    if n == 0 or n != tot.get("spawned", 0) + 1: um["lost worker process"] = tot.get("spawned", 0) + 1 - n
    return tot, um, re_, errs, samples, fns

def write_inputs(path, scen, params, inputs, comment=""):
    with open(path, "w") as f:
        for l in comment.splitlines(): f.write("# %s\n" % l)
        f.write("# scenario %s\n" % scen)
        for k, v in params.items(): f.write("param %s %s\n" % (k, v))
        for n, w, v in inputs: f.write("in %d %s\n" % (v, n))

def replay(exe, scen, path, extra=None):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:max_malloc_fill_size=65536:malloc_fill_byte=190", UBSAN_OPTIONS="print_stacktrace=1:exitcode=67", **(extra or {}))
    try:
        r = subprocess.run([exe, scen, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=60, errors="replace", text=True)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, "the replay did not finish within 60 s"

def demangle(names):
    r = subprocess.run(["c++filt"], input="\n".join(sorted(names)), stdout=subprocess.PIPE, text=True)
    out = set()
    for l in r.stdout.splitlines():
        l = re.sub(r"\[abi:[^\]]*\]", "", l)
        if l.startswith("redsea::") and "std::" not in l.split("(")[0] and "~" not in l: out.add(l.split("(")[0])
    return sorted(out)

def known_findings(prop):
    p = V + "/known_findings.json"
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == prop] if os.path.exists(p) else []

def matches_known(k, scen, e):
    """a listed finding is identified by scenario, assertion and the exact predicate on its inputs"""
    if k.get("scenario") and k["scenario"] != scen: return False
    if k["assertion"] != e["msg"]: return False
    env = {re.sub(r"\W", "_", n): v for n, w, v in e["inputs"]}
    try: return bool(eval(k.get("when", "True"), {"__builtins__": {}}, env))
    except Exception: return False

def run(prop, tier, only=None, verbose=False, keep=False):
    t0 = time.time()
    scens, bounds, assume = scenarios(prop, tier)
    if only: scens = [s for s in scens if s["name"] == only] or [{"name": only, "budget": 600, "params": {}}]
    with ThreadPoolExecutor(NPROC + 2) as pool:
        fe = pool.submit(engine)
        fb = pool.submit(compile_all, prop, pool)
        eng = fe.result()
        bc = link_bc(prop, fb.result())
    tb = time.time() - t0
    wd = os.path.join(B, "run.%s.%d" % (prop, os.getpid())); os.makedirs(wd)
    try:
        return run2(prop, tier, scens, bounds, assume, eng, bc, wd, t0, tb, verbose)
    finally:
        if not keep: shutil.rmtree(wd, ignore_errors=True)

def run2(prop, tier, scens, bounds, assume, eng, bc, wd, t0, tb, verbose):
    # all scenarios share NPROC worker slots; each starts as one process and splits when slots are free
    tok = os.path.join(wd, "tok")
    open(tok, "wb").write(struct.pack("iiiiqii", 0, NPROC, 0, 0, 0, 0, 0) + b"\0" * 64)
    fd = os.open(tok, os.O_RDWR); mm = mmap.mmap(fd, 32)
    def active(): return struct.unpack("i", mm[0:4])[0]
    def bump(n): mm[0:4] = struct.pack("i", active() + n)
    pend = list(range(len(scens))); live = {}
    if prop.startswith("x"): pass
    # a global deadline keeps the whole check inside its time slot
    total = 420 if tier == "quick" else 6 * 3600
    while pend or live:
        while pend and (active() < NPROC or not live):
            i = pend.pop(0); s = scens[i]
            if os.path.exists(os.path.join(wd, "r%d" % i)): continue
            left = max(5, total - (time.time() - t0))
            bump(1)
            cmd = [eng, bc, "-e", s["name"], "-o", os.path.join(wd, "r%d" % i), "-t", str(min(s["budget"], left)), "-T", tok, "-m", "3400"]
            if s.get("steps"): cmd += ["-s", s["steps"]]
            for k, v in s["params"].items(): cmd += ["-p", "%s=%s" % (k, v)]
            live[i] = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(os.path.join(wd, "e%d" % i), "w"), start_new_session=True)
            s["kill"] = time.time() + min(s["budget"], left) + 40
            s["t0"] = time.time()
        time.sleep(0.02)
        for i in list(live):
            if live[i].poll() is None and time.time() > scens[i]["kill"]:      # a worker hangs: give the scenario up
                os.killpg(live[i].pid, 9); live[i].wait(); bump(len(live) - active())
            if live[i].poll() is not None:
                scens[i]["rc"] = live[i].returncode; scens[i]["wall"] = time.time() - scens[i]["t0"]
                if live[i].returncode: bump(-1)
                del live[i]
    mm.close(); os.close(fd)
    res = []; agg = {}; reached = {}; incomplete = {}; fns = set(); nothing = []
    for i, s in enumerate(scens):
        tot, um, rr, errs, samples, f = merge(os.path.join(wd, "r%d" % i))
        if s["rc"] or not tot.get("paths"):
            nothing.append("%s: %s %s" % (s["name"], open(os.path.join(wd, "e%d" % i)).read()[-500:], um))
        res.append((s, tot, um, rr, errs, samples))
        for k, v in tot.items(): agg[k] = max(agg.get(k, 0), v) if k in ("wall_s", "maxsteps") else agg.get(k, 0) + v
        for k, v in rr.items(): reached[s["name"] + ":" + k] = v
        if um: incomplete[s["name"]] = um
        fns |= f
        if verbose or os.environ.get("VERIF_VERBOSE"):
            print("  %-28s %6.1fs paths=%d asserts=%d queries=%d solver=%.1fs steps=%d errors=%d %s %s" % (s["name"], s["wall"], tot.get("paths", 0), tot.get("asserts", 0), tot.get("queries", 0), tot.get("solver_s", 0), tot.get("steps", 0), len(errs), um or "", rr))
    tx = time.time() - t0 - tb
    # native replays: counterexamples, and a sample of the explored paths
    violations = []; unconfirmed = []; known = []; validated = 0; mism = []
    kf = known_findings(prop); todo = []
    for s, tot, um, rr, errs, samples in res:
        seen = {}
        for e in errs:
            k = (e["kind"], e["msg"])
            seen.setdefault(k, [])
            if len(seen[k]) < 6: seen[k].append(e)
        for k, es in seen.items(): todo.append((s, k, es))
    nsample = 6 if tier == "quick" else 40
    with ThreadPoolExecutor(NPROC + 2) as pool:
        exe = link_native(prop, compile_all(prop, pool, native=True))
        jobs = []
        for j, (s, k, es) in enumerate(todo):
            for q, e in enumerate(es):
                p = os.path.join(wd, "cex_%d_%d" % (j, q)); write_inputs(p, s["name"], s["params"], e["inputs"])
                jobs.append(("cex", j, q, s, e, p, pool.submit(replay, exe, s["name"], p)))
        for j, (s, tot, um, rr, errs, samples) in enumerate(res):
            for q, inp in enumerate(samples[-nsample:]):
                p = os.path.join(wd, "smp_%d_%d" % (j, q)); write_inputs(p, s["name"], s["params"], inp)
                jobs.append(("smp", j, q, s, inp, p, pool.submit(replay, exe, s["name"], p)))
        confirmed = {}
        for kind, j, q, s, e, p, fut in jobs:
            rc, out = fut.result()
            if kind == "smp":
                if rc == 0: validated += 1
                else: mism.append((s, e, p, rc, out))
            else:
                if rc not in (0, 3):
                    ks = [x for x in kf if matches_known(x, s["name"], e)]
                    if ks: known.append((ks[0], s, e)); confirmed.setdefault(j, None)
                    elif not confirmed.get(j): confirmed[j] = (s, e, p, rc, out)
                else: unconfirmed.append((s["name"], e["kind"], e["msg"], e["where"], rc, out[-300:], e["uninit"]))
    for j, c in confirmed.items():
        if c: violations.append(c)
    # a sampled passing path that fails natively is a failing input as well
    for s, inp, p, rc, out in mism:
        if rc not in (0, 3): violations.append((s, {"kind": "replay", "msg": "a path the executor passed fails natively", "where": "", "inputs": inp, "notes": []}, p, rc, out))
        else: unconfirmed.append((s["name"], "sample", "recorded path could not be followed natively", "", rc, out[-300:], False))
    lines = []; cexdir = os.path.join(V, "evidence", "cex"); os.makedirs(cexdir, exist_ok=True)
    for n, (s, e, p, rc, out) in enumerate(violations):
        rp = os.path.join(cexdir, "%s_%s_%d.txt" % (prop, s["name"], n))
        write_inputs(rp, s["name"], s["params"], e["inputs"], "property %s\nscenario %s\n%s: %s\nat %s\nreplay exit code %d\n%s" % (prop, s["name"], e["kind"], e["msg"], e["where"], rc, "\n".join(out.splitlines()[:60])))
        lines.append("VIOLATION property=%s replay=%s" % (prop, rp))
        print("%s in %s: %s: %s" % (prop, s["name"], e["kind"], e["msg"])); print("\n".join("    " + l for l in out.splitlines()[:12]))
    for k in {json.dumps(k, sort_keys=True) for k, s, e in known}:
        k = json.loads(k); print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    wall = time.time() - t0
    samples = []
    for s, tot, um, rr, errs, sm in res:
        if sm: samples.append({"scenario": s["name"], "inputs": {"%d:%s" % (i, n): v for i, (n, w, v) in enumerate(sm[-1][:40])}})
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
          "coverage": {"states": int(agg.get("paths", 0)), "transitions": int(agg.get("steps", 0)), "traces_validated_against_impl": validated, "samples": samples[:12],
                       "exhaustive": not incomplete and not unconfirmed,
                       "explanation": "states = complete symbolic paths (each covering every input value that follows it); transitions = LLVM instructions executed symbolically; traces_validated = recorded path inputs replayed natively (ASan+UBSan) with the same verdict",
                       "functions_encoded": demangle(fns), "bounds": bounds,
                       "assertions_decided": int(agg.get("asserts", 0)), "assertions_decided_without_solver": int(agg.get("asserts_trivial", 0)),
                       "solver": {"name": "z3", "queries": int(agg.get("queries", 0)), "sat": int(agg.get("sat", 0)), "unsat": int(agg.get("unsat", 0)), "unknown": int(agg.get("unknown", 0)), "seconds": round(agg.get("solver_s", 0), 2), "value_set_decisions": int(agg.get("domhits", 0)), "truth_table_decisions": int(agg.get("tthits", 0))},
                       "scenarios": [{"name": s["name"], "params": s["params"], "paths": int(t.get("paths", 0)), "assertions": int(t.get("asserts", 0)), "wall_s": round(s["wall"], 1), "reached": r, "incomplete": u} for s, t, u, r, e, sm in res],
                       "incomplete": incomplete, "unconfirmed_counterexamples": unconfirmed[:20], "build_s": round(tb, 1), "explore_s": round(tx, 1)},
          "assumptions": assume, "wall_s": round(wall, 2), "violations": len(violations)}
    os.makedirs(V + "/evidence", exist_ok=True)
    json.dump(ev, open(V + "/evidence/%s.json" % prop, "w"), indent=1)
    for n in nothing: print("NOTE: %s explored nothing: %s" % (prop, n))
    for s, u in incomplete.items(): print("NOTE: %s %s not exhausted: %s" % (prop, s, u))
    for u in unconfirmed[:5]: print("NOTE: %s counterexample not reproduced natively (ignored): %s" % (prop, u))
    print("%s %s: %d scenarios, %d paths, %d assertions, %d solver queries (%.1f s), %d native replays agree, %.1f s%s" % (prop, tier, len(scens), agg.get("paths", 0), agg.get("asserts", 0), agg.get("queries", 0), agg.get("solver_s", 0), validated, wall, "" if not incomplete else " [bounds not exhausted]"))
    for l in lines: print(l)
    if lines: return 1
    if len(nothing) == len(scens): return 2
    return 0

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("cmd"); ap.add_argument("args", nargs="*"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    try:
        if a.cmd == "build":
            with ThreadPoolExecutor(NPROC) as pool:
                engine()
                compile_all(a.args[0] if a.args else "P06", pool)
            return 0
        if a.cmd == "run": return run(a.args[0], a.tier)
        if a.cmd == "scen": return run(a.args[0], a.tier, a.args[1] if len(a.args) > 1 else None, True, a.keep)
    except BuildError as e:
        print("ERROR: %s" % e); return 2
    return 9
sys.exit(main())
