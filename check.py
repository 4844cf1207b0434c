#!/usr/bin/env python3
"""Decides one property by symbolic execution of /repo's current sources.

  check.py ID [--tier quick|thorough] [--only CONFIG] [--keep]
  check.py --replay FILE          re-run a recorded counterexample against the real build
  check.py --setup                build the engine and the caches that do not depend on /repo
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, signal, struct, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SX_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
ENG = os.path.join(HERE, "engine")
EVID = os.path.join(HERE, "evidence")
sys.path.insert(0, os.path.join(HERE, "tools"))
import specs  # noqa: E402

NCPU = os.cpu_count() or 4
T0 = time.time()


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def sh(cmd, timeout=None, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                         start_new_session=True, **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return -999, out


class BuildError(Exception):
    pass


# ------------------------------------------------------------------ caches
def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def tree_digest(root, exts):
    h = hashlib.sha256()
    for d, dn, fs in sorted(os.walk(root)):
        dn.sort()
        for f in sorted(fs):
            if f.endswith(exts):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode())
                h.update(open(p, "rb").read())
    return h.hexdigest()


def produce(path, cmd_of):
    """Build path atomically with the commands cmd_of(tmp) unless it exists."""
    if os.path.exists(path):
        return path
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp%d.%d" % (os.getpid(), threading.get_ident())
    for c in cmd_of(tmp):
        rc, out = sh(c)
        if rc:
            raise BuildError("%s\n%s" % (" ".join(c), out[-4000:]))
    os.replace(tmp, path)
    return path


def ensure_engine():
    key = digest(*[open(os.path.join(ENG, f), "rb").read() for f in ("symx.cpp", "interp.inc", "build.sh")])
    exe = os.path.join(BUILD, "symx-" + key)
    produce(exe, lambda t: [["bash", os.path.join(ENG, "build.sh"), t]])
    return exe


def ensure_fmt():
    d = os.path.join(BUILD, "fmtinc")
    if not os.path.exists(os.path.join(d, ".ok")):
        # clang rejects one const call in fmt 9's join_view formatter that gcc -fpermissive accepts
        t = d + ".tmp%d" % os.getpid()
        shutil.rmtree(t, ignore_errors=True)
        os.makedirs(t)
        shutil.copytree("/usr/include/fmt", t + "/fmt")
        f = t + "/fmt/format.h"
        s = open(f).read().replace(" formatter_type value_formatter_;", " mutable formatter_type value_formatter_;")
        open(f, "w").write(s)
        open(t + "/.ok", "w").close()
        try:
            os.rename(t, d)
        except OSError:
            shutil.rmtree(t, ignore_errors=True)
    return d


# ------------------------------------------------------------------ compiling the code under test
def repo_sources(parser):
    src = []
    for d, dn, fs in sorted(os.walk(os.path.join(REPO, "src"))):
        dn.sort()
        rel = os.path.relpath(d, os.path.join(REPO, "src"))
        if rel.split(os.sep)[0] == "parser" and not parser:
            continue
        if "python" in rel:
            continue
        for f in sorted(fs):
            if f.endswith((".cc", ".cpp", ".cxx")):
                src.append(os.path.join(d, f))
    return src


def repo_incs():
    return ["-I" + os.path.join(REPO, "src", x) for x in ("include", "parser", "robust_semantics", "core")]


class Builder:
    def __init__(self):
        self.key = digest(tree_digest(os.path.join(REPO, "src"), (".cc", ".hpp", ".h", ".hh", ".cpp", ".inc", ".cxx")), REPO)
        self.cache = os.path.join(BUILD, "cache")
        os.makedirs(self.cache, exist_ok=True)
        self.fmt = ensure_fmt()
        self.eng = digest(*[open(os.path.join(ENG, f), "rb").read() for f in sorted(os.listdir(ENG)) if f != "symx.cpp" and f != "interp.inc"])
        self.cf = ["-std=gnu++17", "-DNDEBUG", "-I" + self.fmt] + repo_incs() + [
            "-I" + ENG, "-I" + os.path.join(HERE, "harness"), "-Xclang", "-disable-O0-optnone", "-O0",
            "-gline-tables-only", "-ffp-contract=off", "-emit-llvm", "-w", "-c"]
        self.nf = ["-std=gnu++17", "-DNDEBUG", "-fpermissive", "-w"] + repo_incs() + ["-I" + ENG, "-I" + os.path.join(HERE, "harness")]
        self.pool = cf.ThreadPoolExecutor(NCPU)
        self.waiters = cf.ThreadPoolExecutor(64)  # jobs that wait for jobs of pool
        self.lock = threading.Lock()
        self.jobs = {}

    def once(self, key, fn, *a, pool=None):
        with self.lock:
            if key not in self.jobs:
                self.jobs[key] = (pool or self.pool).submit(fn, *a)
            return self.jobs[key]

    def bc(self, src, extra=(), dep=""):
        out = os.path.join(self.cache, "%s-%s.bc" % (os.path.basename(src).replace(".", "_"), digest(self.key, self.eng, src, extra, dep)))
        return self.once(out, lambda: produce(out, lambda t: [["clang++-18"] + self.cf + list(extra) + [src, "-o", t]]))

    def obj(self, src, flags, extra=(), dep=""):
        out = os.path.join(self.cache, "%s-%s.o" % (os.path.basename(src).replace(".", "_"), digest(self.key, self.eng, src, flags, extra, dep)))
        return self.once(out, lambda: produce(out, lambda t: [["g++"] + self.nf + list(flags) + list(extra) + ["-c", src, "-o", t]]))

    @staticmethod
    def hdep():
        h = os.path.join(HERE, "harness")
        return digest(*[open(os.path.join(h, f), "rb").read() for f in sorted(os.listdir(h)) if f.endswith((".h", ".hpp"))])

    def program(self, cfg, hsrc, defs, parser, fmt):
        """linked, lightly optimised bitcode of harness + code under test + models"""
        dep = digest(open(hsrc, "rb").read(), self.hdep())
        parts = [self.bc(hsrc, tuple(defs), dep)] + [self.bc(s) for s in repo_sources(parser)]
        parts += [self.bc(os.path.join(ENG, x), ("-fno-builtin",)) for x in ("rt.cpp", "io.cpp")] + [self.bc(os.path.join(ENG, "fmt_%s.cpp" % fmt))]
        if parser:
            parts.append(self.bc(os.path.join(ENG, "fs.cpp"), ("-fno-builtin",)))
        parts = [p.result() for p in parts]
        out = os.path.join(self.cache, "prog-%s.bc" % digest(self.key, *parts))
        passes = "internalize,globaldce,function(sroa,early-cse,simplifycfg),globaldce"
        return produce(out, lambda t: [
            ["llvm-link-18"] + parts + ["-o", t + ".l"],
            ["opt-18", "-passes=" + passes, "-internalize-public-api-list=sx_main," + ",".join(cfg.get("keep", [])), t + ".l", "-o", t],
            ["/bin/rm", "-f", t + ".l"]])

    def native(self, hsrc, defs, parser, flags=("-O2",)):
        dep = digest(open(hsrc, "rb").read(), self.hdep())
        objs = [self.obj(hsrc, flags, tuple(defs), dep), self.obj(os.path.join(ENG, "sx_native.cpp"), flags)]
        objs += [self.obj(s, flags) for s in repo_sources(parser)]
        objs = [o.result() for o in objs]
        out = os.path.join(self.cache, "native-%s" % digest(self.key, flags, *objs))
        return produce(out, lambda t: [["g++"] + list(flags) + objs + ["-o", t, "-lfmt", "-lpthread"]])


ASAN = ("-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer",
        "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR=1")
VALG = ("-O0", "-g")


# ------------------------------------------------------------------ native replay
def write_inputs(path, inputs):
    with open(path, "w") as f:
        for n, _k, h in inputs:
            f.write("%s %s\n" % (n, h))


def run_native(exe, inp, timeout=20, pre=(), env=None):
    e = dict(os.environ)
    e.update(env or {})
    return sh(list(pre) + [exe, inp], timeout=timeout, env=e)


def confirm(b, cfg, cand, inp, hsrc, defs, parser):
    """(confirmed?, how, output) of a solver counterexample on the real build"""
    exe = b.native(hsrc, defs, parser)
    rc, out = run_native(exe, inp)
    fails = re.findall(r"^FAIL (.*)$", out, re.M)
    if fails:
        return True, "check '%s' fails on the real build" % fails[0], out
    if rc == -999:
        return True, "the real build does not terminate within 20 s", out
    if rc == 6 or rc < 0:
        return True, "the real build dies (exit %d)" % rc, out
    if rc in (4, 5):
        return False, "inputs not accepted natively (exit %d)" % rc, out
    if cand["kind"] == "fault":
        exe = b.native(hsrc, defs, parser, ASAN)
        rc, out = run_native(exe, inp, 60, env={"ASAN_OPTIONS": "detect_stack_use_after_return=1:abort_on_error=0:detect_leaks=0"})
        if rc not in (0, 3, 4, 5):
            return True, "sanitizer build: " + (re.findall(r"(?:ERROR: AddressSanitizer: \S+|runtime error: .*|Assertion .* failed.*)", out) or ["exit %d" % rc])[0], out
        if "ninit" in cand["label"]:
            exe = b.native(hsrc, defs, parser, VALG)
            rc, out = run_native(exe, inp, 120, pre=("valgrind", "-q", "--error-exitcode=77"))
            if rc == 77:
                return True, "valgrind: " + (re.findall(r"==\d+== (\S.*)", out) or ["error"])[0], out
    return False, "does not reproduce on the real build", out


def dbl(h):
    return struct.unpack("<d", struct.pack("<Q", int(h, 16)))[0]


def show(inp):
    n, k, h = inp
    try:
        return "%s=%s" % (n, repr(dbl(h)) if k == "d" else str(int(h, 16)))
    except ValueError:
        return "%s=%s" % (n, h)


def check_witness(exe, w, inp):
    """True if the real build behaves on this path's witness as the symbolic run says"""
    rc, out = run_native(exe, inp)
    if rc in (4, 5) and w["rounded"]:
        return None, "model of a rounded path"
    if rc not in (0, 3):
        return False, "native exit %d: %s" % (rc, out[-300:])
    obs = re.findall(r"^OBS (\S+) (\w) ([0-9a-f]+)$", out, re.M)
    if len(obs) != len(w["obs"]):
        return (None if w["rounded"] else False), "different number of observations"
    for (n, k, h), (wn, wk, wh, ex) in zip(obs, w["obs"]):
        if wh in ("?", "undef"):
            continue
        if k == "d":
            a, c = dbl(h), dbl(wh)
            if a == c or (a != a and c != c):
                continue
            if (not ex or w["rounded"]) and abs(a - c) <= 1e-9 * max(1.0, abs(a), abs(c)):
                continue
            if w["rounded"]:
                return None, "rounded path"
            return False, "%s: real %r, model %r" % (n, a, c)
        if int(h, 16) & 0xffffffff != int(wh, 16) & 0xffffffff:
            return (None if w["rounded"] else False), "%s: real %s, model %s" % (n, h, wh)
    return True, ""


# ------------------------------------------------------------------ one configuration
def run_config(b, exe, pid, tier, seed, cfg, jobs, work):
    t0 = time.time()
    name = cfg["name"]
    hsrc = os.path.join(HERE, "harness", cfg["src"])
    defs = tuple(cfg.get("defs", []))
    parser = cfg.get("parser", False)
    nat = b.once(("nat", hsrc, defs), lambda: b_native_safe(b, hsrc, defs, parser), pool=b.waiters) if cfg.get("native", True) else None
    prog = b.program(cfg, hsrc, defs, parser, cfg.get("fmt", "stub"))
    out = os.path.join(work, name)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    tl = cfg.get("time", 120)
    cmd = [exe, prog, "--entry", "sx_main", "--out", out, "--jobs", str(jobs), "--time-limit", str(tl),
           "--rlimit", str(cfg.get("rlimit", 30000000)), "--witness", str(cfg.get("witness", 16)), "--seed", str(seed),
           "--max-instr", str(cfg.get("max_instr", 200000000))]
    for r in cfg.get("replace", []):
        cmd += ["--replace", r]
    if cfg.get("exact"):
        cmd += ["--exact-real"]
    cmd += cfg.get("args", [])
    t1 = time.time()
    rc, so = sh(cmd, timeout=tl + 120)
    res = {"name": name, "defs": list(defs), "harness": cfg["src"], "engine_rc": rc, "engine_wall_s": round(time.time() - t1, 2),
           "bounds": cfg.get("bounds", ""),
           "arithmetic": "doubles declared real are exact reals (no rounding); others IEEE" if cfg.get("exact") else "IEEE doubles bit-exact, or reals with a sound rounding error per operation where declared real"}
    if rc != 0 or not os.path.exists(out + "/summary.json"):
        res["error"] = "engine exit %d: %s" % (rc, so[-1500:])
        return res, [], []
    s = json.load(open(out + "/summary.json"))
    res.update({k: s[k] for k in s if k not in ("labels", "functions")})
    res["labels"] = s["labels"]
    res["functions"] = s["functions"]
    cov = []
    if os.path.exists(out + "/coverage.txt"):
        for l in open(out + "/coverage.txt"):
            m = re.match(r"(\d+)/(\d+) (.*) miss:(.*)", l)
            if m:
                cov.append([m.group(3), int(m.group(1)), int(m.group(2)), m.group(4).strip()])
    res["_cov"] = cov
    if os.path.exists(out + "/unsupported.txt"):
        u = {}
        for l in open(out + "/unsupported.txt", errors="replace"):
            u[l.strip()[:200]] = u.get(l.strip()[:200], 0) + 1
        res["unsupported_reasons"] = sorted(([v, k] for k, v in u.items()), reverse=True)[:6]
    missing = [l for l in cfg.get("expect", []) if s["labels"].get(l, [0, 0])[0] == 0]
    res["missing_reach"] = missing
    # counterexamples
    cands, seen = [], {}
    if os.path.exists(out + "/candidates.jsonl"):
        for l in open(out + "/candidates.jsonl", errors="replace"):
            try:
                cands.append(json.loads(l))
            except ValueError:
                pass
    viol, unconf = [], []
    for k, c in enumerate(cands):
        if seen.get(c["label"], 0) >= 2 or len(viol) >= 4:
            continue
        inp = os.path.join(out, "cand%d.in" % k)
        write_inputs(inp, c["inputs"])
        ok, how, nout = confirm(b, cfg, c, inp, hsrc, defs, parser)
        c["confirmation"] = how
        c["native_output"] = nout[-1500:]
        c["config"] = name
        if ok:
            seen[c["label"]] = seen.get(c["label"], 0) + 1
            viol.append(c)
        else:
            unconf.append({"label": c["label"], "kind": c["kind"], "approx": c["approx"], "why": how, "stack": c["stack"][:200],
                           "inputs": [show(i) for i in c["inputs"]][:30]})
    res["unconfirmed"] = unconf[:4]
    res["n_unconfirmed"] = len(unconf)
    # validation of the encoding: path witnesses against the real build
    val, mism, skipped, samples = 0, [], 0, []
    if nat is not None:
        nexe = nat.result()
        if isinstance(nexe, BuildError):
            res["native_error"] = str(nexe)[-600:]
        elif os.path.exists(out + "/witnesses.jsonl"):
            for k, l in enumerate(open(out + "/witnesses.jsonl", errors="replace")):
                try:
                    w = json.loads(l)
                except ValueError:
                    continue
                inp = os.path.join(out, "wit%d.in" % k)
                write_inputs(inp, w["inputs"])
                ok, why = check_witness(nexe, w, inp)
                if ok:
                    val += 1
                elif ok is None:
                    skipped += 1
                else:
                    mism.append({"why": why, "inputs": [show(i) for i in w["inputs"]][:30]})
                if ok and len(samples) < 3:
                    samples.append({"config": name, "inputs": [show(i) for i in w["inputs"]][:24],
                                    "observed": [show(o[:3]) for o in w["obs"]][:16]})
    res["validated"], res["validation_skipped"], res["mismatches"] = val, skipped, mism[:4]
    res["n_mismatch"] = len(mism)
    res["wall_s"] = round(time.time() - t0, 2)
    log("%s/%s: %d paths (%d complete), %d checks, %d queries %.1fs solver, undecided %d, unsupported %d, cut %d, violations %d, witnesses ok %d bad %d, wall %.1fs" % (
        pid, name, s["paths"], s["completed"], s["checks"], s["queries"], s["solver_us"] / 1e6, s["undecided"], s["unsupported"],
        s["timedout"] + s["crashed"], len(viol), val, len(mism), res["wall_s"]))
    return res, viol, samples


def b_native_safe(b, hsrc, defs, parser):
    try:
        return b.native(hsrc, defs, parser)
    except BuildError as e:
        return e


# ------------------------------------------------------------------ known findings
def known_findings(pid):
    out = []
    f = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) config=(\S+) label=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append(m.groups())
    return out


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        ensure_engine()
        ensure_fmt()
        return 0
    if a and a[0] == "--replay":
        return replay(a[1])
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    i = 1
    while i < len(a):
        if a[i] == "--tier":
            tier = a[i + 1]; i += 1
        elif a[i] == "--only":
            only = a[i + 1]; i += 1
        i += 1
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = specs.PROPS[pid]
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    try:
        # everything that does not need the engine starts while the engine builds
        b = Builder()
        fe = b.once("engine", ensure_engine, pool=b.waiters)
        cfgs = [c for c in specs.configs(pid, tier) if only is None or c["name"] == only]
        for s in repo_sources(any(c.get("parser") for c in cfgs)):
            b.bc(s)
        for c in cfgs:
            hs = os.path.join(HERE, "harness", c["src"])
            b.bc(hs, tuple(c.get("defs", [])), digest(open(hs, "rb").read(), b.hdep()))
        exe = fe.result()
        work = os.path.join(BUILD, "run", pid)
        os.makedirs(work, exist_ok=True)
        par = min(spec.get("parallel", 3), max(1, len(cfgs)))
        jobs = max(2, (NCPU + par - 1) // par)
        with cf.ThreadPoolExecutor(par) as ex:
            results = list(ex.map(lambda c: run_config(b, exe, pid, tier, seed, c, jobs, work), cfgs))
    except BuildError as e:
        log("BUILD ERROR", str(e)[-3000:])
        print("ERROR property=%s the code under test does not compile for analysis" % pid)
        return 2
    return report(pid, tier, seed, spec, results)


def report(pid, tier, seed, spec, results):
    tot = lambda k: sum(r.get(k, 0) for r, _, _ in results)
    viols = [(r, v) for r, vs, _ in results for v in vs]
    known = known_findings(pid)
    funcs = sorted({f for r, _, _ in results for f in r.get("functions", [])})
    cov = {}
    for r, _, _ in results:
        for fn, hit, n, miss in r.pop("_cov", []):
            m = set(miss.split())
            if fn in cov:
                cov[fn] = (n, cov[fn][1] & m)
            else:
                cov[fn] = (n, m)
    uncov = {k: sorted(v[1], key=int) for k, v in cov.items() if v[1] and "signal_tl" in k}
    samples = [s for _, _, ss in results for s in ss][:8]
    incomplete = tot("undecided") + tot("unsupported") + tot("timedout") + tot("crashed")
    errs = [r["error"] for r, _, _ in results if r.get("error")]
    missing = [(r["name"], r["missing_reach"]) for r, _, _ in results if r.get("missing_reach")]
    coverage = {
        "states": tot("paths"), "transitions": tot("instrs"), "traces_validated_against_impl": tot("validated"),
        "samples": samples or [{"note": "no witness path was replayed in this run"}],
        "explanation": "states = symbolic execution paths explored (each covers every input satisfying its path condition); transitions = LLVM instructions interpreted symbolically over those paths; traces_validated_against_impl = path witnesses from the solver replayed on the native -O2 build with identical observations",
        "paths_completed": tot("completed"), "paths_assumed_away": tot("assumed_away"), "paths_found_infeasible": tot("infeasible"), "branches_forked": tot("forks"),
        "assertions": tot("checks"), "assertions_needing_solver": tot("checks_sym"), "assertions_discharged": tot("discharged"),
        "queries": tot("queries"), "queries_sat": tot("qsat"), "queries_unsat": tot("qunsat"), "queries_unknown": tot("qunknown"),
        "solver_s": round(tot("solver_us") / 1e6, 2), "assertions_undecided": tot("undecided"), "paths_unsupported": tot("unsupported"),
        "paths_cut_by_time": tot("timedout"), "paths_crashed": tot("crashed"), "fp_ops_exact": tot("fp_exact"), "fp_ops_rounded": tot("fp_rounded"),
        "unconfirmed_candidates": tot("n_unconfirmed"), "encoding_mismatches": tot("n_mismatch"),
        "witnesses_skipped_rounded": tot("validation_skipped"),
        "functions_encoded": funcs, "source_lines_not_reached_in_encoded_functions": uncov,
        "bounds": spec.get("bounds", ""), "outside_the_bounds": spec.get("outside", ""),
        "exhaustive": incomplete == 0 and not errs,
        "configs": [{k: v for k, v in r.items() if k not in ("functions", "labels")} | {"assertions_by_label": {l: x[1] for l, x in r.get("labels", {}).items() if x[1]}, "reached": {l: x[0] for l, x in r.get("labels", {}).items() if x[0]}} for r, _, _ in results],
    }
    status, nviol = 0, 0
    os.makedirs(EVID + "/replay", exist_ok=True)
    printed = set()
    for k, (r, v) in enumerate(viols):
        kf = [x for x in known if re.fullmatch(x[1], v["config"]) and re.fullmatch(x[2], v["label"])]
        if kf:
            if kf[0] not in printed:
                print("KNOWN-FINDING: property=%s %s" % (pid, kf[0][3]))
                printed.add(kf[0])
            continue
        nviol += 1
        path = os.path.join(EVID, "replay", "%s-%d.json" % (pid, nviol))
        json.dump({"property": pid, "tier": tier, "config": v["config"], "label": v["label"], "kind": v["kind"], "stack": v["stack"],
                   "confirmation": v["confirmation"], "inputs": v["inputs"], "readable": [show(i) for i in v["inputs"]],
                   "native_output": v["native_output"]}, open(path, "w"), indent=1)
        if nviol <= 3:
            log("counterexample [%s/%s] %s: %s | %s" % (v["config"], v["label"], v["confirmation"], v["stack"][:160], " ".join(show(i) for i in v["inputs"])[:600]))
            print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
        status = 1
    if status == 0:
        for e in errs:
            log("ENGINE ERROR", e)
            status = 2
        for n, m in missing:
            cut = any(r["name"] == n and r.get("timedout") for r, _, _ in results)
            log("%s: config %s never reached %s" % ("CUT BY TIME" if cut else "VACUOUS", n, ", ".join(m)))
            if not cut or len(missing) == len(results):
                status = 2
        if incomplete:
            log("INCOMPLETE: undecided %d, unsupported %d, cut by time %d, crashed %d (the property held on everything decided)" % (
                tot("undecided"), tot("unsupported"), tot("timedout"), tot("crashed")))
        if tot("n_unconfirmed"):
            log("UNCONFIRMED candidates: %d" % tot("n_unconfirmed"))
        if tot("n_mismatch"):
            log("ENCODING MISMATCHES: %d %s" % (tot("n_mismatch"), [r["mismatches"][0] for r, _, _ in results if r.get("mismatches")][:2]))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": coverage,
          "assumptions": specs.COMMON_ASSUMPTIONS + spec.get("assumptions", []), "wall_s": round(time.time() - T0, 2), "violations": nviol}
    tmp = os.path.join(EVID, pid + ".json.tmp%d" % os.getpid())
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(EVID, pid + ".json"))
    log("%s %s: exit %d, %d paths, %d assertions (%d discharged), %d queries" % (pid, tier, status, tot("paths"), tot("checks"), tot("discharged"), tot("queries")))
    return status


def replay(path):
    d = json.load(open(path))
    b = Builder()
    cfg = [c for c in specs.configs(d["property"], d.get("tier", "quick")) if c["name"] == d["config"]][0]
    hsrc = os.path.join(HERE, "harness", cfg["src"])
    inp = os.path.join(BUILD, "replay.in")
    write_inputs(inp, d["inputs"])
    ok, how, out = confirm(b, cfg, d, inp, hsrc, tuple(cfg.get("defs", [])), cfg.get("parser", False))
    print(out)
    print("confirmed" if ok else "not confirmed", "-", how)
    return 1 if ok else 0


if __name__ == "__main__":
    sys.exit(main())
