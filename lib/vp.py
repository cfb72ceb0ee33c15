"""Runner library: builds /repo's working tree, runs TLC and the harness,
writes evidence, reports violations."""
import hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))
OUT = os.path.join(BUILD, "cmake")
SPEC = os.path.join(VERIF, "spec")
NPROC = os.cpu_count() or 4


class CheckError(Exception):
    """The check itself could not give an answer (exit 2)."""


def log(*a):
    print("[vp]", *a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- building
def sh(cmd, timeout=600, cwd=None, env=None, inp=None, check=True):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, input=inp, timeout=timeout,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    except subprocess.TimeoutExpired:
        raise CheckError("timed out after %ss: %s" % (timeout, cmd))
    if check and p.returncode != 0:
        raise CheckError("failed (%d): %s\n%s\n%s" % (
            p.returncode, cmd, p.stdout.decode(errors="replace")[-3000:],
            p.stderr.decode(errors="replace")[-3000:]))
    return p


def _source_state():
    """sha1 of every source file below /repo (tracked or not, build output left out)."""
    res = {}
    for base in ("src", "libs", "cmake"):
        for d, dirs, files in os.walk(os.path.join(REPO, base)):
            dirs[:] = [x for x in dirs if x != "eigen3"]
            for f in files:
                p = os.path.join(d, f)
                try:
                    with open(p, "rb") as h:
                        res[p] = (hashlib.sha1(h.read()).hexdigest(), os.stat(p).st_mtime)
                except OSError:
                    pass
    for f in ("CMakeLists.txt", "version.cmake"):
        p = os.path.join(REPO, f)
        with open(p, "rb") as h:
            res[p] = (hashlib.sha1(h.read()).hexdigest(), os.stat(p).st_mtime)
    return res


def build(targets):
    """Builds the given targets from /repo's working tree."""
    os.makedirs(BUILD, exist_ok=True)
    eig = os.path.join(REPO, "libs", "eigen3")
    if not os.path.exists(eig):
        try:
            os.symlink("/usr/include/eigen3", eig)  # ignored by libs/.gitignore
        except OSError:
            pass
    stamp = os.path.join(BUILD, "sources.json")
    cur = _source_state()
    if os.path.exists(stamp) and os.path.exists(OUT):
        old = json.load(open(stamp))
        t = old["time"]
        for p, (sha, mt) in cur.items():
            o = old["files"].get(p)
            # contents differ, but ninja would not see it
            if o is not None and o[0] != sha and mt <= max(t, o[1]):
                log("stale modification times, building anew")
                shutil.rmtree(OUT, ignore_errors=True)
                break
    json.dump({"time": time.time(), "files": cur}, open(stamp, "w"))
    t0 = time.time()
    env = {"CC": "/usr/bin/gcc", "CXX": "/usr/bin/g++", "LANG": "C.UTF-8",
           "CCACHE_DIR": os.path.join(BUILD, "ccache"), "CCACHE_SLOPPINESS": "time_macros",
           "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"}
    cfg = ["cmake", "-S", REPO, "-B", OUT, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None",
           "-DCMAKE_CXX_FLAGS=-w -g0 -O0 -DNDEBUG", "-DCMAKE_C_FLAGS=-w -g0 -O0",
           "-DJPP_ENABLE_TESTS=OFF", "-DJPP_ENABLE_DEV_TOOLS=OFF",
           "-DCMAKE_PROJECT_jumanpp_INCLUDE=" + os.path.join(VERIF, "harness", "inject.cmake"),
           "-DJPP_DEFAULT_CONFIG_DIR=" + os.path.join(BUILD, "prefix"),
           "-DVH_DIR=" + os.path.join(VERIF, "harness")]
    if shutil.which("ccache", path=env["PATH"]):
        cfg.append("-DCMAKE_CXX_COMPILER_LAUNCHER=ccache")
    if not os.path.exists(os.path.join(OUT, "build.ninja")):
        sh(cfg, env=env, timeout=200)
    cg = "jpp_jumandic_cg"
    need_cg = any(t in targets for t in ("vh_jumandic", "jumanpp_v2", "jumanpp_v2_train",
                                         "jpp_jumandic", "jpp_jumandic_bootstrap"))
    if need_cg:
        gen = os.path.join(OUT, "src/jumandic/gen", cg + ".cc")
        exe = os.path.join(OUT, "src/jumandic", cg + "_codegen_binary")
        if os.path.exists(gen):
            sh(["ninja", "-C", OUT, cg + "_codegen_binary"], env=env, timeout=600)
            if os.path.getmtime(exe) > os.path.getmtime(gen):
                os.unlink(gen)
                if os.path.exists(gen[:-3] + ".h"):
                    os.unlink(gen[:-3] + ".h")
    sh(["ninja", "-C", OUT] + list(targets), env=env, timeout=800)
    log("built %s in %.1fs" % (" ".join(targets), time.time() - t0))


def exe(name):
    for d in ("", "src/jumandic", "src/core/tool"):
        p = os.path.join(OUT, d, name)
        if os.path.exists(p):
            return p
    raise CheckError("no executable " + name)


class Crash(Exception):
    def __init__(self, rc, err):
        self.rc, self.err = rc, err
        super().__init__("rc=%s %s" % (rc, err[-400:]))


def harness(name, args, timeout=300, env=None):
    """Runs a harness command. Exit 3 is an error of the harness; a signal or a
    timeout is reported as Crash (behaviour of the code under test)."""
    e = dict(os.environ)
    # what was never written must not decide anything: fresh memory is not zero
    e["MALLOC_PERTURB_"] = "85"
    e.update(env or {})
    try:
        p = subprocess.run([exe(name)] + [str(a) for a in args], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout, env=e)
    except subprocess.TimeoutExpired:
        raise Crash("timeout", "no answer within %ss: %s" % (timeout, args))
    err = p.stderr.decode(errors="replace")
    if p.returncode == 3:
        raise CheckError("harness %s: %s" % (args, err[-2000:]))
    if p.returncode != 0:
        raise Crash(p.returncode, "%s: %s" % (args, err))
    return p.stdout


# ---------------------------------------------------------------- TLC
class TlcResult:
    pass


def tlc(module, cfg, env=None, workers=NPROC, timeout=600, extra=(), scratch=None,
        heap="6g", expect_ok=True):
    """Runs TLC on spec/<module>.tla with configuration text `cfg`."""
    scratch = scratch or os.path.join(BUILD, "tlc", "%s-%d" % (module, os.getpid()))
    os.makedirs(scratch, exist_ok=True)
    cfgf = os.path.join(scratch, module + "_%d.cfg" % (time.time_ns() % 10**9))
    open(cfgf, "w").write(cfg)
    meta = os.path.join(scratch, "meta%d" % time.time_ns())
    cmd = ["java", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + scratch, "-Xmx" + heap, "-Xss64m",
           "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar",
           "-DTLA-Library=" + SPEC, "tlc2.TLC", "-deadlock", "-nowarning", "-metadir", meta,
           "-workers", str(workers), "-config", cfgf] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    t0 = time.time()
    p = sh(cmd, timeout=timeout, cwd=SPEC, env=env, check=False)
    shutil.rmtree(meta, ignore_errors=True)
    os.unlink(cfgf)
    out = p.stdout.decode(errors="replace")
    r = TlcResult()
    r.out, r.rc, r.wall = out, p.returncode, time.time() - t0
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    r.generated, r.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    r.violated = re.findall(r"Error: (?:Invariant|Action property|Temporal propert\w+|Property) ?(\S*) (?:is|was|were) violated", out)
    r.prints = [l for l in out.splitlines() if l.startswith("<<")]
    r.ok = p.returncode == 0 and not r.violated and "No error has been found" in out
    if expect_ok and not r.ok:
        open(os.path.join(BUILD, "last_tlc_error.txt"), "w").write(out)
        raise CheckError("TLC on %s did not succeed (rc %d):\n%s" % (module, p.returncode, out[-2500:]))
    return r


def model_check(module, cfg, **kw):
    """Exhaustive check of the specification itself: any violation is an error
    of the specification (the implementation is not involved)."""
    r = tlc(module, cfg, **kw)
    log("model %s: %d generated, %d distinct, %.1fs" % (module, r.generated, r.distinct, r.wall))
    return r


def validate(module, trace_file, ncases, cfg_extra="", shards=NPROC, env=None, **kw):
    """Each line of trace_file is one observation; the specification decides
    (operator Ok(case) of the module). Returns rejected (index, detail)."""
    e = {"TRACE": trace_file, "SHARDS": str(shards)}
    e.update(env or {})
    r = tlc(module, "INIT TInit\nNEXT TNext\nINVARIANT TAccept\n" + cfg_extra, env=e, **kw)
    if r.distinct != ncases:
        raise CheckError("%s: %d observations, TLC looked at %d" % (module, ncases, r.distinct))
    rej = []
    for l in r.prints:
        m = re.match(r'<<"REJECT", (\d+)(.*)>>$', l)
        if m:
            rej.append((int(m.group(1)), m.group(2)))
    log("validate %s: %d observations, %d rejected, %.1fs" % (module, ncases, len(rej), r.wall))
    return r, sorted(set(rej))


# ---------------------------------------------------------------- reporting
class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0}
        self.parts = []
        self.viol = []      # (key, description, replay object)
        self.assumptions = []
        self.dir = os.path.join(BUILD, "work", pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir, exist_ok=True)
        self.samples = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def path(self, name):
        return os.path.join(self.dir, name)

    def model(self, name, r, note=""):
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        self.parts.append({"model": name, "distinct_states": r.distinct,
                           "states_generated": r.generated, "wall_s": round(r.wall, 2), "note": note})

    def traces(self, name, n, note="", sample=None):
        self.cov["traces_validated_against_impl"] += n
        self.parts.append({"conformance": name, "cases": n, "note": note})
        if sample is not None:
            s = sample if isinstance(sample, str) else json.dumps(sample, ensure_ascii=False)
            self.samples.append(name + ": " + s[:400])

    def violation(self, key, text, replay=None):
        self.viol.append((key, text, replay))

    # validates a list of observation dicts (or a ready ndjson file)
    def validate_cases(self, name, module, cases=None, file=None, note="", key=None, **kw):
        f = file or self.path(name + ".ndjson")
        if cases is not None:
            with open(f, "w") as h:
                for c in cases:
                    h.write(json.dumps(c) + "\n")
        lines = [l for l in open(f) if l.strip()]
        if not lines:
            raise CheckError("no observations for " + name)
        r, rej = validate(module, f, len(lines), **kw)
        self.cov["trace_states"] = self.cov.get("trace_states", 0) + r.distinct
        self.traces(name, len(lines), note, json.loads(lines[len(lines) // 2]))
        for idx, det in rej[:50]:
            c = json.loads(lines[idx - 1])
            k = key(c) if key else name
            self.violation(k, "%s: the specification rejects observation %d%s: %s" % (
                name, idx, det, json.dumps(c)[:600]), {"part": name, "module": module, "case": c})
        return rej


def known_findings(pid):
    f = os.path.join(VERIF, "findings", "known.jsonl")
    res = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l and not l.startswith("#"):
                o = json.loads(l)
                if o.get("property") == pid and o.get("status") == "known":
                    res.append(o)
    return res


def finish(ck):
    known = known_findings(ck.pid)
    keys = {k["key"]: k for k in known}
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (ck.pid, k["what"]))
    fresh = [v for v in ck.viol if v[0] not in keys]
    ck.cov["samples"] = ck.samples[:12] or ["(none)"]
    ck.cov["parts"] = ck.parts
    ev = {"property": ck.pid, "tier": ck.tier, "seed": ck.seed, "level": "model_checking",
          "coverage": ck.cov, "wall_s": round(time.time() - ck.t0, 2),
          "assumptions": ck.assumptions, "violations": len(fresh)}
    return fresh, ev


def write_evidence(ev):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, ev["property"] + ".json"), "w") as h:
        json.dump(ev, h, indent=1, ensure_ascii=False)
        h.write("\n")
