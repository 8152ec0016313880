"""Common machinery of the checks: build the library and a driver from /repo's working
tree, run driver scripts, model-check TLA+ modules, and validate recorded traces with TLC."""
import os, sys, json, re, time, random, subprocess, shutil, hashlib, glob, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
QUICK = TIER != "thorough"
JOBS = min(8, os.cpu_count() or 4)
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

MPI_INC = ["-DOMPI_SKIP_MPICXX", "-I/usr/lib/x86_64-linux-gnu/openmpi/include",
           "-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"]
LIBS = ["-lfftw3f", "-lfftw3", "-lopenblas", "-L/usr/lib/x86_64-linux-gnu/openmpi/lib", "-lmpi"]

RUN_ENV = dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
    OMPI_MCA_btl="self,vader", OMPI_MCA_pml="ob1", OMPI_MCA_btl_vader_single_copy_mechanism="none",
    OMPI_MCA_plm="isolated", OMPI_MCA_rmaps_base_oversubscribe="1",
    OMPI_MCA_hwloc_base_binding_policy="none", OMPI_MCA_mpi_yield_when_idle="1",
    OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="2", LC_ALL="C",
    ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99", UBSAN_OPTIONS="print_stacktrace=0")


class HarnessError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- build
def lib_sources():
    s = os.path.join(REPO, "src")
    src = [f for f in glob.glob(s + "/ovxx/*.cpp") if not f.endswith("huge_page_allocator.cpp")]
    for pat in ("/ovxx/signal/*.cpp", "/ovxx/mpi/*.cpp", "/ovxx/parallel/*.cpp"):
        src += glob.glob(s + pat)
    src.append(s + "/ovxx/fftw/fft.cpp")
    return sorted(src)


def build(name, sources, variant="plain", opt=None, extra=(), link=(), defines=()):
    """Build driver NAME from SOURCES (paths under harness/) against /repo/src; returns its path."""
    bdir = os.path.join(BUILD, variant)
    os.makedirs(bdir, exist_ok=True)
    if opt is None:
        opt = "-O0" if variant.endswith("0") else "-O1"
    flags = [opt, "-w", "-std=gnu++14", "-pthread", "-I" + HARNESS + "/config", "-I" + HARNESS,
             "-I" + REPO + "/src"] + MPI_INC
    ld = ["-pthread"]
    if variant.startswith("asan"):
        flags += ["-g1", "-fsanitize=address,undefined", "-fno-sanitize=vptr,alignment,null,return,function",
                  "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
        ld += ["-fsanitize=address,undefined"]
    if variant.startswith("tsan"):
        flags += ["-g1", "-fsanitize=thread"]
        ld += ["-fsanitize=thread"]
    flags += list(extra)
    objs = []
    n = ["ninja_required_version = 1.3", "builddir = " + bdir,
         "rule cc", "  command = g++ $flags -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
         "rule ar", "  command = rm -f $out && ar rc $out $in",
         "rule ld", "  command = g++ $in -o $out $ld"]
    lobjs = []
    for s in lib_sources():
        o = os.path.join(bdir, "lib", os.path.relpath(s, REPO + "/src").replace("/", "_") + ".o")
        n += ["build %s: cc %s" % (o, s), "  flags = " + " ".join(flags)]
        lobjs.append(o)
    lib = os.path.join(bdir, "libovxx.a")
    n.append("build %s: ar %s" % (lib, " ".join(lobjs)))
    for s in sources:
        ss, dd, tag = s if isinstance(s, tuple) else (s, [], "")
        sp = os.path.join(HARNESS, ss)
        o = os.path.join(bdir, "drv_" + name, ss.replace("/", "_") + tag + ".o")
        n += ["build %s: cc %s" % (o, sp), "  flags = " + " ".join(flags + list(defines) + list(dd))]
        objs.append(o)
    exe = os.path.join(bdir, name)
    n += ["build %s: ld %s %s" % (exe, " ".join(objs), lib), "  ld = " + " ".join(ld + list(link) + LIBS),
          "default " + exe]
    nf = os.path.join(bdir, name + ".ninja")
    with open(nf, "w") as f:
        f.write("\n".join(n) + "\n")
    t = time.time()
    r = subprocess.run(["ninja", "-j%d" % JOBS, "-f", nf], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise HarnessError("build of %s failed:\n%s" % (name, r.stdout[-6000:]))
    log("[build] %s (%s) %.1fs" % (name, variant, time.time() - t))
    return exe


# ---------------------------------------------------------------- run
def run_driver(exe, script, out, np=1, timeout=120, env=None, args=()):
    """Run the driver on SCRIPT (a text) writing a trace; returns (status, stderr tail).
    status: 'ok', 'crash:<rc>' or 'timeout'."""
    sp = out + ".script"
    with open(sp, "w") as f:
        f.write(script)
    cmd = [exe, sp, out] + list(args)
    if np > 1:
        cmd = ["mpirun", "--oversubscribe", "-np", str(np)] + cmd
    e = dict(RUN_ENV)
    e.update(env or {})
    tmp = os.path.join("/tmp", "vh.%d" % os.getpid())
    os.makedirs(tmp, exist_ok=True)
    e["TMPDIR"] = tmp
    with open(out + ".err", "wb") as ef:
        p = subprocess.Popen(cmd, stdout=ef, stderr=ef, env=e, start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
            st = "ok" if rc == 0 else "crash:%d" % rc
        except subprocess.TimeoutExpired:
            st = "timeout"
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    with open(out + ".err", "rb") as ef:
        tail = ef.read()[-3000:].decode("utf8", "replace")
    return st, tail


# ---------------------------------------------------------------- TLC
def _tlc(args, env, timeout, cwd, mem="3g"):
    d = os.path.join(BUILD, "tlc", "%d_%s" % (os.getpid(), hashlib.md5((repr(args) + repr(sorted(env.items()))).encode()).hexdigest()[:10]))
    os.makedirs(d, exist_ok=True)
    cmd = ["java", "-Xmx" + mem, "-Xss64m", "-XX:+UseSerialGC", "-Djava.io.tmpdir=" + d, "-cp", CP, "tlc2.TLC", "-metadir", d,
           "-noGenerateSpecTE"] + args
    e = dict(os.environ)
    e.update(env)
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=timeout)
        rc, out = r.returncode, r.stdout
    except subprocess.TimeoutExpired as ex:
        rc, out = -1, (ex.stdout or b"").decode("utf8", "replace") if isinstance(ex.stdout, bytes) else (ex.stdout or "")
    shutil.rmtree(d, ignore_errors=True)
    return rc, out


def tlc_check(module, cfg, timeout=600, workers=JOBS, env=None, coverage=False, simulate=None, depth=None, mem="6g", deadlock=False):
    """Model-check spec/<module>.tla with spec/<cfg>.cfg. Returns dict(ok, generated, distinct, depth, out)."""
    args = ["-workers", str(workers), "-config", cfg + ".cfg"]
    if not deadlock:
        args += ["-deadlock"]
    if coverage:
        args += ["-coverage", "1"]
    if simulate:
        args += ["-simulate", "num=%d" % simulate, "-depth", str(depth or 50), "-seed", str(SEED)]
    args.append(module + ".tla")
    t = time.time()
    rc, out = _tlc(args, env or {}, timeout, SPEC, mem)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    m2 = re.findall(r"The number of states generated: (\d+)", out)
    gen = int(m[-1][0]) if m else (int(m2[-1]) if m2 else 0)
    dis = int(m[-1][1]) if m else 0
    dm = re.search(r"depth of the complete state graph search is (\d+)", out)
    log("[tlc] %s/%s rc=%d states=%d distinct=%d %.1fs" % (module, cfg, rc, gen, dis, time.time() - t))
    return dict(ok=rc == 0, rc=rc, generated=gen, distinct=dis, depth=int(dm.group(1)) if dm else 0, out=out)


def split_scenarios(path):
    """Split an ndjson trace into scenarios, each starting with an event whose op is 'begin'."""
    cur, out = None, []
    with open(path, "r", errors="replace") as f:
        for line in f:
            if not line.endswith("\n"):
                break                      # torn last line: the driver died while writing it
            if '"op":"begin"' in line:
                cur = []
                out.append(cur)
            if cur is not None:
                cur.append(line)
    return out


def _validate_one(module, cfg, path, timeout, env):
    e = dict(env or {})
    e["TRACE"] = path
    rc, out = _tlc(["-workers", "1", "-deadlock", "-config", cfg + ".cfg", module + ".tla"], e, timeout, SPEC, "3g")
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    n = int(m[-1][0]) if m else 0
    if rc == 0 and "REJECTED_AT" not in out and "Model checking completed. No error" in out:
        return True, None, n, out
    m = re.search(r'REJECTED_AT", (\d+)', out)
    if m:
        return False, int(m.group(1)), n, out
    if rc in (12, 13, 75, 76, 77) or "is violated" in out or "evaluat" in out:
        # invariant violated, or an observed value outside the domain of the specification's operators
        m = re.findall(r"/\\ l = (\d+)", out)
        return False, int(m[-1]) if m else None, n, out
    raise HarnessError("TLC failed (rc=%d) on %s:\n%s" % (rc, path, out[-4000:]))


def validate(module, scenarios, tag, cfg=None, timeout=500, shards=JOBS, env=None):
    """Validate scenarios (lists of ndjson lines) against trace module; returns
    (first rejected scenario index or None, line within it, states, tlc output)."""
    cfg = cfg or module
    d = os.path.join(BUILD, "trace")
    os.makedirs(d, exist_ok=True)
    total = sum(sum(len(l) for l in s) for s in scenarios)
    per = max(20000, total // shards + 1)
    chunks, cur, sz = [], [], 0
    for i, s in enumerate(scenarios):
        cur.append(i)
        sz += sum(len(l) for l in s)
        if sz >= per:
            chunks.append(cur)
            cur, sz = [], 0
    if cur:
        chunks.append(cur)

    def work(k):
        path = os.path.join(d, "%s.%d.ndjson" % (tag, k))
        idx = []
        with open(path, "w") as f:
            for i in chunks[k]:
                for j, line in enumerate(scenarios[i]):
                    f.write(line)
                    idx.append((i, j))
        ok, at, n, out = _validate_one(module, cfg, path, timeout, env)
        if ok:
            os.unlink(path)
            return None, n, out
        if at is None:
            return (chunks[k][0], 0), n, out
        return idx[min(at, len(idx)) - 1], n, out
    t = time.time()
    with ThreadPoolExecutor(max_workers=shards) as ex:
        rs = list(ex.map(work, range(len(chunks))))
    n = sum(r[1] for r in rs)
    bad = [(r[0], r[2]) for r in rs if r[0] is not None]
    log("[trace] %s: %d scenarios, %d events, %d shards, %s, %.1fs" %
        (module, len(scenarios), sum(len(s) for s in scenarios), len(chunks), "REJECTED" if bad else "accepted", time.time() - t))
    if not bad:
        return None, None, n, ""
    bad.sort(key=lambda b: b[0])
    return bad[0][0][0], bad[0][0][1], n, bad[0][1]


# ---------------------------------------------------------------- check runner
class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.rng = random.Random(SEED * 1000003 + int(prop[1:]))
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assumptions = []
        self.violations = 0
        self.trust = False     # a rejected trace counts even when the schedule does not repeat
        self.notes = {}
        os.makedirs(BUILD, exist_ok=True)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)

    # -- model checking of the design
    def model(self, module, cfg=None, **kw):
        r = tlc_check(module, cfg or module, **kw)
        if not r["ok"]:
            raise HarnessError("design model %s/%s: TLC rc=%d\n%s" % (module, cfg, r["rc"], r["out"][-4000:]))
        self.cov["states"] += r["distinct"] or r["generated"]
        self.cov["transitions"] += r["generated"]
        self.notes.setdefault("model_runs", []).append(
            dict(module=module, cfg=cfg or module, generated=r["generated"], distinct=r["distinct"], depth=r["depth"]))
        return r

    # -- conformance: run scenarios through the driver and validate what it did
    def conform(self, exe, module, scenarios, tag="t", np=1, timeout=300, env=None, cfg=None, drv_env=None, args=(),
                single_timeout=60, parts=1, tlc_env=None, merge=None):
        """SCENARIOS: list of script texts (one per scenario, each beginning with a 'begin' line)."""
        tdir = os.path.join(BUILD, "run")
        os.makedirs(tdir, exist_ok=True)
        k = max(1, min(parts, len(scenarios)))
        bounds = [len(scenarios) * i // k for i in range(k + 1)]

        def one(i):
            part = scenarios[bounds[i]:bounds[i + 1]]
            out = os.path.join(tdir, "%s_%s_%d.ndjson" % (self.prop, tag, i))
            for f in glob.glob(out + "*"):
                os.unlink(f)
            st, err = run_driver(exe, "\n".join(part) + "\n", out, np=np, timeout=timeout, env=drv_env, args=args)
            return st, err, self._collect(out, merge), i, bounds[i], len(part)
        t = time.time()
        with ThreadPoolExecutor(max_workers=JOBS) as ex:
            rs = list(ex.map(one, range(k)))
        log("[run] %s np=%d: %d scenarios, %.1fs" % (os.path.basename(exe), np, len(scenarios), time.time() - t))
        traces, failed = [], []
        for st, err, scs, i, base, cnt in rs:
            if st in ("crash:3", "crash:4", "crash:5") and "driver:" in err + "driver:" * (st != "crash:5"):
                raise HarnessError("driver or script error (%s)\n%s" % (st, err))
            if st == "ok" and len(scs) != cnt:
                raise HarnessError("driver produced %d of %d scenarios\n%s" % (len(scs), cnt, err))
            if st != "ok":
                at = max(0, len(scs) - 1)
                failed.append((base + at, st, err))
                scs = scs[:at]
            traces += [(base + j, s) for j, s in enumerate(scs)]
        bad, line, n, out = validate(module, [s for _, s in traces], "%s_%s" % (self.prop, tag), cfg=cfg, env=tlc_env)
        self.cov["traces_validated_against_impl"] += len(traces)
        self.cov["transitions"] += n
        self.cov["states"] += n
        if traces and len(self.cov["samples"]) < 6:
            s = traces[self.rng.randrange(len(traces))][1]
            self.cov["samples"].append(dict(tag=tag, np=np, scenario=[json.loads(x) for x in s[:4]]))
        if bad is not None:
            gi = traces[bad][0]
            self.confirm(exe, module, scenarios[gi], tag, np, env, cfg, drv_env, args, single_timeout,
                         "trace rejected by %s at event %d: %s" % (module, line + 1, traces[bad][1][line].strip()[:600] if line < len(traces[bad][1]) else ""), out, tlc_env, merge,
                         fallback=scenarios[max(0, gi - 3):gi + 1])
        for gi, st, err in failed:
            self.confirm(exe, module, scenarios[gi], tag, np, env, cfg, drv_env, args, single_timeout,
                         "driver did not complete the scenario (%s): %s" % (st, err[-600:]), err, tlc_env, merge,
                         fallback=scenarios[max(0, gi - 3):gi + 1])
        return traces

    def _collect(self, out, merge):
        if merge:
            return merge(out)
        return split_scenarios(out) if os.path.exists(out) else []

    def confirm(self, exe, module, scenario, tag, np, env, cfg, drv_env, args, timeout, why, detail, tlc_env, merge, fallback=None):
        """Re-run one scenario alone (then with its predecessors); report a violation only if it repeats."""
        for texts in ([scenario], fallback or [scenario]):
            rdir = os.path.join(BUILD, "replay")
            os.makedirs(rdir, exist_ok=True)
            h = hashlib.md5("\n".join(texts).encode()).hexdigest()[:8]
            out = os.path.join(rdir, "%s_%s_%s.ndjson" % (self.prop, tag, h))
            for f in glob.glob(out + "*"):
                os.unlink(f)
            st, err = run_driver(exe, "\n".join(texts) + "\n", out, np=np, timeout=timeout, env=drv_env, args=args)
            scs = self._collect(out, merge)
            again = None
            if st != "ok":
                again = "driver did not complete (%s): %s" % (st, err[-800:])
            else:
                bad, line, _, o = validate(module, scs, "%s_%s_%s_c" % (self.prop, tag, h), cfg=cfg, env=tlc_env)
                if bad is not None:
                    again = "trace rejected at event %d: %s" % (line + 1, scs[bad][line].strip()[:800] if line < len(scs[bad]) else "")
                    detail = o
            if again:
                rep = os.path.join(rdir, "%s_%s_%s.txt" % (self.prop, tag, h))
                with open(rep, "w") as f:
                    f.write("property %s\nwhy: %s\nagain: %s\ndriver: %s np=%d args=%r\nmodule: %s\nscript:\n%s\ntlc/driver output:\n%s\n" %
                            (self.prop, why, again, exe, np, args, module, "\n".join(texts), detail[-6000:]))
                self.violation(rep, again)
                return
        if self.trust and why.startswith("trace rejected"):
            rep = os.path.join(BUILD, "replay", "%s_%s_%s.txt" % (self.prop, tag, h))
            with open(rep, "w") as f:
                f.write("property %s (depends on the schedule; the recorded trace was rejected)\nwhy: %s\ndriver: %s np=%d\nmodule: %s\nscript:\n%s\n%s\n" %
                        (self.prop, why, exe, np, module, scenario, detail[-6000:]))
            self.violation(rep, why)
            return
        log("[flaky] a rejection did not repeat: %s" % why)
        self.notes.setdefault("not_repeated", []).append(why[:300])

    def violation(self, replay, what):
        self.violations += 1
        if self.violations <= 5:
            log("  " + what[:1000].replace("\n", " | "))
            log("VIOLATION property=%s replay=%s" % (self.prop, replay))

    def finish(self):
        ev = dict(property=self.prop, tier="quick" if QUICK else "thorough", seed=SEED, level=self.level,
                  coverage=dict(self.cov, **self.notes), assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=self.violations)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        log("%s: %s, %d traces validated, %.1fs" % (self.prop, "VIOLATED" if self.violations else "held",
                                                    self.cov["traces_validated_against_impl"], time.time() - self.t0))
        shutil.rmtree(os.path.join("/tmp", "vh.%d" % os.getpid()), ignore_errors=True)
        sys.exit(1 if self.violations else 0)


def main(fn, prop, **kw):
    c = Check(prop, **kw)
    try:
        fn(c)
    except HarnessError as e:
        if c.violations:
            c.finish()
        log("HARNESS ERROR: %s" % e)
        shutil.rmtree(os.path.join("/tmp", "vh.%d" % os.getpid()), ignore_errors=True)
        sys.exit(2)
    c.finish()


def histories(c, module, cfg, env=None, minimum=1, **kw):
    """Histories printed by a generating configuration (<<"HIST", json>>), as sorted Python values."""
    r = tlc_check(module, cfg, env=env, **kw)
    hs = sorted(set(json.dumps(json.loads(m.replace('\\"', '"'))) for m in re.findall(r'"HIST", "(.*?)">>', r["out"])))
    if not r["ok"] or len(hs) < minimum:
        raise HarnessError("history generation %s/%s failed (%d)\n%s" % (module, cfg, len(hs), r["out"][-2000:]))
    c.notes.setdefault("generated_histories", {})[cfg] = len(hs)
    return [json.loads(h) for h in hs]


def jn(v):
    return " ".join(map(str, v))


def lv(v):
    """A counted list argument of a script line."""
    return "%d %s" % (len(v), jn(v)) if v else "0"
