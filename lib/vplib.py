"""Shared machinery of the checks: running workloads under MPI, reading event logs, verdicts, evidence, known findings."""
import json, os, re, shutil, signal, subprocess, sys, threading, time, hashlib, tempfile
import numpy as np
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vpbuild
from vpbuild import VERIF, BUILD, log

SEED = int(os.environ.get("VERIF_SEED", "1"))
WORK = os.path.join(VERIF, "work")

MPI_ENV = dict(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_rmaps_base_oversubscribe="1",
               OMPI_MCA_hwloc_base_binding_policy="none", OMPI_MCA_plm="isolated", OMPI_MCA_btl="self,vader", OMPI_MCA_pml="ob1",
               OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_mpi_yield_when_idle="1", PMIX_MCA_gds="hash",
               OMP_PROC_BIND="false", OMP_WAIT_POLICY="passive", LC_ALL="C.UTF-8")

ASAN_ENV = dict(ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=66:detect_stack_use_after_return=0:allocator_may_return_null=1",
                UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=66")

class Result:
    def __init__(self, rc, out, wall, cwd):
        self.rc, self.out, self.wall, self.cwd = rc, out, wall, cwd
    @property
    def timed_out(self):
        return self.rc is None
    def tail(self, n=1500):
        return self.out[-n:]

DECIDED = {"t": None, "hang": False}    # set at the first violation: what is still to come only adds examples

def kill_tree(pid):
    """Kills a launcher and everything it started (Open MPI gives its processes groups of their own)"""
    kids = {}
    for p in os.listdir("/proc"):
        if p.isdigit():
            try:
                with open("/proc/%s/stat" % p) as f:
                    kids.setdefault(int(f.read().rsplit(")", 1)[1].split()[1]), []).append(int(p))
            except (OSError, IndexError, ValueError):
                pass
    todo, all_ = [pid], []
    while todo:
        p = todo.pop()
        all_.append(p)
        todo += kids.get(p, [])
    for p in all_:
        try:
            os.kill(p, signal.SIGKILL)
        except OSError:
            pass

def run(exe, args=(), np_=1, threads=1, cwd=None, timeout=120, env=None, retry=1, sig=None):
    """Runs exe under mpiexec. A timeout is retried once (it says nothing about the code), then reported as rc None.
    Every mpiexec gets a session directory of its own; a launcher that failed before starting the program is started again."""
    e = dict(os.environ)
    e.update(MPI_ENV)
    e["OMP_NUM_THREADS"] = str(threads)
    if env:
        e.update(env)
    cmd = ["mpiexec", "-np", str(np_), exe] + [str(a) for a in args]
    launches = 0
    attempt = 0
    while True:
        if DECIDED["t"] is not None:
            timeout, retry = min(timeout, 60), 0
        td = tempfile.mkdtemp(dir=tmpdir(), prefix="")
        e["TMPDIR"] = td
        t = time.time()
        p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            if sig:
                sig(p)
            out, _ = p.communicate(timeout=timeout)
            out = out.decode("utf-8", "replace")
            if p.returncode != 0 and launches < 4 and re.search(r"ORTE_ERROR_LOG|orte_init failed|PMIX ERROR|ORTE was unable|mpiexec was unable", out) and not re.search(r"Signal:|Sanitizer|terminate called|what\(\)|exited on signal|runtime error", out):
                launches += 1
                log("[launcher] started again: " + out[:200].replace("\n", " "))
                time.sleep(0.5 * launches)
                continue
            return Result(p.returncode, out, time.time() - t, cwd)
        except subprocess.TimeoutExpired:
            kill_tree(p.pid)
            out = (p.communicate()[0] or b"").decode("utf-8", "replace")
            log("[timeout %ds] %s" % (timeout, " ".join(cmd)))
            if attempt >= retry:
                return Result(None, out, time.time() - t, cwd)
            attempt += 1
        finally:
            shutil.rmtree(td, True)

_tmp = None
_tmplock = threading.Lock()
def tmpdir():
    # Open MPI session directories: a short path, removed at exit
    global _tmp
    with _tmplock:
        if _tmp is None:
            _tmp = tempfile.mkdtemp(prefix="vp", dir="/tmp")
            import atexit
            atexit.register(shutil.rmtree, _tmp, True)
    return _tmp

# ---------------------------------------------------------------- event logs
_dt = {"<f8": "<f8", "<u8": "<u8", "<i8": "<i8"}
def read_rec(path):
    """Decodes one record file: {name: array or str}; a name that appears several times becomes a list."""
    d = {}
    with open(path, "rb") as f:
        b = f.read()
    assert b[:7] == b"VPREC1\n", path
    p = 7
    while p < len(b):
        q = b.index(b"\n", p)
        name, dt, shape, nb = b[p:q].decode().rsplit("|", 3)
        nb = int(nb)
        raw = b[q + 1:q + 1 + nb]
        p = q + 1 + nb
        if dt == "str":
            v = raw.decode()
        else:
            v = np.frombuffer(raw, dtype=dt).reshape([int(x) for x in shape.split(",")] if shape else (-1,))
        if name in d:
            if not isinstance(d[name], list):
                d[name] = [d[name]]
            d[name].append(v)
        else:
            d[name] = v
    return d

class Snap:
    """One recorded global state: the concatenation of the ranks' records."""
    def __init__(self, paths):
        self.ranks = [read_rec(p) for p in sorted(paths, key=lambda p: int(re.search(r"\.r(\d+)\.rec$", p).group(1)))]
        self.meta = json.loads(re.sub(r"-?\b(nan|inf)\b", "null", self.ranks[0]["meta"]))
        self.metas = [json.loads(re.sub(r"-?\b(nan|inf)\b", "null", r["meta"])) for r in self.ranks]
        self.tag = self.meta["tag"]
        self.ndim, self.bs, self.cg = self.meta["ndim"], self.meta["bs"], self.meta["cg"]
        self.scal = self.meta["scalars"]
        self.oct = np.concatenate([r["oct"] for r in self.ranks]).astype(np.int64)
        self.rank = np.concatenate([np.full(len(r["oct"]), i) for i, r in enumerate(self.ranks)])
        self.fields = sorted(k[2:] for k in self.ranks[0] if k.startswith("f:"))
        self._f = {}
    def f(self, name):
        if name not in self._f:
            self._f[name] = np.concatenate([r["f:" + name] for r in self.ranks])
        return self._f[name]
    def cat(self, key):
        return np.concatenate([r[key] for r in self.ranks])
    @property
    def level(self):
        return self.oct[:, 3]
    def vol(self):
        """cell volume (unit domain) per octant"""
        lv = self.level - self.meta["level_min"]
        n = np.ones(len(self.oct))
        for a in range(self.ndim):
            n = n * (self.cg[a] * (2.0 ** lv)) * self.bs[a]
        return 1.0 / n
    def total(self, name):
        return float(np.sum(self.f(name).sum(axis=1) * self.vol()))
    def order(self):
        """canonical order of the leaves, independent of the partition"""
        lm = self.oct[:, 3].max() if len(self.oct) else 0
        s = lm - self.oct[:, 3]
        x, y, z = (self.oct[:, a] << s for a in range(3))
        return np.lexsort((self.oct[:, 3], x, y, z))
    def particles(self, arr="particles"):
        keys = [k for k in self.ranks[0] if k.startswith("p:%s:" % arr)]
        return {k.split(":")[2]: np.concatenate([r[k] for r in self.ranks]) for k in keys}

def read_trace(d, tags=None):
    """The recorded states of a run in order of occurrence"""
    g = {}
    for f in os.listdir(d):
        m = re.match(r"(\d{6}_[a-z0-9]+)\.r\d+\.rec$", f)
        if m and (tags is None or m.group(1)[7:] in tags):
            g.setdefault(m.group(1), []).append(os.path.join(d, f))
    return [Snap(g[k]) for k in sorted(g)]

# ---------------------------------------------------------------- configuration
def ini(cfg, path=None):
    """cfg: {'section/key': value}"""
    s = {}
    for k, v in cfg.items():
        if v is None:
            continue
        a, b = k.split("/")
        if isinstance(v, bool):
            v = "yes" if v else "no"
        elif isinstance(v, (list, tuple)):
            v = ",".join(repr(float(x)) if isinstance(x, float) else str(x) for x in v)
        elif isinstance(v, float):
            v = repr(float(v))
        s.setdefault(a, []).append("%s=%s" % (b, v))
    t = "".join("[%s]\n%s\n\n" % (a, "\n".join(l)) for a, l in s.items())
    if path:
        with open(path, "w") as f:
            f.write(t)
    return t

def base_cfg(ndim=2, bs=4, cg=None, lmin=2, lmax=4, update="HydroUpdate_euler", periodic=True, **kw):
    """A full simulation configuration with the seeded workload; overridden with section__key=value keywords."""
    if isinstance(bs, int):
        bs = (bs,) * 3
    c = {"run/initial_conditions": "vp_ic", "run/nstepmax": 4, "run/tEnd": 0.0, "run/nlog": 1000, "run/enable_output": False, "run/enable_checkpoint": False,
         "mesh/ndim": ndim, "amr/bx": bs[0], "amr/by": bs[1], "amr/bz": bs[2] if ndim == 3 else 1,
         "amr/level_min": lmin, "amr/level_max": lmax, "amr/markers_kernel": "vp_refine", "amr/remap": "vpwrap_remap", "amr/load_balancing_frequency": 2,
         "hydro/update": "vpwrap_" + update, "hydro/gamma0": 1.4, "hydro/riemann": "hlld" if "MHD" in update else "hllc", "hydro/smallr": 1e-10, "hydro/smallp": 1e-10,
         "dt/hydro_cfl": 0.4, "dt/dt_kernel": "Compute_dt_hydro,vp_probe",
         "output/outputDir": "./", "output/outputPrefix": "out"}
    if update.startswith("GLM"):
        c["hydro/riemann"] = "hlld"
    if cg:
        for a, n in zip("xyz", cg):
            c["amr/coarse_oct_resolution_" + a] = n
    bt = "periodic" if periodic is True else periodic
    for a in "xyz":
        for s in ("min", "max"):
            c["mesh/boundary_type_%s%s" % (a, s)] = bt
    for k, v in kw.items():
        c[k.replace("__", "/")] = v
    return c

class Violation(Exception):
    def __init__(self, key, text):
        super().__init__(text)
        self.key, self.text = key, text

class Check:
    """One property's check: collects observations, decides, writes evidence, exits."""
    def __init__(self, pid, level="exploration", rule=""):
        self.pid, self.level, self.rule = pid, level, rule
        self.tier = os.environ.get("VERIF_TIER", "quick")
        for a in sys.argv[1:]:
            if a in ("quick", "thorough"):
                self.tier = a
        self.seed = SEED
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.viol = []          # (key, text, replay)
        self.known_hit = {}
        self.evals = 0          # oracle evaluations
        self.distinct = set()   # distinct non-trivial situations
        self.stats = {}
        self.samples = []
        self.inconclusive = []
        self.assumptions = []
        self.known = load_known(pid)
        self.work = os.path.join(WORK, pid)
        shutil.rmtree(self.work, True)
        os.makedirs(self.work)
        shutil.rmtree(os.path.join(VERIF, "evidence", "replay_" + pid), True)
        self.n = 0
        self.lock = threading.RLock()
    def build(self, variant, *targets):
        try:
            vpbuild.build(variant, targets)
        except vpbuild.BuildFailed:
            print("ERROR: /repo does not build (variant %s)" % variant)
            sys.exit(2)
        return lambda name: vpbuild.exe(variant, name)
    def dir(self, name=None):
        with self.lock:
            self.n += 1
            n = self.n
        d = os.path.join(self.work, name or "w%04d" % n)
        shutil.rmtree(d, True)
        os.makedirs(d)
        return d
    def count(self, key, n=1):
        with self.lock:
          self.stats[key] = self.stats.get(key, 0) + n
    def saw(self, situation, n=1):
        """one oracle evaluation of this (distinct) situation"""
        self.evals += n
        self.distinct.add(str(situation))
    def sample(self, text):
        if len(self.samples) < 12:
            self.samples.append(str(text)[:400])
    def violation(self, key, text, replay=None):
        """key identifies the failing call site/input class for matching with the known findings"""
        for k in self.known:
            if re.search(k["match"], key):
                if k["id"] not in self.known_hit:
                    self.known_hit[k["id"]] = (k, text)
                self.count("known_finding_hits")
                return
        DECIDED["t"] = DECIDED["t"] or time.time()
        DECIDED["hang"] |= key.endswith(":hang")
        if len(self.viol) < 50:
            log("violation: %s: %s" % (key, text[:600]))
            d = os.path.join(VERIF, "evidence", "replay_" + self.pid)
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, "v%02d.json" % len(self.viol))
            with open(p, "w") as f:
                json.dump({"property": self.pid, "key": key, "what": text, "seed": self.seed, "tier": self.tier, "replay": replay}, f, indent=1, default=str)
            self.viol.append((key, text, p))
    def require(self, cond, key, text, replay=None):
        if not cond:
            self.violation(key, text() if callable(text) else text, replay)
        return bool(cond)
    def run_ok(self, r, key, replay=None, what="run"):
        """A workload that must complete: a crash or abort is a violation, a timeout is inconclusive."""
        if r.rc == 0:
            return True
        if r.rc is None:
            self.inconclusive.append("%s: timed out" % key)
            # a hang that repeats on the retry with a generous limit is a violation of progress
            self.violation(key + ":hang", "%s did not finish in its time limit, twice" % what, replay)
            return False
        self.violation(key + ":crash", "%s ended with exit code %s: %s" % (what, r.rc, crash_summary(r.out)), replay)
        return False
    def finish(self):
        for kid, (k, text) in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s: %s" % (self.pid, kid, k["what"]))
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": {"evaluations": self.evals, "distinct_nontrivial": len(self.distinct), "rule": self.rule,
                           "samples": self.samples or sorted(self.distinct)[:8], "observed": self.stats, "inconclusive": self.inconclusive,
                           "known_findings_seen": sorted(self.known_hit)},
              "wall_s": round(time.time() - self.t0, 1), "violations": len(self.viol), "assumptions": self.assumptions}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        log("[%s] %d evaluations, %d distinct, %.0f s, %d violations" % (self.pid, self.evals, len(self.distinct), time.time() - self.t0, len(self.viol)))
        if not os.environ.get("VP_KEEP"):
            shutil.rmtree(self.work, True)
        if self.viol:
            seen = set()
            for key, text, p in self.viol:
                print("# %s: %s" % (key, text.replace("\n", " ")[:300]))
            print("VIOLATION property=%s replay=%s" % (self.pid, self.viol[0][2]))
            sys.exit(1)
        if self.evals == 0:
            print("ERROR: nothing was observed")
            sys.exit(2)
        print("OK property=%s evaluations=%d distinct=%d" % (self.pid, self.evals, len(self.distinct)))
        sys.exit(0)

def crash_summary(out):
    lines = [l for l in out.splitlines() if re.search(r"ERROR: AddressSanitizer|runtime error|what\(\)|Assertion|Dyablo (assert|expect)|Message|SUMMARY|Condition|terminate|WARNING: ThreadSanitizer|error", l, re.I)]
    return " / ".join(lines[:8])[:900] or out[-500:]

def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if pid in k["properties"]]

def guarded(check, body):
    """Runs a check's body; an internal error of the machinery is neither 0 nor 1"""
    try:
        body()
    except SystemExit:
        raise
    except Exception:
        import traceback
        traceback.print_exc()
        if check.viol:
            check.finish()
        sys.exit(3)
    check.finish()

# ---------------------------------------------------------------- workloads
from concurrent.futures import ThreadPoolExecutor
def pmap(fn, items, workers=4):
    """Runs fn over the items concurrently (each item starts its own processes); exceptions propagate"""
    t0 = time.time()
    def item(x):
        # once a violation is established the verdict is known: do not let slow or hanging runs use up the time a check is given
        if DECIDED["t"] is not None and (DECIDED["hang"] or time.time() - t0 > 300):
            return None
        return fn(x)
    with ThreadPoolExecutor(workers) as ex:
        return list(ex.map(item, items))

class Rand:
    """Seeded choices, independent of the interpreter's random module state"""
    def __init__(self, *key):
        self.g = np.random.default_rng(int(hashlib.sha256(repr(key).encode()).hexdigest()[:15], 16))
    def pick(self, l):
        return l[int(self.g.integers(len(l)))]
    def i(self, a, b):
        return int(self.g.integers(a, b + 1))
    def u(self, a=0.0, b=1.0):
        return float(self.g.uniform(a, b))

CONSERVATIVE = ["HydroUpdate_euler", "HydroUpdate_RK2", "HydroUpdate_hancock_oneneighbor", "MHDUpdate_euler", "MHDUpdate_RK2", "MHDUpdate_hancock_oneneighbor", "GLMMHDUpdate_euler", "GLMMHDUpdate_RK2"]
UNIFORM_ONLY = ["HydroUpdate_hancock", "MHDUpdate_hancock", "HydroUpdate_legacy"]

def random_cfg(R, ndim=None, update=None, steps=4, periodic=True, **kw):
    """A seeded configuration: dimension, block shape, coarse grid, levels, solver, flow, refinement activity"""
    ndim = ndim or R.pick([2, 2, 3])
    update = update or R.pick(CONSERVATIVE)
    bs = tuple(R.pick([4, 4, 6, 8] if ndim == 2 else [4, 4, 4, 6]) for _ in range(3))
    if R.u() < 0.5:
        bs = (bs[0],) * 3
    lmin, lmax = R.pick([(1, 3), (2, 4), (2, 3), (3, 5)] if ndim == 2 else [(1, 2), (1, 3)])
    cg = None
    c = dict(ndim=ndim, bs=bs, lmin=lmin, lmax=lmax, update=update, periodic=periodic, run__nstepmax=steps,
             vp__seed=R.i(1, 10**6), vp__refine_prob=R.pick([0.15, 0.3, 0.5]), vp__mark_refine=R.pick([0.05, 0.15, 0.3]), vp__mark_coarsen=R.pick([0.2, 0.5, 0.9]), vp__mark_period=R.pick([1, 1, 2]),
             vp__amp=R.pick([0.1, 0.4]), vp__vamp=R.pick([0.2, 0.6, 1.0]), vp__jump=R.pick([1.0, 1.0, 2.0]), vp__bamp=R.pick([0.3, 0.8]),
             amr__load_balancing_frequency=R.pick([1, 2, 3]), amr__loadbalance_coherent_levels=R.pick([0, 1, 3]), hydro__gamma0=R.pick([1.4, 5.0 / 3]), dt__hydro_cfl=R.pick([0.2, 0.4]))
    if "MHD" in update:
        c["hydro__riemann"] = R.pick(["hlld", "five_waves"])
    if R.u() < 0.35:
        # several coarse octants, not the same number in each direction
        m = 1 << lmin
        c["cg"] = [m, max(1, m // 2), m] if R.u() < 0.5 else [max(1, m // 2), m, m]
        if lmin == 1: c["lmin"], c["cg"] = 2, [4, 2, 4]
        c["lmax"] = max(lmax, c["lmin"] + 1)
        if R.u() < 0.4:
            c["cg"] = [R.pick([2, 3]), R.pick([3, 4]), R.pick([1, 2])]
            m = max(c["cg"][:ndim])
            c["lmin"] = (m - 1).bit_length()
            c["lmax"] = c["lmin"] + (2 if ndim == 2 else 1)
        if ndim == 2:
            c["cg"][2] = 1
    if "lmin" in kw and "cg" not in kw:
        c["cg"] = None
    c.update(kw)
    return base_cfg(**c)

class Workload:
    """One run of the monitored program; the trace is read lazily and removed unless something was wrong"""
    def __init__(self, check, exe, cfg, np_=1, threads=1, tags=("step",), timeout=120, env=None, name=None, args=("c.ini",), prep=None):
        self.check, self.cfg, self.np_, self.threads = check, dict(cfg), np_, threads
        self.d = check.dir(name)
        self.cfg["vp/trace"] = list(tags)
        ini(self.cfg, os.path.join(self.d, "c.ini"))
        self.replay = {"exe": exe, "np": np_, "threads": threads, "cfg": self.cfg}
        self.key = "np%d" % np_
        self.r = run(exe, args, np_, threads, cwd=self.d, timeout=timeout, env=env)
        check.count("runs")
    @property
    def ok(self):
        return self.r.rc == 0
    def trace(self, tags=None):
        t = read_trace(self.d, tags)
        self.check.count("recorded_states", len(t))
        return t
    def clean(self):
        if not os.environ.get("VP_KEEP"):
            shutil.rmtree(self.d, True)

# ---------------------------------------------------------------- C++ monitors
def mon(check, exe, args, np_=1, threads=1, timeout=150, env=None, what=None, cwd=None, kinds=None):
    """Runs a C++ monitor and takes over what it observed; only this property's verdicts count here"""
    what = what or os.path.basename(exe)
    replay = {"exe": exe, "args": [str(a) for a in args], "np": np_, "threads": threads, "env": env}
    d = cwd or check.dir()
    r = run(exe, args, np_, threads, cwd=d, timeout=timeout, env=env)
    check.count("monitor_runs")
    other = 0
    rep = os.path.join(d, "vp_report.txt")
    out = open(rep).read() if os.path.exists(rep) else ""
    for l in out.splitlines():
        f = l.split("\t")
        if f[0] == "VP_VIOLATION" and len(f) >= 3:
            if f[1].startswith(check.pid + ":"):
                with check.lock:
                    check.violation(f[1], f[2], replay)
            else:
                other += 1
        elif f[0] == "VP_STAT" and len(f) == 3:
            if f[1].startswith("checks_"):
                if f[1] == "checks_" + check.pid:
                    with check.lock:
                        check.evals += int(f[2])
            else:
                check.count(f[1], int(f[2]))
        elif f[0] == "VP_KIND" and len(f) == 2:
            if kinds is None or re.search(kinds, f[1]):
                with check.lock:
                    check.distinct.add(what + "/" + f[1])
        elif f[0] == "VP_SAMPLE" and len(f) == 2:
            check.sample(f[1])
    if "VP_VIOLATION\tmachinery" in out:
        raise RuntimeError("machinery: " + out[:800])
    check.count("violations_of_other_properties", other)
    if check.run_ok(r, what, replay, what + " " + " ".join(map(str, args)) + " on %d processes" % np_):
        check.require("VP_DONE" in out, what + ":incomplete", what + " did not finish its observations", replay)
    if not cwd:
        shutil.rmtree(d, True)
    return r
