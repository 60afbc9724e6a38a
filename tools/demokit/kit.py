"""Small kit for the demonstrations: build a program against /repo/_build, run it under MPI, read the recorded states."""
import json, os, re, shutil, signal, subprocess, sys, threading, time, hashlib, tempfile, atexit
for _p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
    if _p not in sys.path: sys.path.append(_p)
import numpy as np
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.getcwd()
W = tempfile.mkdtemp(prefix="demo", dir="/tmp")
atexit.register(shutil.rmtree, W, True)
log = print
MPI_ENV = dict(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_rmaps_base_oversubscribe="1",
               OMPI_MCA_hwloc_base_binding_policy="none", OMPI_MCA_plm="isolated", OMPI_MCA_btl="self,vader", OMPI_MCA_pml="ob1",
               OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_mpi_yield_when_idle="1", PMIX_MCA_gds="hash",
               OMP_PROC_BIND="false", OMP_WAIT_POLICY="passive", LC_ALL="C.UTF-8")

class Result:
    def __init__(self, rc, out, wall, cwd):
        self.rc, self.out, self.wall, self.cwd = rc, out, wall, cwd
    @property
    def timed_out(self):
        return self.rc is None
    def tail(self, n=1500):
        return self.out[-n:]

def run(exe, args=(), np_=1, threads=1, cwd=None, timeout=120, env=None, retry=1, sig=None):
    """Runs exe under mpiexec. A timeout is retried once (it says nothing about the code), then reported as rc None.
    Every mpiexec gets a session directory of its own; a launcher that failed before starting the program is started again."""
    e = dict(os.environ)
    e.update(MPI_ENV)
    e["OMP_NUM_THREADS"] = str(threads)
    if env:
        e.update(env)
    cmd = ["mpiexec", "-np", str(np_), exe] + [str(a) for a in args]
    launches = 0
    attempt = 0
    while True:
        td = tempfile.mkdtemp(dir=tmpdir(), prefix="")
        e["TMPDIR"] = td
        t = time.time()
        p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            if sig:
                sig(p)
            out, _ = p.communicate(timeout=timeout)
            out = out.decode("utf-8", "replace")
            if p.returncode != 0 and launches < 4 and re.search(r"ORTE_ERROR_LOG|orte_init failed|PMIX ERROR|ORTE was unable|mpiexec was unable", out) and not re.search(r"Signal:|Sanitizer|terminate called|what\(\)|exited on signal|runtime error", out):
                launches += 1
                log("[launcher] started again: " + out[:200].replace("\n", " "))
                time.sleep(0.5 * launches)
                continue
            return Result(p.returncode, out, time.time() - t, cwd)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            out = (p.communicate()[0] or b"").decode("utf-8", "replace")
            log("[timeout %ds] %s" % (timeout, " ".join(cmd)))
            if attempt >= retry:
                return Result(None, out, time.time() - t, cwd)
            attempt += 1
        finally:
            shutil.rmtree(td, True)

def tmpdir():
    return W

_dt = {"<f8": "<f8", "<u8": "<u8", "<i8": "<i8"}
def read_rec(path):
    """Decodes one record file: {name: array or str}; a name that appears several times becomes a list."""
    d = {}
    with open(path, "rb") as f:
        b = f.read()
    assert b[:7] == b"VPREC1\n", path
    p = 7
    while p < len(b):
        q = b.index(b"\n", p)
        name, dt, shape, nb = b[p:q].decode().rsplit("|", 3)
        nb = int(nb)
        raw = b[q + 1:q + 1 + nb]
        p = q + 1 + nb
        if dt == "str":
            v = raw.decode()
        else:
            v = np.frombuffer(raw, dtype=dt).reshape([int(x) for x in shape.split(",")] if shape else (-1,))
        if name in d:
            if not isinstance(d[name], list):
                d[name] = [d[name]]
            d[name].append(v)
        else:
            d[name] = v
    return d

class Snap:
    """One recorded global state: the concatenation of the ranks' records."""
    def __init__(self, paths):
        self.ranks = [read_rec(p) for p in sorted(paths, key=lambda p: int(re.search(r"\.r(\d+)\.rec$", p).group(1)))]
        self.meta = json.loads(re.sub(r"-?\b(nan|inf)\b", "null", self.ranks[0]["meta"]))
        self.metas = [json.loads(re.sub(r"-?\b(nan|inf)\b", "null", r["meta"])) for r in self.ranks]
        self.tag = self.meta["tag"]
        self.ndim, self.bs, self.cg = self.meta["ndim"], self.meta["bs"], self.meta["cg"]
        self.scal = self.meta["scalars"]
        self.oct = np.concatenate([r["oct"] for r in self.ranks]).astype(np.int64)
        self.rank = np.concatenate([np.full(len(r["oct"]), i) for i, r in enumerate(self.ranks)])
        self.fields = sorted(k[2:] for k in self.ranks[0] if k.startswith("f:"))
        self._f = {}
    def f(self, name):
        if name not in self._f:
            self._f[name] = np.concatenate([r["f:" + name] for r in self.ranks])
        return self._f[name]
    def cat(self, key):
        return np.concatenate([r[key] for r in self.ranks])
    @property
    def level(self):
        return self.oct[:, 3]
    def vol(self):
        """cell volume (unit domain) per octant"""
        lv = self.level - self.meta["level_min"]
        n = np.ones(len(self.oct))
        for a in range(self.ndim):
            n = n * (self.cg[a] * (2.0 ** lv)) * self.bs[a]
        return 1.0 / n
    def total(self, name):
        return float(np.sum(self.f(name).sum(axis=1) * self.vol()))
    def order(self):
        """canonical order of the leaves, independent of the partition"""
        lm = self.oct[:, 3].max() if len(self.oct) else 0
        s = lm - self.oct[:, 3]
        x, y, z = (self.oct[:, a] << s for a in range(3))
        return np.lexsort((self.oct[:, 3], x, y, z))
    def particles(self, arr="particles"):
        keys = [k for k in self.ranks[0] if k.startswith("p:%s:" % arr)]
        return {k.split(":")[2]: np.concatenate([r[k] for r in self.ranks]) for k in keys}

def read_trace(d, tags=None):
    """The recorded states of a run in order of occurrence"""
    g = {}
    for f in os.listdir(d):
        m = re.match(r"(\d{6}_[a-z0-9]+)\.r\d+\.rec$", f)
        if m and (tags is None or m.group(1)[7:] in tags):
            g.setdefault(m.group(1), []).append(os.path.join(d, f))
    return [Snap(g[k]) for k in sorted(g)]

# ---------------------------------------------------------------- configuration
def ini(cfg, path=None):
    """cfg: {'section/key': value}"""
    s = {}
    for k, v in cfg.items():
        if v is None:
            continue
        a, b = k.split("/")
        if isinstance(v, bool):
            v = "yes" if v else "no"
        elif isinstance(v, (list, tuple)):
            v = ",".join(repr(float(x)) if isinstance(x, float) else str(x) for x in v)
        elif isinstance(v, float):
            v = repr(float(v))
        s.setdefault(a, []).append("%s=%s" % (b, v))
    t = "".join("[%s]\n%s\n\n" % (a, "\n".join(l)) for a, l in s.items())
    if path:
        with open(path, "w") as f:
            f.write(t)
    return t

def base_cfg(ndim=2, bs=4, cg=None, lmin=2, lmax=4, update="HydroUpdate_euler", periodic=True, **kw):
    """A full simulation configuration with the seeded workload; overridden with section__key=value keywords."""
    if isinstance(bs, int):
        bs = (bs,) * 3
    c = {"run/initial_conditions": "vp_ic", "run/nstepmax": 4, "run/tEnd": 0.0, "run/nlog": 1000, "run/enable_output": False, "run/enable_checkpoint": False,
         "mesh/ndim": ndim, "amr/bx": bs[0], "amr/by": bs[1], "amr/bz": bs[2] if ndim == 3 else 1,
         "amr/level_min": lmin, "amr/level_max": lmax, "amr/markers_kernel": "vp_refine", "amr/remap": "vpwrap_remap", "amr/load_balancing_frequency": 2,
         "hydro/update": "vpwrap_" + update, "hydro/gamma0": 1.4, "hydro/riemann": "hlld" if "MHD" in update else "hllc", "hydro/smallr": 1e-10, "hydro/smallp": 1e-10,
         "dt/hydro_cfl": 0.4, "dt/dt_kernel": "Compute_dt_hydro,vp_probe",
         "output/outputDir": "./", "output/outputPrefix": "out"}
    if update.startswith("GLM"):
        c["hydro/riemann"] = "hlld"
    if cg:
        for a, n in zip("xyz", cg):
            c["amr/coarse_oct_resolution_" + a] = n
    bt = "periodic" if periodic is True else periodic
    for a in "xyz":
        for s in ("min", "max"):
            c["mesh/boundary_type_%s%s" % (a, s)] = bt
    for k, v in kw.items():
        c[k.replace("__", "/")] = v
    return c

class Rand:
    """Seeded choices, independent of the interpreter's random module state"""
    def __init__(self, *key):
        self.g = np.random.default_rng(int(hashlib.sha256(repr(key).encode()).hexdigest()[:15], 16))
    def pick(self, l):
        return l[int(self.g.integers(len(l)))]
    def i(self, a, b):
        return int(self.g.integers(a, b + 1))
    def u(self, a=0.0, b=1.0):
        return float(self.g.uniform(a, b))

CONSERVATIVE = ["HydroUpdate_euler", "HydroUpdate_RK2", "HydroUpdate_hancock_oneneighbor", "MHDUpdate_euler", "MHDUpdate_RK2", "MHDUpdate_hancock_oneneighbor", "GLMMHDUpdate_euler", "GLMMHDUpdate_RK2"]
UNIFORM_ONLY = ["HydroUpdate_hancock", "MHDUpdate_hancock", "HydroUpdate_legacy"]

def random_cfg(R, ndim=None, update=None, steps=4, periodic=True, **kw):
    """A seeded configuration: dimension, block shape, coarse grid, levels, solver, flow, refinement activity"""
    ndim = ndim or R.pick([2, 2, 3])
    update = update or R.pick(CONSERVATIVE)
    bs = tuple(R.pick([4, 4, 6, 8] if ndim == 2 else [4, 4, 4, 6]) for _ in range(3))
    if R.u() < 0.5:
        bs = (bs[0],) * 3
    lmin, lmax = R.pick([(1, 3), (2, 4), (2, 3), (3, 5)] if ndim == 2 else [(1, 2), (1, 3)])
    cg = None
    c = dict(ndim=ndim, bs=bs, lmin=lmin, lmax=lmax, update=update, periodic=periodic, run__nstepmax=steps,
             vp__seed=R.i(1, 10**6), vp__refine_prob=R.pick([0.15, 0.3, 0.5]), vp__mark_refine=R.pick([0.05, 0.15, 0.3]), vp__mark_coarsen=R.pick([0.2, 0.5, 0.9]), vp__mark_period=R.pick([1, 1, 2]),
             vp__amp=R.pick([0.1, 0.4]), vp__vamp=R.pick([0.2, 0.6, 1.0]), vp__jump=R.pick([1.0, 1.0, 2.0]), vp__bamp=R.pick([0.3, 0.8]),
             amr__load_balancing_frequency=R.pick([1, 2, 3]), amr__loadbalance_coherent_levels=R.pick([0, 1, 3]), hydro__gamma0=R.pick([1.4, 5.0 / 3]), dt__hydro_cfl=R.pick([0.2, 0.4]))
    if "MHD" in update:
        c["hydro__riemann"] = R.pick(["hlld", "five_waves"])
    if R.u() < 0.35:
        # several coarse octants, not the same number in each direction
        m = 1 << lmin
        c["cg"] = [m, max(1, m // 2), m] if R.u() < 0.5 else [max(1, m // 2), m, m]
        if lmin == 1: c["lmin"], c["cg"] = 2, [4, 2, 4]
        c["lmax"] = max(lmax, c["lmin"] + 1)
        if R.u() < 0.4:
            c["cg"] = [R.pick([2, 3]), R.pick([3, 4]), R.pick([1, 2])]
            m = max(c["cg"][:ndim])
            c["lmin"] = (m - 1).bit_length()
            c["lmax"] = c["lmin"] + (2 if ndim == 2 else 1)
        if ndim == 2:
            c["cg"][2] = 1
    if "lmin" in kw and "cg" not in kw:
        c["cg"] = None
    c.update(kw)
    return base_cfg(**c)


def compile(src="dyablo_mon.cpp"):
    exe = os.path.join(W, "exe_" + src.replace(".", "_"))
    subprocess.run(["bash", os.path.join(HERE, "compile.sh"), os.path.join(HERE, src), exe], cwd=REPO, check=True)
    return exe

_n = 0
def simulate(exe, cfg, np_=1, threads=1, tags=("step",), timeout=100, files=()):
    """runs the simulation; returns (result, recorded states)"""
    global _n
    _n += 1
    d = os.path.join(W, "r%d" % _n)
    os.makedirs(d)
    for f in files:
        shutil.copy(f, d)
    cfg = dict(cfg)
    cfg["vp/trace"] = list(tags)
    ini(cfg, os.path.join(d, "c.ini"))
    r = run(exe, ["c.ini"], np_, threads, cwd=d, timeout=timeout, retry=0)
    r.d = d
    return r, (read_trace(d) if r.rc == 0 else [])

def check(cond, text):
    if not cond:
        print("FAILED: " + text)
        sys.exit(1)
    print("ok: " + text)
