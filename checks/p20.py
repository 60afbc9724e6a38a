"""P20: runs interrupted by SIGINT on one or several processes, at chosen points of the step and at random moments, compared with the uninterrupted run and continued."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vplib import *
from vpcompare import *
from workloads import physics_cfg

C = Check("P20", rule="evaluations: one interrupted run judged (exit, agreement of the processes, final snapshot and checkpoint, state) or one state of its continuation compared with the uninterrupted run; distinct: (point of the step or random moment, processes, interrupted process, iteration) of interruptions that ended a run early")
exe = C.build("rel", "dyablo_mon")("dyablo_mon")
TAGS = ("step", "out", "ckpt")

def children(pid):
    r = []
    for t in os.listdir("/proc"):
        if t.isdigit():
            try:
                s = open("/proc/%s/stat" % t).read()
            except OSError:
                continue
            a = s.rindex(")")
            if int(s[a + 2:].split()[1]) == pid and "dyablo_mon" in s[:a]:
                r.append(int(t))
    return sorted(r)

def later(d, iters, delay, who):
    """sends SIGINT to one process of the run some time after its iters-th step has begun"""
    def f(p):
        end = time.time() + 60
        while time.time() < end and p.poll() is None:
            if sum(1 for n in os.listdir(d) if "_step.r0." in n) > iters:
                time.sleep(delay)
                c = children(p.pid)
                if c:
                    try:
                        os.kill(c[who % len(c)], signal.SIGINT)
                    except ProcessLookupError:
                        pass
                return
            time.sleep(0.002)
    return f

POINTS = ["step", "pre", "post", "preamr", "postamr", "premove", "grav", "out", "ckpt"]

def one(k):
    R = Rand("p20", C.seed, k)
    n = 6
    cfg, what, tol = physics_cfg(R, R.i(0, 1000), steps=n)
    cfg.update({"run/enable_output": True, "output/backend": "IOManager_h5vp" if k % 3 == 0 else "IOManager_vp", "run/enable_checkpoint": True, "output/checkpoint": "IOManager_ckvp", "run/checkpoint_frequency": 2, "run/output_frequency": 2})
    for key in ("particles/update_position", "gravity/solver"):
        if cfg.get(key, "none") not in ("none",) and not cfg[key].startswith("vpwrap"):
            cfg[key] = "vpwrap_" + cfg[key]
    nleaf = 2 ** (cfg["mesh/ndim"] * cfg["amr/level_min"]) if not cfg.get("amr/coarse_oct_resolution_x") else 4
    np_ = R.i(1, max(1, min(4, nleaf // 2)))
    w0 = Workload(C, exe, cfg, np_, 1, TAGS)
    if not C.run_ok(w0.r, what + ":reference", w0.replay):
        return
    A = w0.trace()
    last = max(s.scal["iter"] for s in A)
    who = R.i(0, np_ - 1)
    timed = k % 4 == 3
    c2 = dict(cfg)
    if timed:
        d = C.dir()
        c2["run/nstepmax"] = 100000
        c2["run/checkpoint_frequency"] = c2["run/output_frequency"] = R.pick([1, 3, 20])
        c2["vp/trace"] = list(TAGS)
        ini(c2, os.path.join(d, "c.ini"))
        it0, delay = R.i(0, 3), R.u(0, 0.08)
        r = run(exe, ["c.ini"], np_, 1, cwd=d, timeout=150, sig=later(d, it0, delay, who), retry=0)
        C.count("runs")
        replay = {"exe": exe, "np": np_, "cfg": c2, "signal": "process %d, %.3f s after its step %d" % (who, delay, it0)}
        point = "random"
    else:
        point = POINTS[(k - k // 4) % len(POINTS)]
        if point == "premove" and cfg.get("particles/update_position", "none") == "none": point = "step"
        if point == "grav" and cfg.get("gravity/solver", "none") == "none": point = "post"
        sig = ["%s:%d:%d" % (point, 1 + R.i(0, 2 if point not in ("out", "ckpt") else 0 if point == "ckpt" else 1), who)]
        if R.u() < 0.25 and np_ > 1 and point not in ("out", "ckpt"):   # another process is interrupted as well
            sig.append("%s:%d:%d" % (R.pick(["step", "preamr"]), R.i(1, 3), (who + 1) % np_))
        c2["vp/sigint"] = sig
        w = Workload(C, exe, c2, np_, 1, TAGS)
        d, r, replay = w.d, w.r, w.replay
    at = "%s np=%d interrupted at %s on process %d" % (what, np_, point, who)
    if not C.run_ok(r, what + ":interrupted:" + point, replay, at):
        return
    C.evals += 1
    B = read_trace(d)
    final = max(s.scal["iter"] for s in B)
    end = 100000 if timed else last
    if final < end:
        C.distinct.add("%s/np%d/process %d/iteration %d" % (point, np_, who, final))
        C.count("runs_ended_early")
    elif not timed:
        # signal delivered: the run had to end with the step in which it arrived
        C.violation(what + ":ignored", at + ": the run went on to its end (iteration %d): signals %s" % (final, c2["vp/sigint"]), replay)
        return
    if not timed:
        # the step during which the (first) signal arrived is the last one
        S = [s for s in B if s.tag == "step"]
        C.require("ending simulation" in r.out, what + ":message", at + ": the signal was not announced", replay)
        first = [int(x.split(":")[1]) for x in c2["vp/sigint"] if x.split(":")[0] in ("step", "pre", "post", "preamr", "premove", "grav")]
        if first and cfg.get("amr/cycle_frequency", 1) == 1:
            C.require(final <= min(first), what + ":late", at + ": signals %s, but the run went on to iteration %d" % (c2["vp/sigint"], final), replay)
    for s in B:
        a = {(m["scalars"]["iter"], m["scalars"]["time"]) for m in s.metas}
        C.require(len(a) == 1 and len(s.metas) == np_, what + ":agree", lambda: at + ": the processes disagree about the last iteration: %s" % sorted(a), replay)
    fo, fc = [s for s in B if s.tag == "out" and s.scal["iter"] == final], [s for s in B if s.tag == "ckpt" and s.scal["iter"] == final]
    if not C.require(len(fo) == 1 and len(fc) == 1 and B[-1].tag == "ckpt" and B[-2].tag == "out", what + ":final", at + ": %d final snapshots and %d final checkpoints; last events %s" % (len(fo), len(fc), [s.tag for s in B[-3:]]), replay):
        return
    C.require(len([s for s in B if s.tag == "step"]) == final - B[0].scal["iter"], what + ":steps", at + ": steps made: %s, final iteration %d" % ([s.scal["iter"] for s in B if s.tag == "step"], final), replay)
    # same states as the uninterrupted run
    sa = {s.scal["iter"]: s for s in A if s.tag == "step"}
    sa[last] = [s for s in A if s.tag == "out"][-1]
    def same(a, b, at):
        C.evals += 1
        if not C.require(same_leaves(a, b), what + ":leaves", lambda: at + ": " + leaf_diff(a, b), replay):
            return
        bad = [(n, x) for n, x in field_diff(a, b, [n for n in a.fields if n in b.fields]).items() if not x <= tol]
        C.require(not bad, what + ":state", at + ": fields differ %s" % bad[:3], replay)
        P = particle_diff(a, b)
        if P:
            C.require(P[0] is None and all(x <= tol for x in P[1].values()), what + ":particles", "%s: particles: %s" % (at, P), replay)
        C.require(abs(a.scal["time"] - b.scal["time"]) <= tol * abs(a.scal["time"]), what + ":time", at + ": time %r instead of %r" % (b.scal["time"], a.scal["time"]), replay)
    if final in sa:
        same(sa[final], fo[0], at + ", final snapshot of iteration %d" % final)
    # continued from its checkpoint
    f = os.path.join(d, "restart_out_%d.ini" % final)
    if not C.require(os.path.exists(f) and os.path.exists(f[:-4] + ".h5"), what + ":checkpoint", at + ": no checkpoint file of iteration %d" % final, replay):
        return
    if final < last:
        d2 = C.dir()
        t = open(f).read()
        t = re.sub(r"(?m)^(\s*)sigint\s*=.*$", r"\1sigint=none", t)
        t = re.sub(r"(?m)^(\s*)nstepmax\s*=.*$", r"\1nstepmax=%d" % last, t)
        open(os.path.join(d2, "restart_out_%d.ini" % final), "w").write(t)
        shutil.copy(f[:-4] + ".h5", d2)
        r2 = run(exe, ["restart_out_%d.ini" % final], np_, 1, cwd=d2, timeout=120)
        C.count("runs")
        at2 = at + ", continued from iteration %d" % final
        if C.run_ok(r2, what + ":continue", replay, at2):
            D = read_trace(d2)
            fin = [s for s in D if s.tag == "out"][-1]
            for s in [s for s in D if s.tag == "step"] + [fin]:
                if C.require(s.scal["iter"] in sa, what + ":continued", at2 + ": reaches iteration %d" % s.scal["iter"], replay):
                    same(sa[s.scal["iter"]], s, at2 + ", state of iteration %d" % s.scal["iter"])
            C.require(fin.scal["iter"] == last, what + ":continued", at2 + ": ends at iteration %d instead of %d" % (fin.scal["iter"], last), replay)
            C.count("runs_continued")
        if not C.viol:
            shutil.rmtree(d2, True)
    C.sample("%s: ended at iteration %d" % (at, final))
    w0.clean()
    if not C.viol and not os.environ.get("VP_KEEP"):
        shutil.rmtree(d, True)

guarded(C, lambda: pmap(one, range(40 if not C.thorough else 400), 4))
