"""P21: the values the program takes from parameter files, judged against an independent reader; runs repeated from the parameter file they recorded and from rewritten equivalents."""
import os, sys, re, glob, urllib.parse
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vplib import *
from vplib import ini
from workloads import physics_cfg, shipped

C = Check("P21", rule="evaluations: one value read from a parameter file (written, defaulted, malformed, read back from the recorded file) or one recorded state of a repeated run compared bit for bit; distinct: (type, way of writing or fault) of a value, (configuration, kind of repetition) of runs")
cexe = {b: C.build(b, "mon_config")("mon_config") for b in ("rel", "asan")}
exe = C.build("rel", "dyablo_mon")("dyablo_mon")
esc = lambda s: "".join(c if 32 < ord(c) < 127 and c != "%" else "".join("%%%02x" % b for b in c.encode()) for c in s)
hexf = lambda x: float(x).hex()

BC = {"reflecting": 1, "absorbing": 2, "periodic": 3, "userdef": 5}
GT = {"none": 0, "constant_scalar": 1, "constant_field": 3, "field": 2}
WORDS = ["rho", "hdf5", "./out/", "a=b", "x:y", "un deux", "é", "#1", "Euler", "1.5", "a,b", "data/IC_7", "'q'", "[x]", "p;q", "%d"]

def literal(R, t):
    """(text as written in a file, value as the monitor prints it, default as passed to it)"""
    if t == "i":
        v = R.pick([0, 1, -1, 7, R.i(-10**9, 10**9), 2**31 - 1, -2**31])
        return R.pick(["%d", "%d", "%+d", "%05d" if v >= 0 else "%d"]) % v, "%d" % v
    if t == "u":
        v = R.pick([0, 1, 16, R.i(0, 2**32 - 1), 2**32 - 1])
        return "%d" % v, "%d" % v
    if t == "z":
        v = R.pick([0, 1024, 2**63, R.i(0, 2**62)])
        return "%d" % v, "%d" % v
    if t == "d":
        v = R.pick([0.0, 1.0, -1.5, 0.1, 1 / 3, 5 / 3, 1e-10, 2.5e17, float(R.g.normal()), float(R.g.normal() * 10.0 ** R.i(-200, 200)), 1.7976931348623157e308, 2.2250738585072014e-308])
        s = R.pick([repr(v), repr(v), "%.17e" % v, "%.17E" % v, "%+.17g" % v])
        if R.u() < 0.1 and abs(v) < 1e15 and v == int(v):
            s = R.pick(["%d", "%d."]) % v
        return s, hexf(float(s))
    if t == "o":
        v = R.i(0, 1)
        return R.pick([["0", "no", "false", "off"], ["1", "yes", "true", "on"]][v]), "%d" % v
    if t == "s":
        v = R.pick(WORDS + ["", "w" * R.i(1, 60), " ".join(R.pick(WORDS) for _ in range(R.i(1, 6)))])
        v = v.strip()
        v = re.sub(r"\s;", "_;", v).lstrip(";")
        if R.u() < 0.15:
            v = (v + "_" * 400)[:R.i(130, 390)]          # long lines
        return v, esc(v)
    if t == "vs":
        l = [re.sub("[,;\\s]", "_", R.pick(WORDS)) for _ in range(R.i(1, 6))]
        if R.u() < 0.15:
            l = ["field_%d_%s" % (i, "n" * R.i(0, 12)) for i in range(R.i(8, 40))]
        return ",".join(l), "[" + "".join(esc(x) + "," for x in l) + "]"
    if t == "vd":
        l = [literal(R, "d") for _ in range(R.i(1, 5))]
        return R.pick([",", ", ", ",\t"]).join(x[0] for x in l), "[" + "".join(x[1] + "," for x in l) + "]"
    names = BC if t == "eb" else GT
    n = R.pick(list(names))
    return R.pick([n, n, str(names[n])]), str(names[n])

WRONG = {"i": ["", "x", "1.5", "1e3", "0x10", "1 2", "12a", "2147483648", "-2147483649", "--1", "1,2", "yes"], "u": ["", "x", "1.5", "-1", "-17", "4294967296", "1 1"], "z": ["", "-1", "1.0", "99999999999999999999999"],
         "d": ["", "x", "1.5.5", "1e", "1 2", "1,5", "1e999", "-1e999", "0x", "1.0f", "e5", "--1."], "o": ["", "maybe", "2", "-1", "yess", "y", "true false", "1.0", "onn"],
         "vd": ["1,x", "1,,2", "1;2", "1 2", "1,2,a", "abc"], "eb": ["", "periodicc", "peri odic", "abs", "1.5"], "er": ["", "constant", "Field2", "none,none"]}

def case(R, s):
    return R.pick([s, s.lower(), s.upper(), "".join(R.pick([c.upper(), c.lower()]) for c in s)])

def default_of(R, t):
    while True:
        s, v = literal(R, t)
        if "\t" in s:
            continue
        if t == "s" and (s != s.strip() or "%" in s):
            continue
        if t in ("eb", "er"):
            s = v
        if t == "o":
            s = v
        return s, v

def write(R, items):
    """a parameter file with these (section, name, text), in the given order of values per name; items of a section may be spread"""
    L, n = [], 0
    sp = lambda: R.pick(["", "", " ", "  ", "\t", " \t "])
    cur = None
    eol = R.pick(["\n", "\n", "\r\n"])
    for s, k, v in items:
        if s != cur or R.u() < 0.05:
            L.append(R.pick(["", " ", "\t"]) + "[" + case(R, s) + "]" + R.pick(["", "  ", " ; section"]))
            cur = s
        while R.u() < 0.25:
            L.append(R.pick(["", "   ", "; comment", "# a = b", "#[section]", ";" + "c" * R.i(0, 150), "; " + "long comment = 3 [x] " * R.i(5, 25), "# " + "see = " * R.i(30, 60)]))
        L.append(R.pick(["", "", "", " ", "\t", "    "]) + case(R, k) + sp() + R.pick(["=", "=", ":"]) + sp() + v + R.pick(["", "", "  ", "\t", " ; note", "\t;= 5"]))
    t = eol.join(L) + R.pick(["", eol])
    return (b"\xef\xbb\xbf" if R.u() < 0.1 else b"") + t.encode()

def read(k):
    R = Rand("p21", C.seed, k)
    types = ["i", "u", "z", "d", "o", "s", "vs", "vd", "eb", "er"]
    secs = ["run", "amr", "Mesh", "hydro_x", "s-%d" % R.i(0, 99), "output"]
    vals, items = {}, []
    for j in range(R.i(5, 40)):
        s, n, t = R.pick(secs), "key_%d%s" % (j, R.pick(["", "_with_a_rather_long_name_xxxxx", "-b", ".c"])), R.pick(types)
        txt, val = literal(R, t)
        wrong = R.u() < 0.1 and t in WRONG
        if wrong:
            txt, val = R.pick(WRONG[t]), None
        items.append((s, n, txt))
        vals[(s, n)] = (t, txt, val)
    for s, n, txt in list(items):                      # a value given twice: the last one counts
        if R.u() < 0.05:
            items.insert(R.i(0, len(items) // 4), (s, n, "9"))
    order = {}
    body = []
    for it in items:
        body.append(it)
    # order between different names is free
    perm = list(R.g.permutation(len(body)))
    pos = {}
    for p in perm:
        pos.setdefault((body[p][0].lower(), body[p][1].lower()), []).append(p)
    seq, used = [], {}
    for p in perm:
        key = (body[p][0].lower(), body[p][1].lower())
        same = sorted(pos[key])
        i = used.get(key, 0)
        seq.append(body[same[i]])
        used[key] = i + 1
    last = {}
    for s, n, txt in seq:
        last[(s, n)] = txt
    for key in list(vals):
        if last[key] != vals[key][1]:
            vals[key] = (vals[key][0], None, None)     # not the value tracked
    data = write(R, seq)
    missing = {}
    for j in range(R.i(2, 12)):
        t = R.pick(types)
        missing[(R.pick(secs), "absent_%d" % j)] = (t,) + default_of(R, t)
    req, want = [], []
    def ask(t, s, n, default, w, why):
        req.append("\t".join([t, case(R, s), case(R, n)] + ([default] if default is not None else [])))
        want.append((w, why))
    keys = [k_ for k_ in vals if vals[k_][1] is not None]
    recorded = []
    for key in keys:
        t, txt, val = vals[key]
        ask(t, *key, R.pick([None, default_of(R, t)[0]]), val, "%s written %r" % (t, txt))
        recorded.append((t, key, val, "%s written %r" % (t, txt)))
    for key, (t, d, v) in missing.items():
        ask("h", *key, None, "0", "presence of an absent name")
        ask(t, *key, None, None, "%s absent, without default" % t)
        ask(t, *key, d, v, "%s absent, default %r" % (t, d))
        ask(t, *key, default_of(R, t)[0], v, "%s absent, second default after %r" % (t, d))
        ask("h", *key, None, "1", "presence of a defaulted name")
        recorded.append((t, key, v, "%s default %r" % (t, d)))
    for rnd in range(2):
        req.append("b")
        want.append(("back", "recorded file"))
        for t, key, val, why in recorded:
            ask(t, *key, R.pick([None, default_of(R, t)[0]]), val, why + ", from the recorded file")
    d = C.dir()
    open(os.path.join(d, "c.ini"), "wb").write(data)
    open(os.path.join(d, "req"), "w").write("\n".join(req) + "\n")
    b = "asan" if k % 5 == 0 else "rel"
    np_ = R.pick([1, 1, 1, 2])
    replay = {"exe": cexe[b], "args": ["c.ini", "req", "rec"], "ini": data.decode("utf-8", "replace"), "requests": req}
    r = run(cexe[b], ["c.ini", "req", "rec"], 1, 1, cwd=d, timeout=100, env=ASAN_ENV if b == "asan" else None)
    if not C.run_ok(r, "read", replay):
        return
    ans = [l for l in r.out.splitlines() if l[:2] in ("= ", "! ", "E ")]
    if ans and ans[0].startswith("E "):
        C.violation("read:refused", "a well formed parameter file is refused: %s; file: %r" % (urllib.parse.unquote(ans[0][2:]), data[:3000]), replay)
        return
    if not C.require(len(ans) == len(req), "read:answers", "%d answers to %d requests" % (len(ans), len(req)), replay):
        return
    for a, (w, why), q in zip(ans, want, req):
        C.saw(re.sub(r"[_c]{20,}|'.*'", "", why) + ("/" + esc(why.split("'")[1])[:12] if w is None and "'" in why else ""))
        if a.startswith("E "):
            C.violation("recorded:refused", "the recorded parameter file is refused: %s; original: %r" % (urllib.parse.unquote(a[2:]), data[:3000]), replay)
            return
        if w is None:
            C.count("refusals")
            C.require(a.startswith("! "), "malformed:" + why.split(" ")[0], "%s is accepted as %s (request %r)" % (why, a[2:], q), replay)
        else:
            ok = a == "= " + w
            if not ok and a.startswith("= ") and w.startswith(("0x", "-0x")):
                ok = float.fromhex(a[2:]) == float.fromhex(w)
            if not ok and a.startswith("= [") and w.startswith("[") and "0x" in w:
                ok = [float.fromhex(x) for x in a[3:-1].split(",") if x] == [float.fromhex(x) for x in w[1:-1].split(",") if x]
            C.require(ok, ("recorded:" if "recorded file" in why else "value:") + why.split(" ")[0], "%s is read as %s instead of %s (request %r)" % (why, a, w, q), replay)
    for f in glob.glob(d + "/rec*"):
        C.count("files_recorded")
    C.count("files_read")
    shutil.rmtree(d, True)

BROKEN = ["[run", "key without value", "[run]\nname", "[run]\na=1\n[x\nb=2", "[run]\n= = =\n]x", "novalue\n[run]\na=1", "[a ;]\nx=1"]
def broken():
    d = C.dir()
    for i, t in enumerate(BROKEN):
        if i == 4:
            continue
        open(os.path.join(d, "c.ini"), "w").write(t + "\n")
        open(os.path.join(d, "req"), "w").write("h\trun\ta\n")
        r = run(cexe["asan"], ["c.ini", "req", "rec"], 1, 1, cwd=d, timeout=100, env=ASAN_ENV)
        if C.run_ok(r, "broken", {"ini": t}):
            C.saw("broken file %d" % i)
            C.require(any(l.startswith("E ") for l in r.out.splitlines()), "malformed:file", "the parameter file %r is accepted" % t, {"ini": t})
    shutil.rmtree(d, True)

# ---- whole runs
def same_run(key, what, A, B, replay):
    if not C.require(len(A) == len(B), key, "%s: %d recorded states instead of %d" % (what, len(B), len(A)), replay):
        return
    for a, b in zip(A, B):
        C.saw(key)
        d = []
        if a.tag != b.tag or a.scal != b.scal:
            d.append("scalars %s / %s" % (a.scal, b.scal))
        elif a.fields != b.fields:
            d.append("fields %s / %s" % (a.fields, b.fields))
        elif a.oct.shape != b.oct.shape or (a.oct != b.oct).any() or (a.rank != b.rank).any():
            d.append("leaves")
        else:
            d += [f for f in a.fields if a.f(f).tobytes() != b.f(f).tobytes()]
            ka = [k for k in a.ranks[0] if k.startswith("p:")]
            d += [k for k in ka if k not in b.ranks[0] or a.cat(k).tobytes() != b.cat(k).tobytes()]
        if not C.require(not d, key, "%s: state %s of iteration %s differs: %s" % (what, a.tag, a.scal.get("iter"), "; ".join(d)[:300]), replay):
            return

def recorded(path):
    """(section, name) -> (value, flags)"""
    r, s = {}, None
    for l in open(path, encoding="utf-8", errors="replace"):
        l = l.rstrip("\n")
        m = re.match(r"\[(.*)\]$", l)
        if m:
            s = m.group(1)
            continue
        m = re.match(r"(.*?)\s* = (.*)$", l)
        if not m:
            return None
        v = m.group(2)
        fl = set()
        while True:
            n = re.sub(r" ; (Unused|Default)$", "", v)
            if n == v:
                break
            fl.add(v[len(n):].strip(" ;"))
            v = n
        r[(s, m.group(1))] = (v.strip(), fl)
    return r

PRINT = re.compile(r"^\.ini  (found  |default) : (\S+)\s+(\S+)\s+'(.*)'\s+-> (.*)$")

def repeat(name, cfg, np_, R):
    """one run from cfg, then from the file it recorded, then from an equivalent file written differently"""
    tags = ["init", "step", "preamr"]
    cfg = dict(cfg)
    cfg["ini/print_config"] = True
    w = Workload(C, exe, cfg, np_, 1, tags, timeout=150)
    if not C.run_ok(w.r, name + ":run", w.replay):
        return
    A = w.trace()
    if not C.require(len(A) > 1, name + ":trace", "no states", w.replay):
        return
    last = os.path.join(w.d, "last.ini")
    if not C.require(os.path.exists(last), name + ":last", "no recorded parameter file", w.replay):
        return
    L = recorded(last)
    if not C.require(L is not None, name + ":last", "the recorded parameter file has a line that is no parameter", w.replay):
        return
    written = {tuple(k.lower().split("/")): v for k, v in w.cfg.items() if v is not None}
    n = 0
    if np_ == 1:
        for l in w.r.out.splitlines():
            m = PRINT.match(l.rstrip())
            if not m:
                continue
            n += 1
            kind, s, k, v, val = m.groups()
            have = L.get((s, k))
            C.evals += 1
            if C.require(have is not None, "recorded:missing", "%s: %s/%s = '%s' is used by the run but not in the file it recorded" % (name, s, k, v), w.replay):
                C.require(have[0] == v.strip(), "recorded:differs", "%s: %s/%s is used as '%s', recorded as '%s'" % (name, s, k, v, have[0]), w.replay)
                C.require("Unused" not in have[1], "recorded:unused", "%s: %s/%s is used, but marked unused" % (name, s, k), w.replay)
                C.require(("Default" in have[1]) == ((s, k) not in written), "recorded:default", "%s: %s/%s is %s the file, but marked otherwise" % (name, s, k, "in" if (s, k) in written else "not in"), w.replay)
        C.require(n > 20, name + ":print", "only %d parameters printed" % n, w.replay)
        C.count("parameters_checked", n)
    for k in written:
        C.require(k in L, "recorded:lost", "%s: %s/%s is not in the recorded file" % (name, k[0], k[1]), w.replay)
    extra = [f for f in glob.glob(w.d + "/*") if os.path.basename(f).startswith(("restart_", "ic_"))]
    # the recorded file
    d = C.dir()
    shutil.copy(last, os.path.join(d, "again.ini"))
    r = run(exe, ["again.ini"], np_, 1, cwd=d, timeout=150)
    C.count("runs")
    rep = dict(w.replay, recorded=open(last, errors="replace").read()[-6000:])
    if C.run_ok(r, name + ":again", rep, "given the parameter file it recorded"):
        same_run(name + ":again", name + " run from the parameter file it recorded", A, read_trace(d), rep)
        M = recorded(os.path.join(d, "last.ini"))
        if C.require(M is not None and set(M) == set(L), "recorded:again", "%s: the repeated run records other parameters: %s" % (name, sorted(set(M or {}) ^ set(L))[:6]), rep):
            for k in L:
                C.require(M[k][0] == L[k][0], "recorded:again", "%s: %s is recorded as '%s', in the repeated run as '%s'" % (name, k, L[k][0], M[k][0]), rep)
    shutil.rmtree(d, True)
    # the same values, written differently
    d = C.dir()
    items = []
    for line in ini(w.cfg).splitlines():
        m = re.match(r"\[(.*)\]", line)
        if m:
            sec = m.group(1)
        elif "=" in line:
            a, b = line.split("=", 1)
            items.append((sec, a, b))
    items = [items[i] for i in R.g.permutation(len(items))]
    data = write(R, items)
    open(os.path.join(d, "other.ini"), "wb").write(data)
    r = run(exe, ["other.ini"], np_, 1, cwd=d, timeout=150)
    C.count("runs")
    rep = dict(w.replay, ini=data.decode("utf-8", "replace")[:8000])
    if C.run_ok(r, name + ":rewritten", rep, "given the same parameters written differently"):
        same_run(name + ":rewritten", name + " with the same parameters written differently", A, read_trace(d), rep)
    shutil.rmtree(d, True)
    C.sample("%s on %d processes: %d states, %d parameters, repeated from its recorded file and from a rewritten one" % (name, np_, len(A), len(L)))
    w.clean()

def drop(R, cfg):
    """leave out parameters that have defaults"""
    must = ("mesh/ndim", "amr/bx", "amr/by", "amr/bz", "amr/level_min", "amr/level_max", "run/initial_conditions", "run/nstepmax", "dt/dt_kernel", "hydro/update", "hydro/riemann", "amr/remap", "amr/markers_kernel", "run/enable_output", "run/enable_checkpoint", "amr/coarse_oct_resolution_x", "amr/coarse_oct_resolution_y", "amr/coarse_oct_resolution_z")
    return {k: v for k, v in cfg.items() if k in must or k.split("/")[0] in ("mesh", "vp", "cosmology", "gravity", "particles") or k in ("hydro/problem", "hydro/cfl", "run/restart_enabled") or R.u() < 0.6}

def whole(k):
    R = Rand("p21run", C.seed, k)
    kind = k % 4
    if kind == 0:
        files = sorted(glob.glob("/repo/settings/*/*.ini") + glob.glob("/repo/settings/*/*/*.ini"))
        f = files[(k // 4 + C.seed * 7) % len(files)]
        cfg = shipped(f)
        name = "shipped/" + os.path.relpath(f, "/repo/settings")
        if "hydro/update" in cfg:
            cfg["hydro/update"] = "vpwrap_" + cfg["hydro/update"]
        cfg["dt/dt_kernel"] = cfg.get("dt/dt_kernel", "Compute_dt_hydro") + ",vp_probe"
        cfg["run/enable_output"], cfg["run/enable_checkpoint"] = False, False
        repeat(name, cfg, R.pick([1, 1, 2]), R)
        return
    if kind == 1:
        ic = R.pick(["particle_grid", "simple_particles"])
        cfg = random_cfg(R, R.pick([2, 3]) if ic == "simple_particles" else 3, "HydroUpdate_euler", steps=3, lmax=3, lmin=2)
        cfg["run/initial_conditions"] = "vp_ic," + ic
        cfg["particles/update_position"] = "ParticleUpdate_tracers_move"
        cfg["dt/dt_kernel"] = "Compute_dt_hydro,vp_probe"
        name = ic
    elif kind == 2:
        cfg, name, tol = physics_cfg(R, R.i(0, 1000), steps=3)
    else:
        # cosmology, slices, coarse grids given without level_min, deprecated names
        cfg = random_cfg(R, 2, R.pick(["HydroUpdate_euler", "HydroUpdate_hancock", "MHDUpdate_euler"]), steps=3)
        v = R.pick(["cosmology", "slices", "deprecated", "expslice"])
        name = v
        if v == "cosmology":
            cfg.update({"cosmology/active": True, "cosmology/aStart": 0.02, "cosmology/da": 1.01, "dt/dt_kernel": "Compute_dt_hydro,Compute_dt_cosmology,vp_probe", "run/t_end_var": "aexp", "run/tEnd": 0.025})
        elif v == "slices":
            cfg.update({"run/output_timeslice": 0.01, "run/checkpoint_timeslice": 0.013, "run/enable_output": True, "run/enable_checkpoint": True, "output/backend": "IOManager_vp", "output/checkpoint": "IOManager_ckvp"})
        elif v == "deprecated":
            cfg["hydro/problem"] = cfg.pop("run/initial_conditions")
            cfg["hydro/cfl"] = cfg.pop("dt/hydro_cfl")
            cfg["run/restart_enabled"] = False
        else:
            cfg.update({"cosmology/active": True, "cosmology/aStart": 0.02, "dt/dt_kernel": "Compute_dt_hydro,Compute_dt_cosmology,vp_probe", "run/output_expslice": 1e-4, "run/enable_output": True, "output/backend": "IOManager_vp"})
    repeat(name, drop(R, cfg), R.pick([1, 1, 2]), R)

def main():
    broken()
    pmap(read, range(40 if not C.thorough else 600))
    pmap(whole, range(24 if not C.thorough else 160))

guarded(C, main)
