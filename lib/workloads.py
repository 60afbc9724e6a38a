"""Seeded full-simulation configurations covering the physics the time loop offers"""
import re
from vplib import *

ALL_UPDATES = ["HydroUpdate_euler", "HydroUpdate_RK2", "HydroUpdate_hancock_oneneighbor", "HydroUpdate_hancock", "MHDUpdate_euler", "MHDUpdate_RK2", "MHDUpdate_hancock_oneneighbor", "MHDUpdate_hancock", "GLMMHDUpdate_euler", "GLMMHDUpdate_RK2", "HydroUpdate_legacy"]
NP = 11

def physics_cfg(R, k, thorough=False, steps=None, bitwise=False, **kw):
    """(configuration, short description, tolerance for comparisons between partitions). k walks through the kinds; bitwise: no sums over threads"""
    kind = k % 12
    steps = steps or (R.i(3, 5) if not thorough else R.i(4, 9))
    tol = 1e-11
    if kind < 5 or kind == 11:
        u = ALL_UPDATES[(k // 12 * 6 + (kind if kind < 5 else 5)) % NP]
        x = {}
        if u == "HydroUpdate_legacy":
            x = dict(vp__refine_prob=0.0, vp__mark_refine=0.0, vp__mark_coarsen=0.0)
        per = R.pick(["periodic", "periodic", "absorbing", "reflecting"])
        c = random_cfg(R, R.pick([2, 2, 3]), u, steps=steps, periodic=per, **x)
        if per == "reflecting" and "MHD" in u:
            per = "absorbing"
            for a in "xyz":
                for s in ("min", "max"):
                    c["mesh/boundary_type_%s%s" % (a, s)] = per
        what = "%s/%dD/%s" % (u, c["mesh/ndim"], per)
    elif kind == 5:  # criteria of the code itself
        crit = R.pick(["RefineCondition_second_derivative_error", "RefineCondition_pseudo_gradient", "RefineCondition_mass", "RefineCondition_downflows"])
        c = random_cfg(R, R.pick([2, 2, 3]), R.pick(["HydroUpdate_euler", "HydroUpdate_hancock_oneneighbor"]), steps=steps, vp__inner_refine=crit, amr__error_min=0.05, amr__error_max=0.2,
                       amr__epsilon_refine=0.1, amr__epsilon_coarsen=0.03, amr__mass_refine=0.004, amr__mass_coarsen=0.0005, vp__refine_prob=0.2)
        what = "%s/%dD" % (crit, c["mesh/ndim"])
    elif kind == 6:  # constant gravity
        c = random_cfg(R, R.pick([2, 3]), R.pick(["HydroUpdate_euler", "HydroUpdate_RK2", "HydroUpdate_hancock_oneneighbor", "HydroUpdate_hancock"]), steps=steps, gravity__solver="GravitySolver_constant", gravity__gravity_type="constant_scalar",
                       gravity__gx=R.u(-1, 1), gravity__gy=R.u(-1, 1), gravity__gz=R.u(-1, 1))
        if c["mesh/ndim"] == 2: c["gravity/gz"] = 0.0
        what = "gravity_constant/%s/%dD" % (c["hydro/update"], c["mesh/ndim"])
    elif kind == 7:  # point mass, particles falling
        mv = R.pick(["ParticleUpdate_NGP_move", "ParticleUpdate_NGP_move", "ParticleUpdate_CIC_move"])
        c = random_cfg(R, 3 if "CIC" in mv else R.pick([2, 3]), R.pick(["HydroUpdate_euler", "HydroUpdate_hancock_oneneighbor"]), steps=steps, gravity__solver="GravitySolver_point_mass", gravity__gravity_type="constant_field", gravity__softening=0.2, gravity__point_mass_Gmass=0.3,
                       vp__npart=R.pick([20, 100]), particles__update_position=mv, vp__pvel=0.5, dt__dt_kernel="Compute_dt_hydro,Compute_dt_particle_velocity,vp_probe")
        if c["mesh/ndim"] == 2: c["gravity/point_mass_z"] = 0.0
        what = "point_mass/%s/%dD" % (mv, c["mesh/ndim"])
    elif kind == 8:  # tracers
        c = random_cfg(R, R.pick([2, 3]), R.pick(["HydroUpdate_euler", "HydroUpdate_RK2"]), steps=steps, vp__npart=R.pick([50, 200]), particles__update_position="ParticleUpdate_tracers_move", vp__pinner=True)
        what = "tracers/%dD" % c["mesh/ndim"]
    elif kind == 9:  # self gravity with particles
        den = R.pick(["ParticleUpdate_NGP_density", "ParticleUpdate_CIC_density", "none"])
        c = random_cfg(R, 3, "HydroUpdate_euler", steps=min(steps, 4), gravity__solver="GravitySolver_cg", gravity__gravity_type="field", gravity__CG_eps=1e-11, lmax=3, lmin=R.pick([1, 2]), bs=4, cg=None,
                       vp__npart=R.pick([50, 300]) if den != "none" else 0, vp__pcluster=R.pick([0.0, 0.6]), particles__update_density=den, particles__update_position=("ParticleUpdate_NGP_move" if "NGP" in den else "ParticleUpdate_CIC_move") if den != "none" else "none", vp__mark_refine=0.05)
        tol = 1e-7
        what = "cg/%s" % den
    else:  # diffusion, cooling
        nd = R.pick([2, 3])
        c = random_cfg(R, nd, R.pick(["HydroUpdate_euler", "HydroUpdate_RK2"]), steps=steps, viscosity__update="ParabolicUpdate_explicit", viscosity__mu=R.pick([0.0, 1e-3, 1e-2]), thermal_conduction__update="ParabolicUpdate_explicit", thermal_conduction__kappa=R.pick([0.0, 1e-3, 1e-2]),
                       thermal_conduction__diffusivity_mode="constant", cooling__update=R.pick(["none", "CoolingUpdate_FF"]), cooling__FF_fluxes=0.01, dt__dt_kernel="Compute_dt_hydro,Compute_dt_parabolic,vp_probe")
        what = "diffusion/%dD" % nd
    c.update({a.replace("__", "/"): v for a, v in kw.items()})
    return c, what, tol

def domain(R, nd):
    """lower corner and extent of the simulated domain: the unit one or another"""
    if R.u() < 0.4:
        return [0.0] * 3, [1.0] * 3
    l = R.pick([0.5, 2.0, 3.0])
    lo, L = [R.pick([-1.0, 0.25, 3.0]) for _ in range(3)], [l * R.pick([1.0, 1.0, 2.0]) for _ in range(3)]
    if nd == 2:
        lo[2], L[2] = 0.0, 1.0
    return lo, L

def cosmology(cfg, R):
    """the same run in an expanding universe"""
    om = R.pick([0.3, 0.3, 1.0, 0.7])
    cfg.update({"cosmology/active": True, "cosmology/aStart": R.pick([0.02, 0.1, 0.3]), "cosmology/aEnd": 0.9, "cosmology/omega_m": om, "cosmology/omega_v": 1.0 - om, "cosmology/da": R.pick([1.01, 1.1])})
    cfg["dt/dt_kernel"] = "Compute_dt_cosmology," + cfg.get("dt/dt_kernel", "Compute_dt_hydro,vp_probe")
    cfg.pop("run/tEnd", None)

def shipped(path, steps=3, deepest=6):
    """a shipped parameter file, shortened"""
    cfg, s = {}, None
    for l in open(path, errors="replace"):
        l = l.split(";")[0].split("#")[0].strip()
        m = re.match(r"\[(.*)\]", l)
        if m:
            s = m.group(1).lower()
        elif "=" in l:
            a, b = l.split("=", 1)
            cfg[s + "/" + a.strip().lower()] = b.strip()
    nd = int(cfg.get("mesh/ndim", 3))
    cfg["run/nstepmax"] = steps
    lm = int(cfg["amr/level_min"]) if "amr/level_min" in cfg else 0
    if nd == 3 and int(cfg.get("amr/level_max", 5)) > 4:
        cfg["amr/level_max"] = max(3, lm) + 1
    if int(cfg.get("amr/level_max", 5)) > deepest:
        cfg["amr/level_max"] = max(deepest, lm)
    return cfg
