"""Checks decided by the mesh/field history monitors (mon_mesh, mon_cells): seeded histories, judged after every operation."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vplib import *

def plan(C, monitors):
    """(monitor, seed, histories, operations, dim, processes, threads, deep meshes)"""
    l = []
    for m in monitors:
        n = (18 if len(monitors) == 2 else 36) * (1 if not C.thorough else 8)
        h, o = {"mon_mesh": (12, 16), "mon_cells": (10, 40)}[m]
        for k in range(n):
            for nd in (2, 3):
                R = Rand(C.pid, C.seed, m, k, nd)
                np_ = [1, 2, 3, 4, 5, 3, 6, 4, 7][k % 9]
                l.append((m, R.i(1, 10**8), h if nd == 2 else max(2, h * 2 // 3), o, nd, np_, R.pick([1, 1, 2]), ()))
    if "mon_mesh" in monitors:
        for k in range(6 if not C.thorough else 60):
            R = Rand(C.pid, C.seed, "deep", k)
            l.append(("mon_mesh", R.i(1, 10**8), 2 if k % 2 else 1, 40, 3 - k % 2, [3, 2, 4, 3, 1, 5][k % 6], 1, ("deep", 21 if k % 6 < 2 else 0)))
    return l

def main(pid, monitors, rule, kinds=None, extra=None):
    C = Check(pid, rule=rule)
    exe = C.build("rel", *monitors)
    def body():
        def one(c):
            m, seed, h, o, nd, np_, th, deep = c
            r = mon(C, exe(m), (seed, h, o, nd) + deep, np_, th, what=m, kinds=kinds)
            C.sample("%s%s: %d histories of %d operations, %dD, %d processes: %.1f s" % (m, " deep" if deep else "", h, o, nd, np_, r.wall))
        if extra:
            extra(C)
        pmap(one, plan(C, monitors), 4)
    guarded(C, body)
