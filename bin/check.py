#!/usr/bin/env python3
"""check.py <property> quick|thorough"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *

CHECKS = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


def simple(ctx, harness, module, n_quick, n_thorough, scn=None, keyfn=None, min_events=1, seeds_thorough=(1,), extra_mc=(), timeout=800, racy=False, part=None):
    """the common shape: model check + scenarios, harness, trace validation"""
    b = start_build(ctx, harness)
    mcs = [start_tlc(ctx, m, m + ".cfg", workers=4, tag=str(i)) for i, m in enumerate(extra_mc)]
    path = ""
    if scn:
        m, lim = scn
        txt = model_check(ctx, m, (m if ctx.tier == "quick" or not os.path.exists(os.path.join(SPEC, m + "_thorough.cfg")) else m + "_thorough") + ".cfg")
        path = ctx.p("scn.txt")
        tot, used = scenarios(txt, path, limit=lim if ctx.tier == "quick" else None, seed=ctx.seed)
        ctx.cov["scenarios_generated_by_tlc"] = tot
        ctx.cov["scenarios_replayed"] = used
        if not used:
            raise Broken("no scenario was generated")
    for h in mcs:
        finish_mc(ctx, h)
    exe = finish_build(b)
    n = n_quick if ctx.tier == "quick" else n_thorough
    seeds = [ctx.seed] if ctx.tier == "quick" else [ctx.seed * 1000 + s for s in range(seeds_thorough if isinstance(seeds_thorough, int) else len(seeds_thorough))]
    for s in seeds:
        out = ctx.p(f"trace_{s}.ndjson")
        args = [s, n] + ([part] if part else []) + ([path] if path else [])
        run_harness(ctx, exe, out, args)
        validate(ctx, module, out, lambda q: run_harness(ctx, exe, q, args), keyfn=keyfn, min_events=min_events, timeout=timeout, racy=racy)
        if ctx.violations:
            break


@check("C01")
def c01(ctx):
    simple(ctx, "basis", "TraceBasis", 250, 1500, scn=("MC_Basis", 120), min_events=2000, seeds_thorough=6)


@check("C02")
def c02(ctx):
    simple(ctx, "curve_eval", "TraceCurveEval", 250, 1500, scn=("MC_Basis", 150), min_events=2000, seeds_thorough=6)


@check("C03")
def c03(ctx):
    simple(ctx, "surf_eval", "TraceSurfEval", 150, 1000, scn=("MC_Surface", None), min_events=2000, seeds_thorough=6)


@check("C04")
def c04(ctx):
    simple(ctx, "curve_edit", "TraceCurveEdit", 300, 1500, scn=("MC_CurveEdit", 250), min_events=1000, seeds_thorough=6)


@check("C05")
def c05(ctx):
    simple(ctx, "surf_edit", "TraceSurfEdit", 150, 800, scn=("MC_SurfEdit", 150), min_events=1000, seeds_thorough=6)


@check("C06")
def c06(ctx):
    simple(ctx, "tools", "TraceCurveTools", 140, 1200, scn=("MC_CurveTools", 60), min_events=1000, seeds_thorough=6)


@check("C07")
def c07(ctx):
    simple(ctx, "definition", "TraceDefinition", 400, 2500, scn=("MC_Definition", 400), min_events=4000, seeds_thorough=6)


@check("C08")
def c08(ctx):
    simple(ctx, "interp", "TraceInterp", 300, 2000, scn=("MC_Fit", 200), min_events=400, seeds_thorough=6)


@check("C09")
def c09(ctx):
    simple(ctx, "sinterp", "TraceSurfInterp", 180, 1200, scn=None, extra_mc=("MC_Fit",), min_events=200, seeds_thorough=6)


@check("C10")
def c10(ctx):
    simple(ctx, "approx", "TraceApprox", 250, 1500, scn=("MC_Fit", 120), min_events=300, seeds_thorough=6)


@check("C11")
def c11(ctx):
    simple(ctx, "batch", "TraceBatch", 300, 2000, scn=("MC_Batch", None), min_events=2000, seeds_thorough=6, racy=True)


@check("C12")
def c12(ctx):
    # the neighbours of a vertex are reported as the vertex itself
    key = lambda r, i, op: "neighbours_itself" if op == "gnbv" and all(x == r["ev"][i - 1]["v"] for x in r["ev"][i - 1]["r"]) else None
    simple(ctx, "halfedge", "TraceHalfEdge", 120, 900, scn=("MC_HalfEdge", 250), min_events=1500, seeds_thorough=6, keyfn=key)


@check("C13")
def c13(ctx):
    simple(ctx, "delaunay", "TraceDelaunay", 220, 700, scn=("MC_Delaunay", 200), part="bw", min_events=1500, seeds_thorough=6)


@check("C14")
def c14(ctx):
    simple(ctx, "delaunay", "TraceDelaunay", 300, 1500, extra_mc=("MC_Delaunay",), part="con", min_events=300, seeds_thorough=6)


@check("C15")
def c15(ctx):
    simple(ctx, "plane", "TracePlane", 300, 2500, scn=("MC_Plane", 1200), min_events=5000, seeds_thorough=6)


@check("C17")
def c17(ctx):
    simple(ctx, "derived", "TraceDerived", 350, 2500, scn=("MC_Derived", None), min_events=3000, seeds_thorough=6)


@check("C18")
def c18(ctx):
    simple(ctx, "transform", "TraceAffine", 350, 4000, scn=("MC_Affine", 300), min_events=4000, seeds_thorough=6)


@check("C19")
def c19(ctx):
    simple(ctx, "builders", "TraceBuild", 300, 4000, scn=("MC_Build", 250), min_events=600, seeds_thorough=6)


@check("C20")
def c20(ctx):
    def key(t, i, op):
        if op == "dist" and "d" in t["ev"][i - 1]:
            e = t["ev"][i - 1]
            if abs(float(e["d"]) - float(e["want"]) ** 2) < 1e-5:
                return "squared_" + e["what"]
    simple(ctx, "closest", "TraceClosest", 300, 3000, scn=("MC_Closest", None), min_events=900, seeds_thorough=6, keyfn=key)


if __name__ == "__main__":
    pid = sys.argv[1]
    main(CHECKS[pid])
