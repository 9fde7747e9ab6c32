"""C18 imported meshes and C19 tetrahedral meshes."""
import os
from lib import *
from p_alg import simulate, drive, report, judge


def C18(ctx):
    t = ctx.tier == "thorough"
    ctx.tlc("MCMeshSdf", workers=8)
    p, n = simulate(ctx, "MeshSdfGen", 6400 if t else 640, 60, dict(GROW=14, PROBES=60 if t else 40))
    for c in read_ndjson(p)[:2]:
        ctx.sample(dict(cells=c["cells"], det=c["det"], triangles=c["tris"][:4], probes=c["pr"][:4]))
    st = report(ctx, drive(ctx, "imp", [p, os.path.join(ctx.work, "imp_out.ndjson")]), "solids")
    if not ctx.violations and (st["solids"] != n or st["imported"] < n or st["rejected"] < 2 or st["inside"] < n):
        raise CheckError("not everything was exercised: %s" % st)


def C20(ctx):
    t = ctx.tier == "thorough"
    ctx.tlc("MCScrew", workers=8)
    p, n = simulate(ctx, "ScrewGen", 3200 if t else 48, 60, dict(CASES=50, PROBES=120 if t else 60))
    for c in read_ndjson(p)[1:3]:
        ctx.sample({k: (v[:4] if k == "pr" else v) for k, v in c.items()})
    st = report(ctx, drive(ctx, "screw", [p, os.path.join(ctx.work, "screw_out.ndjson")]), "screws")
    if not ctx.violations and (st["screws"] != n or st["inside"] < n or st["deep"] < n or st["undecided"] * 3 > st["probes"] or
                               any(st.get(k, 0) < 20 for k in "isoe isoi acme ansi plas utse utsi npt knurl sizes".split())):
        raise CheckError("not everything was exercised: %s" % st)


def C19(ctx):
    t = ctx.tier == "thorough"
    ctx.tlc("MCBcc", workers=8)
    p, n = simulate(ctx, "BccGen", 128 if t else 24, 60, dict(CASES=48 if t else 24, PROBES=24, SIDE=5 if t else 4))
    rows = drive(ctx, "tet", [p, os.path.join(ctx.work, "tet_out.ndjson")])
    if rows is None:
        return
    st = rows.pop()["stats"]
    jobs = read_ndjson(p)
    for c in jobs[:2]:
        ctx.sample({k: (v[:4] if k in ("pr", "neg") else v) for k, v in c.items()})
    good = []
    for r in rows:
        if r["what"]:
            ctx.violation("case %d: %s" % (r["case"], r["what"]), dict(job=jobs[r["case"] - 1]))
        else:
            good.append(r)
    for o in judge(ctx, "BccTrace", good, heap="3g"):
        ctx.violation("case %s: %s" % (o["case"], o["what"]), dict(job=jobs[o["case"] - 1]))
    ctx.cov["traces_validated_against_impl"] += len(good)
    ctx.cov.update(st)
    if len(rows) != n or not ctx.violations and any(st.get(k, 0) < 100 for k in ("lattice", "shape", "deep inside", "far outside")):
        raise CheckError("not everything was exercised: %s" % st)
