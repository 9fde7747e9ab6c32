"""C15 parameters and C23 parts: Params.tla, Parts.tla."""
import os
from lib import *
from p_alg import simulate, drive, report


def C15(ctx):
    t = ctx.tier == "thorough"
    p = os.path.join(ctx.work, "calls.ndjson")
    ctx.tlc("MCParams", env=dict(OUT=p, WIDE=1 if t else 0), workers=8)
    calls = read_ndjson(p)
    for c in calls[:: max(1, len(calls) // 6)]:
        ctx.sample(c)
    st = report(ctx, drive(ctx, "parts", ["params", p, os.path.join(ctx.work, "out.ndjson")]), "cases")
    if not ctx.violations and (st["cases"] != len(calls) or st["cases"] < 40000 or min(st.get("ok", 0), st.get("err", 0)) < 5000):
        raise CheckError("not everything was exercised: %s" % st)


def C23(ctx):
    t = ctx.tier == "thorough"
    ctx.tlc("MCParts", workers=8)
    p, n = simulate(ctx, "PartsGen", 2400 if t else 160, 60, dict(CASES=50, PROBES=120 if t else 80))
    for c in read_ndjson(p)[1:4]:
        ctx.sample({k: (v[:4] if k == "pr" else v) for k, v in c.items()})
    st = report(ctx, drive(ctx, "parts", ["geometry", p, os.path.join(ctx.work, "out.ndjson")]), "cases")
    if not ctx.violations and (st["cases"] != n or st["undecided"] * 4 > st["probes"] or
                               any(st.get(k, 0) < 50 for k in "standoff panel euro panelhole bolt nut hexhead".split())):
        raise CheckError("not everything was exercised: %s" % st)
