"""C03, C06, C07, C08, C09: consumers of renderers and file formats."""
import json, os
from lib import *


def mutants(ctx, module, names, expect=True):
    """Shows that the invariants of the specification reject the named wrong designs."""
    for m in names:
        r = ctx.tlc(module, "%s_%s" % (module, m), expect_violation=True, count=False)
        if r["rc"] == 0:
            raise CheckError("specification %s accepts the wrong design %s" % (module, m))


def scripts(ctx, ops, nbig, smalln):
    ctx.tlc("MCSinks", "MCSinks_none", workers=2)
    if ctx.tier == "thorough":
        mutants(ctx, "MCSinks", ["dropWithErr", "swallow", "stopOnEmpty"])
    gen = os.path.join(ctx.work, "scripts.ndjson")
    ctx.tlc("SinksGen", env=dict(OUT=gen, NBIG=nbig, SMALLN=smalln), seed=ctx.seed)
    h = ctx.build("sinks")
    sc = os.path.join(ctx.work, "scratch")
    os.makedirs(sc, exist_ok=True)
    cases = read_ndjson(gen)
    trace = os.path.join(ctx.work, "trace.ndjson")
    ctx.run(h, ["script", gen, trace, sc] + ops, timeout=600)
    rej = os.path.join(ctx.work, "reject.csv")
    tr = read_ndjson(trace)
    ctx.tlc("SinksTrace", env=dict(TRACE=trace, REJECT=rej), timeout=600)
    ctx.cov["traces_validated_against_impl"] += sum(1 for e in tr if e["ev"] == "end")
    ctx.cov["trace_events"] = len(tr)
    ctx.cov["scripts"] = len(cases)
    for c in cases[:: max(1, len(cases) // 3)]:
        ctx.sample(c)
    if os.path.exists(rej):
        for r in read_ndjson(rej):
            ev = tr[r["line"] - 1]
            st = [e for e in tr if e["case"] == r["case"]]
            ctx.violation("%s: event %s not explained by the specification (script %s)" % (
                r["case"], json.dumps(ev)[:300], json.dumps(st[0].get("script"))), dict(reject=r, event=ev, run=st[:50]),
                signature=None)


def C03(ctx):
    t = ctx.tier == "thorough"
    scripts(ctx, ["renderall"], 600 if t else 120, 5 if t else 4)


def C06(ctx):
    t = ctx.tier == "thorough"
    scripts(ctx, ["createstl"], 300 if t else 40, 4 if t else 3)
    stlbytes(ctx, 3 if t else 2)


def stlbytes(ctx, maxn):
    gen = os.path.join(ctx.work, "stlgen.ndjson")
    ctx.tlc("StlBytes", "StlBytesGen", env=dict(OUT=gen, MAXN=maxn, TRACE="", REJECT=""), seed=ctx.seed)
    h = ctx.build("sinks")
    sc = os.path.join(ctx.work, "scratch")
    os.makedirs(sc, exist_ok=True)
    trace = os.path.join(ctx.work, "stlbytes.ndjson")
    ctx.run(h, ["stlbytes", gen, trace, sc])
    rej = os.path.join(ctx.work, "rejectb.csv")
    ctx.tlc("StlBytes", "StlBytesTrace", env=dict(OUT="", MAXN=0, TRACE=trace, REJECT=rej), timeout=600)
    tr = read_ndjson(trace)
    ctx.cov["traces_validated_against_impl"] += len(tr)
    ctx.cov["byte_exact_files"] = len(tr)
    if os.path.exists(rej):
        for r in read_ndjson(rej):
            ev = tr[r["line"] - 1]
            ctx.violation("STL file of triangles %s (%s) differs from the specified bytes: %s" % (ev["ids"], ev["how"], r),
                          dict(reject=r, event=ev))


def C07(ctx):
    t = ctx.tier == "thorough"
    ctx.tlc("StlRead", "MCStlRead", workers=4)
    if t:
        mutants(ctx, "MCStlRead", [])
    gen = os.path.join(ctx.work, "read.ndjson")
    ctx.tlc("StlReadGen", env=dict(OUT=gen, NSIM=6000 if t else 800), seed=ctx.seed)
    h = ctx.build("sinks")
    out = os.path.join(ctx.work, "read.out")
    ctx.run(h, ["stlread", gen, out], timeout=300)
    cases = {c["case"]: c for c in read_ndjson(gen)}
    res = read_ndjson(out)
    if len(res) != len(cases):
        raise CheckError("lost cases")
    for r in res:
        c = cases[r["case"]]
        ctx.cov["traces_validated_against_impl"] += 1
        if r["panic"] or r["res"] != c["want"] or (r["res"] != "fail" and r["runs"] != [list(x) for x in c["wantruns"]]):
            ctx.violation("reading back: %s gave %s" % (json.dumps(c), json.dumps(r)), dict(case=c, got=r))
    for c in list(cases.values())[::max(1, len(cases) // 4)]:
        ctx.sample(c)


def C08(ctx):
    t = ctx.tier == "thorough"
    ctx.tlc("MCSinks", "MCSinks_none", workers=2)
    if t:
        mutants(ctx, "MCSinks", ["swallow"])
    gen = os.path.join(ctx.work, "faults.ndjson")
    ctx.tlc("FaultsGen", env=dict(OUT=gen, MAXN=3 if t else 2, STRIDE=1 if t else 7), seed=ctx.seed)
    h = ctx.build("sinks")
    sc = os.path.join(ctx.work, "scratch")
    os.makedirs(sc, exist_ok=True)
    out = os.path.join(ctx.work, "faults.out")
    # the size of a complete 3MF file bounds the offsets at which its destination can fail
    probe = os.path.join(ctx.work, "probe.ndjson")
    write_ndjson(probe, [dict(case=n, op="create3mf", n=n, cap=0, mode="none") for n in range(1, 4)])
    ctx.run(h, ["faults", probe, out, sc])
    size = {r["n"]: r["size"] for r in read_ndjson(out)}
    sane = all(r["complete"] and r["res"] == "ok" for r in read_ndjson(out))
    if not sane:
        ctx.violation("Create3MF of a plain model failed", read_ndjson(out))
        return
    cases = []
    for c in read_ndjson(gen):
        if c["op"] == "create3mf" and c["mode"] == "limit":
            # cap given in thousandths of the complete size
            c["cap"] = size[c["n"]] * c["cap"] // 1000
            c["want"] = "fail" if c["cap"] < size[c["n"]] else "ok"
        c["case"] = len(cases)
        cases.append(c)
    inp = os.path.join(ctx.work, "faults.in")
    write_ndjson(inp, cases)
    ctx.run(h, ["faults", inp, out, sc], timeout=600)
    res = read_ndjson(out)
    if len(res) != len(cases):
        raise CheckError("lost cases")
    for c, r in zip(cases, res):
        ctx.cov["traces_validated_against_impl"] += 1
        bad = r["panic"] or r["res"] != c["want"] or (r["res"] == "ok" and not r["complete"])
        if bad:
            ctx.violation("fault %s gave %s" % (json.dumps(c), json.dumps(r)), dict(case=c, got=r))
    ctx.cov["fault_points"] = len(cases)
    for c in cases[::max(1, len(cases) // 5)]:
        ctx.sample(c)
    # renderer failures with and without data in the failing read, through every consumer
    scripts(ctx, ["renderall", "createstl", "create3mf"], 40 if t else 10, 2)


def C09(ctx):
    t = ctx.tier == "thorough"
    gen = os.path.join(ctx.work, "mf.ndjson")
    ctx.tlc("Mesh3mf", "MCMesh3mf", workers=4, env=dict(OUT="", NSIM=0, TRACE="", REJECT=""))
    ctx.tlc("Mesh3mf", "Mesh3mfGen", env=dict(OUT=gen, NSIM=3000 if t else 500, TRACE="", REJECT=""), seed=ctx.seed)
    h = ctx.build("sinks")
    sc = os.path.join(ctx.work, "scratch")
    os.makedirs(sc, exist_ok=True)
    trace = os.path.join(ctx.work, "mf.trace")
    ctx.run(h, ["mf", gen, trace, sc], timeout=400)
    rej = os.path.join(ctx.work, "mf.rej")
    ctx.tlc("Mesh3mf", "Mesh3mfTrace", env=dict(OUT="", NSIM=0, TRACE=trace, REJECT=rej), timeout=400)
    tr = read_ndjson(trace)
    ctx.cov["traces_validated_against_impl"] += len(tr)
    for e in tr[::max(1, len(tr) // 3)]:
        ctx.sample({k: e[k] for k in ("in", "verts", "tris", "alpha")})
    if os.path.exists(rej):
        for r in read_ndjson(rej):
            ctx.violation("3MF file does not hold the rendered mesh: %s" % json.dumps(tr[r["line"] - 1])[:500],
                          dict(reject=r, event=tr[r["line"] - 1]))
    scripts(ctx, ["create3mf"], 20 if t else 4, 3 if t else 2)
