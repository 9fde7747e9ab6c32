"""C01, C02, C04, C05: the octree renderer."""
import json, os, re
from lib import *
from p_sinks import mutants


def design(ctx):
    ctx.tlc("MCOctree", "MCOctree_none", workers=6, timeout=600)
    if ctx.tier == "thorough":
        mutants(ctx, "MCOctree", ["noSpill", "repeatCube", "eofEarly", "noCompact", "dropCubes"])


def stream(ctx, mode, nsim, pairs, race=False):
    gen = os.path.join(ctx.work, "gen_%s_%s.ndjson" % (mode, race))
    ctx.tlc("OctreeGen", env=dict(OUT=gen, NSIM=nsim, MODE=mode, PAIRS=pairs), seed=ctx.seed + (100 if race else 0))
    cases = {c["case"]: c for c in read_ndjson(gen)}
    trace = os.path.join(ctx.work, "trace_%s_%s.ndjson" % (mode, race))
    h = ctx.build("octree", race=race)
    env = {}
    if race:
        env["GORACE"] = "halt_on_error=0 exitcode=0"
    r = ctx.run(h, ["stream", gen, trace], timeout=800, env=env, check=False)
    if r.returncode != 0:
        c = crash_in_repo(r.stderr)
        if c:
            ctx.violation("rendering crashed: " + c, dict(stderr=r.stderr[-6000:]))
            return
        raise CheckError("harness rc=%d %s" % (r.returncode, r.stderr[-4000:]))
    if race:
        races(ctx, r.stderr)
    tr = read_ndjson(trace)
    rej = os.path.join(ctx.work, "reject_%s_%s.csv" % (mode, race))
    ctx.tlc("StreamTrace", env=dict(TRACE=trace, REJECT=rej), timeout=800)
    ctx.cov["traces_validated_against_impl"] += sum(1 for e in tr if e["ev"] == "end")
    ctx.cov["trace_events"] = ctx.cov.get("trace_events", 0) + len(tr)
    for c in list(cases.values())[::max(1, len(cases) // 3)]:
        ctx.sample(c)
    if os.path.exists(rej):
        for x in read_ndjson(rej):
            ev = tr[x["line"] - 1]
            c = cases[x["case"]]
            ctx.violation("octree reads: event %s after %d of %d triangles is against the contract; case %s" % (
                json.dumps(ev)[:300], x["count"], x["total"], json.dumps(c)[:400]), dict(reject=x, case=c, event=ev))


def races(ctx, stderr):
    for rep in stderr.split("WARNING: DATA RACE")[1:]:
        rep = rep.split("==================")[0]
        fr = [f for f in re.findall(r"^\s+(github\.com/soypat/sdf\S*)\(", rep, re.M) if "internal/verifh" not in f]
        if fr:
            ctx.violation("data race in %s" % fr[0], dict(report=rep[:6000]))
        elif "github.com/soypat/sdf" in rep:
            raise CheckError("data race inside the harness\n" + rep[:3000])


def C01(ctx):
    t = ctx.tier == "thorough"
    design(ctx)
    stream(ctx, "serial", 300 if t else 40, 25 if t else 12)
    queue(ctx, 6 if t else 5)


def queue(ctx, depth):
    from p_alg import drive, report
    gen = os.path.join(ctx.work, "queue.ndjson")
    ctx.tlc("TriQueue", env=dict(OUT=gen, DEPTH=depth), timeout=800)
    n = sum(1 for _ in open(gen))
    rows = drive(ctx, "octree", ["queue", gen, os.path.join(ctx.work, "queue.out")])
    if report(ctx, rows, "buffer_histories").get("buffer_histories") != n and not ctx.violations or n != 8 ** depth:
        raise CheckError("%d histories of the triangle buffer" % n)


def C02(ctx):
    t = ctx.tier == "thorough"
    design(ctx)
    stream(ctx, "par", 250 if t else 40, 30 if t else 14)
    stream(ctx, "par", 60 if t else 8, 6 if t else 3, race=True)


def topo(ctx, nsim, big, which):
    gen = os.path.join(ctx.work, "meshes.ndjson")
    ctx.tlc("MeshGen", env=dict(OUT=gen, NSIM=nsim, BIG=big, LONG=6 if ctx.tier == "thorough" else 3, LONGLEN=360 if ctx.tier == "thorough" else 110), seed=ctx.seed)
    cases = read_ndjson(gen)
    assert [c["case"] for c in cases] == list(range(1, len(cases) + 1))
    write_ndjson(gen, cases)
    trace = os.path.join(ctx.work, "meshes.trace")
    ctx.run(ctx.build("octree"), ["topo", gen, trace], timeout=600)
    tr = read_ndjson(trace)
    if len(tr) != len(cases):
        raise CheckError("lost cases")
    rej = os.path.join(ctx.work, "meshes.rej")
    ctx.tlc("MeshTrace", env=dict(TRACE=trace, CASES=gen, REJECT=rej, WHICH=which), timeout=840)
    ctx.cov["traces_validated_against_impl"] += len(tr)
    ctx.cov["triangles"] = sum(len(e["tris"]) for e in tr)
    ctx.cov["lattice_points_with_winding_number"] = sum(len(e["wind"]) for e in tr)
    for c in cases[::max(1, len(cases) // 5)]:
        ctx.sample(c)
    if os.path.exists(rej):
        for x in read_ndjson(rej):
            c = cases[x["case"] - 1]
            if "field" in x["fails"]:
                raise CheckError("harness and specification disagree about the field of case %s" % json.dumps(c))
            ctx.violation("mesh of %s: not %s" % (json.dumps(c)[:400], ", ".join(x["fails"])), dict(reject=x, case=c))


def C04(ctx):
    t = ctx.tier == "thorough"
    topo(ctx, 80 if t else 20, 18 if t else 12, "C04")


def C05(ctx):
    t = ctx.tier == "thorough"
    topo(ctx, 80 if t else 20, 18 if t else 12, "C05")
