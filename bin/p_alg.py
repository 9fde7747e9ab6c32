"""C21 matrices and C22 blending: Matrix.tla, Blend.tla."""
import json, os
from concurrent.futures import ThreadPoolExecutor
from lib import *


def simulate(ctx, module, num, depth, env, jobs=8, tag="s", timeout=800, heap="1500m"):
    """num behaviours in all, from several TLC processes; each writes ndjson to its own OUT."""
    per = max(1, num // jobs)

    def one(j):
        out = os.path.join(ctx.work, "%s_%s%d.ndjson" % (module, tag, j))
        r = ctx.tlc(module, env=dict(env, OUT=out), simulate=per, depth=depth, seed=ctx.seed * 1000 + j * 7 + 3,
                    timeout=timeout, heap=heap, count=False)
        return out, r
    with ThreadPoolExecutor(jobs) as ex:
        rs = list(ex.map(one, range(jobs)))
    outp = os.path.join(ctx.work, "%s_%s.ndjson" % (module, tag))
    n = 0
    with open(outp, "w") as w:
        for o, r in rs:
            ctx.cov["states"] += r["generated"]
            ctx.cov["transitions"] += r["generated"]
            if os.path.exists(o):
                for l in open(o):
                    w.write(l)
                    n += 1
    return outp, n


def drive(ctx, fam, args, race=False, timeout=800, env=None):
    """Runs the harness over generated cases; returns its output rows, None if the code crashed."""
    h = ctx.build(fam, race=race)
    r = ctx.run(h, args, timeout=timeout, env=env, check=False)
    if r.returncode != 0:
        if crash_in_repo(r.stderr) and "HARNESS" not in r.stderr:
            ctx.violation("the code under test crashed", dict(stderr=r.stderr[-6000:]))
            return None
        raise CheckError("harness failed rc=%d\n%s" % (r.returncode, r.stderr[-4000:]))
    return read_ndjson(args[-1])


def report(ctx, rows, count):
    """Failures become violations, statistics go to the coverage."""
    st = {}
    for o in rows or []:
        if "stats" in o:
            st = o["stats"]
            continue
        ctx.violation("case %s: %s" % (o.get("case"), o["what"]), o, signature=o.get("sig"))
    for k, v in st.items():
        if isinstance(v, (int, float)):
            ctx.cov[k] = ctx.cov.get(k, 0) + v
        else:
            ctx.cov.setdefault(k, v)
    ctx.cov["traces_validated_against_impl"] += st.get(count, 0)
    return st


def C22(ctx):
    t = ctx.tier == "thorough"
    ctx.tlc("MCBlend", workers=8)
    p, n = simulate(ctx, "BlendGen", 40000 if t else 6000, 50, dict(STEPS=24))
    for c in read_ndjson(p)[:2]:
        ctx.sample(dict(dim=c["dim"], log=c["log"][:12]))
    out = os.path.join(ctx.work, "out.ndjson")
    st = report(ctx, drive(ctx, "alg", ["blend", p, out]), "sessions")
    if not ctx.violations and (st["sessions"] != n or st["asks"] < n or len(st["kinds"]) < 5):
        raise CheckError("not everything was exercised: %s" % st)


def C21(ctx):
    t = ctx.tier == "thorough"
    p, n = simulate(ctx, "MatrixGen", 24000 if t else 3200, 60, dict(STEPS=20))
    for c in read_ndjson(p)[:2]:
        ctx.sample(dict(dim=c["dim"], ops=c["ops"], probe=c["pr"][-1]))
    st = report(ctx, drive(ctx, "alg", ["matrix", p, os.path.join(ctx.work, "out.ndjson")]), "programs")
    if not ctx.violations and (st["programs"] != n or st["images"] < n):
        raise CheckError("not everything was exercised: %s" % st)
    # vectors of integers: every script of the stated depth
    g = os.path.join(ctx.work, "intvec.ndjson")
    ctx.tlc("IntVec", env=dict(OUT=g, DEPTH=4 if t else 3))
    st = report(ctx, drive(ctx, "alg", ["intvec", g, os.path.join(ctx.work, "intvec_out.ndjson")]), "integer_scripts")
    if not ctx.violations and st["integer_scripts"] < 3000:
        raise CheckError("not everything was exercised: %s" % st)
    # oriented copies: every pair is recorded from the real code and judged by OrientTrace
    g = os.path.join(ctx.work, "orient.ndjson")
    ctx.tlc("OrientGen", env=dict(OUT=g, N=2 if t else 1), count=False)
    tr = os.path.join(ctx.work, "orient_trace.ndjson")
    rows = drive(ctx, "alg", ["orient", g, tr])
    if rows is None:
        return
    rej = os.path.join(ctx.work, "orient_rej.ndjson")
    ctx.tlc("OrientTrace", env=dict(TRACE=tr, REJECT=rej), heap="6g")
    ctx.cov["orientations"] = len(rows)
    ctx.cov["traces_validated_against_impl"] += len(rows)
    if os.path.exists(rej):
        for o in read_ndjson(rej):
            ctx.violation("base %s oriented to %s is turned by %s (ten-thousandths) %s" % (o["a"], o["b"], o["r"], o["msg"]), o)


def shard(rows, k):
    return [rows[i::k] for i in range(k) if rows[i::k]]


def judge(ctx, module, rows, jobs=8, heap="2g", timeout=800):
    """Trace validation of rows by several TLC processes; returns the rejected ones."""
    def one(a):
        j, part = a
        tr, rj = (os.path.join(ctx.work, "%s_%s%d.ndjson" % (module, x, j)) for x in ("tr", "rj"))
        write_ndjson(tr, part)
        ctx.tlc(module, env=dict(TRACE=tr, REJECT=rj), workers=1, timeout=timeout, heap=heap)
        return read_ndjson(rj) if os.path.exists(rj) else []
    with ThreadPoolExecutor(jobs) as ex:
        out = []
        for r in ex.map(one, list(enumerate(shard(rows, jobs)))):
            out += r
    return out


def C17(ctx):
    t = ctx.tier == "thorough"
    p, n = simulate(ctx, "PolyGen", 24000 if t else 3200, 60, dict(STEPS=14))
    for c in read_ndjson(p)[:2]:
        ctx.sample(dict(unit=c["unit"], log=c["log"][:8]))
    rows = drive(ctx, "alg", ["poly", p, os.path.join(ctx.work, "poly_out.ndjson")])
    if rows is None:
        return
    good = []
    for r in rows:
        if r.get("what"):
            ctx.violation("case %d: the builder panicked: %s" % (r["case"], r["what"]), r)
        else:
            good.append(r)
    bad = judge(ctx, "PolyTrace", good)
    for o in bad:
        ctx.violation("case %s: %s" % (o["case"], o["what"]), o)
    if len(rows) != n:
        raise CheckError("only %d of %d sessions ran" % (len(rows), n))
    ctx.cov["traces_validated_against_impl"] += len(rows)
    ctx.cov["outlines"] = sum(1 for r in rows for e in r["log"] if e["k"] == "query")
    k = {}
    for r in rows:
        for e in r["log"]:
            k[e["m"] or e["k"]] = k.get(e["m"] or e["k"], 0) + 1
    ctx.cov["calls"] = k
    # how often a request was carried out: outlines with more points than calls
    ctx.cov["outlines_with_facets"] = sum(1 for r in rows if len(r["log"][-1].get("v") or []) > sum(e["k"] in ("add", "rel", "polar", "relpolar") for e in r["log"]))
