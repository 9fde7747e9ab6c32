"""C10-C14 (values and bounds of shapes) and C16: modelling sessions generated from SdfGen."""
import json, os, re
from concurrent.futures import ThreadPoolExecutor
from lib import *

PRIMS = {"circ", "box2", "lin", "poly", "ngon", "sph", "box3", "cyl", "cap", "cone", "chc"}
OWN = {
    "C10": {"un2", "di2", "in2", "cut2", "un3", "di3", "in3", "cut3"},
    "C11": {"xf2", "scu2", "off2", "elo2", "arr2", "rotu2", "rotc2", "lin2", "mul2", "cen2", "ces2",
            "xf3", "scu3", "off3", "she3", "elo3", "arr3", "rotu3", "rotc3", "lin3", "mul3", "ori3"},
    "C12": {"slc", "ext", "twi", "sce", "sct", "exr", "lof", "rev"},
    "C14": PRIMS,
}
OWN["C24"] = {"mat"}
OWN["C13"] = OWN["C10"] | OWN["C11"] | OWN["C12"] | OWN["C14"]
OWN["C16"] = OWN["C13"]


def sessions(ctx, focus, num, steps, probes, jobs=8, tag="s"):
    """num sessions in total, simulated by several TLC processes with seeds derived from ctx.seed."""
    per = max(1, num // jobs)

    def one(j):
        out = os.path.join(ctx.work, "%s%d.ndjson" % (tag, j))
        r = ctx.tlc("SdfGen", env=dict(OUT=out, STEPS=steps, PROBES=probes, FOCUS=focus), simulate=per, depth=steps + 3,
                    seed=ctx.seed * 1000 + j * 7 + len(focus), timeout=800, heap="1500m", count=False)
        return out, r
    with ThreadPoolExecutor(jobs) as ex:
        rs = list(ex.map(one, range(jobs)))
    outp = os.path.join(ctx.work, tag + ".ndjson")
    n = 0
    with open(outp, "w") as w:
        for o, r in rs:
            ctx.cov["states"] += r["generated"]
            ctx.cov["transitions"] += r["generated"]
            for l in open(o):
                w.write(l)
                n += 1
    return outp, n


def replay(ctx, mode, path, own, race=False, env=None, timeout=800):
    h = ctx.build("sdfs", race=race)
    out = os.path.join(ctx.work, "out_%s.ndjson" % mode)
    r = ctx.run(h, [mode, path, out], timeout=timeout, env=env, check=False)
    if r.returncode != 0:
        if crash_in_repo(r.stderr) and "HARNESS" not in r.stderr:
            ctx.violation("the code under test crashed", dict(stderr=r.stderr[-6000:]), signature=None)
            return {}
        raise CheckError("harness failed rc=%d\n%s" % (r.returncode, r.stderr[-4000:]))
    other = []
    stats = {}
    for o in read_ndjson(out):
        if "stats" in o:
            stats = o["stats"]
            continue
        f = o["fail"]
        what = "%s of %s: session %d shape %d at %s: got %s, the specification gives [%s, %s]" % (
            f["kind"], f["op"], f["case"], f["shape"] + 1, f.get("point"), f["got"], f["lo"], f["hi"])
        if f["op"] not in own:
            other.append(what)
            continue
        used = prune(f["session"], f["shape"])
        ctx.violation(what, dict(fail={k: v for k, v in f.items() if k != "session"}, unit=f["session"]["unit"], construction=used), signature=None)
    if other:
        ctx.notes.setdefault("failures_belonging_to_other_properties", []).extend(other[:20])
    ctx.cov["traces_validated_against_impl"] += stats.get("sessions", 0)
    for k in ("probes", "sided", "tight", "shapes", "outside", "boxes"):
        if k in stats:
            ctx.cov[k] = ctx.cov.get(k, 0) + stats[k]
    ops = {k[3:]: v for k, v in stats.items() if k.startswith("op:")}
    for k, v in ops.items():
        d = ctx.cov.setdefault("shapes_by_operation", {})
        d[k] = d.get(k, 0) + v
    return stats


def prune(sess, i):
    keep, todo = set(), [i]
    while todo:
        k = todo.pop()
        if k in keep:
            continue
        keep.add(k)
        todo += [x - 1 for x in sess["ops"][k]["in"] if x > 0]
    return [dict({a: b for a, b in sess["ops"][k].items() if a not in ("pr",)}, id=k + 1) for k in sorted(keep)]


def values(ctx, focus, quick, thorough, steps=10, probes=14):
    t = ctx.tier == "thorough"
    p, n = sessions(ctx, focus, thorough if t else quick, steps, probes)
    ctx.cov["sessions"] = n
    for c in read_ndjson(p)[:2]:
        ctx.sample(dict(ops=[dict(op=o["op"], args=o["a"], of=o["in"], probes=o["pr"][:2]) for o in c["ops"]]))
    st = replay(ctx, "values", p, OWN[focus])
    if st and not ctx.violations:
        missing = sorted(o for o in OWN[focus] if not st.get("op:" + o))
        if missing and n > 200:
            raise CheckError("operations never exercised: %s" % missing)


def C10(ctx):
    values(ctx, "C10", 1600, 16000)


def C11(ctx):
    values(ctx, "C11", 1600, 12000, steps=11)


def C12(ctx):
    values(ctx, "C12", 1600, 12000, steps=11)


def C14(ctx):
    values(ctx, "C14", 800, 12000, steps=16, probes=24)


def C24(ctx):
    values(ctx, "C24", 400, 8000, steps=12, probes=20)
    replay(ctx, "bounds", os.path.join(ctx.work, "s.ndjson"), OWN["C24"])


def C13(ctx):
    t = ctx.tier == "thorough"
    p, n = sessions(ctx, "C13", 8000 if t else 1200, 14, 12)
    ctx.cov["sessions"] = n
    for c in read_ndjson(p)[:2]:
        ctx.sample(dict(ops=[dict(op=o["op"], args=o["a"], of=o["in"]) for o in c["ops"]]))
    replay(ctx, "bounds", p, OWN["C13"])


def C16(ctx):
    from p_alg import simulate, judge
    t = ctx.tier == "thorough"
    for m in ("pure", "scratch", "cache", "alias"):
        ctx.tlc("Purity", "Purity_" + m, workers=8, expect_violation=m != "pure")
    p, n = sessions(ctx, "C16", 2400 if t else 320, 12, 12)
    q, _ = simulate(ctx, "PurityGen", 2400 if t else 320, 16, dict(STEPS=9), tag="q")
    ses, sch = read_ndjson(p), read_ndjson(q)
    for i, s in enumerate(ses):
        s["sched"] = sch[i % len(sch)]
    for s in ses[:2]:
        ctx.sample(dict(ops=[o["op"] for o in s["ops"]], schedule=[dict(k=e["k"], calls=[len(x) for x in e["progs"]], sh=e["sh"]) for e in s["sched"]["log"]]))
    h = ctx.build("sdfs", race=True)
    K = 4

    def one(j):
        a, o = (os.path.join(ctx.work, "pure_%s%d.ndjson" % (x, j)) for x in ("in", "out"))
        write_ndjson(a, ses[j::K])
        return a, o, ctx.run(h, ["pure", a, o], timeout=800, check=False, env=dict(GORACE="halt_on_error=1 exitcode=66", GOMAXPROCS="4"))
    rows, st = [], {}
    with ThreadPoolExecutor(K) as ex:
        for j, (a, o, r) in enumerate(ex.map(one, range(K))):
            if r.returncode != 0:
                if "DATA RACE" in r.stderr and race_in_repo(r.stderr):
                    ctx.violation("two threads evaluating shapes race on the shapes' memory", dict(stderr=r.stderr[:6000]))
                elif crash_in_repo(r.stderr) and "HARNESS" not in r.stderr:
                    ctx.violation("evaluating shapes from several threads crashed", dict(stderr=r.stderr[-6000:]))
                else:
                    raise CheckError("harness failed rc=%d\n%s" % (r.returncode, r.stderr[-4000:]))
                continue
            for x in read_ndjson(o):
                if "stats" in x:
                    for k, v in x["stats"].items():
                        st[k] = st.get(k, 0) + v
                elif "ev" in x:
                    x["case"] = (x["case"] - 1) * K + j + 1
                    rows.append(x)
    bad = judge(ctx, "PurityTrace", [dict(case=x["case"], ev=x["ev"]) for x in rows])
    by = {x["case"]: x for x in rows}
    for o in bad:
        x = by[o["case"]]
        s = ses[o["case"] - 1]
        who, qn = o["q"] // 10000, o["q"] % 10000 - 100
        what = ("the caller's slice %d" % (-10 - qn) if qn <= -10 else "shape %d (%s)" % (who, x["ops"][who - 1] if who <= len(x["ops"]) else "extra %s or composite" % x["extra"]))
        ctx.violation("session %d phase %d: %s %s" % (o["case"], o["phase"], what, o["what"]), dict(o, session=s))
    ctx.cov["traces_validated_against_impl"] += len(rows)
    ctx.cov["questions"] = st.get("asked", 0)
    ctx.cov["phases"] = {k[6:]: v for k, v in st.items() if k.startswith("phase:")}
    ctx.cov["shapes_by_operation"] = {k[3:]: v for k, v in st.items() if k.startswith("op:")}
    ctx.notes["sessions_skipped"] = st.get("skipped", 0)
    ctx.notes["extras_skipped"] = st.get("extras_skipped", 0)
    if not ctx.violations and len(rows) < 0.9 * n:
        raise CheckError("only %d of %d sessions ran" % (len(rows), n))


def race_in_repo(text):
    """The innermost frame of one of the accesses is the library's own."""
    for m in re.finditer(r"^(?:Write|Read|Previous write|Previous read) at [^\n]*\n  (\S+)\(", text, re.M):
        if "soypat/sdf" in m.group(1) and "verifh" not in m.group(1):
            return True
    return bool(re.search(r"^  github.com/soypat/sdf(?!/internal/verifh)\S*\(", text, re.M))


def C25(ctx):
    from p_alg import simulate, judge
    t = ctx.tier == "thorough"
    p, n = simulate(ctx, "PipeGen", 4000 if t else 800, 16, dict(STEPS=9, PROBES=24, FOCUS="C25", ALSO=12))
    for c in read_ndjson(p)[:2]:
        ctx.sample(dict(ops=[o["op"] for o in c["ops"]], pipe=c["pipe"], probes=c["ops"][-1]["pr"][:3]))
    ses = read_ndjson(p)
    h = ctx.build("sdfs")
    K = 8

    def one(j):
        a, o = (os.path.join(ctx.work, "pipe_%s%d.ndjson" % (x, j)) for x in ("in", "out"))
        write_ndjson(a, ses[j::K])
        return o, ctx.run(h, ["pipe", a, o], timeout=800, check=False, env=dict(GOMAXPROCS="2"))
    rows, st = [], {}
    with ThreadPoolExecutor(K) as ex:
        for j, (o, r) in enumerate(ex.map(one, range(K))):
            if r.returncode != 0:
                if crash_in_repo(r.stderr) and "HARNESS" not in r.stderr:
                    ctx.violation("making a part crashed", dict(stderr=r.stderr[-6000:]))
                    continue
                raise CheckError("harness failed rc=%d\n%s" % (r.returncode, r.stderr[-4000:]))
            for x in read_ndjson(o):
                if "stats" in x:
                    for k, v in x["stats"].items():
                        st[k] = st.get(k, 0) + v
                else:
                    x["case"] = (x["case"] - 1) * K + j + 1
                    rows.append(x)
    show = lambda c: dict(pipe=ses[c - 1]["pipe"], unit=ses[c - 1]["unit"], construction=prune(ses[c - 1], len(ses[c - 1]["ops"]) - 1))
    for x in rows:
        if x["what"]:
            ctx.violation("part %d: %s" % (x["case"], x["what"]), dict(x, **show(x["case"])))
    good = [x for x in rows if not x["what"]]
    by = {x["case"]: x for x in rows}
    for o in judge(ctx, "PipeTrace", good):
        ctx.violation("part %d (%s, %s): %s" % (o["case"], ses[o["case"] - 1]["ops"][-1]["op"], ses[o["case"] - 1]["pipe"], o["what"]),
                      dict(by[o["case"]], **show(o["case"])))
    ctx.cov["traces_validated_against_impl"] += len(good)
    for k in ("probes", "sure", "deep", "empty", "twice", "also"):
        ctx.cov[k] = st.get(k, 0)
    ctx.cov["triangles"] = sum(x["tris"] for x in rows)
    ctx.cov["shapes_by_operation"] = {k[3:]: v for k, v in st.items() if k.startswith("op:")}
    ctx.cov["files"] = {k[5:] or "none": v for k, v in st.items() if k.startswith("file:")}
    if not ctx.violations and (len(rows) != len(ses) or st.get("sure", 0) * 4 < st.get("probes", 1) or st.get("empty", 0) * 4 > len(rows)):
        raise CheckError("not everything was exercised: %s" % st)
