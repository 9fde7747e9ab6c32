"""Shared driver machinery of the /verif checks: builds the harness from /repo's current tree
(through a build overlay, so nothing is added to /repo), runs TLC, runs the harness, and turns
the outcome into the exit code, VIOLATION / KNOWN-FINDING lines and the evidence file."""
import itertools, json, os, re, shutil, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
GOBIN = "/opt/veriftools/go1.27.3/bin"
HPKG = "internal/verifh"          # where the overlay places the harness inside the module


class CheckError(Exception):
    """The check itself could not decide (tool failure, time out): exit 2, never a violation."""


class Timeout(CheckError):
    pass


def go_env():
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GONOSUMDB="*", GONOSUMCHECK="1",
             GOFLAGS_EXTRA="", GOMODCACHE="/root/go/pkg/mod", GOCACHE=os.environ.get("VERIF_GOCACHE", "/root/.cache/go-build"))
    e["PATH"] = GOBIN + ":" + e.get("PATH", "/usr/bin:/bin")
    e.pop("GOFLAGS_EXTRA")
    return e


TLCN = itertools.count()


class Ctx:
    def __init__(self, prop, level, tier=None, seed=None):
        self.prop, self.level = prop, level
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assumptions = []
        self.violations = []       # dicts
        self.known = load_known(prop)
        self.known_seen = {}
        self.notes = {}
        self.builds = {}

    # ---------------------------------------------------------------- go
    def overlay(self):
        rep = {}
        hdir = os.path.join(VERIF, "harness")
        for d, _, fs in os.walk(hdir):
            for f in fs:
                if not f.endswith(".go"):
                    continue
                src = os.path.join(d, f)
                rel = os.path.relpath(src, hdir)
                top = rel.split(os.sep)[0]
                if top == "overlay":   # files added to the repository's own packages
                    rep[os.path.join(REPO, os.path.relpath(src, os.path.join(hdir, "overlay")))] = src
                else:
                    rep[os.path.join(REPO, HPKG, rel)] = src
        p = os.path.join(self.work, "overlay.json")
        with open(p, "w") as f:
            json.dump({"Replace": rep}, f)
        return p

    def build(self, fam, race=False):
        key = (fam, race)
        if key in self.builds:
            return self.builds[key]
        out = os.path.join(self.work, "h_%s%s" % (fam, "_race" if race else ""))
        cmd = ["go", "build", "-buildvcs=false", "-overlay", self.overlay(), "-o", out]
        if race:
            cmd.append("-race")
        cmd.append("./%s/%s" % (HPKG, fam))
        env = go_env()
        if race:
            env["CGO_ENABLED"] = "1"
        r = subprocess.run(cmd, cwd=REPO, env=env, capture_output=True, text=True, timeout=800)
        if r.returncode != 0:
            raise CheckError("harness build failed:\n" + r.stdout[-4000:] + r.stderr[-6000:])
        self.builds[key] = out
        return out

    def run(self, binary, args, timeout=600, env=None, check=True, stdin=None, cwd=None):
        """Runs the harness. A crash of the code under test (a Go panic or fatal error whose
        innermost repository frame is not the harness) is returned, not raised."""
        e = go_env()
        e["GOTRACEBACK"] = "all"
        e.update(env or {})
        try:
            r = subprocess.run([binary] + [str(a) for a in args], env=e, capture_output=True, text=True,
                               timeout=timeout, cwd=cwd or self.work, input=stdin, errors="replace")
        except subprocess.TimeoutExpired:
            raise Timeout("harness timed out after %ss: %s" % (timeout, args))
        if r.returncode == 5 and "VH-HANG" in r.stderr:
            fn = next((m.group(1) for m in re.finditer(r"^(github\.com/soypat/sdf\S*?)\(", r.stderr, re.M) if HPKG not in m.group(1)), None)
            if fn:
                self.violation("the code under test does not finish: %s, in %s" % (r.stderr[r.stderr.index("VH-HANG"):].split("\n")[0], fn),
                               dict(stderr=r.stderr[-20000:]))
            raise CheckError("the harness did not finish %s\n%s" % (args, r.stderr[:3000]))
        if r.returncode == 6 and "VH-BROKEN: " in r.stderr:
            why = r.stderr[r.stderr.index("VH-BROKEN: ") + 11:].strip()
            self.violation(why, dict(stderr=r.stderr[-20000:]))
            raise CheckError("nothing else can be judged: " + why)
        if check and r.returncode != 0:
            raise CheckError("harness failed rc=%d %s\n%s\n%s" % (r.returncode, args, r.stdout[-3000:], r.stderr[-5000:]))
        return r

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, env=None, workers=1, simulate=None, depth=None, seed=None,
            timeout=600, expect_violation=False, extra=(), heap="3g", count=True):
        """Runs TLC on spec/<module>.tla with spec/<cfg>.cfg in a private copy of the spec directory."""
        n = next(TLCN)
        d = os.path.join(self.work, "tlc%d" % n)
        shutil.copytree(os.path.join(VERIF, "spec"), d)
        cmd = ["java", "-XX:+UseParallelGC" if workers != 1 else "-XX:+UseSerialGC", "-Xmx" + heap, "-Xss64m",
               "-Djava.io.tmpdir=" + d, "-cp", TLAJARS, "tlc2.TLC", "-metadir", os.path.join(d, "meta"),
               "-noGenerateSpecTE", "-config", (cfg or module) + ".cfg", "-workers", str(workers)]
        if simulate is not None:
            cmd += ["-simulate", "num=%d" % simulate]
            if depth:
                cmd += ["-depth", str(depth)]
            cmd += ["-seed", str(seed if seed is not None else self.seed)]
        else:
            cmd += ["-fp", "1"]
            if seed is not None:
                cmd += ["-seed", str(seed)]
        cmd += list(extra) + [module + ".tla"]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        for k, v in (env or {}).items():
            e[k] = str(v)
        e["VSEED"] = str(seed if seed is not None else self.seed)
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout, errors="replace")
        except subprocess.TimeoutExpired:
            raise Timeout("TLC timed out after %ss on %s/%s" % (timeout, module, cfg))
        out = r.stdout + r.stderr
        gen = dist = 0
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if m:
            gen, dist = int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))
        m = re.findall(r"The number of states generated: ([\d,]+)", out)
        if m:
            gen = int(m[-1].replace(",", ""))
            dist = dist or gen
        res = dict(rc=r.returncode, out=out, generated=gen, distinct=dist, dir=d, wall=time.time() - t)
        if count:
            self.cov["states"] += dist
            self.cov["transitions"] += gen
        if r.returncode == 0:
            return res
        if expect_violation and r.returncode in (10, 11, 12, 13):
            return res
        raise CheckError("TLC rc=%d on %s/%s\n%s" % (r.returncode, module, cfg, out[max(0, out.find("Error:")):][:3000] + "\n...\n" + out[-2500:]))

    # ---------------------------------------------------------------- verdicts
    def violation(self, what, data, signature=None):
        """Registers a violation seen on the real code; a known finding is matched by signature."""
        if signature is not None and signature in self.known:
            self.known_seen.setdefault(signature, what)
            return
        self.violations.append(dict(what=what, data=data, signature=signature))

    def sample(self, s, limit=6):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(s)

    def finish(self):
        wall = time.time() - self.t0
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(wall, 2), violations=len(self.violations))
        ed = os.path.join(VERIF, "evidence")
        os.makedirs(ed, exist_ok=True)
        if not self.cov["samples"]:
            self.cov["samples"] = ["(none)"]
        with open(os.path.join(ed, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for s, w in sorted(self.known_seen.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, w))
        if self.violations:
            rd = os.path.join(ed, "replay")
            os.makedirs(rd, exist_ok=True)
            p = os.path.join(rd, "%s.json" % self.prop)
            with open(p, "w") as f:
                json.dump(self.violations[:50], f, indent=1, default=str)
            for v in self.violations[:10]:
                print("# " + str(v["what"])[:600])
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
            return 1
        print("OK property=%s tier=%s wall=%.1fs %s" % (self.prop, self.tier, wall,
              {k: v for k, v in self.cov.items() if isinstance(v, (int, float))}))
        return 0

    def cleanup(self):
        if self.work.startswith("/tmp/verif-") or "/verif-" in self.work:
            shutil.rmtree(self.work, ignore_errors=True)


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.txt")
    known = set()
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"KNOWN-FINDING: property=(\S+) signature=(\S+)", line)
            if m and m.group(1) == prop:
                known.add(m.group(2))
    return known


def read_ndjson(path):
    out = []
    with open(path) as f:
        for line in f:
            line = line.strip()
            if line:
                v = json.loads(line)
                if isinstance(v, str):      # CSVWrite writes TLA+ strings quoted
                    v = json.loads(v)
                out.append(v)
    return out


def write_ndjson(path, rows):
    with open(path, "w") as f:
        for r in rows:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")


CRASH = re.compile(r"^(panic: |fatal error: )(.*)$", re.M)


def crash_in_repo(stderr):
    """Whether a Go crash came from the code under test: its first frame outside the runtime is
    in the module and not in the harness."""
    m = CRASH.search(stderr)
    if not m:
        return None
    for line in stderr[m.start():].splitlines():
        f = re.match(r"^(\S+?)\(", line)
        if not f:
            continue
        fn = f.group(1)
        if fn.startswith("runtime") or fn.startswith("panic") or fn.startswith("sync") or fn.startswith("internal/"):
            continue
        if "github.com/soypat/sdf/" + HPKG in fn or fn.startswith("main."):
            return None
        if "github.com/soypat/sdf" in fn:
            return m.group(0) + " in " + fn
        if "gonum" in fn or "encoding/" in fn or "math" in fn:
            continue
    return None


def main(prop, level, fn):
    ctx = Ctx(prop, level)
    rc = 2
    try:
        fn(ctx)
        rc = ctx.finish()
    except Timeout as e:
        print("ERROR property=%s time out: %s" % (prop, e))
    except CheckError as e:
        print("ERROR property=%s %s" % (prop, e))
    except Exception:
        traceback.print_exc()
        print("ERROR property=%s internal" % prop)
    finally:
        # what was found stays found when a later step could not cope with it
        if rc == 2 and ctx.violations:
            rc = ctx.finish()
        if os.environ.get("VERIF_KEEP"):
            print("kept", ctx.work)
        else:
            ctx.cleanup()
    sys.stdout.flush()
    sys.exit(rc)
