"""Shared plumbing of the checks: scratch space, building the harnesses from
/repo's current sources, running TLC, reporting."""
import atexit, concurrent.futures, glob, json, os, random, re, resource, shutil
import signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = min(8, os.cpu_count() or 1)
LIBS = ["-lz", "-lbz2", "-llzma", "-lzstd", "-lcurl", "-lpthread", "-lutil"]
# -fno-sanitize-recover etc. are not needed: ASan stops at the first error
SAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]


class CheckError(Exception):
    """The check itself could not do its work: neither held nor broken."""


class Violation(Exception):
    def __init__(self, what, files=None, text=None):
        super().__init__(what)
        self.what, self.files, self.text = what, files or {}, text


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="vf-%s-" % prop)
        os.chmod(self.tmp, 0o755)
        atexit.register(shutil.rmtree, self.tmp, ignore_errors=True)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                    "samples": []}
        self.findings = []
        self.assumptions = []
        self.level = "model_checking"
        self.n = 0

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def rng(self, name=""):
        return random.Random("%s/%d/%s" % (self.prop, self.seed, name))

    def path(self, name):
        return os.path.join(self.tmp, name)

    def fresh(self, stem, ext=""):
        self.n += 1
        return self.path("%s%d%s" % (stem, self.n, ext))

    def sample(self, x):
        if len(self.cov["samples"]) < 4:
            self.cov["samples"].append(x)

    def count(self, **kw):
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + v

    def log(self, *a):
        print("[%s %5.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)


# ---------------------------------------------------------------- building

INC = ["-I" + os.path.join(HARN, "cfg"), "-I" + REPO, "-I" + REPO + "/sys",
       "-I" + REPO + "/libtty", "-I" + REPO + "/common", "-I" + HARN]


def repo_sources(*dirs):
    out = []
    for d in dirs:
        out += sorted(glob.glob(os.path.join(REPO, d, "*.c")))
    return out


LIBDIRS = ("libtty", "libstream", "sys", "sys/unix")


# flags that make each access to memory a point of the scheduler (accesses.c)
ACCESSES = ["-fno-sanitize=all", "-fsanitize=thread"]


def build(ctx, name, own, repo=None, flags=(), link=(), defs=None, cc="gcc", san=True, libs=LIBS):
    """Compiles harness sources `own` with the repository sources `repo` and
    links them.  `defs` gives extra flags for one source (by basename)."""
    if repo is None:
        repo = repo_sources(*LIBDIRS)
    d = ctx.path("build-" + name)
    os.makedirs(d, exist_ok=True)
    jobs = []
    for i, src in enumerate([os.path.join(HARN, f) for f in own] + list(repo)):
        obj = os.path.join(d, "%03d-%s.o" % (i, os.path.basename(src)))
        cmd = [cc, "-c", "-g", "-O1", "-w", "-U_FORTIFY_SOURCE"] + (SAN if san else []) + INC + list(flags)
        cmd += list((defs or {}).get(os.path.basename(src), [])) + ["-o", obj, src]
        jobs.append((cmd, obj))
    with concurrent.futures.ThreadPoolExecutor(CPUS) as ex:
        res = list(ex.map(lambda j: subprocess.run(j[0], capture_output=True, text=True), jobs))
    for (cmd, obj), r in zip(jobs, res):
        if r.returncode:
            raise CheckError("does not compile: %s\n%s" % (" ".join(cmd), r.stderr[-3000:]))
    exe = os.path.join(d, name)
    cmd = [cc] + (SAN if san else []) + ["-o", exe] + [o for _, o in jobs] + list(link) + list(libs)
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise CheckError("does not link: %s\n%s" % (" ".join(cmd[:6]), r.stderr[-3000:]))
    return exe


def env(**kw):
    e = dict(os.environ)
    for k in ("LC_ALL", "LC_CTYPE", "LANG"):
        e.pop(k, None)
    e["LANG"] = "C"
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1"
    e["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=99"
    e.update({k: str(v) for k, v in kw.items()})
    return e


class Run:
    def __init__(self, rc, out, err, hung):
        self.rc, self.out, self.err, self.hung = rc, out, err, hung

    @property
    def ok(self):
        return self.rc == 0 and not self.hung

    def why(self):
        if self.hung:
            return "does not end"
        m = re.search(r"ERROR: AddressSanitizer: ([^\n]*)", self.err)
        if m:
            return "memory error: " + m.group(1)
        m = re.search(r"[Aa]ssertion [^\n]*failed[^\n]*", self.err)
        if m:
            return m.group(0)
        return "ends with status %s: %s" % (self.rc, self.err.strip()[-300:])


def run(cmd, stdin=b"", timeout=60, e=None, cwd=None):
    """Runs a harness in its own process group, killed as a whole at the end."""
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, env=e or env(), cwd=cwd, start_new_session=True)
    hung = False
    try:
        out, err = p.communicate(stdin, timeout=timeout)
    except subprocess.TimeoutExpired:
        hung = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
    return Run(p.returncode, out, err.decode("latin1"), hung)


# --------------------------------------------------------------------- TLC

class Tlc:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = None
        for m in re.finditer(r"(\d+) states generated, (\d+) distinct states found", out):
            pass
        self.generated = int(m.group(1)) if m else 0
        self.distinct = int(m.group(2)) if m else 0
        self.completed = "Model checking completed. No error has been found." in out


def tlc(ctx, module, cfg=None, workers=1, timeout=600, heap="1500m", cwd=None, extra=(), **ev):
    d = cwd or ctx.fresh("tlc")
    os.makedirs(d, exist_ok=True)
    cmd = ["java", "-XX:+UseParallelGC" if workers != 1 else "-XX:+UseSerialGC", "-Xmx" + heap, "-Xss64m"] + (["-XX:ActiveProcessorCount=2"] if workers == 1 else []) + [
           "-Dtlc2.TLC.stopAfter=%d" % timeout,
           "-cp", TLAJARS, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", os.path.join(d, "meta"),
           "-workers", str(workers), "-config", os.path.join(SPEC, cfg or module + ".cfg")]
    cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update({k: str(v) for k, v in ev.items()})
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, env=e, cwd=d, timeout=timeout + 60)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC ran out of time on " + module)
    finally:
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
    return Tlc(r.returncode, r.stdout + r.stderr)


def model(ctx, module, cfg=None, workers=4, count=True, **kw):
    """Exhaustive model checking of the specification: it has to succeed."""
    t = tlc(ctx, module, cfg, workers=workers, **kw)
    if not t.completed:
        raise CheckError("the model check of %s failed:\n%s" % (module, t.out[-4000:]))
    if count:
        ctx.count(states=t.distinct, transitions=t.generated)
    return t


def shards(lines):
    """How many TLC processes for so many trace lines: each costs a start."""
    return max(1, min(CPUS - 1, lines // 2000))


def parallel(fn, items, n=CPUS):
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        return list(ex.map(fn, items))


# ---------------------------------------------------------------- the ending

def known(prop):
    p = os.path.join(VERIF, "known-findings.json")
    try:
        with open(p) as f:
            return [k for k in json.load(f)["findings"]
                    if k["property"] == prop and k["status"] == "known"]
    except FileNotFoundError:
        return []


def finish(ctx, violation=None):
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": ctx.level,
          "coverage": ctx.cov, "assumptions": ctx.assumptions,
          "wall_s": round(time.time() - ctx.t0, 2), "violations": 1 if violation else 0}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    rc = 0
    if violation:
        rd = os.path.join(d, "replay")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, ctx.prop + ".txt")
        with open(rp, "w") as f:
            f.write("%s\n\n%s\n" % (violation.what, violation.text or ""))
        for name, data in violation.files.items():
            with open(os.path.join(rd, ctx.prop + "-" + name), "wb") as f:
                f.write(data if isinstance(data, bytes) else data.encode())
        ev["violation"] = violation.what[:2000]
        print(violation.what)
        print("VIOLATION property=%s replay=%s" % (ctx.prop, rp), flush=True)
        rc = 1
    with open(os.path.join(d, ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if not rc:
        for k in ctx.findings:
            print("KNOWN-FINDING: property=%s %s" % (ctx.prop, k))
        print("%s: held on everything explored (%s)" % (
            ctx.prop, ", ".join("%s=%s" % (k, v) for k, v in ctx.cov.items() if isinstance(v, int))))
    return rc


def main(prop, fn):
    ctx = Ctx(prop)
    try:
        try:
            fn(ctx)
        except Violation as v:
            return finish(ctx, v)
        return finish(ctx)
    except CheckError as e:
        print("ERROR in the check of %s: %s" % (prop, e), file=sys.stderr)
        return 2
