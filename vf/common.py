"""Common machinery of all checks: scratch directories, building librrr from
/repo's working tree, running TLC, batching trace validation, evidence."""
import atexit, glob, json, os, re, shutil, subprocess, sys, tempfile, time, random
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
NPROC = os.cpu_count() or 4
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The check itself could not run (build failure, TLC failure)."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


_scratch = []


def scratch(prefix="vf"):
    d = tempfile.mkdtemp(prefix="%s-" % prefix, dir=os.environ.get("VF_TMP", "/tmp"))
    _scratch.append(d)
    return d


@atexit.register
def _cleanup():
    if os.environ.get("VF_KEEP"):
        log("scratch kept:", _scratch)
        return
    for d in _scratch:
        if d.startswith("/tmp/") or os.environ.get("VF_TMP"):
            shutil.rmtree(d, ignore_errors=True)


# --------------------------------------------------------------------------
# Build
# --------------------------------------------------------------------------
ALLOW = {
    "posix.c": "PTHREAD_MUTEX_INIT", "gnu.c": "GETTID", "rrr_readdir.c": "READDIR",
    "rrr_strerror.c": "STRERROR", "fork.c": "FORK", "log.c": "PRINTF", "rrr_umask.c": "UMASK",
}
EXCLUDE = re.compile(r"/(python3|perl5|lua|js|http2|http3|zlib)/|perl5_xsi|mysql\.c|rrr_openssl\.c|"
                     r"net_transport_(quic|libressl|openssl|openssl_common|tls_common)\.c|freebsd\.c|"
                     r"http_application_http[23]\.c|rrr_http2|type_conversion_test")
BASE_CFLAGS = ["-std=gnu11", "-D_GNU_SOURCE", "-DHAVE_CONFIG_H", "-D_XOPEN_SOURCE=700", "-w", "-g1", "-O1", "-fPIC",
               "-include", "stdbool.h"]
LIBS = ["-ljson-c", "-levent", "-levent_pthreads", "-lbsd", "-lpthread", "-ldl", "-lm", "-lcrypt", "-lcrypto"]


class Builder:
    """Compiles the library sources of the working tree into a scratch directory."""

    def __init__(self, out=None, cflags=(), cov_files=(), cc="gcc"):
        self.out = out or scratch("vfbuild")
        self.cc = cc
        self.cflags = list(cflags)
        self.cov = tuple(cov_files)
        self.lib = None
        # Sources are copied so that our own config.h is found instead of the one of the build in /repo
        os.makedirs(self.out, exist_ok=True)
        self.root = self.out + "/tree"
        shutil.copytree(REPO + "/src", self.root + "/src", ignore=lambda d, names: [
            n for n in names if n in (".libs", ".deps") or
            (not os.path.isdir(d + "/" + n) and not n.endswith((".c", ".h")))])
        for f in ("config.h", "build_timestamp.h"):
            shutil.copy(VERIF + "/build-support/" + f, self.root)
        shutil.copy(VERIF + "/build-support/config.h", self.root + "/src/lib/rrr-build-config.h")

    def inc_flags(self, intercept=True):
        r = self.root
        f = ["-I" + r, "-I" + r + "/src", "-I" + r + "/src/lib", "-include", r + "/config.h", "-include", r + "/build_timestamp.h"]
        if intercept:
            f += ["-include", r + "/src/lib/intercept.h"]
        return f

    def run(self, cmd, **kw):
        r = subprocess.run(cmd, capture_output=True, text=True, **kw)
        if r.returncode != 0:
            raise CheckError("command failed: %s\n%s" % (" ".join(cmd), r.stderr[-4000:]))
        return r

    def _cc(self, src, obj, extra=(), intercept=True):
        self.run([self.cc] + BASE_CFLAGS + self.inc_flags(intercept) + self.cflags + list(extra) + ["-c", src, "-o", obj], cwd=self.root)
        return obj

    def lib_sources(self):
        base = self.root + "/src/lib/"
        srcs = [s[len(base):] for s in glob.glob(base + "**/*.c", recursive=True)]
        return sorted(base + s for s in set(srcs) if not EXCLUDE.search("/" + s))

    def librrr(self):
        if self.lib:
            return self.lib
        os.makedirs(self.out + "/o", exist_ok=True)
        jobs = []
        for s in self.lib_sources():
            rel = s[len(self.root + "/src/lib/"):]
            obj = self.out + "/o/" + rel.replace("/", "__")[:-2] + ".o"
            extra = []
            a = ALLOW.get(os.path.basename(s))
            if a:
                extra.append("-DRRR_INTERCEPT_ALLOW_" + a)
            if rel in self.cov:
                extra.append("-fsanitize-coverage=trace-pc")
            jobs.append((s, obj, extra))
        with ThreadPoolExecutor(NPROC) as ex:
            objs = list(ex.map(lambda j: self._cc(*j), jobs))
        self.lib = self.out + "/librrr.a"
        if os.path.exists(self.lib):
            os.unlink(self.lib)
        self.run(["ar", "rcs", self.lib] + objs)
        return self.lib

    def exe(self, name, sources, extra=(), intercept=False, link=()):
        lib = self.librrr()
        out = self.out + "/" + name
        objs = []
        for i, s in enumerate(list(sources) + [VERIF + "/csrc/base.c"]):
            objs.append(self._cc(s, "%s/%s_%d.o" % (self.out, name, i), ["-I" + VERIF + "/csrc"] + list(extra), intercept))
        self.run([self.cc] + self.cflags + ["-rdynamic", "-o", out] + objs + [lib] + list(link) + LIBS)
        return out


# --------------------------------------------------------------------------
# TLC
# --------------------------------------------------------------------------
class TlcResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        if not m:  # simulation mode
            m = re.findall(r"(?:The number of states generated|states checked)[^\d]*([\d,]+)", out)
            self.generated = int(m[-1].replace(",", "")) if m else 0

    @property
    def ok(self):
        return self.rc == 0

    @property
    def violated(self):
        # 10..13: violation of assumption/deadlock/safety/liveness
        return self.rc in (11, 12, 13) or "is violated" in self.out


def tlc(specdir, module, cfg, workers=None, args=(), timeout=600, xmx="4g", files=None, jprops=(), partial=False):
    """Run TLC on a copy of specdir in scratch space."""
    d = scratch("vftlc")
    for f in glob.glob(VERIF + "/spec/*.tla") + glob.glob(specdir + "/*.tla") + glob.glob(specdir + "/*.cfg"):
        shutil.copy(f, d)
    for name, content in (files or {}).items():
        with open(d + "/" + name, "w") as fh:
            fh.write(content)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + xmx, "-Xss16m", "-Djava.io.tmpdir=" + d] + list(jprops) + [
        "-cp", TLA_CP, "tlc2.TLC", "-config", cfg, "-metadir", d + "/states", "-noGenerateSpecTE",
        "-workers", str(workers or NPROC)] + list(args) + [module]
    try:
        r = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        if partial:
            return TlcResult(-9, (e.stdout or b"").decode("utf-8", "replace"))
        raise CheckError("TLC timed out on %s/%s" % (module, cfg))
    finally:
        if partial:
            shutil.rmtree(d, ignore_errors=True)
    res = TlcResult(r.returncode, r.stdout + r.stderr)
    shutil.rmtree(d, ignore_errors=True)
    return res


def model_check(specdir, module, cfg, timeout=600, args=(), xmx="6g"):
    """Exhaustive run which must succeed: a failure means our specification is
    inconsistent (not a property of the code), hence an error of the check."""
    r = tlc(specdir, module, cfg, timeout=timeout, args=args, xmx=xmx)
    if not r.ok:
        raise CheckError("TLC model check of %s/%s failed rc=%d\n%s" % (module, cfg, r.rc, r.out[-3000:]))
    return r


def simulate_scripts(specdir, module, cfg, num, depth, seed, timeout=300, tag="SCRIPT"):
    """Behaviours generated by TLC -simulate; the module prints <<"SCRIPT", json>> when done."""
    r = tlc(specdir, module, cfg, workers=1, args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)],
            timeout=timeout)
    res = []
    for line in r.out.splitlines():
        m = re.match(r'<<"%s", "(.*)">>$' % tag, line.strip())
        if m:
            s = m.group(1).encode().decode("unicode_escape")
            res.append(json.loads(s))
    if not res:
        raise CheckError("TLC simulation of %s produced no scripts\n%s" % (module, r.out[-3000:]))
    return res, r


def validate(specdir, module, cfg, traces, timeout=800, chunk=None, xmx="3g", dfs=None, undecided=None):
    """Validate a list of traces (each a list of event dicts). The trace module reads
    traces.json (a JSON array of arrays) and prints <<"ACCEPT", i>> (1-based).
    Returns (list of rejected indexes, states generated, distinct).
    dfs: the module stops looking once a trace is accepted: depth first search, and this many seconds
    for a trace which turns out to be hard; if that is not enough it is put in the list undecided."""
    if not traces:
        return [], 0, 0
    nchunk = max(1, min(NPROC if dfs else NPROC // 2, len(traces))) if chunk is None else chunk
    parts = [list(range(i, len(traces), nchunk)) for i in range(nchunk)]
    parts = [p for p in parts if p]

    def one(idx, tmo):
        r = tlc(specdir, module, cfg, workers=1 if dfs else 2, timeout=tmo, xmx=xmx,
                files={"traces.json": json.dumps([traces[i] for i in idx])}, args=["-deadlock"], partial=bool(dfs),
                jprops=["-Dtlc2.tool.queue.IStateQueue=StateDeque"] if dfs else [])
        if r.rc not in (0, -9):
            raise CheckError("TLC trace validation error rc=%d\n%s" % (r.rc, r.out[-3000:]))
        acc = set(int(x) for x in re.findall(r'<<"ACCEPT", (\d+)>>', r.out))
        return [idx[i] for i in range(len(idx)) if (i + 1) not in acc], r

    rej, gen, dist, hard, found, t0 = [], 0, 0, [], [], time.time()

    def collect(rs):
        nonlocal gen, dist
        for rj, r in rs:
            (hard if r.rc == -9 else rej).extend(rj)
            gen += r.generated
            dist += r.distinct

    def dfs_part(idx):
        """A part of the traces; when it takes too long, every trace which is left on its own"""
        rj, r = one(idx, max(dfs, min(40, len(idx))))
        if r.rc != -9:
            found.extend(rj)
            return [(rj, r)]
        # the last ones are searched first, so the search got stuck in the one before those accepted
        out, rest = [([], r)], sorted(rj)
        single = [i for i in rest if idx.index(i) > idx.index(min(set(idx) - set(rj), key=idx.index))] if len(rj) < len(idx) else []
        rest = [i for i in rest if i not in single]
        if rest:
            single.append(rest.pop())
        for i in single:
            if len(found) >= 3 or time.time() > t0 + 300:  # enough to report, or no hope
                r.rc = -9
                out.append(([i], r))
                continue
            out.append(one([i], dfs))
            if out[-1][1].rc == 0:
                found.extend(out[-1][0])
        if rest and (len(found) >= 3 or time.time() > t0 + 300):
            r.rc = -9
            out.append((rest, r))
        elif rest:
            out += dfs_part(rest)
        return out

    with ThreadPoolExecutor(len(parts)) as ex:
        if not dfs:
            collect(ex.map(lambda p: one(p, timeout), parts))
        else:
            for rs in ex.map(dfs_part, parts):
                collect(rs)
    if undecided is not None:
        undecided.extend(hard)
    elif hard:
        raise CheckError("trace validation took too long for traces %s" % hard)
    return sorted(rej), gen, dist


def furthest(specdir, module, cfg, trace, timeout=300):
    """Longest accepted prefix of one trace (number of accepted events); modules print <<"AT", l>> when tr = 0 mode is on."""
    r = tlc(specdir, module, cfg, workers=1, timeout=timeout, files={"traces.json": json.dumps([trace])}, args=["-deadlock"])
    lo = -1
    # bisect by cutting the trace: robust and needs no support in the module
    a, b = 0, len(trace)
    while a < b:
        m = (a + b + 1) // 2
        rj, _, _ = validate(specdir, module, cfg, [trace[:m]], timeout=timeout, chunk=1)
        if rj:
            b = m - 1
        else:
            a = m
    return a


# --------------------------------------------------------------------------
# Checks
# --------------------------------------------------------------------------
class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.violations = []
        self.rng = random.Random(SEED * 1000003 + sum(map(ord, prop)))
        self.thorough = TIER == "thorough"

    def mc(self, *a, **k):
        r = model_check(*a, **k)
        self.states += r.distinct
        self.transitions += r.generated
        log("[%s] TLC %s: %d distinct states, %d generated" % (self.prop, a[2], r.distinct, r.generated))
        return r

    def validate(self, specdir, module, cfg, traces, rerun=None, describe=None, **k):
        """Validate; on rejection re-run (rerun(i) -> new trace or None) to confirm."""
        und = []
        rej, gen, dist = validate(specdir, module, cfg, traces, undecided=und, **k)
        if und:
            self.extra["undecided_traces"] = self.extra.get("undecided_traces", 0) + len(und)
        self.states += dist
        self.transitions += gen
        self.traces += len(traces) - len(rej) - len(und)
        if traces and len(self.samples) < 4:
            t = self.rng.choice(traces)
            self.samples.append(t[:40])
        log("[%s] %s: %d traces, %d events, %d rejected, %d undecided" % (self.prop, module, len(traces), sum(map(len, traces)), len(rej), len(und)))
        for i in rej[:8]:
            tr = traces[i]
            if rerun is not None:
                t2 = rerun(i)
                if t2 is None:
                    continue
                rj2, _, _ = validate(specdir, module, cfg, [t2], chunk=1, undecided=[], **{x: y for x, y in k.items() if x != "chunk"})
                if not rj2:
                    log("[%s] rejection of trace %d did not repeat" % (self.prop, i))
                    self.extra["unrepeated_rejections"] = self.extra.get("unrepeated_rejections", 0) + 1
                    continue
                tr = t2
            self.violation("trace rejected by %s" % module, {"trace": tr, "index": i, "module": module,
                           "describe": describe(i) if describe else None, "specdir": os.path.relpath(specdir, VERIF), "cfg": cfg})
            break
        return rej

    def violation(self, what, data):
        d = VERIF + "/evidence/replay"
        os.makedirs(d, exist_ok=True)
        path = "%s/%s-%d.json" % (d, self.prop, len(self.violations))
        with open(path, "w") as fh:
            json.dump({"property": self.prop, "what": what, "seed": SEED, "data": data}, fh, indent=1, default=str)
        self.violations.append(what)
        print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
        log("[%s] VIOLATION: %s" % (self.prop, what))

    def finish(self):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples or ["none"]}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open(VERIF + "/evidence/%s.json" % self.prop, "w") as fh:
            json.dump(ev, fh, indent=1)
        log("[%s] done in %.1fs: states=%d traces=%d violations=%d" % (self.prop, ev["wall_s"], self.states, self.traces, len(self.violations)))
        return 1 if self.violations else 0


def main(fn, prop):
    c = Check(prop)
    try:
        fn(c)
    except CheckError as e:
        log("[%s] CHECK ERROR: %s" % (prop, e))
        if c.violations:
            sys.exit(c.finish())
        sys.exit(2)
    sys.exit(c.finish())


def run_harness(cmd, stdin=None, timeout=60, env=None, cwd=None):
    """Run a harness; returns (rc, stdout, stderr); rc None on timeout."""
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, input=stdin, capture_output=True, text=True, timeout=timeout, env=e, cwd=cwd, errors="replace")
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as ex:
        def s(x):
            return x.decode(errors="replace") if isinstance(x, bytes) else (x or "")
        return None, s(ex.stdout), s(ex.stderr)


def parse_trace(out):
    tr = []
    for line in out.splitlines():
        if line.startswith("{") and not line.startswith("{\"log_"):
            try:
                tr.append(json.loads(line))
            except ValueError:
                tr.append({"e": "garbage"})
    return tr


def pmap(fn, items, n=None):
    with ThreadPoolExecutor(n or NPROC) as ex:
        return list(ex.map(fn, items))


def run_trace(cmd, stdin=None, timeout=60, env=None, cwd=None):
    """Run a harness which writes a trace; abnormal endings become events no specification accepts."""
    e = {"MALLOC_PERTURB_": "165"}
    e.update(env or {})
    rc, out, err = run_harness(cmd, stdin, timeout=timeout, env=e, cwd=cwd)
    t = parse_trace(out)
    if rc != 0 and not (t and t[-1].get("e") in ("crash", "deadlock", "livelock", "selfdeadlock")):
        t.append({"e": "exit", "rc": "timeout" if rc is None else rc})
    if rc != 0:
        t[-1]["stderr"] = err[-300:]
    return t
