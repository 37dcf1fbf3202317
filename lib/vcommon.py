import os, sys, json, subprocess, time, re, random, shutil, tempfile, hashlib
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild

VERIF = vbuild.VERIF
SPEC = os.path.join(VERIF, "spec")
EVID = os.path.join(VERIF, "evidence")
JAVA = ["java", "-XX:+UseSerialGC", "-Xss64m", "-XX:TieredStopAtLevel=4", "-cp",
        "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"]
NCPU = os.cpu_count() or 4


class Machinery(Exception):
    """The checking machinery itself failed (no verdict)."""


class Scratch:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="verif.")

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


_exe = {}


def driver(flavor="std"):
    if flavor not in _exe:
        b = vbuild.Builder(flavor)
        import glob
        srcs = sorted(os.path.basename(p) for p in glob.glob(os.path.join(VERIF, "driver", "*.cpp")))
        _exe[flavor] = b.program("vdrv", srcs)
    return _exe[flavor]


def drive(sub, cases, scratch, timeout=20, flavor="std", shards=NCPU):
    """Executes the cases on the real library; returns traces in order."""
    exe = driver(flavor)
    shards = max(1, min(shards, len(cases)))
    parts = [cases[i::shards] for i in range(shards)]

    def one(k):
        uid = "%s-%d-%d" % (sub, k, random.SystemRandom().randrange(1 << 30))
        ci, co = scratch.path("c" + uid), scratch.path("t" + uid)
        with open(ci, "w") as f:
            for c in parts[k]:
                f.write(json.dumps(c) + "\n")
        p = subprocess.run([exe, sub, ci, co, str(timeout)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           env=dict(os.environ, TZ="UTC", LC_ALL="C.UTF-8", ASAN_OPTIONS="detect_leaks=0:abort_on_error=1"))
        if p.returncode:
            bad = ""
            if os.path.exists(co):
                m = re.search(r'\{"op":"drivererror"[^}]*\}', open(co, encoding="latin-1").read())
                bad = m.group(0) if m else ""
            raise Machinery("driver rc=%d %s %s" % (p.returncode, p.stdout[-400:], bad))
        out = [json.loads(x) for x in open(co, encoding="latin-1") if x.strip()]
        os.unlink(ci)
        os.unlink(co)
        if len(out) != len(parts[k]):
            raise Machinery("driver lost cases")
        return out
    with ThreadPoolExecutor(shards) as ex:
        res = list(ex.map(one, range(shards)))
    traces = [None] * len(cases)
    for k in range(shards):
        for j, t in enumerate(res[k]):
            traces[k + j * shards] = t
    return traces


def tlc_raw(module, cfg, args=(), env=None, timeout=600, xmx="3g", jvm=()):
    meta = tempfile.mkdtemp(prefix="verif.tlc.")
    try:
        cmd = JAVA[:1] + ["-Xmx" + xmx, "-Djava.io.tmpdir=" + meta] + list(jvm) + JAVA[1:] + ["tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE",
              "-config", cfg if os.path.isabs(cfg) else os.path.join(SPEC, cfg)] + list(args) + [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.update(env or {})
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=timeout, cwd=SPEC, errors="replace")
        return p.returncode, p.stdout.decode("utf-8", "replace") if isinstance(p.stdout, bytes) else p.stdout
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def stats(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    if m:
        return int(m.group(1)), int(m.group(2))
    m = re.search(r"The number of states generated: (\d+)", out)
    return (int(m.group(1)), int(m.group(1))) if m else (0, 0)


class TraceResult:
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.rejected = []      # (trace index, event index reached, note)


def _tlc_traces(module, cfg, traces, scratch, timeout):
    """One TLC run over the traces -> (rejected {i: (reached, note)}, states, distinct)"""
    uid = "%d" % random.SystemRandom().randrange(1 << 40)
    tf = scratch.path("trace" + uid + ".ndjson")
    with open(tf, "w") as f:
        for t in traces:
            f.write(json.dumps(t) + "\n")
    try:
        rc, out = tlc_raw(module, cfg, ["-workers", "1", "-deadlock"], {"TRACE": tf}, timeout)
    finally:
        os.unlink(tf)
    m = re.search(r"VALIDATED (\d+)", out)
    gen, dist = stats(out)
    if m and int(m.group(1)) == len(traces) and "Error:" not in out:
        rej = {int(a) - 1: (int(b), "") for a, b in re.findall(r"REJECTED (\d+) (\d+)", out)}
        return rej, gen, dist, None
    return None, gen, dist, out


def validate(module, traces, scratch, cfg=None, shards=NCPU, timeout=800):
    cfg = cfg or module + ".cfg"
    res = TraceResult()
    if not traces:
        return res
    shards = max(1, min(shards, (len(traces) + 3) // 4 if len(traces) > 32 else len(traces)))
    idx = [list(range(k, len(traces), shards)) for k in range(shards)]

    def one(ids):
        if not ids:
            return [], 0, 0
        rej, g, d, out = _tlc_traces(module, cfg, [traces[i] for i in ids], scratch, timeout)
        if rej is not None:
            return [(ids[i], r, n) for i, (r, n) in sorted(rej.items())], g, d
        if len(ids) == 1:
            # the specification can not evaluate this trace: an outcome outside its universe
            m = re.search(r"Error: (.*?)(?:\nError: The behavior|\nThe error occurred|\Z)", out, re.S)
            note = (m.group(1) if m else out[-400:]).strip()[:400]
            ls = re.findall(r"/\\ l = (\d+)", out)
            if "StackOverflow" in out or "OutOfMemory" in out or ("Error:" not in out):
                raise Machinery("TLC failed on a trace: " + out[-1500:])
            if "Parsing or semantic analysis failed" in out or "Unknown operator" in out:
                raise Machinery(out[-1500:])
            return [(ids[0], int(ls[-1]) if ls else 0, note)], g, d
        # locate the offending trace: use the state TLC printed, else split
        h = len(ids) // 2
        a = one(ids[:h])
        b = one(ids[h:])
        return a[0] + b[0], a[1] + b[1], a[2] + b[2]
    with ThreadPoolExecutor(shards) as ex:
        for rej, g, d in ex.map(one, idx):
            res.rejected += rej
            res.transitions += g
            res.states += d
    res.validated = len(traces) - len(res.rejected)
    res.rejected.sort()
    return res


def model_check(module, cfg=None, timeout=600, workers="auto", args=(), xmx="8g", env=None):
    """Exhaustive check; returns (generated, distinct). Raises Machinery on failure other than a
    property violation; returns ('violation', text) through exception attribute."""
    cfg = cfg or module + ".cfg"
    rc, out = tlc_raw(module, cfg, ["-workers", str(workers), "-deadlock"] + list(args), env, timeout, xmx, jvm=["-XX:+UseParallelGC"] if False else [])
    if "Model checking completed. No error has been found." not in out:
        e = Machinery("model %s: %s" % (module, out[-3000:]))
        raise e
    return stats(out)


def fixup(o):
    """TLC prints the empty function as an empty sequence."""
    if isinstance(o, list):
        return [fixup(x) for x in o]
    if isinstance(o, dict):
        return {k: ({} if k == "d" and v == [] else fixup(v)) for k, v in o.items()}
    return o


def generate(module, cfg=None, num=100, depth=12, seed=1, timeout=300, simulate=True, env=None):
    """Behaviours of the specification (history printed as JSON)."""
    cfg = cfg or module + ".cfg"
    args = ["-workers", "1", "-deadlock"]
    if simulate:
        args += ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)]
    rc, out = tlc_raw(module, cfg, args, env, timeout)
    hs = []
    for m in re.finditer(r'^"GEN (.*)"$', out, re.M):
        s = m.group(1)
        s = s.replace('\\"', '"').replace("\\\\", "\\")
        hs.append(fixup(json.loads(s)))
    if not hs or ("Error:" in out):
        raise Machinery("generator %s produced nothing: %s" % (module, out[-2000:]))
    g = stats(out)
    return hs, g
