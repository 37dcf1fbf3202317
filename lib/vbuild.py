"""Content-hash based build of /repo's library sources plus the drivers of /verif.

Objects are cached by content (flags + source + every dependency reported by the
compiler), never by mtime, so a stale object can not be linked.  The cache is only an
accelerator: it lives in /verif/.cache (git-ignored) and may be deleted at any time.
"""
import os, sys, hashlib, json, subprocess, glob, shutil, fcntl, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
SYSINC = ["/usr/include/freetype2", "/usr/include/libxml2"]
LIBS = "-lssl -lcrypto -lfontconfig -lfreetype -lxml2 -lpng -lz -ltiff -ljpeg -lidn -lpthread".split()


class BuildError(Exception):
    pass


_hash_memo = {}


def fhash(path):
    h = _hash_memo.get(path)
    if h is None:
        try:
            with open(path, "rb") as f:
                h = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            h = "missing"
        _hash_memo[path] = h
    return h


def shash(s):
    return hashlib.sha256(s.encode()).hexdigest()


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return p.returncode, p.stdout


def gen_config(outdir):
    """pdfmm_config.h, from the template of the repository (what CMake generates)."""
    src = open(os.path.join(REPO, "src/pdfmm/pdfmm_config.h.in")).read()
    top = open(os.path.join(REPO, "CMakeLists.txt")).read()
    import re
    def var(name, default):
        m = re.search(r"set\s*\(\s*%s\s+\"?([^\s\")]+)" % name, top, re.I)
        return m.group(1) if m else default
    vals = {"PDFMM_VERSION_MAJOR": var("PDFMM_VERSION_MAJOR", "0"),
            "PDFMM_VERSION_MINOR": var("PDFMM_VERSION_MINOR", "10"),
            "PDFMM_VERSION_PATCH": var("PDFMM_VERSION_PATCH", "0")}
    have = {"PDFMM_HAVE_JPEG_LIB", "PDFMM_HAVE_PNG_LIB", "PDFMM_HAVE_TIFF_LIB",
            "PDFMM_HAVE_FONTCONFIG", "PDFMM_HAVE_LIBIDN"}
    def cmdef(m):
        return "#define " + m.group(1) if m.group(1) in have else "/* #undef %s */" % m.group(1)
    out = re.sub(r"#cmakedefine\s+(\w+).*", cmdef, src)
    out = re.sub(r"@(\w+)@|\$\{(\w+)\}", lambda m: vals.get(m.group(1) or m.group(2), ""), out)
    path = os.path.join(outdir, "pdfmm_config.h")
    os.makedirs(outdir, exist_ok=True)
    if not os.path.exists(path) or open(path).read() != out:
        with open(path + ".tmp%d" % os.getpid(), "w") as f:
            f.write(out)
        os.rename(path + ".tmp%d" % os.getpid(), path)
    return path


def parse_deps(dfile):
    txt = open(dfile).read().replace("\\\n", " ")
    txt = txt.split(":", 1)[1]
    return [os.path.normpath(p) for p in txt.split()]


class Builder:
    def __init__(self, flavor="std"):
        self.flavor = flavor
        self.cc = "g++"
        self.flags = ["-std=gnu++17", "-O0", "-g0", "-w", "-fPIC", "-DHAS_UNCAUGHT_EXCEPTIONS=1",
                      "-DPDFMM_STATIC", "-D_GLIBCXX_ASSERTIONS", "-DNDEBUG", "-DPDFMM_VERIF"]
        if flavor == "asan":
            self.flags += ["-fsanitize=address", "-fno-omit-frame-pointer"]
        self.cfgdir = os.path.join(CACHE, "gen")
        self.objdir = os.path.join(CACHE, "obj")
        os.makedirs(self.objdir, exist_ok=True)
        gen_config(self.cfgdir)
        self.incs = ["-I" + self.cfgdir, "-I" + REPO + "/src", "-I" + REPO + "/3rdparty"] + ["-I" + i for i in SYSINC]
        self.pchdir = None
        self.pchdeps = []

    def sources(self):
        r = []
        for d in ("base", "common", "contrib", "private"):
            r += glob.glob(os.path.join(REPO, "src/pdfmm", d, "**", "*.cpp"), recursive=True)
        r += glob.glob(os.path.join(REPO, "3rdparty/pdfium", "**", "*.cpp"), recursive=True)
        return sorted(r)

    def cached(self, key, produce, src):
        """key identifies (flags, source path, source content); a manifest next to it lists
        dependency hashes -> object."""
        man = os.path.join(self.objdir, key + ".json")
        if os.path.exists(man):
            try:
                for ent in json.load(open(man)):
                    if all(fhash(p) == h for p, h in ent["deps"]) and os.path.exists(ent["obj"]):
                        return ent["obj"]
            except (ValueError, OSError, KeyError):
                pass
        obj, deps = produce()
        ent = {"deps": [[p, fhash(p)] for p in deps if not p.startswith("/usr/")], "obj": obj}
        old = []
        if os.path.exists(man):
            try:
                old = json.load(open(man))[-6:]
            except ValueError:
                old = []
        tmp = man + ".tmp%d" % os.getpid()
        with open(tmp, "w") as f:
            json.dump(old + [ent], f)
        os.rename(tmp, man)
        return obj

    def build_pch(self):
        hdr = os.path.join(REPO, "src/pdfmm/private/PdfDeclarationsPrivate.h")
        if not os.path.exists(hdr):
            return
        key = "pch-" + shash(" ".join(self.flags) + hdr + fhash(hdr))
        def produce():
            uid = key[4:20] + "-%d" % os.getpid()
            d = os.path.join(CACHE, "pch", uid)
            out = os.path.join(d, "pdfmm/private/PdfDeclarationsPrivate.h.gch")
            os.makedirs(os.path.dirname(out), exist_ok=True)
            dep = os.path.join(d, "dep.d")
            rc, o = run([self.cc] + self.flags + self.incs + ["-x", "c++-header", hdr, "-o", out, "-MD", "-MF", dep])
            if rc:
                shutil.rmtree(d, ignore_errors=True)
                raise BuildError(o)
            return d, parse_deps(dep)
        try:
            self.pchdir = self.cached(key, produce, hdr)
            man = json.load(open(os.path.join(self.objdir, key + ".json")))
            for ent in man:
                if ent["obj"] == self.pchdir:
                    self.pchdeps = [p for p, _ in ent["deps"]]
        except BuildError:
            self.pchdir = None

    def compile(self, src, extra=()):
        flags = self.flags + list(extra)
        key = "o-" + shash(" ".join(flags) + src + fhash(src))
        def produce():
            fd, dep = tempfile.mkstemp(suffix=".d", dir=self.objdir)
            os.close(fd)
            obj = dep[:-2] + ".o"
            incs = list(self.incs)
            if self.pchdir and src.startswith(REPO):
                incs = ["-I" + self.pchdir] + incs
            rc, o = run([self.cc] + flags + incs + ["-c", src, "-o", obj, "-MD", "-MF", dep])
            if rc:
                for p in (obj, dep):
                    if os.path.exists(p):
                        os.unlink(p)
                raise BuildError("compiling %s failed:\n%s" % (src, o[-4000:]))
            deps = parse_deps(dep)
            deps = [d for d in deps if not d.endswith(".gch")]
            if self.pchdir:
                deps = sorted(set(deps) | set(self.pchdeps))
            os.unlink(dep)
            return obj, deps
        return self.cached(key, produce, src)

    def program(self, name, drv_sources):
        lock = open(os.path.join(CACHE, "lock"), "w")
        fcntl.flock(lock, fcntl.LOCK_EX)
        try:
            _hash_memo.clear()
            self.build_pch()
            jobs = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4))
            srcs = self.sources()
            # biggest first
            srcs.sort(key=lambda p: -os.path.getsize(p))
            with ThreadPoolExecutor(jobs) as ex:
                objs = list(ex.map(self.compile, [os.path.join(VERIF, "driver", s) for s in drv_sources] + srcs))
            n = len(drv_sources)
            linkkey = shash(name + self.flavor + "".join(fhash(o) for o in objs))[:24]
            exe = os.path.join(CACHE, "bin", name + "-" + linkkey)
            if not os.path.exists(exe):
                os.makedirs(os.path.dirname(exe), exist_ok=True)
                lib = exe + ".a"
                rc, o = run(["ar", "rcs", lib] + objs[n:])
                if rc:
                    raise BuildError(o)
                tmp = exe + ".tmp%d" % os.getpid()
                san = ["-fsanitize=address"] if self.flavor == "asan" else []
                rc, o = run([self.cc] + san + ["-o", tmp] + objs[:n] + [lib] + LIBS)
                os.unlink(lib)
                if rc:
                    raise BuildError("link failed:\n" + o[-4000:])
                os.rename(tmp, exe)
            self.gc()
            return exe
        finally:
            fcntl.flock(lock, fcntl.LOCK_UN)

    def gc(self, limit=3 << 30):
        """Keep the cache small: drop the oldest files beyond the limit."""
        fs = []
        for d in ("obj", "bin"):
            for p in glob.glob(os.path.join(CACHE, d, "*")):
                st = os.stat(p)
                fs.append((st.st_mtime, st.st_size, p))
        tot = sum(f[1] for f in fs)
        for m, s, p in sorted(fs):
            if tot < limit:
                break
            os.unlink(p)
            tot -= s


if __name__ == "__main__":
    import time
    t = time.time()
    b = Builder(sys.argv[1] if len(sys.argv) > 1 else "std")
    print(b.program("vdrv", sorted(os.path.basename(p) for p in glob.glob(os.path.join(VERIF, "driver", "*.cpp")))), time.time() - t)
