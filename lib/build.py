"""Builds the programs under test from /repo's current working tree, out of tree.

Everything goes to /verif/build/<kind>-<hash of the sources> (ignored by git).  Sources are
found by globbing, so added / renamed / split source files are picked up; every file that does not
define main() goes into an archive, and each program is linked from its own main plus the archive.
"""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
ENV = dict(os.environ, LANG="C.UTF-8", LC_ALL="C.UTF-8")
for _v in ("MAKEFLAGS", "CFLAGS", "CXXFLAGS", "CPPFLAGS", "LDFLAGS", "LIBS"):
    ENV.pop(_v, None)


class BuildError(Exception):
    pass


def _hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:16]


def _run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode("utf-8", "replace")[-4000:]))


def _prune(kind, keep):
    """Keep at most the 3 newest builds of each kind."""
    ds = [d for d in glob.glob(os.path.join(BUILD, kind + "-*")) if os.path.isdir(d) and d != keep]
    ds.sort(key=os.path.getmtime)
    for d in ds[:-2]:
        shutil.rmtree(d, ignore_errors=True)


def _locked(kind, srcs, extra, fn):
    os.makedirs(BUILD, exist_ok=True)
    d = os.path.join(BUILD, "%s-%s" % (kind, _hash(srcs, extra)))
    with open(os.path.join(BUILD, ".lock-" + kind), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(d, ".done")):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            fn(d)
            open(os.path.join(d, ".done"), "w").close()
            _prune(kind, d)
    return d


MAIN = re.compile(rb"^\s*(?:(?:int|void)\s+)?main\s*\(", re.M)


def _has_main(p):
    with open(p, "rb") as f:
        return MAIN.search(f.read()) is not None


def _compile(d, srcs, flags, cc):
    objs = []
    jobs = []
    for s in srcs:
        o = os.path.join(d, re.sub(r"[/.]", "_", os.path.relpath(s, REPO)) + ".o")
        objs.append(o)
        comp = "g++" if s.endswith((".cpp", ".cc")) else "gcc"
        jobs.append([comp, "-w", "-c"] + flags + ["-I" + os.path.dirname(s), "-o", o, s])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(_run, jobs))
    return objs


def _tree(sub, pats):
    out = []
    for p in pats:
        out += glob.glob(os.path.join(REPO, sub, p), recursive=True)
    return sorted(f for f in out if os.path.isfile(f))


def sclite(san=False):
    """-> directory holding sclite, sc_stats, rover."""
    base = os.path.join(REPO, "src/sclite")
    srcs = _tree("src/sclite", ["*.c"])
    slm = _tree("src/sclite/slm_v2/src", ["*.c", "pc_libs/*.c", "rr_libs/*.c"])
    hdr = _tree("src/sclite", ["**/*.h"])
    flags = ["-Os", "-DHAVE_LIBM=1", "-DSTDC_HEADERS=1", "-DHAVE_UNISTD_H=1",
             '-DDIFF_EXE="/usr/bin/diff"', "-DWITH_SLM"]
    sflags = ["-O2", "-DSLM_SWAP_BYTES", "-I" + os.path.join(base, "slm_v2/src")]
    ld = ["-lm"]
    if san:
        x = ["-g", "-fsanitize=address", "-fno-omit-frame-pointer"]
        flags, sflags, ld = ["-O1"] + flags[1:] + x, sflags + x, ld + ["-fsanitize=address"]
    data = _tree("src/sclite", ["utf-8-aux/*"])

    def fn(d):
        mains = {os.path.splitext(os.path.basename(s))[0]: s for s in srcs if _has_main(s)}
        libs = [s for s in srcs if s not in mains.values()]
        objs = _compile(d, libs, flags, "gcc")
        _run(["ar", "rcs", os.path.join(d, "lib.a")] + objs)
        so = _compile(d, [s for s in slm if not _has_main(s)], sflags, "gcc")
        _run(["ar", "rcs", os.path.join(d, "slm.a")] + so)
        want = ("sclite", "sc_stats", "rover", "sctkUnit")
        mo = _compile(d, [mains[m] for m in want], flags, "gcc")
        for m, o in zip(want, mo):
            _run(["gcc", "-o", os.path.join(d, m), o, os.path.join(d, "lib.a"),
                  os.path.join(d, "slm.a")] + ld)
        for o in glob.glob(os.path.join(d, "*.o")):
            os.remove(o)
    return _locked("sclite-san" if san else "sclite", srcs + slm + hdr + data, repr((flags, sflags)), fn)


LZMA = r"""
#include <stdio.h>
#include <stdlib.h>
#include <stddef.h>
/* the compressor with a dictionary no larger than a block needs: the stored bytes decompress to the same data, and a run does not spend its time clearing 200 MB tables */
static unsigned long nc, nd;
static void say(void) { if (getenv("MC_LZMA")) fprintf(stderr, "\nMC_LZMA %lu %lu\n", nc, nd); }
static void first(void) { if (!nc && !nd) atexit(say); }
int __real_LzmaCompress(unsigned char *, size_t *, const unsigned char *, size_t, unsigned char *, size_t *, int, unsigned, int, int, int, int, int);
int __real_LzmaUncompress(unsigned char *, size_t *, const unsigned char *, size_t *, const unsigned char *, size_t);
int __wrap_LzmaCompress(unsigned char *d, size_t *dl, const unsigned char *s, size_t sl, unsigned char *p, size_t *pl, int lev, unsigned dict, int lc, int lp, int pb, int fb, int nt)
{ unsigned m = 1 << 16; while (m < sl) m <<= 1; first(); ++nc; return __real_LzmaCompress(d, dl, s, sl, p, pl, lev, dict < m ? dict : m, lc, lp, pb, fb, nt); }
int __wrap_LzmaUncompress(unsigned char *d, size_t *dl, const unsigned char *s, size_t *sl, const unsigned char *p, size_t pl)
{ first(); ++nd; return __real_LzmaUncompress(d, dl, s, sl, p, pl); }
"""


def asclite_lzma(san=False):
    """asclite whose calls of the compressor are counted (printed at the end when MC_LZMA is set) and cheap."""
    return asclite(san, True)


def asclite(san=False, lzma=False):
    srcs = _tree("src/asclite/core", ["*.cpp", "*.c", "lzma/*.c", "lzma/*.cpp"])
    hdr = _tree("src/asclite/core", ["**/*.h"])
    flags = ["-Os", "-DHAVE_LIBM=1", "-DSTDC_HEADERS=1", "-DHAVE_SYS_TYPES_H=1", "-DHAVE_SYS_STAT_H=1",
             "-DHAVE_STDLIB_H=1", "-DHAVE_STRING_H=1", "-DHAVE_MEMORY_H=1", "-DHAVE_STRINGS_H=1",
             "-DHAVE_INTTYPES_H=1", "-DHAVE_STDINT_H=1", "-DHAVE_UNISTD_H=1", "-DHAVE_STDIO_H=1",
             "-DHAVE_MATH_H=1", "-DHAVE_TIME_H=1", "-DHAVE_ASSERT_H=1", "-DHAVE_FLOAT_H=1", "-DHAVE_LIMITS_H=1",
             "-I" + os.path.join(REPO, "src/asclite/core")]
    if san:
        flags = ["-O1"] + flags[1:] + ["-g", "-fsanitize=address"]

    def fn(d):
        objs = _compile(d, srcs, flags, "g++")
        if lzma:
            with open(os.path.join(d, "wrap.c"), "w") as f:
                f.write(LZMA)
            _run(["gcc", "-O1", "-c", "-o", os.path.join(d, "wrap.o"), os.path.join(d, "wrap.c")])
            objs.append(os.path.join(d, "wrap.o"))
        _run(["g++", "-o", os.path.join(d, "asclite")] + objs + ["-lm"] + (["-Wl,--wrap=LzmaCompress", "-Wl,--wrap=LzmaUncompress"] if lzma else []) + (["-fsanitize=address"] if san else []))
        for o in objs:
            os.remove(o)
    return _locked("asclite" + ("-lzma" if lzma else "") + ("-san" if san else ""), srcs + hdr, repr(flags) + (LZMA if lzma else ""), fn)


def rfilter1(san=False):
    srcs = _tree("src/rfilter1", ["**/*.c", "**/*.h"])
    flags = ["-w", "-DNEED_STRCMP=1"] + (["-g", "-O1", "-fsanitize=address"] if san else [])

    def fn(d):
        _run(["gcc"] + flags + ["-o", os.path.join(d, "rfilter1"), "rfilter1.c"], cwd=os.path.join(REPO, "src/rfilter1"))
    return _locked("rfilter1" + ("-san" if san else ""), srcs, repr(flags), fn)


def perl_tool(name):
    """The scripts assembled from modules: -> path of the assembled script."""
    sub = "src/" + name
    srcs = _tree(sub, ["*.pl", "*.pm", "packImageTarFile", "js/*"])

    def fn(d):
        with open(os.path.join(d, name + ".pl"), "wb") as f:
            r = subprocess.run(["perl", "buildInstallVersion.pl"], cwd=os.path.join(REPO, sub), stdout=f,
                               stderr=subprocess.PIPE, env=ENV)
        if r.returncode:
            raise BuildError(r.stderr.decode("utf-8", "replace"))
    return os.path.join(_locked(name, srcs, "", fn), name + ".pl")


if __name__ == "__main__":
    import time
    for f in (sclite, asclite, rfilter1):
        t = time.time()
        print(f(), "%.1fs" % (time.time() - t))
    for n in ("align2html", "stmValidator"):
        print(perl_tool(n))
