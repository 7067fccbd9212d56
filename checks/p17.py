#!/usr/bin/env python3
"""P17: how asclite stores its cost matrix never changes the scores."""
import itertools, os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import asc, build, mc
from mc import Check, Fail, chunks, newdir

C = Check("P17", "exhaustive exploration of all shapes of the alignment matrix (numbers of streams and of words in each) under all storage configurations (plain, block sizes, memory limits that force blocks to be compressed and restored at nearly every access) on the real asclite, the reports compared byte for byte",
          "every shape within the bounds is aligned once with the plain matrix and once under every storage configuration; the number of blocks compressed and restored is counted by a wrapper around the compressor",
          ["the compressor's dictionary is made smaller by the wrapper, except in a few runs of the unwrapped program"])
T = C.thorough
FULL = ["-overlap-limit", "9", "-noisg"]


def text(n, k):
    return [("abcdeafb"[(i * (3 + k) + i // 3 + k) % 8]) for i in range(n)]


def stream(cases):
    """cases: [(file, shape)]; shape = (words of the system, words of speaker 1, ...)."""
    stm, ctm = [], []
    for f, shape in cases:
        for k, n in enumerate(shape[1:]):
            stm.append("%s 1 S%d 0.000 90.000 %s" % (f, k, " ".join(text(n, k))))
        for i, w in enumerate(text(shape[0], 7)):
            ctm.append("%s 1 %.3f 0.300 %s 0.%d" % (f, 0.2 + i, w, 1 + i % 9))
    return {"r.stm": "\n".join(stm) + "\n", "h.ctm": "\n".join(ctm) + "\n"}


def outputs(d, S, files, args):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/o")
    for k, x in files.items():
        open(os.path.join(d, k), "w").write(x)
    rc, out, err = mc.run([S + "/asclite", "-r", "r.stm", "stm", "-h", "h.ctm", "ctm", "-o", "sgml", "sum", "rsum", "-O", "o"] + args, cwd=d, env={"ASAN_OPTIONS": "detect_leaks=0", "MC_LZMA": "1"}, timeout=100)
    if rc != 0:
        raise Fail("asclite %s ended with %s: %r" % (" ".join(args), rc, (out + err)[-400:]))
    r = {}
    for n in sorted(os.listdir(d + "/o")):
        r[n] = re.sub(rb'creation_date="[^"]*"', b"", open(os.path.join(d, "o", n), "rb").read())
    if len(r) != 3:
        raise Fail("reports written: %r" % sorted(r))
    m = re.search(rb"MC_LZMA (\d+) (\d+)", err)
    return r, (int(m[1]), int(m[2])) if m else (0, 0)


def work(arg, st, fails, samples):
    S, cases, base, confs = arg
    d = newdir()
    files = stream(cases)
    try:
        want, _ = outputs(d, S, files, FULL + base + ["-f", "0"])
        aligned = want["h.ctm.sgml"].count(b"</PATH>")
        if aligned < len(cases):
            raise Fail("%d of %d groups aligned" % (aligned, len(cases)))
        for cf in confs:
            try:
                got, (nc, nd) = outputs(d, S, files, FULL + base + cf)
            except Fail as x:
                x.cmd = "asclite " + " ".join(FULL + base + cf)
                raise
            st.add(states=len(cases), traces=1, transitions=nc + nd)
            if got != want:
                bad = [n for n in want if got.get(n) != want[n]]
                raise Fail("%r differs from the plain matrix: %r" % (cf, bad), cmd="asclite " + " ".join(FULL + base + cf))
    except Fail as x:
        if len(cases) > 1:
            n = len(fails)
            for c in cases:
                work((S, [c], base, confs), st, fails, samples)
                if len(fails) > n:
                    return
        x.files = files
        fails.append(x.pack())
    finally:
        shutil.rmtree(d, ignore_errors=True)


def conf(b, lim, force=True):
    return (["-force-memory-compression"] if force else []) + ["-memory-compression", str(b), "-memory-limit", lim, "-f", "0"]


KB = ["0.0000005", "0.0000025", "0.000005"]      # 1, 3 and 6 KB
PLAIN = [conf(b, "2") for b in (0, 1, 2, 256)] + [["-threads", "3", "-f", "0"], ["-f", "6"]]


def cells(s):
    n = 1
    for x in s:
        n *= x + 1
    return n


def jobs(S):
    shapes = [(a, b) for a in range(1, 34) for b in range(0, 34)]
    shapes += [(a, b, c) for a in range(1, 9) for b in range(0, 9) for c in range(0, 9)]
    shapes += [s for s in itertools.product(range(1, 5), range(5), range(5), range(4))]
    shapes += [s for s in itertools.product(range(1, 4), range(3), range(3), range(3), range(2))]
    shapes += [(2, 1, 1, 1, 1, 1), (1,) * 7, (1,) * 8, (3, 2, 1, 2, 1, 2)]
    named = lambda b: [("f%03d" % k, s) for k, s in enumerate(b)]
    # blocks, without memory pressure: every shape
    for b in chunks(shapes, 100):
        yield S, named(b), [], PLAIN
        if T:
            yield S, named(b), [], [conf(x, "0.0001") for x in (3, 4, 5, 8)]
    # five dimensions whose blocks are more than one cell wide
    for b in chunks(itertools.product((3, 5), (3, 5), (3, 5), (3, 5), (3, 5)), 4):
        yield S, named(b), [], [conf(1, "2"), conf(2, "2")]
    for b in chunks(shapes[::5], 100):
        yield S, named(b), ["-adaptive-cost"], PLAIN[:2]
        yield S, named(b), ["-wordalign-cost", "-word-time-align", "3000"], PLAIN[:2]
    # blocks under memory pressure: the shapes of more than 1 KB
    big = [s for s in shapes if 256 <= cells(s) <= (1300 if T else 700)]
    step = 1 if T else 6
    for b in chunks(big[::step], 2):
        yield S, named(b), [], [conf(1, KB[0])]
    for b in chunks(big[1::step * 2], 2):
        yield S, named(b), [], [conf(0, KB[0]), conf(1, KB[1]), conf(2, KB[0]), conf(1, KB[0], False), conf(256, KB[1], False)]
    for s in ((40, 40), (37, 41), (46, 22), (12, 9, 10), (6, 3, 4, 5), (3, 2, 3, 2, 3)) + (((60, 61), (20, 12, 11), (70, 40), (9, 5, 6, 4)) if T else ()):
        for l in KB[1:]:
            for b in (1, 2, 4) if T else (1,):
                yield S, named([s]), [], [conf(b, l)]


def body(S):
    C.bounds["shapes"] = "2 streams up to 33 x 33 words, 3 streams up to 8 each, 4 up to 4 each, 5 up to 3 each, some of 6 to 8 streams: all shapes under blocks of every size, memory unlimited"
    C.bounds["memory pressure"] = "shapes of 1 to %s KB, limits of 1, 3 and 6 KB, block sizes 0, 1, 2, 256 KB, forced compression and compression chosen because of the limit" % ("5" if T else "3 (every sixth)")
    C.bounds["other"] = "-threads, feedback levels, cost options"
    js = list(jobs(S))
    js.sort(key=lambda j: -sum(cells(s) for f, s in j[1]) * (KB[0] in str(j[3]) or KB[1] in str(j[3])))
    C.parallel(work, js)
    A = build.asclite_lzma(san=True)
    C.parallel(work, [(A,) + j[1:] for j in js[::23] if cells(j[1][0][1]) < 500])
    U = build.asclite()
    # the program as it is, dictionary and all
    C.parallel(work, [(U, [("f0", s)], [], [conf(1, KB[0])]) for s in ((16, 17), (1, 8, 14), (3, 3, 3, 3))] + [(U, [("f0", (30, 30))], [], [conf(1, KB[1])])])
    C.finish()


if __name__ == "__main__":
    mc.main(build.asclite_lzma, body)
