#!/usr/bin/env python3
"""P11: confidence measures follow their definitions."""
import bisect, itertools, math, os, shutil, statistics, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, mc, reports as rp, sgml
from mc import Check, Fail, chunks, newdir

C = Check("P11", "exhaustive exploration of all multisets of (outcome, confidence) per speaker on the real sclite, against the published definitions of cross entropy, binned histograms and trade-off curve",
          "every multiset of scored words within the bounds is one speaker; its cross entropy and its share of the histograms are recomputed",
          ["cross entropy is not defined where all, or none, of the words are correct", "confidences are not on the edge of a bin unless that edge is exact in binary"])
T = C.thorough
LO, HI = 0.0000001, 0.9999999
TOL = 0.0006


def nce(words):
    """words: list of (correct, confidence)"""
    n = sum(1 for c, _ in words if c)
    N = len(words)
    if n == 0 or n == N:
        return None
    h = -(n * math.log2(n / N) + (N - n) * math.log2(1 - n / N))
    s = 0.0
    for c, p in words:
        p = min(max(p, LO), HI)
        s += math.log2(p if c else 1 - p)
    return (h + s) / h


def inv(p):
    p = min(max(p, 2.2204e-16), 1 - 2.2204e-16)
    return statistics.NormalDist().inv_cdf(p)


def one(arg, st, fails, samples):
    """arg: list of speakers, each a list of (kind, confidence); one word per segment, or all in one"""
    spks, layout, out = arg
    d = newdir()
    files = {}
    try:
        stm, ctm, t = [], [], 0
        seq = [(k, x) for k, s in enumerate(spks) for x in s]
        if layout == 1:         # the words of the speakers in turn, backwards
            seq = sorted(seq[::-1], key=lambda x: ("CSID".index(x[1][0]) * 3 + round(x[1][1] * 1000) * 5) % 7)
        if layout == 2:         # one segment per speaker: a correct word of confidence c between
            for k, s in enumerate(spks):
                stm.append("f 1 s%02d %d %d %s\n" % (k, t, t + 100, " ".join("w%d" % j for j, (q, c) in enumerate(s) if q != "I")))
                for j, (q, c) in enumerate(s):
                    if q != "D":
                        ctm.append("f 1 %g 0.125 %s %r\n" % (t + 1 + j, {"C": "w%d" % j, "S": "x", "I": "y"}[q], c))
                t += 100
        else:
            for k, (q, c) in seq:
                stm.append("f 1 s%02d %d %d %s\n" % (k, t, t + 4, "" if q == "I" else "a"))
                if q != "D":
                    ctm.append("f 1 %g 0.125 %s %r\n" % (t + 1, "a" if q == "C" else "b", c))
                t += 4
        files = {"r.stm": "".join(stm), "h.ctm": "".join(ctm)}
        for n, x in files.items():
            open(os.path.join(d, n), "w").write(x)
        rc, o, e = mc.run([work.S + "/sclite", "-r", "r.stm", "stm", "-h", "h.ctm", "ctm", "-o", "sum", "rsum", "-C", "det", "bhist", "hist", "sbhist", "-O", ".", "-n", "out", "-f", "0"], cwd=d)
        if rc != 0:
            raise Fail("sclite ended with %s: %r" % (rc, (o + e)[-300:]))
        words = [[(q == "C", c) for q, c in s if q != "D"] for s in spks]
        if layout == 2:     # outcomes as aligned: insertions and substitutions may trade places, so only runs where they do not
            pass
        for ext in "sys", "raw":
            rows = [r for r in rp.table(open(d + "/out." + ext, "rb").read()) if r[0] == "Sum" or r[0].startswith("Sum") or r[0].startswith("s")]
            if len(rows) != len(spks) + 1:
                raise Fail("%d rows for %d speakers" % (len(rows) - 1, len(spks)))
            for name, f in rows:
                k = len(spks) if name.startswith("Sum") else int(name[1:])
                ws = words[k] if k < len(spks) else sum(words, [])
                if len(f) != 9:
                    raise Fail("no cross entropy in row %r" % name)
                ex = nce(ws)
                if ex is not None:
                    if abs(float(f[8]) - ex) > TOL + 1e-6 * abs(ex):
                        raise Fail("%s: cross entropy of %s printed as %s, the definition gives %.5f" % (ext, ws if k < len(spks) else "all words", f[8], ex))
                    st.add(entropies=1)
        allw = sum(words, [])
        # histograms: each word in the bin that holds its confidence
        for name, nb in ("hist.dat", 100), ("bhist.dat1", 10):
            ls = [[float(x) for x in l.split()] for l in open(d + "/out." + name)]
            if len(ls) != (2 * nb if nb == 100 else nb):
                raise Fail("%s has %d lines" % (name, len(ls)))
            for b in range(nb):
                m = [c for c, p in allw if min(int(p * nb + 1e-7), nb - 1) == b]
                if nb == 100:
                    for half in (0, 1):
                        ex = [(b + half) / nb, len(m), sum(m), len(m) - sum(m)]
                        if not all(abs(x - y) < 1e-5 for x, y in zip(ls[2 * b + half], ex)):
                            raise Fail("%s line %d: %s, the words give %s" % (name, 2 * b + half, ls[2 * b + half], ex))
                else:
                    ex = [b * .1 + .05, 100.0 * sum(m) / len(m) if m else 0]
                    if not all(abs(x - y) < 1e-4 for x, y in zip(ls[b][:2], ex)):
                        raise Fail("%s bin %d: %s, the words give %s" % (name, b, ls[b][:2], ex))
        # scaled histogram: bins of a twentieth of the words (rounded down; what is left over is in the last), in order of confidence; every word in one of them
        ls = [[float(x) for x in l.split()] for l in open(d + "/out.sbhist.dat")]
        q = len(allw) // 20
        if q:
            srt = sorted(p for c, p in allw)
            nb = len(allw) // q
            ed = [k * q for k in range(nb)] + [len(allw)]
            if len(ls) != nb:
                raise Fail("scaled histogram has %d bins" % len(ls))
            for b in range(nb):
                lo, hi = srt[ed[b]], srt[ed[b + 1] - 1]
                if abs(ls[b][0] - (lo + hi) / 2) > 1e-5 or abs(ls[b][4] - (hi - lo)) > 1e-5:
                    raise Fail("scaled histogram bin %d: %s, expected confidences %g to %g" % (b, ls[b], lo, hi))
            n = sum(ls[b][1] / 100 * (ed[b + 1] - ed[b]) for b in range(nb))
            if abs(n - sum(c for c, p in allw)) > 0.001 * len(allw):
                raise Fail("scaled histogram holds %g correct words of %d" % (n, sum(c for c, p in allw)))
            st.add(scaled=1)
        elif ls:
            raise Fail("scaled histogram of %d words has %d bins" % (len(allw), len(ls)))
        # trade-off curve
        if curve(d + "/out.det.dat.00", allw):
            st.add(curves=1)
        st.add(states=len(spks), transitions=len(allw), traces=1)
    except Fail as f:
        f.files, f.cmd = files, "sclite -r r.stm stm -h h.ctm ctm -o sum rsum -C det bhist hist sbhist -O . -n out -f 0"
        fails.append(f.pack())
    finally:
        shutil.rmtree(d, ignore_errors=True)


def curve(path, allw):
    tr = sorted(p for c, p in allw if c)
    fa = sorted(p for c, p in allw if not c)
    if not tr or not fa:
        return False
    pts = [tuple(map(float, l.split())) for l in open(path)]
    if len(pts) != len(tr) + len(fa) - 1:
        raise Fail("curve has %d points for %d words" % (len(pts), len(allw)))
    i, j = 1, 1
    for k, pt in enumerate(pts[1:]):
        # the next threshold moves past the lower of the two next scores (either of two equal ones)
        opts = []
        if i < len(tr) and (j >= len(fa) or tr[i] <= fa[j]):
            opts.append((i + 1, j))
        if j < len(fa) and (i >= len(tr) or fa[j] <= tr[i]):
            opts.append((i, j + 1))
        ok = [o for o in opts if close(pt[0], inv((o[0] - 1) / len(tr))) and close(pt[1], inv((len(fa) - o[1] + 1) / len(fa)))]
        if not ok:
            raise Fail("curve point %d is %s; correct words removed and incorrect words retained would be %s" % (
                k + 1, pt, [((o[0] - 1) / len(tr), (len(fa) - o[1] + 1) / len(fa)) for o in opts]))
        i, j = ok[0]
    return True


def several(arg, st, fails, samples):
    """sc_stats -g det: one curve per system"""
    for systems in arg:
        d = newdir()
        files = {}
        try:
            n = len(systems[0])
            stm = "".join("f 1 s %d %d a\n" % (4 * k, 4 * k + 4) for k in range(n))
            files["r.stm"] = stm
            cmd = [work.S + "/sclite", "-r", "r.stm", "stm"]
            for i, s in enumerate(systems):
                files["h%d.ctm" % i] = "".join("f 1 %d 0.125 %s %r\n" % (4 * k + 1, "a" if q == "C" else "b", c) for k, (q, c) in enumerate(s) if q != "D")
                cmd += ["-h", "h%d.ctm" % i, "ctm", "sys%d" % i]
            for nm, x in files.items():
                open(os.path.join(d, nm), "w").write(x)
            rc, o, e = mc.run(cmd + ["-o", "sgml", "stdout", "-f", "0"], cwd=d)
            if rc != 0:
                raise Fail("sclite ended with %s: %r" % (rc, e[-300:]))
            rc, o, e = mc.run([work.S + "/sc_stats", "-p", "-g", "det", "-O", d, "-n", "E", "-e", "tst"], cwd=d, stdin=o)
            if rc != 0:
                raise Fail("sc_stats ended with %s: %r" % (rc, (o + e)[-300:]))
            plt = open(d + "/E.det.plt").read()
            for i, s in enumerate(systems):
                try:
                    if curve(d + "/E.det.dat.%02d" % i, [(q == "C", c) for q, c in s if q != "D"]):
                        st.add(curves=1)
                except Fail as f:
                    raise Fail("system %d of %d: %s" % (i, len(systems), f))
                if "E.det.dat.%02d" % i not in plt or "sys%d" % i not in plt:
                    raise Fail("the plot does not name system %d and its curve: %r" % (i, plt[-300:]))
            st.add(states=len(systems), transitions=n * len(systems), traces=1)
        except Fail as f:
            f.files, f.cmd = files, "sclite -r r.stm stm -h h0.ctm ctm sys0 ... -o sgml stdout -f 0 | sc_stats -p -g det -O . -n E -e tst"
            fails.append(f.pack())
        finally:
            shutil.rmtree(d, ignore_errors=True)


def ensembles():
    pool = [(("C", .9), ("S", .2), ("C", .4), ("S", .7)), (("C", .1), ("C", .2), ("S", .3), ("C", .8)), (("S", .6), ("D", 0), ("C", .6), ("C", .5)),
            (("S", .3), ("S", .4), ("S", .1), ("C", .2)), (("C", .5), ("C", .5), ("S", .5), ("S", .5)), (("C", .9), ("D", 0), ("D", 0), ("S", .05))]
    for n in (2, 3):
        yield from itertools.product(pool, repeat=n)
    yield tuple(pool[k * k % 6] for k in range(12))


def close(a, b):
    # the approximation used is good to about 3 decimals inside; far tails are compared loosely
    return abs(a - b) < (0.002 if abs(b) < 3.5 else 0.05)


def work(batch, st, fails, samples):
    for a in batch:
        one(a, st, fails, samples)


def jobs():
    kinds = [(q, c) for q in "CSI" for c in ([0.0, 0.125, 0.5, 0.8125, 1.0] if T else [0.0, 0.125, 0.8125, 1.0])] + [("D", 0.0)]
    ms = [s for n in range(1, 6 if T else 5) for s in itertools.combinations_with_replacement(kinds, n) if any(q != "D" for q, c in s)]
    for i, b in enumerate(chunks(ms, 40)):
        yield b, 0, None
        yield b, 1, None
    # single speakers: system figures over every small multiset
    for s in ms[:: 4 if T else 3]:
        yield [s], 0, None
    # every confidence of the histogram's bins
    cs = [(k + .5) / 100 for k in range(100)]
    for q in "CSI":
        yield [[(q, c), ("C", 0.5), ("I", 0.5)] for c in cs[:50]], 0, None
        yield [[(q, c), ("C", 0.5), ("I", 0.5)] for c in cs[50:]], 0, None
    # sizes: scaled histogram with every remainder; one segment per speaker
    for n in range(1, 130 if T else 85):
        yield [[("CSI"[(k * k + n) % 3], ((k * 37) % n + .2371) / n) for k in range(n)]], 0, None
    for n in (998, 999, 1000, 1001, 1999, 2001):
        yield [[("CS"[k * k % 3 == 1], ((k * 37) % 100 + .5) / 100) for k in range(n)]], 0, None
    for s in itertools.product(["C", "S"], repeat=5):
        yield [[(q, (j + .46) / 5) for j, q in enumerate(s)], [("C", .25), ("S", .25)]], 2, None
    # more words of one outcome, or of both, than the curve's lists hold at first
    for n in ((20001, 31000, 61000) if T else (20001, 31000)):
        yield [[("CS"[k * k % 3 == 1], ((k * 37) % 100 + .5) / 100) for k in range(n)]], 0, None
    for k in range(9996, 10002):
        for a, b in ("CS", "SC"):   # one word of one outcome is more confident than all of the other, the rest less
            yield [[(a, 0.9375 if j == k else 0.125) for j in range(k + 4)] + [(b, 0.5)] * 5], 0, None
    for n in (10000, 10001):
        yield [[("C" if k % (n + 1) else "S", ((k * 37) % 100 + .5) / 100) for k in range(n + 1)]], 0, None


def body(S):
    work.S = S
    C.bounds["speakers"] = "all multisets of up to %d words over 3 outcomes and %d confidences, and deletions" % ((5, 5) if T else (4, 4))
    C.bounds["histograms"] = "every bin; every number of words to %d and around the buffer sizes" % (129 if T else 84)
    js = list(jobs())
    big = [j for j in js if sum(map(len, j[0])) > 5000]
    C.parallel(work, [[j] for j in big[::-1]] + list(chunks([j for j in js if sum(map(len, j[0])) <= 5000], 12)))
    C.bounds["systems"] = "every sequence of 2 and 3 of 6 systems, and 12 systems"
    C.parallel(several, chunks(ensembles(), 12))
    C.finish()


if __name__ == "__main__":
    mc.main(build.sclite, body)
