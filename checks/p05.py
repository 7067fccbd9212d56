#!/usr/bin/env python3
"""P05: ctm against ctm: every word once, in order; -T alignments of least time cost."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, mc, sgml, netmodel as nm, trnalign as ta
from mc import Check, Fail, chunks, run_in

C = Check("P05", "exhaustive exploration of pairs of timed word streams and file/channel histories on the real sclite, against an order-and-cost model",
          "every pair of each family; batched families give each pair a file id of its own",
          ["times are multiples of 1/8 s; words of a channel are given in time order, as the ctm format requires"])
T = C.thorough
SEM = ta.Sem()

# group = (file, chan, [word]); word = (t1, dur, text, conf or None)  or  ((alt, alt..),) as in p04


def lines(groups, conf):
    out = []
    for f, c, ws in groups:
        for w in ws:
            if len(w) == 1:
                out.append("%s %s * * <ALT_BEGIN>" % (f, c))
                for k, alt in enumerate(w[0]):
                    if k:
                        out.append("%s %s * * <ALT>" % (f, c))
                    for x in alt:
                        out.append("%s %s %g %g %s" % (f, c, x[0], x[1], x[2]))
                out.append("%s %s * * <ALT_END>" % (f, c))
            else:
                out.append("%s %s %g %g %s%s" % (f, c, w[0], w[1], w[2], " %g" % w[3] if conf else ""))
    return "".join(x + "\n" for x in out)


def model(ref, hyp):
    """Groups are paired in order; every file must have the same number of channels on both sides."""
    if len(ref) != len(hyp) or [g[0] for g in ref] != [g[0] for g in hyp]:
        return None
    return list(zip(ref, hyp))


def tcost_pair(r, h):
    return abs(r[0] - h[0]) + abs(r[0] + r[1] - h[0] - h[1]) + (0 if r[2].lower() == h[2].lower() else 0.001)


def tbest(R, H, st):
    n = len(H)
    prev = [0.0] * (n + 1)
    for j in range(n):
        prev[j + 1] = prev[j] + H[j][1]
    for r in R:
        cur = [prev[0] + r[1]]
        for j in range(n):
            h = H[j]
            cur.append(min(prev[j] + tcost_pair(r, h), prev[j + 1] + r[1], cur[j] + h[1]))
        prev = cur
    st.add(states=(len(R) + 1) * (n + 1), transitions=3 * len(R) * n + len(R) + n)
    return prev[n]


def items(words):
    return tuple(tuple(tuple(x[2] for x in alt) or ("@",) for alt in w[0]) if len(w) == 1 else w[2] for w in words)


def tm(w):
    return "%.3f+%.3f" % (w[0], w[0] + w[1])


def common_gap(R, H, r, h):
    """Is there a moment at which neither stream has a word, between words r-1 and r of R, h-1 and h of H?"""
    a = max(R[r - 1][0] + R[r - 1][1], H[h - 1][0] + H[h - 1][1])
    b = min(R[r][0] if r < len(R) else 1e9, H[h][0] if h < len(H) else 1e9)
    return a <= b + 1e-9


def cut_wrong(R, H, start, r, h):
    """A channel is cut at a silence both streams share, if there is one among the next 50 words."""
    r0, h0 = start
    if r > r0 and h > h0 and common_gap(R, H, r, h):
        return None
    for x in range(r0 + 2, min(r0 + 50, len(R)) + 1):
        for y in range(h0 + 2, min(h0 + 50, len(H)) + 1):
            if (x < len(R) or y < len(H)) and common_gap(R, H, x, y):
                return "not a common silence, while there is one at reference word %d, hypothesis word %d" % (x, y)
    return None


def whole_alts(R, H, paths):
    """A long channel with alternations: each chunk takes up whole words and whole alternations, each through one alternative."""
    at, hi = {0}, 0
    for k, p in enumerate(paths):
        seq = [w[1] for w in p.words if w[0] != "I" and w[1] not in ("", "@")]
        cur = {(i, 0) for i in at}
        todo = list(cur)
        while todo:
            i, q = todo.pop()
            if i < len(R):
                for alt in (R[i][0] if len(R[i]) == 1 else ((R[i],),)):
                    ws = [x[2].lower() for x in alt]
                    if seq[q:q + len(ws)] == ws and (i + 1, q + len(ws)) not in cur:
                        cur.add((i + 1, q + len(ws)))
                        todo.append((i + 1, q + len(ws)))
        at = {i for i, q in cur if q == len(seq)}
        if not at:
            return "the reference words %s of chunk %d are no sequence of whole words and alternatives" % (" ".join(seq), k)
        for w in p.words:
            if w[0] != "D" and w[2] not in ("", "@"):
                if hi >= len(H) or w[2] != H[hi][2].lower() or w[4] != tm(H[hi]):
                    return "hypothesis word %d is %r" % (hi, w)
                hi += 1
    if len(R) not in at or hi != len(H):
        return "aligned %s of %d reference items and %d of %d hypothesis words" % (sorted(at), len(R), hi, len(H))
    return None


def cmp_group(rg, hg, paths, conf, timed, st):
    R, H = list(rg[2]), list(hg[2])
    base = "%s-%s" % (rg[0].lower(), rg[1].lower())
    alts = any(len(w) == 1 for w in R)
    if alts and len(R) > 20:
        return whole_alts(R, H, paths)
    if alts and timed:
        return None if len(paths) == 1 else "%d alignments for one short channel" % len(paths)
    if alts:
        if len(paths) != 1:
            return "%d alignments for one short channel" % len(paths)
        return ta.judge(SEM, items(R), items(H), paths[0], st)
    ri = hi = 0
    for k, p in enumerate(paths):
        if k:
            bad = cut_wrong(R, H, cuts, ri, hi)
            if bad:
                return "chunk %d begins at reference word %d, hypothesis word %d: %s" % (k, ri, hi, bad)
        cuts = (ri, hi)
        if p.speaker != base or p.attrs.get("id") != "(%s-%04d)" % (base, k):
            return "speaker %r id %r, expected %s chunk %d" % (p.speaker, p.attrs.get("id"), base, k)
        if (p.attrs.get("file"), p.attrs.get("channel")) != (rg[0].lower(), rg[1].lower()):
            return "filed under %r" % ((p.attrs.get("file"), p.attrs.get("channel")),)
        cr, chh, cost = [], [], 0.0
        for w in p.words:
            if w[0] != "I":
                if ri >= len(R):
                    return "more reference words than the input has"
                x = R[ri]
                if w[1] != x[2].lower() or w[3] != tm(x) or (conf and abs(float(w[5]) - x[3]) > 1e-6):
                    return "reference word %d is %r, input %r" % (ri, w, x)
                ri += 1
                cr.append(x)
            if w[0] != "D":
                if hi >= len(H):
                    return "more hypothesis words than the input has"
                y = H[hi]
                if w[2] != y[2].lower() or w[4] != tm(y) or (conf and abs(float(w[6]) - y[3]) > 1e-6):
                    return "hypothesis word %d is %r, input %r" % (hi, w, y)
                hi += 1
                chh.append(y)
            if w[0] in "CS":
                if (x[2].lower() == y[2].lower()) != (w[0] == "C"):
                    return "%r scored %s" % ((x[2], y[2]), w[0])
                cost += tcost_pair(x, y) if timed else SEM.subc(x[2].lower(), y[2].lower())
            elif w[0] == "D":
                cost += x[1] if timed else 3
            elif w[0] == "I":
                cost += y[1] if timed else 3
            else:
                return "label %r" % w[0]
        if timed:
            best = tbest(cr, chh, st)
            if abs(cost - best) > 4e-4:
                return "chunk %d costs %.3f, the least possible is %.3f: %s" % (k, cost, best, p.raw[:300])
        else:
            best = ta.lin_cost([x[2].lower() for x in cr], [y[2].lower() for y in chh], SEM)
            st.add(states=len(cr) * len(chh), transitions=3 * len(cr) * len(chh))
            if cost != best:
                return "chunk %d costs %s, the least possible is %s: %s" % (k, cost, best, p.raw[:300])
    if ri != len(R) or hi != len(H):
        return "aligned %d of %d reference and %d of %d hypothesis words" % (ri, len(R), hi, len(H))
    if len(R) <= 50 and len(H) <= 50 and len(paths) != 1:
        return "a short channel was split into %d alignments" % len(paths)
    return None


def check(what, ref, hyp, timed, st, fails, samples, conf=False, eol=True):
    files = {"r.ctm": lines(ref, conf), "h.ctm": lines(hyp, conf)}
    if not eol:
        files = {k: v[:-1] for k, v in files.items()}
    cmd = [os.path.join(BIN, "sclite")] + (["-T"] if timed else []) + ["-r", "r.ctm", "ctm", "-h", "h.ctm", "ctm", "-o", "sgml", "stdout", "-f", "0"]
    rc, out, err, _ = run_in(files, cmd)
    st.add(traces=len(ref), states=len(ref), transitions=sum(len(g[2]) for g in ref + hyp))
    exp = model(ref, hyp)

    def bad(m):
        fails.append(Fail("%s%s: %s" % (what, " -T" if timed else "", m), files=files, cmd=" ".join(cmd[1:]), key="%s|%s|%s|%s" % (what, files["r.ctm"][-400:], files["h.ctm"][-400:], timed)).pack())
        return False
    if exp is None:
        if rc == 0:
            return bad("files that do not correspond were scored")
        if not isinstance(rc, int) or rc < 0:
            return bad("sclite died (%s)" % rc)
        return True
    if rc != 0:
        return bad("sclite exited with %s: %s" % (rc, err.decode("utf-8", "replace")[-300:]))
    try:
        ps = [p for s in sgml.parse(out) for p in s.paths]
    except Fail as f:
        return bad(f.msg)
    ps.sort(key=lambda p: int(p.attrs["sequence"]))
    runs = []
    for p in ps:
        k = (p.attrs.get("file"), p.attrs.get("channel"))
        if runs and runs[-1][0] == k:
            runs[-1][1].append(p)
        else:
            runs.append((k, [p]))
    if [r[0] for r in runs] != [(g[0].lower(), g[1].lower()) for g, _ in exp]:
        return bad("aligned %r, expected %r" % ([r[0] for r in runs][:8], [(g[0], g[1]) for g, _ in exp][:8]))
    for (rg, hg), (_, paths) in zip(exp, runs):
        m = cmp_group(rg, hg, paths, conf, timed, st)
        if m:
            return bad("file %s channel %s: %s; reference %s hypothesis %s" % (rg[0], rg[1], m, rg[2][:6], hg[2][:6]))
    if not samples:
        samples.append("%s: %r | %r" % (what, files["r.ctm"][:120], files["h.ctm"][:120]))
    return True


def work_batch(arg, st, fails, samples):
    what, pairs, timed, conf = arg
    ref = [("f%05d" % i, "1", list(r)) for i, (r, h) in enumerate(pairs)]
    hyp = [("f%05d" % i, "1", list(h)) for i, (r, h) in enumerate(pairs)]
    f0 = []
    if not check(what, ref, hyp, timed, st, f0, samples, conf=conf):
        n = 0
        for r, h in zip(ref, hyp):
            f1 = []
            if not check(what, [r], [h], timed, mc.Stats(), f1, [], conf=conf):
                fails.extend(f1)
                n += 1
                if n >= 2:
                    break
        if not n:
            fails.extend(f0)


def streams(maxn, grid, durs, words):
    for n in range(1, maxn + 1):
        for ts in itertools.combinations_with_replacement(grid, n):
            for ds in itertools.product(durs, repeat=n):
                if any(ts[i] + ds[i] > ts[i + 1] + 0.75 for i in range(n - 1)):
                    continue
                for ws in itertools.product(words, repeat=n):
                    yield tuple((t, d, w, 0.5) for t, d, w in zip(ts, ds, ws))


def fam_small():
    grid = [0, 0.5, 1.25, 2] if not T else [0, 0.5, 1.25, 2, 2.5]
    S = list(streams(2, grid, [0.25, 1], "ab"))
    L = list(streams(3, [0, 0.5, 1.25], [0.5], "ab"))
    C.bounds["small"] = "all pairs of %d streams of up to 2 words, and all pairs of %d streams of up to 3 words, with and without -T" % (len(S), len(L))
    F = list(streams(2, [1.0, 1.03, 1.07, 1.5], [0.4, 0.44], "ab"))
    F = [f for f in F if len(f) == 1 or f[0][0] < f[1][0]]
    C.bounds["fine"] = "all pairs of %d streams with start times and durations a few hundredths of a second apart, -T" % len(F)
    for part in chunks(itertools.product(F, F), 1500):
        yield ("fine", part, True, False)
    for timed in (False, True):
        for A in (S, L):
            for part in chunks(itertools.product(A, A), 1500):
                yield ("small", part, timed, False)


def fam_groups():
    W = {(f, c): [(0.25 + i, 0.5, "ab"[i % 2], 0.5) for i in range(n)] for f, c, n in
         (("f1", "A", 1), ("f1", "B", 1), ("f1", "C", 1), ("f2", "A", 2), ("f2", "B", 1), ("f3", "A", 1))}
    V = {k: v + [(9, 0.5, "z", 0.25)] if k[1] != "B" else v for k, v in W.items()}
    keys = list(W)
    C.bounds["files and channels"] = "all pairs of the in-order subsets of 6 file/channel groups (3 files, up to 3 channels, groups down to one word), final newline present or not"
    subs = [s for n in range(1, 7) for s in itertools.combinations(keys, n)]
    for r in subs:
        for h in subs:
            if [k[0] for k in r] == [k[0] for k in h] and r != h:
                continue    # same files and number of channels under other channel names: not specified
            ref = [(f, c, W[f, c]) for f, c in r]
            hyp = [(f, c, V[f, c]) for f, c in h]
            # the model: per file, the k-th channel of one side goes with the k-th of the other
            yield ref, hyp


def work_groups(arg, st, fails, samples):
    for i, (ref, hyp) in enumerate(arg):
        check("files and channels", ref, hyp, bool(i & 1), st, fails, samples, conf=True, eol=bool(i % 3))


def fam_chunks():
    """long channels: the reader splits a channel into chunks of about 50 words"""
    ns = [1, 49, 50, 51, 52, 99, 100, 101, 102, 151, 203] if not T else list(range(1, 8)) + list(range(46, 56)) + list(range(96, 106)) + [151, 203, 405]
    gaps = [0, 0.5]
    C.bounds["chunks"] = "reference x hypothesis lengths in %s, contiguous words or words with silence, hypothesis shifted by 0, 0.125, 0.5 or 3 s" % ns
    for rn in ns:
        for hn in ns:
            for g in gaps:
                for sh in (0, 0.125, 0.5, 3):
                    yield rn, hn, g, sh


def work_chunks(arg, st, fails, samples):
    for rn, hn, g, sh in arg:
        R = [(i * (0.5 + g), 0.5, "ab"[i % 2], 0.5) for i in range(rn)]
        H = [(i * (0.5 + g) + sh, 0.5, "ab"[(i // 3) % 2], 0.5) for i in range(hn)]
        for timed in (False, True):
            for tail in (False, True):
                ref, hyp = [("f1", "A", R)], [("f1", "A", H)]
                if tail:
                    ref = ref + [("f1", "B", [(0, 1, "x", 0.5)]), ("f2", "A", [(0, 1, "x", 0.5)])]
                    hyp = hyp + [("f1", "B", [(0, 1, "y", 0.5)]), ("f2", "A", [(0, 1, "x", 0.5)])]
                check("chunks %d/%d" % (rn, hn), ref, hyp, timed, st, fails, samples)


def fam_silence():
    """contiguous speech with a pause every few words, the hypothesis with words lost, added or delayed"""
    C.bounds["pauses"] = "channels of 60 to 130 words in runs of 3, 7, 20 or 45 words separated by pauses; hypothesis delayed by up to 0.375 s, with every 4th, 9th or no word missing and extra words in every 2nd, 5th or no pause"
    for run in (3, 7, 20, 45):
        for n in (60, 130) if not T else (55, 60, 77, 101, 130, 180):
            for sh in (0, 0.125, 0.375):
                for drop in (0, 4, 9):
                    for add in (0, 2, 5):
                        yield run, n, sh, drop, add


def work_silence(arg, st, fails, samples):
    for run, n, sh, drop, add in arg:
        R, H, t, k = [], [], 0.0, 0
        for i in range(n):
            if i and i % run == 0:
                k += 1
                if add and k % add == 0:
                    H.append((t + 0.5, 0.25, "x", 0.5))
                t += 1.5 + (i % 4) * 0.25
            w = (t, 0.5 if i % 3 else 0.25, "abcd"[i % 4], 0.5)
            R.append(w)
            if not drop or i % drop:
                H.append((t + sh, w[1], w[2] if i % 11 else "y", 0.5))
            t += w[1]
        H.sort()
        for timed in (False, True):
            for a, b in ((R, H), (H, R)):
                check("pauses %s" % ((run, n, sh, drop, add),), [("f1", "A", a)], [("f1", "A", b)], timed, st, fails, samples)


def fam_longalts():
    C.bounds["long alternations"] = "channels of 60 to 130 words, an alternation in place of every 2nd, 3rd or 7th word (every offset), pauses every 3 or 10 words or none, hypothesis with words lost or delayed"
    for n in (60, 130):
        for every in (2, 3, 7):
            for off in range(every):
                for run in (0, 3, 10):
                    for drop in (0, 2, 5, 9):
                        for sh in (0, 0.25, 0.375):
                            yield n, every, off, run, drop, sh


def work_longalts(arg, st, fails, samples):
    for n, every, off, run, drop, sh in arg:
        R, H, t = [], [], 0.0
        for i in range(n):
            if run and i % run == 0:
                t += 1
            w = (t, 0.5, "abcd"[i % 4], 0.5)
            if i % every == off:
                k = i // every
                R.append((((w,), ((t, 0.25, "p", 0), (t + 0.25, 0.25, "q", 0)), ((t, 0.5, "r", 0),) if k % 2 else ()),))
            else:
                R.append(w)
            if not drop or i % drop:
                if i % every == off and i % 4 == 0:
                    H += [(t + sh, 0.25, "p", 0.5), (t + sh + 0.25, 0.25, "q", 0.5)]
                else:
                    H.append((t + sh, 0.5, w[2], 0.5))
            t += 0.5
        for timed in (False, True):
            check("long alternations %s" % ((n, every, off, run, drop, sh),), [("f1", "A", R), ("f2", "A", [(0, 1, "x", 0.5)])], [("f1", "A", H), ("f2", "A", [(0, 1, "x", 0.5)])], timed, st, fails, samples)


def fam_names():
    ns = [1, 80, 86, 87, 88, 89, 90, 91, 99, 100, 101, 199, 200, 255, 256, 257, 400]
    C.bounds["names"] = "file and channel names of lengths %s, words of the same lengths" % ns
    for n in ns:
        for m in (1, 2, 50, 100):
            yield n, m


def work_names(arg, st, fails, samples):
    for n, m in arg:
        f, c = ("n%d" % n * n)[:n], ("C" + "k" * m)[:m]
        R = [(0, 0.5, "a", 0.5), (1, 0.5, "b", 0.5), (2, 0.5, "w" * n, 0.5)]
        H = [(0, 0.5, "a", 0.5), (1, 0.5, "c" * n, 0.5), (2, 0.5, "w" * n, 0.5)]
        for timed in (False, True):
            check("names of %d and %d characters" % (n, m), [(f, c, R), (f, c + "2", R[:1])], [(f, c, H), (f, c + "2", H[:1])], timed, st, fails, samples)


def fam_alts():
    C.bounds["alternations"] = "reference streams word? alternation word? with one- and two-word and empty alternatives, against all hypotheses of up to 3 words over {a,b,c}"
    A = [("a", 0), ("b", 0.5)]
    alt = [(), ((0, 0.25, "a", 0),), ((0, 0.25, "b", 0),), ((0, 0.25, "b", 0), (0.25, 0.25, "c", 0))]
    refs = []
    for k in (2, 3):
        for al in itertools.permutations(alt, k):
            for pre in ([], [(0, 0.25, "c", 0)]):
                for post in ([], [(2, 0.25, "a", 0)]):
                    refs.append(tuple(pre + [(tuple(al),)] + post))
    hyps = [tuple((i, 0.5, w, 0) for i, w in enumerate(ws)) for n in (1, 2, 3) for ws in itertools.product("abc", repeat=n)]
    for part in chunks(itertools.product(refs, hyps), 1000):
        yield ("alternations", part, False, False)
    null = (((), ((0, 0.25, "a", 0),)),)
    yield ("null words", [(((null,)[0],), ((null,)[0],))], True, False)
    yield ("null words", [(((null,)[0],), ((null,)[0],))], False, False)


def body(b):
    global BIN
    BIN = b
    C.parallel(work_batch, itertools.chain(fam_small(), fam_alts()))
    C.parallel(work_groups, chunks(fam_groups(), 60))
    C.parallel(work_silence, chunks(fam_silence(), 8))
    C.parallel(work_names, chunks(fam_names(), 8))
    C.parallel(work_longalts, chunks(fam_longalts(), 12))
    C.parallel(work_chunks, chunks(fam_chunks(), 4))
    C.finish()


if __name__ == "__main__":
    mc.main(build.sclite, body)
