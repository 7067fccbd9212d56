#!/usr/bin/env python3
"""P04: ctm hypothesis words are scored against the stm segment they fall in."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, mc, netmodel as nm, sgml, trnalign as ta
from mc import Check, Fail, chunks, run_in

C = Check("P04", "exhaustive exploration of segment/word time arrangements and file/channel histories on the real sclite, against a segmentation model",
          "every arrangement of each family; families marked batched put each arrangement into a file id of its own",
          ["times are multiples of 1/8 s, exactly representable, so that the midpoint comparison has no rounding"])
T = C.thorough
SEM = ta.Sem()
IGN = "IGNORE_TIME_SEGMENT_IN_SCORING"

# seg = (spk, t1, t2, label or None, items or IGN);  word = (t1, dur, word, conf or None) or (alts,) with alts = tuple of tuples of words


def seg_line(f, c, s):
    spk, a, b, lab, items = s
    txt = items if isinstance(items, str) else nm.text(items)
    return "%s %s %s %g %g%s%s\n" % (f, c, spk, a, b, " <%s>" % lab if lab else "", " " + txt if txt else "")


def word_lines(f, c, w):
    if len(w) == 1:
        out = ["%s %s * * <ALT_BEGIN>\n" % (f, c)]
        for k, alt in enumerate(w[0]):
            if k:
                out.append("%s %s * * <ALT>\n" % (f, c))
            out += [word_lines(f, c, x) for x in alt]
        return "".join(out) + "%s %s * * <ALT_END>\n" % (f, c)
    return "%s %s %g %g %s%s\n" % (f, c, w[0], w[1], w[2], "" if w[3] is None else " %g" % w[3])


def mid(w):
    if len(w) == 1:
        return max([0] + [mid(x) for alt in w[0] for x in alt])
    return w[0] + w[1] / 2


def segment(segs, words):
    """-> [(seg, [words])]"""
    out, k = [], 0
    for i, s in enumerate(segs):
        j = k
        if i == len(segs) - 1:
            j = len(words)
        else:
            while j < len(words) and mid(words[j]) < s[2]:
                j += 1
        out.append((s, words[k:j]))
        k = j
    return out


def items(words):
    return tuple(tuple(tuple(x[2] for x in alt) or ("@",) for alt in w[0]) if len(w) == 1 else w[2] for w in words)


def flat(words):
    for w in words:
        if len(w) == 1:
            for alt in w[0]:
                for x in alt:
                    yield x
        else:
            yield w


def reduced(segs, words, mode):
    """-m: drop what lies outside the other side's time range (ignored segments etc. stay)."""
    fw = list(flat(words))
    keep = list(segs)
    if "ref" in mode and fw:
        keep = [s for s in segs if not (fw[0][0] >= s[2] or fw[-1][0] + fw[-1][1] <= s[1])]
    if "hyp" in mode:
        if not keep:
            return keep, []
        bt, et = min(s[1] for s in keep), max(s[2] for s in keep)
        words = [w for w in words if not (w[0] > et or w[0] + w[1] < bt)]
    return keep, words


def model(ref, hyp):
    """ref: [(file, chan, [segs])], hyp: [(file, chan, [words])].  -> None when the run must fail, else expected [(file, chan, seg, words)]"""
    out, h = [], 0
    for f, c, segs in ref:
        w = []
        if h < len(hyp) and hyp[h][:2] == (f, c):
            w = hyp[h][2]
            h += 1
        out += [(f, c, s, ws) for s, ws in segment(segs, w) if s[4] != IGN]
    return None if h < len(hyp) else out


def t2(w):
    return w[0] + w[1]


def cmp_path(p, f, c, s, words, seq, nid, conf, st):
    a = p.attrs
    if (a.get("file"), a.get("channel")) != (f.lower(), c.lower()):
        return "filed under file/channel %r" % ((a.get("file"), a.get("channel")),)
    if p.speaker != s[0] or a.get("id") != "(%s-%03d)" % (s[0], nid):
        return "speaker %r id %r" % (p.speaker, a.get("id"))
    if a.get("sequence") != str(seq):
        return "sequence %s, expected %d" % (a.get("sequence"), seq)
    if (a.get("R_T1"), a.get("R_T2")) != ("%.3f" % s[1], "%.3f" % s[2]):
        return "segment times %r" % ((a.get("R_T1"), a.get("R_T2")),)
    if a.get("labels", "") != ("<%s>" % s[3].lower() if s[3] else ""):
        return "labels %r" % a.get("labels")
    if a.get("word_cnt") != str(len(p.words)):
        return "word_cnt %s but %d words" % (a.get("word_cnt"), len(p.words))
    m = ta.judge(SEM, s[4], items(words), p, st)
    if m:
        return m
    if all(len(w) == 4 for w in words):
        got = [w for w in p.words if w[0] != "D"]
        if len(got) != len(words):
            return "%d hypothesis words, expected %d" % (len(got), len(words))
        for g, w in zip(got, words):
            if g[3] != "%.3f+%.3f" % (w[0], t2(w)):
                return "word %s carries times %s, input %s+%s" % (g[2], g[3], w[0], t2(w))
            if conf and (len(g) < 5 or abs(float(g[4]) - (w[3] or 0)) > 1e-6):
                return "word %s carries confidence %r, input %r" % (g[2], g[4:], w[3])
    return None


def check(what, ref, hyp, st, fails, samples, opts=(), expect=None, rhead="", hhead="", reol=True, heol=True, failok=False):
    rs = rhead + "".join(seg_line(f, c, s) for f, c, segs in ref for s in segs)
    hs = hhead + "".join(word_lines(f, c, w) for f, c, ws in hyp for w in ws)
    files = {"r.stm": rs if reol else rs[:-1], "h.ctm": hs if heol else hs[:-1]}
    cmd = [os.path.join(BIN, "sclite"), "-r", "r.stm", "stm", "-h", "h.ctm", "ctm"] + list(opts) + ["-o", "sgml", "stdout", "-f", "0"]
    rc, out, err, _ = run_in(files, cmd)
    exp = model(ref, hyp) if expect is None else expect
    st.add(traces=1, states=sum(len(r[2]) for r in ref), transitions=sum(len(h[2]) for h in hyp))

    def bad(m):
        fails.append(Fail("%s: %s" % (what, m), files=files, cmd=" ".join(cmd[1:]), key="%s|%s|%s|%s" % (what, files["r.stm"][-400:], files["h.ctm"][-400:], opts)).pack())
        return False
    if exp is None:
        if rc == 0:
            return bad("hypothesis data without reference segments was accepted")
        if not isinstance(rc, int) or rc < 0:
            return bad("sclite died (%s)" % rc)
        return True
    if rc != 0:
        return bad("sclite exited with %s: %s" % (rc, err.decode("utf-8", "replace")[-300:]))
    try:
        ps = [p for s in sgml.parse(out) for p in s.paths]
        ps.sort(key=lambda p: int(p.attrs["sequence"]))
    except Fail as f:
        return bad(f.msg)
    if len(ps) != len(exp):
        return bad("%d scored segments, expected %d" % (len(ps), len(exp)))
    conf = any(w[3] is not None for h in hyp for w in flat(h[2]))
    n = {}
    for i, (p, (f, c, s, ws)) in enumerate(zip(ps, exp)):
        nid = n.get(s[0], 0)
        n[s[0]] = nid + 1
        m = cmp_path(p, f, c, s, ws, i, nid, conf, st)
        if m:
            segs = [x for r in ref if r[:2] == (f, c) for x in r[2]]
            return bad("file %s channel %s segment %s (of %s) with words %s: %s; alignment %s" % (f, c, s, segs[:5], ws[:8], m, p.raw[:200]))
    if not samples:
        samples.append("%s: %s | %s" % (what, files["r.stm"][:150], files["h.ctm"][:150]))
    return True


# ---- families -------------------------------------------------------------

A, B, AB, Q = ("a",), ("b",), ("a", "b"), (("a", ("b", "c")),)
LAYOUTS = {
    "contiguous": [(0, 1), (1, 2), (2, 3)],
    "gaps": [(0.5, 1), (1.5, 2), (2.5, 3)],
    "overlap": [(0, 1.5), (1, 2), (1.5, 3)],
    "contained": [(0, 3), (1, 2), (2, 3)],
    "two": [(0, 1), (1, 3)],
    "one": [(1, 2)],
}
TEXTS = [(("a", "b"), ("c",), ("d", "a")), (("a",), IGN, ("b",)), ((), ("a", ("b", ("c", "d"))), ("a",))]


def segs_of(layout, texts, spk=("s1", "s2", "s1"), lab=(None, "o", "o,f0")):
    return [(spk[i], t[0], t[1], lab[i], texts[i]) for i, t in enumerate(LAYOUTS[layout])]


def streams():
    """all word streams: start times non-decreasing on the grid, durations, <= 3 words"""
    g = [0, 0.5, 0.75, 1, 1.5, 2, 2.5] if T else [0, 0.75, 1, 1.5, 2.5]
    d = [0, 0.25, 1, 2] if T else [0, 0.5, 1]
    one = [(t, x) for t in g for x in d]
    yield ()
    for n in (1, 2, 3):
        for ts in itertools.combinations_with_replacement(g, n):
            for ds in itertools.product(d, repeat=n):
                if n == 3 and not T and ds[0] != ds[1]:
                    continue
                yield tuple((t, x, "abc"[i], 0.25 * (i + 1)) for i, (t, x) in enumerate(zip(ts, ds)))


def fam_times(st=None):
    S = [w for w in streams() if w]
    C.bounds["times"] = "%d segment layouts (contiguous, gaps, overlapping, contained, short) x %d texts (ignored segments, empty text, alternations) x %d word streams of up to 3 words (starts and durations on a grid, so midpoints before, on and after every boundary)" % (len(LAYOUTS), len(TEXTS), len(S))
    for lay in LAYOUTS:
        for texts in TEXTS:
            sg = segs_of(lay, texts)
            for part in chunks(S, 400):
                yield ("times %s" % lay, [("f%05d" % i, "1", sg) for i in range(len(part))], [("f%05d" % i, "1", list(w)) for i, w in enumerate(part)])


def fam_alts():
    """hypothesis alternations: a word, an alternation, a word"""
    out = []
    g = [0.25, 0.875, 1, 1.5]
    for t1 in g:
        for t2_ in g:
            for alts in ((((t1, 0.25, "a", None),), ((t2_, 0.25, "b", None),)), (((t1, 0.25, "a", None), (t2_, 0.25, "b", None)), ()), ((), ((t1, 0.25, "a", None),)),
                         (((t1, 0.5, "b", None),), ((t1, 0.25, "c", None),), ((t2_, 0.25, "a", None), (t2_, 0.25, "c", None)))):
                for pre in ([], [(0, 0.25, "a", None)]):
                    for post in ([], [(1.5, 0.25, "c", None)], [(0.5, 0.25, "c", None)]):
                        out.append(pre + [(alts,)] + post)
    C.bounds["hypothesis alternations"] = "%d streams with one alternation x 2 layouts x 3 texts" % len(out)
    for lay in ("contiguous", "gaps"):
        for texts in TEXTS:
            for part in chunks(out, 200):
                sg = segs_of(lay, texts)
                yield ("alternations %s" % lay, [("f%05d" % i, "1", sg) for i in range(len(part))], [("f%05d" % i, "1", w) for i, w in enumerate(part)])


GR = [("f1", "A"), ("f1", "B"), ("f2", "A"), ("f2", "B")]
GS = {("f1", "A"): [("s1", 0, 1, None, ("a", "b")), ("s2", 1, 2, None, ("c",))], ("f1", "B"): [("s3", 0, 1, None, ("b",))],
      ("f2", "A"): [("s1", 0, 1, None, ("c",)), ("s1", 1, 2, None, IGN), ("s4", 2, 3, None, ("d",))], ("f2", "B"): [("s2", 0, 2, None, ())]}
GW = {("f1", "A"): [(0.25, 0.5, "a", None), (1.25, 0.5, "c", None)], ("f1", "B"): [(0.25, 0.5, "b", None)],
      ("f2", "A"): [(0.25, 0.5, "c", None), (1.25, 0.5, "q", None), (2.25, 0.5, "d", None)], ("f2", "B"): [(0.25, 0.5, "z", None)]}


def fam_groups():
    C.bounds["files and channels"] = "all ordered subsets (reference up to 4 file/channel groups, hypothesis up to 3) where each file's channels are together; final newline present or not in both files"
    def orders(k):
        for g in itertools.permutations(GR, k):
            fs = [x[0] for x in g]
            runs = [f for i, f in enumerate(fs) if i == 0 or fs[i - 1] != f]
            if len(runs) == len(set(runs)):
                yield g
    for kr in (1, 2, 3, 4):
        for r in orders(kr):
            for kh in (1, 2, 3, 4) if T else (1, 2, 3):
                for h in orders(kh):
                    yield [(f, c, GS[f, c]) for f, c in r], [(f, c, GW[f, c]) for f, c in h]


def work_groups(arg, st, fails, samples):
    for ref, hyp, r, h in arg:
        check("files and channels", ref, hyp, st, fails, samples, reol=r, heol=h)


def fam_reduce():
    C.bounds["reduction"] = "-m ref, hyp, and both, over the layouts x word streams of up to 2 words: only segments outside the hypothesis time range and words outside the reference time range are left out"
    S = [w for w in streams() if 1 <= len(w) <= 2]
    for lay in LAYOUTS:
        for texts in TEXTS[:2]:
            for mode in (("ref",), ("hyp",), ("ref", "hyp")):
                for part in chunks(S, 400):
                    yield (lay, texts, mode, part)


def work_reduce(arg, st, fails, samples):
    lay, texts, mode, part = arg
    sg = segs_of(lay, texts)
    ref, hyp, exp = [], [], []
    for i, w in enumerate(part):
        f = "f%05d" % i
        keep, ws = reduced(sg, list(w), mode)
        asg = segment_reduced(sg, keep, list(w), ws)
        ref.append((f, "1", sg))
        hyp.append((f, "1", list(w)))
        exp += [(f, "1", s, x) for s, x in asg if s[4] != IGN]
    check("reduction %s %s" % (lay, "+".join(mode)), ref, hyp, st, fails, samples, opts=("-m",) + mode, expect=exp)


def segment_reduced(segs, keep, words, kept):
    """Each kept word goes to the first kept segment ending after its midpoint, or the last kept one."""
    out, k = [], 0
    for i, s in enumerate(keep):
        j = k
        if i == len(keep) - 1:
            j = len(words)
        else:
            while j < len(words) and mid(words[j]) < s[2]:
                j += 1
        out.append((s, [w for w in words[k:j] if w in kept]))
        k = j
    return out


def fam_sizes():
    ns = [1, 2, 197, 198, 199, 200, 201, 202, 399, 400, 401, 402, 801]
    nw = [1, 4997, 4998, 4999, 5000, 5001, 5002, 6498, 6499, 6500, 6501]
    C.bounds["sizes"] = "segments per file %s (reader's table is 200), words per file %s (reader's table is 5000), each alone and after/before a small file" % (ns, nw)
    for n in ns:
        for pos in (0, 1, 2, 3):
            yield ("segs", n, pos)
    for n in nw:
        for pos in (0, 1, 2, 3):
            yield ("words", n, pos)


def work_sizes(arg, st, fails, samples):
    kind, n, pos = arg
    small = [("s9", 0, 1, None, ("a",))]
    sw = [(0, 0.5, "a", None)]
    if kind == "segs":
        segs = [("s%d" % (i % 5), i, i + 1, None, (("a", "b", "c")[i % 3],)) for i in range(n)]
        words = [(i, 0.5, ("a", "b", "d")[i % 3], None) for i in range(n)]
    else:
        k = 1 + n // 5
        segs = [("s%d" % (i % 5), i * 5, i * 5 + 5, None, ("a", "b")) for i in range(k)]
        words = [(i, 0.5, ("a", "b", "d")[i % 3], None) for i in range(n)]
    ref, hyp = [("big", "1", segs)], [("big", "1", words)]
    if pos & 1:
        ref, hyp = [("sm0", "1", small), ("sm0", "2", small)] + ref, [("sm0", "1", sw), ("sm0", "2", sw)] + hyp
    if pos & 2:
        ref, hyp = ref + [("sm1", "1", small), ("sm1", "2", small)], hyp + [("sm1", "1", sw), ("sm1", "2", sw)]
    check("sizes %s=%d pos=%d" % arg, ref, hyp, st, fails, samples)


def fam_comments():
    C.bounds["comments"] = "comment, label-definition and (stm) blank lines at the head and between records"
    for rh in ("", ";; a comment\n", ';; LABEL "o" "Overall" "all"\n\n', "\n;;\n", ";; x\n;; y\n"):
        for hh in ("", ";; a comment\n", ';; LABEL "o" "Overall" "all"\n'):
            yield rh, hh


def work_comments(arg, st, fails, samples):
    rh, hh = arg
    r, h = GR, GR
    check("comments", [(f, c, GS[f, c]) for f, c in r], [(f, c, GW[f, c]) for f, c in h], st, fails, samples, rhead=rh, hhead=hh)


def work_batch(arg, st, fails, samples):
    what, ref, hyp = arg
    f0 = []
    if not check(what, ref, hyp, st, f0, samples):
        st.add(traces=len(ref))
        small = 0
        for r, h in zip(ref, hyp):
            f1 = []
            if not check(what, [r], [h], mc.Stats(), f1, []):
                fails.extend(f1)
                small += 1
                if small >= 2:
                    break
        if not small:
            fails.extend(f0)
    st.add(traces=len(ref) - 1)


def body(b):
    global BIN
    BIN = b
    C.parallel(work_batch, itertools.chain(fam_times(), fam_alts()))
    def eols():
        for i, (r, h) in enumerate(fam_groups()):
            for e in ((1, 1), (0, 0), (0, 1), (1, 0)) if (T or i % 5 == 0) else ((1, 1), (0, 0)):
                yield r, h, bool(e[0]), bool(e[1])
    C.parallel(work_groups, chunks(eols(), 50))
    C.parallel(work_reduce, fam_reduce())
    C.parallel(work_sizes, fam_sizes())
    C.parallel(work_comments, fam_comments())
    C.finish()


if __name__ == "__main__":
    mc.main(build.sclite, body)
