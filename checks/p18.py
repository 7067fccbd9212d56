#!/usr/bin/env python3
"""P18: asclite's segmentation, gaps and evaluation regions: every word inside is scored once, no word outside is."""
import itertools, os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import asc, build, mc
from asc import Opts
from mc import Check, Fail, chunks, newdir

C = Check("P18", "exhaustive exploration of all small arrangements of reference segments, system words and evaluation regions on a time grid on the real asclite; every word of the output is traced back to the group of segments or the gap that the model says it belongs to",
          "every arrangement within the bounds is one case; each group's alignment is also compared with the least cost of aligning exactly the words of that group",
          ["the segments of a speaker do not overlap each other, files are in time order per file and channel", "a file and channel with system words has reference segments (asclite refuses it otherwise)", "evaluation regions of a file do not overlap"])
T = C.thorough
IGN = "IGNORE_TIME_SEGMENT_IN_SCORING"
ISG = "inter_segment_gap"


def comps(refs):
    """Reference segments [(t1, t2, spkr, text)] -> groups joined by overlap: [(t1, t2, [segments])]."""
    out = []
    for s in sorted(refs, key=lambda x: x[:2]):
        if out and s[0] < out[-1][1]:
            out[-1] = (out[-1][0], max(out[-1][1], s[1]), out[-1][2] + [s])
        else:
            out.append((s[0], s[1], [s]))
    return out


def gaps(groups, regions):
    out = []
    for a, b in sorted(regions):
        t = a
        for g in groups:
            if g[1] <= a or g[0] >= b:
                continue
            if g[0] > t:
                out.append((t, g[0]))
            t = max(t, g[1])
        if t < b:
            out.append((t, b))
    return out


def inside(s, regions):
    return any(a <= s[0] and s[1] <= b for a, b in regions)


def crossing(refs, uem):
    return any(not inside(s, uem) and any(s[0] < b and a < s[1] for a, b in uem) for s in refs)


def expect(case, isg, uopt, nh):
    """-> [(t1, t2, refs of the group, system words of it per stream)], known finding?"""
    refs, streams, uem = case["refs"], case["streams"], case["uem"] or []
    if uopt in ("ref", "both"):
        refs = [s for s in refs if inside(s, uem)]
    if uopt in ("hyp", "both"):
        streams = [[w for w in ws if any(a <= (w[1] + w[2]) // 2 <= b for a, b in uem)] for ws in streams]
    groups = comps(refs)
    out = [(a, b, sorted({s[2] for s in ss}), ss) for a, b, ss in groups]
    lost = False
    if isg and groups:
        if uopt:
            rg = uem
        else:
            ts = [t for w in case["all"] for t in w[1:3]]
            rg = [(min(ts + [g[0] for g in groups]), max(ts + [g[1] for g in groups]))] if ts else []
            lost = bool(ts) and nh % 2 == 0
        if not lost:
            out += [(a, b, [ISG], [(a, b, ISG, [])]) for a, b in gaps(groups, rg)]
    res = []
    for a, b, sp, ss in sorted(out, key=lambda x: x[:2]):
        if any(s[3] == IGN for s in ss):
            continue
        hy = [[w for w in ws if a <= (w[1] + w[2]) // 2 < b] for ws in streams]
        res.append((a, b, [(s, [(x[0], x[1], x[3]) for x in sorted(ss, key=lambda z: z[:2]) if x[2] == s]) for s in sp], hy))
    return res, lost


FM = ["%.3f", "%.2f", "%g"]


def num(t, k):
    return FM[k % 3 if t % 10 == 0 else 0] % (t / 1000)


def files_of(cases, fmt, nsys, deco):
    stm, h = [], [[] for _ in range(nsys)]
    names = deco.get("names", ("f%03d", "1", "%s"))
    for n, c in enumerate(cases):
        for q, (a, b, s, x) in enumerate(sorted(c["refs"], key=lambda z: z[:3])):
            stm.append("%s %s %s %s %s %s%s" % (c["file"], c["ch"], s, num(a, q + n), num(b, q + n), deco.get("label", ""), x if x == IGN else asc.render(x)))
            if deco.get("noise") and q % 2 == 0:
                stm.append(["", ";; a comment", " "][(q + n) % 3])
        for y in range(nsys):
            if fmt == "ctm":
                for q, (w, a, b, op) in enumerate(c["sys"][y][0]):
                    h[y].append("%s %s %s %s %s" % (c["file"], c["ch"], num(a, q), num(b - a, q), w))
                    if deco.get("noise") and q % 3 == 1:
                        h[y].append(["", ";; a comment", " "][(q + n) % 3])
            else:
                for a, b, w, op, k in sorted((a, b, w, op, k) for k, ws in enumerate(c["sys"][y]) for w, a, b, op in ws):
                    h[y].append("LEXEME %s %s %s %s %s lex %s <NA>" % (c["file"], c["ch"], num(a, k), num(b - a, k), w, "XYZ"[k]))
    f = {"r.stm": "\n".join(stm) + "\n"}
    for y in range(nsys):
        f["h%d.%s" % (y, fmt)] = "\n".join(h[y]) + "\n"
    u = ["%s %s %s %s" % (c["file"], c["ch"], num(a, k), num(b, k)) for c in cases for k, (a, b) in enumerate(c["uem"] or [])]
    if u:
        f["u.uem"] = ";; regions\n" + "\n".join(u) + "\n"
    return f


def work(arg, st, fails, samples):
    fmt, cases, isg, uopt, deco = arg
    nsys = len(cases[0]["sys"])
    for c in cases:
        c["all"] = [w for y in c["sys"] for ws in y for w in ws]
    d = newdir()
    files = files_of(cases, fmt, nsys, deco)
    for k, x in files.items():
        open(os.path.join(d, k), "w").write(x)
    cmd = ["-r", "r.stm", "stm"] + sum([["-h", "h%d.%s" % (y, fmt), fmt] for y in range(nsys)], []) + ["-f", "0", "-o", "sgml", "stdout"] + ([] if isg else ["-noisg"])
    if uopt:
        cmd += ["-uem", "u.uem", uopt]
    o, known = Opts(), False
    try:
        rc, out, err = mc.run([work.S + "/asclite"] + cmd, cwd=d, env={"ASAN_OPTIONS": "detect_leaks=0"}, timeout=120)
        cross = uopt in ("ref", "both") and any(crossing(c["refs"], c["uem"] or []) for c in cases)
        if cross:
            if rc == 0 or rc == "timeout" or rc < 0 or b"<PATH" in out or b"AddressSan" in err:
                raise Fail("a reference segment crosses the bounds of a region; asclite ended with %s: %r" % (rc, (out + err)[-300:]))
            st.add(states=1, transitions=1, traces=1)
            return
        if rc != 0:
            raise Fail("asclite ended with %s: %r" % (rc, (out + err)[-400:]))
        sy = asc.parse_sgml(out.decode("utf-8", "replace"))
        if [s["title"] for s in sy] != ["h%d.%s" % (y, fmt) for y in range(nsys)]:
            raise Fail("systems in the output: %r" % [s["title"] for s in sy])
        for y, s in enumerate(sy):
            per = {}
            for p in s["paths"]:
                per.setdefault((p["file"], p["channel"]), []).append(p)
            for c in cases:
                c["streams"] = c["sys"][y]
                paths = per.pop((c["file"], c["ch"]), [])
                try:
                    one(c, paths, isg, uopt, o, fmt, st)
                except Fail as x:
                    x.files = files_of([c], fmt, nsys, deco)
                    x.cmd = "asclite " + " ".join(cmd)
                    if x.key:
                        if not known:
                            known = True
                            fails.append(x.pack())
                        continue
                    raise
            if per:
                raise Fail("paths of files and channels that are not in the reference: %r" % sorted(per))
    except Fail as x:
        if not x.files:
            x.files, x.cmd = files, "asclite " + " ".join(cmd)
        fails.append(x.pack())
    finally:
        shutil.rmtree(d, ignore_errors=True)


def one(c, paths, isg, uopt, o, fmt, st):
    exp, lost = expect(c, isg, uopt, len(c["all"]))
    if lost and any(p["spkr"] == ISG for p in paths):      # the gaps are there after all
        exp, _ = expect(c, isg, uopt, 1)
        lost = False
    left = list(paths)
    n = 0
    for a, b, refs, hyps in exp:
        mine = [p for p in left if any((s, x[0], x[1]) == (p["spkr"], asc.ms(p["t1"]), asc.ms(p["t2"])) for s, ss in refs for x in ss)]
        left = [p for p in left if p not in mine]
        m = asc.Model(refs, [("" if fmt == "ctm" else "XYZ"[k], ws) for k, ws in enumerate(hyps) if ws], o)
        if refs[0][0] == ISG and not mine and not any(hyps):
            continue
        try:
            n += asc.check_group(m, mine)
        except Fail as x:
            raise Fail("group %d-%d: %s" % (a, b, x.msg))
        st.add(states=m.n)
    if left:
        raise Fail("segments scored that should not be: %r" % [(p["spkr"], p["t1"], p["t2"]) for p in left])
    st.add(transitions=n, traces=1)
    if lost:
        full, _ = expect(c, isg, uopt, 1)
        if any(any(h) for a, b, refs, h in full if refs[0][0] == ISG):
            raise Fail("%d system words in the file: those between the reference segments are not scored" % len(c["all"]), key="even number of system words")


def work_alt(arg, st, fails, samples):
    """Alternations in the system output, some items of it outside the regions. items: word or [alternative, ...]; gone: places removed."""
    cases = arg
    d = newdir()
    files = {"r.stm": "", "h.ctm": "", "u.uem": ""}
    exps = {}
    for n, (ref, items, gone) in enumerate(cases):
        f = "f%03d" % n
        files["r.stm"] += "%s 1 S 0 9 %s\n" % (f, " ".join(ref))
        ex = [[]]
        for k, x in enumerate(items):
            t = 1000 * k + 100
            alts = [[x]] if isinstance(x, str) else x
            new = []
            L = []
            for j, al in enumerate(alts):
                q = [(y, t + 200 * i + j, t + 200 * i + j + 90, False) for i, y in enumerate(al)]
                L += ["%s 1 * * <ALT>" % f] * (j > 0) + ["%s 1 %.3f 0.090 %s" % (f, w[1] / 1000, w[0]) for w in q]
                new.append(q)
            if not isinstance(x, str):
                L = ["%s 1 * * <ALT_BEGIN>" % f] + L + ["%s 1 * * <ALT_END>" % f]
            files["h.ctm"] += "\n".join(L) + "\n"
            if k not in gone:
                ex = [e + q for e in ex for q in new]
                files["u.uem"] += "%s 1 %d %d\n" % (f, k, k + 1)
        exps[f] = (ref, ex)
    for k, x in files.items():
        open(os.path.join(d, k), "w").write(x)
    cmd = ["-r", "r.stm", "stm", "-h", "h.ctm", "ctm", "-noisg", "-f", "0", "-o", "sgml", "stdout", "-uem", "u.uem", "hyp"]
    try:
        rc, out, err = mc.run([work.S + "/asclite"] + cmd, cwd=d, env={"ASAN_OPTIONS": "detect_leaks=0"}, timeout=120)
        if rc != 0:
            raise Fail("asclite ended with %s: %r" % (rc, (out + err)[-400:]))
        (sy,) = asc.parse_sgml(out.decode("utf-8", "replace"))
        for f, (ref, ex) in exps.items():
            paths = [p for p in sy["paths"] if p["file"] == f]
            ms = [asc.Model([("S", [(0, 9000, list(ref))])], [("", e)] if e else [], Opts()) for e in ex]
            b = min(m.best() for m in ms)
            u = asc.used_times(paths)
            fit = [m for m, e in zip(ms, ex) if {w[1:3] for w in e} == u]
            if not fit:
                raise Fail("%s: system words used at %r are none of the alternatives %r" % (f, sorted(u), ex))
            try:
                st.add(states=fit[0].n, transitions=asc.check_group(fit[0], paths, b), traces=1)
            except Fail as x:
                raise Fail("%s: %s" % (f, x.msg))
    except Fail as x:
        x.files, x.cmd = files, "asclite " + " ".join(cmd)
        fails.append(x.pack())
    finally:
        shutil.rmtree(d, ignore_errors=True)


def jobs_alt():
    A, B = [["b"], ["a"]], [["a", "b"], ["c"], ["b", "c"]]
    hyps = [(x, y, z) for x, y, z in itertools.product(("a", A, B), ("b", A, B), ("c", A, B)) if not all(isinstance(q, str) for q in (x, y, z))]
    refs = [r for n in (1, 2, 3) for r in itertools.product("abc", repeat=n)]
    cs = [(r, h, g) for h in hyps for r in refs[:: 1 if T else 3] for g in ((), (0,), (1,), (2,), (0, 1), (1, 2))]
    yield from chunks(cs, 100)


def layouts(n, ticks, speakers):
    """All sets of up to n segments on the ticks, speakers given in order of appearance, no speaker overlapping himself."""
    iv = [(a, b) for a in ticks for b in ticks if a < b]
    for k in range(1, n + 1):
        for c in itertools.combinations_with_replacement(iv, k):
            for sp in itertools.product(range(speakers), repeat=k):
                if sp[0] != 0 or any(sp[i] > max(sp[:i]) + 1 for i in range(1, k)):
                    continue
                ok = True
                for s in set(sp):
                    mine = sorted(c[i] for i in range(k) if sp[i] == s)
                    if any(p[1] > q[0] for p, q in zip(mine, mine[1:])):
                        ok = False
                if ok:
                    yield [(c[i][0], c[i][1], "STU"[sp[i]]) for i in range(k)]


def words_in(ws, a, b):
    return [w[0] for w in ws if a <= (w[1] + w[2]) // 2 < b]


DENSE = [("w%d" % k, 500 * k - 70, 500 * k + 70, False) for k in range(1, 10)]       # midpoints on the ticks and between
SETS = [DENSE, DENSE[1:6], DENSE[:1], DENSE[4:5], DENSE[-1:], DENSE[::2], [DENSE[0], DENSE[5], DENSE[8]], [("w0", 0, 100, False), ("w1", 900, 1100, False), ("w2", 1950, 2051, False), ("w3", 2400, 3601, False), ("w4", 4990, 4990, False)] + [("w5", 4980, 5060, False), ("w6", 5000, 5070, False)]]
EVEN = [DENSE[:8], [DENSE[2], DENSE[6]]]


def fill(lay, hyp, drop=3):
    out = []
    for k, (a, b, s) in enumerate(lay):
        x = words_in(hyp, a, b)
        x = [w for i, w in enumerate(x) if (i + k) % drop != 1] or ["v"]
        out.append((a, b, s, x[:3]))
    return out


def mk(lay, sys, uem=None, file="f", ch="1"):
    return {"refs": lay, "sys": sys, "uem": uem, "file": file, "ch": ch, "streams": None}


def group(cs, n, chans=("1",)):
    """Batches: the cases get file and channel names of their own."""
    for b in chunks(cs, n):
        for k, c in enumerate(b):
            c["file"], c["ch"] = "f%03d" % (k // len(chans)), chans[k % len(chans)]
        yield b


def jobs():
    tk = [500, 1500, 2500, 3000, 4000]
    lays = list(layouts(4 if T else 3, tk, 2)) + [l for l in list(layouts(3, tk if T else tk[1:], 3)) if len(l) == 3]
    sets = SETS
    for isg in (True, False):
        cs = [mk(fill(l, h), [[h]]) for l in lays for h in sets]
        for b in group(cs, 60, ("1", "2")):
            yield "ctm", b, isg, None, {}
    for b in group([mk(fill(l, h), [[h]]) for l in lays[::2] for h in EVEN], 60):
        yield "ctm", b, True, None, {}
    # segments to be ignored
    for k in (0, 1, 2):
        cs = []
        for l in lays:
            if len(l) > k:
                for h in (DENSE, SETS[5]):
                    f = fill(l, h)
                    f[k] = f[k][:3] + (IGN,)
                    cs.append(mk(f, [[h]]))
        for b in group(cs, 60):
            yield "ctm", b, k != 1, None, {}
    # empty segments
    cs = [mk([(a, b, s, [] if m >> i & 1 else x) for i, (a, b, s, x) in enumerate(fill(l, h))], [[h]]) for l in lays[::3] for h in (DENSE, SETS[3]) for m in range(1, 4)]
    for b in group(cs, 60):
        yield "ctm", b, True, None, {}
    # evaluation regions
    regs = [[(a, b)] for a, b in itertools.combinations([0, 500, 1500, 3000, 5000], 2)] + [[(0, 1500), (2500, 5000)], [(500, 1500), (1500, 3000)], [(500, 1000), (2000, 2500), (3000, 4000)], [(0, 500), (3000, 4000)], []]
    small = list(layouts(2, tk, 2))
    for uopt in ("both", "ref", "hyp"):
        for isg in (True, False):
            for r in regs:
                ok, bad = [], []
                for l in small:
                    for h in ((DENSE, SETS[7], DENSE[:8]) if T or r in regs[:6] else (DENSE,)):
                        c = mk(fill(l, h), [[h]], r)
                        (bad if crossing(c["refs"], r) else ok).append(c)
                for b in group(ok, 60, ("1", "2", "A")):
                    # a file that the regions cover, first
                    b = [mk([(0, 900, "S", ["a"])], [[[("a", 100, 200, False)]]], [(0, 1000)], "e0", "1")] + b
                    yield "ctm", b, isg, uopt, {}
                if uopt == "both" and isg:
                    for c in bad if T else bad[::7]:
                        yield "ctm", [c], isg, uopt, {}
    # names that look like each other and like the times; formats; labels; blank and comment lines
    for deco in ({"noise": True}, {"label": "<o,f0,male> "}, {"label": "<o> ", "noise": True}):
        for l in small[::5]:
            cs = [mk([(a, b, s + "2", x) for a, b, s, x in fill(l, h)], [[h]], [(0, 5000)] if i % 2 else [(500, 5000)], f, ch)
                  for i, (f, ch, h) in enumerate((("1", "1", DENSE), ("1", "2", SETS[5]), ("12", "1", DENSE), ("12", "15", SETS[5]), ("f", "1", DENSE), ("f1", "0.5", SETS[7]), ("f10", "A", DENSE)))]
            cs = [c for c in cs if not crossing(c["refs"], c["uem"])]
            yield "ctm", cs, True, None, deco
            yield "ctm", cs, True, "both", deco
            cs2 = [dict(c, uem=None) if c["file"] in ("12", "f1") else c for c in cs]
            yield "ctm", [dict(c, refs=c["refs"]) for c in cs2], True, "both", deco
    # two systems, several streams
    for b in group([mk(fill(l, h), [[h], [g]]) for l in small[::2] for h, g in ((DENSE, SETS[1][:4]), (SETS[5], EVEN[1]), (EVEN[1], DENSE[:1]))], 60):
        yield "ctm", b, True, None, {}
    for b in group([mk(fill(l, h), [[h[::2], [(w, a + 10, e + 10, op) for w, a, e, op in h[1::2]]]]) for l in lays[::2] for h in (DENSE, SETS[5])], 60):
        yield "rttm", b, True, None, {}
        yield "rttm", b, False, None, {}


def chains():
    """Long chains of turns, each overlapping the next, and the same turns apart."""
    L = list(range(2, 20, 3)) + [41, 64] + ([90] + list(range(3, 40, 2)) if T else [])
    for n in L:
        for order in ("ST", "TS") + (("STU", "UTS", "SUT") if n < (30 if T else 12) else ()):
            for ov, cut in ((500, None), (500, n // 2), (0, None), (-100, None)):
                lay, hyp = [], []
                for k in range(n):
                    a = 1000 * k + (0 if cut is None or k < cut else 700)
                    lay.append((a, a + 1000 + ov, order[k % len(order)], ["w%d" % (k % 7)]))
                    if k % 5 != 3:
                        hyp.append(("w%d" % (k % 7), a + 600 + (ov > 0) * 500, a + 650 + (ov > 0) * 500, False))
                yield mk(lay, [[hyp]])


def body(S):
    work.S = S
    C.bounds["chains"] = "chains of up to %d turns of 2 or 3 speakers, each turn overlapping, touching or apart from the next" % (90 if T else 64)
    C.parallel(work, [("ctm", b, isg, None, {}) for isg in (True, False) for b in group(list(chains()), 4)])
    C.bounds["segments"] = "all layouts of up to %d segments of 2 speakers and 3 segments of 3 speakers on a grid of 5 times, touching, overlapping, nested or apart; any of them empty or to be ignored" % (4 if T else 3)
    C.bounds["words"] = "%d sets of system words: on, between and across the bounds, before the first and after the last segment, only one word; one and two streams; two systems" % (len(SETS) + len(EVEN))
    C.bounds["regions"] = "15 sets of evaluation regions x all layouts of 2 segments x ref, hyp, both, with and without gaps; files without regions; names that are prefixes of each other"
    js = list(jobs())
    C.parallel(work, js)
    C.bounds["alternations"] = "system output of 3 items, each a word or one of two alternations, any of them outside the regions; all references of 1 to 3 words"
    C.parallel(work_alt, list(jobs_alt()))
    work.S = build.asclite(san=True)
    C.parallel(work, js[::9])
    C.parallel(work_alt, list(jobs_alt())[::9])
    C.finish()


if __name__ == "__main__":
    mc.main(build.asclite, body)
