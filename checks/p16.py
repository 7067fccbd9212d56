#!/usr/bin/env python3
"""P16: asclite's alignments of overlapping streams use every word once, in order, and are of least cost."""
import itertools, os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import asc, build, mc
from asc import Opts
from mc import Check, Fail, chunks, newdir

C = Check("P16", "exhaustive exploration of all small segment groups (speakers, segments, alternations, system streams, options) on the real asclite, each alignment read back and its cost compared with the least cost over all alignments of the group",
          "every combination of reference texts, time layouts and system words within the bounds is one case; every aligned word of its SGML output is read",
          ["costs: substitution 400, insertion and deletion 300, 200 for an optionally deletable word, 100 for a correct word of the wrong speaker", "the words of a system stream are given in time order"])
T = C.thorough


def ctm(cases):
    return "".join("%s 1 %.3f %.3f %s\n" % (f, a / 1000, (b - a) / 1000, w) for f, refs, hyps in cases for s, ws in hyps for w, a, b, op in ws)


def rttm(cases):
    # streams are interleaved in time order, as in a real file
    out = []
    for f, refs, hyps in cases:
        for a, b, w, op, s in sorted((a, b, w, op, s) for s, ws in hyps for w, a, b, op in ws):
            out.append("LEXEME %s 1 %.3f %.3f %s %s %s 0.5\n" % (f, a / 1000, (b - a) / 1000, w, "fp" if op else "lex", s))
    return "".join(out)


def stm(cases):
    out = []
    for f, refs, hyps in cases:
        for a, b, s, x in sorted(((a, b, s, asc.render(x)) for s, ss in refs for a, b, x in ss), key=lambda z: z[:3]):
            out.append("%s 1 %s %.3f %.3f %s\n" % (f, s, a / 1000, b / 1000, x))
    return "".join(out)


def work(arg, st, fails, samples):
    kind, cases, o = arg
    fmt = "ctm" if kind == "ctm" else "rttm"
    two = kind == "two"
    if two:
        fmt = "ctm"
    d = newdir()
    files = {"r.stm": stm(cases), "h." + fmt: ctm([(f, r, h if not two else h[:1]) for f, r, h in cases]) if fmt == "ctm" else rttm(cases)}
    if two:
        files["h2.ctm"] = ctm([(f, r, h[1:]) for f, r, h in cases])
    if o.spkr is not None:
        files["map.csv"] = "File,Channel,RefSpeaker,SysSpeaker,isMapped,timeOverlap\n" + "".join("%s,1,%s,%s,mapped,1.0\n" % (f, r, h) for f, _, _ in cases for h, r in o.spkr.items())
    for k, x in files.items():
        open(os.path.join(d, k), "w").write(x)
    cmd = ["-r", "r.stm", "stm", "-h", "h." + fmt, fmt] + (["-h", "h2.ctm", "ctm"] if two else []) + ["-noisg", "-f", "0", "-o", "sgml", "stdout"] + o.args()
    try:
        rc, out, err = mc.run([work.S + "/asclite"] + cmd, cwd=d, env={"ASAN_OPTIONS": "detect_leaks=0"}, timeout=120)
        if rc != 0:
            if len(cases) > 1:      # find the case
                for c in cases:
                    work((kind, [c], o), st, fails, samples)
                    if fails:
                        return
            raise Fail("asclite ended with %s: %r" % (rc, (out + err)[-400:]))
        sy = asc.parse_sgml(out.decode("utf-8", "replace"))
        if [s["title"] for s in sy] != ["h." + fmt] + ["h2.ctm"] * two:
            raise Fail("systems in the output: %r" % [s["title"] for s in sy])
        for k, s in enumerate(sy):
            per = {}
            for p in s["paths"]:
                per.setdefault(p["file"], []).append(p)
            for f, refs, hyps in cases:
                h = hyps if not two else [hyps[k]]
                m = asc.Model(refs, [(sp if fmt == "rttm" else "", ws) for sp, ws in h], o)
                try:
                    n = asc.check_group(m, per.pop(f, []))
                except Fail as x:
                    x.files = {"r.stm": stm([(f, refs, hyps)]), "h." + fmt: ctm([(f, refs, h)]) if fmt == "ctm" else rttm([(f, refs, h)]), "map.csv": files.get("map.csv", "")}
                    x.cmd = "asclite " + " ".join(cmd)
                    raise
                st.add(states=m.n, transitions=n, traces=1)
            if per:
                raise Fail("paths of files that are not in the input: %r" % sorted(per))
    except Fail as x:
        if not x.files:
            x.files, x.cmd = files, "asclite " + " ".join(cmd)
        fails.append(x.pack())
    finally:
        shutil.rmtree(d, ignore_errors=True)


def work_alt(arg, st, fails, samples):
    """Alternations in the system output. Case: (file, refs, [("word", ..) or ("alt", [[word..], ..])]) with times given to each word."""
    cases, o = arg
    d = newdir()
    files = {"r.stm": stm([(f, r, None) for f, r, h in cases]), "h.ctm": ""}
    exps = {}
    for f, refs, h in cases:
        t = 100
        out, ex = [], [[]]
        for x in h:
            if isinstance(x, str):
                w = (x, t, t + 90, False)
                out.append("%s 1 %.3f %.3f %s" % (f, t / 1000, .09, x))
                ex = [e + [w] for e in ex]
                t += 200
            else:
                new, end = [], t
                out.append("%s 1 * * <ALT_BEGIN>" % f)
                for k, al in enumerate(x):
                    if k:
                        out.append("%s 1 * * <ALT>" % f)
                    q, tt = [], t + k
                    for y in al:
                        q.append((y, tt, tt + 90, False))
                        out.append("%s 1 %.3f %.3f %s" % (f, tt / 1000, .09, y))
                        tt += 100
                    end = max(end, tt)
                    new.append(q)
                out.append("%s 1 * * <ALT_END>" % f)
                ex = [e + q for e in ex for q in new]
                t = end + 100
        exps[f] = ex
        files["h.ctm"] += "\n".join(out) + "\n"
    for k, x in files.items():
        open(os.path.join(d, k), "w").write(x)
    cmd = ["-r", "r.stm", "stm", "-h", "h.ctm", "ctm", "-noisg", "-f", "0", "-o", "sgml", "stdout"] + o.args()
    try:
        rc, out, err = mc.run([work.S + "/asclite"] + cmd, cwd=d, env={"ASAN_OPTIONS": "detect_leaks=0"}, timeout=120)
        if rc != 0:
            raise Fail("asclite ended with %s: %r" % (rc, (out + err)[-400:]))
        (sy,) = asc.parse_sgml(out.decode("utf-8", "replace"))
        for f, refs, h in cases:
            paths = [p for p in sy["paths"] if p["file"] == f]
            ms = [asc.Model(refs, [("", e)], o) for e in exps[f]]
            b = min(m.best() for m in ms)
            u = asc.used_times(paths)
            fit = [m for m, e in zip(ms, exps[f]) if {w[1:3] for w in e} == u]
            if not fit:
                raise Fail("%s: system words used at %r are none of the alternatives %r" % (f, sorted(u), exps[f]))
            st.add(states=fit[0].n, transitions=asc.check_group(fit[0], paths, b), traces=1)
    except Fail as x:
        x.files, x.cmd = files, "asclite " + " ".join(cmd)
        fails.append(x.pack())
    finally:
        shutil.rmtree(d, ignore_errors=True)


def work_trn(arg, st, fails, samples):
    """Case: (id, text or None, system words or None), matched by utterance id."""
    cases, o = arg
    d = newdir()
    files = {"r.trn": "".join("%s (%s)\n" % (asc.render(x), i) for i, x, h in cases if x is not None), "h.trn": "".join("%s (%s)\n" % (" ".join(h), i) for i, x, h in cases if h is not None)}
    for k, x in files.items():
        open(os.path.join(d, k), "w").write(x)
    cmd = ["-r", "r.trn", "trn", "-h", "h.trn", "trn", "-f", "0", "-o", "sgml", "stdout"] + o.args()
    try:
        rc, out, err = mc.run([work.S + "/asclite"] + cmd, cwd=d, env={"ASAN_OPTIONS": "detect_leaks=0"}, timeout=120)
        if rc != 0:
            raise Fail("asclite ended with %s: %r" % (rc, (out + err)[-400:]))
        (sy,) = asc.parse_sgml(out.decode("utf-8", "replace"))
        per = {p["id"]: p for p in sy["paths"]}
        if len(per) != len(sy["paths"]):
            raise Fail("an utterance is scored twice")
        for i, x, h in cases:
            if x is None:
                continue
            if "(%s)" % i not in per:
                raise Fail("utterance %s is not scored" % i)
            m = asc.Model([("s", [(0, 1, x)])], [("", [(w, 0, 1, False) for w in h])] if h else [], o)
            try:
                n = asc.check_utt(m, per.pop("(%s)" % i))
            except Fail as y:
                raise Fail("%s: %s" % (i, y.msg))
            st.add(states=m.n, transitions=n, traces=1)
        if per:
            raise Fail("utterances that are not in the reference: %r" % sorted(per))
    except Fail as x:
        x.files, x.cmd = files, "asclite " + " ".join(cmd)
        fails.append(x.pack())
    finally:
        shutil.rmtree(d, ignore_errors=True)


def work_marks(texts, st, fails, samples):
    """transcripts whose braces do not match are refused"""
    for k, t in enumerate(texts):
        d = newdir()
        f = ["trn", "stm"][k % 2]
        files = {"r.trn": "%s (s_1)\n" % t, "h.trn": "a (s_1)\n"} if f == "trn" else {"r.stm": "f 1 s 0 5 %s\n" % t, "h.ctm": "f 1 1 0.5 a\n"}
        hf = "trn" if f == "trn" else "ctm"
        for n, x in files.items():
            open(os.path.join(d, n), "w").write(x)
        cmd = ["-r", "r." + f, f, "-h", "h." + hf, hf, "-f", "0", "-o", "sgml", "stdout"] + ([] if f == "trn" else ["-noisg"])
        rc, out, err = mc.run([work.S + "/asclite"] + cmd, cwd=d, env={"ASAN_OPTIONS": "detect_leaks=0"}, timeout=60)
        shutil.rmtree(d, ignore_errors=True)
        st.add(traces=1, states=1)
        if rc <= 0 or b"<PATH" in out:
            fails.append(Fail("transcript '%s' cannot be read, but asclite ended with %s" % (t, rc), key="marks|" + t, files=files, cmd="asclite " + " ".join(cmd)).pack())


def unbalanced(n):
    for x in seqs(["a", "{", "}", "/"], n, 1):
        depth = low = 0
        for t in x:
            depth += {"{": 1, "}": -1}.get(t, 0)
            low = min(low, depth)
        if depth or low:
            yield " ".join(x)


def jobs_alt():
    al = [("a", [["b"], ["c"]]), ([["b"], ["c"]], "a"), ([["a"], ["b", "c"]],), ("a", [["b", "c"], ["c"], ["a", "a"]], "b"), ([["a"], ["b"]], [["c"], ["a", "b"]]), ("a", [["a"], ["b"]], [["c", "a"], ["b"]], "c"),
          ([["a"], ["b"]], "c", [["c"], ["a", "b"]]), ([["a", "b"], ["b"]],)]
    refs = [list(x) for x in seqs("abc", 4 if T else 3, 1)] + list(alts())[:: 1 if T else 3]
    for b in chunks([([("S", [(0, 5000, r)])], h) for r in refs for h in al], 120):
        yield [("f%03d" % k, r, h) for k, (r, h) in enumerate(b)], O()
    for b in chunks([([("S", [(0, 900, list(x))]), ("T", [(400, 5000, list(y))])], h) for x in seqs("ab", 2) for y in seqs("bc", 2) if x or y for h in al], 120):
        yield [("f%03d" % k, r, h) for k, (r, h) in enumerate(b)], O()


def jobs_trn():
    for o in (O(), O(s=True), O(D="both"), O(F=True), O(D="ref"), O(D="hyp")):
        v = ["a", "A"] if o.s else ["a", "(b)"] if o.D != "none" else ["ab", "a-"] if o.F else ["a", "b"]
        cs = [(list(x), list(h)) for x in seqs(v, 3, 1) for h in seqs(v, 3, 1)]
        if not o.args():
            cs += [(x, list(h)) for x in alts() for h in seqs("abc", 2, 1)]
        for b in chunks(cs, 150):
            yield [("s%d_%03d" % (k % 3, k), x, h) for k, (x, h) in enumerate(b)], o
    # utterances missing on either side, in any order
    for n in (2, 3):
        for have in itertools.product((0, 1, 2), repeat=n):
            if 0 not in have and 1 not in have or not [x for x in have if x < 2] or not [x for x in have if x != 1]:
                continue
            for sp in ("s_", "s%d_"):
                cs = [((sp % k if "%" in sp else sp) + str(k), ["a", "b"] if x != 2 else None, ["a", "c"] if x != 1 else None) for k, x in enumerate(have)]
                yield cs, O()
                yield cs[::-1], O()


def seqs(ab, n, lo=0):
    return [s for k in range(lo, n + 1) for s in itertools.product(ab, repeat=k)]


def ws(words, t0=100, step=200, dur=100, op=False):
    return [(w, t0 + step * k, t0 + step * k + dur, op) for k, w in enumerate(words)]


def batch(kind, cases, o, n=120):
    for b in chunks(list(cases), n):
        yield kind, [("f%03d" % k,) + tuple(c) for k, c in enumerate(b)], o


O = Opts


def alts():
    """Reference texts with alternations."""
    atoms = ["a", "b", "@", ["a", "b"], ["b", "b"]]
    for x, y in itertools.combinations(atoms, 2):
        al = ("alt", [x, y])
        for pre in ([], ["a"]):
            for post in ([], ["b"], ["a", "b"]):
                yield pre + [al] + post
    for x, y in itertools.product([("alt", ["a", "@"]), ("alt", ["b", "a"]), ("alt", ["b", "@"]), ("alt", [["a", "b"], "b"])], repeat=2):
        yield [x, y]
        yield [x, "a", y]
        yield [("alt", [[x, y], "c"])]
        yield ["a", ("alt", [[x, "c"], [y]]), "b"]
    yield [("alt", ["a", "b", "c"])]
    yield [("alt", ["a", "@", ["b", "c"]]), "a"]
    yield [("alt", [["a", ("alt", ["b", ("alt", ["c", "@"])])], "@"])]


def jobs():
    one = [(0, 5000)]
    # A. one speaker, one stream
    for o in (O(), O(s=True)):
        ab = "ab" if not o.s else "aA"
        n = 5 if T else 4
        yield from batch("ctm", ([[("S", [(0, 5000, list(r))])], [("", ws(h))]] for r in seqs(ab, n) for h in seqs(ab, n + (not o.s), 1)), o)
    # B. alternations and optional parts
    for o in (O(), O(wta=500), O(adaptive=True)):
        yield from batch("ctm", ([[("S", [(0, 5000, x)])], [("", ws(h))]] for x in alts() for h in seqs("abc", 4 if T and not o.args() else 3, 1)), o)
    # several segments of a speaker joined by another speaker's segment
    ex = [["a"], [("alt", ["a", "@"])], ["a", ("alt", ["b", "@"])], [("alt", ["b", "@"]), "a"], []]
    for o in (O(), O(adaptive=True)):
        yield from batch("ctm", ([[("S", [(0, 1000, x), (1000, 2000, y), (2000, 3000, z)]), ("T", [(0, 3000, t)])], [("", ws(h, 100, 900))]]
                                 for x, y, z in itertools.product(ex, repeat=3) for t in ([], ["b"], ["c", "a"]) for h in seqs("ab", 4 if T else 3, 1)), o)
    # C. overlapping speakers, one stream
    s2 = seqs("ab", 2)
    for o in (O(), O(adaptive=True), O(walign=True), O(wta=300), O(wta=0)):
        for lay in ((0, 3000, 0, 3000), (0, 1000, 800, 3000), (1000, 3000, 0, 1200)):
            yield from batch("ctm", ([[("S", [(lay[0], lay[1], list(x))]), ("T", [(lay[2], lay[3], list(y))])], [("", ws(h, 200, 700, 300))]] for x in s2 for y in s2 if x or y for h in seqs("ab", 4 if T else 3, 1)), o)
    s3 = seqs("ab", 2 if T else 1) + [("a", "b"), ("b", "b")]
    yield from batch("ctm", ([[("S", [(0, 2000, list(x))]), ("T", [(500, 2500, list(y))]), ("U", [(1000, 3000, list(z))])], [("", ws(h, 200, 700, 300))]]
                             for x in s3 for y in s3 for z in s3 for h in seqs("ab", 4 if T else 3, 1)), O())
    # words of several lengths for the edit distance
    vo = ["ab", "abc", "b"]
    yield from batch("ctm", ([[("S", [(0, 3000, list(x))]), ("T", [(0, 3000, list(y))])], [("", ws(h, 200, 700, 300))]] for x in seqs(vo, 2, 1) for y in seqs(vo, 1) for h in seqs(vo + ["bcd"], 2, 1)), O(walign=True))
    # D. optionally deletable words and fragments
    for D in ("ref", "hyp", "both"):
        v = ["a", "(a)", "(b)", "b"]
        yield from batch("ctm", ([[("S", [(0, 5000, list(r))])], [("", ws(h))]] for r in seqs(v, 2) for h in seqs(v, 3, 1)), O(D=D))
        yield from batch("ctm", ([[("S", [(0, 5000, list(r))]), ("T", [(0, 5000, list(q))])], [("", ws(h))]] for r in seqs(v[:3], 1) for q in seqs(v[:3], 2) for h in seqs(v[:3], 2, 1)), O(D=D))
    v = ["(a)", "b"]
    yield from batch("ctm", ([[("S", [(0, 5000, list(r))])], [("", ws(h))]] for r in seqs(v, 2) for h in seqs(v, 2, 1)), O())
    fr = ["ab", "a-", "-b", "abc", "b-", "-ab", "ba-"]
    for o in (O(F=True), O(F=True, D="both"), O(F=True, walign=True), O()):
        yield from batch("ctm", ([[("S", [(0, 5000, list(r))])], [("", ws(h))]] for r in seqs(fr, 2, 1) for h in seqs(fr, 2, 1)), o)
    # E. several system streams
    for o in (O(), O(wta=300), O(spkr={"X": "S", "Y": "T"}), O(spkr={"X": "T"}), O(D="both"), O(spkr={"X": "S", "Y": "T"}, adaptive=True)):
        v = seqs("ab", 2)
        yield from batch("rttm", ([[("S", [(0, 2000, list(x))]), ("T", [(500, 3000, list(y))])], [("X", ws(g, 200, 700, 300, o.D == "both")), ("Y", ws(h, 410, 700, 310))]]
                                  for x in v for y in v if x or y for g in seqs("ab", 3 if T else 2, 1) for h in seqs("ab", 2)), o)
    yield from batch("rttm", ([[("S", [(0, 2000, list(x))]), ("T", [(500, 3000, list(y))])], [("X", ws(g, 200, 700, 300)), ("Y", ws(h, 410, 700, 310)), ("Z", ws(i, 520, 700, 320))]]
                              for x in s2 for y in s2 if x or y for g in (("a",), ("b", "a")) for h in (("a",), ("b",)) for i in (("a", "b"), ("b",))), O())
    # F. two systems in one run: each as if alone
    yield from batch("two", ([[("S", [(0, 3000, x)]), ("T", [(0, 3000, y)])], [("", ws(g, 200, 700, 300)), ("", ws(h, 230, 650, 310))]]
                             for x in (["a", "b"], ["a", ("alt", ["b", "c"])], [("alt", ["a", "@"]), "b"]) for y in ([], ["b"]) for g in seqs("abc", 2, 1) for h in seqs("abc", 2, 1)), O())
    # G. sizes: many words, many segments, five speakers
    big = ["w%d" % (k % 7) for k in range(40)]
    yield "ctm", [("f0", [("S", [(0, 60000, big)])], [("", ws([w for k, w in enumerate(big) if k % 5 != 2], 100, 900, 300))])], O()
    yield "ctm", [("f0", [("S", [(k * 1000, k * 1000 + 1000, [w]) for k, w in enumerate(big)]), ("T", [(0, 40000, ["w3"])])], [("", ws([w for k, w in enumerate(big) if k % 5 != 2], 100, 1000, 300))])], O()
    yield "ctm", [("f0", [(s, [(0, 9000, [s.lower(), "x"])]) for s in "STUVW"], [("", ws(["s", "x", "t", "w", "x"], 100, 900, 300))])], O(extra=["-overlap-limit", "5"])
    yield "ctm", [("f%d" % n, [("S", [(0, 5000, ["a" * n, "b"])])], [("", ws(["a" * n, "c"]))]) for n in (1, 50, 100, 150)], O()


def body(S):
    work.S = S
    C.bounds["one stream"] = "one speaker: all texts of up to %d words over 2 words, all texts of a grammar of alternations (nested, optional, at either end); two and three overlapping speakers of up to 2 words, up to 3 segments each; up to 3 system words" % (5 if T else 4)
    C.bounds["several streams"] = "two speakers of up to 2 words and two or three system streams of up to 2 words; speaker maps"
    C.bounds["options"] = "-D, -F, -s, -word-time-align, -adaptive-cost, -wordalign-cost, -spkr-align, and two systems"
    js = list(jobs())
    C.parallel(work, js)
    C.bounds["alternatives"] = "alternations in the ctm output, at every place of it; trn against trn: all utterances of up to 3 words, any missing on either side"
    ja, jt = list(jobs_alt()), list(jobs_trn())
    C.parallel(work_alt, ja)
    C.parallel(work_trn, jt)
    C.bounds["marks"] = "every text of at most %d words, braces and slashes whose braces do not match is refused" % (5 if T else 4)
    C.parallel(work_marks, list(chunks(list(unbalanced(5 if T else 4)), 40)))
    work.S = build.asclite(san=True)
    C.parallel(work_alt, ja[::9])
    C.parallel(work_trn, jt[::7])
    C.parallel(work, [x for k, x in enumerate(js) if k % (5 if T else 10) == 0])
    C.finish()


if __name__ == "__main__":
    mc.main(build.asclite, body)
