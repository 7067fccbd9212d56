#!/usr/bin/env python3
"""P20: csrfilt rewrites the words of a file according to the rules and options, and nothing else."""
import itertools, os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, mc
from rewrite import Rule, words
from mc import Check, Fail, chunks, newdir

C = Check("P20", "exhaustive exploration of all small transcripts in every file type, option and rule file on the real csrfilt, each record compared with a reference model of the filter",
          "every (record, file type, options, rule file) within the bounds is one trace; the records of a file are also checked for order and completeness",
          ["blank lines are not records", "optionally deletable tags are not nested and stand between blanks", "times have at most three decimals", "words do not contain two hyphens in a row"])
T = C.thorough


def canon(s):
    """Blanks around the marks of an alternation do not matter."""
    return " ".join(re.sub(r"([{}])", r" \1 ", s).split())


class Sections:
    """A rule file with input dependent sections: [(expression or None, rules)]."""

    def __init__(self, secs, cs):
        self.secs, self.cs = secs, cs

    def text(self):
        out = [";; rules", "* name \"x\"", "* case_sensitive = '%s'" % "FT"[self.cs]]
        for e, rs in self.secs:
            if e is not None:
                out.append(';;  INPUT_DEPENDENT_APPLICATION = "%s"' % e)
            out += [r.text(1) for r in rs]
        return "\n".join(out) + "\n"

    def rules(self, typ, purpose):
        out = []
        for e, rs in self.secs:
            if e is None or re.search(e.lower(), typ) or (purpose and re.search(e.lower(), purpose)):
                out += rs
        return out


B = (" ", " ")
BASE = [Rule("UH", "", *B), Rule("NEWYORK", "NEW YORK", *B), Rule("HE'S", "{HE IS / HE HAS}", *B), Rule("A B", "AB", *B), Rule("C", "{C / @}", *B), Rule("B52", "B 52", *B), Rule("Q", "x")]
GLMS = [Sections([], True), Sections([(None, BASE)], True), Sections([(None, BASE)], False),
        Sections([(None, [Rule("D", "ALL", *B)]), ("CTM", [Rule("A", "CTMA", *B)]), ("stm|trn", [Rule("A", "STMA", *B), Rule("UH", "", *B)]), ("TXT", [Rule("A", "T A", *B)]), ("rttm", [Rule("A", "R A", *B)]),
                  ("hyp", [Rule("HE'S", "{HE'S / HE IS}", *B)]), ("ref", [Rule("HE'S", "HE IS", *B)]), ("trn", [Rule("B", "TB", *B)]), (".*", [Rule("NEWYORK", "NY", *B)])], True)]
TOKS = ["a", "B", "c", "uh", "newyork", "he's", "a-b", "-d", "e-", "(f)", "(uh)", "(a b)", "b52", "@", "B-52"]
MORE = ["(he's)", "(a-b)", "(newyork uh c)", "{a / b}", "x_y", "2", "1.5", "-1", "\xe9\xf7\xff\xdf", "%hes", "q", "d"]
SINGLE = ["a", "B", "c", "uh", "newyork", "he's", "a-b", "-d", "e-", "(f)", "(uh)", "(a-b)", "b52", "b-52", "@", "(he's)", "(newyork)", "x_y", "2", "1.5", "-1", "1e-05", "\xe9\xf7\xff\xdf", "a/b", "%hes", "Q", "lex", "other", "frag", "d", "<noise>", "a-b-c", "he's-a"]
TYPES = ["lex", "fp", "un-lex", "for-lex", "alpha", "acronym", "interjection", "propernoun", "other", "frag", "misc"]


def record(typ, text, i):
    """-> (input line, function giving the expected output records from the words)"""
    n = "%03d" % i
    t, d = i % 50 + 0.25, (0.6, 0.12, 1.2, 0)[i % 4]
    if typ == "txt":
        return text, lambda w: [canon(" ".join(w))]
    if typ == "trn":
        ident = ["(uh-%s)", "(a-b_%s)", "(c%s)"][i % 3] % n
        return text + " " + ident, lambda w: [canon(" ".join(w + [ident]))]
    if typ == "stm":
        f = ["newyork %s uh 1.5 2.25", "f1 a-b%s he's 0 3", "c 1 f%s 10.125 20 <o,uh,a-b>", "b52 A d%s 1 2 <O>"][i % 4] % n
        return ["%s %s", "  %s   %s", "%s\t%s"][i % 3] % (f, text), lambda w: [canon(" ".join([f] + w))]
    if typ == "ctm":
        conf = ["", "0.5", "1e-05", "-0.25", "1"][i % 5]
        f = "%s %s" % (["newyork", "uh", "a-b"][i % 3] + n, ["1", "a"][i % 2])

        def exp(w):
            if not w:
                return []
            alts, alt = [[]], "{" in w
            for x in w:
                if x in "{}":
                    continue
                if x == "/" and alt:
                    alts.append([])
                else:
                    alts[-1].append(x)
            out = []
            for k, a in enumerate(alts):
                if alt:
                    out.append(f + " * * " + ("<ALT>" if k else "<ALT_BEGIN>"))
                for j, x in enumerate(a):
                    out.append((f, t + d / len(a) * j, d / len(a), x, conf))
            return out + ([f + " * * <ALT_END>"] if alt else [])
        return "%s %s %s %s %s" % (f, t, d, text, conf), exp
    if typ == "rttm":
        ty = TYPES[i % len(TYPES)]
        pre, post = "LEXEME newyork%s a %s %s" % (n, t, d), "%s uh%s <NA>" % (ty, n)

        def exp(w):
            if ty in ("frag", "misc"):
                return ["%s %s %s" % (pre, text, post)]
            if not w:
                return []
            o = " ".join(w)
            if len(w) > 1:
                o = "_".join(re.sub(r"([{}/@])", r" \1 ", o).split())
            return ["%s %s %s" % (pre, o, post)]
        return "%s %s %s" % (pre, text, post), exp


def same(typ, want, got):
    if isinstance(want, str):
        return want == (got if typ == "rttm" else canon(got))
    p = got.split()
    f, t, d, w, conf = want
    try:
        return " ".join(p[:2]) == f and abs(float(p[2]) - t) < 0.0011 and abs(float(p[3]) - d) < 0.0011 and p[4:] == [w] + ([conf] if conf else [])
    except (ValueError, IndexError):
        return False


def work(job, st, fails, samples):
    d = newdir()
    try:
        typ, opts, gi, texts, noise = job
        g = GLMS[gi]
        purpose = opts[opts.index("-t") + 1] if "-t" in opts else None
        rules = g.rules(typ, purpose)
        lines, want = [], []
        for i, t in enumerate(texts):
            line, exp = record(typ, t, i)
            lines.append(line)
            want += exp(words(t, "-dh" in opts, "-s" in opts, "-e" in opts, rules, g.cs))
            if noise and i % 4 == 0:
                c = [";; uh a-b  he's newyork ", ";;", ";; f 1 uh 0 1 <o> a (x)"][i % 3]
                lines.append(c)
                want.append(c)
                if i % 8 == 0:
                    lines.append("")
                if typ == "rttm":
                    o = "SPEAKER uh a 1.5 2 <NA> <NA> a-b <NA>"
                    lines.append(o)
                    want.append(o)
        if typ == "txt":
            want = [w for w in want if w]
        inp = ("\n".join(lines) + "\n").encode("latin-1")
        with open(os.path.join(d, "g.glm"), "w", encoding="latin-1") as f:
            f.write(g.text())
        env = dict(os.environ, PATH=work.S + ":" + os.environ["PATH"], LC_ALL="C")
        cmd = ["sh", os.path.join(build.REPO, "src/csrfilt/csrfilt.sh"), "-i", typ] + opts + ["g.glm"]
        rc, out, err = mc.run(cmd, d, inp, 120, env)
        st.add(states=1, transitions=len(lines), traces=len(texts))
        got = [l for l in out.decode("latin-1").split("\n") if l.strip()]
        bad = None
        if rc != 0:
            bad = "status %r %s" % (rc, err[-300:])
        for w, o in zip(want, got):
            if not (o == w if isinstance(w, str) and w.startswith(";;") else same(typ, w, o)):
                bad = bad or "expected %r got %r" % (w, o)
        if not bad and len(want) != len(got):
            bad = "%d records expected, %d written" % (len(want), len(got))
        if bad:
            fails.append(Fail("csrfilt -i %s %s (rule file %d): %s" % (typ, " ".join(opts), gi, bad), bad[:60], {"g.glm": g.text(), "in." + typ: inp, "out." + typ: out}, " ".join(cmd) + " < in." + typ, "").pack())
        elif len(samples) < 1:
            samples.append({"type": typ, "options": opts, "records": len(texts)})
    finally:
        shutil.rmtree(d, ignore_errors=True)


def texts(toks, n):
    return [" ".join(x) for k in range(n + 1) for x in itertools.product(toks, repeat=k)]


def jobs():
    full = texts(TOKS, 3 if T else 2) + [" ".join(x) for x in itertools.product(TOKS[:8], repeat=3)] + [x for m in MORE for t in ["", *TOKS[:4]] for x in ("%s %s" % (m, t), "%s %s" % (t, m), "%s %s %s" % (m, t, m))]
    optss = [list(itertools.chain(*x)) for x in itertools.product(([], ["-dh"]), ([], ["-s"]), ([], ["-e"]), ([], ["-t", "ref"], ["-t", "hyp"]))]
    for typ in ("txt", "trn", "stm", "ctm", "rttm"):
        ts = full if typ in ("txt", "trn", "stm") else SINGLE * 55
        if typ in ("txt", "trn", "stm") and not T:
            pass
        if typ == "rttm":
            ts = [x for x in ts if "/" not in x]
        for gi in range(len(GLMS)):
            for o in optss:
                if "-t" in o and (gi != 3 or "-e" in o):
                    continue
                base = not ("-s" in o or "-e" in o)
                use = ts if T or base else ts[::3]
                if typ == "stm" or typ == "trn":
                    use = use if T or base and gi in (1, 3) else use[::2]
                # times and fields are chosen by position: no common divisor with their cycles
                for k, c in enumerate(chunks(use, 997)):
                    yield typ, o, gi, c, k % 2 == 0
        for n in range(4):      # tiny files, order and completeness
            for x in itertools.product(["a", "uh", "newyork"], repeat=n):
                if n < 3 or T:
                    yield typ, [], 1, list(x), n % 2 == 1


def work_bad(job, st, fails, samples):
    """Files that cannot be read are refused, never cut short."""
    typ, glm, lines, ok = job
    d = newdir()
    try:
        with open(os.path.join(d, "g.glm"), "w") as f:
            f.write(glm)
        env = dict(os.environ, PATH=work.S + ":" + os.environ["PATH"], LC_ALL="C")
        rc, out, err = mc.run(["sh", os.path.join(build.REPO, "src/csrfilt/csrfilt.sh"), "-i", typ, "g.glm"], d, ("\n".join(lines) + "\n").encode(), 60, env)
        st.add(states=1, transitions=len(lines), traces=1)
        if ok and (rc != 0 or len([l for l in out.split(b"\n") if l.strip()]) != len([l for l in lines if l])):
            fails.append(Fail("csrfilt -i %s: well-formed file %r: status %r output %r" % (typ, lines, rc, out[:200]), "ok", {"in": "\n".join(lines)}, "", "").pack())
        if not ok and rc in (0, "timeout"):
            fails.append(Fail("csrfilt -i %s: malformed file %r: status %r" % (typ, lines, rc), "bad", {"in": "\n".join(lines)}, "", "").pack())
    finally:
        shutil.rmtree(d, ignore_errors=True)


def jobs_bad():
    G = GLMS[1].text()
    good = {"stm": ["f 1 s 0 1 <o> a b", "", "f 1 s 1 2 c", "f 1 s 2 3", ";; x"], "trn": ["a b (s-1)", "", "(s-2)", ";; x"]}
    bad = {"stm": ["f 1 s 0", "f1", "file 1 spk 3.5"], "trn": ["a b", "c", "a b (s-1"]}
    for typ in good:
        for p in itertools.permutations(good[typ]):
            yield typ, G, list(p), True
        for b in bad[typ]:
            for i in range(len(good[typ]) + 1):
                yield typ, G, good[typ][:i] + [b] + good[typ][i:], False
    for typ in ("stm", "trn", "ctm", "txt", "rttm"):
        for tags in ("(a", "a)", "((a))", "a ( b", ") a ("):
            line = {"stm": "f 1 s 0 1 %s", "trn": "%s (s-1)", "txt": "%s"}.get(typ)
            if line:
                yield typ, G, [line % tags], False
        rec = {"stm": "f 1 s 0 1 a", "trn": "a (s-1)", "txt": "a", "ctm": "f 1 0 1 a", "rttm": "LEXEME f 1 0 1 a lex s <NA>"}[typ]
        for g in (";; x\nA B\n", ";; x\n* max_nrules = '1'\n[A] => [B]\n[B] => [C]\n", ";; x\n* format = 'x'\n[A] => [B]\n"):
            yield typ, g, [rec], False


def body(S):
    work.S = S
    C.bounds["texts"] = "all texts of up to %d tokens of 15 (words, hyphenated words, fragments, optionally deletable words, contractions, numbers), all of 3 tokens of 8, and %d further tokens in context; single words for ctm and rttm" % (3 if T else 2, len(MORE))
    C.bounds["configurations"] = "5 file types x -dh, -s, -e, -t ref|hyp x 4 rule files (none, rewriting, deletion, alternation, case-insensitive, input dependent sections); comments and blank lines between records"
    C.bounds["malformed"] = "every malformed line at every place of a small file; every ill-formed tag; unusable rule files"
    C.parallel(work, list(jobs()))
    C.parallel(work_bad, list(jobs_bad()))
    C.finish()


if __name__ == "__main__":
    mc.main(build.rfilter1, body)
