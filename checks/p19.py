#!/usr/bin/env python3
"""P19: rfilter1 applies the first matching rule at each place, left to right, once."""
import itertools, os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, mc
from rewrite import Rule, apply
from mc import Check, Fail, chunks, newdir

C = Check("P19", "exhaustive exploration of all small rule files, each run on every line of a bounded alphabet and length on the real rfilter1, against a reference rewriting model",
          "every (rule file, line) pair within the bounds is one trace",
          ["the strings of a rule do not contain the marks of the rule language (brackets, arrow, slot) themselves", "rule lines below 1900 characters, input lines below 100000 characters"])
T = C.thorough


def lines(alpha, n):
    return ["".join(x) for k in range(n + 1) for x in itertools.product(alpha, repeat=k)]


def glm(rules, hdr, styles):
    """hdr: (comment flag, header lines)"""
    flag, aux = hdr
    out = [flag + " rules"] + ["* " + x for x in aux] + [flag + " a => b", ""]
    for i, r in enumerate(rules):
        st = styles[i % len(styles)]
        out.append((" " if i % 2 else "") + r.text(st) + (" %s a => c" % flag if i % 3 == 1 else ""))
    return "\n".join(out) + "\n"


def check(S, d, text, ls, want, st, fails, what, env=None):
    with open(os.path.join(d, "r.glm"), "w", encoding="latin-1") as f:
        f.write(text)
    inp = "".join(l + "\n" for l in ls).encode("latin-1")
    rc, out, err = mc.run([os.path.join(S, "rfilter1"), "r.glm"], d, inp, 60)
    st.add(states=1, transitions=len(ls), traces=len(ls))
    out = out.decode("latin-1")
    if rc == 0 and out == want:
        return
    bad = "status %r %s" % (rc, err.decode("latin-1")[-1500:])
    o, w = out.split("\n"), want.split("\n")
    k = next((i for i, (x, y) in enumerate(zip(o, w)) if x != y), None)
    if rc == 0 and k is not None:
        bad = "line %r: expected %r got %r" % (ls[k] if k < len(ls) else None, w[k][:200], o[k][:200])
    fails.append(Fail("%s: %s" % (what, bad), what, {"r.glm": text, "in.txt": inp, "expected.txt": want.encode("latin-1"), "got.txt": out.encode("latin-1")},
                      "rfilter1 r.glm < in.txt", "").pack())


def work(job, st, fails, samples):
    d = newdir()
    try:
        for rules, hdr, styles, copy, cs, ls in job:
            want = "".join(apply(rules, l + "\n", copy, cs) for l in ls)
            check(work.S, d, glm(rules, hdr, styles), ls, want, st, fails, "rules " + "; ".join(r.text() for r in rules))
            if len(samples) < 2:
                samples.append({"rules": [r.text() for r in rules], "lines": len(ls)})
    finally:
        shutil.rmtree(d, ignore_errors=True)


def opts(copy, cs, k=0):
    """Header lines asking for the options, in several spellings."""
    t = [("T", "F"), ("yes", "no"), ("TRUE", "false")][k % 3]
    q = "'\""[k % 2]
    aux = ["name%s %sx%s" % (" =" if k % 2 else "", q, q)]
    if not copy or k % 2:
        aux.append("%s = %s%s%s" % (["COPY_NO_HIT", "copy_no_hit"][k % 2], q, t[0 if copy else 1], q))
    if not cs or k % 2:
        aux.append("%s %s %s%s%s" % (["case_sensitive", "CASE_SENSITIVE"][k % 2], "=:"[k % 2], q, t[0 if cs else 1], q))
    return ([";;", ";", "#", "%%"][k % 4], aux)


ALPHA = "abA "


def jobs():
    L = lines(ALPHA, 6 if T else 5)
    LS = lines(ALPHA, 5 if T else 4)
    As = ["a", "b", "A", " ", "ab", "aa", "ba", " a", "a ", "aB", "a b", " b ", "aab", "abab"]
    Bs = ["", "x", "a", "ab ", " ", "aa", "B", "{a / b}", "/"]
    Cs = ["", "a", "b", " ", "ab", "A", "ba", " a", "aaa", "b "]
    # one rule: every left side, right side and pair of contexts
    k = 0
    for a in As:
        for b in (Bs if T else Bs[:6]):
            k += 1
            yield [Rule(a, b)], opts(k % 2, k % 3 > 0, k), (k % 3,), bool(k % 2), k % 3 > 0, LS
        for c in Cs:
            for e in Cs:
                for cs in (True, False):
                    k += 1
                    b = Bs[k % len(Bs)]
                    yield [Rule(a, b, c, e)], opts(True, cs, k), (k % 3,), True, cs, L if c and e and k % 3 == 0 else LS
    # two rules: which one wins, what the second sees
    rs = [Rule(a, b, c, d) for a in ("a", "ab", "aa", "b", " ", "A") for b, c, d in (("x", "", ""), ("", "", "b"), ("b", "a", ""), ("ab", " ", " "), ("aa", "b", "a"))]
    for p, q in itertools.product(rs, repeat=2):
        for copy, cs in itertools.product((True, False), repeat=2) if T else [(True, k % 2 == 0)] + ([(False, True)] if k % 7 == 0 else []):
            k += 1
            yield [p, q], opts(copy, cs, k), (0, 1), copy, cs, LS
    # three rules
    ts = [Rule(a, b, c, d) for a in ("a", "ab", "b", "ba") for b, c, d in (("x", "", ""), ("b", "a", ""), ("", "", "a"))]
    for x in itertools.product(ts, repeat=3):
        k += 1
        yield list(x), opts(True, k % 2 == 0, k), (0,), True, k % 2 == 0, lines("abB", 4) if not T else LS
    # every byte as a character: only letters of the alphabet have two cases
    for cs in (True, False):
        chars = [chr(c) for c in range(33, 256) if chr(c) not in '"[]*;#%=>_/\\' and not 0x80 <= c <= 0xa0]
        for blk in chunks(chars, 40):
            yield [Rule(c, "<%d>" % ord(c)) for c in blk], opts(True, cs, 0), (1,), True, cs, [x + c + y for c in chars for x, y in (("", ""), ("q", "Q"))]
    # a left side with a slash, quotes, brackets around spaces
    for a in ("/a", "a/b", "/", "a / b", "'a", "a'b"):
        for b in ("x", "a/b", "{a / b}", "{a b / c / @}", "/", "' b"):
            for c, e in (("", ""), (" ", " "), ("", " "), ("b", ""), ("/", ""), (" ", "/")):
                for style in (0, 1, 2):
                    if style == 0 and "/" in b and not (c or e):
                        pass
                    if style == 2 and "/" in b and not (c or e):
                        continue        # brackets, not quotes, protect a slash
                    if "/" in c + e:
                        if style == 2 or (style == 0 and True):
                            continue
                        # the mark of the context is the last slash outside brackets: not with one inside the context
                        continue
                    k += 1
                    yield [Rule(a, b, c, e)], opts(True, True, k), (style,), True, True, lines("ab/' ", 4)
    # many rules: more than one per first character, up to the number allowed
    for n, mx in ((399, None), (400, None), (1, 1), (2, 2), (7, 7), (500, 600), (600, 600), (1500, 2000)):
        rules = [Rule("w%d" % (i * 7919 % n), "v%d" % i, "", " ") if i % 3 else Rule("%cw%d" % (97 + i % 26, i % n), "u%d" % i) for i in range(n)]
        ls = [" ".join(x + " " for x in c) for c in chunks([r.a for r in rules], 37)] + ["w3x w3 "]
        h = opts(True, True, 0)
        if mx:
            h = (h[0], h[1] + ["max_nrules = '%d'" % mx])
        yield rules, h, (1,), True, True, ls
    # no rule at all; only comments
    yield [], opts(True, True, 0), (0,), True, True, LS
    yield [], opts(False, False, 1), (0,), False, False, LS
    # descriptions are not options
    for w in ("name", "desc", "format", "max_nrules", "copy_no_hit", "case_sensitive", "The format of names: case_sensitive"):
        for key in ("desc", "name"):
            yield [Rule("a", "x"), Rule("B", "y")], (";;", ['%s = "%s"' % (key, w)]), (0,), True, True, LS
    for fmt in ("NIST1", "NIST2"):
        yield [Rule("a", "x", " "), Rule("B", "y")], (";;", ['format = "%s"' % fmt]), (0,), True, True, LS
    # long rules, long comments, long lines and long results
    for n in (60, 120, 125, 129, 130, 131, 132, 133, 140, 260, 264, 600, 1800):
        w = ("abcdefghij" * 200)[:n]
        yield [Rule("q", w), Rule("r", "x"), Rule(w[:n // 3], "z", w[:n // 4], " ")], opts(True, True, 0), (0, 1), True, True, ["qq", "r q ", w + " ", w[:n // 4] + w[:n // 3] + " "]
        yield [Rule("q", "x")], (";; " + w + " a => b", ["desc = '%s'" % w[:n // 2]]), (0,), True, True, ["qaq"]
    for n in (1000, 99000):
        yield [Rule("a", "bbb"), Rule("c", "")], opts(True, True, 0), (0,), True, True, ["a" * n, "c" * n, "ac" * (n // 2), "x" * n, ""]


def body(S):
    work.S = S
    C.bounds["rules"] = "14 left sides x 10 left contexts x 10 right contexts, 14 x %d context-free rules, all ordered pairs of 30 rules, all triples of 12 rules; plain, bracketed and quoted; 1 to 1500 rules; all printable bytes" % (9 if T else 6)
    C.bounds["lines"] = "all lines over {a, b, A, blank} up to length %d (%d for rules with both contexts); copy and case switches in several spellings" % ((5, 6) if T else (4, 5))
    js = list(jobs())
    C.parallel(work, chunks(js, 24))
    work.S = build.rfilter1(san=True)
    C.parallel(work, chunks([j[:5] + (j[5][:400],) for j in js[::4]] + [j for j in js[-60:]], 24))
    C.finish()


if __name__ == "__main__":
    mc.main(build.rfilter1, body)
