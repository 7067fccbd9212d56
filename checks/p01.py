#!/usr/bin/env python3
"""P01: every sclite transcript alignment is faithful to both transcripts and of least cost."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, mc, trnalign
from mc import Check, chunks

C = Check("P01", "explicit-state exploration: all transcript pairs up to a bound run through sclite, each alignment "
          "compared with the least cost over the full reference x hypothesis state graph",
          "every (reference, hypothesis) pair of each family below, no sampling",
          ["null words and markers behave per doc/sclite.htm; costs 0/3/3/4",
           "letters are interchangeable beyond equality and letter case"])
T = C.thorough
CS, CI = trnalign.Sem(case_sens=True), trnalign.Sem()


def seqs(alpha, n, lo=0):
    for k in range(lo, n + 1):
        yield from itertools.product(alpha, repeat=k)


ALTS = [
    (("a",), ("b",)),
    (("a",), ("@",)),
    (("@",), ("a",)),
    (("a", "b"), ("a",)),
    (("a",), ("b", "a")),
    (("a", "b"), ("b", "a"), ("@",)),
    (("a",), ((("b",), ("c",)),)),
    (("a", (("b",), ("@",))), ("c",)),
    (((("a",), ("b", "c")), "a"), ("b",)),
    ((("a",), ("b",), ("c",))),
    (((("a",), ("@",)), (("b",), ("@",))), ("c", "c")),
    (("a", "a", "a"), ("b",)),
    (((("a",), (((("b",), ("c",)),), ("@",)),)[0:1] + ("a",)), ("b",)),
]


def fam_linear():
    n = 5 if T else 4
    C.bounds["linear"] = "all pairs over {a,b,c}, each side 0..%d words" % n
    L = list(seqs("abc", n))
    for r in L:
        for h in L:
            yield r, h


def fam_linear2():
    n = 7 if T else 6
    C.bounds["linear2"] = "all pairs over {a,b}, ref starting with a, each side 0..%d words" % n
    L = list(seqs("ab", n))
    for r in L:
        if r and r[0] == "b":
            continue
        for h in L:
            yield r, h


def fam_case():
    C.bounds["case"] = "all pairs over {a,A,B}, each side 0..3 words, with and without -s"
    L = list(seqs(["a", "A", "B"], 3))
    for r in L:
        for h in L:
            yield r, h


def fam_alt(hyp_alts):
    items = ["a", "b", "@"] + [tuple(x) for x in ALTS]
    n, m = (2, 4) if T else (2, 3)
    C.bounds["alternations"] = ("one side all sequences of 1..%d items from {a,b,@} and %d alternations (nested, "
                                "multi-word, null), other side all sequences over {a,b,c} of 0..%d words; both ways round"
                                % (n, len(ALTS), m))
    nets = [r for r in seqs(items, n, 1) if any(isinstance(i, tuple) or i == "@" for i in r)]
    L = list(seqs("abc", m))
    for r in nets:
        for h in L:
            yield (h, r) if hyp_alts else (r, h)


def fam_alt3():
    items = ["a"] + [tuple(ALTS[i]) for i in (1, 3, 5, 7)]
    C.bounds["alternations3"] = "ref: all sequences of exactly 3 items from {a} and 4 alternations; hyp over {a,b} 0..3 words"
    L = list(seqs("ab", 3))
    for r in itertools.product(items, repeat=3):
        for h in L:
            yield r, h


def fam_altalt():
    C.bounds["both"] = "an alternation on each side (+ one word either side), all pairs"
    A = [tuple(x) for x in ALTS]
    for x in A:
        for y in A:
            for pre, post in (((), ()), (("a",), ()), ((), ("b",))):
                yield pre + (x,) + post, (y,)
                yield pre + (x,) + post, pre + (y,)
                yield (x, x), (y,) + post


def fam_long():
    """every length up to a bound, one edit at every place of a set of places"""
    N = 420 if T else 230
    C.bounds["long"] = "every length 1..%d; identical, and one deletion / insertion / substitution at first, second, middle, last-1, last place; two edits at the ends; empty other side" % N
    for n in range(1, N + 1):
        r = tuple("w%d" % (i % 7) for i in range(n))
        yield r, r
        yield r, ()
        yield (), r
        for p in sorted({0, 1, n // 2, n - 2, n - 1}):
            if 0 <= p < n:
                yield r, r[:p] + r[p + 1:]
                yield r, r[:p] + ("x",) + r[p:]
                yield r, r[:p] + ("x",) + r[p + 1:]
        yield r, ("x",) + r + ("x",)
        yield r, r[1:] + ("x",)


def fam_wide():
    W, D, S = (16, 10, 10) if T else (10, 7, 7)
    C.bounds["wide"] = "alternations of 2..%d alternatives (one or two words each) with the matching one at every position; nested 1..%d deep with the matching word at every level; 1..%d alternations in series; on either side, alone and between words" % (W, D, S)
    def both(n, t):
        yield n, t
        yield t, n
    for n in range(2, W + 1):
        for p in range(n):
            for two in (0, 1):
                alt = tuple(("m",) if i == p else ("x%d" % i, "y")[:1 + two] for i in range(n))
                alt2 = tuple(("m", "n") if i == p else ("x%d" % i, "y", "n")[:1 + two] for i in range(n))
                for a, t in ((alt, ("m",)), (alt2, ("m", "n"))):
                    yield from both((a,), t)
                    yield from both((a, "z"), t + ("z",))
                    yield from both(("u", a, "z"), ("u",) + t + ("z",))
    for d in range(1, D + 1):
        for lvl in range(d):
            for order in (0, 1):
                net = ("e",)
                for k in range(d):
                    w = ("m",) if k == lvl else ("x%d" % k,)
                    net = ((w, net),) if order else ((net, w),)
                yield from both(net + ("z",), ("m", "z"))
                yield from both(("u",) + net, ("u", "m"))
    for k in range(1, S + 1):
        a = (("a",), ("b", "c"), ("@",))
        for t in ((), ("a",) * k, ("b", "c") * k, ("a", "b", "c") * (k // 2), ("c",) * k, ("a",) * (k + 1)):
            yield from both((a,) * k, t)
            yield from both((a,) * k + ("z",), t + ("z",))


def fam_wordlen():
    N = 600 if T else 260
    C.bounds["wordlen"] = "every word length 1..%d: same word, last letter differs, one letter longer" % N
    for n in range(1, N + 1):
        w = ("abcdefghij" * (n // 10 + 1))[:n]
        for h in (w, w[:-1] + "z", w + "k", "z" + w[1:]):
            yield ("u", w, "v"), ("u", h, "v")
            yield (w,), (h,)
            yield ((((w,), ("q",))), "v"), (h, "v")


class Refused(Exception):
    pass


def parse(text):
    """what a transcript stands for, marks anywhere in it; Refused when an alternation is not closed or is empty"""
    out, i, n = [], 0, len(text)
    while True:
        while i < n and text[i] == " ":
            i += 1
        if i == n:
            return tuple(out)
        j = i
        if text[i] == "{":
            depth = 0
            while j < n:
                depth += {"{": 1, "}": -1}.get(text[j], 0)
                j += 1
                if depth == 0:
                    break
            if depth:
                raise Refused()
            alts, cur, depth = [], "", 0
            for c in text[i + 1:j - 1]:
                depth += {"{": 1, "}": -1}.get(c, 0)
                if c == "/" and depth == 0:
                    alts.append(cur)
                    cur = ""
                else:
                    cur += c
            alts = [parse(a) for a in alts + [cur] if a.strip()]
            if not alts:
                raise Refused()
            out.append(tuple(alts))
        else:
            while j < n and text[j] != " ":
                j += 1
            out.append(text[i:j])
        i = j


def stands_for(raw):
    return parse(" ".join(raw))


def marks():
    n = 5 if T else 4
    toks = ["a", "b", "{", "}", "/", "{a", "b}", "a{b", "}a"]
    C.bounds["marks"] = "every transcript of at most %d of %d words, braces and slashes, as reference and as hypothesis: read, or refused when an alternation is not closed or is empty" % (n, len(toks))
    ok, no = [], []
    for r in seqs(toks, n):
        try:
            stands_for(r)
            ok.append(r)
        except Refused:
            no.append(r)
    return [("ok", [c for r in ch for c in ((r, ("a", "b")), (("b",), r))]) for ch in chunks(ok, 400)] + [("no", ch) for ch in chunks(no if T else [r for i, r in enumerate(no) if len(r) < 4 or i % 3 == 0], 200)]


def work_marks(arg, st, fails, samples):
    kind, cases = arg
    exe = os.path.join(BIN, "sclite")
    if kind == "ok":
        return trnalign.check(exe, CI, cases, st, fails, samples, "marks", model=stands_for)
    for k, r in enumerate(cases):
        c = (r, ("a",)) if k % 2 else (("a",), r)
        files, cmd, rc, out, err = trnalign.run_cases(exe, CI, [c])
        st.add(traces=1, states=1)
        if rc <= 0 or b"<PATH" in out:
            fails.append(mc.Fail("marks: transcript '%s' cannot be read, but sclite exited with %s" % (" ".join(r), rc), files=files, cmd=" ".join(cmd[1:]), key="marks|" + " ".join(r)).pack())


def work(arg, st, fails, samples):
    what, sem, cases = arg
    trnalign.check(os.path.join(BIN, "sclite"), sem, cases, st, fails, samples, what)


def jobs():
    for what, sems, gen, size in (
            ("linear", [CI], fam_linear(), 1500), ("linear2", [CI], fam_linear2(), 1500),
            ("case", [CI, CS], fam_case(), 800),
            ("alternations", [CI], fam_alt(False), 1000), ("alternations-hyp", [CI], fam_alt(True), 1000),
            ("alternations3", [CI], fam_alt3(), 700), ("both", [CI], fam_altalt(), 500),
            ("long", [CI], fam_long(), 100), ("wide", [CI], fam_wide(), 300), ("wordlen", [CI, CS], fam_wordlen(), 400)):
        for ch in chunks(gen, size):
            for s in sems:
                yield what, s, ch


def body(d):
    global BIN
    BIN = d
    C.parallel(work_marks, marks())
    C.parallel(work, jobs())
    C.finish()


mc.main(build.sclite, body)
