#!/usr/bin/env python3
"""P02: optionally deletable words (-D) and fragments (-F)."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, mc, trnalign
from mc import Check, chunks

C = Check("P02", "explicit-state exploration of all transcript pairs over plain, optional and fragment words under every option combination",
          "every pair of each family under every listed option combination, no sampling",
          ["an optional word is one written in parentheses; omission costs 2"])
T = C.thorough
SEMS = [trnalign.Sem(s, f, d) for s in (False, True) for f in (False, True) for d in (False, True)]
TOK = ["ab", "a", "(ab)", "(a)", "a-", "-b", "(a-)", "(-b)", "b-", "-"]


def seqs(alpha, n, lo=0):
    for k in range(lo, n + 1):
        yield from itertools.product(alpha, repeat=k)


def fam_tokens():
    C.bounds["tokens"] = "all pairs over %s, each side 0..2 words, all 8 combinations of -s -F -D" % TOK
    L = list(seqs(TOK, 2))
    for r in L:
        for h in L:
            yield r, h


def fam_opt():
    n = 4 if T else 3
    C.bounds["optional"] = "all pairs, ref over {a,b,(a),(B)}, hyp over {a,b,(a)}, 0..%d words, -D and -D -s" % n
    for r in seqs(["a", "b", "(a)", "(B)"], n):
        for h in seqs(["a", "b", "(a)"], n):
            yield r, h


def fam_opt_alt():
    alts = [(("(a)",), ("b",)), (("(a)", "b"), ("@",)), (("a", "(b)"), ("b", "(a)")), (("(a)",), ("@",)), (("a-",), ("(b)",))]
    C.bounds["optional-alternations"] = "ref 1..2 items from {a,(b)} and 5 alternations holding optional words / fragments; hyp over {a,b,ab} 0..3; -D, -F, -D -F; and swapped"
    for r in seqs(["a", "(b)"] + alts, 2, 1):
        if not any(isinstance(i, tuple) for i in r):
            continue
        for h in seqs(["a", "b", "ab"], 3):
            yield r, h
            yield h, r


def fam_frag():
    words = ["".join(x) for k in (1, 2, 3) for x in itertools.product("ab", repeat=k)]
    fr = words + [w + "-" for w in words] + ["-" + w for w in words] + ["a-b", "-a-", "--", "(ab-)", "(-ab)", "(ba-)"]
    C.bounds["fragments"] = "all ordered pairs of single words from %d words and fragments over {a,b} up to 3 letters, alone and beside a common word" % len(fr)
    for x in fr:
        for y in fr:
            yield (x,), (y,)
            yield ("c", x), (y, "c")


def fam_length():
    N = 120 if T else 48
    C.bounds["length"] = "fragments and optionally deletable words of every length 1..%d against the word itself, longer words, and words differing at the first, last, and every eighth place; both sides" % N
    for n in range(1, N + 1):
        w = "".join("abcdefgh"[(i * 3 + i // 8) % 8] for i in range(n))
        vs = {w, "x" + w, w + "x", w[1:], w[:-1]} | {w[:i] + "z" + w[i + 1:] for i in set(range(0, n, 8)) | {0, n - 1, n // 2}}
        for v in sorted(x for x in vs if x):
            for f in (w + "-", "-" + w, "(" + w + ")", "(" + w + "-)", "(-" + w + ")"):
                yield (f, "q"), (v, "q")
                yield (v,), (f,)


def work(arg, st, fails, samples):
    what, sem, cases = arg
    trnalign.check(os.path.join(BIN, "sclite"), sem, cases, st, fails, samples, what)


def jobs():
    D = [s for s in SEMS if s.od and not s.frag]
    DF = [s for s in SEMS if (s.od or s.frag) and not s.cs]
    for what, sems, gen, size in (("tokens", SEMS, fam_tokens(), 1500), ("optional", D, fam_opt(), 1500),
                                  ("optional-alternations", DF, fam_opt_alt(), 800), ("fragments", SEMS, fam_frag(), 1500),
                                  ("length", DF, fam_length(), 1500)):
        for ch in chunks(gen, size):
            for s in sems:
                yield what, s, ch


def body(d):
    global BIN
    BIN = d
    C.parallel(work, jobs())
    C.finish()


mc.main(build.sclite, body)
