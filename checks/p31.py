#!/usr/bin/env python3
"""P31: inferred word segmentation (sclite -S) finds the least-cost alignment over every segmentation the lexicon allows."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, mc, netmodel as nm, sgml, trnalign as ta
from mc import Check, Fail, chunks

C = Check("P31", "exhaustive exploration of transcripts x lexicons on the real sclite -S against an explicit-state search of the product of the fixed network and the network of all segmentations the lexicon allows",
          "every pair of transcripts under every lexicon is one aligned utterance judged by the reference model",
          ["lexicons are sorted and, when case is folded, in lower case; words the lexicon spells differently from the transcripts only by case are not explored",
           "optionally deletable words and fragments together with -S are not explored"])
T = C.thorough


def by(b):
    return b.decode("utf-8", "surrogateescape")


def raw(s):
    return s.encode("utf-8", "surrogateescape")


G1, G2 = by(b"\xb0\xa1"), by(b"\xb0\xa2")
ENC = {
    "default": ([], ("a", "b")),
    "gb": (["-e", "gb"], (G1, G2)),
    "euc": (["-e", "euc"], (by(b"\xa4\xa2"), by(b"\xb0\xa1"))),
    "utf-8": (["-e", "utf-8"], ("\u65e5", "\u00df")),
}


def cut(word, units):
    out, i = [], 0
    while i < len(word):
        for u in units:
            if len(u) > 1 and word.startswith(u, i):
                break
        else:
            u = word[i]
        out.append(u)
        i += len(u)
    return out


def split(items, enc, asciitoo):
    """the characters of a transcript; without ASCIITOO a run of ASCII characters stays one unit"""
    units = ENC[enc][1]
    out = []
    for it in items:
        if isinstance(it, tuple):
            out.append(tuple(split(a, enc, asciitoo) or ("@",) for a in it))
        elif it == "@":
            out.append(it)
        else:
            prev = False
            for c in cut(it, units):
                asc = enc == "default" or (len(c) == 1 and ord(c) < 128)
                if asc and prev and not asciitoo:
                    out[-1] += c
                else:
                    out.append(c)
                prev = asc
    return tuple(out)


def network(items, lex):
    """the network of the characters, with an arc for every run of arcs that spells a lexicon word"""
    n = nm.Net(items)
    longest = max([len(w) for w in lex] or [0])
    new = []
    for s in range(n.n):
        todo = [(s, "", 0)]
        seen = set(todo)
        while todo:
            u, w, k = todo.pop()
            if k > 1 and w in lex:
                new.append((s, w, u))
            nxt = [(v, w, k) for v in n.eps[u]]
            nxt += [(v, w + x, min(k + 1, 2)) for x, v in n.arcs[u] if len(w + x) <= longest]
            for t in nxt:
                if t not in seen:
                    seen.add(t)
                    todo.append(t)
    for s, w, u in new:
        n.arcs[s].append((w, u))
    n._topo()
    return n


def nets(enc, algo, asciitoo, lex):
    cache = {}

    def f(items, splitside):
        k = (items, splitside)
        if k not in cache:
            cache[k] = network(split(items, enc, asciitoo), lex) if splitside else nm.Net(items)
        return cache[k]

    def g(ref, hyp):
        return f(ref, algo == "algo2"), f(hyp, algo == "algo1")
    return g


def lexfile(lex, style):
    ws = sorted(lex, key=raw)
    if style == 0:
        return "".join(w + "\n" for w in ws)
    if style == 1:      # further columns are not part of the word
        return "".join("%s\t%s 12\n" % (w, ws[-1 - i]) for i, w in enumerate(ws))
    if style == 2:      # blanks before the word, no newline at the end
        return "\n".join("  %s x" % w for w in ws)
    return "".join((w + "\n") * 2 for w in ws)


def segmentations(chars):
    """every way of cutting a character sequence into words"""
    if not chars:
        yield ()
        return
    n = len(chars)
    for m in range(1 << (n - 1)):
        out, cur = [], chars[0]
        for i in range(1, n):
            if m >> (i - 1) & 1:
                out.append(cur)
                cur = chars[i]
            else:
                cur += chars[i]
        yield tuple(out + [cur])


def lexicons(u):
    two = ["".join(t) for t in itertools.product(u, repeat=2)]
    three = ["".join(t) for t in itertools.product(u, repeat=3)]
    for m in range(1 << len(two)):
        yield [w for i, w in enumerate(two) if m >> i & 1]
    for w in three:
        yield [w]
        yield [w, w[:len(w) * 2 // 3]]
        yield [w, two[0], two[1], u[0]]
    yield two + three
    if T:
        for a, b in itertools.combinations(three, 2):
            yield [a, b, two[1], two[2]]
        for t in itertools.product(u, repeat=4):
            w = "".join(t)
            yield [w]
            yield [w] + two
        yield two + three + ["".join(t) for t in itertools.product(u, repeat=4)]


def texts(u, n):
    for k in range(0, n + 1):
        for t in itertools.product(u, repeat=k):
            yield from segmentations(t)


def fewer(u, n):
    """every character sequence, once as a single word and once with a cut in each place at most once"""
    for k in range(0, n + 1):
        for t in itertools.product(u, repeat=k):
            yield ("".join(t),) if t else ()
            for i in range(1, k):
                yield "".join(t[:i]), "".join(t[i:])
            if k > 2:
                yield t


def plain(u):
    n = 4
    fixed = list(texts(u, n if T else 3)) + ([] if T else [t for t in fewer(u, 4) if sum(len(cut(w, u)) for w in t) == 4])
    spl = list(fewer(u, n))
    if not T:
        spl = [t for t in spl if len(t) < 3]
    return [(f, s) for f in fixed for s in spl]


def alternations(u):
    x, y = u
    one = [x, y, x + y, y + x, "@"]
    for a, b in itertools.permutations(one, 2):
        alt = (((a,), (b,)),)
        for c in (x, y, x + y):
            for d in ((x + y,), (x, y), (y + x + y,), (x + x, y), (x + y + x, x + y), (x, y, x + y)):
                yield d, alt + (c,)
                yield d, (c,) + alt
                yield alt + (c,), d
                yield (c,) + alt, d
            yield (x + y + c,), (x, ((a, c), (b,)), y)
            yield (((((a,), (b,)),), (c,)), y), (x, ((x,), ("@",), (y, y)), x)


def mixed(u):
    """ASCII words next to other characters"""
    x = u[0]
    ws = ["ab", "a", x, x + "a", "a" + x, "ab" + x, x + "ba", x + x, "ab" + x + "b"]
    for f in [(w,) for w in ws] + list(itertools.product(ws, repeat=2)):
        for s in [(w,) for w in ws] + [(a, b) for a in ws[:5] for b in ws]:
            yield f, s


def work(arg, st, fails, samples):
    enc, algo, too, cs, lex, style, batch = arg
    if algo == "algo2":
        batch = [(b, a) for a, b in batch]
    sem = ta.Sem(case_sens=cs)
    f = nets(enc, algo, too, set(lex))
    extra = ENC[enc][0] + ["-S", algo, "lex"] + (["ASCIITOO"] if too else [])
    ta.check(work.S + "/sclite", sem, batch, st, fails, samples, "-S %s%s (%s) lexicon %r" % (algo, " ASCIITOO" if too else "", enc, sorted(lex)[:20]),
             extra=extra, nets=f, more={"lex": lexfile(lex, style)})


def upper(cases):
    """the same texts with some letters in upper case"""
    def up(items, k):
        out = []
        for i, it in enumerate(items):
            out.append(tuple(up(a, k + j + 1) for j, a in enumerate(it)) if isinstance(it, tuple) else
                       "".join(c.upper() if (i + j + k) % 3 != 2 else c for j, c in enumerate(it)))
        return tuple(out)
    return [(up(a, i), up(b, i // 3)) for i, (a, b) in enumerate(cases)]


def timed(arg, st, fails, samples):
    """with times: a segmented word lasts from its first character to its last; the stm side keeps its words"""
    enc, algo, too, lex, pairs = arg
    f = nets(enc, algo, too, set(lex))
    stm, ctm, want = [], [], []
    for k, (ref, hyp) in enumerate(pairs):
        t = 10 * k
        stm.append("f 1 s %d %d %s\n" % (t, t + 10, nm.text(ref)))
        at = []
        for i, w in enumerate(hyp):
            ctm.append("f 1 %.2f %.2f %s 0.5\n" % (t + 1 + i, .9, w))
            cs = split((w,), enc, too) if algo == "algo1" else (w,)
            at += [(c, t + 1 + i + .9 * j / len(cs), t + 1 + i + .9 * (j + 1) / len(cs)) for j, c in enumerate(cs)]
        want.append(at)
    # the recogniser output starts outside the segments, so that the file is never empty
    files = {"r.stm": "".join(stm) + "f 1 s %d %d a\n" % (10 * len(pairs), 10 * len(pairs) + 10), "h.ctm": "".join(ctm) + "f 1 %d 1 a 0.5\n" % (10 * len(pairs) + 1), "lex": lexfile(lex, 0)}
    cmd = [timed.S + "/sclite", "-r", "r.stm", "stm", "-h", "h.ctm", "ctm"] + ENC[enc][0] + ["-S", algo, "lex"] + (["ASCIITOO"] if too else []) + ["-o", "sgml", "stdout", "-f", "0"]
    rc, out, err, _ = mc.run_in(files, cmd)
    st.add(traces=len(pairs), states=len(pairs))

    def bad(m):
        fails.append(Fail("timed %s: %s" % (" ".join(cmd[1:]), m), files=files, cmd=" ".join(["sclite"] + cmd[1:])).pack())
    if rc != 0:
        return bad("ended with %s: %r" % (rc, (out + err)[-300:]))
    ps = sgml.parse(out)[0].paths
    if len(ps) != len(pairs) + 1:
        return bad("%d utterances for %d segments" % (len(ps), len(pairs) + 1))
    sem = ta.Sem()
    for (ref, hyp), at, p in zip(pairs, want, ps):
        m = ta.judge(sem, ref, hyp, p, st, f)
        if m:
            return bad("ref '%s' hyp '%s': %s; alignment %s" % (nm.text(ref), nm.text(hyp), m, p.raw[:300]))
        i = 0
        for w in p.words:
            if w[2] is None:
                continue
            j, s = i, ""
            while s != w[2] and j < len(at):
                s += at[j][0]
                j += 1
            a, b = (float(x) for x in w[3].split("+"))
            if s != w[2] or abs(a - at[i][1]) > .0011 or abs(b - at[j - 1][2]) > .0011:
                return bad("ref '%s' hyp '%s': word %r carries the time %s" % (nm.text(ref), nm.text(hyp), w[2], w[3]))
            i = j


def refusals():
    base = {"r.trn": "a b (s-1)\n", "h.trn": "a b (s-1)\n", "lex": "ab\n"}
    S = work.S + "/sclite"
    for name, opts in (("no lexicon file", ["-S", "algo1", "nolex"]), ("unknown algorithm", ["-S", "algo3", "lex"]),
                       ("unknown flag", ["-S", "algo1", "lex", "FOO"]), ("no lexicon named", ["-S", "algo2"]), ("with -d", ["-S", "algo1", "lex", "-d"])):
        cmd = [S, "-r", "r.trn", "-h", "h.trn", "-i", "spu_id", "-o", "sgml", "stdout", "-f", "0"] + opts
        rc, out, err, _ = mc.run_in(base, cmd)
        C.stats.add(states=1, traces=1)
        if rc == 0:
            C.fails.append(Fail("%s: sclite %s ended successfully" % (name, " ".join(opts)), files=base, cmd=" ".join(["sclite"] + cmd[1:])).pack())


def body(S):
    work.S = timed.S = S
    jobs, tj = [], []
    for enc in ENC:
        u = ENC[enc][1]
        too = enc == "default"
        base, alts, mix = plain(u), list(alternations(u)), list(mixed(u))
        for k, lex in enumerate(lexicons(u)):
            if not T and k % {"default": 1, "gb": 3}.get(enc, 8):
                continue
            for algo in ("algo1", "algo2"):
                cs = (base if T else base[k % 2::2]) + alts
                for b in chunks(cs, 3000):
                    jobs.append((enc, algo, too, k % 2 == 1, lex, k % 4, b))
                if too and (T or k % 4 == 0):
                    jobs.append((enc, algo, too, False, lex, 0, upper(cs[k % 3::3])))
                if T or k % 6 == 0:
                    tp = [(a, b) if algo == "algo1" else (b, a) for a, b in base if a and b]
                    for b in chunks(tp if T else tp[k % 7::7], 400):
                        tj.append((enc, algo, too, lex, b))
        # mixed texts, with and without ASCIITOO
        if enc != "default":
            x = u[0]
            for lex in ([], ["ab"], [x + "a", "a" + x], ["ab" + x, "ba"], [x + "ab", x + x, "a" + x + "a"], ["ab", "aba", "a" + x, x + "a", x + "b", x + x, "ab" + x, x + "ba"]):
                for algo in ("algo1", "algo2"):
                    for t in (False, True):
                        jobs.append((enc, algo, t, False, lex, 1, mix))
                        if enc == "gb":
                            jobs.append((enc, algo, t, False, lex, 0, upper(mix)))
                            jobs.append((enc, algo, t, True, lex, 0, upper(mix)))
        else:
            for algo in ("algo1", "algo2"):      # plain ASCII words are not cut without ASCIITOO
                for lex in ([], ["ab"], ["aa", "ab", "aba", "ba"]):
                    jobs.append((enc, algo, False, False, lex, 0, base[::3] + alts))
        # a long lexicon, longer words
        long = sorted({"".join(t) for k in range(2, 9) for t in itertools.product(u, repeat=k)}, key=raw)
        lt = [("".join(t[:7]), "".join(t[7:])) for t in itertools.product(u, repeat=9)]
        lc = [(t, (t[0] + t[1],)) for t in lt[::2]] + [((t[0][:len(t[0]) // 7 * 4] + t[1],), t) for t in lt[::7]]
        for algo in ("algo1", "algo2"):
            jobs.append((enc, algo, too, True, long, 0, lc))
            jobs.append((enc, algo, too, True, long[::3], 1, lc))
    C.bounds["texts"] = "every segmentation of every text of up to %d characters over two characters against every text of up to 4 characters%s; alternations and null words on either side; ASCII words mixed with other characters; words of 7-9 characters" % (4 if T else 3, "" if T else " in at most two words (alternating halves over the lexicons)")
    C.bounds["lexicons"] = "every subset of the two-character words, each three-character word alone and with shorter ones, all words%s; up to 508 words; four file layouts; 4 encodings" % (", four-character words" if T else "")
    C.parallel(work, jobs)
    C.parallel(timed, tj)
    refusals()
    C.finish()


if __name__ == "__main__":
    mc.main(build.sclite, body)
