#!/usr/bin/env python3
"""P08: character scoring is word scoring of the characters."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, mc, netmodel as nm, sgml, trnalign as ta
from mc import Check, Fail, chunks

C = Check("P08", "exhaustive exploration of transcripts on the real sclite -c against least-cost alignment of the character sequences (explicit-state search of the product of both networks)",
          "every pair of transcripts of each family is one aligned utterance judged by the reference model",
          ["letters whose case folding is not plain ASCII are left to P12"])
T = C.thorough


def by(b):
    return b.decode("utf-8", "surrogateescape")


# encoding -> (option, characters)
ENC = {
    "default": ([], ["a", "b", "-", by(b"\xe9"), by(b"\xff")]),
    "gb": (["-e", "gb"], ["a", "b", "-", by(b"\xb0\xa1"), by(b"\xb0\xa2")]),
    "euc": (["-e", "euc"], ["a", "-", by(b"\xa4\xa2"), by(b"\xa4\xa4"), by(b"\xb0\xa1")]),
    "guarani": (["-e", "utf-8", "babel_guarani"], ["a", "-", "g", "g\u0303", "\u00f1"]),    # g with a tilde is one letter
    "utf-8": (["-e", "utf-8"], ["a", "-", "\u00df", "\u65e5", "\u672c", "\U0001d11e"]),
}
FLAGS = [(), ("NOASCII",), ("DH",), ("NOASCII", "DH")]


def splitter(enc, flags):
    ascii_only = enc != "default"

    def chars(w):
        """w: tuple of characters"""
        if "DH" in flags:
            w = tuple(c for c in w if c != "-")
        out = []
        prev = False
        for c in w:
            asc = not ascii_only or (len(c) == 1 and ord(c) < 128)
            if "NOASCII" in flags and asc and prev:
                out[-1] += c
            else:
                out.append(c)
            prev = asc
        return out

    units = ENC[enc][1]

    def cut(word):
        """text of a word -> its characters"""
        out, i = [], 0
        while i < len(word):
            for u in sorted(units, key=len, reverse=True):
                if word.startswith(u, i):
                    break
            else:
                u = word[i]
            out.append(u)
            i += len(u)
        return tuple(out)

    def model(items):
        out = []
        for it in items:
            if isinstance(it, tuple):
                alts = []
                for a in it:
                    m = model(a)
                    alts.append(m if m else ("@",))
                out.append(tuple(alts))
            elif it == "@":
                out.append("@")
            else:
                out += chars(cut(it))
        return tuple(out)
    return model


def wordlist(enc, n):
    u = ENC[enc][1]
    return ["".join(t) for k in range(1, n + 1) for t in itertools.product(u, repeat=k)]


def cases(enc):
    w2, w3 = wordlist(enc, 2), wordlist(enc, 3)
    short = w3 if T else w2
    # one word against one word
    for a in w3:
        for b in short:
            yield (a,), (b,)
    for a in w2:
        yield (), (a,)
        yield (a,), ()
    # two words against one or two: the word boundary must not matter
    w1 = wordlist(enc, 1)
    for a in w2:
        for b in w2 if T else w1:
            for c in w2:
                yield (a, b), (c,)
                if T:
                    yield (c,), (a, b)
    # alternations
    for a in w2[:18] if not T else w2:
        for b in w1 + w2[-3:]:
            for c in w1:
                yield (((a,), (b,)), c), (a[-1:] + c if enc == "default" else a, c)
                yield (((a,), ("@",), (b, c)),), (b + c,)
                yield (b, c), (((a,), (b + c,)), a)
    # lengths across the buffer sizes, at every alignment of the character widths
    us = ENC[enc][1]
    for n in list(range(20, 60)) + list(range(90, 115)) + ([200, 201, 333, 700] if not T else list(range(115, 420, 3))):
        for u in us:
            if u == "-":
                continue
            yield (u * n,), (u * (n - 1),)
            yield ("".join(us[k % len(us)] for k in range(n)),), (u * 3 + "".join(us[k % len(us)] for k in range(n)),)


def work(arg, st, fails, samples):
    enc, flags, cs, batch = arg
    sem = ta.Sem(case_sens=cs)
    ta.check(work.S + "/sclite", sem, batch, st, fails, samples, "-c %s (%s)" % (" ".join(flags), enc),
             extra=ENC[enc][0] + ["-c"] + list(flags), model=splitter(enc, flags))


# timed: each character takes an equal share of the word's time and the word's confidence
def timed(arg, st, fails, samples):
    enc, flags, ws = arg
    model = splitter(enc, flags)
    ctm, stm, exp = [], [], []
    for k, w in enumerate(ws):
        t = 10 * k
        ctm.append("f 1 %d.5 0.6 %s 0.%d\n" % (t, w, 25 + k % 50))
        ctm.append("f 1 %d.5 0.9 %s 0.75\n" % (t + 2, "ab"))
        stm.append("f 1 spk %d %d a b\n" % (t, t + 10))
        e = []
        for w2, a, d, c in ((w, t + .5, .6, "0.%d0000" % (25 + k % 50)), ("ab", t + 2.5, .9, "0.750000")):
            m = model((w2,))
            for i, ch in enumerate(m):
                e.append((ch, a + d * i / len(m), a + d * (i + 1) / len(m), c))
        exp.append(e)
    files = {"r.stm": "".join(stm), "h.ctm": "".join(ctm)}
    cmd = [work.S + "/sclite", "-r", "r.stm", "stm", "-h", "h.ctm", "ctm", "-s", "-c"] + list(flags) + ENC[enc][0] + ["-o", "sgml", "stdout", "-f", "0"]
    rc, out, err, _ = mc.run_in(files, cmd)
    st.add(states=len(ws), traces=len(ws), transitions=sum(map(len, exp)))

    def bad(m):
        fails.append(Fail("timed -c %s (%s): %s" % (" ".join(flags), enc, m), files=files, cmd=" ".join(cmd)).pack())
    if rc != 0:
        return bad("sclite ended with %s: %r" % (rc, (out + err)[-300:]))
    ps = sgml.parse(out)[0].paths
    if len(ps) != len(ws):
        return bad("%d utterances" % len(ps))
    for w, p, e in zip(ws, ps, exp):
        got = [(x[2],) + tuple(x[3].split("+")) + (x[4],) for x in p.words if x[2] is not None]
        ok = len(got) == len(e) and all(g[0] == x[0] and abs(float(g[1]) - x[1]) < .0011 and abs(float(g[2]) - x[2]) < .0011 and g[3] == x[3] for g, x in zip(got, e))
        if not ok:
            return bad("word %r: characters %r, expected %r" % (w, got, e))


def body(S):
    work.S = S
    C.bounds["words"] = "one word of up to 3 characters against one of up to %d, two words against one, alternations; over 5-6 characters per encoding including the hyphen and 1- to 4-byte characters; 4 encodings and Guarani x 4 flag sets" % (3 if T else 2)
    C.bounds["lengths"] = "words of 20-%d characters of each width" % (420 if T else 700)
    jobs = []
    for enc in ENC:
        cs = list(cases(enc))
        C.stats.add(pairs=len(cs) * 4)
        for flags in FLAGS:
            for i, b in enumerate(chunks(cs, 1000)):
                jobs.append((enc, flags, i % 2 == 1, b))
    C.parallel(work, jobs)
    C.parallel(timed, [(e, f, b) for e in ENC for f in FLAGS for b in chunks(wordlist(e, 4 if T else 3), 60)])
    C.finish()


if __name__ == "__main__":
    mc.main(build.sclite, body)
