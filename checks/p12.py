#!/usr/bin/env python3
"""P12: case-insensitive scoring ignores letter case and nothing else."""
import itertools, os, shutil, sys, unicodedata
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, mc, sgml
from mc import Check, Fail, chunks, newdir

C = Check("P12", "exhaustive enumeration of the characters of every encoding under every localization on the real sclite, against case tables built independently from the Unicode character database and the languages' alphabets",
          "every character (and every pair of characters that could be confused) is one scored word",
          ["text is valid in its encoding", "blanks and the characters with a meaning of their own in transcripts are not words: \" \\ ; { } / @ ( ) * < > ="])
T = C.thorough
SPECIAL = set('"\\;{}/@()*<>=')


def pairs(letters):
    return {c: c.lower() for c in letters}


def vietnamese():
    out = "\u0110"
    for v in "AEIOUY":
        for shape in ["", "\u0306", "\u0302", "\u031b"]:     # breve, circumflex, horn
            for tone in ["", "\u0301", "\u0300", "\u0309", "\u0303", "\u0323"]:
                if (v, shape) in (("A", "\u0306"), ("A", "\u0302"), ("E", "\u0302"), ("O", "\u0302"), ("O", "\u031b"), ("U", "\u031b")) or shape == "":
                    c = unicodedata.normalize("NFC", v + shape + tone)
                    assert len(c) == 1
                    out += c
    return out


RU = "АБВГДЕЁЖЗИЙКЛМНОПРСТУФХЦЧШЩЪЫЬЭЮЯ"
LANG = {
    None: {}, "generic": {},
    "babel_turkish": {**pairs("ÇĞÖŞÜ"), "İ": "i", "I": "ı"},
    "babel_vietnamese": {c: l for c, l in pairs(vietnamese()).items() if ord(c) > 127},
    "babel_lithuanian": pairs("ĄČĘĖĮŠŲŪŽ"),
    "babel_kurmanji": pairs("ÇÊÎŞÛ"),
    "babel_cebuano": pairs("Ñ"),
    "babel_kazakh": pairs(RU + "ӘҒҚҢӨҰҮҺІ"),
    "babel_mongolian": pairs(RU + "ӨҮ"),
    "babel_guarani": pairs("ÃÁẼÉĨÍÕÓŨÚỸÝÑ"),
    "ukrainian": pairs(c for c in map(chr, range(0x400, 0x500)) if c.lower() != c and c != "\u04c0"),
}


class Enc:
    """name, localization, codec used to write files, fold"""

    def __init__(self, enc, loc):
        self.enc, self.loc = enc, loc
        self.tab = LANG[loc]

    def opts(self):
        return (["-e", self.enc] + ([self.loc] if self.loc else [])) if self.enc else []

    def fold(self, c):
        if c in self.tab:
            return self.tab[c]
        if c.isascii():
            return c.lower()
        if self.enc == "ext_ascii" and 192 <= ord(c) <= 222 and ord(c) != 215:
            return chr(ord(c) + 32)
        return c

    def foldw(self, w):
        return "".join(map(self.fold, w))

    @property
    def codec(self):
        return {"utf-8": "utf-8", "gb": "gb2312x", "euc": "gb2312x"}.get(self.enc, "latin-1")

    def bytes(self, w):
        if self.codec == "gb2312x":         # a two-byte character is a private code point
            return b"".join(bytes([ord(c)]) if ord(c) < 128 else bytes([0x80 | (ord(c) - 0xE000) // 256, (ord(c) - 0xE000) % 256]) for c in w)
        return w.encode(self.codec)

    def chars(self):
        ascii_ = [chr(k) for k in range(33, 127) if chr(k) not in SPECIAL]
        if self.enc == "utf-8":
            bmp = [chr(k) for k in itertools.chain(range(0xA1, 0x2000) if not T else range(0xA1, 0xD800), [0x2c00, 0x2c30, 0xa640, 0xff21, 0xff41, 0x4e00, 0xfffd], range(0x1e00, 0x1f00))]
            sup = [chr(k) for k in [0x10000, 0x10400, 0x10428, 0x1f600, 0x1ffff] + ([0x20000, 0x2a6df, 0xe0100, 0x10ffff])]
            return ascii_ + bmp + sup
        if self.codec == "gb2312x":
            return ascii_ + [chr(0xE000 + 256 * (a & 0x7f) + b) for a in range(0xA1, 0xFF) for b in range(0xA1, 0xFF)]
        return ascii_ + [chr(k) for k in range(161, 256)]


def run(enc, cs, utts, fmt, st, fails):
    """utts: list of (ref words, hyp words); all alignments are expected word by word"""
    d = newdir()
    files = {}
    try:
        b = enc.bytes
        if fmt == "trn":
            files["r"] = b"".join(b" ".join(map(b, r)) + b" (s_%d)\n" % k for k, (r, h) in enumerate(utts))
            files["h"] = b"".join(b" ".join(map(b, h)) + b" (s_%d)\n" % k for k, (r, h) in enumerate(utts))
            inp = ["-r", "r", "-h", "h", "-i", "spu_id"]
        else:
            files["r"] = b"".join(b"f 1 s%d %d %d %s\n" % (k % 7, 64 * k, 64 * k + 64, b" ".join(map(b, r))) for k, (r, h) in enumerate(utts))
            files["h"] = b"".join(b"f 1 %g 0.125 %s\n" % (64 * k + j, b(w)) for k, (r, h) in enumerate(utts) for j, w in enumerate(h))
            inp = ["-r", "r", "stm", "-h", "h", "ctm"]
        for n, t in files.items():
            open(os.path.join(d, n), "wb").write(t)
        cmd = [work.S + "/sclite"] + inp + enc.opts() + (["-s"] if cs else []) + ["-o", "sgml", "-O", ".", "-n", "out", "-f", "0"]
        rc, o, e = mc.run(cmd, cwd=d)
        if rc != 0:
            raise Fail("sclite ended with %s: %r" % (rc, (o + e)[-300:]))
        ps = sgml.parse(open(d + "/out.sgml", "rb").read().decode("latin-1"))[0].paths
        if len(ps) != len(utts):
            raise Fail("%d utterances, expected %d" % (len(ps), len(utts)))
        if fmt == "trn":
            ps = sorted(ps, key=lambda p: int(p.attrs["id"][3:-1]))
        else:
            ps = sorted(ps, key=lambda p: float(p.attrs["R_T1"]))
        f = (lambda w: w) if cs else enc.foldw
        for (r, h), p in zip(utts, ps):
            got = [(w[0], w[1], w[2]) for w in p.words]
            exp = []
            for x, y in zip(r, h):
                X, Y = f(x), f(y)
                exp.append(("C" if X == Y else "S", b(X).decode("latin-1"), b(Y).decode("latin-1")))
            if got != exp:
                bad = [k for k in range(len(exp)) if k >= len(got) or got[k] != exp[k]][:1]
                k = bad[0] if bad else 0
                raise Fail("%s vs %s (%s): scored %s, expected %s" % (uni(r[k]), uni(h[k]), "case-sensitive" if cs else "ignoring case", got[k:k + 1], exp[k:k + 1]))
        n = sum(len(r) for r, h in utts)
        st.add(states=n, transitions=2 * n, traces=len(utts))
    except Fail as x:
        x.msg = "%s %s %s: %s" % (enc.enc or "no -e", enc.loc or "", fmt, x.msg)
        x.files, x.cmd = files, " ".join(["sclite"] + inp + enc.opts() + (["-s"] if cs else []) + ["-o", "sgml"])
        fails.append(x.pack())
    finally:
        shutil.rmtree(d, ignore_errors=True)


def uni(w):
    return "'%s' (%s)" % (w, " ".join("%04X" % ord(c) for c in w))


def work(arg, st, fails, samples):
    enc, loc, cs, fmt, utts = arg
    run(Enc(enc, loc), cs, utts, fmt, st, fails)


def rows(ws, n=12):
    """words -> utterances of n words; each word differs from its neighbours so that the word-by-word alignment is the best one"""
    return [(tuple(a for a, b in c), tuple(b for a, b in c)) for c in chunks(ws, n)]


CONF = [(None, None), ("ascii", None), ("ext_ascii", None), ("gb", None), ("euc", None), ("utf-8", None)] + [("utf-8", l) for l in LANG if l]


def jobs():
    for enc, loc in CONF:
        E = Enc(enc, loc)
        cs = E.chars()
        # every character against its own folded form: equal; the text comes out folded
        same = [(c, E.fold(c)) for c in cs]
        mixed = [("k" + c + "Q", "K" + E.fold(c) + "q") for c in cs]
        for u in chunks(rows(same + mixed), 400):
            yield enc, loc, False, "trn", u
        for u in chunks(rows([(c, c) for c in cs]), 400):
            yield enc, loc, True, "trn", u
        # characters that must stay distinct: one word per utterance
        diff = []
        for c in cs:
            for o in {c.lower(), c.upper(), c.swapcase(), chr(ord(c) ^ 32), chr(ord(c) ^ 1), chr(ord(c) + 32) if ord(c) < 0x20000 else c, chr(ord(c) ^ 128) if ord(c) < 256 else c, chr(0x20000) if ord(c) > 0x20000 else c}:
                if len(o) == 1 and o != c and o in work.sets[E.enc]:
                    diff.append(((c,), (o,)))
        diff = sorted(set(diff))
        if not T and len(diff) > 6000:
            tab = set(E.tab) | set(E.tab.values())
            keep = [p for p in diff if p[0][0] in tab or p[1][0] in tab or ord(p[0][0]) < 0x530]
            kept = set(keep)
            rest = [p for p in diff if p not in kept]
            diff = keep + rest[::4]
        for u in chunks(diff, 1500):
            yield enc, loc, False, "trn", u
        for u in chunks(diff[:: 1 if T else 3], 1500):
            yield enc, loc, True, "trn", u
        tabw = sorted(set(E.tab) | set(E.tab.values()) | {chr(k) for k in range(65, 123) if chr(k).isalpha()} | (set(cs) if enc in (None, "ext_ascii") else set()))
        for u in chunks(rows([(c, E.fold(c)) for c in tabw], 8), 60):
            yield enc, loc, False, "stm", u
            yield enc, loc, False, "stm", [(h, r) for r, h in u]
        # lengths: folding may change the number of bytes
        top = [c for c in ["I", "İ", "Ỹ", "Ж", "A"] if c in E.tab or c.isascii()]
        for c in top:
            for fmt in ("trn", "stm"):
                yield enc, loc, False, fmt, [((c * n,), (E.fold(c) * n,)) for n in range(1, 130 if T else 110)]
        mix = [((a * n + b * m,), (E.fold(a) * n + E.fold(b) * m,)) for a in top for b in top if a != b for n, m in ((1, 1), (3, 7), (50, 50), (99, 1), (1, 99), (33, 66))]
        if mix:
            yield enc, loc, False, "trn", mix


def body(S):
    work.S = S
    work.sets = {e: set(Enc(e, None).chars()) for e, l in CONF}
    C.bounds["characters"] = "UTF-8: U+0021-U+%s and others, 4-byte characters included; GB/EUC: all 8836 two-byte characters; ASCII and extended ASCII: every byte" % ("D7FF" if T else "1FFF")
    C.bounds["configurations"] = "%d encodings and localizations, with and without -s; trn and stm/ctm" % len(CONF)
    js = list(jobs())
    C.stats.add(runs=len(js))
    C.parallel(work, js)
    C.finish()


if __name__ == "__main__":
    mc.main(build.sclite, body)
