#!/usr/bin/env python3
"""P29: the language filters (hamzaNorm, tanweenFilt, acomp, def_art) change the words they are for, and nothing else."""
import itertools, os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, mc
from mc import Check, Fail, chunks, newdir

C = Check("P29", "exhaustive exploration of all small words, places in a line, file formats and options on the real filters, each record compared with a model of the filter",
          "every (word, place, format, options, lexicon) within the bounds is one trace",
          ["a word does not end in two tanween marks", "a fragment is written with a final hyphen"])
T = C.thorough


def L(s):
    return s.encode("utf-8").decode("latin-1")


ALEF, OTHER, TAN = [L(x) for x in "\u0622\u0623\u0625\u0627"], [L("\u0628"), "A"], [L(x) for x in "\u064b\u064c\u064d"]


def hamza(w):
    # (a word in parentheses is left as it is: the recorded tests say so)
    m = re.match(r"(%s)(.*)" % "|".join(ALEF), w, re.S)
    return [L("\u0627") + m.group(2)] if m else [w]


def tanween(w):
    return [re.sub("(%s)(?=\\)?$)" % "|".join(TAN), "", w)]


def tanween_all(w):
    return [re.sub("|".join(TAN), "", w)]


class Acomp:
    def __init__(self, lex, opts):
        self.min = int(opts[opts.index("-m") + 1]) if "-m" in opts else 2
        self.trip, self.ins, self.frag = "-t" not in opts, "-s" not in opts, "-f" in opts
        self.words, self.comp = set(), {}
        for w in lex:
            w = w.upper()
            if re.search("[-_]", w):
                parts = re.split("[-_]+", w)
                self.words |= set(parts)
                self.comp[w.replace("_", "")] = parts
                self.comp[w.replace("_", "").replace("-", "")] = parts
            else:
                self.words.add(w)
                self.comp[w] = [w]

    def split(self, v):
        """constituents, the longest first one first; None when there are none"""
        if v in self.words:
            return [v]
        for i in range(len(v), self.min - 1, -1):
            p, r = v[:i], v[i:]
            if p not in self.words:
                continue
            rest = [r]
            if self.trip and i >= 2 and p[-1] == p[-2] and p[-1] in "BCDFGHJKLMNPQRSTVWXYZ":
                rest.append(v[i - 1:])
            if self.ins:
                if r[:1] == "S":
                    rest.append(r[1:])
                elif r[:2] == "EN":
                    rest.append(r[2:])
            for x in rest:
                s = self.split(x) if len(x) >= self.min else None
                if s:
                    return [p] + s
        return None

    def __call__(self, w):
        w = "".join(chr(ord(c) - 32) if "a" <= c <= "z" or "\xe0" <= c <= "\xff" else c for c in w)
        opt = w[:1] == "(" and w[-1:] == ")"
        if opt:
            w = w[1:-1]
        frag = self.frag and w[-1:] == "-"
        if w in self.comp:
            s = self.comp[w]
        elif frag:
            s = next((x + [w[i:]] for i in range(len(w) - 2, self.min - 1, -1) for x in [self.split(w[:i])] if x), [w])
        else:
            s = self.split(w) or [w]
        if opt:
            s = s[:-1] + ["(%s)" % s[-1]] if frag else ["(%s)" % x for x in s]
        return s


def article(w):
    """the definite article of a romanised word"""
    w = re.sub(r"il\+(&?)([tgdrzs$SDTZnjk])", r"i\2 \1\2", w)
    w = re.sub(r"il\+(&?[a-zA-Z])", r"il \1", w)
    out = []
    for x in w.split():
        if re.fullmatch(r"\*\*i[ltgdrzs$SDTZnjk]", x):
            x = x[2:]
        x = re.sub(r"^([^*\s]+)\*\*", r"\1", x)
        m = re.match(r"il\+(.*)", x)
        out += ["il"] + ([m.group(1)] if m.group(1) else []) if m else [x]
    return out


LAM = "\xe4"
SCRIPT = [("il+kitab", "\xc7" + LAM + "abc", "kitab:noun+article"), ("bi+il+beet", "b\xc7" + LAM + "de", "beet:noun+article"), ("li+il+walad", LAM + LAM + "fg", "walad:noun+article"), ("kitab", LAM + "abc", "kitab:noun"), ("il+x", "q" + LAM + LAM + "x", "x:noun")]


def script(w, translate=False):
    t = {r: s for r, s, _ in SCRIPT}
    if translate and w in t:
        w = t[w]
    for r, s, m in SCRIPT:
        if s == w and "+article" in m:
            k = s.index(LAM + LAM if r.startswith("li+") else LAM) + (2 if r.startswith("li+") else 1)
            return [s[:k], s[k:]]
    return [w]


# a record: (line, function from the filter to the expected output: a string, or a list of ctm tuples)

def expected(fmt, rec, f):
    """-> list of expected lines as lists of fields"""
    if fmt == "txt":
        return [[x for w in rec for x in f(w)]]
    if fmt == "ctm":
        head, w, conf = rec
        s = f(w)
        if len(s) == 1:
            return [list(head) + s + conf]
        t, d = float(head[2]), float(head[3])
        return [[head[0], head[1], t + d / len(s) * i, d / len(s), x] + conf for i, x in enumerate(s)]
    head, ws = rec
    return [list(head) + [x for w in ws for x in f(w)]]


def line(fmt, rec, sep):
    if fmt == "txt":
        return sep.join(rec)
    if fmt == "ctm":
        return sep.join(list(rec[0]) + [rec[1]] + rec[2])
    return sep.join(list(rec[0]) + list(rec[1]))


def same(want, got):
    g = got.split()
    if len(g) != len(want):
        return False
    for a, b in zip(want, g):
        if isinstance(a, str):
            if a != b:
                return False
        else:
            try:
                if abs(float(b) - a) > 0.00051:
                    return False
            except ValueError:
                return False
    return True


def records(fmt, words, names):
    """records with every word first, in the middle and last, and alone"""
    out = []
    n = len(words)
    if fmt == "ctm":
        for i, w in enumerate(words):
            head = (names[i % len(names)] + "%d" % (i % 3), "1", ["1.125", "20.5", "0"][i % 3], ["0.6", "1.24", "0.375"][i // 3 % 3])
            out.append((head, w, [[], ["0.5"], ["0.123"]][i % 3]))
        return out
    for i, w in enumerate(words):
        o = words[(i * 7 + 3) % n]
        row = [(w,), (w, o), (o, w), (o, w, "x")][i % 4:] + [(w,)]
        for ws in row[:2]:
            if fmt == "txt":
                out.append(ws)
            else:
                head = (names[i % len(names)] + "%d" % (i % 3), "1", names[(i + 1) % len(names)], "1.5", "2.25") + ((), ("<o,%s>" % names[0],), ("<O>",))[i % 3]
                out.append((head, ws))
    if fmt == "stm":
        out += [((names[0], "1", "s", "0", "1"), ()), ((names[0], "1", "s", "1", "2", "<o>"), ())]
    return out


def work(job, st, fails, samples):
    tool, opts, fmt, words, names, fspec, files, style = job
    f = make(fspec)
    d = newdir()
    try:
        recs = records(fmt, words, names)
        sep = [" ", "  ", "\t"][style]
        lines, want = [], []
        for i, r in enumerate(recs):
            if style and fmt != "txt" and i % 5 == 0:
                lines.append(";; %s note" % names[0])
                want.append(None)
            l = line(fmt, r, sep)
            lines.append(["", " ", ""][style] + l if fmt != "txt" else l)
            want += expected(fmt, r, f)
        text = "\n".join(lines) + ("" if style == 2 else "\n")
        for n, x in list(files.items()) + [("in", text)]:
            with open(os.path.join(d, n), "w", encoding="latin-1") as h:
                h.write(x)
        fo = [] if fmt == "txt" and style else ["-i", fmt]
        cmd = ["perl", os.path.join(build.REPO, "src", tool, tool + ".pl")] + opts + fo + (["--"] if tool in ("hamzaNorm", "tanweenFilt") else []) + (["in", "out"] if style else ["-", "-"])
        rc, out, err = mc.run(cmd, cwd=d, stdin=None if style else text.encode("latin-1"), timeout=60)[:3]
        if style and os.path.exists(d + "/out"):
            with open(d + "/out", "rb") as h:
                out = h.read()
        got = out.decode("latin-1").split("\n")
        st.add(traces=len(recs), transitions=len(recs), states=len(words))

        def bad(m, k):
            fails.append(Fail("%s %s: %s" % (tool, " ".join(opts + fo), m), files=dict({n: x.encode("latin-1") for n, x in files.items()}, **{"in": text.encode("latin-1")}), cmd=" ".join(cmd), key="%s|%s|%s|%s" % (tool, opts, fmt, k)).pack())
        if rc != 0:
            return bad("exited with %s: %s" % (rc, err.decode("latin-1")[-300:]), "rc")
        if got and got[-1] == "":
            got.pop()
        if len(got) != len(want):
            k = next((i for i, (w, g) in enumerate(zip(want, got)) if w is not None and not same(w, g)), min(len(want), len(got)) - 1)
            return bad("%d lines, expected %d; line %d is %r, expected %r" % (len(got), len(want), k + 1, got[k], want[k]), "n%s" % (want[k],))
        cs = [x for x in lines if x.startswith(";;")]
        for g, w in zip(got, want):
            if w is None:
                if g not in cs:
                    return bad("comment becomes %r" % g, "c")
            elif not same(w, g):
                bad("line %r, expected %r" % (g, w), "%s" % (w,))
                if len(fails) > 5:
                    return
        if not samples:
            samples.append("%s %s %s: %d records" % (tool, " ".join(opts), fmt, len(recs)))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def make(spec):
    k = spec[0]
    return {"hamza": hamza, "tan": tanween, "tana": tanween_all, "art": article, "scr": script, "scrt": lambda w: script(w, True)}[k] if k != "acomp" else Acomp(spec[1], spec[2])


def seqs(al, n, lo=1):
    return ["".join(x) for k in range(lo, n + 1) for x in itertools.product(al, repeat=k)]


def body(ctx):
    jobs = []

    def add(tool, opts, words, names, spec, files={}, fmts=("txt", "ctm", "stm"), styles=(0, 1, 2)):
        for fmt in fmts:
            for ch in chunks(words, 1500):
                for s in styles:
                    jobs.append((tool, opts, fmt, ch, names, spec, files, s))
    al = ALEF + OTHER + TAN[:1]
    ws = seqs(al, 4 if T else 3)
    names = ["f", L("\u0623f"), "(" + L("\u0623"), L("s\u064b")]
    ws2 = ["(%s)" % w for w in seqs(al, 3 if T else 2)]
    add("hamzaNorm", [], ws + ws2, names, ("hamza",))
    tw = [w for w in seqs(TAN + [ALEF[0]] + OTHER, 4 if T else 3) if not re.search("(%s){2}$" % "|".join(TAN), w) and not re.fullmatch("|".join(TAN), w)]
    t2 = ["(%s)" % w for w in tw if len(w) < (9 if T else 5)]
    add("tanweenFilt", [], tw + t2, names, ("tan",))
    only = re.compile("(%s)*" % "|".join(TAN))
    add("tanweenFilt", ["-a"], [w for w in tw if not only.fullmatch(w)] + [w for w in t2 if not only.fullmatch(w[1:-1])], names, ("tana",))
    C.bounds["arabic"] = "every word of at most %d of %d letters, bare and in parentheses; every format; 3 layouts" % (4 if T else 3, len(al))
    LEXS = [["as", "na"], ["ann", "na", "ens"], ["a", "ss", "sa"], ["anse", "se", "n", "ass"], ["an-se", "en_as", "nn"], ["Na_e-s", "sse"], ["sa", "sas", "as", "ns"], ["ann", "nase", "ase", "nas"], ["anna", "sanna", "\xe4n"]]
    n = 7 if T else 6
    words = seqs("asen", n) + ["Ansa", "NAAS", "x", "\xe4nanna", "\xc4NANNA"]
    OPT = [[], ["-t"], ["-s"], ["-t", "-s"], ["-m", "1"], ["-m", "3"], ["-f"], ["-f", "-m", "1"]]
    for i, lex in enumerate(LEXS):
        lx = "\n".join(w + [" noun", "", "\tN 1"][i % 3] for w in lex) + ["\n", ""][i % 2]
        for k, o in enumerate(OPT):
            if T or i < 2 or (i + k) % 3 == 0:
                some = words if T or (i + k) % 4 == 0 else words[:1400:] + words[1400 + (i + k) % 5::5]
                add("acomp", o + ["-l", "lex"], some, ["asna", "f"], ("acomp", lex, o), {"lex": lx}, fmts=("txt", "ctm", "stm") if k % 3 == i % 3 else (("txt", "ctm", "stm")[(i + k) % 3],), styles=((i + k) % 3,))
                fr = seqs("asen", 5 if T else 4)
                add("acomp", o + ["-l", "lex"], [w + "-" for w in fr] + ["(%s)" % w for w in fr] + ["(%s-)" % w for w in fr if len(w) < 4 or "-f" not in o or T], ["asna", "f"], ("acomp", lex, o), {"lex": lx}, fmts=(("stm", "txt")[(i + k) % 2],), styles=((i + k + 1) % 3,))
                add("acomp", o + ["-l", "lex"], [w + "-" for w in fr], ["asna"], ("acomp", lex, o), {"lex": lx}, fmts=("ctm",), styles=((i + k + 2) % 3,))
    C.bounds["german"] = "every word of at most %d letters of {a,s,e,n} with %d lexicons and %d option sets, every fragment and optionally deletable word of at most %d" % (n, len(LEXS), len(OPT), 5 if T else 4)
    ra = [w for w in seqs(["il+", "&", "t", "b", "**", "*", "i"], 4)]
    add("def_art", [], ra if T else [w for i, w in enumerate(ra) if "il+" in w or "**" in w], ["il+tf", "f"], ("art",), styles=(0, 1, 2) if T else (0, 2))
    lx = "".join("%s %s p s %s 1 2 3\n" % x for x in SCRIPT)
    sw = [s for _, s, _ in SCRIPT] + [r for r, _, _ in SCRIPT] + ["unknown", LAM]
    sw = sw * 3
    add("def_art", ["-s", "lex"], sw, ["f", SCRIPT[0][1]], ("scr",), {"lex": lx})
    add("def_art", ["-s", "lex", "-t"], sw, ["f", SCRIPT[0][1]], ("scrt",), {"lex": lx})
    C.bounds["definite article"] = "every romanised word of at most 4 of 7 symbols%s, every word of a script lexicon" % ("" if T else " that holds il+ or **")
    jobs.sort(key=lambda j: -len(j[3]))
    C.parallel(work, jobs)
    C.finish()


if __name__ == "__main__":
    mc.main(lambda: None, body)
