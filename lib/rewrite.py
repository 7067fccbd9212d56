"""Reference model of rfilter1: rules and their application."""
import re


class Rule:
    def __init__(self, a, b, c="", d=""):
        self.a, self.b, self.c, self.d = a, b, c, d

    def text(self, style=0):
        def q(s, force=False):
            if style == 2:
                return '"%s"' % s
            if style == 1 or s == "" or s.strip() != s or s[0] in '*"' or force:
                return "[%s]" % s
            return s
        t = "%s => %s" % (q(self.a), q(self.b))
        if self.c or self.d:
            t += " / %s __ %s" % (q(self.c) if self.c else "", q(self.d) if self.d else "")
        return t


def fold(s, cs):
    return s if cs else "".join(c.lower() if c < "\x80" else c for c in s)


def apply(rules, line, copy, cs):
    f = fold(line, cs)
    out, i = [], 0
    rs = [(fold(r.a, cs), r.b, fold(r.c, cs), fold(r.d, cs)) for r in rules]
    while i < len(line):
        for a, b, c, d in rs:
            if a and f.startswith(a, i) and f.startswith(d, i + len(a)) and i >= len(c) and f.startswith(c, i - len(c)):
                out.append(b)
                i += len(a)
                break
        else:
            if copy:
                out.append(line[i])
            i += 1
    return "".join(out)


UP = {c: chr(ord(c) - 32) for c in map(chr, range(0xE0, 0xFF)) if c != "\xf7"}


def words(text, dh, keep, ext, rules, cs):
    """The model: text of one record -> list of words and marks, '(x)' for an optionally deletable word."""
    if not keep:
        text = "".join(c.upper() if "a" <= c <= "z" else UP.get(c, c) if ext else c for c in text)
    toks = text.replace("(", " ( ").replace(")", " ) ").split()
    toks = apply(rules, " " + " ".join(toks) + " ", True, cs).split()
    out, opt = [], False
    for t in toks:
        if t in "()":
            opt = t == "("
            continue
        if dh:
            t = "".join(" " if c == "-" and 0 < i < len(t) - 1 else c for i, c in enumerate(t))
        for w in re.findall(r"[{}/]|[^{}/\s]+" if "{" in t or "}" in t or t == "/" else r"\S+", t):
            out.append("(%s)" % w if opt and w not in ("{", "}", "/", "@") else w)
    return out
