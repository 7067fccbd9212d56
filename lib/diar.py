"""Reference model of md-eval's speaker diarization scoring, on a grid of whole ticks.

A case is one (file, channel): reference tokens, system tokens and evaluation regions; every time is a whole
number of ticks. The model works on the set of ticks: tick t stands for the time from t to t + 1."""
import itertools, re

SPEECH = ("SPEAKER", "LEXEME", "NON-LEX")  # of the token types used here, those that span the default region
KEYS = ("EVAL TIME", "EVAL SPEECH", "SCORED TIME", "SCORED SPEECH", "EVAL WORDS", "SCORED WORDS", "MISSED SPEECH",
        "FALARM SPEECH", "MISSED WORDS", "SCORED SPEAKER TIME", "MISSED SPEAKER TIME", "FALARM SPEAKER TIME",
        "SPEAKER ERROR TIME", "SPEAKER ERROR WORDS")
WORDS = [k for k in KEYS if "WORDS" in k]
# the percentage on the line of a figure is relative to
BASE = {"EVAL SPEECH": "EVAL TIME", "SCORED TIME": "EVAL TIME", "SCORED SPEECH": "SCORED TIME", "SCORED WORDS": "EVAL WORDS",
        "MISSED SPEECH": "SCORED TIME", "FALARM SPEECH": "SCORED TIME", "MISSED WORDS": "SCORED WORDS",
        "SCORED SPEAKER TIME": "SCORED SPEECH", "MISSED SPEAKER TIME": "SCORED SPEAKER TIME",
        "FALARM SPEAKER TIME": "SCORED SPEAKER TIME", "SPEAKER ERROR TIME": "SCORED SPEAKER TIME",
        "SPEAKER ERROR WORDS": "SCORED WORDS"}


class Case:
    """ref, sys: [(type, speaker, begin, length)]; uem: None or [(begin, end)]; info: {(side, speaker): type}."""

    def __init__(self, ref, sys, uem=None, info=None, chnl="1"):
        self.ref, self.sys, self.uem, self.info, self.chnl = ref, sys, uem, info or {}, chnl

    def rttm(self, side, name, unit):
        out = []
        for s, k in sorted(self.info):
            if s == side:
                out.append("SPKR-INFO %s %s <NA> <NA> <NA> %s %s <NA>" % (name, self.chnl, self.info[s, k], k))
        for ty, k, b, d in (self.ref if side == "R" else self.sys):
            w, sub = {"LEXEME": ("w", "lex"), "NON-LEX": ("<NA>", "laugh")}.get(ty, ("<NA>", "<NA>"))
            out.append("%s %s %s %s %s %s %s %s <NA>" % (ty, name, self.chnl, num(b, unit), num(d, unit), w, sub, k))
        return "".join(x + "\n" for x in out)


def num(t, unit):
    return "%.3f" % (t * unit)


def active(tokens):
    """tick -> set of speakers"""
    out = {}
    for ty, k, b, d in tokens:
        if ty == "SPEAKER":
            for t in range(b, b + d):
                out.setdefault(t, set()).add(k)
    return out


def zones(ref, types, ext):
    """Ticks that the tokens of these types take out, with up to ext ticks of surrounding silence."""
    cover = sorted({t for ty, _, b, d in ref if ty in types for t in range(b, b + d)})
    out = set(cover)
    lex = {t for ty, _, b, d in ref if ty == "LEXEME" for t in range(b, b + d)}
    edge = {x for ty, _, b, d in ref if ty == "SPEAKER" and d for x in (b, b + d)}
    for t in cover:
        if t + 1 not in out:      # after the end, up to the next word or turn boundary
            for x in range(t + 1, t + 1 + ext):
                if x in edge or x in lex:
                    break
                out.add(x)
    for t in cover:
        if t - 1 not in cover:
            for x in range(t - 1, t - 1 - ext, -1):
                if x + 1 in edge or x in lex:
                    break
                out.add(x)
    return out


def regions(case):
    if case.uem is not None:
        return {t for b, e in case.uem for t in range(b, e)}
    span = [(b, b + d) for ty, _, b, d in case.ref if ty in SPEECH]
    return set(range(min(b for b, _ in span), max(e for _, e in span)))


def best(ov):
    """Largest total overlap of a one-to-one mapping, by enumeration."""
    r = sorted({a for a, _ in ov})
    s = sorted({b for _, b in ov})
    if len(r) > len(s):
        return max(sum(ov.get((a, b), 0) for a, b in zip(p, s)) for p in itertools.permutations(r, len(s)))
    return max([sum(ov.get((a, b), 0) for a, b in zip(r, p)) for p in itertools.permutations(s, len(r))] or [0])


class Model:
    def __init__(self, case, collar=0, single=False, ext=2):
        self.case = case
        self.ref, self.sys = active(case.ref), active(case.sys)
        self.eval = regions(case) - zones(case.ref, ("NOSCORE",), 0)
        self.ov = {}
        for t in self.eval:
            for a in self.ref.get(t, ()):
                for b in self.sys.get(t, ()):
                    self.ov[a, b] = self.ov.get((a, b), 0) + 1
        sc = set(self.eval)
        for ty, _, b, d in case.ref:
            if ty == "SPEAKER" and collar:
                for x in (b, b + d):
                    sc -= set(range(x - collar, x + collar))
        sc -= zones(case.ref, ("NOSCORE", "NON-LEX"), 0) | zones(case.ref, ("NON-LEX",), ext)
        if single:
            sc -= {t for t, k in self.ref.items() if len(k) > 1}
        self.scored = sc

    def stats(self, mp):
        """The figures, given the mapping {ref speaker: sys speaker}; times in ticks."""
        s = dict.fromkeys(KEYS, 0)
        s["EVAL TIME"] = len(self.eval)
        s["EVAL SPEECH"] = len(self.eval & set(self.ref))
        s["SCORED TIME"] = len(self.scored)
        for t in self.scored:
            r, y = self.ref.get(t, set()), self.sys.get(t, set())
            s["SCORED SPEECH"] += bool(r)
            s["MISSED SPEECH"] += bool(r and not y)
            s["FALARM SPEECH"] += bool(y and not r)
            s["SCORED SPEAKER TIME"] += len(r)
            s["MISSED SPEAKER TIME"] += max(len(r) - len(y), 0)
            s["FALARM SPEAKER TIME"] += max(len(y) - len(r), 0)
            s["SPEAKER ERROR TIME"] += min(len(r), len(y)) - sum(mp.get(a) in y for a in r)
        for ty, _, b, d in self.case.ref:
            if ty == "LEXEME":
                t = b + d // 2    # odd lengths: the middle lies inside tick t
                s["EVAL WORDS"] += t in self.eval
                if t in self.scored:
                    r, y = self.ref.get(t, set()), self.sys.get(t, set())
                    s["SCORED WORDS"] += 1
                    s["MISSED WORDS"] += not y
                    s["SPEAKER ERROR WORDS"] += {mp.get(a) for a in r} != y
        return s

    def types(self, mp):
        """The two confusion matrices {(row, column): value}; rows and columns with their names."""
        ty = lambda side, k: self.case.info.get((side, k), "unknown")
        n, tm = {}, {}
        def add(m, a, b, v):
            m[a, b] = m.get((a, b), 0) + v
        refs = {k for t in self.eval for k in self.ref.get(t, ())}
        syss = {k for t in self.eval for k in self.sys.get(t, ())}
        for k in refs:
            add(n, ty("R", k), ty("S", mp[k]) if k in mp else "MISS", 1)
        for k in syss - set(mp.values()):
            add(n, "FALSE ALARM", ty("S", k), 1)
        rt, st = set(), set()
        for t in self.scored:
            r, y = self.ref.get(t, set()), self.sys.get(t, set())
            a, b = {}, {}
            for k in r:
                a[ty("R", k)] = a.get(ty("R", k), 0) + 1
            for k in y:
                b[ty("S", k)] = b.get(ty("S", k), 0) + 1
            rt |= set(a)
            st |= set(b)
            for x, u in a.items():
                for z, v in b.items():
                    add(tm, x, z, min(u, v))
                add(tm, x, "MISS", max(u - len(y), 0))
            for z, v in b.items():
                add(tm, "FALSE ALARM", z, max(v - len(r), 0))
        return ((n, {ty("R", k) for k in refs}, {ty("S", k) for k in syss}), (tm, rt, st))


def parse(text):
    """md-eval's output -> {condition: ({figure: (value, percent or None)}, overall, [matrix, matrix])}"""
    out = {}
    for blk in re.split(r"\*\*\* Performance analysis for Speaker Diarization for ", text)[1:]:
        cond = blk[:blk.index(" ***")]
        assert cond not in out, cond
        fig = {}
        for m in re.finditer(r"^ *([A-Z ]+?) = *(-?[\d.]+) *(?:secs)? *(?:\( *(-?[\d.]+) percent)?", blk, re.M):
            if m.group(1) != "OVERALL SPEAKER DIARIZATION ERROR":
                fig[m.group(1)] = (float(m.group(2)), m.group(3) and float(m.group(3)))
        ovl = float(re.search(r"OVERALL SPEAKER DIARIZATION ERROR = (-?[\d.]+) percent", blk).group(1))
        mats = []
        for part in re.split(r"Speaker type confusion matrix -- \w+ weighted\n", blk)[1:]:
            lines = part.split("\n---")[0].split("\n")
            cols = lines[0].split()[2:]
            mat, rows = {}, []
            for ln in lines[1:]:
                if not ln.strip():
                    continue
                row, rest = ln[:16].strip(), ln[16:]
                rows.append(row)
                vals = re.findall(r"(-?[\d.]+) / *([\d.]+)%", rest)
                for c, (v, _) in zip(cols, vals):
                    mat[row, c] = float(v)
            mats.append((mat, rows, cols))
        out[cond] = (fig, ovl, mats)
    return out


def mapping(csv):
    """-M file -> {(file, channel): ({(ref, sys): time}, {ref: sys} or None if not one-to-one)}"""
    out = {}
    for ln in csv.split("\n")[1:]:
        if ln:
            f, c, r, s, m, t = ln.split(",")
            ov, mp = out.setdefault((f, c), ({}, []))
            ov[r, s] = float(t)
            if m == "mapped":
                mp.append((r, s))
            elif m != "notmapped":
                raise ValueError(ln)
    return out
