"""Reference model of md-eval's scoring of metadata events (edits, fillers, interruption points, sentence-like units).

A case is one file: reference words, reference and system events, zones and evaluation regions, with every time a
whole number of ticks. Times are handled as exact fractions."""
import re
from fractions import Fraction as F

EPS = F(1, 10 ** 8)
POINT = ("IP",)
TYPES = ("EDIT", "FILLER", "IP", "SU")


class Case:
    """words: [(begin, length, speaker, subtype)]; ref, sys: [(type, begin, length, subtype, speaker)]; zones: [(type,
    begin, length)]; uem: None or [(begin, end)]; info: {speaker: type}; syswords: words of the system (for -w)."""

    def __init__(self, words, ref, sys, zones=(), uem=None, info=None, syswords=()):
        self.words, self.ref, self.sys = list(words), list(ref), list(sys)
        self.zones, self.uem, self.info, self.syswords = list(zones), uem, info or {}, list(syswords)

    def rttm(self, side, name, unit, chnl="1"):
        out = []
        if side == "R":
            for k in sorted(self.info):
                out.append("SPKR-INFO %s %s <NA> <NA> <NA> %s %s <NA>" % (name, chnl, self.info[k], k))
            for ty, b, d in self.zones:
                out.append("%s %s %s %s %s <NA> <NA> <NA> <NA>" % (ty, name, chnl, num(b, unit), num(d, unit)))
        for i, (b, d, k, sub) in enumerate(self.words if side == "R" else [x[:4] for x in self.syswords]):
            w = "w%d" % i if side == "R" else self.syswords[i][4]
            out.append("LEXEME %s %s %s %s %s %s %s <NA>" % (name, chnl, num(b, unit), num(d, unit), w, sub, k))
        for ty, b, d, sub, k in (self.ref if side == "R" else self.sys):
            out.append("%s %s %s %s %s <NA> %s %s <NA>" % (ty, name, chnl, num(b, unit), "<NA>" if ty in POINT else num(d, unit), sub, k))
        return "".join(x + "\n" for x in out)


def num(t, unit):
    return "%.3f" % float(t * unit)


def indices(b, e, words):
    """First and last word with its middle inside; (i, i - 1) when there is none."""
    n = len(words)
    i = 0
    while i < n and mid(words[i]) < b:
        i += 1
    j = i
    while j < n and mid(words[j]) <= e:
        j += 1
    return i, j - 1


def mid(w):
    return F(w[0]) + F(w[1]) / 2


def adjust(case):
    """System time -> reference time (in ticks), given that the system word w<i>... is matched to reference word i.

    The boundaries of a matched word go to those of its reference word, times in between are interpolated, and
    times beyond the first and last matched words are moved with them."""
    ws = sorted(((F(b), F(b) + d, w) for b, d, _, _, w in case.syswords), key=lambda x: x[0] + x[1])
    mp = []
    for b, e, w in ws:
        m = re.match(r"[wx](\d+)$", w)     # x<i>: a substituted word, matched to word i; others are insertions
        if m:
            rb, rd = case.words[int(m.group(1))][:2]
            mp.append((b, e, F(rb), F(rb) + rd))

    def at(t):
        t = F(t)
        left = right = None
        for b, e, rb, re_ in mp:
            if right is None and e >= t:
                right = (e, re_) if b < t else (b, rb)
                if b <= t:                # inside this word, or on its boundary
                    left = (b, rb) if e > t else (e, re_)
        if left is None:
            before = [(e, re_) for b, e, rb, re_ in mp if e < t]
            left = before[-1] if before else None
        if left is None and right is None:
            return t
        if left is None:
            return right[1] + (t - right[0])
        if right is None:
            return left[1] + (t - left[0])
        if t == left[0]:
            return left[1]
        return left[1] + (t - left[0]) * (right[1] - left[1]) / (right[0] - left[0])
    return at


class Model:
    def __init__(self, case, ty, unit, opts, tick=None):
        """opts: gap (seconds), limit (seconds, or words), words (-W), dropcomplex (-x), noscore (set of (type, subtype)).
        tick: maps a system time, in ticks, to reference time (identity without -w)."""
        self.c, self.ty, self.unit, self.o = case, ty, F(unit), opts
        self.at = tick or (lambda t: F(t))
        order = lambda l: sorted([x for x in l if x[0] == ty], key=lambda x: F(x[1]) + F(x[2]) / 2)
        self.words = sorted(case.words, key=mid)
        self.evalr = self._regions([(b, b + d) for t, b, d in case.zones])
        self.all_ref, self.all_sys = order(case.ref), order(case.sys)
        self.ref = [x for x in self.all_ref if self._inside(x)]
        self.sys = self.all_sys
        ns = [(b, b + d) for t, b, d in case.zones if t == "NOSCORE" and ("NOSCORE", "<na>") in opts["noscore"]]
        ns += [(b, b + d) for t, b, d, s, _ in case.ref if (t, s) in opts["noscore"]]
        ns += [(b, b + d) for b, d, _, s in case.words if ("LEXEME", s) in opts["noscore"]]
        self.scoreable = [any(b <= mid(w) <= e for b, e in self.evalr) and not any(b < mid(w) < e for b, e in ns) for w in self.words]
        self.rw = [indices(F(x[1]), F(x[1]) + x[2], self.words) for x in self.ref]
        self.sw = [indices(self.at(x[1]), self.at(F(x[1]) + x[2]), self.words) for x in self.sys]

    def _regions(self, zones):
        c = self.c
        if c.uem is None:
            sp = [(b, b + d) for b, d, _, _ in c.words] + [(b, b + d) for _, b, d, _, _ in c.ref]
            base = [(min(b for b, _ in sp), max(e for _, e in sp))]
        else:
            base = list(c.uem)
        out = [(F(b), F(e)) for b, e in base]
        for zb, ze in zones:
            if zb == ze:
                continue
            new = []
            for b, e in out:
                if ze <= b or zb >= e:
                    new.append((b, e))
                else:
                    new += [(x, y) for x, y in ((b, min(e, F(zb))), (max(b, F(ze)), e)) if x < y]
            out = new
        return out

    def _inside(self, x):
        b, e = F(x[1]), F(x[1]) + x[2]
        return any(rb <= b and e <= re_ for rb, re_ in self.evalr)

    def score(self, i, j):
        """Value of mapping reference event i to system event j; None when they are too far apart."""
        r, s = self.ref[i], self.sys[j]
        if self.o["words"]:
            rb, sb, re_, se = self.rw[i][0], self.sw[j][0], self.rw[i][1], self.sw[j][1]
            if self.ty == "SU":
                rb, sb = max(rb, re_ - (self.o["limit"] - 1)), max(sb, se - (self.o["limit"] - 1))
            ov, dur = F(min(re_, se) - max(rb, sb) + 1), F(re_ - rb + 1)
            gap = F(1, 10)
        else:
            rb, re_ = r[1] * self.unit, (r[1] + r[2]) * self.unit
            sb, se = self.at(s[1]) * self.unit, self.at(F(s[1]) + s[2]) * self.unit
            if self.ty == "SU":
                rb, sb = max(rb, re_ - self.o["limit"]), max(sb, se - self.o["limit"])
            ov, dur = min(re_, se) - max(rb, sb), re_ - rb
            gap = self.o["gap"]
        if self.ty in POINT:
            ov += EPS
        ov += gap
        if ov < 0:
            return None
        if r[3] == s[3]:
            ov *= F(11, 10)
        if self.rw[i][1] == self.sw[j][1]:
            ov *= F(1001, 1000)
        d = max(dur, EPS)
        return ov if dur + gap < d else ov * d / (dur + gap)

    def best(self):
        """The best total of a mapping that keeps the order of the events."""
        n, m = len(self.ref), len(self.sys)
        t = [[F(0)] * (m + 1) for _ in range(n + 1)]
        for i in range(1, n + 1):
            for j in range(1, m + 1):
                v = max(t[i - 1][j], t[i][j - 1])
                s = self.score(i - 1, j - 1)
                if s is not None:
                    v = max(v, t[i - 1][j - 1] + s)
                t[i][j] = v
        return t[n][m]

    def final(self, pairs):
        """Indices of the reference and system events that are counted, given the mapping {ref: sys}."""
        inv = {s: r for r, s in pairs.items()}
        drop = {"SU": "unannotated"}.get(self.ty) or ("complex" if self.ty == "EDIT" and self.o["dropcomplex"] else None)
        gone = [i for i, r in enumerate(self.ref) if r[3] == drop]
        refs = [i for i in range(len(self.ref)) if i not in gone]
        syss = []
        for j, s in enumerate(self.sys):
            if j in inv:
                if inv[j] not in gone:
                    syss.append(j)
                continue
            m = (self.at(s[1]) + self.at(F(s[1]) + s[2])) / 2
            if any(self.ref[i][1] <= m <= self.ref[i][1] + self.ref[i][2] for i in gone) or not self._inside(s):
                continue
            syss.append(j)
        return refs, syss

    def counts(self, pairs):
        """-> events {category: [ref, del, ins, sub]}, confusion {(ref, sys): n}, words [ref, del, ins, sub], offsets."""
        refs, syss = self.final(pairs)
        ev, conf, off = {}, {}, {"BEG": {}, "END": {}}

        def add(spk, k):
            for cat in ("ALL", "s=" + spk, "g=" + ("unknown" if spk == "unknown" else self.c.info.get(spk, "unknown"))):
                ev.setdefault(cat, [0, 0, 0, 0])[k] += 1

        names = set()
        for i in refs:
            r = self.ref[i]
            names.add(r[3])
            add(r[4], 0)
            if i in pairs:
                s = self.sys[pairs[i]]
                names.add(s[3])
                conf[r[3], s[3]] = conf.get((r[3], s[3]), 0) + 1
                if r[3] != s[3]:
                    add(r[4], 3)
                for k, (x, y) in zip(("BEG", "END"), zip(self.rw[i], self.sw[pairs[i]])):
                    lo, hi = min(x, y), max(x, y)
                    rng = range(lo, hi) if k == "BEG" else range(lo + 1, hi + 1)
                    d = sum(1 for w in rng if 0 <= w < len(self.words) and self.scoreable[w])
                    d = d if y > x else -d
                    off[k][d] = off[k].get(d, 0) + 1
            else:
                add(r[4], 1)
                conf[r[3], "{Miss}"] = conf.get((r[3], "{Miss}"), 0) + 1
        mapped = set(pairs.values())
        for j in syss:
            if j not in mapped:
                s = self.sys[j]
                names.add(s[3])
                lo, hi = min(self.sw[j]), max(self.sw[j])
                spk = {self.words[w][2] for w in range(lo, hi + 1) if 0 <= w < len(self.words)}
                add(spk.pop() if len(spk) == 1 else "unknown", 2)
                conf["{FA}", s[3]] = conf.get(("{FA}", s[3]), 0) + 1
        # words
        W = [0, 0, 0, 0]
        n = len(self.words)
        if self.ty in ("IP", "SU"):
            cl = lambda e: min(max(e, 0), n - 1)
            at = {}
            for i in refs:
                at.setdefault(cl(self.rw[i][1]), ([], [], []))[0].append((self.ref[i][3], i in pairs))
            for j in syss:
                at.setdefault(cl(self.sw[j][1]), ([], [], []))[1 if j in mapped else 2].append(self.sys[j][3])
            for r, s, x in at.values():
                same = sum(min(r.count((t, True)), s.count(t)) for t in set(s))
                W[0] += len(r)
                W[1] += max(len(r) - len(s), 0)
                W[2] += max(len(s) - len(r), 0) + len(x)
                W[3] += min(len(r), len(s)) - same
        else:
            for w in range(n):
                if not self.scoreable[w]:
                    continue
                r = [self.ref[i][3] for i in refs if self.rw[i][0] <= w <= self.rw[i][1]]
                s = [self.sys[j][3] for j in syss if self.sw[j][0] <= w <= self.sw[j][1]]
                same = sum(min(r.count(t), s.count(t)) for t in set(s))
                W[0] += len(r)
                W[1] += max(len(r) - len(s), 0)
                W[2] += max(len(s) - len(r), 0)
                W[3] += min(len(r), len(s)) - same
        return ev, (conf, names), W, off


# ---- reading the output

def parse(text):
    """-> {type: {"detail": {(file, chnl): [line]}, "score": str, "words": {cat: row}, "events": .., "conf": .., "off": ..}}"""
    out = {t: {"detail": {}} for t in TYPES}
    ty = sect = key = None
    rows = []
    for line in text.split("\n"):
        m = re.match(r"(\w+) alignment and scoring details for channel (\S+) of file (\S+)$", line)
        if m:
            ty, sect, key = m.group(1), "detail", (m.group(3), m.group(2))
            if key in out[ty]["detail"]:
                raise ValueError("details of %s twice" % (key,))
            out[ty]["detail"][key] = []
            continue
        m = re.match(r"\*\*\* Performance analysis for (\w+)s \*\*\*  overall error SCORE = (\S+)%$", line)
        if m:
            ty, sect = m.group(1), None
            if ty not in out or "score" in out[ty]:
                raise ValueError("unexpected report on " + ty)
            out[ty]["score"] = m.group(2)
            continue
        for pat, name in ((r"(exact\) end detection|exact\) detection|word coverage) statistics -- in terms of reference words$", "words"),
                          (r"^\w+ detection statistics -- in terms of # of", "events"), (r"detection confusion matrix --", "conf"),
                          (r"word offset statistics for ALL data$", "off")):
            if re.search(pat, line):
                sect = name
                out[ty][sect] = [] if sect in ("conf", "off") else {}
                break
        else:
            if not line.strip():
                continue
            if sect == "detail":
                if not line.startswith(" ref del"):
                    out[ty]["detail"][key].append(line.split())
            elif sect in ("words", "events"):
                f = line.rsplit(None, 9)
                if f[0] == "Nref" or line.split()[0] == "Nref":
                    continue
                if len(f) != 10 or f[0].strip() in out[ty][sect]:
                    raise ValueError("bad line: " + line)
                out[ty][sect][f[0].strip()] = f[1:]
            elif sect in ("conf", "off"):
                out[ty][sect].append(line.split())
    return out
