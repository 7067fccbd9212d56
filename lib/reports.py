"""Readers for sclite's reports, and their comparison with the alignments they report on."""
import math, re
from collections import Counter
import sgml
from mc import Fail

TOL = 0.0501


def dec(b):
    return b.decode("utf-8", "surrogateescape") if isinstance(b, bytes) else b


class Spk:
    def __init__(self, name):
        self.name, self.paths = name, []
        self.c = self.s = self.d = self.i = self.snt = self.serr = self.ws = self.wd = self.wi = 0

    def add(self, p):
        k = sgml.counts(p.words)
        self.paths.append(p)
        self.c += k["C"]
        self.s += k["S"]
        self.d += k["D"]
        self.i += k["I"]
        self.snt += 1
        self.serr += 1 if k["S"] + k["D"] + k["I"] else 0
        self.ws += 1 if k["S"] else 0
        self.wd += 1 if k["D"] else 0
        self.wi += 1 if k["I"] else 0

    ref = property(lambda x: x.c + x.s + x.d)
    err = property(lambda x: x.s + x.d + x.i)


def tally(sysm):
    spks = {}
    for s in sysm.speakers:
        spks.setdefault(s, Spk(s))
    for p in sysm.paths:
        spks[p.speaker].add(p)
    return list(spks.values())


def total(spks, name="all"):
    t = Spk(name)
    for s in spks:
        t.paths += s.paths
        for k in "c s d i snt serr ws wd wi".split():
            setattr(t, k, getattr(t, k) + getattr(s, k))
    return t


def pct(a, b):
    return 100.0 * a / b if b else 0.0


def mean(v):
    return sum(v) / len(v) if v else 0.0


def sd(v):
    if len(v) < 2:
        return 0.0
    m = mean(v)
    return math.sqrt(sum((x - m) ** 2 for x in v) / (len(v) - 1))


def median(v):
    if not v:
        return 0.0
    v = sorted(v)
    n = len(v)
    return v[n // 2] if n % 2 else (v[n // 2] + v[n // 2 - 1]) / 2.0


def need(cond, msg):
    if not cond:
        raise Fail(msg)


def near(printed, exact, what, tol=TOL):
    try:
        v = float(printed)
    except ValueError:
        raise Fail("%s: %r is not a number (expected %g)" % (what, printed, exact))
    need(abs(v - exact) <= tol + 1e-9 * abs(exact), "%s: printed %s, the alignments give %.4f" % (what, printed, exact))


def close(printed, exact, tol=TOL):
    try:
        return len(printed) == len(exact) and all(abs(float(p) - e) <= tol + 1e-9 * abs(e) for p, e in zip(printed, exact))
    except ValueError:
        return False


def table(text):
    """rows of a summary table: list of (first cell, numbers of the other cells)"""
    rows = []
    for line in dec(text).split("\n"):
        line = line.strip()
        if not line.startswith("|") or re.match(r"^\|[-=+|]+\|?$", line):
            continue
        cells = [c.strip() for c in line.strip("|").split("|")]
        rows.append((cells[0], " ".join(cells[1:]).split()))
    return rows


STAT = (("Mean", mean), ("S.D.", sd), ("Median", median))


def check_summary(text, spks, raw, what, weighted=None, nce=False, truncated=None):
    """weighted: name -> (ref, corr, sub, del, ins) weights, or None for plain word counts.
    truncated: list that collects a Sum/Avg row holding the totals with the fractions dropped speaker by speaker (a listed finding)"""
    rows = [r for r in table(text) if len(r[1]) >= 8]
    rows = [r for r in rows if r[0] != "SPKR"]
    need(len(rows) == len(spks) + 4, "%s: %d rows, expected %d speakers and 4 totals" % (what, len(rows), len(spks)))
    zero = [s for s in spks if s.ref == 0] if not raw else []
    cols = []

    def vals(s):
        if weighted is None:
            return [s.c, s.s, s.d, s.i, s.err], s.ref
        r, c, u, d, n = weighted[s.name]
        return [c, u, d, n, u + d + n], r

    for s, (name, f) in zip(spks, rows):
        w = "%s: speaker %s" % (what, s.name)
        need(name == s.name, "%s: row %r, expected speaker %r" % (what, name, s.name))
        need(len(f) >= 8, w + ": too few values")
        near(f[0], s.snt, w + " sentences", 0)
        near(f[1], s.ref, w + " words", 0)
        v, ref = vals(s)
        if raw:
            ex, tol = v, 0.001
        elif s.ref == 0:
            ex, tol = [s.c, s.s, s.d, s.i, s.err], 0.001
            need(all(x.endswith("*") for x in f[2:7]), w + ": not marked as having no reference words")
        else:
            ex, tol = [pct(x, ref) for x in v], TOL
        for k, (p, x) in enumerate(zip(f[2:7], ex)):
            near(p.rstrip("*"), x, w + " column %d" % k, tol)
        se = s.serr if raw else pct(s.serr, s.snt)
        near(f[7], se, w + " sentence errors", 0.001 if raw else TOL)
        cols.append((s.snt, s.ref, ex if (raw or s.ref) else None, se))
    t = total(spks)
    name, f = rows[len(spks)]
    w = what + ": total"
    need(name.startswith("Sum"), w + " row missing")
    near(f[0], t.snt, w + " sentences", 0)
    near(f[1], t.ref, w + " words", 0)
    if weighted is None:
        v, ref = [t.c, t.s, t.d, t.i, t.err], t.ref
    else:
        q = [sum(weighted[s.name][k] for s in spks) for k in range(5)]
        v, ref = [q[1], q[2], q[3], q[4], q[2] + q[3] + q[4]], q[0]
        if truncated is not None and not close(f[2:7], [pct(x, ref) for x in v]):
            q = [0] * 5
            for s in spks:
                q = [int(a + b) for a, b in zip(q, weighted[s.name])]
            tv, tref = [q[1], q[2], q[3], q[4], q[2] + q[3] + q[4]], q[0]
            if close(f[2:7], [pct(x, tref) for x in tv]):
                truncated.append("%s: printed %s, the weights give %s" % (what, " ".join(f[2:7]), " ".join("%.2f" % pct(x, ref) for x in v)))
                v, ref = tv, tref
    for k, (p, x) in enumerate(zip(f[2:7], v)):
        near(p, x if raw else pct(x, ref), w + " column %d" % k, 0.001 if raw else TOL)
    near(f[7], t.serr if raw else pct(t.serr, t.snt), w + " sentence errors", 0.001 if raw else TOL)
    for r, (lab, fn) in enumerate(STAT):
        name, f = rows[len(spks) + 1 + r]
        w = "%s: %s" % (what, lab)
        need(name == lab, w + " row missing")
        near(f[0], fn([c[0] for c in cols]), w + " of sentences")
        near(f[1], fn([c[1] for c in cols]), w + " of words")
        for k in range(5):
            near(f[2 + k].rstrip("+"), fn([c[2][k] for c in cols if c[2] is not None]), w + " column %d" % k)
        near(f[7].rstrip("+"), fn([c[3] for c in cols]), w + " of sentence errors")


BLOCK = re.compile(r"^id: ", re.M)


def up(w, case_sens):
    return w if case_sens else w.upper()


def check_block(b, p, what, case_sens=False, aux=None):
    """One utterance of an alignment listing against its path.  b: text from 'id:' on."""
    lines = dec(b).split("\n")
    need(lines[0] == "id: " + p.attrs["id"], "%s: %r, expected utterance %s" % (what, lines[0], p.attrs["id"]))
    what = "%s: %s" % (what, p.attrs["id"])
    k = sgml.counts(p.words)
    sc = [l for l in lines if l.startswith("Scores: ")]
    need(len(sc) == 1 and sc[0].split(") ")[1].split() == [str(k[x]) for x in "CSDI"],
         "%s: %r, the alignment has %r" % (what, sc, k))
    rows = {"REF": [], "HYP": [], "Eval": []}
    got = {}
    seen = []
    for l in lines:
        m = re.match(r"^(?:>> )?(REF|HYP|Eval|CONF|RCNF|H_T1|H_T2|R_T1|R_T2|R_WE|H_WE): ( *)(.*)$", l)
        if not m:
            continue
        name = m.group(1)
        k0 = l.index(":") + 1
        body = " " * k0 + l[k0:]
        seen.append((name, body))
    i = 0
    pos = 0
    while i < len(seen):
        need(seen[i][0] == "REF", "%s: listing lines out of order" % what)
        j = i + 1
        while j < len(seen) and seen[j][0] != "REF":
            j += 1
        grp = dict(seen[i:j])
        need("HYP" in grp and "Eval" in grp, what + ": listing lines missing")
        rt = [(m.start(), m.group()) for m in re.finditer(r"\S+", grp["REF"])]
        ht = [(m.start(), m.group()) for m in re.finditer(r"\S+", grp["HYP"])]
        need([x[0] for x in rt] == [x[0] for x in ht], what + ": reference and hypothesis columns differ")
        cols = [x[0] for x in rt]
        extra = {}
        for n in grp:
            if n in ("REF", "HYP"):
                continue
            cell = {}
            for m in re.finditer(r"\S+", grp[n]):
                need(m.start() in cols, "%s: %s value %r under no word" % (what, n, m.group()))
                cell[m.start()] = m.group()
            extra[n] = cell
        for q, c in enumerate(cols):
            need(pos < len(p.words), what + ": more words listed than aligned")
            e, r, h = p.words[pos][:3]
            wr = ("*" * max(1, min(len(h), 40)) if r is None else (r if e == "C" else up(r, case_sens)))
            wh = ("*" * max(1, min(len(r), 40)) if h is None else (h if e == "C" else up(h, case_sens)))
            if r is None:
                need(set(rt[q][1]) == {"*"}, "%s: inserted word listed against %r" % (what, rt[q][1]))
            else:
                need(rt[q][1] == wr, "%s: reference word %r listed as %r" % (what, r, rt[q][1]))
            if h is None:
                need(set(ht[q][1]) == {"*"}, "%s: deleted word listed against %r" % (what, ht[q][1]))
            else:
                need(ht[q][1] == wh, "%s: hypothesis word %r listed as %r" % (what, h, ht[q][1]))
            need(extra["Eval"].get(c, "C") == e, "%s: word %d scored %s but listed as %s" % (what, pos, e, extra["Eval"].get(c, "C")))
            if aux is not None:
                for n, v in aux(p.words[pos]).items():
                    g = extra.get(n, {}).get(c)
                    if v is None:
                        need(g is None, "%s: %s of word %d is %r, expected none" % (what, n, pos, g))
                    else:
                        need(g is not None, "%s: %s of word %d missing" % (what, n, pos))
                        near(g, v, "%s: %s of word %d" % (what, n, pos), 0.00501 if n[1:3] == "_T" else 0.0000501)
            pos += 1
        i = j
    need(pos == len(p.words), "%s: %d words listed, %d aligned" % (what, pos, len(p.words)))


def blocks(text):
    text = dec(text)
    st = [m.start() for m in BLOCK.finditer(text)]
    return [text[a:b] for a, b in zip(st, st[1:] + [len(text)])]


def check_listing(text, spks, what, case_sens=False, by_seq=False, aux=None):
    paths = [p for s in spks for p in s.paths]
    if by_seq:
        paths.sort(key=lambda p: int(p.attrs["sequence"]))
    b = blocks(text)
    need(len(b) == len(paths), "%s: %d utterances listed, %d scored" % (what, len(b), len(paths)))
    names = re.findall(r"^ +\d+:  (.*)$", dec(text).split("Speaker sentences")[0].split("Utterance Label")[0], re.M)
    need(names == [s.name for s in spks], "%s: speakers %r, expected %r" % (what, names, [s.name for s in spks]))
    heads = re.findall(r"^Speaker sentences *(\d+):  (\S+)   (?:#utts: (\d+)|utt# (\d+) of (\d+))$", dec(text), re.M)
    if not by_seq:
        need([(h[1], h[2]) for h in heads] == [(s.name, str(s.snt)) for s in spks], what + ": speaker headings wrong")
    else:
        idx = {}
        ex = []
        cnt = {s.name: s.snt for s in spks}
        for p in paths:
            ex.append((p.speaker, str(idx.get(p.speaker, 0)), str(cnt[p.speaker])))
            idx[p.speaker] = idx.get(p.speaker, 0) + 1
        need([(h[1], h[3], h[4]) for h in heads] == ex, what + ": utterance headings wrong")
    for x, p in zip(b, paths):
        check_block(x, p, what, case_sens, aux)


def num_line(text, label, what):
    m = re.search(r"^ *%s +(?:= +)?(?:([\d.]+|UNDEF|-[\d.]+)%%)? *(?:\( *(-?\d+)\)|(\d+))?$" % re.escape(label), text, re.M)
    need(m, "%s: no line %r" % (what, label))
    return m.group(1), m.group(2) if m.group(2) is not None else m.group(3)


def lists(text, what):
    """name -> (total, {text: count}, sum)"""
    out = {}
    for name in ("CONFUSION PAIRS", "INSERTIONS", "DELETIONS", "SUBSTITUTIONS", "FALSELY RECOGNIZED"):
        m = re.search(r"^%s +Total +\((\d+)\)\n +With >= *1 occurrences \((\d+)\)\n\n((?: *\d+: +\d+  ->  .*\n)*) +-------\n +(\d+)$" % name, text, re.M)
        need(m, "%s: list %s missing or malformed" % (what, name))
        items = re.findall(r"^ *(\d+): +(\d+)  ->  (.*)$", m.group(3), re.M)
        need([int(i[0]) for i in items] == list(range(1, len(items) + 1)), "%s: %s not numbered consecutively" % (what, name))
        c = [int(i[1]) for i in items]
        need(c == sorted(c, reverse=True), "%s: %s not in order of occurrences" % (what, name))
        d = dict((i[2], int(i[1])) for i in items)
        need(len(d) == len(items), "%s: %s lists an entry twice" % (what, name))
        need(int(m.group(1)) == len(items) and int(m.group(2)) == len(items) and int(m.group(4)) == sum(c),
             "%s: %s totals do not match the list" % (what, name))
        out[name] = d
    return out


def check_detail(text, t, what):
    text = dec(text)

    def cnt(label, pctv, n, dens=True):
        p, c = num_line(text, label, what)
        if n is not None:
            need(c is not None and int(c) == n, "%s: %s %s, the alignments give %d" % (what, label, c, n))
        if pctv is not None:
            if pctv == "UNDEF":
                need(p == "UNDEF", "%s: %s %s%%, expected UNDEF" % (what, label, p))
            else:
                need(p is not None, "%s: %s has no percentage" % (what, label))
                near(p, pctv, "%s: %s" % (what, label))

    cnt("sentences", None, t.snt)
    cnt("with errors", pct(t.serr, t.snt), t.serr)
    cnt("with substitutions", pct(t.ws, t.snt), t.ws)
    cnt("with deletions", pct(t.wd, t.snt), t.wd)
    cnt("with insertions", pct(t.wi, t.snt), t.wi)
    u = (lambda n: pct(n, t.ref)) if t.ref else (lambda n: "UNDEF")
    cnt("Percent Total Error", u(t.err), t.err)
    cnt("Percent Correct", u(t.c), t.c)
    cnt("Percent Substitution", u(t.s), t.s)
    cnt("Percent Deletions", u(t.d), t.d)
    cnt("Percent Insertions", u(t.i), t.i)
    cnt("Percent Word Accuracy", 100 - u(t.err) if t.ref else "UNDEF", None)
    cnt("Ref. words", None, t.ref)
    cnt("Hyp. words", None, t.c + t.s + t.i)
    cnt("Aligned words", None, t.c + t.s + t.d + t.i)
    ws = [w for p in t.paths for w in p.words]
    ex = {"CONFUSION PAIRS": Counter("%s ==> %s" % (w[1], w[2]) for w in ws if w[0] == "S"),
          "INSERTIONS": Counter(w[2] for w in ws if w[0] == "I"),
          "DELETIONS": Counter(w[1] for w in ws if w[0] == "D"),
          "SUBSTITUTIONS": Counter(w[1] for w in ws if w[0] == "S"),
          "FALSELY RECOGNIZED": Counter(w[2] for w in ws if w[0] == "S")}
    for name, d in lists(text, what).items():
        need(d == dict(ex[name]), "%s: %s %r, the alignments give %r" % (what, name, d, dict(ex[name])))


def check_sent(text, s, what, case_sens=False, aux=None):
    b = blocks(text)
    need(len(b) == len(s.paths), "%s: %d utterances, expected %d" % (what, len(b), len(s.paths)))
    run = Counter()
    for x, p in zip(b, s.paths):
        check_block(x, p, what, case_sens, aux)
        k = sgml.counts(p.words)
        c, u, d, n = k["C"], k["S"], k["D"], k["I"]
        v = {"Correct": c, "Substitutions": u, "Deletions": d, "Insertions": n, "Errors": u + d + n,
             "Ref. words": c + u + d, "Hyp. words": c + u + n, "Aligned words": c + u + d + n}
        run.update(v)
        for l in v:
            m = re.search(r"^%s +=  *(?:([\d.]+|UNDEF)%%)? +(\d+)   \( *(\d+)\)$" % re.escape(l), x, re.M)
            need(m, "%s: no line %s" % (what, l))
            need((int(m.group(2)), int(m.group(3))) == (v[l], run[l]), "%s: %s %s (%s), the alignments give %d (%d)" % (
                what, l, m.group(2), m.group(3), v[l], run[l]))
            if "words" not in l:
                if c + u + d:
                    near(m.group(1), pct(v[l], c + u + d), what + ": " + l)
                else:
                    need(m.group(1) == "UNDEF", what + ": percentage without reference words")


def check_lur(text, spks, labels, what):
    """labels: ordered [(id, title)]; every path's labels attribute names its sets."""
    rows = [l.strip() for l in dec(text).split("\n") if l.strip().startswith("|")]
    body = None
    for k, l in enumerate(rows):
        if "#Wrd" in l:
            body = rows[k + 1:]
            break
    need(body is not None, what + ": no table")
    body = [re.split(r"\|\|?", l.strip()[1:-1]) for l in body if not re.match(r"^\|[-=+|]+\|$", l) and "Note:" not in l]
    body = [[c.strip() for c in r] for r in body if any(c.strip() for c in r)]
    need(all(len(r) == len(labels) + 1 for r in body[:len(spks) + 4]), what + ": wrong number of columns")
    need(len(body) >= len(spks) + 4, what + ": rows missing")
    data = {}
    for s in spks:
        for j, (lid, _) in enumerate(labels):
            r = e = 0
            for p in s.paths:
                ls = p.attrs.get("labels", "<>")[1:-1].lower().split(",")
                n = ls.count(lid.lower())
                k = sgml.counts(p.words)
                r += n * (k["C"] + k["S"] + k["D"])
                e += n * (k["S"] + k["D"] + k["I"])
            data[s.name, j] = (r, e)
    for s, row in zip(spks, body):
        need(row[0] == s.name, "%s: row %r, expected %r" % (what, row[0], s.name))
        for j in range(len(labels)):
            r, e = data[s.name, j]
            w = "%s: speaker %s label %s" % (what, s.name, labels[j][0])
            f = row[j + 1].split()
            if r:
                need(f and f[0] == "[%d]" % r, "%s: %r, expected %d words" % (w, f, r))
                near(f[1], pct(e, r), w)
            elif e:
                need(f == ["0", "*", str(e), "*"], "%s: %r, expected %d errors and no reference word" % (w, f, e))
            else:
                need(f == [], "%s: %r, expected nothing" % (w, f))
    tot = body[len(spks):]
    for row, fn in zip(tot, (None, mean, sd, median)):
        for j in range(len(labels)):
            v = [data[s.name, j] for s in spks]
            f = row[j + 1].split()
            w = "%s: %s label %s" % (what, row[0], labels[j][0])
            if fn is None:
                a, b = sum(x[0] for x in v), pct(sum(x[1] for x in v), sum(x[0] for x in v))
            else:
                a = int(fn([x[0] for x in v if x[0]]) + 1e-9)
                b = fn([pct(x[1], x[0]) for x in v if x[0]])
            need(f[0] == "[%d]" % a, "%s: %r, expected %d words" % (w, f, a))
            near(f[1], b, w)
