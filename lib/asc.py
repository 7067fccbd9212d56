"""Model of asclite's alignment: what a segment group may be aligned to, and at what least cost. Written from the documentation, independent of the code."""
import itertools, re
from mc import Fail


# ---- reference text: str = word, list = sequence, ("alt", [alternative, ...]) -----------------------------
def render(x):
    if isinstance(x, str):
        return x
    if isinstance(x, tuple):
        return "{ " + " / ".join(render(a) for a in x[1]) + " }"
    return " ".join(render(a) for a in x)


def lang(x):
    """All word sequences the text stands for."""
    if isinstance(x, str):
        return [()] if x == "@" else [(x,)]
    if isinstance(x, tuple):
        return sorted({w for a in x[1] for w in lang(a)})
    return sorted({sum(c, ()) for c in itertools.product(*[lang(a) for a in x])})


class Opts:
    def __init__(self, D="none", F=False, s=False, wta=None, adaptive=False, walign=False, spkr=None, extra=()):
        self.D, self.F, self.s, self.wta, self.adaptive, self.walign, self.spkr, self.extra = D, F, s, wta, adaptive, walign, spkr, list(extra)

    def args(self):
        a = []
        if self.D != "none":
            a += ["-D", self.D]
        if self.F:
            a += ["-F"]
        if self.s:
            a += ["-s"]
        if self.wta is not None:
            a += ["-word-time-align", str(self.wta)]
        if self.adaptive:
            a += ["-adaptive-cost"]
        if self.walign:
            a += ["-wordalign-cost"]
        if self.spkr is not None:
            a += ["-spkr-align", "map.csv"]
        return a + self.extra

    def key(self):
        return " ".join(self.args())


def edit(a, b):
    if not a or not b:
        return 0
    p = list(range(len(b) + 1))
    for i, x in enumerate(a, 1):
        q = [i]
        for j, y in enumerate(b, 1):
            q.append(min(p[j] + 1, q[-1] + 1, p[j - 1] + (x != y)))
        p = q
    return p[-1]


class Word:
    def __init__(self, text, o, t1, t2, spkr, side, forceopt=False):
        self.show = text if o.s else text.lower()
        self.t1, self.t2, self.spkr = t1, t2, spkr
        self.opt = forceopt
        x = self.show
        if o.D in (side, "both") and len(x) > 2 and x[0] == "(" and x[-1] == ")":
            self.opt, x = True, x[1:-1]
        elif forceopt:
            self.show = "(" + self.show + ")"
        self.frag = 0
        if o.F:
            if x[0] == "-":
                self.frag, x = 2, x[1:]
            elif x[-1] == "-":
                self.frag, x = 1, x[:-1]
        self.core = x


def same(a, b):
    x, y = a.core, b.core
    if a.frag == b.frag == 0:
        return x == y
    if {a.frag, b.frag} == {1, 2}:
        return False
    if 1 in (a.frag, b.frag):
        if a.frag == b.frag:
            return x.startswith(y) or y.startswith(x)
        return (y.startswith(x)) if a.frag else x.startswith(y)
    if a.frag == b.frag:
        return x.endswith(y) or y.endswith(x)
    return y.endswith(x) if a.frag else x.endswith(y)


class Model:
    """refs: [(speaker, [(start ms, end ms, text)])], hyps: [(speaker, [(word, start ms, end ms, optional)])]; one segment group."""

    def __init__(self, refs, hyps, o):
        self.o = o
        self.refs, self.hyps = refs, hyps
        self.hw = [[Word(w, o, a, b, s, "hyp", op) for w, a, b, op in ws] for s, ws in hyps]
        ts = [t for _, ss in refs for a, b, _ in ss for t in (a, b)] + [t for _, ws in hyps for _, a, b, _ in ws for t in (a, b)]
        self.dur = max(ts) - min(ts)
        self.rl = []
        for s, segs in refs:
            per = []
            for k, (a, b, x) in enumerate(segs):
                per.append([[(k, Word(w, o, a, b, s, "ref")) for w in q] for q in lang(x)])
            self.rl.append([sum(c, []) for c in itertools.product(*per)])

    def gap(self, r, h):
        return max(0, h.t1 - r.t2, r.t1 - h.t2)

    def may(self, r, h):
        return self.o.wta is None or self.gap(r, h) <= self.o.wta

    def pair(self, r, h):
        c = 0
        if self.o.adaptive:
            c += 50 * self.gap(r, h) // self.dur
        if not same(r, h):
            c += 400
            if self.o.walign:
                c += edit(r.core, h.core)
        elif self.o.spkr is not None and self.o.spkr.get(h.spkr) != r.spkr:
            c += 100
        return c

    def dele(self, r):
        return 200 if r.opt and self.o.D in ("ref", "both") else 300

    def ins(self, h):
        return 200 if h.opt and self.o.D in ("hyp", "both") else 300

    def best(self):
        b = None
        for combo in itertools.product(*self.rl):
            c = self.dp([[w for _, w in q] for q in combo])
            if b is None or c < b:
                b = c
        return b

    def dp(self, rs):
        hs = self.hw
        nr = len(rs)
        chains = rs + hs
        cost = {}
        self.n = 0
        for st in itertools.product(*[range(len(c) + 1) for c in chains]):
            if not any(st):
                cost[st] = 0
                continue
            m = None
            self.n += 1
            for i in range(len(chains)):
                if not st[i]:
                    continue
                p = st[:i] + (st[i] - 1,) + st[i + 1:]
                w = chains[i][st[i] - 1]
                c = cost[p] + (self.dele(w) if i < nr else self.ins(w))
                if m is None or c < m:
                    m = c
                if i < nr:
                    for j in range(nr, len(chains)):
                        if st[j]:
                            h = chains[j][st[j] - 1]
                            if self.may(w, h):
                                c = cost[p[:j] + (st[j] - 1,) + p[j + 1:]] + self.pair(w, h)
                                if c < m:
                                    m = c
            cost[st] = m
        return cost[st]


# ---- asclite's sgml --------------------------------------------------------------------------------------
def parse_sgml(text):
    """-> [system {title, paths: [{spkr, id, file, channel, seq, t1, t2, aux, words: [[..fields..]]}]}]"""
    systems = []
    spk = None
    lines = text.split("\n")
    i = 0
    while i < len(lines):
        l = lines[i]
        if l.startswith("<SYSTEM"):
            systems.append({"title": re.search(r'title="([^"]*)"', l).group(1), "paths": [], "spkrs": []})
        elif l.startswith("<SPEAKER"):
            spk = re.search(r'id="([^"]*)"', l).group(1)
            systems[-1]["spkrs"].append(spk)
        elif l.startswith("<PATH"):
            a = dict(re.findall(r'(\w+)="([^"]*)"', l))
            body = lines[i + 1]
            if lines[i + 2] != "</PATH>":
                raise Fail("unreadable path %r" % lines[i:i + 3])
            ws = [w.split(",") for w in body.split(":")] if body else []
            if int(a["word_cnt"]) != len(ws):
                raise Fail("word_cnt is %s, %d words are listed: %s" % (a["word_cnt"], len(ws), body))
            systems[-1]["paths"].append({"spkr": spk, "id": a["id"], "file": a.get("file", ""), "channel": a.get("channel", ""), "seq": int(a["sequence"]),
                                         "t1": a.get("R_T1"), "t2": a.get("R_T2"), "aux": a.get("word_aux", "").split(",") if a.get("word_aux") else [], "words": ws})
            i += 2
        i += 1
    return systems


def unq(x):
    return x[1:-1] if len(x) >= 2 and x[0] == x[-1] == '"' else x


def ms(x):
    return round(float(x) * 1000)


def check_group(m, paths, least=None):
    """The paths of one segment group against the model; -> number of words checked."""
    o = m.o
    segs = {}
    for i, (s, ss) in enumerate(m.refs):
        for k, (a, b, _) in enumerate(ss):
            segs[s, a, b] = (i, k)
    pool = {}
    for j, ws in enumerate(m.hw):
        for k, w in enumerate(ws):
            pool[w.t1, w.t2] = (j, k)
    used_h, per_ref, seen = {}, [[] for _ in m.refs], set()
    for p in paths:
        key = (p["spkr"], ms(p["t1"]), ms(p["t2"]))
        if key not in segs:
            raise Fail("path of a segment that is not in the reference: %r" % (key,))
        if key in seen:
            raise Fail("segment %r has two paths" % (key,))
        seen.add(key)
        i, k = segs[key]
        lasth = {}
        for n, w in enumerate(p["words"]):
            tag = w[0]
            aux = dict(zip(p["aux"], w[3:]))
            r, h = unq(w[1]), unq(w[2])
            hk = None
            if h:
                t = aux.get("h_t1+t2")
                if not t:
                    raise Fail("system word %s without times" % h)
                hk = pool.get(tuple(ms(x) for x in t.split("+")))
                if hk is None:
                    raise Fail("system word %s %s is not in the input" % (h, t))
                if hk in used_h:
                    raise Fail("system word %s %s is used twice" % (h, t))
                hw = m.hw[hk[0]][hk[1]]
                if hw.show != h:
                    raise Fail("system word %s at %s is shown as %s" % (hw.show, t, h))
                if lasth.get(hk[0], -1) >= hk[1]:
                    raise Fail("system words out of order in %r" % (p["words"],))
                lasth[hk[0]] = hk[1]
                used_h[hk] = None
                if "h_spkr" in aux and aux["h_spkr"] != hw.spkr:
                    raise Fail("system word %s of speaker %s is shown as of speaker %s" % (h, hw.spkr, aux["h_spkr"]))
            elif not r:
                raise Fail("empty alignment in %r" % (p["words"],))
            per_ref[i].append((k, n, r, hk, tag, aux))
            if hk is not None:
                used_h[hk] = (i, len(per_ref[i]) - 1)
    for j, ws in enumerate(m.hw):
        for k, w in enumerate(ws):
            if (j, k) not in used_h:
                raise Fail("system word %s %s is missing in the alignment" % (w.show, w.t1))
    total = 0
    chosen = []
    for i, (s, ss) in enumerate(m.refs):
        per_ref[i].sort(key=lambda x: (x[0], x[1]))
        got = [(k, r) for k, n, r, hk, tag, aux in per_ref[i] if r]
        c = [q for q in m.rl[i] if [(k, w.show) for k, w in q] == got]
        if not c:
            raise Fail("reference words used of speaker %s: %r; the reference allows %r" % (s, got, [[w.show for _, w in q] for q in m.rl[i]]))
        q = iter(c[0])
        for k, n, r, hk, tag, aux in per_ref[i]:
            rw = next(q)[1] if r else None
            hw = m.hw[hk[0]][hk[1]] if hk is not None else None
            sub = False
            if rw and hw:
                if not m.may(rw, hw):
                    raise Fail("%s (%d-%d) is aligned with %s (%d-%d), more than %d ms apart" % (rw.show, rw.t1, rw.t2, hw.show, hw.t1, hw.t2, o.wta))
                total += m.pair(rw, hw)
                sub = o.spkr is not None and o.spkr.get(hw.spkr) != rw.spkr
                want = "C" if same(rw, hw) and not sub else "S"
                sub = sub and same(rw, hw)
            elif rw:
                total += m.dele(rw)
                want = "C" if rw.opt and o.D in ("ref", "both") else "D"
            else:
                total += m.ins(hw)
                want = "C" if hw.opt and o.D in ("hyp", "both") else "I"
            if tag != want:
                raise Fail("%s / %s is scored %s instead of %s" % (rw and rw.show, hw and hw.show, tag, want))
            if hw and "h_isSpkrSub" in aux and aux["h_isSpkrSub"] != ("true" if sub else "false"):
                raise Fail("%s / %s: h_isSpkrSub is %s" % (rw and rw.show, hw.show, aux["h_isSpkrSub"]))
    # an order of all events that respects each stream must exist
    nodes = [(i, n) for i in range(len(m.refs)) for n in range(len(per_ref[i]))]
    succ = {x: set() for x in nodes}
    for i in range(len(m.refs)):
        rr = [n for n in range(len(per_ref[i])) if per_ref[i][n][2]]
        for a, b in zip(rr, rr[1:]):
            succ[i, a].add((i, b))
    for j, ws in enumerate(m.hw):
        for k in range(len(ws) - 1):
            succ[used_h[j, k]].add(used_h[j, k + 1])
    indeg = {x: 0 for x in nodes}
    for x in nodes:
        for y in succ[x]:
            indeg[y] += 1
    q = [x for x in nodes if not indeg[x]]
    n = 0
    while q:
        x = q.pop()
        n += 1
        for y in succ[x]:
            indeg[y] -= 1
            if not indeg[y]:
                q.append(y)
    if n != len(nodes):
        raise Fail("the alignment crosses: words of a stream are not aligned in their order")
    b = m.best() if least is None else least
    if total != b:
        raise Fail("the alignment costs %d, the least cost is %d" % (total, b))
    return len(nodes)


def used_times(paths):
    out = set()
    for p in paths:
        for w in p["words"]:
            t = dict(zip(p["aux"], w[3:])).get("h_t1+t2")
            if t:
                out.add(tuple(ms(x) for x in t.split("+")))
    return out


def check_utt(m, path):
    """One utterance without times (trn): reference and system words in order, and the cost."""
    o = m.o
    hs = [w.show for w in m.hw[0]] if m.hw else []
    got = [unq(w[2]) for w in path["words"] if unq(w[2])]
    if got != hs:
        raise Fail("system words %r are shown as %r" % (hs, got))
    gr = [unq(w[1]) for w in path["words"] if unq(w[1])]
    c = [q for q in m.rl[0] if [w.show for _, w in q] == gr]
    if not c:
        raise Fail("reference words used: %r; the reference allows %r" % (gr, [[w.show for _, w in q] for q in m.rl[0]]))
    q, h = iter(c[0]), iter(m.hw[0] if m.hw else [])
    total = 0
    for w in path["words"]:
        rw = next(q)[1] if unq(w[1]) else None
        hw = next(h) if unq(w[2]) else None
        total += m.pair(rw, hw) if rw and hw else m.dele(rw) if rw else m.ins(hw)
        want = ("C" if same(rw, hw) else "S") if rw and hw else ("C" if m.dele(rw) == 200 else "D") if rw else "C" if m.ins(hw) == 200 else "I"
        if w[0] != want:
            raise Fail("%r is scored %s instead of %s" % (w, w[0], want))
    b = m.best()
    if total != b:
        raise Fail("the alignment costs %d, the least cost is %d" % (total, b))
    return len(path["words"])
