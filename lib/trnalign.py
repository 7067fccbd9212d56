"""Runs sclite on batches of (reference, hypothesis) transcripts and compares every alignment with the model."""
from functools import lru_cache
import netmodel as nm, sgml
from mc import Fail, run_in


class Sem:
    """Scoring semantics: how words compare and what each edit costs (thousandths avoided: null words are free)."""

    def __init__(self, case_sens=False, frag=False, optdel=False):
        self.cs, self.frag, self.od = case_sens, frag, optdel
        self.name = ("-s " if case_sens else "") + ("-F " if frag else "") + ("-D" if optdel else "")

    def opts(self):
        return (["-s"] if self.cs else []) + (["-F"] if self.frag else []) + (["-D"] if self.od else [])

    def fold(self, w):
        return w if self.cs else w.lower()

    def isopt(self, w):
        return self.od and len(w) >= 2 and w[0] == "(" and w[-1] == ")"

    def core(self, w):
        return w[1:-1] if self.isopt(w) else w

    def equal(self, r, h):
        r, h = self.fold(r), self.fold(h)
        r, h = self.core(r), self.core(h)
        if self.frag:
            for x, y in ((r, h), (h, r)):
                if len(x) > 1 and x[0] == "-":
                    return y.endswith(x[1:])
                if len(x) > 1 and x[-1] == "-":
                    return y.startswith(x[:-1])
        return r == h

    def delc(self, w):
        return 2 if self.isopt(w) else 3

    insc = delc

    def subc(self, r, h):
        return 0 if self.equal(r, h) else 4


def fold_items(items, f):
    return tuple(tuple(fold_items(a, f) for a in it) if isinstance(it, tuple) else f(it) for it in items)


def linear(items):
    return not any(isinstance(i, tuple) or i == "@" for i in items)


def lin_cost(r, h, sem):
    n = len(h)
    prev = [0] * (n + 1)
    for j in range(n):
        prev[j + 1] = prev[j] + sem.insc(h[j])
    for x in r:
        dx = sem.delc(x)
        cur = [prev[0] + dx]
        for j in range(n):
            y = h[j]
            c = prev[j] + sem.subc(x, y)
            t = prev[j + 1] + dx
            if t < c:
                c = t
            t = cur[j] + sem.insc(y)
            if t < c:
                c = t
            cur.append(c)
        prev = cur
    return prev[n]


_nets = {}


def net(items):
    x = _nets.get(items)
    if x is None:
        if len(_nets) > 200000:
            _nets.clear()
        x = _nets[items] = nm.Net(items)
    return x


def judge(sem, ref, hyp, path, st, nets=None):
    """None, or what is wrong with this alignment.  nets: builds the two networks (default: of the items as they are)"""
    ref, hyp = fold_items(ref, sem.fold), fold_items(hyp, sem.fold)
    cost = 0
    rw, hw = [], []
    for w in path.words:
        e, r, h = w[0], w[1], w[2]
        if e == "C" and sem.od and (h == "" or r == ""):
            # a word marked optionally deletable, deleted (or inserted) and counted correct
            x = r if h == "" else h
            if x is None or not sem.isopt(x):
                return "word %r scored correct against nothing" % (x,)
            cost += sem.delc(x)
            (rw if h == "" else hw).append(x)
        elif e in "CS":
            if r is None or h is None:
                return "%s without two words" % e
            if sem.equal(r, h) != (e == "C"):
                return "%r vs %r scored %s" % (r, h, "correct" if e == "C" else "substituted")
            cost += sem.subc(r, h)
            rw.append(r)
            hw.append(h)
        elif e == "D":
            if r is None or h is not None:
                return "malformed deletion"
            if sem.isopt(r):
                return "optionally deletable %r scored as a deletion" % r
            cost += sem.delc(r)
            rw.append(r)
        elif e == "I":
            if h is None or r is not None:
                return "malformed insertion"
            if sem.isopt(h):
                return "optionally deletable %r scored as an insertion" % h
            cost += sem.insc(h)
            hw.append(h)
        else:
            return "unknown label %r" % e
    rn, hn = nets(ref, hyp) if nets else (net(ref), net(hyp))
    if not nm.is_path(rn, rw):
        return "reference words %r are not the reference transcript (or one of its alternatives)" % (rw,)
    if not nm.is_path(hn, hw):
        return "hypothesis words %r are not the hypothesis transcript (or one of its alternatives)" % (hw,)
    if not nets and linear(ref) and linear(hyp):
        best = lin_cost(ref, hyp, sem)
        st.add(states=(len(ref) + 1) * (len(hyp) + 1), transitions=3 * len(ref) * len(hyp) + len(ref) + len(hyp))
    else:
        best = nm.least_cost(rn, hn, sem.delc, sem.insc, sem.subc, st)
    if cost != best:
        return "alignment costs %s, the least possible is %s" % (cost, best)
    return None


def ids(n, nspk=37):
    return ["s%02d_%05d" % (i % nspk, i) for i in range(n)]


def make_files(cases):
    r, h = [], []
    for i, (ref, hyp) in zip(ids(len(cases)), cases):
        r.append("%s (%s)\n" % (nm.text(ref), i))
        h.append("%s (%s)\n" % (nm.text(hyp), i))
    return {"r.trn": "".join(r), "h.trn": "".join(h)}


def run_cases(binary, sem, cases, extra=(), more=None):
    files = make_files(cases)
    files.update(more or {})
    cmd = [binary, "-r", "r.trn", "-h", "h.trn", "-i", "spu_id"] + sem.opts() + list(extra) + ["-o", "sgml", "stdout", "-f", "0"]
    rc, out, err, _ = run_in(files, cmd)
    return files, cmd, rc, out, err


def check(binary, sem, cases, st, fails, samples, what, extra=(), model=None, nets=None, more=None):
    """model: what the transcript stands for under the extra options (default: itself)"""
    def one(cs):
        """-> list of (case, message)"""
        files, cmd, rc, out, err = run_cases(binary, sem, cs, extra, more)
        if rc != 0:
            return [(cs, "sclite exited with %s: %s" % (rc, err.decode("utf-8", "replace")[-300:]))]
        ss = sgml.parse(out)
        if len(ss) != 1:
            return [(cs, "expected one SYSTEM, got %d" % len(ss))]
        byid = {}
        for p in ss[0].paths:
            byid.setdefault(p.attrs.get("id"), []).append(p)
        bad = []
        last = -1
        for i, c in zip(ids(len(cs)), cs):
            got = byid.pop("(" + i + ")", [])
            if len(got) != 1:
                bad.append(([c], "utterance appears %d times in the output" % len(got)))
                continue
            p = got[0]
            if p.speaker != i.split("_")[0]:
                bad.append(([c], "utterance %s filed under speaker %r" % (i, p.speaker)))
                continue
            if p.attrs.get("word_cnt") != str(len(p.words)):
                bad.append(([c], "word_cnt %s but %d words" % (p.attrs.get("word_cnt"), len(p.words))))
                continue
            m = judge(sem, model(c[0]) if model else c[0], model(c[1]) if model else c[1], p, st, nets)
            if m:
                bad.append(([c], m + "; alignment " + p.raw[:300]))
        for k in byid:
            bad.append((cs, "utterance %r in the output was never in the input" % k))
        return bad

    bad = one(cases)
    st.add(traces=len(cases), states=len(cases), transitions=sum(len(a) + len(b) for a, b in cases))
    if not samples and cases:
        c = cases[len(cases) // 2]
        samples.append("%s %s: ref '%s' hyp '%s'" % (what, sem.name, nm.text(c[0]), nm.text(c[1])))
    for cs, m in bad[:3]:
        solo = one(cs) if len(cs) == 1 else None
        note = ""
        if solo is None or not solo:
            # shows only in company: hand over the whole batch
            cs2 = cases
            note = " (only within its batch)" if solo is not None else ""
        else:
            cs2 = cs
            m = solo[0][1]
        files = make_files(cs2)
        files.update(more or {})
        fails.append(Fail("%s [%s]%s: ref '%s' hyp '%s': %s" % (
            what, sem.name, note, nm.text(cs[0][0]), nm.text(cs[0][1]), m),
            key="%s|%s|%s|%s" % (what, sem.name, nm.text(cs[0][0]), nm.text(cs[0][1])), files=files,
            cmd="sclite -r r.trn -h h.trn -i spu_id %s -o sgml stdout -f 0" % " ".join(sem.opts() + list(extra))).pack())
