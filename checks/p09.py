#!/usr/bin/env python3
"""P09: word-weighted alignments minimise and report the weighted cost."""
import itertools, os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, mc, netmodel as nm, reports as rp, sgml, trnalign as ta
from mc import Check, Fail, chunks, newdir

C = Check("P09", "exhaustive exploration of transcripts and weight lists on the real sclite -w against least-weight alignment (explicit-state search of the product network); weighted summary recomputed from the list",
          "every transcript pair under every weight list is one aligned utterance judged by the reference model",
          ["weights are multiples of 1/8, exact in single precision", "listed words are in lower case"])
T = C.thorough


class WSem(ta.Sem):
    def __init__(self, words, default, cs=False, od=False):
        ta.Sem.__init__(self, cs, False, od)
        self.words, self.default = words, default
        self.name += " weights %r/%r" % (words if len(words) < 9 else len(words), default)

    def weight(self, w):
        if self.isopt(w) or w == "@":
            return 0
        if "=" in w:
            return sum(self.words.get(x, self.default) for x in w.split("=") if x)
        return self.words.get(w, self.default)

    delc = insc = lambda self, w: self.weight(self.fold(w))

    def subc(self, r, h):
        return 0 if self.equal(r, h) else self.delc(r) + self.delc(h)


def wwl(words, default, style=0, order=1):
    """the weight list file in one of its layouts"""
    items = sorted(words.items())[::order]
    body = "".join("%s %g\n" % i for i in items)
    d = ";; Default missing weight '%g'\n" % default
    if style == 0:
        return ";; 'Headings' 'Word Spelling' 'W1'\n" + d + body
    if style == 1:      # no headings
        return d + body
    if style == 2:      # several columns: the first counts
        return d + ";; a comment\n\n;; 'Headings' 'Word Spelling' 'W1' 'W2' 'W3'\n" + "".join("%s  %g\t9.5 77\n" % i for i in items)
    if style == 3:      # no default line: 0
        return ";; 'Headings' 'Word Spelling' 'The weight'\n" + body
    if style == 4:      # default last, comments between
        return "".join("%s %g\n;; comment\n" % i for i in items) + d
    raise ValueError(style)


def run_case(arg, st, fails, samples):
    words, default, style, cs, od, batch, timed = arg
    sem = WSem(words, default, cs, od)
    d = newdir()
    files = {}
    try:
        if words is not None and style != "unity":
            files["w"] = wwl(words, default, style if style >= 0 else 0, -1 if style < 0 else 1)
        ids = ta.ids(len(batch), 5)
        if not timed:
            files.update(ta.make_files(batch))
            ids = ta.ids(len(batch))
            inp = ["-r", "r.trn", "-h", "h.trn", "-i", "spu_id"]
        elif timed == "stm":
            stm, ctm = [], []
            for k, (r, h) in enumerate(batch):
                stm.append("f 1 s%02d %d %d %s\n" % (k % 37, 8 * k, 8 * k + 8, nm.text(r)))
                for j, w in enumerate(h):
                    ctm.append("f 1 %g 0.125 %s\n" % (8 * k + 1 + j * .25, w))
            files.update({"r.stm": "".join(stm), "h.ctm": "".join(ctm)})
            inp = ["-r", "r.stm", "stm", "-h", "h.ctm", "ctm"]
        for n, t in files.items():
            with open(os.path.join(d, n), "wb") as f:
                f.write(mc.enc(t))
        cmd = [work.S + "/sclite"] + inp + ["-w", "unity" if style == "unity" else "w"] + sem.opts() + ["-o", "sgml", "wws", "-O", ".", "-n", "out", "-f", "0"]
        rc, o, e = mc.run(cmd, cwd=d)
        if rc != 0:
            raise Fail("sclite ended with %s: %r" % (rc, (o + e)[-300:]))
        sy = sgml.parse(open(d + "/out.sgml", "rb").read())
        if len(sy) != 1:
            raise Fail("%d systems" % len(sy))
        ps = sy[0].paths
        if len(ps) != len(batch):
            raise Fail("%d utterances, expected %d" % (len(ps), len(batch)))
        if timed:
            ps = sorted(ps, key=lambda p: float(p.attrs["R_T1"]))
        else:
            m = {p.attrs["id"]: p for p in ps}
            ps = [m["(%s)" % i] for i in ids]
        spk = {}
        for c, p in zip(batch, ps):
            m = ta.judge(sem, c[0], c[1], p, st)
            if m:
                raise Fail("ref '%s' hyp '%s': %s; alignment %s" % (nm.text(c[0]), nm.text(c[1]), m, p.raw[:300]))
            q = spk.setdefault(p.speaker, [0] * 5)
            for w in p.words:
                rw = sem.delc(w[1]) if w[1] else 0
                hw = sem.delc(w[2]) if w[2] else 0
                for v, f in ((rw, w[-2] if w[1] is not None else ""), (hw, w[-1] if w[2] is not None else "")):
                    if f != "" and abs(float(f) - v) > 1e-6 and (w[1] and w[2] or v):
                        raise Fail("weight %s written for %r, the list says %s" % (f, w[:3], v))
                q[0] += rw if w[0] != "I" else 0
                q[1] += hw if w[0] == "C" else 0
                q[2] += rw + hw if w[0] == "S" else 0
                q[3] += rw if w[0] == "D" else 0
                q[4] += hw if w[0] == "I" else 0
        spks = rp.tally(sy[0])
        # percentages of no weight at all are not defined
        if all(spk.get(s.name, [0])[0] > 0 or s.ref == 0 for s in spks):
            tr = []
            rp.check_summary(open(d + "/out.wws", "rb").read(), spks, False, "wws", weighted=spk, truncated=tr)
            if tr:
                fails.append(Fail(tr[0], "weighted totals drop fractions").pack())
            st.add(summaries=1)
        st.add(states=len(batch), transitions=sum(len(a) + len(b) for a, b in batch), traces=len(batch))
    except Fail as f:
        f.msg = "%s: %s" % (sem.name, f.msg)
        f.files, f.cmd = files, "sclite ... -w w %s -o sgml wws" % " ".join(sem.opts())
        fails.append(f.pack())
    finally:
        shutil.rmtree(d, ignore_errors=True)


work = run_case
V = ["a", "b", "c"]


def seqs(n):
    return [t for k in range(n + 1) for t in itertools.product(V, repeat=k)]


def jobs():
    W = [0.125, 1, 2.5]
    s3 = seqs(3)
    pairs = [(r, h) for r in s3 for h in (s3 if T else seqs(2)) if r]
    alts = []
    for r in seqs(2):
        for h in seqs(2):
            if r and h:
                alts.append((((r, h), "a"), h + ("b",)))
                alts.append((r, ((h, ("c",)), "b")))
                alts.append((((r, ("@",)), "b"), h))
    lists = [({"a": x, "b": y}, z) for x in W + [0] for y in W for z in (0, 0.5, 3)]
    for i, (l, z) in enumerate(lists):
        for b in chunks(pairs, 600):
            yield l, z, [0, 1, 2, 4, -1][i % 5], i % 2 == 0, False, b, None
        if T or i % 3 == 0:
            for b in chunks(alts, 600):
                yield l, z, i % 3, False, False, b, None
        if T or i % 3 == 1:
            # without null words: they take part in stm references only through alternations
            for b in chunks([p for p in pairs if p[1]], 300):
                yield l, z, 0, False, False, b, "stm"
    for b in chunks(pairs, 600):
        yield {"a": 1.5, "b": 0.5}, 0, 3, False, False, b, None
        yield {}, 1, "unity", False, False, b, None
    # optionally deletable words weigh nothing; compound words the sum of their parts
    od = [(r, h) for r in itertools.product(["a", "(a)", "(b)", "c"], repeat=2) for h in [()] + list(itertools.product(["a", "b", "(c)"], repeat=2))]
    cp = [(r, h) for r in itertools.product(["a", "a=b", "b=a=zz", "="], repeat=2) for h in [()] + list(itertools.product(["a", "b", "a=b"], repeat=2))]
    cp += [(("a=" * n + "b", "c"), ("a=b",)) for n in list(range(1, 60, 7)) + [100, 200]]
    for l, z in lists[::2]:
        yield l, z, 0, False, True, od, None
        yield l, z, 0, False, False, cp, None
    # list sizes: every listed word and every gap is looked up
    for n in (list(range(1, 40)) + [98, 99, 100, 101, 102, 149, 150, 151, 224, 225, 226, 227, 336, 338, 340, 507]) if not T else range(1, 520):
        words = {"w%03d" % (2 * k): 0.125 * (1 + k % 40) for k in range(n)}
        b = [(("w%03d" % k,), ("w%03d" % (k + 1),)) for k in range(0, 2 * n + 1, 1 if n < 120 or T else 3)]
        yield words, 6.5, [0, -1][n % 2], False, False, b, None
    # totals over speakers with fractional weights
    for x, y, z in itertools.product([0.125, 0.875, 1.5], [0.25, 3], [0.5, 1.125]):
        for n in range(1, 9):
            b = [((V[k % 3], V[(k * 2 + n) % 3]), (V[(k + 1) % 3],) * (1 + k % 2)) for k in range(n)]
            yield {"a": x, "b": y}, z, 0, False, False, b, None


def body(S):
    work.S = S
    C.bounds["alignments"] = "all references of 1-3 words against hypotheses of 0-%d words over 3 words, alternations, under 36 weight lists in 6 layouts; trn and stm/ctm; optional and compound words" % (3 if T else 2)
    C.bounds["lists"] = "lists of 1-%d words, every word and every gap looked up" % (519 if T else 507)
    js = list(jobs())
    C.stats.add(runs=len(js))
    C.parallel(run_case, js)
    C.finish()


if __name__ == "__main__":
    mc.main(build.sclite, body)
