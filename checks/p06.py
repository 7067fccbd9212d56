#!/usr/bin/env python3
"""P06: every sclite report states the counts of the alignments it reports on."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, mc, netmodel as nm, reports as rp, sgml
from mc import Check, Fail, chunks, newdir

C = Check("P06", "exhaustive exploration of score tables on the real sclite: every report of a run is recomputed from the alignments of the same run",
          "every table of each family is one run producing all report types",
          ["the alignments themselves are those of the same run's SGML output (P01-P05 decide whether they are right)"])
T = C.thorough
REPORTS = ["sum", "rsum", "pralign", "prf", "dtl", "snt", "spk", "sgml"]

# utterance shapes: (reference, hypothesis)
SHAPES = [("a", "a"), ("a", "b"), ("a", ""), ("", "a"), ("", ""), ("a b c", "a x"), ("a c", "b b d a c"), ("a a b", "a b a c")]


def run_case(case, S):
    """case: dict(files, opts, cs, labels)"""
    import shutil
    d = newdir()
    try:
        for n, t in case["files"].items():
            with open(os.path.join(d, n), "wb") as f:
                f.write(mc.enc(t))
        cmd = [S + "/sclite"] + case["opts"] + ["-o"] + REPORTS + (["lur"] if case.get("labels") else []) + ["-O", d, "-n", "out", "-f", "0"]
        rc, o, e = mc.run(cmd, cwd=d)
        if rc != 0:
            raise Fail("sclite ended with %s: %r" % (rc, (o + e)[-300:]))
        if o.strip():
            raise Fail("unexpected text on standard output: %r" % o[:200])

        def rd(n):
            p = os.path.join(d, "out." + n)
            if not os.path.isfile(p):
                raise Fail("report out.%s was not written" % n)
            if os.path.getsize(p) > 20000000:
                raise Fail("report out.%s is %d bytes long" % (n, os.path.getsize(p)))
            return open(p, "rb").read()

        sy = sgml.parse(rd("sgml"))
        if len(sy) != 1:
            raise Fail("%d systems in the alignments" % len(sy))
        spks = rp.tally(sy[0])
        cs = case.get("cs", False)
        aux = case.get("aux")
        n = sum(len(s.paths) for s in spks)
        if "nutt" in case and n != case["nutt"]:
            raise Fail("%d utterances scored, expected %d" % (n, case["nutt"]))
        rp.check_summary(rd("sys"), spks, False, "sum")
        rp.check_summary(rd("raw"), spks, True, "rsum")
        rp.check_listing(rd("pra"), spks, "pralign", cs)
        rp.check_listing(rd("prf"), spks, "prf", cs, by_seq=True, aux=aux)
        rp.check_detail(rd("dtl"), rp.total(spks), "dtl")
        for s in spks:
            rp.check_detail(rd("spk." + s.name), s, "spk " + s.name)
            rp.check_sent(rd("snt." + s.name), s, "snt " + s.name, cs, aux)
        if case.get("labels"):
            rp.check_lur(rd("lur"), spks, case["labels"], "lur")
        return n, len(spks)
    except Fail as f:
        f.files, f.cmd = case["files"], " ".join([S + "/sclite"] + case["opts"] + ["-o"] + REPORTS)
        raise
    finally:
        shutil.rmtree(d, ignore_errors=True)


def trn(speakers, opts=(), **kw):
    """speakers: list of lists of (ref, hyp)"""
    r, h, n = [], [], 0
    for k, us in enumerate(speakers):
        for j, (a, b) in enumerate(us):
            r.append("%s (s%d_%d)\n" % (a, k, j))
            h.append("%s (s%d_%d)\n" % (b, k, j))
            n += 1
    return dict(files={"r.trn": "".join(r), "h.trn": "".join(h)},
                opts=["-r", "r.trn", "-h", "h.trn", "-i", "rm"] + list(opts), nutt=n, **kw)


def tables():
    one = [[s] for s in SHAPES]
    two = [list(p) for p in itertools.product(SHAPES, SHAPES)]
    for u in one + two:
        yield trn([u])
    for a in one + (two if T else two[::3]):
        for b in one + (two if T else []):
            yield trn([a, b])
    for c in itertools.product(SHAPES, repeat=3):
        yield trn([[x] for x in c])
    sub = SHAPES[:4]
    for c in itertools.product(sub if not T else SHAPES[:6], repeat=4):
        yield trn([[x] for x in c])
    if T:
        for c in itertools.product(sub, repeat=6):
            yield trn([[x] for x in c])
    for c in itertools.product(SHAPES[:6], repeat=2):
        yield trn([[("A b", "A B"), c[0]], [c[1], ("A", "a")]], ["-s"], cs=True)


def words(n):
    return ["w%s" % "".join("abcdefghij"[int(d)] for d in str(k)) for k in range(n)]


def scale():
    N = 140 if T else 75
    for n in list(range(1, N)):
        yield trn([[SHAPES[(k * k) % 8]] for k in range(n)])
    for n in range(1, 90 if T else 50):
        yield trn([[SHAPES[(k * 3 + k // 8) % 8] for k in range(n)], [SHAPES[0]]])
    # number of distinct words in the lists: crosses the list sizes
    for n in ([1, 50, 99, 100, 101, 150, 197, 198, 199, 200, 201, 202, 203, 250, 398, 399, 400, 401, 402, 600, 801, 1200] if not T else range(1, 900, 7)):
        w = words(n)
        ref = " ".join(w)
        yield trn([[(ref, "")]])
        yield trn([[("", ref)], [(w[-1], w[0])]])
        yield trn([[(" ".join(w), " ".join("x" + x for x in w))]])
        yield trn([[(x, "x" + x)] for x in w[:1]] + [[(x, y) for x, y in zip(w, reversed(w))]])
    # utterance length: line wrapping in the listings at every phase, words of all lengths
    for n in range(1, 130 if not T else 400):
        yield trn([[(" ".join(["aa"] * n), " ".join(["aa"] * (n // 2) + ["b"] + ["aa"] * (n - n // 2)))]])
    for L in list(range(1, 260)) + [998, 999, 1000, 1001, 1999, 2001, 4500] + ([] if not T else list(range(260, 1200, 13))):
        w = ("abcdefghij" * 200)[:L]
        yield trn([[("a " + w + " b", "a b"), ("a b", "a " + w + " b"), (w, w), ("a " + w + " c", "a " + w + "x c"), (w, "")]])


def seq(*a):
    return list(a)


def aux(w):
    # fields of a stm/ctm alignment: h_t1+t2, h_conf
    if w[0] == "D":
        return {"H_T1": None, "H_T2": None, "CONF": None}
    a, b = w[3].split("+")
    return {"H_T1": float(a), "H_T2": float(b), "CONF": float(w[4])}


def stm_case(labels, cats, utts, tab=None):
    """labels: [(id, title)], utts: [(spk, label string, ref, hyp)]"""
    st = []
    for c in range(cats):
        st.append(';; CATEGORY "%d" "Cat%d" "category %d"\n' % (c, c, c))
    for l, t in labels:
        st.append(';; LABEL "%s" "%s" "description of %s"\n' % (l, t, l))
    ct = []
    t = 0
    n = 0
    for spk, lab, r, h in utts:
        st.append("f 1 %s %d %d %s%s\n" % (spk, t, t + 8, lab, " " + r if r else ""))
        n += 1
        for j, w in enumerate(h.split()):
            ct.append("f 1 %g 0.125 %s %.4f\n" % (t + 0.5 + j * 0.25, w, 0.25 + 0.0625 * (j % 8)))
        t += 8
    if not ct:
        return None

    return dict(files={"r.stm": "".join(st), "h.ctm": "".join(ct)}, opts=["-r", "r.stm", "stm", "-h", "h.ctm", "ctm"],
                labels=labels, aux=aux, nutt=n)


LS = [("a", "a"), ("a b", "c"), ("", "a"), ("a b c", "a x c d")]


def lurs():
    L3 = [("o", "Overall"), ("f0", "Base"), ("f1", "Spon")]
    L2 = [("o", "All"), ("m", "Male")]
    # all assignments of label sets to up to 3 utterances of up to 2 speakers
    sets = ["<o,f0>", "<o,f1>", "<o>"]
    for n in (1, 2, 3):
        for spk in itertools.product("pq", repeat=n):
            if spk[0] != "p":
                continue
            for labs in itertools.product(sets, repeat=n):
                for sh in itertools.product(LS, repeat=n) if (n < 3 or T) else [tuple(LS[(i * 2 + len(set(labs)) + k) % 4] for k in range(3)) for i in range(2)]:
                    yield stm_case(L3, 0 if n == 1 else 2, [("spk_" + s, l, a, b) for s, l, (a, b) in zip(spk, labs, sh)])
    # number of labels and of categories
    for n in range(1, 25):      # 25 labels are refused: the report generator is limited to 50 columns
        labs = [("o", "All")] + [("l%d" % k, "T%d" % k) for k in range(1, n)]
        ut = []
        for k in range(n):
            ut.append(("spk_%s" % "pq"[k % 2], "<o,l%d>" % k if k else "<o>", *LS[k % 4]))
        yield stm_case(labs, 2, ut)
    for n in range(0, 26):
        labs = [("o", "All")] + [("c%d" % k, "T%d" % k) for k in range(1, min(n, 8))]
        ut = [("spk_p", "<" + ",".join(x[0] for x in labs) + ">", "a b", "a c"), ("spk_q", "<o>", "a b", "a")]
        yield stm_case(labs, n, ut)
    # label ids of every length
    for L in list(range(1, 70)):
        lid = ("abcdefghij" * 10)[:L]
        yield stm_case([("o", "All"), (lid + "z", "T")], 2, [("spk_p", "<o,%sz>" % lid, "a b", "a c"), ("spk_q", "<o>", "a", "b")])
    # timed listings wrap at every width
    for n in range(1, 60):
        yield stm_case(L2, 2, [("spk_p", "<o,m>", " ".join("abc"[k % 3] * (1 + k % 9) for k in range(n)), "x " + " ".join("abc"[k % 3] * (1 + k % 9) for k in range(0, min(n, 25))))])


def work(batch, st, fails, samples):
    for case in batch:
        try:
            n, k = run_case(case, work.S)
            st.add(states=n, transitions=n * 8, traces=1)
        except Fail as f:
            fails.append(f.pack())
            if len(fails) > 3:
                return


def body(S):
    work.S = S
    C.bounds["tables"] = "all tables of 1-%d speakers with 1-2 utterances over %d utterance shapes" % (6 if T else 4, len(SHAPES))
    C.bounds["scale"] = "speakers, utterances per speaker, distinct words, utterance length and word length swept across the internal array and line sizes"
    C.bounds["labels"] = "all label assignments to up to 3 utterances; 1-24 labels, 0-25 categories, label ids of 1-70 characters"
    cases = [c for c in itertools.chain(tables(), scale(), lurs()) if c is not None]
    C.stats.add(tables=len(cases))
    C.parallel(work, chunks(cases, 16))
    C.finish()


if __name__ == "__main__":
    mc.main(build.sclite, body)
