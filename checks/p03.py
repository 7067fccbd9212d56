#!/usr/bin/env python3
"""P03: utterances are paired by id, in any file order, and credited to the right speaker."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, mc, sgml
from mc import Check, Fail, chunks, run_in

C = Check("P03", "exhaustive exploration of utterance-file histories (orders, subsets, duplicates, comments, ids) on the real sclite, against an id-map model",
          "every file pair of each family, each its own sclite run",
          ["speaker = text before the first hyphen (else underscore) for rm/swb/spu_id, first three characters for wsj, the whole id for sp"])
T = C.thorough


def speaker(idt, i):
    if idt == "sp":
        return "(" + i + ")"
    if idt == "wsj":
        return i[:3]
    for c in "-_":
        if c in i:
            return i[:i.index(c)]
    return None


def model(ref, hyp, idt, cs):
    """ref, hyp: lists of (id, words).  -> None when the run must fail, else [(id, speaker, refwords, hypwords)] in hyp order"""
    f = (lambda s: s) if cs else str.lower
    R = {}
    for i, w in ref:
        i = f(i)
        if i in R and R[i] != f(w):
            R[i] = None
        else:
            R[i] = f(w)
    out, seen = [], set()
    for i, w in hyp:
        i = f(i)
        if i in seen or R.get(i) is None:
            return None
        seen.add(i)
        out.append((i, speaker(idt, i), R[i].split(), f(w).split()))
    return out


def render(utts, deco, eol=True):
    """deco: {position: lines to insert before that record}"""
    out = []
    for k, (i, w) in enumerate(utts):
        out += deco.get(k, [])
        out.append("%s (%s)" % (w, i))
    out += deco.get(len(utts), [])
    s = "\n".join(out)
    return s + "\n" if eol else s


def trace(case, st, fails, samples):
    what, ref, hyp, idt, cs, rdeco, hdeco, reol, heol = case
    files = {"r.trn": render(ref, rdeco, reol), "h.trn": render(hyp, hdeco, heol)}
    cmd = [os.path.join(BIN, "sclite"), "-r", "r.trn", "-h", "h.trn", "-i", idt] + (["-s"] if cs else []) + ["-o", "sgml", "stdout", "-f", "0"]
    rc, out, err, _ = run_in(files, cmd)
    exp = model(ref, hyp, idt, cs)
    st.add(traces=1, states=1 + len(ref) + len(hyp), transitions=len(ref) + len(hyp))

    def bad(m):
        fails.append(Fail("%s (-i %s%s): %s" % (what, idt, " -s" if cs else "", m), files=files, cmd=" ".join(cmd[1:]),
                          key="%s|%s|%s|%s|%s" % (what, files["r.trn"], files["h.trn"], idt, cs)).pack())
    if exp is None:
        if rc == 0:
            bad("a hypothesis utterance without a usable reference (or given twice) was accepted")
        elif not isinstance(rc, int) or rc < 0:
            bad("sclite died (%s)" % rc)
        return
    if rc != 0:
        return bad("sclite exited with %s: %s" % (rc, err.decode("utf-8", "replace")[-300:]))
    try:
        ss = sgml.parse(out)
    except Fail as f:
        return bad(f.msg)
    got = []
    for p in ss[0].paths:
        got.append((int(p.attrs["sequence"]), p.attrs["id"], p.speaker,
                    [w[1] for w in p.words if w[0] in "CSD"], [w[2] for w in p.words if w[0] in "CSI"]))
    want = sorted(("(" + i + ")", s, r, h) for i, s, r, h in exp)
    if sorted(g[1:] for g in got) != want:
        return bad("reported %r, expected %r" % (sorted(g[1:] for g in got)[:6], want[:6]))
    order = [g[1] for g in sorted(got)]
    if order != ["(" + e[0] + ")" for e in exp]:
        return bad("sequence numbers do not follow the hypothesis file: %r" % order[:8])
    bysp = {}
    for g in got:
        bysp.setdefault(g[2], []).append(g[0])
    for s, q in bysp.items():
        if q != sorted(q):
            return bad("utterances of speaker %s out of order" % s)
    if len(ss[0].speakers) != len(set(ss[0].speakers)):
        return bad("a speaker is listed twice: %r" % ss[0].speakers[:10])
    if not samples:
        samples.append("%s: %r / %r" % (what, files["r.trn"][:120], files["h.trn"][:120]))


def case(what, ref, hyp, idt="spu_id", cs=False, rdeco={}, hdeco={}, reol=True, heol=True):
    return (what, list(ref), list(hyp), idt, cs, rdeco, hdeco, reol, heol)


U = [("s1-01", "a b"), ("s1-02", "b c d"), ("s2-01", "d")]
HW = {"s1-01": "a b", "s1-02": "b x d", "s2-01": "d d"}
JUNK = [";; a comment", "", "   ", ';; LABEL "l" "t" "d"']


def fam_orders():
    C.bounds["orders"] = "3 utterances: all orders of the reference file x all ordered non-empty subsets in the hypothesis file, x final newline present or not"
    for rp in itertools.permutations(U):
        for k in (1, 2, 3):
            for hp in itertools.permutations(U, k):
                h = [(i, HW[i]) for i, _ in hp]
                for re in (True, False):
                    for he in (True, False):
                        yield case("orders", rp, h, reol=re, heol=he)


def fam_deco():
    C.bounds["comments"] = "comment / blank / white / label lines at every single place (and at all places) of either file, with and without final newline"
    h = [(i, HW[i]) for i, _ in U]
    for j in JUNK:
        for pos in range(4):
            for eol in (True, False):
                yield case("comments", U, h, rdeco={pos: [j]}, reol=eol)
                yield case("comments", U, h, hdeco={pos: [j]}, heol=eol)
                yield case("comments", U, h, rdeco={pos: [j, j]}, hdeco={pos: [j]}, reol=eol, heol=eol)
        d = {p: [j, ";; x"] for p in range(4)}
        yield case("comments", U, h, rdeco=d, hdeco=d)


def fam_missing():
    C.bounds["missing"] = "every subset of 3 references x every ordered non-empty selection (with repetition, up to 3) of hypotheses; every way of giving one reference twice, with equal, shorter, longer and different text, adjacent or apart"
    for k in range(0, 4):
        for rs in itertools.combinations(U, k):
            for m in (1, 2, 3):
                for hs in itertools.product(U, repeat=m):
                    yield case("missing", rs, [(i, HW[i]) for i, _ in hs])
    h = [(i, HW[i]) for i, _ in U]
    for x in range(3):
        i, w = U[x]
        for w2 in (w, w + " z", " ".join(w.split()[:-1]), "q", w.split()[0], w[:-1] + "z"):
            for pos in range(4):
                r = list(U)
                r.insert(pos, (i, w2))
                yield case("duplicate", r, h)
                yield case("duplicate", r, h[:x] + h[x + 1:])
                r = list(U)
                r.insert(pos, ("zz-9", w2))
                yield case("extra", r, h)


def fam_ids():
    pool = ["s-1", "s-10", "s-100", "s_1", "s_10", "S-1", "s1_a-2", "s1-a_2", "ss-1", "s.x-1", "a-1-2", "abc001", "abcd01", "ab-c", "abd_1"]
    C.bounds["ids"] = "all ordered pairs and triples of %d ids (prefixes of each other, both separators, upper case), every id type, case sensitive or not, reference file reversed" % len(pool)
    n = 3 if T else 2
    for k in range(1, n + 1):
        for sel in itertools.permutations(pool, k):
            if len(set(x.lower() for x in sel)) < k:
                csl = (True,)
            else:
                csl = (False, True)
            for idt in ("rm", "swb", "spu_id", "wsj", "sp"):
                if idt in ("rm", "swb", "spu_id") and any(speaker(idt, x) is None for x in sel):
                    continue
                if k == 3 and idt in ("rm", "swb"):
                    continue
                for cs in csl:
                    r = [(x, "w%d Q" % j) for j, x in enumerate(sel)]
                    h = [(x, "w%d q" % j) for j, x in enumerate(sel)]
                    yield case("ids", r[::-1], h, idt, cs)
    # hypothesis id in the other letter case
    for cs in (False, True):
        yield case("ids-case", [("s-a", "a")], [("S-A", "a")], "spu_id", cs)
        yield case("ids-case", [("S-A", "a")], [("s-a", "a")], "spu_id", cs)


def fam_many():
    N = 400 if T else 140
    C.bounds["many"] = "every number of utterances 1..%d spread over every of 1, 2, all-different and n/2 speakers, reference reversed or rotated" % N
    for n in range(1, N + 1):
        for ns in sorted({1, 2, max(1, n // 2), n}):
            ids = ["sp%d-%d" % (k % ns, k) for k in range(n)]
            r = [(i, "w%d a" % k) for k, i in enumerate(ids)]
            h = [(i, "w%d b" % k) for k, i in enumerate(ids)]
            yield case("many", r[::-1] if n % 2 else r[n // 2:] + r[:n // 2], h)
            if ns == n:
                yield case("many-missing", r[:-1], h)
                yield case("many-missing", r[1:], h)


def fam_idlen():
    N = 300 if T else 150
    C.bounds["idlen"] = "every speaker / utterance id length up to %d" % N
    for n in range(1, N):
        i, j = "s" * n + "-1", "t-" + "9" * n
        yield case("idlen", [(i, "a"), (j, "b")], [(j, "b"), (i, "c")])
        # ids that share their first n characters
        for base in ("s" * n, "s-" + "t" * n, "s-t-" + "u" * n, "s_" + "t-" * n):
            a, b = base + "-1", base + "-2"
            yield case("idprefix", [(a, "a b"), (b, "c")], [(b, "c"), (a, "a b")])


def fam_linelen():
    N = 2100
    C.bounds["linelen"] = "reference and hypothesis record length every value around the reader's buffer growth (980..1020, 1980..2020, 3980..4020)"
    for L in list(range(980, 1021)) + list(range(1980, 2021)) + list(range(3980, 4021)):
        pad = lambda i: (" ".join(["w"] * 3000))[:L - len(i) - 3].strip() or "w"
        for eol in (True, False):
            w = pad("s-1")
            yield case("linelen", [("s-2", "a"), ("s-1", w)], [("s-2", "a"), ("s-1", w)], reol=eol, heol=eol)
            w = "x" * ((L - 6) // 4) + " " + "y" * ((L - 6) - (L - 6) // 4 - 1)
            yield case("linelen", [("s-2", "a"), ("s-1", "q")], [("s-2", "a"), ("s-1", " ".join("v" * 3 for _ in range((L - 6) // 4)) + "v" * ((L - 6) % 4))], reol=eol, heol=eol)


def work(cases, st, fails, samples):
    for c in cases:
        trace(c, st, fails, samples)


def jobs():
    for g in (fam_orders(), fam_deco(), fam_missing(), fam_ids(), fam_many(), fam_idlen(), fam_linelen()):
        yield from chunks(g, 40)


def body(d):
    global BIN
    BIN = d
    C.parallel(work, jobs())
    C.finish()


mc.main(build.sclite, body)
