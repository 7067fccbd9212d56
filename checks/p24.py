#!/usr/bin/env python3
"""P24: the rttm, ctm and stm converters carry over every record."""
import itertools, os, random, shutil, subprocess, sys
from decimal import Decimal as D
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, mc
from mc import Check, Fail, chunks, newdir
from perlfork import Script

C = Check("P24", "exhaustive exploration of all sequences of records up to a length, drawn from pools that vary one field each, on the real converters; each output compared with a reference model of the conversion",
          "every input file (an ordered sequence of records) with its options is one trace",
          ["times are multiples of 0.05 s and are compared as numbers", "where no order is promised, outputs are compared as sets of records"])
T = C.thorough
SRC = lambda n: "%s/src/%s/%s.pl" % (build.REPO, n, n)
TYPES = ["NOSCORE", "NO_RT_METADATA", "SEGMENT", "SPEAKER", "SU", "A/P", "CB", "IP", "EDIT", "FILLER", "NON-SPEECH", "NON-LEX", "LEXEME"]


def num(x):
    return D(x) if x != "<NA>" else D(-1)


def norm(r):
    """A record with its times as numbers (fields 3 and 4)."""
    r = list(r)
    for i in (3, 4):
        if i < len(r) and r[i] != "<NA>":
            try:
                r[i] = str(D(r[i]).quantize(D("0.001")))
            except ArithmeticError:
                r[i] = "not a number: " + r[i]
    return tuple(r)


def text(recs):
    return "".join(" ".join(r) + "\n" for r in recs)


# Every model: list of records -> None (must be refused), or a function that
# takes the output lines (lists of fields) and says what is wrong with them.

def same_set(want):
    def f(out):
        a, b = sorted(map(norm, want)), sorted(map(norm, out))
        if a != b:
            miss = [" ".join(x) for x in a if a.count(x) > b.count(x)][:2]
            more = [" ".join(x) for x in b if b.count(x) > a.count(x)][:2]
            return "lacks %s, has %s" % (miss, more)
    return f


def m_sort(recs, opts):
    seen, info, rest = set(), [], []
    for n, r in enumerate(recs):
        if r[0].startswith(";;"):
            continue
        if len(r) not in (9, 10) or r[0] not in TYPES + ["SPKR-INFO"]:
            return None
        if r[0] == "SPKR-INFO":
            k = (r[1], r[2], r[7])
            if k in seen:
                return None
            seen.add(k)
            info.append((k, r[:9]))
        else:
            rest.append(((r[1], r[2], num(r[3]), TYPES.index(r[0]), n), r[:9]))
    info = [r for k, r in sorted(info)]
    rest = [r for k, r in sorted(rest)]

    def f(out):
        w = same_set(info + rest)(out)
        if w:
            return w
        if [o[0] for o in out[:len(info)]] != ["SPKR-INFO"] * len(info):
            return "the SPKR-INFO records do not come first"
        for i, (a, b) in enumerate(zip(map(norm, out[len(info):]), map(norm, rest))):
            if a != b:
                return "record %d is '%s' where '%s' belongs" % (i, " ".join(a), " ".join(b))
    return f


def m_ctm(recs, opts):
    out = []
    for r in recs:
        if r[0].startswith(";;"):
            continue
        if len(r) not in (9, 10) or r[0] not in TYPES + ["SPKR-INFO"]:
            return None
        if r[0] == "LEXEME" and r[6] == "lex":
            out.append([r[1], r[2], r[3], r[4], r[5]] + ([r[8]] if r[8] != "<NA>" else []))

    def f(got):
        cv = lambda x: [x[0], x[1], D(x[2]), D(x[3])] + list(x[4:]) if len(x) > 3 else x
        if len(got) != len(out):
            return "%d records for %d lexemes" % (len(got), len(out))
        for a, b in zip(got, out):
            if cv(a) != cv(b):
                return "'%s' where '%s' belongs" % (" ".join(a), " ".join(b))
    return f


def join(turns, gap):
    """[(begin, end, record)] of one speaker -> joined turns."""
    o = []
    for b, e, r in sorted(turns, key=lambda x: x[0]):
        if o and b - o[-1][1] <= gap:
            o[-1] = (o[-1][0], max(o[-1][1], e), o[-1][2])
        else:
            o.append((b, e, r))
    return o


def m_smooth(recs, opts):
    gap = D(opts[1]) if opts else D("0.3")
    keep, sp = [], {}
    for r in recs:
        if r[0].startswith(";"):
            keep.append(r)
        elif r[0] == "SPEAKER":
            sp.setdefault((r[1], r[2], r[7]), []).append((D(r[3]), D(r[3]) + D(r[4]), r))
        else:
            keep.append(r)
    for k, v in sp.items():
        for b, e, r in join(v, gap):
            keep.append(r[:3] + [str(b), str(e - b)] + r[5:])
    return same_set(keep)


def m_sad(recs, opts):
    chans = sorted(set((r[1], r[2]) for r in recs if not r[0].startswith(";")))
    want = [r for r in recs if r[0].startswith(";")]
    for c in chans:
        mine = [r for r in recs if not r[0].startswith(";") and (r[1], r[2]) == c]
        sp = [r for r in mine if r[0] == "SPEAKER"]
        if not sp and not any(r[0] == "SPKR-INFO" for r in mine):
            return None
        want.append(["SPKR-INFO", c[0], c[1], "<NA>", "<NA>", "<NA>", "unknown", "speech", "<NA>"])
        want += [r[:7] + ["speech"] + r[8:] for r in sp]

    def f(out):
        w = same_set(want)([r[:8] + ["<NA>"] if r[0] == "SPKR-INFO" else r for r in out])   # the confidence of a declaration is free
        if w:
            return w
        for c in chans:
            mine = [r for r in out if not r[0].startswith(";") and (r[1], r[2]) == c]
            t = [D(r[3]) for r in mine if r[0] == "SPEAKER"]
            if t != sorted(t):
                return "the records of file %s channel %s are not in time order" % c
            if mine[0][0] != "SPKR-INFO":
                return "SPKR-INFO does not come before the turns of file %s channel %s" % c
    return f


EV = {"rt02": (2, D("0.5")), "rt04s": (1, D(0)), "rt05s": (None, D("0.3"))}


def m_stm(recs, opts):
    if not opts or opts[1] not in EV:
        return None
    si, gap = EV[opts[1]]
    sex, turns = {}, {}
    for r in recs:
        if r[0].startswith(";;") or "inter_segment_gap" in r:
            continue
        g = "unknown"
        if si is not None:
            lab = r[5].strip("<>").split(",")[si]
            g = {"male": "adult_male", "female": "adult_female", "unk": "unknown"}.get(lab)
            if g is None:
                return None
            if sex.get(r[2], g) != g and "excluded_region" not in r[2]:
                return None
        sex.setdefault(r[2], g)
        turns.setdefault((r[2], r[0], r[1]), []).append((D(r[3]), D(r[4]), r))
    want = []
    for (s, f, c), v in turns.items():
        v = sorted(v, key=lambda x: x[0])
        if any(b[0] < a[1] for a, b in zip(v, v[1:])):
            return None
        ex = "excluded_region" in s
        if not ex:
            want.append(["SPKR-INFO", f, c, "<NA>", "<NA>", "<NA>", sex[s], s, "<NA>"])
        for b, e, r in join(v, gap):
            want.append(["NOSCORE" if ex else "SPEAKER", f, c, str(b), str(e - b), "<NA>", "<NA>", "<NA>" if ex else s, "<NA>"])

    def f(out):
        w = same_set(want)(out)
        if w:
            return w
        k = [o[0] != "SPKR-INFO" for o in out]
        if k != sorted(k):
            return "a SPKR-INFO record follows a turn"
    return f


def judge(arg, st, fails, samples):
    tool, model, cases, via_i = arg
    s = Script(SRC(tool))
    d = newdir()
    for recs, opts in cases:
        recs = [list(r) for r in recs]
        txt = text(recs)
        with open(d + "/in", "w") as f:
            f.write(txt)
        f = model(recs, opts)
        if via_i:
            open(d + "/o", "w").close()
            got = s.run(d, ["-i", "in", "-o", "o"] + opts, err="e")
        else:
            got = s.run(d, opts, stdin="in", out="o", err="e")
        st.add(traces=1, states=1, transitions=len(recs))
        out = [l.split() for l in open(d + "/o", errors="replace") if l.strip()]
        m = None
        if f is None:
            m = None if got else "a file to be refused is accepted"
        elif got:
            m = "a well-formed file is refused (status %s)" % got
        else:
            m = f(out)
        if m:
            m = "%s %s: %s, input: %s" % (tool, " ".join(opts), m, " / ".join(txt.splitlines()))
            fails.append(Fail(m, key=m, files={"in": txt}, cmd="perl %s %s < in" % (SRC(tool), " ".join(opts)), detail=text(out) + open(d + "/e", errors="replace").read()[-500:]).pack())
            if len(fails) > 3:
                break
    if not samples and cases:
        samples.append({"tool": tool, "input": text(cases[0][0])[:300]})
    s.close()
    shutil.rmtree(d)


def seqs(pool, n):
    for k in range(n + 1):
        yield from itertools.product(pool, repeat=k)


def variants(base, alts):
    """base and every record that differs from it in one field."""
    yield tuple(base)
    for i, vs in alts.items():
        for v in vs:
            r = list(base)
            r[i] = v
            yield tuple(r)


def rec(t, f="f", c="1", b="1", d="0.5", o="<NA>", s="<NA>", n="s", x="<NA>", *more):
    return (t, f, c, b, d, o, s, n, x) + more


def sort_cases():
    core = list(variants(rec("SPEAKER"), {0: ["LEXEME", "NOSCORE"], 1: ["e", "g"], 2: ["2"], 3: ["0.5", "10", "2", "1.0"], 7: ["r"], 8: ["0.9"]}))
    core += [rec("SPKR-INFO", b="<NA>", d="<NA>", s="adult_male"), rec("SPKR-INFO", b="<NA>", d="<NA>", s="unknown", n="r"), rec("SPKR-INFO", c="2", b="<NA>", d="<NA>", s="unknown", n="r")]
    yield from ((x, []) for x in seqs(core, 3 if T else 2))
    yield from ((x, []) for x in itertools.permutations(core[:4] + core[5:8] + core[-2:], 3 if not T else 4))
    two = [rec(t, b=b, n=n) for t in TYPES for b in ("1", "1.00", "2") for n in ("s", "r")]
    yield from ((x, []) for x in itertools.product(two, repeat=2))
    for w in ("w", "(w)", "it's", "<w>", "[n]", "%h", "w-", "{a", "\xe9".encode("utf-8").decode("latin-1")[:0] + "a;b"):
        yield [rec("LEXEME", o=w, s="lex", x="0.5")], []
    good = rec("SPEAKER")
    for r in [good[:8], good[:7], ("x",) + good, good[:3] + good[4:], ("SPEAKERS",) + good[1:], ("speaker",) + good[1:], ("foo",), good + ("<NA>", "x"), good + ("0.5",)]:
        yield [r], []
        yield [good, r], []
        yield [r, good], []
    yield [(";;", "a", "comment"), good], []


def ctm_cases():
    pool = list(variants(rec("LEXEME", o="a", s="lex", x="0.5"), {0: ["NON-LEX", "SPEAKER"], 1: ["g"], 2: ["2"], 3: ["0.55", "10", ".5"], 4: ["0", "0.05"], 5: ["(a)", "it's", "%h", "a-"], 6: ["frag", "fp", "alpha", "un-lex"], 7: ["r"], 8: ["<NA>", "1", "0.123456"]}))
    pool += [rec("SPKR-INFO", b="<NA>", d="<NA>", s="adult_male"), (";;", "c"), rec("LEXEME", "f", "1", "1", "0.5", "a", "lex", "s", "0.5", "0.7"), rec("NO_RT_METADATA")]
    bad = [("LEXEME", "f", "1", "1", "0.5", "a", "lex"), ("foo",) + pool[0][1:], ("LEXEME",)]
    yield from ((x, []) for x in seqs(pool, 2))
    if T:
        yield from ((x, []) for x in itertools.product(pool[::2], repeat=3))
    for b in bad:
        yield [b], []
        yield [pool[0], b], []
        yield [b, pool[0]], []


GRID = ["0", "0.5", "0.8", "0.85", "1.3", "1.35"]


def smooth_cases():
    sp = [rec("SPEAKER", b=b, d=d) for b in GRID for d in ("0.5", "0.05")] + [rec("SPEAKER", b="0", d="2")]
    other = [rec("SPEAKER", n="r"), rec("SPEAKER", c="2"), rec("SPEAKER", f="g"), rec("LEXEME", o="a", s="lex", x="0.5"), rec("SPKR-INFO", b="<NA>", d="<NA>", s="adult_male"), (";;", "c"), rec("NOSCORE", n="<NA>")]
    for o in ([], ["-s", "0.5"], ["-s", "0"]):
        yield from ((x, o) for x in seqs(sp, 3 if T else 2))
        yield from ((x, o) for x in itertools.combinations(sp, 3))
        yield from ((x, o) for x in itertools.product(sp[::3], other, sp[1::3]))
    yield from ((x, []) for x in seqs(other, 3 if T else 2))
    if T:
        yield from ((x, []) for x in itertools.combinations(sp, 4))
        yield from ((x, []) for x in itertools.product(sp[::2], other, other, sp[1::2]))


def sad_cases():
    pool = [rec("SPEAKER", b=b, n=n) for b in ("0", "0.50", "10", "2") for n in ("s", "r")]
    pool += [rec("SPEAKER", c="2"), rec("SPEAKER", f="g", b="3", x="0.5"), rec("SPKR-INFO", b="<NA>", d="<NA>", s="adult_male"), rec("SPKR-INFO", b="<NA>", d="<NA>", s="unknown", n="r"), rec("SPKR-INFO", c="2", b="<NA>", d="<NA>", s="unknown", n="r"), (";;", "c")]
    yield from ((x, []) for x in seqs(pool, 4 if T else 3))


def stm_cases():
    iv = [("0", "0.5"), ("0.5", "0.8"), ("1.3", "1.6"), ("0.85", "1"), ("2", "3"), ("1.35", "1.5"), ("10", "11")]
    sg = [("f", "1", "s", b, e, "<o,f0,male>", "a", "b") for b, e in iv]
    for ev in EV:
        lab = lambda x: {"rt02": "<o,f0,%s>", "rt04s": "<o,%s>", "rt05s": "<o,f0,%s>"}[ev] % x
        g = [r[:5] + (lab("male"),) + r[6:] for r in sg]
        more = [("f", "1", "r", "0.2", "0.9", lab("female"), "c"), ("f", "2", "s", "0.5", "1", lab("male"), "c"), ("g", "1", "s", "0.5", "1", lab("male"), "c"),
                ("f", "1", "excluded_region", "3", "4", lab("unk"), "ignore_time_segment_in_scoring"), ("f", "1", "excluded_region", "0", "0.5", lab("male"), "c"), ("f", "1", "inter_segment_gap", "1", "2", lab("unk")),
                ("f", "1", "s", "3", "4", lab("female"), "x"), ("f", "1", "u", "3", "4", lab("unk"), "x"), (";;", "c"), ("f", "1", "t", "3.5", "5", lab("child"), "x"), ("f", "1", "s", "0.6", "3.05", lab("male"), "x")]
        o = ["-e", ev]
        yield from ((x, o) for x in seqs(g, 3))
        yield from ((x, o) for x in itertools.product(g, more, g))
        yield from ((x, o) for x in seqs(more, 3 if T else 2))
        yield from ((x, o) for x in itertools.permutations(g, 4))
        if T:
            yield from ((x, o) for x in itertools.combinations(g, 5))
            yield from ((x, o) for x in itertools.product(g, more, more))
    yield [sg[0]], ["-e", "rt99"]
    yield [sg[0]], []


def merge_one(arg, st, fails, samples):
    cases = arg
    d = newdir()
    for turns, words in cases:
        r = text(turns)
        c = text(words)
        with open(d + "/r", "w") as f:
            f.write(r)
        with open(d + "/c", "w") as f:
            f.write(c)
        p = subprocess.run(["perl", SRC("mergectm2rttm"), "-r", "r", "-c", "c", "-p", TOOLS], cwd=d, capture_output=True, text=True)
        st.add(traces=1, states=1, transitions=len(turns) + len(words))
        m = merge_wrong(turns, words, p)
        if m:
            m = "mergectm2rttm: %s, turns: %s, words: %s" % (m, " / ".join(r.splitlines()), " / ".join(c.splitlines()))
            fails.append(Fail(m, key=m, files={"r": r, "c": c}, cmd="perl %s -r r -c c -p %s/src" % (SRC("mergectm2rttm"), build.REPO), detail=p.stdout + p.stderr[-500:]).pack())
            if len(fails) > 3:
                break
    if not samples and cases:
        samples.append({"tool": "mergectm2rttm", "turns": text(cases[0][0]), "words": text(cases[0][1])})
    shutil.rmtree(d)


def merge_wrong(turns, words, p):
    if p.returncode:
        return "stops with status %d" % p.returncode
    out = [l.split() for l in p.stdout.splitlines() if l.strip() and not l.startswith(";")]
    decl = set((r[1], r[2]) for r in turns if r[0] == "SPKR-INFO")
    info = sorted(set((r[1], r[2], r[7]) for r in turns if r[0] == "SPKR-INFO"))
    if sorted((o[1], o[2], o[7]) for o in out if o[0] == "SPKR-INFO") != info:
        return "the SPKR-INFO records are not those of the input"
    want = []   # (key of the word, speakers possible)
    for w in words:
        if w[0].startswith(";;") or (len(w) > 6 and w[6] != "lex") or (w[0], w[1]) not in decl:
            continue
        mid = D(w[2]) + D(w[3]) / 2
        who = set(r[7] for r in turns if r[0] == "SPEAKER" and (r[1], r[2]) == (w[0], w[1]) and D(r[3]) <= mid <= D(r[3]) + D(r[4]))
        if who:
            want.append(((w[0], w[1], D(w[2]), D(w[3]), w[4], w[5] if len(w) > 5 else "<NA>"), who))
    lex = [o for o in out if o[0] == "LEXEME"]
    got = sorted((o[1], o[2], D(o[3]), D(o[4]), o[5], o[8]) for o in lex)
    if got != sorted(k for k, w in want):
        return "the LEXEME records are not the words spoken within turns"
    who = {}
    for k, w in want:
        who.setdefault(k, []).append(w)
    for o in lex:
        if not any(o[7] in w for w in who[(o[1], o[2], D(o[3]), D(o[4]), o[5], o[8])]):
            return "the word %s is given to %s, who is not talking then" % (o[5], o[7])
    # the turns written are those of the words, joined over gaps of 0.3 s
    sp = {}
    for o in lex:
        sp.setdefault((o[1], o[2], o[7]), []).append((D(o[3]), D(o[3]) + D(o[4]), o))
    ws = sorted((k, b, e) for k, v in sp.items() for b, e, r in join(v, D("0.3")))
    gs = sorted(((o[1], o[2], o[7]), D(o[3]), D(o[3]) + D(o[4])) for o in out if o[0] == "SPEAKER")
    if ws != gs:
        return "the SPEAKER records do not cover the words of each speaker"
    for f in set((o[1], o[2]) for o in lex):
        t = [D(o[3]) for o in lex if (o[1], o[2]) == f]
        if t != sorted(t):
            return "the words are not in time order"


def merge_cases():
    info = [rec("SPKR-INFO", b="<NA>", d="<NA>", s="unknown", n=n) for n in "sr"] + [rec("SPKR-INFO", c="2", b="<NA>", d="<NA>", s="unknown")]
    tn = [rec("SPEAKER", b="0", d="1"), rec("SPEAKER", b="1", d="1", n="r"), rec("SPEAKER", b="1.5", d="1"), rec("SPEAKER", c="2", b="0", d="2"), rec("SPEAKER", f="g", b="0", d="9")]
    wd = [("f", "1", b, d, "w", "0.5", "lex", "x") for b, d in (("0", "0.4"), ("0.4", "0.2"), ("0.9", "0.2"), ("0.75", "0.5"), ("1.7", "0.1"), ("2.4", "0.2"), ("2.45", "0.2"))]
    wd += [("f", "1", "0", "0.4", "v"), ("f", "1", "0", "0.4", "v", "0.7"), ("f", "1", "0.1", "0.1", "z", "0.5", "non-lex"), ("f", "2", "0.5", "0.5", "w", "1", "lex"), ("g", "1", "0.5", "0.5", "w", "1", "lex"), (";;", "c")]
    for k in range(4):
        for t in itertools.combinations(tn, k):
            for w in (itertools.combinations(wd, 2) if T else itertools.combinations(wd, 1)):
                yield info + list(t), w
    for w in itertools.permutations(wd[:7:2] + wd[7:9], 3):
        yield info + tn, w
    yield info[:1] + tn[:3], wd


def main(ctx):
    global TOOLS
    TOOLS = newdir()
    for n in ("rttmSmooth", "rttmSort"):   # the tools must be executable, whatever the checkout did
        os.makedirs(TOOLS + "/" + n)
        shutil.copy(SRC(n), TOOLS + "/" + n)
        os.chmod(TOOLS + "/%s/%s.pl" % (n, n), 0o755)
    args = []
    for tool, model, cases, via in (("rttmSort", m_sort, sort_cases, 0), ("rttm2ctm", m_ctm, ctm_cases, 1), ("rttmSmooth", m_smooth, smooth_cases, 0), ("spkr2sad", m_sad, sad_cases, 0), ("stm2rttm", m_stm, stm_cases, 0)):
        cs = list(cases())
        C.bounds[tool] = "%d files" % len(cs)
        args += [(tool, model, c, via) for c in chunks(cs, 400)]
    cs = list(merge_cases())
    C.bounds["mergectm2rttm"] = "%d pairs of files" % len(cs)
    C.parallel(judge, args)
    C.parallel(merge_one, list(chunks(cs, 20)))
    # a file that cannot be read is an error
    C.serial(missing, None)
    C.parallel(steady, ["rttmSort", "rttmSmooth", "spkr2sad", "stm2rttm"])
    shutil.rmtree(TOOLS)
    C.finish()


def steady(tool, st, fails, samples):
    """The output does not depend on the order in which perl walks its tables."""
    d = newdir()
    if tool == "stm2rttm":
        txt = text([(f, c, s, "1", "2", "<o,f0,male>", "a") for f in "fg" for c in "12" for s in "srt"])
    else:
        txt = text([rec("SPKR-INFO", f, c, "<NA>", "<NA>", s="unknown", n=n) for f in "fg" for c in "12" for n in "srt"] + [rec(t, f, c, n=n) for f in "fg" for c in "12" for n in "srt" for t in ("SPEAKER", "LEXEME", "SU")])
    with open(d + "/in", "w") as f:
        f.write(txt)
    outs = set()
    for seed in range(12 if not T else 60):
        with open(d + "/in") as f:
            p = subprocess.run(["perl", SRC(tool)] + (["-e", "rt02"] if tool == "stm2rttm" else []), stdin=f, cwd=d, capture_output=True, env=dict(os.environ, PERL_HASH_SEED=str(seed), PERL_PERTURB_KEYS="0"))
        st.add(traces=1, states=1, transitions=1)
        outs.add((p.returncode, p.stdout))
    if len(outs) != 1 or list(outs)[0][0]:
        m = "%s: the order of the output depends on perl's hash seed" % tool
        fails.append(Fail(m, key=m, files={"in": txt}, cmd="PERL_HASH_SEED=n perl %s < in" % SRC(tool)).pack())
    shutil.rmtree(d)


def missing(arg, st, fails, samples):
    d = newdir()
    for t, a in (("rttm2ctm", ["-i", "nofile", "-o", "o"]), ("rttm2ctm", ["-i", "in", "-o", "no/dir"]), ("mergectm2rttm", ["-r", "nofile", "-c", "in", "-p", TOOLS]), ("mergectm2rttm", ["-r", "in", "-c", "nofile", "-p", TOOLS]), ("mergectm2rttm", ["-r", "in", "-c", "in", "-p", "nodir"])):
        open(d + "/in", "w").close()
        p = subprocess.run(["perl", SRC(t)] + a, cwd=d, capture_output=True)
        st.add(traces=1, states=1, transitions=1)
        if p.returncode == 0:
            m = "%s %s succeeds" % (t, " ".join(a[:4]))
            fails.append(Fail(m, key=m, files={}, cmd="perl %s %s" % (SRC(t), " ".join(a))).pack())
    shutil.rmtree(d)


mc.main(lambda: None, main)
