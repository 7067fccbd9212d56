#!/usr/bin/env python3
"""P30: md-eval maps metadata events in the best order-preserving way and counts them as defined."""
import itertools, os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, mc
from fractions import Fraction as F
import md
from md import Case, Model
from mc import Check, Fail, chunks, newdir

C = Check("P30", "exhaustive exploration of all small sets of reference and system metadata events on a time grid, with zones, regions and options, on the real md-eval.pl, the mapping checked against the best by dynamic programming in exact arithmetic and every table recomputed from it",
          "every (words, reference events, system events, zones, options) within the bounds is one trace; the mapping printed by -D, the event and word counts of every file and in total, the percentages, the confusion matrices and the word offsets are compared",
          ["no middle of a word lies on the boundary of an event", "events of one side with the same middle have the same extent (their order is not defined otherwise)",
           "no middle of a system event lies on the boundary of an unannotated unit or complex edit", "where several mappings are best, any is accepted", "a file without reference events of a type is not scored for that type",
           "an event does not begin or end at the boundary of a zone that is not evaluated, unless the zone covers everything", "search pruning is switched off (-P) where it could matter"])
T = C.thorough
DEF = {("NOSCORE", "<na>"), ("LEXEME", "un-lex"), ("SU", "unannotated")}
CONDS = {None: DEF, "MIN": DEF - {("LEXEME", "un-lex")}, "FRAG": DEF - {("LEXEME", "un-lex")} | {("LEXEME", "frag")},
         "FRAG_UNLEX": DEF | {("LEXEME", "frag")}, "NONE": set()}


def rowcheck(where, got, want, fail):
    if [int(x) for x in got[:4]] != want:
        return fail("%s: the counts (reference, deleted, inserted, substituted) are %s, expected %s" % (where, got[:4], want))
    r = F(want[0]) or F(1, 10 ** 8)
    p = [min(F(99999, 100), 100 * x / r) for x in (want[1], want[2], want[3], want[1] + want[2], sum(want[1:]))]
    for g, w in zip(got[4:], p):
        if abs(F(g) - w) > F(51, 10000):
            return fail("%s: the percentages are %s, expected %s" % (where, got[4:], ["%.2f" % x for x in p]))


def detail(m, lines, fail):
    """The mapping {ref: sys} that the details of a file show, or None."""
    u = m.unit

    def ident(x, at=False):
        return (x[3][:16], "%.2f" % float(x[1] * u), "%.2f" % float((x[1] + x[2]) * u), x[4])
    pairs, used_r, used_s, shown = {}, [], [], []
    for f in lines:
        if len(f) < 14:
            return fail("unexpected line %s" % f)
        r, s = f[4:9], f[9:]
        rid, sid = None, None
        if r[0] != "---":
            c = [i for i, x in enumerate(m.ref) if ident(x) == (r[0], r[2], r[3], r[4]) and i not in used_r]
            if not c or r[1] != m.ty:
                return fail("reference event %s is scored but should not be" % r)
            rid = c[0]
            used_r.append(rid)
        if s[0] != "---":
            c = [i for i, x in enumerate(m.sys) if ident(x) == (s[0], s[-3], s[-2], s[-1]) and i not in used_s]
            if not c or s[1] != m.ty:
                return fail("system event %s is scored but should not be" % s)
            sid = c[0]
            used_s.append(sid)
        shown.append((f[:4], rid, sid))
        if rid is not None and sid is not None:
            pairs[rid] = sid
    for e, rid, sid in shown:
        want = ["0", "-", "1", "-"] if rid is None else ["1", "1", "-", "-"] if sid is None else \
               ["1", "-", "-", str(int(m.ref[rid][3] != m.sys[sid][3]))]
        if e != want:
            return fail("counts of the line are %s, expected %s" % (e, want))
    return pairs, used_r, used_s


def complete(m, pairs):
    """Mappings that show as these pairs: events taken out after mapping may have been mapped to each other."""
    drop = {"SU": "unannotated"}.get(m.ty) or ("complex" if m.ty == "EDIT" and m.o["dropcomplex"] else None)
    gone = [i for i, r in enumerate(m.ref) if r[3] == drop]
    free = [j for j in range(len(m.sys)) if j not in pairs.values()]
    for k in range(len(gone), -1, -1):
        for rs in itertools.combinations(gone, k):
            for ss in itertools.combinations(free, k):
                p = dict(pairs)
                p.update(zip(rs, ss))
                q = [p[i] for i in sorted(p)]
                if q == sorted(q) and all(m.score(i, p[i]) is not None or near(m, i, p[i]) for i in p):
                    yield p


def near(m, i, j):
    """Just touching: whether they can be mapped is a matter of rounding."""
    o = dict(m.o, gap=m.o["gap"] + F(1, 10 ** 7))
    m2 = Model.__new__(Model)
    m2.__dict__.update(m.__dict__)
    m2.o = o
    return m2.score(i, j) is not None


def judge(m, lines, fail):
    got = detail(m, lines, fail)
    if got is None:
        return None
    pairs, ur, us = got
    best = m.best()
    msg = None
    for p in complete(m, pairs):
        q = [p[i] for i in sorted(p)]
        if q != sorted(q):
            continue
        tot = sum((m.score(i, j) or 0 for i, j in p.items()), F(0))
        if tot < best - best / 10 ** 9 - F(1, 10 ** 15):
            msg = "the mapping %s is worth %.9g, the best %.9g" % ([(m.ref[i], m.sys[j]) for i, j in p.items()], tot, best)
            continue
        refs, syss = m.final(p)
        if sorted(ur) != refs or sorted(us) != syss:
            msg = "scored are %s and %s, expected %s and %s" % ([m.ref[i] for i in sorted(ur)], [m.sys[i] for i in sorted(us)],
                                                                [m.ref[i] for i in refs], [m.sys[i] for i in syss])
            continue
        return p
    return fail(msg or "no mapping fits the details %s" % (pairs,))


def run_batch(arg, st, fails, samples):
    batch, opt = arg
    d = newdir()
    unit = F(opt.get("unit", "0.3"))
    names = ["f%05d" % i for i in range(len(batch))]
    chn = (lambda i: str(1 + i % 2)) if opt.get("chan") else (lambda i: "1")
    with open(d + "/r.rttm", "w") as r, open(d + "/s.rttm", "w") as s, open(d + "/u.uem", "w") as u:
        for i, (n, c) in enumerate(zip(names, batch)):
            r.write(c.rttm("R", n, unit, chn(i)))
            s.write(c.rttm("S", n, unit, chn(i)))
            for b, e in c.uem or ():
                u.write("%s %s %s %s\n" % (n, chn(i), md.num(b, unit), md.num(e, unit)))
    by = opt.get("by", "fgs")
    cmd = ["perl", build.REPO + "/src/md-eval/md-eval.pl", "-D", "-a", by, "-A", "".join(x for x in by if x in "cf"), "-r", "r.rttm", "-s", "s.rttm"]
    if any(c.uem for c in batch):
        cmd += ["-u", "u.uem"]
    for f in ("T", "l", "P", "Y", "t"):
        if opt.get(f) is not None:
            cmd += ["-" + f, str(opt[f])]
    for f in ("W", "x", "w"):
        if opt.get(f):
            cmd.append("-" + f)
    rc, out, err = mc.run(cmd, cwd=d, timeout=120, env={"PERL_HASH_SEED": str(opt.get("seed", 0))})
    bad = []

    def fail(msg):
        bad.append(msg)
    o = {"gap": F(str(opt.get("T", "1"))), "limit": F(str(opt["l"])) if opt.get("l") else (F(2) if opt.get("W") else F(1, 2)),
         "words": bool(opt.get("W")), "dropcomplex": bool(opt.get("x")), "noscore": CONDS[opt.get("Y")]}
    if rc != 0:
        fail("md-eval fails (status %s): %s" % (rc, err[-300:].decode("latin-1")))
    else:
        try:
            got = md.parse(out.decode("latin-1"))
        except (ValueError, KeyError, IndexError) as e:
            got = fail("the report cannot be read: %s" % e)
        for ty in md.TYPES if got else ():
            check_type(st, ty, got[ty], batch, names, chn, by, unit, o, opt, fail)
            if bad:
                break
    if bad:
        m = bad[0]
        i = names.index(m.split(":")[0]) if m.split(":")[0] in names else None
        keep = {f: open(d + "/" + f).read() for f in ("r.rttm", "s.rttm", "u.uem")}
        if i is not None:
            keep = {f: "".join(x for x in v.splitlines(True) if names[i] in x) for f, v in keep.items()}
        fails.append(Fail(m, key=m, files=keep, cmd=" ".join(cmd), detail=m).pack())
    elif not samples:
        samples.append({"options": {k: str(v) for k, v in opt.items()}, "files": len(batch), "first": batch[0].rttm("R", "f", unit)})
    shutil.rmtree(d)


def check_type(st, ty, got, batch, names, chn, by, unit, o, opt, fail):
    ev, words, conf, cnames, off, scored = {}, {}, {}, set(), {"BEG": {}, "END": {}}, set()

    def add(d, cat, row):
        x = d.setdefault(cat, [0, 0, 0, 0])
        for k in range(4):
            x[k] += row[k]
    for i, (n, c) in enumerate(zip(names, batch)):
        if not any(x[0] == ty for x in c.ref):
            continue
        m = Model(c, ty, unit, o, tick=(md.adjust(c) if opt.get("w") else None))
        if not m.ref:
            continue
        scored.add((n, chn(i)))
        if (n, chn(i)) not in got["detail"]:
            return fail("%s: no %s details" % (n, ty))
        p = judge(m, got["detail"][n, chn(i)], lambda s: fail("%s: %s: %s" % (n, ty, s)))
        if p is None:
            return
        e, (cf, nm), w, of = m.counts(p)
        fc = "c=%s f=%s" % (chn(i), n) if "c" in by and "f" in by else "c=" + chn(i) if "c" in by else "f=" + n
        for cat, row in e.items():
            if cat == "ALL" or cat[0] in by:
                add(ev, cat, row)
        if "c" in by or "f" in by:
            if "ALL" in e:
                add(ev, fc, e["ALL"])
            add(words, fc, w)
        add(words, "ALL", w)
        for k, v in cf.items():
            conf[k] = conf.get(k, 0) + v
        cnames |= nm
        for k in off:
            for x, y in of[k].items():
                off[k][x] = off[k].get(x, 0) + y
        st.add(traces=1, transitions=len(c.ref) + len(c.sys))
    if set(got["detail"]) != scored:
        return fail("%s details for %s" % (ty, sorted(set(got["detail"]) ^ scored)[:3]))
    if not scored:
        return fail("a report on %s" % ty) if "score" in got else None
    for nm, want in (("events", ev), ("words", words)):
        if set(got.get(nm, ())) != set(want):
            return fail("%s %s rows %s" % (ty, nm, sorted(set(got.get(nm, ())) ^ set(want))[:5]))
        for cat, row in want.items():
            st.add(states=1)
            if rowcheck("%s: %s %s" % (cat[-6:], ty, nm), got[nm][cat], row, fail):
                return
    a = words["ALL"]
    e = a[1] + a[2] + (a[3] if ty in ("SU", "FILLER") else 0)
    if abs(F(got["score"]) - 100 * e / (F(a[0]) or F(1, 10 ** 8))) > F(51, 10000):
        return fail("the overall %s error is %s, expected %.3f" % (ty, got["score"], 100 * e / (a[0] or 1e-8)))
    if ev:
        rows = got["conf"][1:]
        cols = sorted(cnames)
        if [r[0] for r in rows] != sorted(cnames) + ["{FA}"]:
            return fail("%s confusion matrix has rows %s, expected %s" % (ty, [r[0] for r in rows], cols))
        for r in rows:
            want = [conf.get((r[0], c), 0) for c in cols + (["{Miss}"] if r[0] != "{FA}" else [])]
            if [int(x) for x in r[1:]] != want:
                return fail("%s confusion matrix row %s, expected %s" % (ty, r, want))
    if off["BEG"]:
        for k, row in zip(("BEG", "END"), got["off"][1:]):
            o_ = off[k]
            want = [str(sum(v for x, v in o_.items() if x < -3))] + [str(o_[x]) if x in o_ else "-" for x in range(-3, 4)] + \
                   [str(sum(v for x, v in o_.items() if x > 3))]
            if row[0] != k + ":" or row[1:] != want:
                return fail("%s word offsets %s, expected %s" % (ty, row, want))


# ---- what is enumerated

def words(n, spk="a", gap=None, subs={}):
    """n contiguous one-tick words, a silence of one tick before word `gap`."""
    out, t = [], 0
    for i in range(n):
        if i == gap:
            t += 1
        out.append((t, 1, spk[i % len(spk)] if len(spk) > 1 else spk, subs.get(i, "lex")))
        t += 1
    return out


def spans(n, ty):
    return [(b, 0) for b in range(n + 1)] if ty in md.POINT else [(b, e - b) for b in range(n + 1) for e in range(b + 1, n + 1)]


def sets(ty, n, k, subs, spk="a", distinct=False):
    """All sets of at most k events on a grid of n ticks."""
    ev = [(ty, b, d, s, spk) for b, d in spans(n, ty) for s in subs]
    for j in range(k + 1):
        for c in itertools.combinations(ev, j):
            mids = {}
            ok = True
            for x in c:
                ok &= mids.setdefault(2 * x[1] + x[2], (x[1], x[2])) == (x[1], x[2])
            if ok and not (distinct and any(x[1] + x[2] > y[1] for x, y in itertools.permutations(c, 2) if x[1] <= y[1] and x is not y and (x[1], x[2]) < (y[1], y[2]))):
                yield list(c)


SUB = {"EDIT": ("repetition", "restart"), "FILLER": ("discourse_marker", "discourse_response"), "IP": ("edit", "edit&filler"), "SU": ("statement", "question")}


def pairs(ty, n, kr, ks, ns=2):
    s = SUB[ty][:ns]
    rs = [x for x in sets(ty, n, kr, s) if x]
    ss = list(sets(ty, n, ks, s))
    for r in rs:
        for y in ss:
            yield Case(words(n), r, y, info={"a": "adult_male"})


FAMILIES = {}


def family(name, cases, opt, size=250):
    for i, c in enumerate(chunks(cases, size)):
        FAMILIES[name] = FAMILIES.get(name, 0) + len(c)
        yield c, dict(opt, seed=i)


def small(ty, n, extra=None, kr=2, ks=2, subs=None, **kw):
    """All small pairs of sets of events, with other words, zones or regions."""
    s = subs or SUB[ty]
    rs = [x for x in sets(ty, n, kr, s) if x]
    ss = list(sets(ty, n, ks, s))
    for r in rs:
        for y in ss:
            yield Case(kw.get("words") or words(n), r, y, zones=kw.get("zones", ()), uem=kw.get("uem"), info=kw.get("info", {"a": "adult_male"}))


def sets_of(ty, n, subs):
    return [x[0] for x in sets(ty, n, 1, subs) if x]


def warps(n):
    """The reference's n words at other times: shifted, stretched, one missing, wrong, or one added."""
    w = lambda b, d, name: (b, d, "a", "lex", name)
    yield [w(i + 1, 1, "w%d" % i) for i in range(n)]
    yield [w(2 * i, 2, "w%d" % i) for i in range(n)]
    yield [w(2 * i + (i > 1), 1, "w%d" % i) for i in range(n)]
    for k in range(n):
        yield [w(i, 1, "w%d" % i) for i in range(n) if i != k]
        yield [w(i + (i > k), 1 + (i == k), "%s%d" % ("x" if i == k else "w", i)) for i in range(n)]
        yield [w(i + (i >= k), 1, "w%d" % i) for i in range(k)] + [w(k, 1, "new")] + [w(i + 1, 1, "w%d" % i) for i in range(k, n)]


def touching(c):
    """Whether an event begins or ends at the boundary of a zone (it is then in or out depending on rounding)."""
    edge = {x for _, b, d in c.zones for x in (b, b + d)}
    return any(x[1] in edge or x[1] + x[2] in edge for x in c.ref + c.sys)


def clear(cases):
    """Without those where the middle of a system event lies on the boundary of an event that is not evaluated."""
    for c in cases:
        edge = {(r[0], 2 * x) for r in c.ref if r[3] in ("unannotated", "complex") for x in (r[1], r[1] + r[2])}
        if not any((x[0], 2 * x[1] + x[2]) in edge for x in c.sys):
            yield c


def jobs():
    for ty in md.TYPES:
        n = 4 if ty == "IP" else 3
        yield from family("two %s events" % ty, pairs(ty, n + (1 if T and ty != "IP" else 0), 2, 2), {})
        # options
        for o in ({"T": "0"}, {"T": "0.2"}, {"T": "0.5"}, {"W": 1}, {"W": 1, "l": 1}, {"W": 1, "l": 3}, {"l": "0.1"}, {"l": "2"}):
            if "l" in o and ty != "SU":
                continue
            yield from family("two %s events, options" % ty, pairs(ty, n, 2, 2, 2 if T else 1), o)
        # three events on each side, with no pruning
        yield from family("three %s events" % ty, pairs(ty, 4 if ty == "IP" else 3, 3, 3, 1), {"P": 1000})
        for o in ({"T": "0.2"}, {"W": 1}):
            yield from family("three %s events, options" % ty, pairs(ty, 5 if ty == "IP" else 4, 2, 3, 1) if T else pairs(ty, 3, 3, 3, 1), dict(o, P=1000))
        # a silence between the words, speakers, genders
        few = SUB[ty] if T else SUB[ty][1:]
        yield from family("speakers", small(ty, 4, kr=1, ks=2, words=words(4, "ab"), info={"a": "adult_female"}, subs=few), {"by": "gs"})
        yield from family("speakers", small(ty, 4, kr=1, ks=2, words=words(2) + words(4, "b")[2:], info={"a": "adult_female", "b": "child"}, subs=few), {"by": "cfgs", "chan": 1})
        yield from family("speakers", small(ty, 4, kr=2, ks=1, words=words(4, "b"), info={}, subs=few), {"by": "cgs", "chan": 1})
        yield from family("silence", small(ty, 5, kr=1, ks=2, words=words(4, gap=2), subs=few), {"by": "f"})
        yield from family("silence", small(ty, 5, kr=2, ks=1, words=words(4, gap=3), subs=few), {"by": "c", "T": "0.5"})
        yield from family("silence", small(ty, 6, kr=1, ks=1, words=[(2, 1, "a", "lex"), (3, 1, "a", "frag"), (5, 1, "a", "lex")]), {"W": 1})
        # words that are not scored
        for y in CONDS:
            w = words(4, subs={1: "un-lex", 2: "frag"})
            yield from family("unscored words", small(ty, 4, kr=1, ks=1, words=w), {"Y": y})
            yield from family("unscored words", small(ty, 4, kr=1, ks=1, words=words(4, subs={0: "frag", 1: "un-lex", 2: "un-lex"})), {"Y": y, "W": 1})
        # zones and regions
        for z in ([("NOSCORE", 1, 2)], [("NO_RT_METADATA", 2, 1)], [("NOSCORE", 0, 2), ("NOSCORE", 4, 1)], [("NOSCORE", 1, 1), ("NO_RT_METADATA", 2, 2)], [("NOSCORE", 0, 5)], [("NO_RT_METADATA", 0, 5)]):
            c = [x for x in small(ty, 5, kr=2 if T else 1, ks=2 if T or ty == "IP" else 1, zones=z, subs=SUB[ty][:1]) if not touching(x) or len(z) == 1 and z[0][2] == 5]
            yield from family("zones", c, {"T": "0.5"})
        for u in ([(0, 3)], [(1, 4)], [(0, 2), (3, 5)], [(1, 2), (2, 5)], [(-1, 9)]):
            u = [(max(b, 0), e) for b, e in u]
            yield from family("regions", small(ty, 5, kr=1, ks=2, subs=SUB[ty][:1], uem=u), {"T": "0.2"})
            yield from family("regions", small(ty, 4, kr=1, ks=2, subs=SUB[ty][:1], uem=u), {"W": 1})
    # sentence-like units without annotation, complex edits
    for o in ({}, {"T": "0.2"}, {"W": 1}):
        yield from family("unannotated", clear(small("SU", 4, kr=2, ks=2 if T else 1, subs=("statement", "unannotated"))), dict(o))
        yield from family("unannotated", clear(small("SU", 3, kr=2, ks=2, subs=("statement", "unannotated"))), dict(o))
        for x in (0, 1):
            yield from family("complex", clear(small("EDIT", 3, kr=2, ks=2, subs=("simple", "complex"))), dict(o, x=x))
    # an unannotated unit under other events
    for ty in ("EDIT", "FILLER", "IP"):
        c = [Case(x.words, x.ref + [("SU", 0, 2, "unannotated", "a")], x.sys + [("SU", 0, 1, "statement", "a"), ("SU", 3, 1, "statement", "a")], info=x.info)
             for x in small(ty, 4, kr=1, ks=2)]
        yield from family("unannotated under others", c, {})
    # word-mediated: the system's words are spoken at other times, one may be missing, wrong or added
    for ty in md.TYPES:
        def warped():
            one = SUB[ty][:1]
            for kind, rw in (("same", words(3)), ("gap", words(3, gap=1)), ("gap", words(3, gap=2))):
                for sw in warps(3):
                    n = sw[-1][0] + sw[-1][1]
                    for ev in ([x] for x in sets_of(ty, 3 + (kind == "gap"), one)):
                        for y in sets_of(ty, min(n, 5), one):
                            yield Case(rw, ev, [y], info={"a": "child"}, syswords=sw)
        for o in ({}, {"W": 1}) if T else ({},):
            yield from family("word-mediated", warped(), dict(o, w=1, T="0.3", t=5, unit="0.25"))
    # events of all types together: one event of each on each side
    def mixed():
        iv = [spans(3, "SU"), spans(3, "IP")[1:3], spans(2, "EDIT"), spans(3, "FILLER")[:2]]
        for a in itertools.product(*iv):
            for b in itertools.product(*[x[::2] for x in iv]):
                yield Case(words(3), [(t, x, d, SUB[t][0], "a") for t, (x, d) in zip(("SU", "IP", "EDIT", "FILLER"), a)],
                           [(t, x, d, SUB[t][(x + d) % 2], "a") for t, (x, d) in zip(("SU", "IP", "EDIT", "FILLER"), b)], info={"a": "child"})
    yield from family("all types", mixed(), {})


def body(ctx):
    js = list(jobs())
    C.bounds.update(runs=len(js), cases=FAMILIES)
    C.parallel(run_batch, js)
    C.finish()


if __name__ == "__main__":
    mc.main(lambda: None, body)
