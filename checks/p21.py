#!/usr/bin/env python3
"""P21: md-eval's diarization times are those of its definition, for every segmentation and option."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, mc
from diar import *
from mc import Check, Fail, chunks, newdir

C = Check("P21", "exhaustive exploration of all small speaker segmentations, evaluation regions and no-score zones on a time grid, on the real md-eval.pl, every figure compared with a reference model that works tick by tick",
          "every (reference, system, regions, options) within the bounds is one trace; all figures, percentages and confusion matrices of a file and the totals of a run are compared",
          ["the segments of one speaker do not overlap", "the middle of a word does not lie on a boundary",
           "a non-lexical zone does not begin with a word or turn, nor end with one (the zone's extension is then not defined)",
           "word-mediated alignment (-w) is not used"])
T = C.thorough
TOL = 0.0051


def files(d, batch, unit, uem):
    """Write the input of a run; returns the names."""
    names = ["f%05d" % i for i in range(len(batch))]
    with open(d + "/r.rttm", "w") as r, open(d + "/s.rttm", "w") as s:
        for n, c in zip(names, batch):
            r.write(c.rttm("R", n, unit))
            s.write(c.rttm("S", n, unit))
    if uem:
        with open(d + "/u.uem", "w") as u:
            for n, c in zip(names, batch):
                for b, e in c.uem or ():
                    u.write("%s %s %s %s\n" % (n, c.chnl, num(b, unit), num(e, unit)))
    return names


def compare(st, where, got, want, unit, mats, err):
    fig, ovl, gm = got
    if set(fig) != set(KEYS):
        return err("%s: figures %s" % (where, sorted(set(fig) ^ set(KEYS))))
    for k in KEYS:
        w = want[k] * (1 if k in WORDS else unit)
        if abs(fig[k][0] - w) > TOL:
            return err("%s: %s is %.2f, expected %.2f" % (where, k, fig[k][0], w))
        if k in BASE and (want[BASE[k]] or k not in WORDS):
            p = 100 * want[k] / want[BASE[k]] if want[BASE[k]] else 0
            if fig[k][1] is None or abs(fig[k][1] - p) > 0.0501 + (1e-5 * p):
                return err("%s: %s is %s percent, expected %.3f" % (where, k, fig[k][1], p))
        st.add(states=1)
    e = want["MISSED SPEAKER TIME"] + want["FALARM SPEAKER TIME"] + want["SPEAKER ERROR TIME"]
    p = 100 * e / want["SCORED SPEAKER TIME"] if want["SCORED SPEAKER TIME"] else 0
    if abs(ovl - p) > TOL:
        return err("%s: overall error is %.2f, expected %.3f" % (where, ovl, p))
    for (m, rows, cols), (wm, wr, wc), u, nm in zip(gm, mats, (1, unit), ("speaker", "time")):
        if rows != sorted(wr) + ["FALSE", "ALARM"] and rows != sorted(wr) + ["FALSE ALARM"] or cols != sorted(wc) + ["MISS"]:
            return err("%s: %s weighted confusion matrix has rows %s, columns %s, expected %s, %s" % (where, nm, rows, cols, sorted(wr), sorted(wc)))
        for r in sorted(wr) + ["FALSE ALARM"]:
            for c in sorted(wc) + ["MISS"]:
                if (r, c) == ("FALSE ALARM", "MISS"):
                    continue
                if abs(m.get((r, c), -9) - wm.get((r, c), 0) * u) > TOL:
                    return err("%s: %s weighted confusion of %s with %s is %s, expected %.2f" % (where, nm, r, c, m.get((r, c)), wm.get((r, c), 0) * u))
    return None


def merge(ms):
    """Sum of confusion matrices."""
    out = []
    for i in (0, 1):
        m, r, c = {}, set(), set()
        for x in ms:
            for k, v in x[i][0].items():
                m[k] = m.get(k, 0) + v
            r |= x[i][1]
            c |= x[i][2]
        out.append((m, r, c))
    return out


def run_batch(arg, st, fails, samples):
    batch, (collar, single, unit, uem, seed) = arg
    d = newdir()
    names = files(d, batch, unit, uem)
    cmd = ["perl", build.REPO + "/src/md-eval/md-eval.pl", "-a", "f", "-M", "m.csv", "-r", "r.rttm", "-s", "s.rttm"]
    if collar:
        cmd += ["-c", num(collar, unit)]
    if single:
        cmd.append("-1")
    if uem:
        cmd += ["-u", "u.uem"]
    rc, out, err = mc.run(cmd, cwd=d, timeout=300, env={"PERL_HASH_SEED": str(seed)})
    text = out.decode("latin-1")
    bad = []

    def fail(msg):
        bad.append(msg)
    if rc != 0 or b"BGM" in err:
        fail("md-eval fails (status %s): %s" % (rc, err[-300:].decode("latin-1")))
    else:
        got = parse(text)
        mp = mapping(open(d + "/m.csv").read())
        tot, tms = dict.fromkeys(KEYS, 0), []
        for n, c in zip(names, batch):
            m = Model(c, collar, single, ext=round(0.5 / unit))
            ov, pairs = mp.get((n, c.chnl), ({}, []))
            pm = dict(pairs)
            if len(pm) != len(pairs) or len(set(pm.values())) != len(pairs):
                fail("%s: the mapping %s is not one-to-one" % (n, pairs))
            elif set(ov) != set(m.ov) or any(abs(ov[k] - m.ov[k] * unit) > 0.00011 for k in ov):
                fail("%s: the overlaps are %s, expected %s" % (n, ov, {k: v * unit for k, v in m.ov.items()}))
            elif sum(m.ov[k] for k in pairs) != best(m.ov):
                fail("%s: the mapping %s matches %s, the best %s" % (n, pairs, sum(m.ov[k] for k in pairs) * unit, best(m.ov) * unit))
            elif "f=" + n not in got:
                fail("%s: no report" % n)
            else:
                w, ty = m.stats(pm), m.types(pm)
                compare(st, n, got["f=" + n], w, unit, ty, fail)
                for k in KEYS:
                    tot[k] += w[k]
                tms.append(ty)
            st.add(traces=1, transitions=len(c.ref) + len(c.sys))
            if bad:
                break
        if not bad:
            if set(got) != {"f=" + n for n in names} | {"ALL"}:
                fail("reports on %s" % sorted(set(got) ^ {"f=" + n for n in names})[:5])
            else:
                compare(st, "ALL", got["ALL"], tot, unit, merge(tms), fail)
    if bad:
        m = bad[0]
        i = names.index(m.split(":")[0]) if m.split(":")[0] in names else None
        keep = {f: open(d + "/" + f).read() for f in ("r.rttm", "s.rttm", "u.uem") if os.path.exists(d + "/" + f)}
        if i is not None:
            keep = {f: "".join(x for x in v.splitlines(True) if names[i] in x) for f, v in keep.items()}
        fails.append(Fail(m, key=m, files=keep, cmd=" ".join(cmd), detail=m).pack())
    elif not samples:
        samples.append({"options": [collar, single, unit, uem], "files": len(batch), "first": batch[0].rttm("R", "f", unit)})
    import shutil
    shutil.rmtree(d)


# ---- what is enumerated

def spk(name, cells, w=1, off=0, split=()):
    """Segments of a speaker active in these cells (each w ticks); split: cells before which the turn is cut."""
    out = []
    for c in sorted(cells):
        if out and out[-1][2] + out[-1][3] == off + c * w and c not in split:
            ty, k, b, d = out[-1]
            out[-1] = (ty, k, b, d + w)
        else:
            out.append(("SPEAKER", name, off + c * w, w))
    return out


def subsets(n, least=0):
    return [s for k in range(least, n + 1) for s in itertools.combinations(range(n), k)]


def core(K, w):
    """Two reference and two system speakers, any activity in K cells."""
    P = subsets(K)
    for a, b in itertools.combinations_with_replacement(P, 2):
        if not a and not b:
            continue
        for x, y in itertools.combinations_with_replacement(P, 2):
            yield spk("a", a, w) + spk("b", b, w), spk("x", x, w) + spk("y", y, w)


def splits(K, w):
    """One reference speaker (every way to cut the turns) and one system speaker."""
    for a in subsets(K, 1):
        cut = [c for c in a if c - 1 in a]
        for n in range(len(cut) + 1):
            for sp in itertools.combinations(cut, n):
                for x in subsets(K):
                    yield spk("a", a, w, split=sp), spk("x", x, w)


def three(K, w):
    """Three speakers on either side, turns taken one after the other, possibly with overlap."""
    for r in itertools.product(((), "a", "b", "c", "ab", "bc", "abc"), repeat=K):
        for s in itertools.product(((), "x", "y", "yz", "xyz"), repeat=K):
            ref = [z for k in "abc" for z in spk(k, [i for i in range(K) if k in r[i]], w)]
            if ref:
                yield ref, [z for k in "xyz" for z in spk(k, [i for i in range(K) if k in s[i]], w)]


FEW = [([("a", 2, 6)], [("x", 2, 6)]), ([("a", 2, 4), ("b", 4, 8)], [("x", 3, 7)]), ([("a", 1, 5), ("b", 3, 8)], [("x", 1, 4), ("y", 4, 9)]),
       ([("a", 2, 4), ("a", 6, 8)], [("x", 0, 9)]), ([("a", 2, 4), ("a", 4, 7)], [("x", 5, 8), ("y", 1, 3)])]


def few():
    for r, s in FEW:
        yield [("SPEAKER", k, b, e - b) for k, b, e in r], [("SPEAKER", k, b, e - b) for k, b, e in s]


def spans(n):
    return [(b, e) for b in range(n) for e in range(b + 1, n + 1)]


def with_uem(n):
    """Every one or two evaluation regions."""
    for r, s in few():
        for u in spans(n):
            yield Case(r, s, [u])
        for u, v in itertools.combinations(spans(n), 2):
            if u[1] <= v[0] or v[1] <= u[0]:
                yield Case(r, s, [u, v] if (u[0] + v[1]) % 2 else [v, u])


def with_noscore(n):
    """Every one or two no-score zones, with and without an evaluation region."""
    for r, s in few():
        for us in (None, [(0, 10)], [(2, 7)], [(1, 4), (5, 9)]):
            for u in spans(n):
                yield Case(r + [("NOSCORE", "<NA>", u[0], u[1] - u[0])], s, us)
            for u, v in itertools.combinations(spans(n), 2):
                if T or (u[0] + 2 * v[0] + 3 * u[1] + v[1]) % 3 == 0:
                    z = [("NOSCORE", "<NA>", x[0], x[1] - x[0]) for x in (u, v)]
                    yield Case(z + r if u[0] % 2 else r + z, s, us)


def nonlex_ok(ref):
    beg = {b for ty, _, b, d in ref if ty in ("SPEAKER", "LEXEME")}
    end = {b + d for ty, _, b, d in ref if ty in ("SPEAKER", "LEXEME")}
    return all(ty != "NON-LEX" or (b not in beg and b + d not in end) for ty, _, b, d in ref)


def with_nonlex(n):
    """Every one or two non-lexical zones around every word."""
    for r, s in few():
        for us in (None, [(0, 10)], [(2, 7)]):
            for lx in [[]] + [[("LEXEME", "a", b, 1)] for b in range(n - 1)] + [[("LEXEME", "a", b, 3)] for b in range(0, n - 3, 2)] + [[("LEXEME", "a", 2, 1), ("LEXEME", "b", 6, 1)]]:
                for u in spans(n):
                    c = r + lx + [("NON-LEX", "a", u[0], u[1] - u[0])]
                    if nonlex_ok(c):
                        yield Case(c, s, us)
                for u, v in itertools.combinations([x for x in spans(n) if x[1] - x[0] < 3], 2):
                    c = [("NON-LEX", "a", u[0], u[1] - u[0]), ("NON-LEX", "a", v[0], v[1] - v[0])] + r + lx
                    if nonlex_ok(c) and (T or not lx or (u[0] + v[0] + u[1]) % 3 == 0):
                        yield Case(c, s, us)


def with_words(n):
    """Every one or two words."""
    W = [(b, d) for b in range(n) for d in (1, 3)]
    for r, s in few():
        for us in (None, [(0, 10)], [(3, 6)], [(1, 3), (4, 8)]):
            for u, v in itertools.combinations_with_replacement(W, 2):
                yield Case(r + [("LEXEME", "a", u[0], u[1]), ("LEXEME", "b", v[0], v[1])], s, us)
        for u, v in itertools.combinations(W, 2):   # nothing is evaluated
            yield Case(r + [("LEXEME", "a", u[0], u[1]), ("LEXEME", "b", v[0], v[1]), ("NOSCORE", "<NA>", 0, 20)], s, None if u[0] % 2 else [(1, 9)])


GT = ("adult_male", "adult_female", "child", None)


def with_types():
    """Speaker types."""
    pats = [(dict(a=(0, 1, 2), b=(1, 2), c=(2, 3)), dict(x=(0, 1), y=(1, 2, 3), z=(2,))),
            (dict(a=(0,), b=(1,), c=(2,)), dict(x=(0, 1, 2, 3), y=(3,), z=(1, 2, 3))),
            (dict(a=(0, 1), b=(0, 1), c=(0, 3)), dict(x=(1,), y=(0, 1, 3), z=()))]
    for rp, sp in pats:
        ref = [z for k in sorted(rp) for z in spk(k, rp[k], 2)]
        sy = [z for k in sorted(sp) for z in spk(k, sp[k], 2)]
        for rt in itertools.product(GT, repeat=3):
            for s_t in itertools.product(GT[1:] if not T else GT, repeat=3):
                info = {("R", k): t for k, t in zip("abc", rt) if t}
                info.update({("S", k): t for k, t in zip("xyz", s_t) if t})
                yield Case(ref, sy, None, info)


def jobs():
    cfg = itertools.cycle(range(5))

    def put(cases, opts, size=250):
        cases = [c if isinstance(c, Case) else Case(*c) for c in cases]
        for o in opts:
            for b in chunks(cases, size):
                yield b, o + (next(cfg),)
    Q, D = 0.25, 0.1
    yield from put(core(3, 2), [(0, False, Q, False), (1, False, D, False), (0, True, Q, False), (1, True, D, False)] if not T else
                   [(c, s, u, False) for c in (0, 1, 2) for s in (False, True) for u in (Q, D)])
    if T:
        yield from put(core(4, 2), [(0, False, D, False), (1, True, Q, False), (1, False, D, False)])
        yield from put(three(3, 2), [(0, False, Q, False), (1, True, D, False)])
    yield from put(splits(4 if not T else 5, 2), [(c, s, D, False) for c in (0, 1, 2) for s in (False, True)])
    yield from put(three(2, 3), [(0, False, Q, False), (1, False, D, False), (1, True, Q, False)])
    alls = [(0, False, Q, True), (1, False, D, True), (1, True, Q, True)]
    yield from put(with_uem(10), alls if not T else alls + [(0, True, D, True), (2, False, Q, True)])
    yield from put(with_noscore(9), alls)
    yield from put(with_nonlex(10), alls)
    yield from put(with_words(9), alls)
    yield from put(with_types(), [(0, False, Q, False), (1, False, D, False)])


# ---- how files, channels and names are told apart

def naming(arg, st, fails, samples):
    """Several files and channels in one run: reports by file, by channel, by both; names in the region file."""
    import shutil
    base = Case([("SPEAKER", "a", 2, 4), ("SPEAKER", "b", 6, 2)], [("SPEAKER", "x", 3, 4)])
    other = Case([("SPEAKER", "a", 0, 6), ("SPEAKER", "b", 3, 5)], [("SPEAKER", "x", 0, 4), ("SPEAKER", "y", 4, 4)])
    unit = 0.25
    names = ("f", "ALLEN", "a.b", "g.sph.x")
    for opt in ("f", "c", "cf", ""):
        for sel in itertools.product((0, 1), repeat=2):
            for u in (None, "%s", "dir/%s.sph", "dir.d/sub/%s.wav"):
                for missing in (False, True):
                    d = newdir()
                    tot, per = {}, {}
                    with open(d + "/r.rttm", "w") as r, open(d + "/s.rttm", "w") as s, open(d + "/u.uem", "w") as uf:
                        # a file and a channel that only the system knows
                        s.write("SPEAKER zz 1 0 5 <NA> <NA> x <NA>\nSPEAKER f 9 0 5 <NA> <NA> x <NA>\n")
                        uf.write(";; comment\n# comment\n\nzz.sph 1 0 100\n")
                        for i, n in enumerate(names):
                            for ch in ("1", "2"):
                                c = (base, other)[sel[i % 2] ^ (ch == "2")]
                                gone = missing and ch == "2" and i == 1
                                c = Case(c.ref, [] if gone else c.sys, None if u is None or (u == "%s" and "." in n) else [(1, 3 + i), (6, 7)], chnl=ch)
                                r.write(c.rttm("R", n, unit))
                                s.write(c.rttm("S", n, unit))
                                if c.uem:
                                    for b, e in c.uem:
                                        uf.write("%s %s %s %s\n" % (u % n, ch, num(b, unit), num(e, unit)))
                                per[n, ch] = Model(c)
                    cmd = ["perl", build.REPO + "/src/md-eval/md-eval.pl", "-M", "m.csv", "-r", "r.rttm", "-s", "s.rttm"] + (["-a", opt] if opt else []) + (["-u", "u.uem"] if u else [])
                    rc, out, err = mc.run(cmd, cwd=d, timeout=60)
                    bad = []
                    if rc != 0:
                        bad.append("md-eval fails (status %s): %s" % (rc, err[-300:].decode("latin-1")))
                    else:
                        mp = mapping(open(d + "/m.csv").read())
                        grp = {"ALL": []}
                        for (n, ch), m in per.items():
                            w = (m.stats(dict(mp.get((n, ch), ({}, []))[1])), m.types(dict(mp.get((n, ch), ({}, []))[1])))
                            for g in {"ALL", {"f": "f=" + n, "c": "c=" + ch, "cf": "c=%s f=%s" % (ch, n), "": "ALL"}[opt]}:
                                grp.setdefault(g, []).append(w)
                        got = parse(out.decode("latin-1"))
                        if set(got) != set(grp):
                            bad.append("reports on %s, expected %s" % (sorted(got), sorted(grp)))
                        else:
                            for g, ws in grp.items():
                                compare(st, g, got[g], {k: sum(w[0][k] for w in ws) for k in KEYS}, unit, merge([w[1] for w in ws]), bad.append)
                    st.add(traces=1, transitions=len(per))
                    if bad:
                        fails.append(Fail(bad[0], key=bad[0], files={f: open(d + "/" + f).read() for f in ("r.rttm", "s.rttm", "u.uem")}, cmd=" ".join(cmd), detail="\n".join(bad[:5])).pack())
                        return
                    shutil.rmtree(d)


def body(ctx):
    js = list(jobs())
    C.bounds.update(runs=len(js), cases=sum(len(b) for b, _ in js), core_cells=4 if T else 3, grid_ticks=10, collars=[0, 1, 2] if T else [0, 1], tick_seconds=[0.25, 0.1])
    C.parallel(run_batch, js)
    C.serial(naming, None)
    C.finish()


if __name__ == "__main__":
    mc.main(lambda: None, body)
