#!/usr/bin/env python3
"""P14: rover's vote picks a best-scoring word of each correspondence set."""
import itertools, os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, mc, rover as rv
from mc import Check, Fail, chunks, newdir

C = Check("P14", "exhaustive exploration of all small correspondence sets, voting methods and parameters on the real rover; the network is read back and the vote on each set recomputed",
          "every combination of words, absences and confidences of the systems within the bounds is one set; each voting method and each parameter of the grid is run on all of them",
          ["confidences are between 0 and 1", "where several words have the same highest score any of them may be chosen"])
T = C.thorough
EPS = 1e-6


def scores(cs, meth, alpha):
    """{word: (score, mean t1, mean duration, mean confidence)}"""
    by = {}
    for w, a, b, c, s in cs:
        by.setdefault(w, []).append((a, b, c))
    n = len(cs)
    tot = sum(x[3] for x in cs)
    out = {}
    for w, l in by.items():
        cf = [x[2] for x in l]
        if meth in ("meth1",):
            m = sum(cf) / len(cf)
        elif meth == "avgconf":
            m = sum(cf) / tot if tot else 0.0
        elif meth == "maxconfa" and w == "@":
            m = len(l) / n
        else:
            m = max(cf)
        out[w] = (alpha * len(l) / n + (1 - alpha) * m, sum(x[0] for x in l) / len(l), sum(x[1] - x[0] for x in l) / len(l), sum(cf) / len(cf))
    return out


def line_ok(f, w, v):
    return f[4] == w and abs(float(f[2]) - v[1]) < 0.0016 and abs(float(f[3]) - v[2]) < 0.0016 and abs(float(f[5]) - v[3]) < 2e-5


def judge(key, sets, lines, meth, alpha):
    # reachable positions in the output after each set
    pos = {0}
    for k, cs in enumerate(sets):
        sc = scores(cs, meth, alpha)
        top = max(v[0] for v in sc.values())
        best = {w: v for w, v in sc.items() if v[0] > top - EPS}
        new = set()
        for p in pos:
            for w, v in best.items():
                if w == "@":
                    new.add(p)
                elif p < len(lines) and line_ok(lines[p], w, v):
                    new.add(p + 1)
        if not new:
            raise Fail("%s channel %s set %d: best is %s; the output goes on with %s. Set: %s" % (
                key[0], key[1], k, best, [" ".join(lines[p]) if p < len(lines) else "nothing" for p in sorted(pos)], cs))
        pos = new
    if len(lines) not in pos:
        raise Fail("%s channel %s: words beyond the sets: %s" % (key[0], key[1], [" ".join(l) for l in lines[max(pos):]]))


def judge_oracle(key, sets, lines):
    p = 0
    for k, cs in enumerate(sets):
        sc = scores(cs, "meth1", 1.0)
        want = dict(sc)
        if len(sc) > 1:
            if p >= len(lines) or lines[p][2:] != ["*", "*", "<ALT_BEGIN>"]:
                raise Fail("%s set %d: no alternatives begin at %s" % (key, k, lines[p:p + 1]))
            p += 1
        for i in range(len(sc)):
            f = lines[p] if p < len(lines) else None
            if f is None or f[4] not in want or not line_ok(f, f[4], want.pop(f[4])):
                raise Fail("%s set %d: alternative %s, of %s" % (key, k, f, sc))
            p += 1
            if len(sc) > 1:
                if p >= len(lines) or lines[p][2:] != ["*", "*", "<ALT>" if i < len(sc) - 1 else "<ALT_END>"]:
                    raise Fail("%s set %d: alternatives not closed: %s" % (key, k, lines[p:p + 1]))
                p += 1
    if p != len(lines):
        raise Fail("%s: lines beyond the sets: %s" % (key, lines[p:]))


def work(arg, st, fails, samples):
    cases, base, grid = arg
    d = newdir()
    files, cmd = {}, []
    try:
        n = len(cases[0][2])
        for s in range(n):
            files["h%d" % s] = "".join("%s %s %r %r %s%s\n" % (f, c, t, du, w, " %r" % cf if cf is not None else "") for f, c, ss in cases for w, t, du, cf in ss[s])
        for k, x in files.items():
            open(os.path.join(d, k), "w").write(x)
        inp = sum((["-h", "h%d" % s, "ctm"] for s in range(n)), []) + ["-f", "0", "-o", "out"] + base

        def rover(more):
            cmd[:] = inp + more
            rc, o, e = mc.run([work.S + "/rover"] + cmd, cwd=d, env={"ASAN_OPTIONS": "detect_leaks=0"})
            if rc != 0:
                raise Fail("rover ended with %s: %r" % (rc, (o + e)[-300:]))
            return open(d + "/out", errors="replace").read()
        nets = {}
        for meth, alpha, null in grid:
            if null not in nets:
                nets[null] = rv.parse_putat(rover(["-m", "putat", "-c", repr(null)]))
            got = {}
            for l in rover(["-m", meth, "-a", repr(alpha), "-c", repr(null)]).splitlines():
                f = l.split()
                got.setdefault((f[0], f[1].upper()), []).append(f)
            for key in got:
                if key not in nets[null]:
                    raise Fail("output for file %s channel %s, which has no network" % key)
            for key, sets in nets[null].items():
                if meth == "oracle":
                    judge_oracle(key, sets, got.get(key, []))
                else:
                    judge(key, sets, got.get(key, []), meth, alpha)
                st.add(states=len(sets), transitions=sum(map(len, sets)), traces=1)
    except Fail as x:
        x.files, x.cmd = files, "rover " + " ".join(cmd)
        fails.append(x.pack())
    finally:
        shutil.rmtree(d, ignore_errors=True)


def channel(k, entry, t0=1.0):
    """entry: for each system None or (word, confidence, shift): one contested word between two anchors"""
    out = []
    for s, x in enumerate(entry):
        ws = [("xx", t0 + .125 * s, 0.25, 0.5)]
        if x:
            ws.append((x[0], t0 + .5 + .125 * (x[2] if len(x) > 2 else s), 0.25 + .0625 * s, x[1]))
        ws.append(("yy", t0 + 1.5, 0.25, 0.25 * (s % 5)))
        out.append(ws)
    return "f%04d" % k, "AB"[k % 2], out


METHS = ["meth1", "maxconf", "avgconf", "maxconfa"]


def jobs():
    al = [0.0, 0.25, 0.3, 0.5, 0.7, 1.0] if T else [0.0, 0.3, 0.5, 1.0]
    nl = [0.0, 0.4, 0.5, 1.0] if T else [0.0, 0.5, 1.0]
    grid = [(m, a, c) for m in METHS for a in al for c in nl] + [("oracle", 1.0, 0.5), ("oracle", 0.3, 0.0)]
    cf = [0.0, 0.25, 0.5, 1.0] if T else [0.0, 0.5, 1.0]
    opts = [None] + [(w, c) for w in "abc" for c in cf]
    for n in (2, 3):
        sets = list(itertools.product(opts, repeat=n))
        for b in chunks(sets, 150):
            for g in chunks(grid, 9):
                yield [channel(k, e) for k, e in enumerate(b)], [], g
    o4 = [None] + [(w, c) for w in "ab" for c in ([0.25, 0.75, 1.0] if T else [0.25, 0.75])]
    for b in chunks(list(itertools.product(o4, repeat=4)), 160):
        for g in chunks(grid, 9):
            yield [channel(k, e) for k, e in enumerate(b)], [], g
    # systems without any confidences, by frequency only
    fr = [(m, 1.0, 0.0) for m in METHS]
    for n in (2, 3, 4):
        sets = list(itertools.product([None, ("a", 0.0), ("b", 0.0)], repeat=n))
        yield [channel(k, e) for k, e in enumerate(sets)], [], fr
    # letter case
    cs = list(itertools.product([None, ("a", .25), ("A", .75), ("b", .5)], repeat=3))
    yield [channel(k, e) for k, e in enumerate(cs)], [], grid[::3]
    yield [channel(k, e) for k, e in enumerate(cs)], ["-s"], grid[::3]
    # many systems, many different words
    for n in (5, 10, 30, 49, 50):
        for m in (1, 2, 3, 7, min(n, 47)):
            yield [channel(k, [("w%d" % ((s * s + k) % m), (s % 8) / 8, s % 5) if (s + k) % 4 else None for s in range(n)]) for k in range(4)], [], grid[::5]
    # sequences: several sets in one recording, words missing at the ends
    for x in itertools.product([(), ("a",), ("b",), ("a", "b"), ("b", "a")], repeat=3):
        if all(x):
            for g in chunks(grid, 12):
                yield [("f", "A", [[(w, 1 + .5 * k + .1 * s, .25, .25 * (k + s + 1)) for k, w in enumerate(q)] for s, q in enumerate(x)])], [], g


def body(S):
    work.S = S
    C.bounds["sets"] = "two and three systems: every choice of no word or one of three words with one of %d confidences; four systems: two words, %d confidences" % ((4, 3) if T else (3, 2))
    C.bounds["parameters"] = "4 methods and oracle; %d values of alpha, %d of the null confidence" % ((6, 4) if T else (4, 3))
    C.parallel(work, list(jobs()))
    C.finish()


if __name__ == "__main__":
    mc.main(build.sclite, body)
