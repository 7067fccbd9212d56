#!/usr/bin/env python3
"""P13: the composite network of rover keeps every word of every system once, in order, and each merge is a least-cost one."""
import itertools, os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, mc, rover as rv
from mc import Check, Fail, chunks, newdir

C = Check("P13", "exhaustive exploration of all small combinations of system outputs on the real rover, every correspondence set read back and each merging step compared with the least cost over all alignments",
          "every combination of word sequences, times, files and channels within the bounds is one case; all sets of its network are read",
          ["input outputs are linear (no alternatives), as the documentation requires", "cost of a merge is not checked where the time gaps split the recording"])
T = C.thorough


def run(cases, opts, st, fails, one_chunk=True, may_refuse=False):
    """cases: list of (file, channel, [words of each system]), word = (text, start, duration, confidence)"""
    d = newdir()
    files = {}
    try:
        n = len(cases[0][2])
        for s in range(n):
            files["h%d" % s] = "".join("%s %s %r %r %s %r\n" % (f, c, t, du, w, cf) for f, c, ss in cases for w, t, du, cf in ss[s])
        for k, x in files.items():
            open(os.path.join(d, k), "w").write(x)
        cmd = sum((["-h", "h%d" % s, "ctm"] for s in range(n)), []) + ["-o", "out", "-m", "putat", "-f", "0"] + opts
        rc, o, e = mc.run([work.S + "/rover"] + cmd, cwd=d, env={"ASAN_OPTIONS": "detect_leaks=0"}, timeout=30)
        if rc != 0:
            if may_refuse and rc == 1 and b"Error" in o + e and b"Sanitizer" not in o + e:
                st.add(states=1, refused=1)
                return
            if may_refuse == "must" and rc > 0 and b"Sanitizer" not in o + e:
                return
            raise Fail("rover ended with %s: %r" % (rc, (o + e)[-300:]))
        if may_refuse == "must":
            raise Fail("more systems than rover can combine were not refused")
        nets = rv.parse_putat(open(d + "/out", errors="replace").read())
        exp = {}
        for f, c, ss in cases:
            if any(ss):
                exp[f, c] = ss
        for key in nets:
            if key not in exp:
                raise Fail("network for file %s channel %s, which has no words" % key)
        for (f, c), ss in exp.items():
            cs = nets.get((f, c), [])
            rv.check_net(cs, ss, opts, one_chunk)
            st.add(states=len(cs), transitions=sum(map(len, ss)), traces=1)
    except Fail as x:
        x.files, x.cmd = files, "rover " + " ".join(cmd)
        fails.append(x.pack())
    finally:
        shutil.rmtree(d, ignore_errors=True)


def work(arg, st, fails, samples):
    run(*arg[:2], st, fails, *arg[2:])


def seqs(ab, n, lo=1):
    return [s for k in range(lo, n + 1) for s in itertools.product(ab, repeat=k)]


def dense(s, shift=0.0, step=0.5):
    return [(w, 1 + shift + step * k, step, 0.5) for k, w in enumerate(s)]


def batch(combos, conv, opts, n=150, **kw):
    for b in chunks(combos, n):
        yield ([("f%03d" % k, "AB"[k % 2], conv(x)) for k, x in enumerate(b)], opts) + tuple(kw.values())


def jobs():
    # A. words only
    two = list(itertools.product(sorted(set(seqs("ab", 5 if T else 4) + seqs("abc", 4 if T else 3))), repeat=2))
    yield from batch(two, lambda x: [dense(s) for s in x], [])
    three = list(itertools.product(seqs("ab", 3) + (seqs("abc", 2) if T else [("a", "b", "c"), ("c", "a")]), repeat=3))
    yield from batch(three, lambda x: [dense(s) for s in x], [])
    four = list(itertools.product(seqs("ab", 2), repeat=4))
    yield from batch(four, lambda x: [dense(s) for s in x], [])
    five = list(itertools.product(seqs("ab", 2) if T else [("a",), ("b",), ("a", "b"), ("b", "a")], repeat=5))
    yield from batch(five, lambda x: [dense(s) for s in x], [])
    # B. null words and case in the input
    sp = list(itertools.product(seqs(["a", "@", "A", "(a)"], 2), repeat=3 if T else 2))
    yield from batch(sp, lambda x: [dense(s) for s in x], [])
    yield from batch(sp, lambda x: [dense(s) for s in x], ["-s"])
    # C. time-based alignment: words of two lengths after gaps of two lengths
    ws = [(w, g, du) for w in "ab" for g in (0.0, 0.25) for du in (0.25, 0.5)]

    def timed(s):
        t, out = 1.0, []
        for w, g, du in s:
            t += g
            out.append((w, t, du, 0.5))
            t += du
        return out
    tt = list(itertools.product(seqs(ws, 2), repeat=2))
    yield from batch(tt, lambda x: [timed(s) for s in x], ["-T"])
    t3 = list(itertools.product(seqs([w for w in ws if w[1] == 0 or w[2] == .25], 2 if T else 1) + [(ws[0], ws[7]), (ws[3], ws[4])], repeat=3))
    yield from batch(t3, lambda x: [timed(s) for s in x], ["-T"])
    # D. silences: every set of slots for each system; words 1 or 5 seconds apart
    for step in (1.5, 5.0):
        for n, m in ((4, 2), (3, 3)):
            sub = [s for k in range(1, n + 1) for s in itertools.combinations(range(n), k)]
            co = list(itertools.product(sub, repeat=m))
            yield from batch(co, lambda x: [[("w%d" % (k % 2), 1 + step * k + .1 * i, 0.25, 0.5) for k in s] for i, s in enumerate(x)], [], one_chunk=False)
    # E. sections missing from some systems: refused, or nothing is lost or mixed
    secs = [("f", "A"), ("f", "B"), ("g", "A")]
    full = (True, True, True)
    for m in (2, 3):
        for have in itertools.product(itertools.product((True, False), repeat=3), repeat=m):
            for nw in (1, 2) if T or m == 2 else (1,):
                for gap in (0, 5):
                    cases = [(f, c, [[("%s%s%d" % (f, c.lower(), k), 1 + k + gap * k, 0.5, 0.5) for k in range(nw)] if have[s][i] else [] for s in range(m)]) for i, (f, c) in enumerate(secs)]
                    yield cases, [], False, any(h != have[0] for h in have)
    # word counts that differ: one system runs out of words before the others, in each section
    for nw in itertools.product((1, 2, 3), repeat=4):
        yield [("f", "AB"[i], [[("w%d" % k, 1 + 5 * k + .1 * s, 0.5, 0.5) for k in range(nw[2 * i + s])] for s in range(2)]) for i in range(2)], [], False
    # F. sizes
    for m in (6, 10, 25, 49, 50):
        yield [("f", "A", [dense(["w%d" % (s % 7), "x"]) for s in range(m)])], [], True
    yield [("f", "A", [dense(["w%d" % (s % 7), "x"]) for s in range(51)])], [], True, "must"
    for n in (99, 100, 101, 250) + ((999, 1001) if T else ()):
        yield [("f", "A", [dense(["w%d" % (k % 5) for k in range(n)]), dense(["w%d" % (k % 5) for k in range(n) if k % 9])])], [], True
    for n in (20, 98, 99, 100, 101, 255, 300):
        yield [("f" * n, "A", [dense(["a", "b"]), dense(["a"])]), ("g", "B" * min(n, 100), [dense(["a", "b"]), dense(["a"])])], [], True
        yield [("f", "A", [dense(["a" * n, "b"]), dense(["a" * n])])], [], True
    yield [("f%03d" % k, "A", [dense(["a", "b%d" % k]), dense(["a"])]) for k in range(600)], [], True


def body(S):
    work.S = S
    C.bounds["words"] = "two systems: all word sequences of up to %d words over three words; three: up to %d; four and five: up to 2" % (4 if T else 3, 3)
    C.bounds["time"] = "-T: all pairs of up to 2 words over 2 words, 2 gaps, 2 durations; silences: every subset of up to 4 slots for each system"
    C.bounds["sections"] = "every subset of three file/channel sections for each of 2 and 3 systems"
    js = list(jobs())
    C.parallel(work, js)
    # memory errors: the same cases, thinned, with address checking
    work.S = build.sclite(san=True)
    C.parallel(work, [x for k, x in enumerate(js) if k % (4 if T else 9) == 0 or len(x[0]) < 3 and k % 2 or len(x[0][0][2]) > 5 or max(len(y) for c in x[0] for y in c[2]) > 90])
    C.finish()


if __name__ == "__main__":
    mc.main(build.sclite, body)
