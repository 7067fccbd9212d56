#!/usr/bin/env python3
"""P32: latency reports (slatreport) take every selected object into account exactly once."""
import itertools, os, re, sys
from fractions import Fraction as F
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, mc, perlfork
from mc import Check, Fail, chunks

C = Check("P32", "exhaustive exploration of small sets of objects x selections on the real slatreport.pl against exact arithmetic",
          "every set of objects under every selection is one run judged by the reference model",
          ["a latency within rounding of the border of two partitions may be in either", "the charts (need gnuplot) are not examined"])
T = C.thorough

# one object: (type, file, channel, begin, duration, subtype, name, slat)
BASE = ("LEXEME", "f1", "1", "1.000", "0.400", "lex", "A", "3.52")


def objects():
    """objects that differ in one or two respects"""
    out = [BASE]
    for k, v in ((0, "SPEAKER"), (1, "f2"), (2, "2"), (3, "1.25"), (3, "0"), (4, "<NA>"), (4, "0.07"), (5, "fp"), (5, "<NA>"), (6, "B"), (7, "<NA>"), (7, "0.900"), (7, "10"), (7, "3.601")):
        o = list(BASE)
        o[k] = v
        out.append(tuple(o))
    out.append(("SPEAKER", "f2", "2", "5.333", "1.1", "<NA>", "B", "7.77"))
    out.append(("LEXEME", "f2", "1", "1.000", "0.2", "lex", "A", "2.52"))
    out.append(("LEXEME", "f1", "1", "2.000", "0.400", "lex", "A", "4.52"))
    return out


SEL = [[]] + [[f, v] for f, v in (("-t", "LEXEME"), ("-t", "SPEAKER,LEXEME"), ("-t", "SPEAK"), ("-f", "f2"), ("-f", "f1,f2"), ("-c", "2"), ("-c", "1,3"), ("-s", "lex"), ("-s", "fp,<NA>"), ("-n", "B"), ("-n", "A,B"), ("-n", "b"))] + \
    [["-t", "LEXEME", "-s", "lex"], ["-f", "f1", "-c", "1", "-n", "A", "-t", "LEXEME", "-s", "fp,lex"], ["-f", "f2", "-n", "B"], ["-c", "2", "-t", "LEXEME"]]
COL = {"-t": 0, "-f": 1, "-c": 2, "-s": 5, "-n": 6}


def latencies(objs, sel):
    out = []
    for o in objs:
        if o[7] == "<NA>" or any(o[COL[f]] not in v.split(",") for f, v in zip(sel[::2], sel[1::2])):
            continue
        b, d, s = F(o[3]), F(0) if o[4] == "<NA>" else F(o[4]), F(o[7])
        out.append((s - b, s - b - d / 2, s - b - d))
    return out


NUM = r"\s*(-?\d+\.\d{3})"


def judge(objs, sel, H, out):
    lats = latencies(objs, sel)
    txt = out.decode()
    parts = re.split(r"Sample Processing Latency .* \(SPL(.)\):\n", txt)
    if not lats:
        return None if "No data found" in txt and len(parts) == 1 else "no object is selected but the report says %r" % txt[-200:]
    if parts[1::2] != ["b", "m", "e"]:
        return "the report has the parts %r" % parts[1::2]
    for k, body in enumerate(parts[2::2]):
        v = [float(x[k]) for x in lats]
        n = len(v)
        what = "SPL" + "bme"[k]
        m = re.search(r"Mean:" + NUM, body)
        mean = sum(x[k] for x in lats) / n
        if not m or abs(float(m[1]) - float(mean)) > .000502:
            return "%s mean %s, expected %.4f" % (what, m and m[1], mean)
        sd = re.search(r"Standard Deviation:" + NUM, body)
        rows = [(float(a), float(b), int(c)) for a, b, c in re.findall(NUM + " - " + NUM + r": (\d+)\n", body)]
        if n == 1:
            if sd or rows:
                return "%s: deviation or distribution of a single latency" % what
            continue
        var = sum((x[k] - mean) ** 2 for x in lats) / n
        if not sd or abs(float(sd[1]) - float(var) ** .5) > .000502:
            return "%s deviation %s, expected %.4f" % (what, sd and sd[1], float(var) ** .5)
        lo, hi = min(x[k] for x in lats), max(x[k] for x in lats)
        if sum(r[2] for r in rows) != n:
            return "%s: the partitions hold %d of %d latencies: %r" % (what, sum(r[2] for r in rows), n, rows)
        if hi == lo:
            if any(abs(a - float(lo)) > .000502 or abs(b - float(lo)) > .000502 for a, b, _ in rows):
                return "%s: all latencies are %.4f but the partitions are %r" % (what, lo, rows)
            continue
        w = (hi - lo) / H
        left = {}
        for a, b, c in rows:
            i = round((a - float(lo)) / float(w))
            if not 0 <= i < H or abs(float(lo + i * w) - a) > .000502 or abs(float(lo + (i + 1) * w) - b) > .000502 or i in left:
                return "%s: %.3f - %.3f is none of the %d partitions of %.4f - %.4f" % (what, a, b, H, lo, hi)
            left[i] = c
        # every latency in its partition; those on a border may be in either
        free = []
        for x in lats:
            q = (x[k] - lo) / w
            i = min(int(q), H - 1)
            if q == i and 0 < i and x[k] != hi:
                free.append(i)
            else:
                left[i] = left.get(i, 0) - 1
        for i in sorted(free):
            if left.get(i - 1, 0) > 0:
                left[i - 1] -= 1
            else:
                left[i] = left.get(i, 0) - 1
        if any(left.values()):
            return "%s: partitions %r for the latencies %s" % (what, rows, sorted(v))
    return None


STYLE = [lambda o: "%s %s %s %s %s w %s %s <NA> %s\n" % o,
         lambda o: ";; x\n\n%s  %s\t%s %s %s <NA> %s %s 0.5 %s\n" % o]


def work(arg, st, fails, samples):
    S = perlfork.Script(build.REPO + "/src/slatreport/slatreport.pl")
    d = mc.newdir()
    for objs, sel, H, style in arg:
        open(d + "/r.rttm", "w").write("".join(STYLE[style](o) for o in objs))
        cmd = ["-i", "r.rttm", "-o", "/dev/null"] + sel + (["-H", str(H)] if H != 10 else [])
        rc = S.run(d, cmd, out="out", err="err")
        out = open(d + "/out", "rb").read()
        st.add(states=1, traces=1, transitions=len(objs))
        m = "slatreport ended with %s: %r" % (rc, open(d + "/err", "rb").read()[-200:]) if rc else judge(objs, sel, H, out)
        if m:
            fails.append(Fail("%s: %s" % (" ".join(cmd), m), files={"r.rttm": open(d + "/r.rttm").read()}, cmd="slatreport.pl " + " ".join(cmd)).pack())
            if len(fails) > 3:
                break
    S.close()
    samples.append("slatreport %s on %r" % (" ".join(arg[0][1]), arg[0][0]))


def cases():
    O = objects()
    k = 0
    for n in (0, 1, 2, 3):
        for c in itertools.combinations_with_replacement(O, n):
            for i, sel in enumerate(SEL):
                k += 1
                if n == 3 and k % (2 if T else 11):
                    continue
                yield list(c), sel, (10, 2, 3, 7)[k % 4], k % 2
    # latencies on a grid: borders of the partitions
    grid = ["2", "2.1", "2.2", "2.3", "2.5", "2.7", "3"]
    for n in (2, 3, 4, 5) + ((6,) if T else ()):
        for c in itertools.combinations_with_replacement(grid, n):
            for H in ((2, 3, 5, 10, 25) if T else (2, 10, 5) if n < 5 else (10,)):
                yield [BASE[:3] + ("%d.7" % i,) + BASE[4:7] + ("%.1f" % (float(s) + i + .7),) for i, s in enumerate(c)], [], H, 0


def refusals(st_unused=None):
    for name, text, opts in (("no SLAT column", "LEXEME f 1 1 1 w lex A <NA>\n", []), ("one partition", STYLE[0](BASE), ["-H", "1"]), ("no input", None, [])):
        files = {"r.rttm": text} if text else {}
        cmd = ["perl", build.REPO + "/src/slatreport/slatreport.pl", "-i", "r.rttm", "-o", "/dev/null"] + opts
        rc, out, err, _ = mc.run_in(files, cmd)
        C.stats.add(states=1, traces=1)
        if rc == 0:
            C.fails.append(Fail("%s is accepted" % name, files=files, cmd=" ".join(["slatreport.pl"] + cmd[2:])).pack())


def body(_):
    cs = list(cases())
    C.bounds["objects"] = "every multiset of up to 3 of %d objects (type, file, channel, times, subtype, name and latency varied) under %d selections; every multiset of 2-%d latencies of a grid" % (len(objects()), len(SEL), 6 if T else 5)
    C.parallel(work, chunks(cs, 200))
    refusals()
    C.finish()


if __name__ == "__main__":
    mc.main(lambda: None, body)
