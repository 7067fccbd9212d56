#!/usr/bin/env python3
"""P15: the significance tests of sc_stats follow their definitions."""
import itertools, math, os, re, shutil, statistics, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, mc
from mc import Check, Fail, chunks, newdir

C = Check("P15", "exhaustive exploration of all small score tables and all pairs of small alignments on the real sc_stats, against the definitions of the tests",
          "every table of scores and every pair of alignments within the bounds is run; winner and probability of every pair of systems are recomputed for each test",
          ["matched-pair segments are defined where both systems are scored against the same reference words",
           "where the means are equal the odd zero difference of the sign and signed-rank tests may count for either side"])
T = C.thorough
ND = statistics.NormalDist()


def sgml(title, spks):
    o = ['<SYSTEM title="%s" ref_fname="r" hyp_fname="h" creation_date="x" format="2.4" frag_corr="FALSE" opt_del="FALSE" weight_ali="FALSE" weight_filename="">\n' % title]
    for s, sents in spks:
        o.append('<SPEAKER id="%s">\n' % s)
        for k, (i, ev) in enumerate(sents):
            o.append('<PATH id="(%s)" word_cnt="%d" sequence="%d">\n' % (i, len(ev), k))
            r, ws = 0, []
            for e in ev:
                if e == "I":
                    ws.append('I,,"x"')
                else:
                    w = "w%d" % r
                    r += 1
                    ws.append({"C": 'C,"%s","%s"' % (w, w), "S": 'S,"%s","x"' % w, "D": 'D,"%s",' % w}[e])
            o.append(":".join(ws) + "\n</PATH>\n")
        o.append("</SPEAKER>\n")
    o.append("</SYSTEM>\n")
    return "".join(o)


# ---- definitions ----
def binom2(a, b):
    n = a + b
    return 1.0 if a == b else min(1.0, 2.0 * sum(math.comb(n, k) for k in range(min(a, b) + 1)) / 2 ** n)


def btol(n):            # more than 20 trials: the normal approximation may be used
    return (0.0006, 0.0006) if n <= 20 else (0.012, 0.012)


NTOL = (0.0006, 0.0087)     # the table of the normal distribution has steps of 0.01 and is read conservatively


def common(A, B):
    nb = dict(B)
    return [(dict(s), dict(nb[n])) for n, s in A if n in nb]


def rate(s):
    e = sum(sum(1 for c in ev if c != "C") for ev in s)
    n = sum(sum(1 for c in ev if c != "I") for ev in s)
    return 100.0 * e / n


def rates(systems):
    """per common speaker of all systems the rate of each"""
    names = [n for n, _ in systems[0] if all(n in dict(x) for x in systems)]
    return [[rate([ev for _, ev in dict(x)[n]]) for x in systems] for n in names]


def sign(d):
    """list of (probability, direction, tolerance) that are acceptable; direction <0: the first is better"""
    p, m = sum(1 for x in d if x > .005), sum(1 for x in d if x < -.005)
    z = len(d) - p - m
    out = []
    tot = sum(d)
    for side in (0, 1):
        if z % 2 == 0 and side:
            continue
        if z % 2 and abs(tot) > 1e-9 and side != (1 if tot > 0 else 0):     # goes to the one whose mean says otherwise
            continue
        a, b = p + z // 2, m + z // 2
        if z % 2:
            if side:
                b += 1
            else:
                a += 1
        out.append((binom2(a, b), (a > b) - (a < b), btol(a + b)))
    return out


def wilc(d):
    n = len(d)
    srt = sorted(abs(x) for x in d)
    rk = []
    for x in d:
        i = [j for j, y in enumerate(srt) if abs(y - abs(x)) < 1e-9]
        rk.append(sum(i) / len(i) + 1)
    E, var = n * (n + 1) / 4, n * (n + 1) * (2 * n + 1) / 24
    out = []
    tot = sum(d)
    for first in (1, -1):
        if abs(tot) > 1e-9 and first != (1 if tot > 0 else -1):
            continue
        k, P = 0, 0.0
        for x, r in zip(d, rk):
            s = 1 if x > .005 else -1 if x < -.005 else 0
            if s == 0:
                s = first if k % 2 == 0 else -first
                k += 1
            if s > 0:
                P += r
        z = (P - E) / math.sqrt(var)
        out.append((2 * (1 - ND.cdf(abs(z))), (P > E) - (P < E), NTOL))
    return out


def segments(a, b):
    """error segments of two alignments of the same reference: list of (reference words, errors of a, errors of b)"""
    def split(ev):      # insertions before each reference word (last: after all), and outcome of each
        ins, out, k = [], [], 0
        for c in ev:
            if c == "I":
                k += 1
            else:
                ins.append(k)
                out.append(c)
                k = 0
        return ins + [k], out
    ia, oa = split(a)
    ib, ob = split(b)
    n = len(oa)
    # sequence of items: ("x", ea, eb) errors or ("g",) words both systems have right
    seq = []
    for i in range(n + 1):
        if ia[i] or ib[i]:
            seq.append((0, ia[i], ib[i], 0))
        if i < n:
            good = oa[i] == "C" and ob[i] == "C"
            seq.append((1, 0, 0, 1) if good else (0, int(oa[i] != "C"), int(ob[i] != "C"), 1))
    segs, i = [], 0
    while i < len(seq):
        if seq[i][0]:
            i += 1
            continue
        j, last, run = i, i, 0
        while j < len(seq) and run < 2:
            run = run + 1 if seq[j][0] else 0
            if not seq[j][0]:
                last = j
            j += 1
        lo = i
        while lo > 0 and seq[lo - 1][0] and i - lo < 2:
            lo -= 1
        hi = last
        while hi + 1 < len(seq) and seq[hi + 1][0] and hi - last < 2:
            hi += 1
        segs.append((sum(x[3] for x in seq[lo:hi + 1]), sum(x[1] for x in seq[i:last + 1]), sum(x[2] for x in seq[i:last + 1])))
        i = j
    return segs


def mapsswe(A, B):
    segs, ns = [], 0
    for sa, sb in common(A, B):
        for i in sa:
            if i in sb:
                segs += segments(sa[i], sb[i])
                ns += 1
    d = [x[1] - x[2] for x in segs]
    n = len(d)
    if n == 0:
        return segs, ns, 0.0, 0.0, 0.0
    m = sum(d) / n
    v = sum((x - m) ** 2 for x in d)
    if v < 1e-12:
        return segs, ns, m, 0.0, 0.0
    sd = math.sqrt(v / (n - 1))
    return segs, ns, m, sd, m / (sd / math.sqrt(n))


def mcn(A, B):
    a = b = 0
    for sa, sb in common(A, B):
        for i in sa:
            if i in sb:
                ea, eb = any(c != "C" for c in sa[i]), any(c != "C" for c in sb[i])
                a += ea and not eb
                b += eb and not ea
    return a, b


def friedman(R):
    """R: rows (blocks) of values of the treatments -> (adjustment, statistic)"""
    R = [[round(x, 7) for x in row] for row in R]
    b, t = len(R), len(R[0])
    S, ties = [0.0] * t, 0
    for row in R:
        srt = sorted(row)
        for k, x in enumerate(row):
            i = [j for j, y in enumerate(srt) if abs(x - y) < 1e-9]
            S[k] += sum(i) / len(i) + 1
        ties += sum(c ** 3 - c for c in (sum(1 for y in row if abs(x - y) < 1e-9) for x in set(row)))
    x = 12.0 / (b * t * (t + 1)) * sum(s * s for s in S) - 3 * b * (t + 1)
    adj = 1 - ties / (b * t * (t * t - 1)) if t > 1 else 0
    return adj, (x / adj if adj > 1e-9 else 0.0), S


CHI = [0, 3.841, 5.991, 7.815, 9.488, 11.070, 12.592, 14.067, 15.507, 16.919, 18.307, 19.675, 21.026, 22.362, 23.685, 24.996, 26.296, 27.587, 28.869, 30.144, 31.410,
       32.671, 33.924, 35.172, 36.415, 37.652, 38.885, 40.113, 41.337, 42.557, 43.773]


def unified(text, names, tests):
    """winner and probability per test and pair"""
    rows = []
    for l in text.splitlines():
        if re.match(r"^\|\s+(%s)\s+\|\|" % "|".join(tests), l):
            rows.append([x.strip() for x in l.strip("|").replace("||", "|").split("|")])
    if len(rows) != len(names) * len(tests):
        raise Fail("the unified report has %d rows for %d systems and %d tests" % (len(rows), len(names), len(tests)))
    res = {}
    for k, r in enumerate(rows):
        i, t = divmod(k, len(tests))
        if r[0] != tests[t] or r[-1] != tests[t] or len(r) != len(names) + 3 or (t == 0 and r[1] != names[i]):
            raise Fail("row %d of the unified report is %s" % (k, r))
        for j in range(len(names)):
            c = r[2 + j].split()
            if (j > i) != bool(c):
                raise Fail("row %d of the unified report is %s" % (k, r))
            if c:
                stars = len(c[2]) if len(c) > 2 else 0
                res[tests[t], i, j] = (c[0], 0.0005 if c[1].startswith("<") else float(c[1]), stars)
    return res


def runs(systems, names, verbose):
    d = newdir()
    try:
        inp = "".join(sgml(n, s) for n, s in zip(names, systems))
        rc, o, e = mc.run([runs.S + "/sc_stats", "-p", "-t", "std4", "-u", "-n", "out", "-O", ".", "-f", "0"], cwd=d, stdin=inp)
        if rc != 0:
            raise Fail("sc_stats -u ended with %s: %r" % (rc, (o + e)[-300:]))
        u = open(d + "/out.stats.unified").read()
        v = m = None
        if verbose:
            rc, o, e = mc.run([runs.S + "/sc_stats", "-p", "-t", "std4", "anovar", "-v", "-n", "out", "-O", ".", "-f", "0"], cwd=d, stdin=inp)
            if rc != 0:
                raise Fail("sc_stats -v ended with %s: %r" % (rc, (o + e)[-300:]))
            v = open(d + "/out.stats.anovar", errors="replace").read()
            m = open(d + "/out.stats.mapsswe", errors="replace").read()
            m += "\0" + open(d + "/out.stats.sign", errors="replace").read() + "\0" + open(d + "/out.stats.wilc", errors="replace").read() + "\0" + open(d + "/out.stats.mcn", errors="replace").read()
        return u, v, m
    finally:
        shutil.rmtree(d, ignore_errors=True)


def decide(what, got, cand, A, B, names):
    """got: (winner, p, stars); cand: acceptable (p, direction, tolerance)"""
    w, p, stars = got
    ok = [c for c in cand if -c[2][0] <= (p if p > .0006 else 0) - (c[0] if c[0] > .0011 else 0) <= c[2][1]]
    if not ok:
        raise Fail("%s test of %s and %s: probability %.3f, the definition gives %s" % (what, names[A], names[B], p, " or ".join("%.4f" % c[0] for c in cand)))
    for c in ok:
        exp = "~" if c[0] > .05 else names[A] if c[1] < 0 else names[B]
        near = abs(c[0] - .05) < max(c[2])
        if w == exp or (near and w == "~") or (near and w == (names[A] if c[1] < 0 else names[B])):
            break
    else:
        raise Fail("%s test of %s and %s with probability %.3f: winner %s, the definition gives %s" % (what, names[A], names[B], p, w, exp))
    s = 3 if p <= .001 else 2 if p <= .01 else 1 if p <= .05 else 0
    if stars != s and all(abs(p - x) > .0006 for x in (.001, .01, .05)):
        raise Fail("%s test: probability %.3f marked with %d stars" % (what, p, stars))


def one(arg, st, fails, samples):
    systems, verbose = arg
    names = ["y%d" % k for k in range(len(systems))]
    try:
        u, v, m = runs(systems, names, verbose)
        U = unified(u, names, ["MP", "SI", "WI", "MN"])
        R = rates(systems)
        n = 0
        for i, j in itertools.combinations(range(len(systems)), 2):
            A, B = systems[i], systems[j]
            segs, ns, mean, sd, Z = mapsswe(A, B)
            if sd > 0 or not segs or mean == 0:     # constant differences: no variance, no statistic
                decide("matched-pair", U["MP", i, j], [(2 * (1 - ND.cdf(abs(Z))), (mean > 0) - (mean < 0), NTOL)], i, j, names)
            d = [r[i] - r[j] for r in R]
            decide("sign", U["SI", i, j], sign(d), i, j, names)
            decide("signed-rank", U["WI", i, j], wilc(d), i, j, names)
            a, b = mcn(A, B)
            decide("McNemar", U["MN", i, j], [(binom2(a, b), (a > b) - (a < b), btol(a + b))], i, j, names)
            n += 4
            if verbose:
                g = re.search(r"MTCH_PR_RESULTS \(systems: %s %s\) \(# segs: (\d+)\) \(Seg per Sent: *(\S+)\) \(%% Error: *(\S+) +(\S+)\) \(mean: *(\S+)\) \(std dev: *(\S+)\) \(Z Stat: *(\S+)\) \(Stat Diff: (\S+)\)" % (names[i], names[j]), m)
                if not g:
                    raise Fail("no matched-pair results of %s and %s" % (names[i], names[j]))
                refs = sum(x[0] for x in segs)
                ex = [len(segs), len(segs) / ns if ns else 0, 100.0 * sum(x[1] for x in segs) / refs if refs else 0, 100.0 * sum(x[2] for x in segs) / refs if refs else 0, mean, sd, Z]
                gv = [float(x) for x in g.groups()[:7]]
                if not all(abs(x - y) < (.0051 if k in (2, 3) else .00051) for k, (x, y) in enumerate(zip(gv, ex))):
                    raise Fail("matched-pair results of %s and %s: segments, per sentence, errors, mean, deviation, Z = %s, the definition gives %s" % (names[i], names[j], gv, [round(x, 3) for x in ex]))
                if abs(abs(Z) - 1.96) > .001 and (g.group(8) == "Yes") != (abs(Z) > 1.96):
                    raise Fail("matched-pair: Z %.3f and difference %s" % (Z, g.group(8)))
        if verbose:
            parts = re.findall(r"adjustment = *(\S+)\s+X2_r = *(\S+)(.*?)(?=adjustment =|\Z)", v, re.S)
            if len(parts) != 2:
                raise Fail("analysis of variance: %d statistics" % len(parts))
            for (adj, x2, rest), M, what in zip(parts, (R, [list(c) for c in zip(*R)]), ("systems", "speakers")):
                if len(M[0]) < 2:
                    continue
                ea, ex, S = friedman(M)
                if abs(float(adj) - ea) > .00051 or abs(float(x2) - ex) > .00051 + 1e-6 * abs(ex):
                    raise Fail("analysis of variance by %s: adjustment %s and statistic %s, the definition gives %.3f and %.3f" % (what, adj, x2, ea, ex))
                k = len(M[0])
                if k < 2 or k > 30:
                    continue
                diff = ex > CHI[k - 1]
                if abs(ex - CHI[k - 1]) > .02:
                    if ("significantly different" in rest) != diff:
                        raise Fail("analysis of variance by %s: statistic %.3f with %d degrees of freedom reported as %sdifferent" % (what, ex, k - 1, "not " if diff else ""))
                    if what == "systems":
                        rows = [[c.strip() for c in l.strip().strip("|").split("|")] for l in rest.splitlines() if re.match(r"\s*\| y\d", l)]
                        pos = {r[0]: r[1:] for r in rows}
                        if not pos and not diff:
                            continue
                        if len(pos) != k:
                            raise Fail("comparison matrix of %d systems has rows %s" % (k, sorted(pos)))
                        order = [r[0] for r in rows]
                        lim = math.sqrt(len(M) * k * (k + 1) / 6)
                        for x in range(k):
                            for y in range(x + 1, k):
                                w = pos[order[x]][y]
                                da = S[names.index(order[x])] - S[names.index(order[y])]
                                best = order[x] if da < 0 else order[y]
                                if not diff and w != "same":
                                    raise Fail("analysis of variance finds no difference, but the comparison of %s and %s names %s" % (order[x], order[y], w))
                                if w not in ("same", best) or (w == "same" and diff and abs(da) > 2.8 * lim) or (w != "same" and abs(da) < 1.8 * lim):
                                    raise Fail("comparison of %s and %s names %s; their rank sums differ by %g (limit %.2f)" % (order[x], order[y], w, da, lim))
            sg, wl, mn = m.split("\0")[1:]
            np = len(systems) * (len(systems) - 1) // 2
            for i, j in itertools.combinations(range(len(systems)), 2):
                a, b = mcn(systems[i], systems[j])
            bet = re.findall(r"the null hypothesis is (REJECTED|ACCEPTED)", sg)
            if len(bet) != np:
                raise Fail("%d decisions of the sign test for %d pairs" % (len(bet), np))
            for k, (i, j) in enumerate(itertools.combinations(range(len(systems)), 2)):
                if (bet[k] == "REJECTED") != (U["SI", i, j][0] != "~"):
                    raise Fail("sign test of %s and %s: %s, but the unified report says %s" % (names[i], names[j], bet[k], U["SI", i, j][0]))
            win = re.findall(r"Further, (\S+) is the\s+better System", sg)
            if win != [U["SI", i, j][0] for i, j in itertools.combinations(range(len(systems)), 2) if U["SI", i, j][0] != "~"]:
                raise Fail("sign test names %s better" % win)
            win = re.findall(r"Further, (\S+) is the better System", wl)
            if win != [U["WI", i, j][0] for i, j in itertools.combinations(range(len(systems)), 2) if U["WI", i, j][0] != "~"]:
                raise Fail("signed-rank test names %s better" % win)
            win = re.findall(r"Further, (\S+) is the\s+better System", mn)
            if win != [U["MN", i, j][0] for i, j in itertools.combinations(range(len(systems)), 2) if U["MN", i, j][0] != "~"]:
                raise Fail("McNemar's test names %s better" % win)
        st.add(states=1, transitions=n, traces=1)
        if len(samples) < 2:
            samples.append({"systems": len(systems), "speakers": len(systems[0]), "MP": U["MP", 0, 1], "SI": U["SI", 0, 1]})
    except Fail as f:
        f.files = {"in.sgml": "".join(sgml(n, s) for n, s in zip(names, systems))}
        f.cmd = "sc_stats -p -t std4 anovar -v -n out < in.sgml; sc_stats -p -t std4 -u -n out < in.sgml"
        fails.append(f.pack())


def many(args, st, fails, samples):
    for a in args:
        one(a, st, fails, samples)
        if len(fails) > 4:
            return


# ---- spaces ----
def spk(e, n=8):
    return "S" * e + "C" * (n - e)


def table(rows, order=None):
    """rows: per speaker the errors of each system"""
    k = len(rows[0])
    out = []
    for s in range(k):
        x = [("s%02d" % b, [("s%02d-0" % b, spk(r[s]))]) for b, r in enumerate(rows)]
        if order and s % 2:
            x = x[::-1]
        out.append(x)
    return out


def body(S):
    runs.S = S
    jobs = []
    # 1. every table of counts: p speakers better, m worse, z equal; the better ones by little, the worse by much
    ns = list(range(1, 31)) if T else list(range(1, 13)) + [17, 20, 21, 22, 25, 30]
    for n in ns:
        for p in range(n + 1):
            for m in range(n + 1 - p):
                z = n - p - m
                if not T and n > 12 and z > 3:
                    continue
                for big in (1, 8) if T or n < 10 else (8,):
                    rows = [(1, 0, 0)] * p + [(0, big, 4)] * m + [(2, 2, 2)] * z
                    rows = rows[1::2] + rows[::2]
                    jobs.append((table(rows, order=n % 2), False))
    n1 = len(jobs)
    C.bounds["sign tables"] = "all numbers of better, worse and equal speakers for %s speakers, small and large differences" % ns
    # 2. every table of three systems
    L = 3
    for nb in (1, 2) + ((3,) if T else ()):
        for rows in itertools.product(itertools.product(range(L), repeat=3), repeat=nb):
            if nb == 3 and list(rows) != sorted(rows):
                continue
            jobs.append((table(rows, order=nb == 2), nb < 3))
    for rows in itertools.combinations_with_replacement(list(itertools.product((0, 1, 3), repeat=2)), 4 if T else 3):
        jobs.append((table([r + (2,) for r in rows]), True))
    for perm in itertools.product(itertools.permutations(range(4)), repeat=2):     # rank patterns of 4 systems, many speakers
        jobs.append((table([perm[0]] * 5 + [perm[1]] * 3), True))
    C.bounds["tables"] = "all tables of 3 systems, 3 levels and up to %d speakers; pairs over 3 levels with %d speakers; all pairs of orders of 4 systems" % (3 if T else 2, 4 if T else 3)
    # 3. all pairs of alignments of the same reference
    def evs(r, maxins):
        out = []
        for o in itertools.product("CSD", repeat=r):
            if "S" in o and "D" in o and r > 2:
                continue
            for gaps in itertools.product((0, 1), repeat=r + 1):
                if sum(gaps) <= maxins:
                    out.append("".join("I" * g + c for g, c in zip(gaps, o)) + "I" * gaps[r])
        return out
    per = []
    for r, mi in ((1, 2), (2, 2), (3, 1), (4, 1)) + (((5, 1), (6, 0)) if T else ()):
        E = evs(r, mi)
        if r > 2:
            E = [e for e in E if "D" not in e or e.count("D") == 1]
        if r == 4 and not T:
            E = [e for e in E if "D" not in e]
        per += list(itertools.product(E, repeat=2))
    # longer references: patterns of right and wrong words only
    for r in (7,) if not T else (7, 8, 9, 10):
        ws = ["".join(x) for x in itertools.product("CS", repeat=r)]
        per += [("C" * r, w) for w in ws] + [(w, "C" * r) for w in ws[1:]] + [(w, w[::-1]) for w in ws if w != w[::-1]]
    # one sentence under test each, with sentences of known segments so that the variance is not zero; several sentences at once for the unified test
    base = [("SCC", "CCC"), ("CCCCIC", "CSCCC"), ("CCSS", "CCCC")]
    for k in range(0, len(per), 12):
        grp = per[k:k + 12]
        # pair under test q in its own pair of systems: systems 2q and 2q+1 would blow up the report, so pairs share a corpus, one speaker each
        A = [("b", [("b-%d" % i, x) for i, (x, y) in enumerate(base)])]
        B = [("b", [("b-%d" % i, y) for i, (x, y) in enumerate(base)])]
        for q, (x, y) in enumerate(grp):
            A.append(("t%d" % q, [("t%d-0" % q, x)]))
            B.append(("t%d" % q, [("t%d-0" % q, y)]))
        jobs.append(([A, B[::-1]], True))
        jobs.append(([A[:1] + [A[1 + (k // 12) % len(grp)]], B[:1] + [B[1 + (k // 12) % len(grp)]]], True))
    C.bounds["alignment pairs"] = "%d pairs of alignments of the same 1 to %d reference words" % (len(per), 10 if T else 7)
    # 4. speakers and sentences missing from one system, other order
    for miss in itertools.product((0, 1, 2, 3), repeat=3):      # per speaker: in both, only first, only second, both but with one sentence missing from the second
        A, B = [], []
        for q, x in enumerate(miss):
            s1 = [("s%d-0" % q, spk(q + 1)), ("s%d-1" % q, spk(2))]
            s2 = [("s%d-1" % q, spk(q)), ("s%d-0" % q, spk(0))]
            if x != 2:
                A.append(("s%d" % q, s1))
            if x != 1:
                B.append(("s%d" % q, s2[:1] if x == 3 else s2))
        if A and B and {n for n, _ in A} & {n for n, _ in B}:
            jobs.append(([A, B], False))
            jobs.append(([B[::-1], A], False))
    # 5. McNemar: all numbers of sentences only one system has right
    for a in range(0, 31 if T else 16):
        for b in range(a + 1):
            for c in ((0, 3) if T or a < 6 else (1,)):
                x = [("CC", "SC")] * a + [("SC", "CC")] * b + [("SC", "CD")] * c + [("CC", "CC")]
                jobs.append(([[("s", [("s-%02d" % i, p) for i, (p, q) in enumerate(x)])], [("s", [("s-%02d" % i, q) for i, (p, q) in enumerate(x)][::-1])]], False))
                jobs.append((jobs[-1][0][::-1], False))
    # 6. many systems
    for k in range(2, 16 if T else 13):
        jobs.append((table([tuple((b + s) % 5 for s in range(k)) for b in range(10)]), k < 8))
    # a system against itself
    for rows in itertools.product((0, 1, 4), repeat=3):
        jobs.append((table([(r, r) for r in rows]), True))
    C.parallel(many, chunks(jobs, 24))
    C.finish()


if __name__ == "__main__":
    mc.main(build.sclite, body)
