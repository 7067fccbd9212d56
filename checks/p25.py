#!/usr/bin/env python3
"""P25: sc_stats' multi-system reports show each system's own scores for each speaker."""
import itertools, math, os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, mc, reports as rp
from mc import Check, Fail, chunks, newdir
from reports import need, near, pct, mean, sd, median

C = Check("P25", "exhaustive exploration of all small score tables (systems x speakers x error profiles), of the order in which each system lists its speakers, and of the numbers of systems and speakers, on the real sclite | sc_stats; every table and graph file compared with the scores",
          "every (systems, speakers, profiles, order) is one trace",
          ["all systems have the same speakers", "every speaker has reference words", "speaker and system names have no space"])
T = C.thorough
ASAN = {"ASAN_OPTIONS": "detect_leaks=0"}
REFS = ["a", "b", "c", "d", "e", "f"]
# hypotheses for the reference a b c d (n words): (words, c, s, d, i)
def hyps(n):
    r = REFS[:n]
    o = [(r, n, 0, 0, 0), (["x"] + r[1:], n - 1, 1, 0, 0), (r[1:], n - 1, 0, 1, 0), (r + ["x"], n, 0, 0, 1), (["x"] + r[1:-1] + ["y"] if n > 1 else ["x", "y"], max(n - 2, 0), min(n, 2), 0, 0 if n > 1 else 1), ([], 0, 0, n, 0), (["x"] * n + ["y"] * n, 0, n, 0, n)]
    return o


def want(table, spks, n):
    """table[s][k] = hyp shape of system s for speaker k; -> per system list of (ref, err, (c, s, d, i), serr)"""
    out = []
    for row in table:
        o = []
        for k, h in enumerate(row):
            w, c, s, d, i = hyps(n[k])[h]
            o.append((n[k], s + d + i, (c, s, d, i), 1 if s + d + i else 0))
        out.append(o)
    return out


def cells(text):
    rows = []
    for l in rp.dec(text).split("\n"):
        l = l.strip()
        if l.startswith("|") and l.endswith("|") and not re.match(r"^\|[-=+|]+\|$", l):
            rows.append([c.strip() for c in l[1:-1].split("|")])
    return rows


def check_sum(text, names, spks, W, raw):
    what = "raw" if raw else "sys"
    rows = [r for r in cells(text) if len(r) == len(names) + 1]
    need(rows and rows[0] == ["Spkr"] + names, "%s: heading %r" % (what, rows[:1]))
    seen = []
    got = dict()
    for r in rows[1:]:
        if r[0]:
            need(r[0] not in got, "%s: two rows for %s" % (what, r[0]))
            got[r[0]] = r[1:]
            seen.append(r[0])
    tot = ["Sum" if raw else "Average", "Mean", "StdDev", "Median"]
    need(sorted(seen) == sorted(spks + tot), "%s: rows for %s" % (what, seen))
    for s, nm in enumerate(names):
        v = [W[s][k][1] if raw else pct(W[s][k][1], W[s][k][0]) for k in range(len(spks))]
        for k, sp in enumerate(spks):
            near(got[sp][s], v[k], "%s: system %s speaker %s" % (what, nm, sp), 0.001 if raw else rp.TOL)
        e, r = sum(x[1] for x in W[s]), sum(x[0] for x in W[s])
        near(got[tot[0]][s], e if raw else pct(e, r), "%s: system %s total" % (what, nm), 0.001 if raw else rp.TOL)
        for t, f in zip(tot[1:], (mean, sd, median)):
            near(got[t][s], f(v), "%s: system %s %s" % (what, nm, t))


def check_es(text, names, W, raw):
    what = "res" if raw else "es"
    rows = [r for r in cells(text) if len(r) == 3 and r[0] != "System"]
    need([r[0] for r in rows] == names, "%s: systems %s" % (what, [r[0] for r in rows]))
    for s, r in enumerate(rows):
        f = r[1].split() + r[2].split()
        ref, snt = sum(x[0] for x in W[s]), len(W[s])
        c = [sum(x[2][j] for x in W[s]) for j in range(4)]
        v = c + [c[1] + c[2] + c[3]]
        se = sum(x[3] for x in W[s])
        need(len(f) == 8, "%s: row %r" % (what, r))
        ex = [snt, ref] + ([*v, se] if raw else [pct(x, ref) for x in v] + [pct(se, snt)])
        for j, (a, b) in enumerate(zip(f, ex)):
            near(a, b, "%s: system %s column %d" % (what, names[s], j), 0.001 if raw or j < 2 else rp.TOL)


def check_range(text, names, spks, W):
    P = [[pct(x[1], x[0]) for x in row] for row in W]
    col = lambda k: [P[s][k] for s in range(len(names))]
    parts = re.split(r"RANGE ANALYSIS ACROSS ", rp.dec(text))
    need(len(parts) == 3, "range: %d analyses" % (len(parts) - 1))
    for part, what, nm, vals in ((parts[1], "speaker", spks, [col(k) for k in range(len(spks))]), (parts[2], "system", names, P)):
        num = [r for r in cells(part) if len(r) == 6 and r[0] not in ("SPKR", "SYS")]
        need(sorted(r[0] for r in num) == sorted(nm), "range: rows for the %ss %s" % (what, [r[0] for r in num]))
        for r in num:
            v = vals[nm.index(r[0])]
            for a, b, c in ((r[1], max(v), "high"), (r[2], min(v), "low"), (r[4], sd(v), "std dev"), (r[5], mean(v), "mean")):
                near(a, b, "range: %s %s %s" % (what, r[0], c))
        # the graph: one column per 2 %, a bar from low to high, | at the mean
        g = {}
        for l in part.split("\n"):
            m = re.match(r"^\s*\| (\S+)\s*\|(.{51})\|\s*$", l)
            if m and m.group(1) in nm:
                g[m.group(1)] = m.group(2)
        need(sorted(g) == sorted(nm), "range: graph of the %ss has %s" % (what, sorted(g)))
        for x, bar in g.items():
            v = vals[nm.index(x)]
            for j, ch in enumerate(bar):
                p = 2 * j
                if abs(p - mean(v)) < 0.99:
                    need(ch == "|", "range: graph of %s lacks its mean %.1f" % (x, mean(v)))
                elif abs(p - mean(v)) > 1.01:
                    need(ch != "|", "range: graph of %s has a mean at %d" % (x, p))
                    near_sd = min(abs(p - mean(v) - sd(v)), abs(p - mean(v) + sd(v)))
                    if near_sd < 0.99:
                        need(ch == "+", "range: graph of %s lacks the deviation mark at %d" % (x, p))
                    elif near_sd > 1.01 and min(v) + 0.01 < p < max(v) - 0.01:
                        need(ch == "-", "range: graph of %s has a hole at %d" % (x, p))
                    elif near_sd > 1.01 and (p < min(v) - 0.01 or p > max(v) + 0.01):
                        need(ch == " ", "range: graph of %s goes beyond its range at %d" % (x, p))


def nums(text):
    return [[float(x) for x in l.split()] for l in rp.dec(text).split("\n") if l.strip()]


def check_grange(rd, names, spks, W, two):
    P = [[pct(x[1], x[0]) for x in row] for row in W]
    base = "grange2" if two else "grange"
    for ext, nm, vals in (("spk", spks, [[P[s][k] for s in range(len(names))] for k in range(len(spks))]), ("sys", names, P)):
        w = "%s.%s" % (base, ext)
        m, md, dat = nums(rd(w + ".mean")), nums(rd(w + ".median")), nums(rd(w + ".dat"))
        # the rows are numbered; the names are the tick labels of the plot file
        plt = rp.dec(rd(w + ".plt"))
        ticks = re.findall(r'"([^"\s]+)"\s+(\d+)', "\n".join(l for l in plt.split("\n") if "tics" in l))
        order = {int(n): t for t, n in ticks if t in nm}
        need(sorted(order.values()) == sorted(nm), "%s: the plot labels %s" % (w, ticks))
        for what, tab, f in (("mean", m, mean), ("median", md, median)):
            need(sorted(int(r[0]) for r in tab) == sorted(order), "%s: rows of the %s file" % (w, what))
            for r in tab:
                near(r[1], f(vals[nm.index(order[int(r[0])])]), "%s: %s of %s" % (w, what, order[int(r[0])]), 1e-4)
        if two:
            # the columns are named by the plot file
            other = names if ext == "spk" else spks
            legend = {f.count("%*s"): t for f, t in re.findall(r'\.dat" using 2:1 "([^"]*)" title "([^"]*)"', plt)}
            need(sorted(legend.values()) == sorted(other) and sorted(legend) == list(range(len(other))), "%s: the legend is %s" % (w, legend))
            for r in dat:
                v = vals[nm.index(order[int(r[0])])]
                v = [v[other.index(legend[j])] for j in range(len(other))]
                need(len(r) == len(v) + 1 and all(abs(x - y) < 1e-4 for x, y in zip(r[1:], v)), "%s: values of %s are %s, expected %s" % (w, order[int(r[0])], r[1:], v))
            need(len(dat) == len(nm), "%s: %d rows" % (w, len(dat)))
        else:
            for n, t in order.items():
                a, b = sorted(r[1] for r in dat if int(r[0]) == n), sorted(vals[nm.index(t)])
                need(len(a) == len(b) and all(abs(x - y) < 1e-4 for x, y in zip(a, b)), "%s: values of %s are %s, expected %s" % (w, t, a, b))


def one(case):
    names, spks, n, table, orders = case
    d = newdir()
    fl = {}
    try:
        fl["r"] = "".join("%s (%s_1)\n" % (" ".join(REFS[:n[k]]), s) for k, s in enumerate(spks))
        cmd = [S + "/sclite", "-r", "r", "-i", "spu_id"]
        for j, nm in enumerate(names):
            fl["h%d" % j] = "".join("%s (%s_1)\n" % (" ".join(hyps(n[k])[table[j][k]][0]), spks[k]) for k in orders[j])
            cmd += ["-h", "h%d" % j, "trn", nm]
        for k, v in fl.items():
            with open(d + "/" + k, "w") as f:
                f.write(v)
        rc, o, e = mc.run(cmd + ["-o", "sgml", "stdout", "-f", "0"], cwd=d, env=ASAN)
        if rc:
            raise Fail("sclite ended with %s: %r" % (rc, (o + e)[-300:]))
        cmd2 = [S + "/sc_stats", "-p", "-r", "sum", "rsum", "es", "res", "-g", "range", "grange", "grange2", "-O", d, "-n", "E", "-e", "tst"]
        rc, o, e = mc.run(cmd2, cwd=d, stdin=o, env=ASAN)
        if rc:
            raise Fail("sc_stats ended with %s: %r" % (rc, (o + e)[-300:]))

        def rd(x):
            if not os.path.isfile(d + "/E." + x):
                raise Fail("E.%s was not written" % x)
            return open(d + "/E." + x, "rb").read()
        W = want(table, spks, n)
        check_sum(rd("sys"), names, spks, W, False)
        check_sum(rd("raw"), names, spks, W, True)
        check_es(rd("es"), names, W, False)
        check_es(rd("res"), names, W, True)
        check_range(rd("range"), names, spks, W)
        check_grange(rd, names, spks, W, False)
        check_grange(rd, names, spks, W, True)
    except Fail as f:
        f.files, f.cmd = fl, " ".join(cmd) + " -o sgml stdout -f 0 | sc_stats -p -r sum rsum es res -g range grange grange2 -n E -e tst"
        raise
    finally:
        shutil.rmtree(d, ignore_errors=True)


LABELS = [("O", "Overall"), ("M", "Male"), ("F", "Female")]


def check_nlur(text, names, spks, W, sex):
    rows = [[c.strip() for c in l.strip()[1:-1].replace("||", "|").split("|")] for l in rp.dec(text).split("\n") if l.strip().startswith("|")]
    k = [i for i, r in enumerate(rows) if any("#Wrd" in c for c in r)]
    need(len(k) == 1, "lur: no table")
    body = [r for r in rows[k[0] + 1:] if len(r) == 4 and r[0] in names]
    need([r[0] for r in body] == names * 4, "lur: rows for %s" % [r[0] for r in body])
    for i, r in enumerate(body):
        s = i % len(names)
        for j, (lab, _) in enumerate(LABELS):
            v = [W[s][q][:2] for q in range(len(spks)) if lab in ("O", sex[q])]
            f = r[j + 1].split()
            w = "lur: system %s label %s row %d" % (names[s], lab, i // len(names))
            if i < len(names):
                a, b = sum(x[0] for x in v), pct(sum(x[1] for x in v), sum(x[0] for x in v))
            else:
                fn = (None, mean, sd, median)[i // len(names)]
                a, b = fn([x[0] for x in v]), fn([pct(x[1], x[0]) for x in v])
            need(len(f) == 2 and abs(float(f[0].strip("[]")) - a) < 1.001, "%s: %r, expected %s words" % (w, f, a))
            near(f[1], b, w)


def check_prn(text, names, spks, n, table):
    t = rp.dec(text)
    blocks = re.split(r"^Speaker: ", t, flags=re.M)[1:]
    need(sorted(b.split("\n")[0] for b in blocks) == sorted(spks), "prn: speakers %s" % [b.split("\n")[0] for b in blocks])
    tot = toterr = 0
    lost = []
    for b in blocks:
        k = spks.index(b.split("\n")[0])
        got = {}
        for l in b.split("Lattice Summary")[0].split("\n"):
            m = re.match(r"^(\S+):\s(.*)$", l)
            if m and m.group(1) in ["REF"] + names:
                got.setdefault(m.group(1), []).extend(w.lower() for w in m.group(2).split() if w.strip("*"))
        need(got.get("REF") == REFS[:n[k]], "prn: reference of %s is %s" % (spks[k], got.get("REF")))
        for s, nm in enumerate(names):
            need(got.get(nm, []) == hyps(n[k])[table[s][k]][0], "prn: words of system %s for %s are %s" % (nm, spks[k], got.get(nm)))
        bad = [w for w in REFS[:n[k]] if not any(w in hyps(n[k])[table[s][k]][0] for s in range(len(names)))]
        m = re.search(r"#refWords (\d+) #refErrWords (\d+)", b)
        need(m and (int(m.group(1)), int(m.group(2))) == (n[k], len(bad)), "prn: %s for %s, expected %d words of which %d right in no system" % (m and m.group(0), spks[k], n[k], len(bad)))
        tot += n[k]
        toterr += len(bad)
        lost += bad
    m = re.search(r"#TotRefWords (\d+) #TotRefErrWords (\d+) Accuracy\s+([\d.]+)", t)
    need(m and (int(m.group(1)), int(m.group(2))) == (tot, toterr), "prn: totals %s, expected %d and %d" % (m and m.group(0), tot, toterr))
    near(m.group(3), pct(tot - toterr, tot), "prn: accuracy", 0.00501)
    lst = {w: int(c) for c, w in re.findall(r"^\s*\d+:\s+(\d+)\s+->\s+(\S+)$", t, flags=re.M)}
    need(lst == {w: lost.count(w) for w in lost}, "prn: list of words no system has right: %s" % lst)


def stm_one(case):
    names, spks, sex, n, table = case
    d = newdir()
    fl = {"r": ';; CATEGORY "0" "" ""\n;; LABEL "O" "Overall" "Overall"\n;; CATEGORY "1" "Sex" ""\n;; LABEL "M" "Male" "men"\n;; LABEL "F" "Female" "women"\n'}
    try:
        cmd = [S + "/sclite", "-r", "r", "stm"]
        for k, s in enumerate(spks):
            fl["r"] += "f 1 %s %d %d <O,%s> %s\n" % (s, 10 * k, 10 * k + 10, sex[k], " ".join(REFS[:n[k]]))
        for j, nm in enumerate(names):
            fl["h%d" % j] = "".join("f 1 %.2f 0.10 %s\n" % (10 * k + 0.5 + 0.5 * i, w) for k in range(len(spks)) for i, w in enumerate(hyps(n[k])[table[j][k]][0])) or ";; none\n"
            cmd += ["-h", "h%d" % j, "ctm", nm]
        for k, v in fl.items():
            with open(d + "/" + k, "w") as f:
                f.write(v)
        rc, o, e = mc.run(cmd + ["-o", "sgml", "stdout", "-f", "0"], cwd=d, env=ASAN)
        if rc:
            raise Fail("sclite ended with %s: %r" % (rc, (o + e)[-300:]))
        rc, o, e = mc.run([S + "/sc_stats", "-p", "-r", "lur", "prn", "sum", "es", "-O", d, "-n", "E", "-e", "tst"], cwd=d, stdin=o, env=ASAN)
        if rc:
            raise Fail("sc_stats ended with %s: %r" % (rc, (o + e)[-300:]))
        rd = lambda x: open(d + "/E." + x, "rb").read() if os.path.isfile(d + "/E." + x) else b""
        W = want(table, spks, n)
        check_sum(rd("sys"), names, spks, W, False)
        check_es(rd("es"), names, W, False)
        check_nlur(rd("lur"), names, spks, W, sex)
        if len(names) > 1:   # a single system is listed like pralign does
            check_prn(rd("prn"), names, spks, n, table)
    except Fail as f:
        f.files, f.cmd = fl, " ".join(cmd) + " -o sgml stdout -f 0 | sc_stats -p -r lur prn sum es -n E -e tst"
        raise
    finally:
        shutil.rmtree(d, ignore_errors=True)


def stm_gen():
    H = (0, 1, 2, 3, 5)
    nm = ["sysA", "b", "sys_three", "dd"]
    sp = ["s0", "longername", "q", "t"]
    for t in itertools.product(range(7) if T else H, repeat=4):
        yield nm[:2], sp[:2], "MF", [4, 2], [t[:2], t[2:]]
    for sex in itertools.product("MF", repeat=3):
        for t in itertools.product((1, 3) if not T else (0, 1, 3), repeat=6):
            yield nm[:2], sp[:3], sex, [2, 4, 1], [t[:3], t[3:]]
    for t in itertools.product((0, 2, 4), repeat=4):
        yield nm, sp[:1], "F", [3], [[x] for x in t]
        yield nm[:1], sp, "MFFM", [3, 5, 1, 4], [t]


def stm_work(cases, st, fails, samples):
    for c in cases:
        try:
            stm_one(c)
        except Fail as f:
            fails.append(f.pack())
        st.add(traces=1, states=1, transitions=len(c[0]) * len(c[1]))


def work(cases, st, fails, samples):
    for c in cases:
        try:
            one(c)
        except Fail as f:
            fails.append(f.pack())
        st.add(traces=1, states=1, transitions=len(c[0]) * len(c[1]))
    if cases and not samples:
        samples.append({"systems": cases[0][0], "speakers": cases[0][1], "profiles": cases[0][3]})


def gen():
    H = range(7)
    nm = ["sysA", "b", "sys_three", "dd", "e5", "f", "g", "h"]
    sp = ["s0", "longername", "q", "t3", "u"]
    st = lambda k: [list(range(k))]
    ident = lambda ns, k: [list(range(k))] * ns
    # every table of 2 systems and 2 speakers, 3 systems and 1 speaker, 1 system
    for t in itertools.product(H, repeat=4):
        yield nm[:2], sp[:2], [4, 2], [t[:2], t[2:]], ident(2, 2)
    for t in itertools.product(H, repeat=3):
        yield nm[:3], sp[:1], [3], [[x] for x in t], ident(3, 1)
        yield nm[:1], sp[:3], [3, 1, 5], [list(t)], ident(1, 3)
    for t in itertools.product((0, 1, 3, 6) if T else (0, 3), repeat=6):
        yield nm[:2], sp[:3], [2, 4, 1], [t[:3], t[3:]], ident(2, 3)
        yield nm[:3], sp[:2], [2, 4], [t[:2], t[2:4], t[4:]], ident(3, 2)
    # every order of the speakers in each system
    for o1 in itertools.permutations(range(3)):
        for o2 in itertools.permutations(range(3)):
            for t in ([[0, 1, 5], [3, 2, 0]], [[1, 0, 0], [0, 0, 1]], [[6, 1, 0], [6, 1, 0]]):
                yield nm[:2], sp[:3], [3, 4, 2], t, [list(o1), list(o2)]
    # sizes
    for ns in range(1, 9):
        for k in range(1, 6 if not T else 12):
            sps = [sp[j] if j < 5 else "z%d" % j for j in range(k)]
            yield nm[:ns], sps, [1 + j % 5 for j in range(k)], [[(s * 3 + j * 2 + s * j) % 7 for j in range(k)] for s in range(ns)], ident(ns, k)
    for ns in range(9, 40 if T else 30, 3):
        yield ["m%d" % j for j in range(ns)], sp[:2], [3, 4], [[j % 7, j // 3 % 7] for j in range(ns)], ident(ns, 2)
    for k in (20, 40, 75):
        yield nm[:2], ["z%d" % j for j in range(k)], [1 + j % 5 for j in range(k)], [[j % 7 for j in range(k)], [j // 2 % 7 for j in range(k)]], ident(2, k)


def body(ctx):
    global S
    S = ctx[0]
    cs = list(gen())
    C.bounds["tables"] = len(cs)
    C.parallel(work, list(chunks(cs, 25)))
    c2 = list(stm_gen())
    C.bounds["labelled tables"] = len(c2)
    C.parallel(stm_work, list(chunks(c2, 25)))
    S = ctx[1]
    C.bounds["with the address sanitizer"] = len(cs[::9])
    C.parallel(work, list(chunks(cs[::9] + cs[-40:], 10)))
    C.parallel(stm_work, list(chunks(c2[::9], 10)))
    C.finish()


if __name__ == "__main__":
    mc.main(lambda: (build.sclite(), build.sclite(san=True)), body)
