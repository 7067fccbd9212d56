#!/usr/bin/env python3
"""P27: asclite's summary reports state the counts of its alignments."""
import itertools, math, os, re, shutil, statistics, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, mc
from mc import Check, Fail, chunks, newdir

C = Check("P27", "exhaustive exploration of all small tables of speakers, segments and error profiles (every profile of correct, substituted, deleted, inserted and optional words up to the bound) on the real asclite; every number of the sum and rsum reports compared with an independent computation",
          "every (segments with their profiles, confidences, systems) is one trace; its states are the cells of the reports",
          ["profiles whose alignment is unique: no deletion next to an insertion", "NCE only where it is defined (some words correct, some not, all confidences inside (0,1), no optional word left out)"])
T = C.thorough
ASAN = {"ASAN_OPTIONS": "detect_leaks=0"}
COLS = ["corr", "sub", "del", "ins", "err"]


def profiles(n):
    return [p for k in range(n + 1) for p in map("".join, itertools.product("CSDIO", repeat=k)) if not re.search("[DO]S*I|IS*[DO]|SO|OS", p)]


def case(segs, confs, k0=0):
    """segs: [(speaker, profile)] -> (stm lines, ctm lines, counts by speaker)"""
    stm, ctm, cnt, n = [], [], {}, k0
    for k, (spk, prof) in enumerate(segs):
        ref = []
        c = cnt.setdefault(spk, {"snt": 0, "wrd": 0, "serr": 0, "corr": 0, "sub": 0, "del": 0, "ins": 0, "ok": [], "bad": []})
        t = 10.0 * k
        for i, o in enumerate(prof):
            w = "w%d" % n
            n += 1
            at = t + 0.25 + i * 9.0 / max(1, len(prof))
            cf = confs[n % len(confs)]
            if o != "I":
                ref.append("(%s)" % w if o == "O" else w)
                c["wrd"] += 1
            if o == "O":
                c["ok"].append(None)
            if o in "CSI":
                ctm.append("f 1 %.4f 0.001 %s%s\n" % (at, w if o == "C" else "x" + w, " %g" % cf if cf is not None else ""))
                c["ok" if o == "C" else "bad"].append(cf)
            c[{"C": "corr", "O": "corr", "S": "sub", "D": "del", "I": "ins"}[o]] += 1
        stm.append("f 1 %s %.2f %.2f %s\n" % (spk, t, t + 10, " ".join(ref)))
        c["snt"] += 1
        c["serr"] += any(o in "SDI" for o in prof)
    for c in cnt.values():
        c["err"] = c["sub"] + c["del"] + c["ins"]
    return "".join(stm), "".join(ctm), cnt


def nce(ok, bad):
    a = ok + bad
    if not ok or not bad or any(x is None or not 0 < x < 1 for x in a):
        return None
    p = len(ok) / len(a)
    h = -len(ok) * math.log2(p) - len(bad) * math.log2(1 - p)
    k = h + sum(math.log2(x) for x in ok)
    return (k + sum(math.log2(1 - x) for x in bad)) / h, (k + sum(math.log2(x) for x in bad)) / h      # right, and as a known finding has it


def parse(text):
    """the tables of a report: [(title, {row: [cells]})]"""
    out = []
    for l in text.split("\n"):
        if "SYSTEM SUMMARY PERCENTAGE by SPEAKER" in l:
            out.append([None, {}, len(out)])
        elif l.startswith("|") and not re.match(r"\|[-=]+\|$", l):
            f = [x.strip() for x in l[1:-1].split("|")]
            if len(f) == 1:
                out[-1][0] = f[0]
            elif len(f) == 4 and f[0] != "Speaker":
                if f[0] in out[-1][1]:
                    raise ValueError("row %r twice" % f[0])
                out[-1][1][f[0]] = f[1].split() + f[2].split() + [f[3]]
            elif f[0] != "Speaker":
                raise ValueError("line %r" % l)
    return [(a, b) for a, b, c in out]


def check(tab, cnt, pct, st, known):
    row = dict(tab)
    D = {}
    for s, c in cnt.items():
        v = [c[x] for x in COLS]
        if pct and c["wrd"]:
            v = [100.0 * x / c["wrd"] for x in v]
        D[s] = [c["snt"], c["wrd"]] + v + [100.0 * c["serr"] / c["snt"] if pct else c["serr"]]
    star = any(not c["wrd"] for c in cnt.values())

    def cmp(name, want, nc, dec, mark=""):
        got = row.pop(name, None)
        if got is None:
            raise Fail("no row %r" % name)
        if len(got) != len(want) + 1:
            raise Fail("row %r: %r, expected %r" % (name, got, want))
        for i, (g, w) in enumerate(zip(got, want)):
            m = mark if 2 <= i <= 6 else ""
            if m and not g.endswith(m):
                raise Fail("row %r column %d: %r is not marked %s" % (name, i, g, m))
            g = g[:-1] if m else g
            st.add(states=1)
            if w is None:
                continue
            try:
                x = float(g)
            except ValueError:
                raise Fail("row %r column %d: %r, expected %g" % (name, i, g, w))
            d = dec if i >= 2 else (1 if name in ("Mean", "S.D.", "Median") else 0)
            if (d == 0) != ("." not in g) or abs(x - w) > 0.0500001 * (d > 0):
                raise Fail("row %r column %d: %r, expected %g" % (name, i, g, w))
        if got[-1] not in ("#", "-inf", "+inf") and not (re.fullmatch(r"-?\d+\.\d{3}", got[-1]) and abs(float(got[-1])) <= 1000):
            raise Fail("row %r: NCE %r" % (name, got[-1]))
        if nc is not None:
            try:
                x = float(got[-1])
            except ValueError:
                raise Fail("row %r: NCE %r, expected %.3f" % (name, got[-1], nc[0]))
            if abs(x - nc[0]) > 0.00051 and abs(x - nc[1]) <= 0.00051:
                known.add("NCE of wrong words")
            elif abs(x - nc[0]) > 0.00051:
                raise Fail("row %r: NCE %r, expected %.3f" % (name, got[-1], nc[0]))

    for s, c in cnt.items():
        cmp(s, D[s][:-1] + D[s][-1:], nce(c["ok"], c["bad"]) if c["wrd"] else None, 1 if pct and c["wrd"] else 0, "*" if pct and not c["wrd"] else "") if not (pct and not c["wrd"]) else zero(row, s, D[s], st)
    tot = {k: sum(c[k] for c in cnt.values()) for k in COLS + ["snt", "wrd", "serr"]}
    n = nce(sum([c["ok"] for c in cnt.values()], []), sum([c["bad"] for c in cnt.values()], []))
    if pct:
        cmp("Sum/Avg", [tot["snt"], tot["wrd"]] + [100.0 * tot[k] / tot["wrd"] if tot["wrd"] else None for k in COLS] + [100.0 * tot["serr"] / tot["snt"]], n, 1)
    else:
        cmp("Sum", [tot["snt"], tot["wrd"]] + [tot[k] for k in COLS] + [tot["serr"]], n, 0)
    full = [D[s] for s in cnt if cnt[s]["wrd"]]
    al = [D[s] for s in cnt]

    def stat(f, vals):
        return f(vals) if vals else 0
    sd = lambda v: statistics.stdev(v) if len(v) > 1 else 0.0
    ncs = [nce(c["ok"], c["bad"]) for c in cnt.values() if c["wrd"]]
    for name, f in (("Mean", statistics.mean), ("S.D.", sd), ("Median", statistics.median)):
        cmp(name, [stat(f, [r[i] for r in (al if i in (0, 1, 7) else full)]) for i in range(8)], (f([x for x, _ in ncs]), f([x for _, x in ncs])) if ncs and None not in ncs else None, 1, "+" if star else "")
    if row:
        raise Fail("rows %s too many" % sorted(row))


def zero(row, s, want, st):
    """a speaker without reference words: counts marked *, in the report of percentages"""
    got = row.pop(s, None)
    if got is None:
        raise Fail("no row %r" % s)
    w = ["%d" % want[0], "0"] + ["%d*" % x for x in want[2:7]] + ["%.1f" % want[7], "#"]
    if got != w:
        raise Fail("row %r: %s, expected %s" % (s, got, w))
    st.add(states=9)


def one(systems, confs, st, outdir=None, where="stdout"):
    """systems: a list of [(speaker, profile)] with the same references"""
    d = newdir()
    files, cnts, known = {}, [], set()
    cmd = [A + "/asclite", "-r", "r.stm", "stm"]
    try:
        for k, segs in enumerate(systems):
            stm, ctm, cnt = case(segs, confs)
            if k and stm != files["r.stm"]:
                raise RuntimeError("bad case")
            files["r.stm"], files["sys%d.ctm" % k] = stm, ctm or ";; none\n"
            cnts.append(cnt)
            cmd += ["-h", "sys%d.ctm" % k, "ctm"]
        cmd += (["-D", "ref"] if any("O" in p for s in systems for _, p in s) else []) + ["-f", "0", "-o", "sum", "rsum"] + (["stdout"] if where == "stdout" else ["-O", "out"])
        for n, t in files.items():
            with open(os.path.join(d, n), "w") as f:
                f.write(t)
        if where == "dir":
            os.mkdir(d + "/out")
        elif where == "missing":
            with open(d + "/out", "w"):
                pass
        rc, o, e = mc.run(cmd, cwd=d, env=ASAN, timeout=60)
        if rc:
            raise Fail("asclite ended with %s: %s" % (rc, (o + e)[-300:]))
        st.add(traces=1, transitions=sum(len(p) for s in systems for _, p in s))
        if where == "dir":
            o = b""
            want = ["sys%d.ctm.%s" % (k, x) for x in ("raw", "sys") for k in range(len(systems))]
            if sorted(os.listdir(d + "/out")) != sorted(want):
                raise Fail("the reports written are %s" % sorted(os.listdir(d + "/out")))
            tabs = {}
            for x in ("sys", "raw"):
                tabs[x] = []
                for k in range(len(systems)):
                    t = parse(open("%s/out/sys%d.ctm.%s" % (d, k, x)).read())
                    if len(t) != 1:
                        raise Fail("%d tables in one report" % len(t))
                    tabs[x] += t
        else:
            t = parse(o.decode())
            if len(t) != 2 * len(systems):
                raise Fail("%d tables on standard output, %d expected" % (len(t), 2 * len(systems)))
            pc = ["Sum/Avg" in rows for _, rows in t]
            tabs = {"sys": [x for x, p in zip(t, pc) if p], "raw": [x for x, p in zip(t, pc) if not p]}
        for x in ("sys", "raw"):
            if [a for a, _ in tabs[x]] != ["sys%d.ctm" % k for k in range(len(systems))]:
                raise Fail("tables of %s" % [a for a, _ in tabs[x]])
            for (title, rows), cnt in zip(tabs[x], cnts):
                try:
                    check(rows, cnt, x == "sys", st, known)
                except Fail as f:
                    raise Fail("%s report of %s: %s" % (x, title, f.msg))
        if known:
            return Fail("the NCE takes the confidence of wrong words as the chance that they are wrong", key=sorted(known)[0], files=files, cmd=" ".join(cmd)).pack()
        return None
    except ValueError as e:
        return Fail("report: %s" % e, files=files, cmd=" ".join(cmd)).pack()
    except Fail as f:
        return Fail(f.msg, files=files, cmd=" ".join(cmd)).pack()
    finally:
        shutil.rmtree(d)


def work(arg, st, fails, samples):
    for systems, confs, where in arg:
        f = one(systems, confs, st, where=where)
        if f:
            fails.append(f)
    if not samples:
        samples.append({"segments": [list(x) for x in arg[0][0][0]]})


CF = [(0.9, 0.25, 0.6), (0.5, 0.125), (0.01, 0.99, 0.5, 0.7)]


def body(ctx):
    global A
    A = ctx[0]
    J = []
    P3 = profiles(4 if T else 3)
    P2 = profiles(2)
    P1 = profiles(1)
    for k, p in enumerate(P3):                                   # one speaker, one segment
        J.append(([[("a", p)]], CF[k % 3], "stdout"))
    for k, (p, q) in enumerate(itertools.product(P2, repeat=2)):  # two segments of one speaker, of two
        J.append(([[("a", p), ("a", q)]], CF[k % 3], "stdout"))
        J.append(([[("a", p), ("bb", q)]], CF[k % 3], "stdout"))
    for k, (p, q, r) in enumerate(itertools.product(P1, repeat=3)):
        for s in (("a", "bb", "ccc"), ("bb", "a", "bb"), ("a", "a", "c")):
            J.append(([list(zip(s, (p, q, r)))], CF[k % 3], "stdout"))
    # two and three systems on the same references
    same = {}
    for p in profiles(3 if T else 2):
        if "I" not in p:
            same.setdefault(tuple(o == "O" for o in p), []).append(p)
    for v in same.values():
        for x, y in itertools.product(v, repeat=2):
            J.append(([[("a", x), ("b", y)], [("a", y), ("b", x)]], CF[len(x) % 3], "stdout"))
            J.append(([[("a", x), ("b", y)], [("a", y), ("b", y)], [("a", x), ("b", x)]], CF[len(x) % 3], "stdout"))
    # large counts: columns grow
    N = [1, 9, 10, 11, 99, 100, 101, 999, 1000, 1001, 2000] + ([9999, 10000, 10001, 12000] if T else [])
    for n in N:
        for pre in ("C", "D", "S", ""):
            J.append(([[("a", pre + "I" * n if pre != "D" else "DC" + "I" * n)]], CF[0], "stdout"))
            J.append(([[("a", pre + "I" * n if pre != "D" else "DC" + "I" * n), ("b", "C" * 7), ("c", "")]], CF[0], "stdout"))
        if n <= (2000 if T else 1001):
            J.append(([[("a", "C" * n), ("bb", "S" * n)]], CF[0], "stdout"))
    for n in (1, 2, 3, 7, 30, 100) + ((300, 1000) if T else ()):
        J.append(([[("spk%d" % k, "CCS" if k % 3 else "CDC") for k in range(n)]], CF[1], "stdout"))
        J.append(([[("s" * (1 + k), "CCS") for k in range(min(n, 100))]], CF[1], "stdout"))
        J.append(([[("same", "CCS") for k in range(n)]], CF[1], "stdout"))
        J.append(([[("s%d" % k, "CCS") for k in range(n)]], CF[1], "stdout"))      # all alike: no deviation
    J = [j for j in J if all(any(set(p) & set("CSI") for _, p in s) for s in j[0])]       # asclite refuses a ctm file without words
    J += [(s, c, w) for s, c, _ in J[:: (3 if T else 17)] for w in ("dir", "missing")]
    C.bounds["tables"] = "%d: profiles of up to %d words, pairs up to 2, triples up to 1; counts up to %d; up to %d speakers" % (len(J), 4 if T else 3, max(N), 1000 if T else 100)
    J.sort(key=lambda j: -max(len(p) for s in j[0] for _, p in s))
    C.parallel(work, [[j] for j in J[:40]] + list(chunks(J[40:], 25)))
    A = ctx[1]
    C.parallel(work, chunks([j for j in J if max(len(p) for s in j[0] for _, p in s) < 150][::40], 8))
    C.finish()


if __name__ == "__main__":
    mc.main(lambda: (build.asclite(), build.asclite(san=True)), body)
