#!/usr/bin/env python3
"""P26: each hypothesis file is scored as if it were alone, and its reports go where they are said to go."""
import itertools, os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, mc
from mc import Check, Fail, chunks, newdir

C = Check("P26", "exhaustive exploration of all sequences of up to 3 (thorough 4) hypothesis files drawn from a pool, in every input format and option set, on the real sclite; every report of every file compared byte for byte with the report of a run with that file alone, and the set of files written with the naming rules",
          "every (reference, sequence of hypotheses, options) is one trace",
          ["alignment sequence numbers and creation dates are left out of the comparison", "no two hypotheses of a run have the same name"])
T = C.thorough
ASAN = {"ASAN_OPTIONS": "detect_leaks=0"}
REP = ["sum", "rsum", "pralign", "prf", "dtl", "snt", "spk", "sgml"]
EXT = ["sys", "raw", "pra", "prf", "dtl", "sgml"]


def clean(b):
    b = re.sub(rb'sequence="-?\d+"', b"", b)
    b = re.sub(rb'[Cc]reation[ _]date[=:] ?"[^"]*"', b"", b)
    return re.sub(rb"(Sequence|sequence|seq)[: ]+-?\d+", b"", b)


UTT = [("a b c", "x", "1"), ("d e", "x", "2"), ("f (g) h-", "yy", "1"), ("{ p / q r } s", "yy", "2")]
HYP = {  # what each hypothesis says for the four utterances
    "perfect": ["a b c", "d e", "f g h", "p s"],
    "subs": ["a x c", "d e", "z g h", "q r s"],
    "empty": ["", "", "", ""],
    "long": ["a b c " + "w " * 150, "d e", "f h h", "p s s"],
    "case": ["A B C", "D e", "F", "P S"],
    "mixed": ["b c", "d e e", "g", "q s t"],
}


def trn_ref():
    return "".join("%s (%s_%s)\n" % u for u in UTT)


def trn_hyp(h, rev=False):
    l = ["%s (%s_%s)\n" % (w, u[1], u[2]) for w, u in zip(HYP[h], UTT)]
    return "".join(reversed(l) if rev else l)


def stm_ref():
    return ';; CATEGORY "0" "" ""\n;; LABEL "O" "Overall" "all"\n' + "".join("f 1 %s %d %d <O> %s\n" % (u[1], 10 * k, 10 * k + 10, u[0]) for k, u in enumerate(UTT))


def ctm(h):
    o = []
    for k, w in enumerate(HYP[h]):
        ws = w.split()
        for i, x in enumerate(ws):
            o.append("f 1 %.3f 0.02 %s 0.%d\n" % (10 * k + 0.2 + 0.05 * i, x, 1 + (i * 3 + k) % 8))
    return "".join(o) or ";; empty\n"


def ctm_ref():
    o = []
    for k, u in enumerate(UTT):
        for i, x in enumerate(re.sub(r"[{}/()]", " ", u[0]).split()):
            o.append("f 1 %.3f 0.02 %s\n" % (10 * k + 0.2 + 0.05 * i, x))
    return "".join(o)


WWL = ";; 'Headings' 'Word Spelling' 'One'\n" + "".join('"%s" "%g"\n' % (w, 0.5 + k) for k, w in enumerate("abcdefgx"))
FMT = {"trn": (trn_ref, trn_hyp, "trn", "trn", ["-i", "spu_id"]), "stm": (stm_ref, ctm, "stm", "ctm", []), "ctm": (ctm_ref, ctm, "ctm", "ctm", []), "txt": (stm_ref, lambda h: "\n".join(HYP[h]) + "\n", "stm", "txt", [])}
OPTS = {"trn": [[], ["-s"], ["-c"], ["-D", "-F"], ["-d"], ["-c", "NOASCII", "-e", "utf-8"], ["-w", "wwl"]],
        "stm": [[], ["-s"], ["-D", "-F"], ["-m", "ref"], ["-m", "hyp"], ["-m", "ref", "hyp"], ["-w", "wwl"], ["-d"], ["-C", "hist", "bhist"], ["-L2"]],
        "ctm": [[], ["-T"], ["-s"]], "txt": [[]]}
OPTS["stm"].pop()
SINGLE = {}


def tree(d):
    o = {}
    for p, _, fs in os.walk(d):
        for f in fs:
            q = os.path.join(p, f)
            o[os.path.relpath(q, d)] = clean(open(q, "rb").read())
    return o


def score(fmt, hyps, opts, d, extra=(), reps=REP, where=lambda h: h):
    """Runs sclite on the hypotheses [(name, kind)], -> (rc, stdout, files written)"""
    rf, hf, rfmt, hfmt, fo = FMT[fmt]
    files = {"ref": rf(), "wwl": WWL}
    for name, kind in hyps:
        files[where(name)] = hf(kind)
    for n, t in files.items():
        os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
        with open(os.path.join(d, n), "w") as f:
            f.write(t)
    cmd = [S + "/sclite", "-r", "ref", rfmt] + fo
    for name, kind in hyps:
        cmd += ["-h", where(name), hfmt]
    cmd += opts + ["-f", "0"] + (["-o"] + reps + (["wws"] if "-w" in opts else []) if reps else []) + list(extra)
    rc, o, e = mc.run(cmd, cwd=d, env=ASAN, timeout=60)
    t = tree(d)
    for n in files:
        if n not in t or t[n] != clean(files[n].encode()):
            raise Fail("the input file %s was changed" % n, files=files, cmd=" ".join(cmd))
        del t[n]
    return rc, clean(o), t, files, " ".join(cmd)


def seqs(arg, st, fails, samples):
    fmt, opts, orders = arg
    d = newdir()
    single = {}
    # alignments with a ctm reference, and by diff, refuse hypotheses with no words
    refused = fmt == "ctm" or (fmt == "stm" and "-d" in opts)
    try:
        for k in HYP:
            if k == "empty" and refused:
                continue
            shutil.rmtree(d)
            os.makedirs(d)
            rc, o, t, files, cmd = score(fmt, [(k + ".h", k)], opts, d)
            if rc:
                raise Fail("sclite ended with %s: %r" % (rc, o[-300:]), files=files, cmd=cmd)
            single[k] = t
            need = [k + ".h." + x for x in EXT]
            if any(x not in t for x in need) or any(not x.startswith(k + ".h.") for x in t):
                raise Fail("the reports written are %s" % sorted(t), files=files, cmd=cmd)
            st.add(traces=1, states=1, transitions=1)
        for order in orders:
            if "empty" in order and refused:
                continue
            shutil.rmtree(d)
            os.makedirs(d)
            rc, o, t, files, cmd = score(fmt, [(k + ".h", k) for k in order], opts, d)
            if rc:
                raise Fail("sclite ended with %s on several hypotheses: %r" % (rc, o[-300:]), files=files, cmd=cmd)
            want = {}
            for k in order:
                want.update(single[k])
            cmp(want, t, files, cmd)
            st.add(traces=1, states=len(order), transitions=len(order))
    except Fail as f:
        fails.append(f.pack())
    shutil.rmtree(d)
    if not samples:
        samples.append({"format": fmt, "options": opts, "sequences": len(orders)})


def cmp(want, got, files, cmd):
    if sorted(want) != sorted(got):
        raise Fail("reports missing %s, unexpected %s" % (sorted(set(want) - set(got))[:4], sorted(set(got) - set(want))[:4]), files=files, cmd=cmd)
    for n in want:
        if want[n] != got[n]:
            a, b = want[n].split(b"\n"), got[n].split(b"\n")
            k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            raise Fail("report %s differs from that of a run with the file alone, at line %d: %r, expected %r" % (n, k + 1, (b + [b"(end)"])[k][:120], (a + [b"(end)"])[k][:120]), files=files, cmd=cmd)


def rename(t, old, new):
    return {k.replace(old, new, 1): v.replace(old.encode(), new.encode()) for k, v in t.items()}


def places(arg, st, fails, samples):
    """Where the reports go."""
    d = newdir()
    for what, val in arg:
        try:
            shutil.rmtree(d)
            os.makedirs(d)
            hy = [("one.h", "subs"), ("two.h", "mixed")]
            rc, o, base, files, cmd = score("trn", hy, [], d)
            strip = lambda t: {k: re.sub(rb"(/|[\w.]*[\w/.]*/)?[\w.]*\b(one|two)\.h\b", rb"\2.h", re.sub(rb"[\w./]*/", b"", v)) for k, v in t.items()}
            shutil.rmtree(d)
            os.makedirs(d)
            pre = lambda p: {p + k: v for k, v in base.items()}
            if what == "dir":          # reports go next to the hypothesis
                rc, o, t, files, cmd = score("trn", hy, [], d, where=lambda n: val + "/" + n)
                want = set(pre(val + "/"))
            elif what == "dirs":       # each to its own directory
                rc, o, t, files, cmd = score("trn", hy, [], d, where=lambda n: n[:3] + val + "/" + n)
                want = set(k[:3] + val + "/" + k for k in base)
            elif what == "mixed dirs":  # some of them the current one, in every order
                order, at = val
                rc, o, t, files, cmd = score("trn", [hy[i] for i in order], [], d, where=lambda n: at[n[:3] == "two"] + n)
                want = set(at[k[:3] == "two"] + k for k in base)
            elif what == "-O":
                os.makedirs(d + "/" + val)
                rc, o, t, files, cmd = score("trn", hy, [], d, extra=["-O", val])
                want = set(pre(val + "/"))
            elif what == "-O dir":
                os.makedirs(d + "/" + val)
                rc, o, t, files, cmd = score("trn", hy, [], d, extra=["-O", val], where=lambda n: "in/" + n)
                want = set(pre(val + "/"))
            elif what == "-n one":
                rc, o, t, files, cmd = score("trn", hy[:1], [], d, extra=["-n", val])
                want = set(k.replace("one.h", val, 1) for k in base if k.startswith("one.h"))
            elif what == "-n":
                rc, o, t, files, cmd = score("trn", hy, [], d, extra=["-n", val])
                want = set(val + "." + k for k in base)
            elif what == "-n -O":
                os.makedirs(d + "/out")
                rc, o, t, files, cmd = score("trn", hy, [], d, extra=["-O", "out", "-n", val], where=lambda n: "in/" + n)
                want = set("out/" + val + "." + k for k in base)
            elif what == "stdout":     # nothing but standard output is written, one report after the other
                rc, o, t, files, cmd = score("trn", hy, [], d, reps=val + ["stdout"])
                want = set()
                k = [o.find(b"one.h"), o.find(b"two.h")]
                if min(k) < 0 or k[0] > k[1]:
                    raise Fail("the reports of the two hypotheses are not both on standard output, in order", files=files, cmd=cmd)
            elif what == "reports":    # exactly the reports asked for
                rc, o, t, files, cmd = score("trn", hy, [], d, reps=val)
                ext = {"sum": "sys", "rsum": "raw", "pralign": "pra", "prf": "prf", "dtl": "dtl", "sgml": "sgml", "snt": "snt.", "spk": "spk."}
                want = set(k for k in base if any(k[6:].startswith(ext[r]) for r in val))
                bad = [k for k in t if k in base and base[k] != t[k]]
                if bad:
                    raise Fail("report %s depends on which other reports are asked for" % bad[0], files=files, cmd=cmd)
            elif what == "all":
                rc, o, t, files, cmd = score("trn", hy, [], d, reps=["all"])
                want = set(k for k in base if k[6:] in ("sys", "raw", "pra"))
            if rc:
                raise Fail("sclite ended with %s: %r" % (rc, o[-200:]), files=files, cmd=cmd)
            if set(t) != want:
                raise Fail("%s %s: reports missing %s, unexpected %s" % (what, str(val)[:40], sorted(want - set(t))[:3], sorted(set(t) - want)[:3]), files=files, cmd=cmd)
            st.add(traces=1, states=1, transitions=2)
            # the numbers do not depend on the place
            nums = lambda x: sorted(re.findall(rb"\d+\.\d|\bSum\S*.*\d", x))
            for k in t:
                b = [x for x in base if x[:3] in k and k.endswith(x[5:])] or [x for x in base if k.endswith(x[5:])]
                if k.endswith((".sys", ".raw", ".pra")) and what != "-n one":
                    f = re.compile(rb"[-\w./]*\b(one|two)\.h|[-=]{3,}|\s+|[+,`'|]")
                    if f.sub(b"", t[k]) not in [f.sub(b"", base[x]) for x in b]:
                        raise Fail("%s %s: the contents of %s depend on where it is written" % (what, str(val)[:40], k[-20:]), files=files, cmd=cmd)
        except Fail as f:
            fails.append(f.pack())
    shutil.rmtree(d)


def piped(arg, st, fails, samples):
    """-P: reports named after the titles of the alignments"""
    d = newdir()
    for title, opts, want in arg:
        shutil.rmtree(d)
        os.makedirs(d + "/out")
        os.makedirs(os.path.join(d, os.path.dirname(title)), exist_ok=True)
        try:
            sg = '<SYSTEM title="%s" ref_fname="r" hyp_fname="h" creation_date="x" format="2.4" frag_corr="FALSE" opt_del="FALSE" weight_ali="FALSE" weight_filename="">\n<SPEAKER id="s">\n<PATH id="(s_1)" word_cnt="2" sequence="0">\nC,"a","a":S,"b","c"\n</PATH>\n</SPEAKER>\n</SYSTEM>\n' % title
            rc, o, e = mc.run([S + "/sclite", "-P", "-o", "sum", "rsum", "pralign", "-f", "0"] + opts, cwd=d, stdin=sg, env=ASAN)
            got = set(tree(d))
            w = set(want + x for x in (".sys", ".raw", ".pra"))
            if rc or got != w:
                raise Fail("-P with a title of %d characters: status %s, reports %s, expected %s: %r" % (len(title), rc, [x[-40:] for x in sorted(got - w)][:3], [x[-40:] for x in sorted(w - got)][:3], e[-300:]), files={"sgml": sg}, cmd="sclite -P -o sum rsum pralign -f 0 %s < sgml" % " ".join(opts))
            st.add(traces=1, states=1, transitions=1)
        except Fail as f:
            fails.append(f.pack())
    shutil.rmtree(d)


def path_of(n):
    """a relative directory of n characters, in components of at most 60"""
    o = ""
    while len(o) < n:
        k = min(60, n - len(o))
        o += "d" * k
        if len(o) < n:
            o = o[:-1] + "/"
    return o.rstrip("/") + "d" * (len(o) - len(o.rstrip("/")))


def body(ctx):
    global S
    S = ctx[0]
    K = list(HYP)
    orders = [p for n in (2, 3) for p in itertools.permutations(K, n)] + ([p for p in itertools.permutations(K, 4)] if T else [])
    args = [(f, o, part) for f in FMT for o in OPTS[f] for part in chunks(orders if T or (f, tuple(o)) in (("trn", ()), ("stm", ()), ("ctm", ())) else orders[:30] + orders[30::9], 40)]
    C.bounds["sequences"] = "%d sequences of up to %d of %d hypotheses; %d format and option sets" % (len(orders), 4 if T else 3, len(K), sum(len(v) for v in OPTS.values()))
    C.parallel(seqs, args)
    L = list(range(1, 130)) + list(range(130, 700, 30)) if T else [1, 2, 5] + list(range(10, 130, 7)) + [99, 100, 101, 149, 150, 151, 198, 199, 200, 201, 255, 256, 400]
    P = [(w, path_of(n)) for n in L for w in ("dir", "dirs", "-O", "-O dir")]
    P += [("mixed dirs", (o, a)) for o in ((0, 1), (1, 0)) for a in itertools.product(("", "p/", "p/q/", "longer_name/"), repeat=2)]
    P += [(w, "n" * n) for n in L if n <= 200 for w in ("-n one", "-n", "-n -O")]
    P += [("stdout", ["sum"]), ("stdout", ["rsum"]), ("stdout", ["pralign"]), ("stdout", ["sum", "pralign", "dtl"]), ("all", None)]
    P += [("reports", list(x)) for n in (1, 2) for x in itertools.combinations(REP, n)] + [("reports", [r for r in REP if r != x]) for x in REP]
    C.bounds["places"] = "%d: directories and names of %d lengths up to %d, subsets of reports" % (len(P), len(L), max(L))
    C.parallel(places, list(chunks(P, 6)))
    Q = []
    for n in L:
        t = "t" * min(n, 200)
        Q += [(t, [], t), (t, ["-O", "out"], "out/" + t), (path_of(n) + "/t", [], path_of(n) + "/t"), (path_of(n) + "/t", ["-O", "out"], "out/t"), (t, ["-n", "nn"], "nn"), (t, ["-O", "out", "-n", "nn"], "out/nn")]
    C.bounds["piped"] = "%d titles and options" % len(Q)
    C.parallel(piped, list(chunks(Q, 10)))
    S = ctx[1]
    C.parallel(piped, list(chunks(Q[::2], 10)))
    C.parallel(places, list(chunks([p for p in P if isinstance(p[1], str)][::5], 4)))
    C.parallel(seqs, [(f, o, orders[:2] + orders[31::40]) for f in FMT for o in OPTS[f][:1]])
    C.finish()


if __name__ == "__main__":
    mc.main(lambda: (build.sclite(), build.sclite(san=True)), body)
