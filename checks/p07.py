#!/usr/bin/env python3
"""P07: alignments written by sclite carry the whole scoring result."""
import itertools, os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, mc, sgml
from mc import Check, Fail, chunks, newdir

C = Check("P07", "exhaustive exploration of alignments on the real sclite: each is written, read back and reported again, and every report compared; the written fields are compared with the inputs",
          "every case is one scoring run (all reports), its -p output, and a second and third run fed from the SGML",
          ["times are written with 3 decimals and confidences with 6: values that are not exact in that form are outside the space"])
T = C.thorough
REP = ["sum", "rsum", "pralign", "prf", "dtl", "snt", "spk", "sgml", "nl.sgml", "lur", "wws"]


def tree(d, roots):
    """reports by (system number, kind); roots: the file name stem of each system"""
    out = {}
    for n in sorted(os.listdir(d)):
        k = [i for i, r in enumerate(roots) if n.startswith(r + ".")]
        if len(k) != 1:
            raise Fail("unexpected report file %r" % n)
        out["%d.%s" % (k[0], n[len(roots[k[0]]) + 1:])] = open(os.path.join(d, n), "rb").read()
    return out


def same(a, b, what):
    if set(a) != set(b):
        raise Fail("%s: reports written: %s against %s" % (what, sorted(a), sorted(b)))
    for n in a:
        if a[n] != b[n]:
            x, y = a[n].split(b"\n"), b[n].split(b"\n")
            for i in range(max(len(x), len(y))):
                p, q = (x + [b"(end)"])[min(i, len(x))], (y + [b"(end)"])[min(i, len(y))]
                if p != q:
                    raise Fail("%s: report %s differs at line %d: %r became %r" % (what, n, i + 1, p[:300], q[:300]))


def nodate(t):
    """creation date and the start of the sequence numbers may differ between two scoring runs"""
    import re
    return {n: re.sub(rb' sequence="\d+"', b"", re.sub(rb'(creation_date=|[Cc]reation [Dd]ate:? ?)("[^"]*"|[^\n]*)', rb'\1X', v)) for n, v in t.items()}


def go(cmd, d, stdin=None):
    rc, o, e = mc.run(cmd, cwd=d, stdin=stdin)
    if rc != 0:
        raise Fail("%s ended with %s: %r" % (" ".join(cmd[1:4]), rc, (o + e)[-300:]))
    return o


def run_case(case, S):
    """case: files, hyps=[(file, fmt, title)], opts, popts (also given to the reading runs), expect"""
    d = newdir()
    try:
        for n, t in case["files"].items():
            with open(os.path.join(d, n), "wb") as f:
                f.write(mc.enc(t))
        for o in ("o1", "o2", "o3"):
            os.mkdir(os.path.join(d, o))
        hy = []
        for f, fmt, title in case["hyps"]:
            hy += ["-h", f, fmt, title]
        rep = [r for r in REP if r != "wws" or "-w" in case.get("popts", [])]
        popts = case.get("popts", [])
        base = [S + "/sclite"] + case["opts"] + popts + hy + ["-f", "0"]
        piped = go(base + ["-o"] + rep + ["-O", "o1", "-p"], d)
        fn = [f for f, _, _ in case["hyps"]]
        ti = [t for _, _, t in case["hyps"]]
        r1 = tree(d + "/o1", fn)
        if any("%d.sgml" % i not in r1 for i in range(len(fn))):
            raise Fail("no SGML report was written")
        want = b"".join(r1["%d.sgml" % i] for i in range(len(fn)))
        if piped != want:
            same({"sgml": want}, {"sgml": piped}, "-p output against the SGML report")
        if case.get("expect"):
            case_expect(case, piped)
        o2 = go([S + "/sclite", "-P"] + popts + ["-o"] + rep + ["-O", "o2", "-f", "0", "-p"], d, stdin=piped)
        r2 = tree(d + "/o2", ti)
        same(r1, r2, "reports after reading the alignments back")
        if o2 != piped:
            same({"sgml": piped}, {"sgml": o2}, "-P -p")
        if case.get("mix"):
            # the first systems come from the pipe, the others are scored in the same run
            k = case["mix"]
            first = b"".join(r1["%d.sgml" % i] for i in range(k))
            hy2 = []
            for f, fmt, title in case["hyps"][k:]:
                hy2 += ["-h", f, fmt, title]
            o3 = go([S + "/sclite", "-P"] + case["opts"] + popts + hy2 + ["-o"] + rep + ["-O", "o3", "-f", "0", "-p"], d, stdin=first)
            same(nodate(r1), nodate(tree(d + "/o3", ti[:k] + fn[k:])), "-P with %d systems together with -h for the rest" % k)
            same(nodate({"p": piped}), nodate({"p": o3}), "-P together with -h and -p")
        return piped.count(b"<PATH"), piped.count(b'","') + piped.count(b',,')
    except Fail as f:
        f.files, f.cmd = case["files"], "sclite %s ... -p | sclite -P" % " ".join(case["opts"])
        if case.get("key"):
            f.key = case["key"]
        raise
    finally:
        shutil.rmtree(d, ignore_errors=True)


def case_expect(case, piped):
    """the written fields are those of the inputs"""
    sy = sgml.parse(piped)
    if len(sy) != len(case["expect"]):
        raise Fail("%d systems written, expected %d" % (len(sy), len(case["expect"])))
    for s, exp in zip(sy, case["expect"]):
        if "labels" in exp:
            got = [(t, a["id"], a["title"], a["desc"]) for t, a in s.labels]
            if got != exp["labels"]:
                raise Fail("labels and categories written %r, expected %r" % (got, exp["labels"]))
        if "paths" in exp:
            if len(s.paths) != len(exp["paths"]):
                raise Fail("%d utterances written, expected %d" % (len(s.paths), len(exp["paths"])))
            for p, (attrs, words) in zip(s.paths, exp["paths"]):
                for k, v in attrs.items():
                    if p.attrs.get(k) != v:
                        raise Fail("%s written as %r, expected %r" % (k, p.attrs.get(k), v))
                got = [w[2:] for w in p.words if w[2] is not None]
                if got != words:
                    raise Fail("hypothesis words written %r, expected %r" % (got, words))


# ---------------------------------------------------------------- families
SEP = [":", ",", ";", "\\", "<", ">", "=", "&", "+", "'", "a", "%", "#", "?", "*", "|", "~", "!", "$", "^", "_", "-", "[", "]", "."]


def word_ok(w):
    return w not in ("", "*", "<", ">") and not w.startswith(";;") and w.strip("\\;*") != "" and not w.startswith(";")


def words():
    """every word of up to 2 (3) separator characters, as correct, substituted, deleted and inserted word"""
    out = []
    for n in (1, 2, 3) if T else (1, 2):
        for t in itertools.product(SEP if n < 3 else SEP[:11], repeat=n):
            w = "".join(t)
            if word_ok(w):
                out.append(w)
    for w in SEP:
        for v in ("a%sb" % w, "%sab%s" % (w, w), "a%sb%sc%sd" % (w, w, w)):
            if word_ok(v):
                out.append(v)
    return out


def trn_case(ws, opts=(), **kw):
    r, h = [], []
    for i, w in enumerate(ws):
        for j, (a, b) in enumerate([(w, w), (w, "x"), ("x " + w, "x"), ("x", "x " + w), ("x", w), (w + " x " + w, "x " + w)]):
            r.append("%s (s%d_%d)\n" % (a, j, i))
            h.append("%s (s%d_%d)\n" % (b, j, i))
    return dict(files={"r": "".join(r), "h": "".join(h)}, hyps=[("h", "trn", "sys")],
                opts=["-r", "r", "trn", "-i", "rm"] + list(opts), **kw)


def gen_words():
    for b in chunks(words(), 4):
        yield trn_case(b)
    # tags: word;tag1;tag2
    tags = ["a;b;c", "a;;c", "a;b;", "a;b", "a\\;b;c;d", "a;b\\;c;d", "a;b;c\\;d"]
    for t in tags:
        yield trn_case([t])
    for t in ('a"b', '"a', '"'):
        yield trn_case([t], key="word with a double quote")
    for o in (["-s"], ["-D"], ["-F"], ["-c"], ["-c", "NOASCII"], ["-s", "-F", "-D"], ["-d"]):
        yield trn_case(["A", "(b)", "-c", "dd-", "(e)"], o)
    for e in ("utf-8", "gb", "euc"):
        ws = {"utf-8": ["é", "ÀB", "日本", "a日;b"]}.get(e, ["\u00e9\u00e9".encode("latin1").decode("latin1")])
        if e == "utf-8":
            yield trn_case(ws, popts=["-e", e])
            yield trn_case(ws, ["-c"], popts=["-e", e])
            yield trn_case(ws, ["-s"], popts=["-e", e])
        else:
            b = [b"\xb0\xa1".decode("utf-8", "surrogateescape"), b"\xb0\xa1\xb0\xa2".decode("utf-8", "surrogateescape"),
                 b"\xb0\xa1a".decode("utf-8", "surrogateescape")]
            yield trn_case(b, popts=["-e", e])
            yield trn_case(b, ["-c"], popts=["-e", e])
    # word and line lengths crossing the buffers of the reader
    for n in list(range(90, 112)) + list(range(140, 160)) + [195, 199, 200, 201, 220, 330, 500, 998, 1000, 2000]:
        yield trn_case([("abcdefghij" * 200)[:n]])
    for n in list(range(1, 60)) + [100, 200, 400]:
        yield trn_case([" ".join("a" * (1 + k % 7) for k in range(n))])


def gen_timed():
    times = [0, 0.001, 0.999, 1.5, 10, 99.999, 1234.567]
    confs = [0, 0.015625, 0.25, 0.5, 0.984375, 1, 0.125]    # exact in single precision and in 6 decimals
    shapes = [(r, h) for r in ("a", "a b", "") for h in ("a", "x", "a x", "x a b")]
    for t, c, (r, h) in itertools.product(times, confs, shapes):
        if not T and (times.index(t) + confs.index(c)) % 3:
            continue
        hw = h.split()
        ct, exp = [], []
        for k, w in enumerate(hw):
            b, du, cf = t + 0.25 * k, 0.125, confs[(confs.index(c) + k) % len(confs)]
            ct.append("f A %.3f %.3f %s %.6f\n" % (b, du, w, cf))
            exp.append((w, "%.3f+%.3f" % (round(b + 1e-9, 3), b + du), "%.6f" % cf))
        for lab in ("", "<O,F0> ", "<O> "):
            if not T and lab and confs.index(c) % 2:
                continue
            head = ';; CATEGORY "0" "c:a=t" "the, <desc>"\n;; LABEL "O" "All" "every: thing"\n;; LABEL "F0" "Base" ""\n' if lab else ""
            stm = head + "f A spk_a %.3f %.3f %s%s\n" % (t, t + 5, lab, r) + "f A spk_b %.3f %.3f %sz\n" % (t + 5, t + 6, lab)
            at = {"file": "f", "channel": "a", "R_T1": "%.3f" % t, "R_T2": "%.3f" % (t + 5), "sequence": "0", "word_aux": "h_t1+t2,h_conf"}
            if lab:
                at["labels"] = lab.strip().lower()
            ex = {"paths": [(at, exp), ({"R_T1": "%.3f" % (t + 5)}, [])]}
            if lab:
                ex["labels"] = [("LABEL", "O", "All", "every: thing"), ("LABEL", "F0", "Base", ""), ("CATEGORY", "0", "c:a=t", "the, <desc>")]
            yield dict(files={"r": stm, "h": "".join(ct)}, hyps=[("h", "ctm", "sys")], opts=["-r", "r", "stm"], expect=[ex])
        if r:
            rc = "".join("f A %.3f 0.125 %s %.6f\n" % (t + 0.25 * k, w, confs[(confs.index(c) + 2 + k) % len(confs)]) for k, w in enumerate(r.split()))
            for o in ([], ["-T"]):
                yield dict(files={"r": rc, "h": "".join(ct)}, hyps=[("h", "ctm", "sys")], opts=["-r", "r", "ctm"] + o)


def gen_weights():
    ww = ';; \'Headings\' \'Word Spelling\' \'w\'\n;; Default missing weight \'0.5\'\na 1.0\nb 0.25\nc 2.0\nx 0.125\n'
    for r in ("a", "a b c", "b zz", "c c"):
        for h in ("a", "x", "a x c", "zz b", "x x x"):
            for o in ([], ["-s"]):
                yield dict(files={"r": r + " (s_1)\n" + "a b (t_1)\n", "h": h + " (s_1)\nb (t_1)\n", "w": ww}, hyps=[("h", "trn", "sys")],
                           opts=["-r", "r", "trn", "-i", "rm"] + o, popts=["-w", "w"])


def gen_multi():
    shapes = ["a", "b", "a b", "c a"]
    for n in (1, 2, 3) + ((4,) if T else ()):
        for hs in itertools.product(shapes, repeat=n):
            files = {"r": "a b (s_1)\nc (t_1)\n"}
            for k, h in enumerate(hs):
                files["h%d" % k] = "%s (s_1)\n%s (t_1)\n" % (h, h)
            for mix in range(0, n):
                yield dict(files=files, hyps=[("h%d" % k, "trn", "sys%d" % k) for k in range(n)], opts=["-r", "r", "trn", "-i", "rm"], mix=mix)
    for n in range(4, 41, 1 if T else 6):
        files = {"r": "a b (s_1)\nc (t_1)\n"}
        for k in range(n):
            files["h%d" % k] = "%s (s_1)\nc (t_1)\n" % shapes[k % 4]
        yield dict(files=files, hyps=[("h%d" % k, "trn", "sys%d" % k) for k in range(n)], opts=["-r", "r", "trn", "-i", "rm"], mix=n // 2)
    # titles, speaker and utterance ids of every length and with separators
    for i, t in enumerate(["a b", "a=b", "t:u,v", "x<y>", "é"] + ["t" * k for k in (30, 99, 100, 101, 150, 200)]):
        yield dict(files={"r": "a b (s_1)\n", "h": "a c (s_1)\n"}, hyps=[("h", "trn", t)], opts=["-r", "r", "trn", "-i", "rm"])
    for i in ["s:x", "s,y", "s=z", "s<t>", "s;u"] + ["s" * k for k in range(20, 120, 3 if not T else 1)]:
        yield dict(files={"r": "a b (%s_1)\nc (%s_2)\n" % (i, i), "h": "a c (%s_1)\nc (%s_2)\n" % (i, i)}, hyps=[("h", "trn", "sys")], opts=["-r", "r", "trn", "-i", "rm"])
    # number of speakers, utterances and labels
    for n in list(range(1, 30)) + [50, 51, 99, 100, 101, 120]:
        r = "".join("a b%d (s%d_1)\nc (s%d_2)\n" % (k, k, k) for k in range(n))
        h = "".join("a b%d (s%d_1)\nc d (s%d_2)\n" % (k // 2, k, k) for k in range(n))
        yield dict(files={"r": r, "h": h}, hyps=[("h", "trn", "sys")], opts=["-r", "r", "trn", "-i", "rm"])
        r = "".join("a b%d (s_%d)\n" % (k, k) for k in range(n * 4))
        yield dict(files={"r": r, "h": r.replace("b1", "x")}, hyps=[("h", "trn", "sys")], opts=["-r", "r", "trn", "-i", "rm"])
    for n in range(1, 25):
        st = ';; CATEGORY "0" "" ""\n' + "".join(';; LABEL "L%d" "T%d" "D %d"\n' % (k, k, k) for k in range(n))
        st += "".join("f 1 sp%d %d %d %s a b\n" % (k % 2, k, k + 1, "<L0,L%d>" % k if k else "<L0>") for k in range(n))
        yield dict(files={"r": st, "h": "".join("f 1 %d.2 .1 a\n" % k for k in range(n))}, hyps=[("h", "ctm", "sys")], opts=["-r", "r", "stm"])


def work(batch, st, fails, samples):
    for case in batch:
        try:
            n, w = run_case(case, work.S)
            st.add(states=n, transitions=w, traces=3)
        except Fail as f:
            fails.append(f.pack())
            if len(fails) > 3:
                return


def body(S):
    work.S = S
    C.bounds["words"] = "all words of up to %d characters over %d separator characters in every alignment role; tags; encodings; lengths across the reader's buffers" % (3 if T else 2, len(SEP))
    C.bounds["timed"] = "7 times x 7 confidences x 12 shapes x label sets, stm and ctm references%s" % ("" if T else " (every third pair)")
    C.bounds["systems"] = "1-%d systems over 4 hypotheses each, every split between pipe and command line; up to 40 systems" % (4 if T else 3)
    cases = list(itertools.chain(gen_words(), gen_timed(), gen_weights(), gen_multi()))
    C.stats.add(cases=len(cases))
    C.parallel(work, chunks(cases, 8))
    C.finish()


if __name__ == "__main__":
    mc.main(build.sclite, body)
