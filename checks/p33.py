#!/usr/bin/env python3
"""P33: CallHome transcripts become the segments they describe (chfilt)."""
import itertools, os, sys
from fractions import Fraction as F
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, mc
from mc import Check, Fail, chunks

C = Check("P33", "exhaustive exploration of small arrangements of turns x options, and of sequences of marked words, on the real chfilt.pl against an interval model and a word-by-word model",
          "every arrangement of turns and every sequence of words is judged record by record by the reference model",
          ["turns are in the order of their begin times within a channel", "English; the other languages only through hubscr's recorded tests"])
T = C.thorough


def num(x):
    return "%.2f" % x


# ---- times -----------------------------------------------------------------------------------------------------------
class Rec:
    def __init__(self, chan, spk, b, e, text):
        self.chan, self.spk, self.b, self.e, self.text = chan, spk, b, e, text

    def key(self):
        return (self.chan, self.spk, round(float(self.b), 2), round(float(self.e), 2), self.text)


def model(turns, opt):
    """turns: (speaker, begin, end, text) -> records per channel"""
    B, E = F(str(opt.get("b", 0))), F(str(opt.get("e", 999999)))
    chan = {}
    for s, b, e, t in turns:
        if b < B - F(1, 2) or e > E + F(1, 2) or not (t or opt.get("k")):
            continue
        c = s[0]
        c = {"numbers": {"A": "1", "B": "2"}}.get(opt.get("C"), {}).get(c, c)
        chan.setdefault(c, []).append(Rec(c, "in_" + s, b, e, t))
    out = []
    for c, rs in chan.items():
        if opt.get("p") is not None:
            p = F(str(opt["p"]))
            last, who = B, None
            for r in rs:
                b, e = r.b, r.e
                if last < b:
                    sh = min((b - last) / 2, p)
                    if who:
                        who.e = last + sh
                    r.b = b - sh
                if who is None or e > last:
                    last, who = e, r
            if last < E:
                who.e = last + min((E - last) / 2, p)
        if opt.get("s") is not None:
            s = F(str(opt["s"]))
            new = []
            for r in rs:
                if new and new[-1].spk == r.spk and new[-1].e > r.b - s:
                    new[-1].e = max(new[-1].e, r.e)
                    new[-1].text = (new[-1].text + " " + r.text).strip()
                else:
                    new.append(r)
            rs = new
        if opt.get("E"):
            new = []
            for r in rs:
                if new and new[-1].e > r.b:
                    new[-1].e = max(new[-1].e, r.e)
                    new[-1].spk, new[-1].text = "excluded_region", "ignore_time_segment_in_scoring"
                else:
                    new.append(r)
            rs = new
        if opt.get("i"):
            new, last = [], B
            for r in rs:
                if last < r.b - F(1, 100):
                    new.append(Rec(c, "in_%s_inter_segment_gap" % c, last, r.b, ""))
                new.append(r)
                last = max(last, r.e)
            if last < E - F(1, 100):
                new.append(Rec(c, "in_%s_inter_segment_gap" % c, last, E, ""))
            rs = new
        out += rs
    return out


def command(opt):
    cmd = ["-l", "english"]
    for k, v in opt.items():
        if v is True:
            cmd.append("-" + k)
        elif v is not None and v is not False:
            cmd += ["-" + k, str(v)]
    return cmd


def dirs():
    """chfilt looks for ../hubscr/hubscr.pl"""
    d = mc.newdir()
    os.makedirs(d + "/x")
    os.symlink(build.REPO + "/src/hubscr", d + "/hubscr")
    return d + "/x"


def chfilt(text, opt):
    d = dirs()
    with open(d + "/in.txt", "w") as f:
        f.write(text)
    cmd = ["perl", build.REPO + "/src/chfilt/chfilt.pl"] + command(opt) + ["in.txt", "--", "-"]
    return mc.run(cmd, cwd=d, timeout=60)


def parse(out):
    recs, head = [], []
    for ln in out.decode("latin-1").split("\n"):
        if ln.startswith(";;"):
            head.append(ln)
        elif ln.strip():
            a = ln.split(None, 6)
            if len(a) < 6 or a[0] != "in" or a[5] != "<O>":
                return None, "record %r" % ln
            recs.append((a[1], a[2], round(float(a[3]), 2), round(float(a[4]), 2), " ".join(a[6].split()) if len(a) > 6 else ""))
    if sum(1 for h in head if h.startswith(";; LABEL \"O\"")) != 1:
        return None, "the label of the segments is not declared once"
    return recs, None


def transcript(turns, layout):
    out = []
    for i, (s, b, e, t) in enumerate(turns):
        txt = t or "{laugh}"
        if layout == 1 and i % 2:      # continued on the next line, remarks and blank lines between
            w = txt.split()
            out.append("%s %s %s: %s\n" % (num(b), num(e), s, " ".join(w[:1])) + "# remark\n\n" + (" ".join(w[1:]) + "\n" if len(w) > 1 else ""))
        else:
            out.append("%s %s %s: %s\n" % (num(b), num(e), s, txt))
    return "".join(out)


def times(arg, st, fails, samples):
    opt, layout, cases = arg
    # many arrangements in one file, far apart
    turns = []
    for i, c in enumerate(cases):
        turns += [(s, b + 40 * i + 10, e + 40 * i + 10, t) for s, b, e, t in c]
    text = transcript(turns, layout)
    rc, out, err = chfilt(text, opt)
    st.add(states=len(cases), traces=len(cases), transitions=len(turns))

    def bad(m):
        fails.append(Fail("chfilt %s: %s" % (" ".join(command(opt)), m), files={"in.txt": text}, cmd="chfilt.pl %s in.txt -- -" % " ".join(command(opt))).pack())
    if rc != 0:
        return bad("ended with %s: %r" % (rc, err[-300:]))
    got, m = parse(out)
    if m:
        return bad(m)
    want = [r.key() for r in model(turns, opt)]
    if sorted(got) != sorted(want):
        a, b = set(got) - set(want), set(want) - set(got)
        return bad("unexpected records %r, missing %r" % (sorted(a)[:3], sorted(b)[:3]))
    for c in {g[0] for g in got}:
        bs = [g[2] for g in got if g[0] == c]
        if bs != sorted(bs):
            return bad("records of channel %s are not in the order of their begin times" % c)
    if [g[0] for g in got] != sorted(g[0] for g in got):
        return bad("records are not in the order of the channels")
    if not samples:
        samples.append("chfilt %s: %r" % (" ".join(command(opt)), cases[0]))


def arrangements(n, spk, ts, texts):
    """every sequence of n turns over a grid of times, in the order of begin times"""
    iv = [(b, e) for b in ts for e in ts if b < e]
    for c in itertools.combinations_with_replacement(iv, n):
        for s in itertools.product(spk, repeat=n):
            yield [(s[i], F(b) / 10, F(e) / 10, texts[i % len(texts)]) for i, (b, e) in enumerate(c)]


OPTS = [{}, {"k": True}, {"p": 0.2}, {"p": 1}, {"s": 0}, {"s": 0.3}, {"s": 0.5}, {"E": True},
        {"i": True, "b": 0, "e": 99999}, {"C": "numbers", "i": True, "b": 0, "e": 99999},
        {"p": 0.2, "s": 0.3}, {"s": 0.3, "E": True}, {"E": True, "i": True, "b": 2, "e": 99999}, {"p": 0.4, "i": True, "b": 0, "e": 99999, "k": True},
        {"p": 0.2, "s": 0.3, "E": True, "i": True, "b": 0, "e": 99999}, {"s": 1, "p": 0.6, "E": True, "C": "numbers"}]


def tcases():
    for n in (1, 2, 3):
        ts = (0, 2, 5, 6, 10) if n < 3 else (0, 2, 3, 6, 9) if T else (0, 2, 4, 7)
        spk = ("A", "B", "A1") if n < 3 else ("A", "A1", "A2")[:2] if not T else ("A", "B", "A1")
        yield from arrangements(n, spk, ts, ["ONE TWO", "THREE", "FOUR"])
    yield from arrangements(2, ("A", "B"), (0, 2, 5), ["ONE", ""])
    yield from arrangements(3, ("A",), (0, 2, 4, 7, 9), ["ONE", "", "TWO"])
    if T:
        yield from arrangements(4, ("A",), (0, 2, 3, 5, 8), ["ONE", "TWO", "", "FOUR"])


def windows():
    """segments against the selected time range (half a second of tolerance)"""
    for b, e in itertools.combinations((0, 3, 7, 9, 11, 14, 16, 18, 30), 2):
        for B, E in itertools.combinations((0, 9, 16, 25), 2):
            turns = [("A", F(b), F(e), "W"), ("B", F(b) + F("0.4"), F(e) + F("0.4"), "X"), ("A", F(b) + F("0.6"), F(e) + F("0.6"), "Y")]
            for o in ({}, {"i": True}, {"p": 0.5}, {"p": 0.5, "i": True, "E": True}):
                yield turns, dict(o, b=B, e=E)


def window(arg, st, fails, samples):
    for turns, opt in arg:
        text = transcript(turns, 0)
        rc, out, err = chfilt(text, opt)
        st.add(states=1, traces=1, transitions=3)
        got, m = parse(out)
        want = sorted(r.key() for r in model(turns, opt))
        if rc or m or sorted(got) != want:
            fails.append(Fail("chfilt %s: ended with %s, records %r, expected %r" % (" ".join(command(opt)), rc, got or m, want), files={"in.txt": text}, cmd="chfilt.pl %s in.txt -- -" % " ".join(command(opt))).pack())


# ---- words -----------------------------------------------------------------------------------------------------------
# what is transcribed: what is scored, and what is scored with -d
W = [("word", "WORD", None), ("don't", "DON'T", None), ("Two", "TWO", None), ("O.K.", "OK", None), ("two-words", "TWO-WORDS", None),
     ("{laugh}", "", None), ("{loud breath}", "", None), ("[noise]", "", None), ("[[note this]]", "", None), ("--", "", None),
     ("((maybe))", "MAYBE", "(MAYBE)"), ("((maybe this))", "MAYBE THIS", "(MAYBE) (THIS)"), ("((x y z w))", "X Y Z W", "(X) (Y) (Z) (W)"), ("(( ))", "", None), ("(( pad ))", "PAD", "(PAD)"),
     ("%um", "%HESITATION", "(%HESITATION)"), ("uh", "%HESITATION", "(%HESITATION)"), ("%Huh", "%HESITATION", "(%HESITATION)"), ("((uh))", "%HESITATION", "(%HESITATION)"), ("uhhuh", "UHHUH", None), ("hummer", "HUMMER", None),
     ("//to him//", "TO HIM", None), ("#both#", "BOTH", None), ("stop.", "STOP", None), ("what?", "WHAT", None), ("wait,", "WAIT", None), ("no!", "NO", None), ("\"quote\"", "QUOTE", None),
     ("<spanish hola amigo>", "HOLA AMIGO", "(HOLA) (AMIGO)"), ("<spanish hola>", "HOLA", "(HOLA)"), ("<foreign language=\"Spanish\">si</foreign>", "SI", "(SI)"), ("<spanish ((hola)) x>", "HOLA X", "(HOLA) (X)"),
     ("<laugh>", "", None), ("<aside>", "", None), ("</aside>", "", None),
     ("frag-", "FRAG-", "(FRAG-)"), ("-frag", "-FRAG", "(-FRAG)"), ("((fra- x))", "FRA- X", "(FRA-) (X)"),
     ("**neo**", "NEO", None), ("+mis+", "MIS", None), ("&Bob", "BOB", None), ("@nasa", "NASA", None), ("^Prop", "PROP", None), ("*odd*", "ODD", None), ("~A", "A.", None),
     ("<contraction e_form=\"[it=>it][is=>'s]\">it's", "IT 'S", None)]

# the marks of Mississippi State transcripts (-m)
M = [("~IBM", "I B M", None), ("~TV", "T V", None), ("~CEO's", "C E O'S", None), ("~A's", "A'S", None), ("~A", "A", None), ("~", "", None), ("<as/>go away</as>", "", None), ("^Bob", "BOB", None),
     ("*bad", "BAD", None), ("@nasa", "NASA", None), ("%MHM", "MHM", None), ("MHM", "MHM", None), ("MHMM", "MHMM", None)]
ALL = W + M


def scored(seq, opt):
    out = []
    for i in seq:
        t, plain, opt_d = ALL[i]
        x = opt_d if opt.get("d") and opt_d is not None else plain
        if opt.get("c") and t.startswith("<contr"):
            x = "IT'S"
        ws = x.split()
        if opt.get("t"):
            tr = dict(p.split("=") for p in opt["t"].upper().split(":"))
            ws = [tr.get(w, w) for w in ws]
        if opt.get("q"):
            eq = {}
            for cl in opt["q"].upper().split(":"):
                for w in cl.split("="):
                    eq[w] = "{ " + " / ".join(cl.split("=")) + " }"
            ws = [eq.get(w, w) for w in ws]
        if opt.get("a"):
            ws = ["{ %s / %s / %s }" % (w.replace("-", " "), w.replace("-", ""), w) if w == "TWO-WORDS" else w for w in ws]
        out += ws
    return " ".join(out)


def words(arg, st, fails, samples):
    opt, seqs = arg
    text = "".join("%s%d.00 %d.50 %s: %s\n" % ("u%d " % i if opt.get("m") else "", i + 1, i + 1, "AB"[i % 2], " ".join(ALL[k][0] for k in s)) for i, s in enumerate(seqs))
    o = dict(opt, k=True)
    rc, out, err = chfilt(text, o)
    st.add(states=len(seqs), traces=len(seqs), transitions=sum(map(len, seqs)))

    def bad(m, i=None):
        f = text if i is None else text.split("\n")[i] + "\n"
        fails.append(Fail("chfilt %s: %s" % (" ".join(command(o)), m), files={"in.txt": f}, cmd="chfilt.pl %s in.txt -- -" % " ".join(command(o))).pack())
    if rc != 0:
        return bad("ended with %s: %r" % (rc, err[-300:]))
    got, m = parse(out)
    if m:
        return bad(m)
    at = {}
    for g in got:
        at.setdefault(int(g[2]) - 1, []).append(g[4])
    for i, s in enumerate(seqs):
        w = scored(s, opt)
        if at.get(i) != [w]:
            bad("%r becomes %r, expected %r" % (" ".join(ALL[k][0] for k in s), at.get(i), w), i)
            if len(fails) > 5:
                break


def merged(arg, st, fails, samples):
    """the rewritten texts of merged segments stay on one record"""
    for opt in ({"q": "word=two"}, {"t": "word=nine"}, {"a": True}, {"q": "word=two", "a": True, "d": True}):
        text = "".join("%d.00 %d.90 A: %s\n" % (i, i, w) for i, w in enumerate(("word", "two-words", "x", "word")))
        o = dict(opt, s=0.5)
        rc, out, err = chfilt(text, o)
        got, m = parse(out)
        want = [("A", "in_A", 0.0, 3.9, scored([0, 4], opt) + " X " + scored([0], opt))]
        st.add(states=1, traces=1)
        if rc or m or got != want:
            fails.append(Fail("chfilt %s: records %r (%s), expected %r" % (" ".join(command(o)), got, m, want), files={"in.txt": text}, cmd="chfilt.pl %s in.txt -- -" % " ".join(command(o))).pack())


def pem(arg, st, fails, samples):
    text = "1.00 2.50 A: word\n2.00 3.00 B1: uh\n4.00 5.00 A: {x}\n7.25 9.75 B: y\n"
    for C_, ch in ((None, "AB"), ("numbers", "12")):
        rc, out, err = chfilt(text, {"o": "pem", "C": C_})
        got = [tuple(x.split()) for x in out.decode().split("\n") if x.strip() and not x.startswith(";;")]
        want = [("in", ch[0], "unknown_speaker", "1.00", "2.50"), ("in", ch[1], "unknown_speaker", "2.00", "3.00"), ("in", ch[1], "unknown_speaker", "7.25", "9.75")]
        st.add(states=1, traces=1)
        if rc or got != want:
            fails.append(Fail("pem output %r, expected %r" % (got, want), files={"in.txt": text}, cmd="chfilt.pl -l english -o pem in.txt -- -").pack())


def refusals(arg, st, fails, samples):
    ok = "1.00 2.00 A: x\n"
    for name, text, cmd in (("unknown language", ok, ["-l", "klingon"]), ("no language", ok, []), ("unknown format", ok, ["-l", "english", "-o", "ctm"]), ("text before the first turn", "hello\n" + ok, ["-l", "english"]),
                            ("gaps without a range", ok, ["-l", "english", "-i"]), ("unknown channel names", ok, ["-l", "english", "-C", "roman"]), ("unfinished contraction", "1.00 2.00 A: <contraction e_form=\"x\n", ["-l", "english"])):
        d = dirs()
        with open(d + "/in.txt", "w") as f:
            f.write(text)
        rc, out, err = mc.run(["perl", build.REPO + "/src/chfilt/chfilt.pl"] + cmd + ["in.txt", "--", "-"], cwd=d)
        st.add(states=1, traces=1)
        if rc == 0:
            fails.append(Fail("%s is accepted" % name, files={"in.txt": text}, cmd="chfilt.pl %s in.txt -- -" % " ".join(cmd)).pack())


def body(_):
    jobs = []
    cs = list(tcases())
    for k, o in enumerate(OPTS):
        for j, b in enumerate(chunks(cs, 150)):
            jobs.append((o, (k + j) % 2, b))
    C.bounds["turns"] = "every arrangement of up to %d turns on a grid of 4-5 times, two channels and speakers, with and without words, %d option sets; %d turns against time ranges" % (4 if T else 3, len(OPTS), len(list(windows())))
    C.bounds["words"] = "every sequence of up to %d of %d plain and marked words, with and without -d, -c, -q, -t and -a; %d more under -m" % (3 if T else 2, len(W), len(M))
    C.parallel(times, jobs)
    C.parallel(window, chunks(windows(), 40))
    n = len(W)
    seqs = [(a,) for a in range(n)] + list(itertools.product(range(n), repeat=2))
    wj = []
    for o in ({}, {"d": True}, {"c": True}, {"q": "word=two:what=stop=no"}, {"t": "word=nine:mis=miss", "d": True}, {"a": True}, {"a": True, "d": True, "t": "stop=halt", "q": "maybe=perhaps"}):
        for b in chunks(seqs, 300):
            wj.append((o, b))
        if T and (not o or o == {"d": True}):
            for b in chunks(itertools.product(range(n), repeat=3), 1000):
                wj.append((o, b))
    if not T:
        for o in ({}, {"d": True}):
            for b in chunks([s for i, s in enumerate(itertools.product(range(n), repeat=3)) if i % 13 == 0], 500):
                wj.append((o, b))
    ms = [i for i, w in enumerate(ALL) if i >= n or w[0] in ("word", "two-words", "((maybe this))", "uh", "frag-", "stop.", "{laugh}", "<laugh>")]
    for o in ({"m": True}, {"m": True, "d": True}, {"m": True, "a": True, "q": "word=two:bob=bobby"}):
        for b in chunks([s for k in range(1, 4 if T else 3) for s in itertools.product(ms, repeat=k)], 400):
            wj.append((o, b))
    C.parallel(words, wj)
    for f in (merged, pem, refusals):
        C.serial(f, None)
    C.finish()


if __name__ == "__main__":
    mc.main(lambda: None, body)
