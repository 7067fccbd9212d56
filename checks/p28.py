#!/usr/bin/env python3
"""P28: hubscr filters, orders, segments and scores a whole test."""
import itertools, os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, hub, mc, sgml, reports, trnalign as ta
from rewrite import Rule, words
from mc import Check, Fail, chunks, newdir

C = Check("P28", "exhaustive exploration of all small transcripts, record orders, languages, task types and hypothesis sets on the real hubscr with every program it calls, each alignment compared with a model of the whole pipeline",
          "every (reference text, hypothesis text) of a language, every order of the records, every extended ctm record and every set of hypotheses within the bounds is one trace",
          ["channels are numbers and times have at most three decimals, as hubscr's own validation demands", "the records of a channel start at different times"])
T = C.thorough
B = (" ", " ")
RULES = [Rule("COLOUR", "COLOR", *B), Rule("CANT", "CAN NOT", *B), Rule("OKAY", "{ OKAY / OK }", *B), Rule("UH", "(%HESITATION)", *B), Rule("UM", "", *B), Rule("OF COURSE", "SURE", *B)]
GLM = ";; rules\n* name \"x\"\n* copy_no_hit = 'T'\n* case_sensitive = 'F'\n" + "".join(r.text(1) + "\n" for r in RULES)
LANG = {"english": (False, False, False), "spanish": (False, True, False), "italian": (True, True, False), "arabic": (True, False, True), "german": (False, True, False)}
HEAD = ';; CATEGORY "0" "" ""\n;; LABEL "O" "Overall" "All"\n;;\n'
LEX = "HAUS\nTUER\nSCHLOSS\nAMT\n"


def L(s):
    return s.encode("utf-8").decode("latin-1")


def norm(lang, text, opts=()):
    """text of one record -> the words it stands for"""
    keep, ext, _ = LANG[lang]
    if opts:
        w = norm(lang, text)
        if "-H" in opts:       # hamzas on an initial alef
            w = [re.sub("^(%s)" % "|".join(map(L, "\u0622\u0623\u0625")), L("\u0627"), x) for x in w]
        if "-T" in opts:       # a final tanween
            w = [re.sub("(%s)$" % "|".join(map(L, "\u064b\u064c\u064d")), "", x) for x in w]
        return w
    w = words(text, True, keep, ext, RULES, False)
    if lang == "german":
        w = [x for t in w for x in compound(t)]
    return w


PARTS = LEX.split()


def compound(t):
    """german compounds of two words of the lexicon"""
    m = re.fullmatch(r"(\(?)(%s)S?(%s)(\)?)" % ("|".join(PARTS), "|".join(PARTS)), t)
    return [m.group(1) + m.group(2) + m.group(4), m.group(1) + m.group(3) + m.group(4)] if m else [t]


def items(ws):
    out, alts = [], None
    for w in ws:
        if w == "{":
            alts = [[]]
        elif w == "}":
            out.append(tuple(tuple(a) for a in alts))
            alts = None
        elif w == "/" and alts is not None:
            alts.append([])
        else:
            (out if alts is None else alts[-1]).append(w)
    return tuple(out)


class Test:
    """One test: cases with file names of their own.  segs: (file, chan, spk, t1, t2, label, text);  recs: (file, chan, t, dur, text, conf)"""

    def __init__(self, lang="english", hubt="hub5", opts=()):
        self.lang, self.hub, self.opts = lang, hubt, list(opts)
        self.norm = [o for o in opts if o in ("-H", "-T")]
        self.segs, self.recs, self.ref, self.hyp, self.about = [], [], [], [], {}

    def seg(self, s, line=None):
        self.segs.append(s)
        self.ref.append(line or "%s %s %s %s %s%s %s\n" % (s[:5] + (" <%s>" % s[5] if s[5] else "", s[6])))

    def rec(self, r, line=None):
        if r is not None:
            self.recs.append(r)
        self.hyp.append(line or "%s %s %s %s %s%s\n" % (r[:5] + (" " + r[5] if r[5] else "",)))

    def expect(self):
        """{(file, chan, t1): (speaker, reference items, hypothesis items)}"""
        out = {}
        chans = {}
        for s in self.segs:
            chans.setdefault(s[:2], []).append(s)
        for k, ss in chans.items():
            ss.sort(key=lambda s: float(s[3]))
            units = []
            for r in sorted((r for r in self.recs if r[:2] == k), key=lambda r: float(r[2])):
                if isinstance(r[4], tuple):      # an alternation
                    units.append((max(t + d / 2 for a in r[4] for t, d, _ in a), [tuple(tuple(x for _, _, t in a for x in norm(self.lang, t, self.norm)) for a in r[4])]))
                    continue
                w = items(norm(self.lang, r[4], self.norm))
                t, d = float(r[2]), float(r[3])
                if any(isinstance(x, tuple) for x in w):
                    units.append((t + d / 2, list(w)))
                else:
                    units += [(t + d / len(w) * (i + .5), [x]) for i, x in enumerate(w)]
            j = 0
            for n, s in enumerate(ss):
                got = []
                while j < len(units) and (n == len(ss) - 1 or units[j][0] < float(s[4])):
                    got += units[j][1]
                    j += 1
                out[s[0].lower(), s[1].lower(), "%.3f" % float(s[3])] = (s[2], items(norm(self.lang, s[6], self.norm)), tuple(got))
        return out

    def files(self):
        return {"r.stm": HEAD + "".join(self.ref), "h.ctm": "".join(self.hyp), "glm": GLM, "lex": LEX}


class Sem(ta.Sem):
    def fold(self, w):
        return w if self.cs else "".join(c.lower() if c < "\x80" else c for c in w)


def hubscr(d, files, args, timeout=120):
    for n, t in files.items():
        with open(os.path.join(d, n), "w", encoding="latin-1") as f:
            f.write(t)
    return mc.run(["perl", HUB] + args, cwd=d, timeout=timeout, env=dict(os.environ, PATH=os.path.dirname(HUB) + ":" + os.environ["PATH"], LC_ALL="C"))


def args_of(t, hyps=("h.ctm",)):
    return t.opts + ["-g", "glm", "-l", t.lang, "-h", t.hub, "-r", "r.stm"] + (["-L", "lex"] if t.lang == "german" else []) + list(hyps)


def read(d, n):
    with open(os.path.join(d, n), "rb") as f:
        return f.read().decode("latin-1")


REPORTS = ["sys", "raw", "sgml", "lur", "dtl", "pra", "prf"]


def check(what, t, st, fails, samples, key=""):
    d = newdir()
    fs, args = t.files(), args_of(t)

    def bad(m, k=""):
        fails.append(Fail("%s: %s" % (what, m), files={n: x.encode("latin-1") for n, x in fs.items()}, cmd="hubscr.pl " + " ".join(args), key="%s|%s|%s" % (what, key, k)).pack())
    try:
        rc, out, err = hubscr(d, fs, args)[:3]
        if rc != 0:
            return bad("hubscr exited with %s: %s" % (rc, (out + err).decode("latin-1")[-400:]), "rc")
        for e in REPORTS:
            if not os.path.exists(os.path.join(d, "h.ctm.filt." + e)):
                return bad("no report h.ctm.filt.%s" % e, e)
        ss = sgml.parse(read(d, "h.ctm.filt.sgml"))
        if len(ss) != 1:
            return bad("%d systems in the sgml file" % len(ss), "sys")
        exp = t.expect()
        sem = Sem(case_sens=LANG[t.lang][2], frag=True, optdel=True)
        seen = set()
        for p in ss[0].paths:
            k = (p.attrs.get("file"), p.attrs.get("channel"), p.attrs.get("R_T1"))
            st.add(traces=1)
            if k not in exp or k in seen:
                return bad("segment %s %s" % (k, "is scored twice" if k in seen else "is not a segment of the reference"), k)
            seen.add(k)
            spk, r, h = exp[k]
            m = "speaker %s" % p.speaker if p.speaker.lower() != spk.lower() else ta.judge(sem, r, h, p, st)
            if m:
                bad("segment %s (%s): %s; reference %r hypothesis %r" % (k, t.about.get(k[0], ""), m, r, h), t.about.get(k[0], k))
                if len(fails) > 20:
                    return
        if len(seen) != len(exp):
            k = sorted(set(exp) - seen)[0]
            return bad("segment %s (%s) is not scored" % (k, t.about.get(k[0], "")), k)
        cnt = {"C": 0, "S": 0, "D": 0, "I": 0}
        for p in ss[0].paths:
            for w in p.words:
                cnt[w[0]] += 1
        tot = re.search(r"\|\s*Sum/?\w*\s*\|\s*(\d+)\s+(\d+)\s*\|\s*(\d+)\s+(\d+)\s+(\d+)\s+(\d+)", read(d, "h.ctm.filt.raw"))
        want = (len(exp), cnt["C"] + cnt["S"] + cnt["D"], cnt["C"], cnt["S"], cnt["D"], cnt["I"])
        if t.lang != "mandarin" and (not tot or tuple(map(int, tot.groups())) != want):
            return bad("the totals of the raw report are %s, the alignments give %s" % (tot and tot.groups(), want), "raw")
        if samples is not None and len(samples) < 2:
            samples.append("%s: %d segments, %s" % (what, len(exp), want))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def w_texts(job, st, fails, samples):
    lang, base, pairs = job[:3]
    t = Test(lang, "hub4" if base % 2 else "hub5", list(job[3]) if len(job) > 3 else ["-d"] if lang == "arabic" and base % 2 else [])
    for i, (r, h) in enumerate(pairs):
        f = "f%05d" % i
        t.about[f] = "%s / %s" % (" ".join(r), " ".join(h))
        t.seg((f, "1", "spk%d" % (i % 7), "0", "10", "O", " ".join(r)))
        for k, w in enumerate(h):
            t.rec((f, "1", "%d.25" % (k + 1), "0.5", w, "0.%d" % (k + 1) if base % 3 else ""))
    check("%s texts" % lang, t, st, fails, samples, base)


def render(lines, ws, junk, last):
    """the white space of every second record changed, comments and blank lines between the records"""
    out = []
    for i, l in enumerate(lines):
        if junk and i % 2:
            out.append([";; a comment\n", "\n"][i // 2 % 2])
        if ws and i % 2 == 0:
            head, _, lab = l.partition("\t")
            l = re.sub(" ", ["  ", "\t", " \t "][ws - 1], l)
            l = ["", "  ", "\t"][(i // 2 + ws) % 3] + l
        out.append(l)
    if last:
        out[-1] = out[-1].rstrip("\n")
    return out


def w_orders(job, st, fails, samples):
    """every order of the records of two files with two channels; hub, ws, junk, last newline vary"""
    kind, asc, ws, junk, last, perms = job
    t = Test("english", "hub5")
    for n, perm in enumerate(perms):
        a, b = "p%04da" % n, "p%04db" % n
        segs = [(a, "1", "s1", "0", "4", "O", "one colour two"), (a, "1", "s2", "4", "9.5", "O", "three cant"), (a, "2", "s3", "0.5", "8", "O", "okay uh five"), (b, "1", "s1", "10", "20", "O", "six a-b")]
        recs = [(a, "1", "1", "0.5", "one", ""), (a, "1", "10.5", "0.5", "not", ""), (a, "1", "9", "0.5", "can", ""), (a, "2", "2", "1", "ok", ""), (b, "1", "10.5", "0.5", "six", ""), (b, "1", "9.75", "0.25", "zero", "")]
        if kind == "alt":
            recs[2] = (a, "1", "9", "*", (((9, .5, "three"), (9.75, .25, "colour")), ((9.25, .5, "won"),)), "")
            recs = recs[:5]
        ro, ho = (perm, range(len(recs))) if kind == "stm" else (range(len(segs)), perm)
        t.about[a] = t.about[b] = "%s records in the order %s" % (kind, list(perm))
        for i in ro:
            t.seg(segs[i])
        for i in ho:
            r = recs[i]
            if isinstance(r[4], tuple):
                t.recs.append(r)
                h = r[0] + " " + r[1]
                for k, alt in enumerate(r[4]):
                    t.rec(None, "%s * * <ALT%s>\n" % (h, "" if k else "_BEGIN"))
                    for x, y, w in alt:
                        t.rec(None, "%s %g %g %s\n" % (h, x, y, w))
                t.rec(None, h + " * * <ALT_END>\n")
            else:
                t.rec(r)
    t.ref, t.hyp = render(t.ref, ws, junk, last), render(t.hyp, ws, junk, last)
    check("orders of %s records" % kind, t, st, fails, samples, (ws, junk, last))


def w_rt(job, st, fails, samples):
    """extended ctm records of rt-stt tests"""
    conf, cs = job
    t = Test("english", "rt-stt")
    for i, types in enumerate(cs):
        f = "x%04d" % i
        t.about[f] = " ".join(types)
        t.seg((f, "1", "spk", "0", "10", "O", "colour cant colour"[:[6, 11, 18][i % 3]]))
        for k, ty in enumerate(types):
            r = (f, "1", "%d.5" % (k + 1), "0.5", ["colour", "cant", "um"][k % 3], "" if conf.upper() == "NA" else conf)
            if ty in ("lex", ""):
                t.recs.append(r)
            t.hyp.append("%s %s %s %s %s %s%s\n" % (r[:5] + (conf, " %s %s" % (ty, "spk%d" % k if k else "") if ty else "") if ty else r[:5] + (conf if r[5] else "", "")))
    check("rt-stt", t, st, fails, samples, conf)


DATE = re.compile(r'creation_date="[^"]*"|[Cc]reation date.*|\w{3} \w{3} [ \d]\d \d\d:\d\d:\d\d \d{4}')


def pieces(d, root):
    """the reports of one hypothesis, without dates"""
    out = {}
    for n in sorted(os.listdir(d)):
        if n.startswith(root):
            x = read(d, n)
            out[n[len(root):]] = DATE.sub("", x)
    return out


HYPS = {"h1.ctm": ["colour", "can", "not"], "h2.ctm": ["color", "uh", "cant"], "h3.ctm": ["red"]}


def w_sets(job, st, fails, samples):
    """several hypotheses are scored as each alone, and compared"""
    names, styled, asc = job
    stm = "".join("f%d 1 s%d %d %d <O> %s\n" % (f, s, 5 * s, 5 * s + 5, tx) for f in (1, 2) for s, tx in ((0, "colour cant"), (1, "red uh okay")))
    fs = {"r.stm": HEAD + stm, "glm": GLM}
    for n in HYPS:
        fs[n] = "".join("f%d 1 %d.5 0.5 %s\n" % (f, 5 * s + k, w) for f in (1, 2) for s in (0, 1) for k, w in enumerate(HYPS[n]))
    opts = (["-a"] if asc else []) + ["-g", "glm", "-l", "english", "-h", "hub5", "-r", "r.stm"]
    tag = "%s%s%s" % (",".join(names), ["", " named", " with file names", " with titles"][styled], " asclite" if asc else "")
    d = newdir()

    def bad(m):
        fails.append(Fail("hypotheses %s: %s" % (tag, m), files=fs, cmd="hubscr.pl " + " ".join(opts + list(names)), key="sets|" + tag).pack())

    def title(n):
        return "sys_%s" % n[:2] if styled in (1, 3) else n

    def spec(n):
        return n + ["", "\\#sys_%s\\#out_%s" % (n[:2], n[:2]), "\\#\\#out_%s" % n[:2], "\\#sys_%s" % n[:2]][styled]

    def root(n):
        return ("out_%s" % n[:2] if styled in (1, 2) else n) + ".filt"
    try:
        os.mkdir(d + "/all")
        extra = ["-n", "All", "-e", "the title"] if styled else []
        rc, out, err = hubscr(d + "/all", fs, opts + extra + [spec(n) for n in names])[:3]
        st.add(traces=1)
        if rc != 0:
            return bad("hubscr exited with %s: %s" % (rc, (out + err).decode("latin-1")[-400:]))
        for n in names:
            os.mkdir(d + "/" + n)
            rc, out, err = hubscr(d + "/" + n, fs, opts + [spec(n)])[:3]
            st.add(traces=1)
            if rc != 0:
                return bad("%s alone: hubscr exited with %s: %s" % (n, rc, (out + err).decode("latin-1")[-400:]))
            x, y = pieces(d + "/all", root(n)), pieces(d + "/" + n, root(n))
            st.add(states=len(x))
            for r in REPORTS:
                if "." + r not in y and not (asc and r == "lur"):
                    return bad("%s has no %s report" % (n, r))
            if x != y:
                k = sorted(k for k in set(x) | set(y) if x.get(k) != y.get(k))[0]
                return bad("the report %s of %s differs from that of the hypothesis alone" % (k, n))
            if title(n) not in x[".sys"]:
                return bad("the report of %s does not carry its title" % n)
        if len(names) > 1:
            ens = "All" if styled else "Ensemble"
            for e in ("sys", "raw", "es", "res", "lur"):
                if not os.path.exists(d + "/all/%s.%s" % (ens, e)):
                    return bad("no report %s.%s" % (ens, e))
            x = read(d + "/all", ens + ".raw")
            # the errors of every system in the comparison are those of its own report
            cells = [[c.strip() for c in l.split("|")[1:-1]] for l in x.split("\n") if l.count("|") == len(names) + 2]
            want = []
            for n in names:
                y = re.search(r"\|\s*Sum\s*\|[^|]*\|([^|]*)\|", read(d + "/all", root(n) + ".raw"))
                want.append((title(n), y.group(1).split()[4]))
            if not cells or list(zip(cells[0][1:], next((c[1:] for c in cells if c[0] == "Sum"), []))) != want:
                return bad("%s.raw does not give the errors %r" % (ens, want))
            if styled and "the title" not in x:
                return bad("the comparison does not carry the description")
    finally:
        shutil.rmtree(d, ignore_errors=True)


GOOD = {"r.stm": HEAD + "f1 1 s 0 5 <O> colour cant\n", "h.ctm": "f1 1 1.5 0.5 colour\nf1 1 2.5 0.5 cant\n", "glm": GLM, "lex": LEX, "wwl": ";; w\n"}


def refusals():
    base = ["-g", "glm", "-l", "english", "-h", "hub5", "-r", "r.stm", "h.ctm"]

    def without(o):
        i = base.index(o)
        return base[:i] + base[i + 2:]

    def put(o, v):
        i = base.index(o)
        return base[:i + 1] + [v] + base[i + 2:]
    out = []
    for o in ("-g", "-l", "-h", "-r"):
        out += [("no " + o, without(o), {}), ("bad " + o, put(o, "nosuch"), {})]
    out += [("no hypothesis", base[:-1], {}), ("a missing hypothesis", base + ["nosuch.ctm"], {})]
    out += [("-o without -a", ["-o", "2"] + base, {}), ("-m without -a", ["-m", "2"] + base, {}), ("-a spanish", ["-a"] + put("-l", "spanish"), {}), ("-H english", ["-H"] + base, {}), ("-T spanish", ["-T"] + put("-l", "spanish"), {}),
            ("sastt with ctm", put("-h", "sastt"), {}), ("german without lexicon", put("-l", "german"), {}), ("german with a missing lexicon", ["-L", "nosuch"] + put("-l", "german"), {}), ("german -d without lexicon", ["-d"] + put("-l", "german"), {}),
            ("-w missing", ["-w", "nosuch"] + base, {}), ("-K missing", ["-K", "nosuch"] + base, {}), ("-K and -w", ["-K", "lex", "-w", "wwl"] + base, {}), ("-m nonsense", ["-a", "-m", "x"] + base, {})]
    g, r = GOOD["h.ctm"], GOOD["r.stm"]
    bads = [("a text time", "f1 1 x 0.5 colour\n"), ("a text duration", "f1 1 1.5 y colour\n"), ("a negative time", "f1 1 -1.5 0.5 colour\n")]
    for n, l in bads:
        for pos in (0, 1, 2):
            x = g.splitlines(True)
            x.insert(pos, l)
            out.append(("ctm with %s (record %d)" % (n, pos + 1), base, {"h.ctm": "".join(x)}))
    for pos in (0, 1):
        for w in ("it'x", "a_b", "(it'x)", "1"):
            x = [r]
            x.insert(pos, "f2 1 s 0 5 <O> red %s\n" % w)
            out.append(("stm with the word %s (segment %d)" % (w, pos + 1), base, {"r.stm": "".join(x)}))
    for a in ([], ["-a"]):
        for pos in (0, 1):
            x = [r]
            x.insert(pos, "f2 1 s 0 5 <O> { a / b\n")
            out.append(("stm with an open alternation %d %s" % (pos, a), a + base, {"r.stm": "".join(x)}))
    return out


def w_refuse(job, st, fails, samples):
    for what, args, change in job:
        d = newdir()
        fs = dict(GOOD, **change)
        try:
            rc, out, err = hubscr(d, fs, args)[:3]
            st.add(traces=1)
            left = [n for n in os.listdir(d) if re.search(r"\.(sys|raw|sgml)$", n)]
            if rc == 0 or left:
                fails.append(Fail("%s: hubscr exited with %s, reports %s" % (what, rc, left), files=fs, cmd="hubscr.pl " + " ".join(args), key="refuse|" + what).pack())
        finally:
            shutil.rmtree(d, ignore_errors=True)


def w_accept(job, st, fails, samples):
    """option combinations that must work"""
    for what, args, change in job:
        d = newdir()
        fs = dict(GOOD, **change)
        try:
            rc, out, err = hubscr(d, fs, args)[:3]
            st.add(traces=1)
            if rc != 0 or not os.path.exists(d + "/h.ctm.filt.sys"):
                fails.append(Fail("%s: hubscr exited with %s: %s" % (what, rc, (out + err).decode("latin-1")[-300:]), files=fs, cmd="hubscr.pl " + " ".join(args), key="accept|" + what).pack())
        finally:
            shutil.rmtree(d, ignore_errors=True)


def accepts():
    base = ["-g", "glm", "-l", "english", "-h", "hub5", "-r", "r.stm", "h.ctm"]
    rttm = {"h.ctm": "SPKR-INFO f1 1 <NA> <NA> <NA> unknown s <NA>\nSPEAKER f1 1 1 3 <NA> <NA> s <NA>\nLEXEME f1 1 1.5 0.5 colour lex s <NA>\nLEXEME f1 1 2.5 0.5 cant lex s <NA>\n"}
    return [("-w", ["-w", "wwl"] + base, {}), ("-a", ["-a"] + base, {}), ("-a -o 2 -m 1:2 -C -B 64", ["-a", "-o", "2", "-m", "1:2", "-C", "-B", "64"] + base, {}), ("-V", ["-V"] + base, {}), ("-v", ["-v"] + base, {}),
            ("-a -f rttm", ["-a", "-f", "rttm"] + base, rttm), ("-a -G", ["-a", "-G"] + base, {}),
            ("sastt", ["-a", "-f", "rttm", "-g", "glm", "-l", "english", "-h", "sastt", "-r", "r.stm", "h.ctm"], rttm), ("sastt -M", ["-a", "-M", "-c 0.1", "-f", "rttm", "-g", "glm", "-l", "english", "-h", "sastt", "-r", "r.stm", "h.ctm"], rttm)]


ALPHA = {"english": ["colour", "Color", "cant", "can", "not", "okay", "ok", "uh", "um", "a-b", "a", "-b", "fo-", "for"],
         "spanish": ["ni\xf1o", "NI\xd1O", "colour", "a-b"], "italian": ["perch\xe9", "PERCH\xc9", "Perch\xe9", "OKAY", "ok"], "arabic": ["kitab", "Kitab", "CANT", "can", "not", "uh"],
         "german": ["okay", "haustuer", "Haus", "TUER", "amtsschloss", "amt", "schloss", "x", "uh", "t\xfcr", "T\xdcR"]}
REFX = {"english": ["(a)", "{ a / b }", "of", "course"], "german": ["(haustuer)"]}


def texts(al, n):
    return [x for k in range(n + 1) for x in itertools.product(al, repeat=k)]


def body(ctx):
    global HUB
    d = newdir()
    HUB = hub.bindir(os.path.join(d, "bin"))
    jobs = []
    for lang, al in ALPHA.items():
        n = 2 if lang == "english" or T else 1
        if lang == "english":
            hs = texts(al if T else al[:4] + al[5:8] + al[9:10] + al[12:], 2)
            rs = texts(al + REFX[lang], 1) + ([x for x in itertools.product(al[:8] + REFX[lang], repeat=2)] if T else [("cant", "uh"), ("can", "not"), ("of", "course"), ("uh", "okay"), ("{ a / b }", "(a)"), ("fo-", "a-b")])
        else:
            hs, rs = texts(al, 2), texts(al + REFX.get(lang, []), n)
        ps = list(itertools.product(rs, hs))
        jobs += [(lang, i, c) for i, c in enumerate(chunks(ps, 500))]
        C.bounds["%s texts" % lang] = "%d pairs: references of at most %d, hypotheses of at most 2 of %d words" % (len(ps), n, len(al))
    ar = [L("\u0623\u0628"), L("\u0627\u0628"), L("\u0628\u064b"), L("\u0628"), L("\u0625\u0628\u064d")]
    ps = list(itertools.product(texts(ar, 2 if T else 1), texts(ar, 2)))
    jobs += [("arabic", k, ps, o) for k, o in enumerate([("-H",), ("-T",), ("-H", "-T"), ("-d", "-T", "-H"), ()])]
    C.bounds["arabic marks"] = "%d pairs of texts of 5 words, with and without -H and -T" % len(ps)
    C.parallel(w_texts, jobs)
    jobs = []
    vs = [(w, j, l) for w in range(4) for j in (0, 1) for l in (0, 1)]
    for kind, n in (("stm", 4), ("ctm", 6), ("alt", 5)):
        ps = list(itertools.permutations(range(n)))
        sub = ps if T or n < 6 else ps[::7]
        for k, v in enumerate(vs if T else vs[::3]):
            jobs.append((kind, 0) + v + (ps if k == 0 else sub,))
    C.bounds["orders"] = "every order of 4 stm records, of 6 ctm records and of 5 ctm records one of which is an alternation, with %d layouts" % (16 if T else 6)
    C.parallel(w_orders, jobs)
    TY = ["lex", "non-lex", "fp", "frag", "un-lex", "misc", "noscore", ""]
    C.parallel(w_rt, [(c, texts(TY, 3 if T else 2)) for c in ("NA", "na", "0.5", "1.0")])
    C.bounds["extended ctm"] = "every sequence of at most %d of 8 record types, 4 confidences" % (3 if T else 2)
    names = list(HYPS)
    sets = [s for k in (1, 2, 3) for s in itertools.permutations(names, k)] if T else [("h1.ctm", "h2.ctm"), ("h3.ctm", "h1.ctm", "h2.ctm"), ("h2.ctm",)]
    C.parallel(w_sets, [(s, y, a) for s in sets for y in ((0, 1, 2, 3) if T or s == sets[0] else (0, 1)) for a in ((0, 1) if T or s == sets[0] else (0,))])
    rf = refusals()
    C.parallel(w_refuse, [rf[i::8] for i in range(8)])
    ac = accepts()
    C.parallel(w_accept, [[x] for x in ac])
    C.bounds["options"] = "%d sets of hypotheses, %d invalid tests, %d further option sets" % (len(sets), len(rf), len(ac))
    shutil.rmtree(d, ignore_errors=True)
    C.finish()


if __name__ == "__main__":
    mc.main(lambda: (build.sclite(), build.asclite(), build.rfilter1()), body)
