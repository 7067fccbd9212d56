#!/usr/bin/env python3
"""P23: the stm, ctm and rttm validators accept exactly the files that follow their rules."""
import itertools, os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, mc
from mc import Check, Fail, chunks, newdir
from perlfork import Script

C = Check("P23", "exhaustive exploration of all files within one or two edits of well-formed files, of all short words and of all small sets of rttm objects on a time grid, on the real validators, each verdict compared with a reference model of the rules",
          "every (file, options) within the bounds is one trace",
          ["times are multiples of at least 0.01 s (the rttm validator's tolerance is 0.001 s)", "at most one interruption point at a time, not of type 'other'",
           "NO_RT_METADATA objects have a speaker", "english ctm words that contain @ or begin with a letter and a full stop are accepted unread"])
T = C.thorough


def judge(arg, st, fails, samples):
    """arg = (tool, [(file text, options, expected status, what)])"""
    tool, cases = arg
    s = Script(tool)
    d = newdir()
    name = "t." + ("rttm" if "rttm" in tool else "ctm" if "ctm" in tool else "stm")
    for text, opts, want, what in cases:
        with open(d + "/" + name, "wb") as f:
            f.write(text.encode("latin-1"))
        got = s.run(d, opts + ["-i", name], out="o", err="e")
        st.add(traces=1, states=1, transitions=text.count("\n"))
        if got != want:
            m = "%s %s a %s file: %s" % (os.path.basename(tool), ("accepts", "rejects")[got != 0], ("well-formed", "malformed")[want], what)
            if got not in (0, 1):
                m = "%s stops with status %s: %s" % (os.path.basename(tool), got, what)
            fails.append(Fail(m, key=m, files={name: text}, cmd="perl %s %s -i %s" % (tool, " ".join(opts), name), detail=open(d + "/o", errors="replace").read()[-500:] + open(d + "/e", errors="replace").read()[-500:]).pack())
            if len(fails) > 3:
                break
    if not samples and cases:
        samples.append({"tool": os.path.basename(tool), "file": cases[0][0][:200], "status": cases[0][2]})
    s.close()
    shutil.rmtree(d)


# ---- ctm

GOOD = dict(source=["f", "F-1_b", "9"], channel=["1", "12", "A", "B"], beg=["0", "1", "12.34", "0.0"], dur=["0", "1", "12.34"],
            token=["abc", "a-b", "it's", "uh-", "A.", "%hesitation", "%BCACK", "%bcnack"], conf=["0", "1", "0.95"],
            type=["lex", "frag", "fp", "un-lex", "for-lex", "non-lex", "misc", "noscore"], speaker=["spkr", "a_1-B", "7"])
BAD = dict(source=["f.1", "f/", "\xe9", "f+"], channel=["C", "a", "1A", "-1", "AB", "1.0"], beg=[".5", "1.", "-1", "x", "1e3", "*", "1.2.3"], dur=[".5", "1.", "-1", "x", "*", "1,2"],
           token=["a1", "a*b", "x!", "1", "a,b", "%x", "\xe9"], conf=["-0.5", "x", ".5", "1.", "NA"], type=["foo", "LEX", "lexx", "le"], speaker=["a.b", "a:", "\xe9"])
ORDER = ("source", "channel", "beg", "dur", "token", "conf", "type", "speaker")
BASE = dict((k, v[0]) for k, v in GOOD.items())


def ctm_ok(vals, lang):
    """The verdict on one record, from the lists above."""
    n = len(vals)
    if not 5 <= n <= 8:
        return False
    v = dict(zip(ORDER, vals))
    if v["token"] in ("<ALT_BEGIN>", "<ALT>", "<ALT_END>"):
        times = v["beg"] == v["dur"] == "*"
        tok = True
    else:
        times = v["beg"] in GOOD["beg"] and v["dur"] in GOOD["dur"]
        tok = lang != "english" or v.get("type", "lex") != "lex" or v["token"] in GOOD["token"]
    return times and tok and all(v[k] in GOOD[k] for k in v if k not in ("beg", "dur", "token"))


def ctm_cases():
    alts = {k: GOOD[k] + BAD[k] for k in ORDER}
    alts["token"] = alts["token"] + ["<ALT_BEGIN>", "<ALT>", "<ALT_END>"]
    recs = set()
    for n in range(1, 11):
        vals = [BASE[k] for k in ORDER] + ["x", "y"]
        recs.add(tuple(vals[:n]))
    for n in (5, 6, 7, 8):
        ks = ORDER[:n]
        for k in ks:
            for v in alts[k]:
                recs.add(tuple(v if x == k else BASE[x] for x in ks))
        for a, b in itertools.combinations(ks, 2):
            if T or n in (5, 8):
                for v, w in itertools.product(alts[a], alts[b]):
                    recs.add(tuple(v if x == a else w if x == b else BASE[x] for x in ks))
    for t in ("<ALT_BEGIN>", "<ALT>", "<ALT_END>"):
        for k in ORDER[5:] + ("source", "channel"):
            for v in alts[k]:
                recs.add(tuple(t if x == "token" else "*" if x in ("beg", "dur") else v if x == k else BASE[x] for x in ORDER))
    good = " ".join(BASE[k] for k in ORDER) + "\n"
    for i, r in enumerate(sorted(recs)):
        line = "  ".join(r) + " \n" * (i % 2) + "\n" * (1 - i % 2)
        for lang in ("english",) if i % 3 else ("english", "Arabic"):
            ok = ctm_ok(r, lang.lower())
            pre, post = ((";; comment\n", ""), (good, ""), ("", good), (good, good))[i % 4]
            yield pre + line + post, ["-l", lang] if lang != "english" or i % 2 else [], 0 if ok else 1, line.strip()
    for text, ok in (("", 1), (";; only a comment\n", 1), ("\n", 0), (" " + good, 0), (good + "\n" + good, 0), ("\t" + good, 0), (good[:-1], 1), (good.replace(" ", "\t"), 1),
                     (good * 3 + ";; x\n", 1), ("x\n" * 3, 0)):
        yield text, [], 0 if ok else 1, repr(text)


# ---- stm

def english(tok):
    core = r"(?:(?:[a-z]*-)*[a-z]+(?:'(?:d|s|t|re|ll|m|ve|))*|[a-z]+\.(?:'s|s)*|[a-z]+-)"
    return bool(re.fullmatch(r"(?i)%s|\(%s\)|o'\S+|d'etre|%%(hesitation|bcack|bcnack)|\(%%(hesitation|bcack|bcnack)\)|[{}/@]|ignore_time_segment_in_scoring" % (core, core), tok))


def foreign(tok):
    w = r"[^!@#$^&*()`~_+={\[}\]|\\<,>.?/\-]+"
    return bool(re.fullmatch(r"(?i)%s|\(%s\)|\(%%hesitation\)|[{}/@]|ignore_time_segment_in_scoring" % (w, w), tok))


def stm_cases():
    ew = ["".join(x) for n in range(1, 6 if T else 5) for x in itertools.product("as-'.()", repeat=n)]
    ew += ["%hesitation", "(%hesitation)", "%BCACK", "(%bcnack)", "%foo", "%hesitation)", "(%hesitation", "{", "}", "/", "@", "{}", "@@", "a/b", "(@)", "ignore_time_segment_in_scoring",
           "IGNORE_TIME_SEGMENT_IN_SCORING", "ignore_time", "d'etre", "o'clock", "O'Neil", "a1", "1", "\xe9", "(it's)", "they've", "we'll", "I'm", "they're", "it'x", "(it'x)", "U.S.", "C.'s", "C.s", "a*b", "uh-huh", "(uh-huh)",
           "-a", "--a", "a--b", "a_b", "<a>", "a:b", "&"]
    fw = ["".join(x) for n in range(1, 4) for x in itertools.product("a\xe9*().'-/@{]\\", repeat=n) if T or n < 3 or x[0] in "a(\xe9"]
    fw += ["(%hesitation)", "%hesitation", "(%HESITATION", "ignore_time_segment_in_scoring"] + ["a%sb" % c for c in "!@#$^&*()`~_+={[}]|\\<,>.?/-%:\"'5\xe9"] + ["(a%sb)" % c for c in "!@#$^&*()`~_+={[}]|\\<,>.?/-%:\"'5"]
    for lang, words, ok in (("english", ew, english), ("arabic", fw, foreign), ("Mandarin", fw[::5], foreign)):
        for i, w in enumerate(words):
            text = (w, "ab " + w, w + " ab", "ab " + w + " cd")[i % 4]
            if not i % 2:       # without a label; the text must not look like one
                if re.fullmatch("<.*>", text.split()[0]):
                    continue
                lab = ""
            else:
                lab = "<o,f0> "
            rec = "f 1 spk 0.00 1.00 %s%s\n" % (lab, text)
            pre, post = ((";; c *\n", ""), ("f 1 spk 1 2 <o> ab\n", ""), ("", "g 2 spk 1 2 <o,f0> ab (cd)\n"), (';; CATEGORY "0" "*" "*"\n;; LABEL "o" "*" "*"\n\n', ""))[(i // 4) % 4]
            yield pre + rec + post, ["-l", lang] if lang != "english" or i % 3 else [], 0 if ok(w) else 1, w
    for n in (2, 3):
        for ws in itertools.product(["ab", "a*", "(b)", "(b"], repeat=n):
            for where in range(n):   # one word per record / all in one record
                if where == 0:
                    text = "f 1 s 0 1 <o> " + " ".join(ws) + "\n"
                elif where == 1:
                    text = "".join("f 1 s %d %d <o> %s\n" % (k, k + 1, w) for k, w in enumerate(ws))
                else:
                    text = "".join("f%d %d s %d %d %s\n" % (k, k, k, k + 1, w) for k, w in enumerate(ws))
                yield text, ["-s"] if n == 2 else [], 0 if all(w in ("ab", "(b)") for w in ws) else 1, text
    for text in ("", "\n", ";; x\n", "f 1 s 0 1\n", "f 1 s 0 1 <o>\n", "f 1 s 0 1 <o> \n", "f 1 s 0 1 <o> ab ;; a* b\n", "  f 1 s 0 1 <o> ab\n"):
        yield text, [], 0, repr(text)


# ---- rttm

TYPES = ("SEGMENT", "NOSCORE", "NO_RT_METADATA", "LEXEME", "NON-LEX", "NON-SPEECH", "FILLER", "EDIT", "SU", "IP", "CB", "A/P", "SPEAKER", "SPKR-INFO")
SUB = {"SEGMENT": ("eval", "<NA>"), "LEXEME": ("lex", "fp", "frag", "un-lex", "for-lex", "alpha", "acronym", "interjection", "propernoun", "other"),
       "NON-LEX": ("laugh", "breath", "lipsmack", "cough", "sneeze", "other"), "NON-SPEECH": ("noise", "music", "other"),
       "FILLER": ("filled_pause", "discourse_marker", "explicit_editing_term", "discourse_response", "other"),
       "EDIT": ("repetition", "restart", "revision", "simple", "complex", "other"),
       "SU": ("statement", "question", "incomplete", "backchannel", "unannotated", "discourse_response", "other"),
       "IP": ("edit", "filler", "edit&filler", "other"), "CB": ("coordinating", "clausal", "other"),
       "SPKR-INFO": ("adult_male", "adult_female", "child", "unknown")}
NUM = r"-?(\d+\.?\d*|\.\d+)"


def na(x):
    return x.lower() == "<na>"


def syntax(recs, opts, bn):
    known = {r[7].lower() for r in recs if r[0].upper() == "SPKR-INFO" and len(r) > 7}
    for r in recs:
        if len(r) not in (9, 10):
            return False
        ty = r[0].upper()
        if ty not in TYPES or r[2] not in (("1",) if bn else ("1", "2")):
            return False
        if ty == "SPKR-INFO":
            if not na(r[3]):
                return False
        elif not re.fullmatch(NUM + r"\**", r[3]) or float(r[3].rstrip("*")) < 0:
            return False
        if ty in ("SPKR-INFO", "IP", "CB"):
            if not na(r[4]):
                return False
        elif not re.fullmatch(NUM + r"\**", r[4]) or float(r[4].rstrip("*")) < 0:
            return False
        if ty not in ("LEXEME", "NON-LEX") and not na(r[5]):
            return False
        sub = SUB.get(ty, ("<NA>",))
        if (r[6] if ty == "SPKR-INFO" else r[6].lower()) not in [s if ty == "SPKR-INFO" else s.lower() for s in sub]:
            return False
        if ty == "LEXEME" and r[6].lower() == "alpha" and not re.fullmatch(r"(?i)[a-z]\.('*s)?|[\x80-\xff]{2}\.|<na>", r[5]):
            return False
        if r[8] != "<NA>" and not (re.fullmatch(NUM, r[8]) and 0 <= float(r[8]) <= 1):
            return False
        if "-p" not in opts and ty not in ("SPKR-INFO", "NOSCORE", "NON-SPEECH") and r[7].lower() not in known:
            return False
    return True


def logic(recs, opts):
    objs = {}
    for r in recs:
        ty = r[0].upper()
        if ty != "SPKR-INFO":
            b = round(100 * float(r[3].rstrip("*")))
            e = b if ty in ("IP", "CB") else b + round(100 * float(r[4].rstrip("*")))
            objs.setdefault((r[1], r[2], r[7]), {}).setdefault(ty, []).append((b, e, r[6].lower()))
    inside = lambda a, b: a[0] >= b[0] and a[1] <= b[1]
    partial = lambda a, b: not (a[1] <= b[0] or a[0] >= b[1] or inside(a, b))
    for (f, c, k), o in objs.items():
        for ty, xs in o.items():      # same type, same speaker: no overlap
            xs = sorted(xs, key=lambda x: x[0])
            if any(p[1] > q[0] for p, q in zip(xs, xs[1:])):
                return False
        words = o.get("LEXEME", [])
        for ty in ("SU", "EDIT", "FILLER"):
            for x in o.get(ty, []):
                if not any(inside(w, x) for w in words) or any(partial(w, x) for w in words):
                    return False
        for z in objs.get((f, c, "<NA>"), {}).get("NOSCORE", []):
            for ty in ("SU", "EDIT", "FILLER", "SPEAKER", "LEXEME", "NON-LEX", "NON-SPEECH"):
                if any(partial(x, z) for x in o.get(ty, [])):
                    return False
        if "-u" not in opts and not all(any(inside(w, x) for x in o.get("SU", [])) for w in words):
            return False
        if "-s" not in opts and not all(any(inside(w, x) for x in o.get("SPEAKER", [])) for w in words):
            return False
        if "-e" not in opts:
            sus = sorted(o.get("SU", []))
            for i, su in enumerate(sus):
                ed = {x[1] for x in o.get("EDIT", []) if inside(x, su)}       # an EDIT's point is its end
                fi = {x[0] for x in o.get("FILLER", []) if inside(x, su)}     # a FILLER's its beginning
                prev = i > 0 and sus[i - 1][1] == su[0]
                ip = {}
                for t, _, s in o.get("IP", []):
                    if su[0] < t < su[1] or (t == su[0] and not (prev and s == "edit")) or (t == su[1] and s == "edit"):
                        ip[t] = s
                for t in ed | fi | set(ip):
                    if ip.get(t) != {(True, False): "edit", (False, True): "filler", (True, True): "edit&filler", (False, False): None}[t in ed, t in fi]:
                        return False
    return True


def rec(ty, b=None, d=None, sub="<NA>", spk="a", word="<NA>", f="t", c="1"):
    return (ty, f, c, "<NA>" if b is None else "%g" % b, "<NA>" if d is None else "%g" % d, word, sub, spk, "<NA>")


INFO = rec("SPKR-INFO", sub="adult_male")
FULL = [INFO, rec("SPEAKER", 0, 8), rec("SEGMENT", 0, 8, "eval"), rec("NO_RT_METADATA", 8, 1), rec("NOSCORE", 9, 2, spk="<NA>"), rec("SU", 0, 4, "statement"), rec("SU", 4, 4, "question"),
        rec("LEXEME", 0.5, 0.5, "lex", word="so"), rec("LEXEME", 1, 1, "lex", word="we"), rec("LEXEME", 2, 1, "fp", word="uh"), rec("LEXEME", 5, 1, "lex", word="go"),
        rec("EDIT", 1, 1, "simple"), rec("IP", 2, None, "edit&filler"), rec("FILLER", 2, 1, "filled_pause"), rec("CB", 5, None, "clausal"), rec("A/P", 3, 1),
        rec("NON-LEX", 6, 1, "laugh"), rec("NON-SPEECH", 7, 0.5, "noise", spk="<NA>")]
VALS = [TYPES + ("su", "Lexeme", "XX", "SUX", "NONSPEECH"), ("t", "other", "T", "(t"), ("1", "2", "3", "0", "A", "12"),
        ("0", "1", "5.5", ".5", "3.", "2*", "2**", "-1", "x", "<NA>", "1<NA>", "1e1", "*"), ("0", "1", ".25", "1.", "0.5*", "-1", "x", "<NA>", "<na>", "1-"),
        ("<NA>", "<na>", "w", "A.", "B.'s", "x y"[:1]), tuple(sorted({s for v in SUB.values() for s in v} | {"<NA>", "foo", "Statement", "ADULT_MALE", "lexx"})),
        ("a", "A", "b", "<NA>", "a+", "."), ("<NA>", "<na>", "0", "1", "0.5", ".5", "1.5", "-0.1", "x", "0.5<NA>", "<NA>1")]


def text(recs):
    return "".join(" ".join(r) + "\n" for r in recs)


def verdict(recs, opts, bn=False):
    recs = list(recs)
    if not syntax(recs, opts, bn):
        return 1
    return 0 if logic(recs, opts) else 1


def rttm_syntax():
    for i, r in enumerate(FULL):
        edits = [(k, v) for k in range(9) for v in VALS[k] if v != r[k]]
        for k, v in edits:
            m = r[:k] + (v,) + r[k + 1:]
            yield FULL[:i] + [m] + FULL[i + 1:], []
        for (k, v), (l, w) in itertools.combinations(edits, 2):
            if k != l and (T or (i + 3 * k + 5 * l + 7 * len(v) + 11 * len(w) + sum(map(ord, v + w))) % 23 == 0):
                m = list(r)
                m[k], m[l] = v, w
                yield FULL[:i] + [tuple(m)] + FULL[i + 1:], []
        for n in range(1, 12):
            yield FULL[:i] + [(r + ("x", "y"))[:n]] + FULL[i + 1:], []
        yield FULL[:i] + FULL[i + 1:], []
        if r[0] != "IP":
            yield FULL[:i] + [r, r] + FULL[i + 1:], []
        for o in (["-u"], ["-s"], ["-e"], ["-p"], ["-f"], ["-u", "-s", "-e", "-p"], ["-S"]):
            yield FULL[:i] + FULL[i + 1:], o
            for k, v in edits[::3]:
                yield FULL[:i] + [r[:k] + (v,) + r[k + 1:]] + FULL[i + 1:], o
    for name in ("a+b", "(b", "a.c", "[x", "a*", "^", "A B"[:1]):
        for other in ("a+b", "(b", "a.c", "abc", "a", "[x", "A+B"):
            yield [rec("SPKR-INFO", sub="child", spk=name), rec("SPEAKER", 0, 1, spk=other)], []


def spans(n):
    return [(b, e) for b in range(n) for e in range(b + 1, n + 1)]


def rttm_logic():
    S = spans(4)
    one = [()] + [(x,) for x in S]
    two = one + list(itertools.combinations(S, 2))
    base = [INFO, rec("SPEAKER", 0, 4)]
    mk = lambda ty, xs, sub, **k: [rec(ty, b, e - b, sub, **k) for b, e in xs]
    for ws in two:                       # words and sentence units
        for su in two:
            o = [[], ["-u"], ["-e"]][(len(ws) + sum(map(sum, su))) % 3]
            yield base + mk("LEXEME", ws, "lex", word="w") + mk("SU", su, "statement"), o
    for ws in one:                       # speaker turns and no-score zones
        for sp in two:
            for ns in one if T else one[::2] + [((1, 3),)]:
                r = [INFO] + mk("LEXEME", ws, "lex", word="w") + mk("SPEAKER", sp, "<NA>") + mk("NOSCORE", ns, "<NA>", spk="<NA>")
                yield r, ["-u"]
    units = [(0, 1), (1, 2), (2, 3), (3, 4)]
    ips = [(t, s) for t in range(5) for s in ("edit", "filler", "edit&filler")]
    ipsets = [()] + [(x,) for x in ips] + [x for x in itertools.combinations(ips, 2) if x[0][0] != x[1][0]]
    for su in (((0, 4),), ((0, 2), (2, 4)), ((0, 1), (2, 4)), ((1, 3),)):
        for ed in one:                   # edits, fillers and interruption points
            for fi in one:
                for k, ip in enumerate(ipsets):
                    if T or len(ip) < 2 or (len(ed) and len(fi) and (k + ed[0][0] + 2 * fi[0][0] + fi[0][1]) % 6 == 0):
                        r = base + mk("LEXEME", units, "lex", word="w") + mk("SU", su, "statement") + mk("EDIT", ed, "simple") + mk("FILLER", fi, "filled_pause") + [rec("IP", t, None, s) for t, s in ip]
                        yield r, ["-u"]
    for ty in ("EDIT", "FILLER", "NON-LEX", "A/P", "SEGMENT", "NO_RT_METADATA", "NON-SPEECH", "SPEAKER", "NOSCORE"):   # overlap of any type
        sub = SUB.get(ty, ("<NA>",))[0]
        for xs in itertools.combinations_with_replacement(S, 2):
            for k2, f2, c2 in (("a", "t", "1"), ("b", "t", "1"), ("a", "u", "1"), ("a", "t", "2")):
                w = "<NA>"
                words = [rec("LEXEME", b, e - b, "lex", word="w", spk=k, f=f, c=c) for k, f, c in sorted({("a", "t", "1"), (k2, f2, c2)}) for b, e in units] if ty in ("EDIT", "FILLER") else []
                yield [INFO, rec("SPKR-INFO", sub="child", spk="b")] + words + [rec(ty, xs[0][0], xs[0][1] - xs[0][0], sub), rec(ty, xs[1][0], xs[1][1] - xs[1][0], sub, k2, w, f2, c2)], ["-u", "-s", "-e"]
    for dom, bn in ((";; EXP-ID: x_bnews_y\n", True), (";; EXP-ID: x_cts_y\n", False), (";; bnews\n", False)):
        for c in ("1", "2"):
            yield dom, bn, [INFO, rec("SPEAKER", 0, 4, c=c)]


def rttm_cases():
    for i, x in enumerate(itertools.chain(rttm_syntax(), rttm_logic())):
        if len(x) == 3:
            yield x[0] + text(x[2]), [], verdict(x[2], [], x[1]), x[0].strip()
            continue
        r, o = x
        if i % 2:
            r = r[::-1]
        yield (";; comment\n\n" if i % 3 else "") + text(r), o + (["-t"] if i % 5 else []), verdict(r, o), "%s" % " | ".join(" ".join(y) for y in r[:12])


def body(tools):
    js = []
    n = {}
    for tool, it in ((tools[0], stm_cases()), (build.REPO + "/src/ctmValidator/ctmValidator.pl", ctm_cases()), (build.REPO + "/src/rttmValidator/rttmValidator.pl", rttm_cases())):
        cs = list(it)
        n[os.path.basename(tool)] = [len(cs), sum(c[2] == 0 for c in cs)]
        js += [(tool, c) for c in chunks(cs, 400)]
    C.bounds["files and how many of them are well-formed"] = n
    C.parallel(judge, js)
    C.finish()


if __name__ == "__main__":
    mc.main(lambda: [build.perl_tool("stmValidator")], body)
