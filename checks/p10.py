#!/usr/bin/env python3
"""P10: alignment by diff keeps every word of both texts."""
import itertools, os, re, shutil, subprocess, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, mc, netmodel as nm, sgml
from mc import Check, Fail, chunks, newdir

C = Check("P10", "exhaustive exploration of transcript files on the real sclite -d (trn, stm/ctm and stm/txt, with the real diff child process); every alignment judged for word conservation",
          "every file of utterances within the bounds is one state; its alignment must hold each word of both texts once, in order",
          ["words hold no blanks, and are none of the single characters { } / @", "alternations are not nested"])
T = C.thorough


def first(r):
    """words of the first reading"""
    out = []
    for w in r:
        out += [w] if isinstance(w, str) else [x for x in w[0]]
    return [w for w in out if w != "@"]


def one(arg, st, fails, samples):
    mode, cs, case, nl = arg
    fold = (lambda w: w) if cs else str.lower
    d = newdir()
    files = {}
    filed = []
    long = any(len(w.encode()) > 61 for r, h in case for w in first(r) + list(h))
    mark = any(w in "<>|" for r, h in case for w in first(r) + list(h))
    try:
        if mode == "trn":
            files["r"] = "".join("%s (s%d_%d)\n" % (nm.text(r), k % 2, k) for k, (r, h) in reversed(list(enumerate(case))))
            files["h"] = "".join("%s (s%d_%d)\n" % (nm.text(h), k % 2, k) for k, (r, h) in enumerate(case))
            inp = ["-r", "r", "-h", "h", "-i", "spu_id"]
            groups = [list(range(len(case)))]
        else:
            # ctm: every odd case index beyond the first half goes to channel 2
            ch = [1 if mode == "ctm" or k < (len(case) + 1) // 2 else 2 for k in range(len(case))] if mode != "txt" else [1] * len(case)
            files["r"] = "".join("f %d S%d %d %d %s\n" % (ch[k], k % 2, 8 * k, 8 * k + 8, nm.text(r)) for k, (r, h) in enumerate(case))
            if mode == "txt":
                files["h"] = "".join(" ".join(h) + "\n" for r, h in case)
                inp = ["-r", "r", "stm", "-h", "h", "txt"]
            else:
                files["h"] = "".join("f %d %g 0.125 %s\n" % (ch[k], 8 * k + j * .25, w) for k, (r, h) in enumerate(case) for j, w in enumerate(h))
                inp = ["-r", "r", "stm", "-h", "h", "ctm"]
            groups = [[k for k in range(len(case)) if ch[k] == c] for c in sorted(set(ch))]
        if not nl:
            files = {n: t[:-1] for n, t in files.items()}
        for n, t in files.items():
            with open(os.path.join(d, n), "wb") as f:
                f.write(mc.enc(t))
        cmd = [work.S + "/sclite"] + inp + ["-d", "-o", "sgml", "-O", ".", "-n", "out", "-f", "0"] + (["-s"] if cs else [])
        p = subprocess.Popen(cmd, cwd=d, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
        try:
            o, _ = p.communicate(timeout=60)
        except subprocess.TimeoutExpired:
            p.kill()
            raise Fail("sclite -d does not end")
        if p.returncode:
            raise Fail("sclite -d ended with %d: %r" % (p.returncode, o[-300:]))
        sy = sgml.parse(open(d + "/out.sgml", "rb").read())
        ps = sorted(sy[0].paths, key=lambda p: int(p.attrs["sequence"]))
        if len(ps) != len(case):
            raise Fail("%d utterances in the alignment, %d in the files" % (len(ps), len(case)))
        for k, p in enumerate(ps):
            if mode == "trn" and p.attrs["id"] != "(s%d_%d)" % (k % 2, k):
                raise Fail("utterance %s in place %d" % (p.attrs["id"], k))
            if mode != "trn" and p.attrs.get("channel") != str(ch[k]):
                raise Fail("utterance %d of channel %d is filed under channel %s" % (k, ch[k], p.attrs.get("channel")))
            if mode != "trn" and p.attrs.get("file") != "f":
                m = "utterance %d of file f is filed under file %s" % (k, p.attrs.get("file"))
                if mode == "txt" or p.attrs.get("file") != str(ch[k]):
                    raise Fail(m)
                if not filed:
                    filed.append(Fail(m, "file is the channel with -d").pack())
            if p.speaker != ("s%d" if mode == "trn" or not cs else "S%d") % (k % 2):
                raise Fail("utterance %d is filed under speaker %s" % (k, p.speaker))
            got = [w[1] for w in p.words if w[1]]
            exp = [fold(w) for w in first(case[k][0])]
            if got != exp:
                raise Fail("reference words of utterance %d: %s, expected %s" % (k, got, exp))
            for w in p.words:
                e = "D" if not w[2] else "I" if not w[1] else "C" if w[1] == w[2] else "S"
                if w[0] != e:
                    raise Fail("%r is labelled %s" % (w[1:3], w[0]))
        for g in groups:
            got = [w[2] for k in g for w in ps[k].words if w[2]]
            exp = [fold(w) for k in g for w in case[k][1]]
            if got != exp:
                raise Fail("hypothesis words: %s, expected %s" % (got, exp))
        fails.extend(filed)
        n = sum(len(p.words) for p in ps)
        st.add(states=1, transitions=n, traces=1, **{mode: 1})
    except Fail as f:
        f.msg = "%s%s %s: %s" % (mode, " -s" if cs else "", " ; ".join("'%s' vs '%s'" % (nm.text(r), " ".join(h)) for r, h in case)[:300], f.msg)
        f.files, f.cmd = files, "sclite ... -d"
        if long:
            f.key = "word of more than 61 bytes with -d"
        elif mark:
            f.key = "diff marker as a word with -d"
        fails.append(f.pack())
    finally:
        shutil.rmtree(d, ignore_errors=True)


def work(batch, st, fails, samples):
    for a in batch:
        one(a, st, fails, samples)


def seqs(v, n, lo=0):
    return [t for k in range(lo, n + 1) for t in itertools.product(v, repeat=k)]


def cases():
    s2 = seqs("ab", 2)
    s3 = seqs("abc", 3)
    # one utterance
    for r in s3 if T else seqs("abc", 2):
        for h in s3 if T else seqs("abc", 2):
            yield "trn", False, [(r, h)], True
            yield "txt", True, [(r, h)], True
            if h and r:
                yield "ctm", False, [(r, h)], True
    # two utterances: insertions at every boundary
    for r1, h1, r2, h2 in itertools.product(s2 if T else seqs("ab", 2, 0)[::2], repeat=4):
        for m in ("trn", "txt"):
            yield m, False, [(r1, h1), (r2, h2)], True
        if h1 and h2:
            for m in ("ctm", "ctm2"):
                yield m, False, [(r1, h1), (r2, h2)], True
    # three utterances over one word, no newline at the end
    for t in itertools.product(seqs("a", 1), repeat=6):
        for m in ("trn", "txt"):
            yield m, False, [t[0:2], t[2:4], t[4:6]], False
    # case, alternations
    for r in seqs(["a", "A"], 2):
        for h in seqs(["a", "A"], 2):
            for cs in (False, True):
                yield "trn", cs, [(r, h)], True
                yield "txt", cs, [(r, h)], True
                if h and r:
                    yield "ctm", cs, [(r, h)], True
    for a, b in itertools.product(seqs("ab", 2, 1) + [("@",)], repeat=2):
        for h in s2:
            yield "trn", False, [(("c", (a, b), "a"), h)], True
            yield "txt", False, [(((a, b),), h)], True
            if h:
                yield "ctm", False, [(((a, b), "b"), h)], True
    # lengths of words and lines around the buffer sizes
    for n in (list(range(1, 62)) + [62, 63, 99, 100, 101, 130, 200]) if T else [1, 7, 8, 9, 30, 31, 59, 60, 61, 62, 100, 200]:
        w = "w" * n
        for r, h in (((w,), (w,)), ((w, "a"), ("a",)), (("a",), (w, "a")), ((w,), ("x" * n,)), ((w[:-1] + "y",), (w,))):
            if r[0]:
                for m in ("trn", "txt", "ctm"):
                    yield m, True, [(r, h), (("q",), ("q",))], True
    for n in list(range(44, 60)) + [98, 99, 100, 101] + (list(range(150, 160)) if T else []):
        for m in ("trn", "txt", "ctm", "ctm2"):
            yield m, True, [(("a",) * n, ("a",) * n), (("b",) * (n + 1), ("b",) * n), (("c",), ("c",))], True
    for w in "<>|":
        yield "trn", True, [(("a", w), ("a",))], True
    for w in ["<a", ">>", "||", "a|", "\\a", "(a", "a)", "%s", "%n", "it's", "a-", "-"]:
        for r, h in ((("k", w, "a"), ("a",)), (("a",), ("a", w)), (("k", w), ("k", w)), (("k", w), ("a",))):
            for m in ("trn", "ctm"):
                yield m, True, [(r, h)], True


def san(arg, st, fails, samples):
    """the same programs under the address sanitizer, around the line buffer sizes"""
    keep = work.S
    work.S = work.SAN
    try:
        work(arg, st, fails, samples)
    finally:
        work.S = keep


def sets(arg, st, fails, samples):
    """hypotheses that miss files or channels of the reference, or have more: refused, or scored in full"""
    for rs, hs in arg:
        d = newdir()
        files = {"r": "".join("%s %s s 0 10 %s%s x\n" % (k[0], k[1], k[0], k[1]) for k in rs),
                 "h": "".join("%s %s 1 .1 %s%s\n%s %s 2 .1 x\n" % (k[0], k[1], k[0], k[1], k[0], k[1]) for k in hs) or ";; none\n"}
        cmd = [work.SAN + "/sclite", "-r", "r", "stm", "-h", "h", "ctm", "-d", "-f", "0", "-o", "sgml", "stdout"]
        try:
            for k, t in files.items():
                with open(d + "/" + k, "w") as f:
                    f.write(t)
            rc, o, e = mc.run(cmd, cwd=d, timeout=60, env={"ASAN_OPTIONS": "detect_leaks=0"})
            if rc not in (0, 1) or b"Sanitizer" in e:
                raise Fail("sclite -d ended with %s: %s" % (rc, e[-300:]), files=files, cmd=" ".join(cmd))
            if rc == 0:
                w = re.findall(rb'[CSDI],("[^"]*")?,("[^"]*")?', o)
                r = [x[0].strip(b'"').decode() for x in w if x[0]]
                h = [x[1].strip(b'"').decode() for x in w if x[1]]
                if r != sum([["%s%s" % k, "x"] for k in rs], []) or h != sum([["%s%s" % k, "x"] for k in hs], []):
                    raise Fail("not all words of the files and channels are in the alignment: reference %s, hypothesis %s" % (r, h), files=files, cmd=" ".join(cmd))
            elif rs == hs:
                raise Fail("hypothesis with the files and channels of the reference is refused: %s" % e[-200:], files=files, cmd=" ".join(cmd))
            st.add(traces=1, states=1, transitions=1)
        except Fail as f:
            fails.append(f.pack())
        finally:
            shutil.rmtree(d)


STEPS = 3        # sclite opens the hypothesis three times: to collect the ids, to write its words, to read its ids again


def temps():
    return {n for n in os.listdir("/tmp") if n.startswith(("ref.", "hyp.")) and os.path.isfile("/tmp/" + n)}


def schedules(n):
    """all interleavings of n runs' steps"""
    return sorted(set(itertools.permutations(sum([[k] * STEPS for k in range(n)], []))))


def feed(p, fifo, text):
    """waits until the process opens the FIFO, and until it has read it; False if it ends instead"""
    t0 = time.time()
    while True:
        if time.time() - t0 > 60:
            raise RuntimeError("sclite -d neither ends nor reads")
        try:
            fd = os.open(fifo, os.O_WRONLY | os.O_NONBLOCK)
            break
        except OSError:
            if p.poll() is not None:
                return False
            time.sleep(0.001)
    # the writing end stays open until the reader has the file open, and no new one is opened until it has closed it
    for step in (True, False):
        while p.poll() is None and has_open(p.pid, fifo) != step:
            if time.time() - t0 > 60:
                raise RuntimeError("sclite -d does not read on")
            time.sleep(0.001)
        if step:
            os.write(fd, text)
            os.close(fd)
    return True


def has_open(pid, name):
    try:
        for x in os.listdir("/proc/%d/fd" % pid):
            try:
                if os.readlink("/proc/%d/fd/%s" % (pid, x)) == name:
                    return True
            except FileNotFoundError:
                pass
    except FileNotFoundError:
        pass
    return False


def interleave(sched, st, fails, mine):
    """runs sclite -d concurrently; their hypotheses are FIFOs, which are filled in the order of the schedule"""
    n = max(sched) + 1
    d = newdir()
    ps = []
    try:
        # leftovers of earlier runs under the next process ids
        q = subprocess.Popen(["true"])
        q.wait()
        stale = set()
        for k in range(1, 10):
            for b in "ref", "hyp":
                t = "%s.%d" % (b, q.pid + k)
                if not os.path.lexists("/tmp/" + t):
                    open("/tmp/" + t, "w").close()
                    stale.add(t)
        mine |= stale
        texts = []
        for k in range(n):
            w = "xyz"[k]
            os.mkfifo("%s/h%d" % (d, k))
            with open("%s/r%d" % (d, k), "w") as f:
                f.write("%s %s (s_1)\n%s c (s_2)\n" % (w, w * 2, w))
            texts.append("%s %s%s (s_1)\n%s (s_2)\n" % (w, w, w, w * 3))
            ps.append(subprocess.Popen([work.S + "/sclite", "-r", "r%d" % k, "-h", "h%d" % k, "-i", "spu_id", "-d", "-s", "-o", "sgml", "-O", ".", "-n", "out%d" % k, "-f", "0"],
                                       cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL))
        opens = 0
        for k in itertools.chain(sched, itertools.cycle(range(n))):
            if opens > 20 * n:
                raise RuntimeError("sclite -d opens its hypothesis over and over")
            if all(p.poll() is not None for p in ps):
                break
            opens += feed(ps[k], "%s/h%d" % (d, k), texts[k].encode())
        for k, p in enumerate(ps):
            o, _ = p.communicate()
            if p.returncode:
                raise Fail("run %d of %d ended with %d: %r" % (k, n, p.returncode, o[-200:]))
            w = "xyz"[k]
            got = [[(x[0], x[1], x[2]) for x in q.words] for q in sgml.parse(open("%s/out%d.sgml" % (d, k), "rb").read())[0].paths]
            r = [x[1] for u in got for x in u if x[1]]
            h = [x[2] for u in got for x in u if x[2]]
            if r != [w, w * 2, w, "c"] or h != [w, w * 2, w * 3]:
                raise Fail("run %d of %d: words %s / %s are not those of its own files" % (k, n, r, h))
        st.add(states=1, transitions=opens, traces=n, schedules=1)
    except Fail as f:
        f.msg = "concurrent runs, hypotheses read in the order %s: %s" % ("".join(map(str, sched)), f.msg)
        fails.append(f.pack())
    finally:
        for p in ps:
            if p.poll() is None:
                p.kill()
            p.wait()
            p.stdout.close()
        shutil.rmtree(d, ignore_errors=True)


def both():
    return build.sclite(), build.sclite(san=True)


def body(b):
    work.S, work.SAN = b
    C.bounds["files"] = "1 utterance over 3 words up to length %d; all pairs of utterances over 2 words up to length 2%s; word lengths to 200, line lengths around the buffer sizes" % (3 if T else 2, "" if T else " (half of them)")
    before = temps()
    js = list(cases())
    C.parallel(work, chunks(js, 40))
    # words of 1-30 letters: lines of every length around the 100-byte buffers
    ls = []
    for n in range(94, 108):
        line = ("a" * 9 + " ") * 20
        r = tuple(w for w in line[:n].split(" ") if w)
        ls += [(m, True, [(r, ("b",)), (r + ("c",), ("b",)), (r, ("b",))], True) for m in ("trn", "txt", "ctm")]
    C.parallel(san, chunks(ls, 4))
    U = [("f", "1"), ("f", "2"), ("g", "1"), ("g", "2")] + ([("h", "1")] if T else [])
    sub = [c for n in range(len(U) + 1) for c in itertools.combinations(U, n)]
    C.parallel(sets, chunks([(r, h) for r in sub[1:] for h in sub], 12))
    sch = schedules(2) + (schedules(3) if T else [])
    C.bounds["schedules"] = "all %d interleavings of %s concurrent runs at their file reads, with leftover temporary files present" % (len(sch), "2 and of 3" if T else "2")
    mine = set()
    C.serial(lambda arg, st, fails, samples: [interleave(x, st, fails, mine) for x in arg], sch)
    if not C.fails:
        left = temps() - before - mine
        if left:
            C.serial(lambda arg, st, fails, samples: fails.append(Fail("temporary files left behind in /tmp: %s" % sorted(left)[:6]).pack()), 0)
    for t in temps() - before:
        os.unlink("/tmp/" + t)
    C.finish()


if __name__ == "__main__":
    mc.main(both, body)
