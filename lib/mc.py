"""Common harness: tiers, exhaustive batches over worker processes, evidence, known findings, replays."""
import atexit, hashlib, json, multiprocessing as mp, os, resource, shutil, subprocess, sys, tempfile, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build

VERIF = build.VERIF
REPO = build.REPO
ENV = dict(build.ENV)
NPROC = int(os.environ.get("VERIF_NPROC", "0")) or min(8, os.cpu_count() or 1)

_scratch = None


def scratch():
    """A private scratch directory, removed at exit."""
    global _scratch
    if _scratch is None or _scratch[0] != os.getpid():
        root = os.environ.get("VERIF_SCRATCH_ROOT")
        if not root:
            root = tempfile.mkdtemp(prefix="vmc.")
            os.environ["VERIF_SCRATCH_ROOT"] = root
            pid = os.getpid()
            atexit.register(lambda: os.getpid() == pid and shutil.rmtree(root, ignore_errors=True))
        d = tempfile.mkdtemp(dir=root)
        _scratch = (os.getpid(), d)
    return _scratch[1]


_n = 0


def newdir():
    global _n
    _n += 1
    d = os.path.join(scratch(), "d%d" % _n)
    os.mkdir(d)
    return d


def enc(s):
    return s if isinstance(s, bytes) else s.encode("utf-8", "surrogateescape")


# A program that writes without end is stopped by this limit (SIGXFSZ) instead of filling the disk.
FSIZE = 64 << 20


def run(cmd, cwd=None, stdin=None, timeout=60, env=None):
    """-> (rc, stdout bytes, stderr bytes); rc 'timeout' on time out."""
    e = ENV if env is None else dict(ENV, **env)
    if resource.getrlimit(resource.RLIMIT_FSIZE)[0] != FSIZE:
        resource.setrlimit(resource.RLIMIT_FSIZE, (FSIZE, FSIZE))
    d = scratch()
    with open(os.path.join(d, "std.out"), "w+b") as fo, open(os.path.join(d, "std.err"), "w+b") as fe:
        try:
            r = subprocess.run(cmd, cwd=cwd, input=enc(stdin) if stdin is not None else None,
                               stdin=None if stdin is not None else subprocess.DEVNULL,
                               stdout=fo, stderr=fe, timeout=timeout, env=e)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
            _hang(cmd, cwd, stdin, timeout)
        fo.seek(0)
        fe.seek(0)
        return rc, fo.read(), fe.read()


def _hang(cmd, cwd, stdin, seconds):
    """Note a program that does not end, so that the check does not wait for the same again and again."""
    root = os.path.join(os.environ["VERIF_SCRATCH_ROOT"], "hangs")
    os.makedirs(root, exist_ok=True)
    files = {} if stdin is None else {"stdin": enc(stdin)[:1 << 20].decode("latin-1")}
    for n in sorted(os.listdir(cwd or "."))[:20] if cwd else []:
        p = os.path.join(cwd, n)
        if os.path.isfile(p) and os.path.getsize(p) < 1 << 20:
            files[n] = open(p, "rb").read().decode("latin-1")
    fd, name = tempfile.mkstemp(dir=root, suffix=".tmp")
    with os.fdopen(fd, "w") as f:
        json.dump({"cmd": " ".join(map(str, cmd)), "files": files, "seconds": seconds}, f)
    os.rename(name, name[:-4])


def hangs():
    root = os.path.join(os.environ["VERIF_SCRATCH_ROOT"], "hangs")
    return [json.load(open(os.path.join(root, n))) for n in os.listdir(root) if not n.endswith(".tmp")] if os.path.isdir(root) else []


def run_in(files, cmd, stdin=None, timeout=60, keep=False, outputs=(), env=None):
    """Write files {name: content} to a fresh directory, run cmd there.
    -> (rc, out, err, {output name: bytes or None})"""
    d = newdir()
    try:
        for n, c in files.items():
            p = os.path.join(d, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(enc(c))
        rc, o, e = run(cmd, cwd=d, stdin=stdin, timeout=timeout, env=env)
        got = {}
        for n in outputs:
            p = os.path.join(d, n)
            got[n] = open(p, "rb").read() if os.path.isfile(p) else None
        return rc, o, e, got
    finally:
        if not keep:
            shutil.rmtree(d, ignore_errors=True)


class Fail(Exception):
    """One violation.  key identifies it for the known-findings file."""

    def __init__(self, msg, key=None, files=None, cmd=None, detail=None):
        Exception.__init__(self, msg)
        self.msg, self.key, self.files, self.cmd, self.detail = msg, key, files or {}, cmd, detail

    def pack(self):
        return {"msg": self.msg, "key": self.key, "files": self.files, "cmd": self.cmd, "detail": self.detail}


class Stats(dict):
    def add(self, **kw):
        for k, v in kw.items():
            self[k] = self.get(k, 0) + v

    def merge(self, o):
        for k, v in o.items():
            self[k] = self.get(k, 0) + v


def _work(a):
    fn, arg = a
    st = Stats()
    fails = []
    samples = []
    try:
        fn(arg, st, fails, samples)
    except Fail as f:
        fails.append(f.pack())
    except (OSError, MemoryError):
        return st, fails, samples, traceback.format_exc()
    except Exception:
        # On the tree the checks were written against nothing gets here: what the program wrote could
        # not be interpreted at all.
        fails.append(Fail("the program's output could not be interpreted: " + traceback.format_exc()[-1500:],
                          detail=repr(arg)[:3000]).pack())
    return st, fails, samples, None


class Check:
    def __init__(self, pid, technique, rule, assumptions=(), level="model_checking"):
        self.pid, self.technique, self.rule, self.level = pid, technique, rule, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in sys.argv:
            self.tier = "thorough"
        elif "--quick" in sys.argv:
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.stats = Stats()
        self.fails = []
        self.samples = []
        self.bounds = {}
        self.assumptions = list(assumptions)
        self.broken = None
        self.maxfail = 20
        p = os.path.join(VERIF, "known_findings.json")
        self.known = [k for k in json.load(open(p))["findings"] if k["property"] == pid] if os.path.exists(p) else []

    def parallel(self, fn, args, chunksize=1):
        """fn(arg, stats, fails, samples) over every arg (all of them, always)."""
        scratch()
        first = None
        with mp.get_context("fork").Pool(NPROC) as pool:
            it = pool.imap_unordered(_work, ((fn, a) for a in args), chunksize)
            while True:
                try:
                    st, fails, samples, tb = it.next(timeout=5)
                except StopIteration:
                    break
                except mp.TimeoutError:
                    h = hangs()
                    if sum(x["seconds"] for x in h) >= 100:
                        self.fails += [Fail("the program does not end (stopped after %s s)" % x["seconds"], files={n: c.encode("latin-1") for n, c in x["files"].items()}, cmd=x["cmd"]).pack() for x in h]
                        pool.terminate()
                        break
                    if first and time.time() - first > 60:
                        pool.terminate()
                        break
                    continue
                self.stats.merge(st)
                self.fails += fails
                if len(self.samples) < 12:
                    self.samples += samples[:2]
                if tb and not self.broken:
                    self.broken = tb
                nk = sum(1 for f in self.fails if not self._known(f))
                if nk and not first:
                    first = time.time()
                if first and time.time() - first > 60:
                    pool.terminate()
                    break
                if nk >= self.maxfail or (self.broken and nk == 0 and False):
                    pool.terminate()
                    break

    def serial(self, fn, arg):
        st, fails, samples, tb = _work((fn, arg))
        self.stats.merge(st)
        self.fails += fails
        self.samples += samples[:2]
        if tb and not self.broken:
            self.broken = tb

    def _known(self, f):
        for k in self.known:
            if f["key"] is not None and k.get("key") == f["key"]:
                return k
        return None

    def finish(self):
        known, new = {}, []
        for f in self.fails:
            k = self._known(f)
            if k:
                known[k["key"]] = k
            else:
                new.append(f)
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": {
                "states": int(self.stats.get("states", 0)),
                "transitions": int(self.stats.get("transitions", 0)),
                "traces_validated_against_impl": int(self.stats.get("traces", 0)),
                "exhaustive": True,
                "rule": self.rule,
                "bounds": self.bounds,
                "counters": {k: v for k, v in sorted(self.stats.items())},
                "samples": self.samples[:8],
            },
            "wall_s": round(time.time() - self.t0, 2),
            "assumptions": self.assumptions,
            "violations": len(new),
        }
        if self.broken:
            ev["coverage"]["exhaustive"] = False
            ev["coverage"]["broken"] = self.broken[-2000:]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
        print("%s %s: states=%s transitions=%s traces=%s wall=%.1fs %s" % (
            self.pid, self.tier, ev["coverage"]["states"], ev["coverage"]["transitions"],
            ev["coverage"]["traces_validated_against_impl"], ev["wall_s"],
            {k: v for k, v in self.stats.items() if k not in ("states", "transitions", "traces")}))
        for k in known.values():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        if new:
            root = os.path.join(VERIF, "replay", self.pid)
            shutil.rmtree(root, ignore_errors=True)
            for i, f in enumerate(new[:5]):
                d = os.path.join(root, "case%d" % i)
                os.makedirs(d)
                for n, c in (f["files"] or {}).items():
                    p = os.path.join(d, n)
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    with open(p, "wb") as o:
                        o.write(enc(c))
                with open(os.path.join(d, "README.txt"), "w", encoding="utf-8", errors="surrogateescape") as o:
                    o.write("property: %s\nwhat: %s\ncommand: %s\ndetail: %s\n" % (
                        self.pid, f["msg"], f["cmd"], f["detail"]))
                print("VIOLATION property=%s replay=%s" % (self.pid, d))
                print("   " + str(f["msg"])[:600])
            if len(new) > 5:
                print("   ... %d violations in all" % len(new))
            sys.stdout.flush()
            sys.exit(1)
        if self.broken:
            print("CHECK BROKEN (no verdict):\n" + self.broken)
            sys.exit(2)
        if not self.stats.get("traces"):
            print("CHECK BROKEN (nothing explored)")
            sys.exit(2)
        sys.exit(0)


def chunks(it, n):
    buf = []
    for x in it:
        buf.append(x)
        if len(buf) >= n:
            yield buf
            buf = []
    if buf:
        yield buf


def bisect_batch(runner, cases, limit=3):
    """A batch died or is malformed: find the smallest culprit cases by bisection.
    runner(cases) -> None if fine, else a message.  Returns [(cases, message)]."""
    msg = runner(cases)
    if msg is None:
        return []
    if len(cases) == 1:
        return [(cases, msg)]
    h = len(cases) // 2
    out = []
    for part in (cases[:h], cases[h:]):
        out += bisect_batch(runner, part, limit)
        if len(out) >= limit:
            break
    return out or [(cases, msg)]


def main(build_fn, body):
    """build_fn() may raise BuildError: the tree does not build -> no verdict."""
    try:
        ctx = build_fn()
    except build.BuildError as x:
        print("BUILD FAILED\n%s" % x)
        sys.exit(2)
    body(ctx)
