"""A directory with everything hubscr calls, built from the tree under test."""
import glob, os, shutil
import build


def bindir(to):
    """Fills the directory `to`; returns hubscr's path."""
    R = build.REPO
    os.makedirs(to, exist_ok=True)

    def put(src, name):
        dst = os.path.join(to, name)
        shutil.copy(src, dst)
        os.chmod(dst, 0o755)
    s, a, r = build.sclite(), build.asclite(), build.rfilter1()
    for d, n in ((s, "sclite"), (s, "sc_stats"), (a, "asclite"), (r, "rfilter1")):
        put(os.path.join(d, n), n)
    for f in glob.glob(os.path.join(R, "src", "*", "*.pl")) + [os.path.join(R, "src/csrfilt/csrfilt.sh")]:
        if os.path.basename(f) not in ("RunTests.pl", "buildPack.pl", "buildInstallVersion.pl"):
            put(f, os.path.basename(f))
    for n in ("align2html", "stmValidator"):
        put(build.perl_tool(n), n + ".pl")
    return os.path.join(to, "hubscr.pl")
