"""Many runs of one perl script (compiled once, forked for every run)."""
import os, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))


class Script:
    def __init__(self, path):
        self.p = subprocess.Popen(["perl", HERE + "/perlfork.pl", path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    def run(self, cwd, args, stdin="-", out="-", err="-"):
        """Exit status; stdin, out, err are file names relative to cwd."""
        self.p.stdin.write(("\t".join([cwd, stdin, out, err] + list(args)) + "\n").encode())
        self.p.stdin.flush()
        ln = self.p.stdout.readline()
        if not ln:
            raise RuntimeError("perl driver died")
        return int(ln)

    def close(self):
        self.p.stdin.close()
        self.p.wait()
