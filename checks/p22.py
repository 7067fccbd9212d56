#!/usr/bin/env python3
"""P22: md-eval's speaker mapping is one-to-one and optimal."""
import itertools, os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, mc
from diar import parse, mapping, best
from mc import Check, Fail, chunks, newdir

C = Check("P22", "exhaustive exploration of all small overlap matrices on the real md-eval.pl, the chosen mapping compared with the best of all one-to-one mappings",
          "every matrix of overlap times within the bounds (shape, values, unit of time, speaker names) is one trace",
          ["mappings with the same total are equally good", "overlap times are whole multiples of a unit of at least 0.01 s"])
T = C.thorough
NAMES = [("abcde", "vwxyz"), ("cabed", "zxvyw"), (("miss", "fa", "miss0", "B", "10"), ("fa", "miss", "fa0", "9", "10"))]


def run_batch(arg, st, fails, samples):
    batch, (unit, off, nm, twice, seed) = arg
    d = newdir()
    rn, sn = NAMES[nm]
    ovs = []
    with open(d + "/r.rttm", "w") as r, open(d + "/s.rttm", "w") as s:
        for n, m in enumerate(batch):
            t, ov = off, {}
            for _ in range(1 + twice):
                for i, row in enumerate(m):
                    for j, v in enumerate(row):
                        if v:
                            x = " f%05d 1 %.3f %.3f <NA> <NA> " % (n, t * unit, v * unit)
                            r.write("SPEAKER" + x + rn[i] + " <NA>\n")
                            s.write("SPEAKER" + x + sn[j] + " <NA>\n")
                            ov[rn[i], sn[j]] = ov.get((rn[i], sn[j]), 0) + v
                            t += v
            ovs.append(ov)
    cmd = ["perl", build.REPO + "/src/md-eval/md-eval.pl", "-a", "f", "-M", "m.csv", "-r", "r.rttm", "-s", "s.rttm"]
    rc, out, err = mc.run(cmd, cwd=d, timeout=600, env={"PERL_HASH_SEED": str(seed)})
    bad = at = None
    if rc != 0 or b"BGM" in err:
        bad = "md-eval fails (status %s): %s" % (rc, err[-300:].decode("latin-1"))
    else:
        got = parse(out.decode("latin-1"))
        mp = mapping(open(d + "/m.csv").read())
        for n, ov in enumerate(ovs):
            st.add(traces=1, states=len(ov), transitions=len(batch[n]) * len(batch[n][0]))
            if not ov:
                continue
            f = "f%05d" % n
            got_ov, pairs = mp.get((f, "1"), ({}, []))
            b = best(ov)
            if len({a for a, _ in pairs}) != len(pairs) or len({a for _, a in pairs}) != len(pairs):
                bad = "the mapping %s is not one-to-one" % pairs
            elif set(got_ov) != set(ov) or any(abs(got_ov[k] - ov[k] * unit) > 0.00011 for k in ov):
                bad = "overlap times %s, expected %s" % (got_ov, {k: v * unit for k, v in ov.items()})
            elif sum(ov[k] for k in pairs) != b:
                bad = "the mapping %s matches %g s, the best one %g s" % (pairs, sum(ov[k] for k in pairs) * unit, b * unit)
            elif "f=" + f not in got:
                bad = "no report on a file"
            elif abs(got["f=" + f][0]["SPEAKER ERROR TIME"][0] - (sum(ov.values()) - b) * unit) > 0.0051:
                bad = "speaker error time %s, expected %.3f" % (got["f=" + f][0]["SPEAKER ERROR TIME"][0], (sum(ov.values()) - b) * unit)
            if bad:
                at = f
                break
    if bad:
        keep = {f: "".join(x for x in open(d + "/" + f) if at is None or at in x) for f in ("r.rttm", "s.rttm")}
        fails.append(Fail(bad, key=bad, files=keep, cmd=" ".join(cmd), detail=bad).pack())
    elif not samples:
        samples.append({"matrices": len(batch), "first": batch[0], "unit": unit, "offset": off})
    shutil.rmtree(d)


def mats(n, m, vals):
    for x in itertools.product(vals, repeat=n * m):
        yield [x[i * m:i * m + m] for i in range(n)]


def jobs():
    sh = [(1, 1, (0, 1, 2)), (1, 4, range(4)), (4, 1, range(4)), (2, 2, range(7)), (2, 3, (0, 1, 2)), (3, 2, (0, 1, 2)), (2, 4, (0, 1, 2)), (4, 2, (0, 1, 2)),
          (3, 3, (0, 1, 2)), (2, 5, (0, 1)), (5, 2, (0, 1)), (3, 4, (0, 1)), (4, 3, (0, 1)), (2, 3, (3, 4, 5)), (3, 2, (3, 4, 5))]
    if T:
        sh += [(4, 4, (0, 1)), (3, 3, (0, 1, 2, 5)), (3, 3, (1, 2, 3)), (2, 4, range(4)), (4, 2, range(4)), (3, 5, (0, 1)), (5, 3, (0, 1)), (5, 5, None)]
    var = [(0.1, 0), (0.01, 0), (0.07, 3), (1.1, 0), (0.1, 12345)]
    k = 0
    for n, m, vals in sh:
        if vals is None:        # 5 x 5: all matrices with up to two entries per row, one of them the diagonal
            rows = [[tuple(2 if j == i else 1 if j == x else 0 if j != y else 3 for j in range(5)) for x, y in ((-1, -1), ((i + 1) % 5, -1), (-1, (i + 2) % 5), ((i + 1) % 5, (i + 3) % 5), ((i + 4) % 5, -1), (-1, (i + 4) % 5))] for i in range(5)]
            it = [list(x) for x in itertools.product(*rows)]
        else:
            it = mats(n, m, vals)
        for b in chunks(it, 300):
            for nm in range(3):
                if T or (nm + k) % 3 == 0 or n * m <= 6:
                    u, o = var[k % 5]
                    yield b, (u, o, nm, k % 2, k % 7)
            k += 1


def body(ctx):
    js = list(jobs())
    C.bounds.update(shapes="up to 4 x 4 and 5 x 5" if T else "up to 3 x 4 and 2 x 5", matrices=sum(len(b) for b, _ in js), units=[0.1, 0.01, 0.07, 1.1])
    C.parallel(run_batch, js)
    C.finish()


if __name__ == "__main__":
    mc.main(lambda: None, body)
