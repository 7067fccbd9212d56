"""Reading and judging rover's networks."""
import re
from mc import Fail


def parse_putat(text):
    """{(file, channel): [[(word, t1, t2, conf, system), ...] per set]}"""
    nets, cur = {}, None
    lines = text.splitlines()
    if not lines or not lines[0].startswith("<input names="):
        raise Fail("no header in the output: %r" % text[:80])
    names = re.match(r'<input names="(.*)">$', lines[0]).group(1).split()
    for l in lines[1:]:
        m = re.match(r"<putative_tag file=(\S*) chan=(\S*) >$", l)
        if m:
            if cur is not None:
                raise Fail("nested set")
            cur = []
            nets.setdefault((m.group(1), m.group(2).upper()), []).append(cur)
            continue
        if l == "</putative_tag >":
            cur = None
            continue
        m = re.match(r'   <attrib tag="(.*)" t1="([-\d.]+)" t2="([-\d.]+)" conf="([-\d.]+)" tag1="(.*)">$', l)
        if not m or cur is None:
            raise Fail("unexpected line %r" % l)
        w, a, b, c, s = m.groups()
        cur.append((w, float(a), float(b), float(c), names.index(s) if s in names else None))
    if cur is not None:
        raise Fail("last set is not closed")
    return nets


def near(a, b, tol=2e-4):
    return abs(a - b) < tol


def norm(w, opts):
    return w if "-s" in opts else w.lower()


def pair_cost(a, b, timed):
    """cost of matching arc a with word b; None for no word. arcs are (word, t1, t2)"""
    if a is None or b is None:
        x = a or b
        if x[0] == "@":
            return 0.001
        return x[2] - x[1] if timed else 3.0
    if timed:
        return abs(a[1] - b[1]) + abs(a[2] - b[2]) + (0.0 if a[0] == b[0] else 0.001)
    if a[0] == "@" and b[0] == "@":
        return 1.0
    if a[0] == b[0]:
        return 0.0
    return 1.0 if "@" in (a[0], b[0]) else 4.0


def check_net(cs, ss, opts, cost):
    """cs: sets of one section; ss: words of each system"""
    n = len(ss)
    null = float(opts[opts.index("-c") + 1]) if "-c" in opts else 0.0
    for k, s in enumerate(cs):
        if len(s) != n:
            raise Fail("set %d has %d entries for %d systems" % (k, len(s), n))
        own = [x[4] for x in s if x[4] is not None]
        if len(own) != len(set(own)):
            raise Fail("set %d has two words of one system" % k)
        for x in s:
            if x[4] is None and (x[0] != "@" or not near(x[3], null)):
                raise Fail("set %d: entry %r of no system" % (k, x))
        if not own:
            raise Fail("set %d has no word" % k)
    for i in range(n):
        got = [x for s in cs for x in s if x[4] == i]
        exp = [(norm(w, opts), t, t + d, c) for w, t, d, c in ss[i]]
        if len(got) != len(exp) or any(g[0] != e[0] or not near(g[1], e[1], 2e-3) or not near(g[2], e[2], 2e-3) or not near(g[3], e[3]) for g, e in zip(got, exp)):
            raise Fail("system %d reads %s through the sets, its words are %s" % (i, [g[:4] for g in got], exp))
    if not cost:
        return
    timed = "-T" in opts
    NULL = ("@", 0.0, 0.0)
    rows = [[next(((x[0], x[1], x[2]) for x in s if x[4] == i), None) for i in range(n)] for s in cs]
    for k in range(1, n):
        comp = [r for r in rows if any(r[:k + 1])]
        real = 0.0
        for r in comp:
            if not any(r[:k]):
                real += pair_cost(None, r[k], timed)
            else:
                arcs = [a or NULL for a in r[:k]]
                real += min(pair_cost(a, r[k], timed) for a in arcs)
        base = [[a or NULL for a in r[:k]] for r in rows if any(r[:k])]
        hyp = [(norm(w, opts), t, t + d) for w, t, d, c in ss[k]]
        dl = [min(pair_cost(a, None, timed) for a in arcs) for arcs in base]
        row = [0.0]
        for h in hyp:
            row.append(row[-1] + pair_cost(None, h, timed))
        for j, arcs in enumerate(base):
            new = [row[0] + dl[j]]
            for m, h in enumerate(hyp):
                new.append(min(row[m + 1] + dl[j], new[m] + pair_cost(None, h, timed), row[m] + min(pair_cost(a, h, timed) for a in arcs)))
            row = new
        if real > row[-1] + (4e-4 if not timed else 4e-4) * (1 + len(rows) / 50):
            raise Fail("system %d is merged at a cost of %.4f, %.4f is possible; sets: %s" % (k, real, row[-1], [[x and x[0] for x in r[:k + 1]] for r in comp]))
