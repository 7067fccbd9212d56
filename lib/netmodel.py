"""Reference model of transcript networks and their alignment.

A transcript is a sequence of items: a word (str) or an alternation (tuple of alternatives, each a
sequence of items).  The word "@" is the null word: it stands for nothing.

The model of scoring is an explicit-state one: states are pairs (position in the reference network,
position in the hypothesis network), moves are delete / insert / match / substitute, and the least cost of
reaching the final state is computed over the complete reachable state graph.
"""
INF = 1 << 60


def text(items):
    out = []
    for it in items:
        if isinstance(it, tuple):
            out.append("{ " + " / ".join(text(a) for a in it) + " }")
        else:
            out.append(it)
    return " ".join(out)


class Net:
    """Acyclic word graph, null words dropped to epsilon arcs, epsilon-closed.
    states 0..n-1 numbered topologically; arcs[i] = [(word, j)], eps[i] = [j]."""

    __slots__ = ("n", "arcs", "eps", "final", "order")

    def __init__(self, items, null="@"):
        self.n = 1
        self.arcs = [[]]
        self.eps = [[]]
        self.final = self._seq(items, 0, null)
        self._topo()

    def _new(self):
        self.arcs.append([])
        self.eps.append([])
        self.n += 1
        return self.n - 1

    def _seq(self, items, s, null):
        for it in items:
            t = self._new()
            if isinstance(it, tuple):
                for alt in it:
                    e = self._seq(alt, s, null)
                    self.eps[e].append(t)
            elif it == null:
                self.eps[s].append(t)
            else:
                self.arcs[s].append((it, t))
            s = t
        return s

    def _topo(self):
        seen, order = set(), []

        def dfs(u):
            if u in seen:
                return
            seen.add(u)
            for _, v in self.arcs[u]:
                dfs(v)
            for v in self.eps[u]:
                dfs(v)
            order.append(u)
        dfs(0)
        self.order = order[::-1]


def least_cost(ref, hyp, delc, insc, subc, st=None):
    """Least cost over the complete product graph. delc(w), insc(w), subc(r, h)."""
    pos = {u: i for i, u in enumerate(ref.order)}
    hpos = {u: i for i, u in enumerate(hyp.order)}
    D = [[INF] * hyp.n for _ in range(ref.n)]
    D[0][0] = 0
    ns = nt = 0
    for u in ref.order:
        Du = D[u]
        for v in hyp.order:
            d = Du[v]
            if d >= INF:
                continue
            ns += 1
            for t in ref.eps[u]:
                nt += 1
                if d < D[t][v]:
                    D[t][v] = d
            for t in hyp.eps[v]:
                nt += 1
                if d < Du[t]:
                    Du[t] = d
            for w, t in ref.arcs[u]:
                nt += 1
                c = d + delc(w)
                if c < D[t][v]:
                    D[t][v] = c
                for x, y in hyp.arcs[v]:
                    nt += 1
                    c = d + subc(w, x)
                    if c < D[t][y]:
                        D[t][y] = c
            for x, y in hyp.arcs[v]:
                nt += 1
                c = d + insc(x)
                if c < Du[y]:
                    Du[y] = c
    if st is not None:
        st.add(states=ns, transitions=nt)
    return D[ref.final][hyp.final]


def is_path(net, words):
    """Is the word sequence one complete path of the network?"""
    cur = _close(net, {0})
    for w in words:
        nxt = set()
        for u in cur:
            for x, v in net.arcs[u]:
                if x == w:
                    nxt.add(v)
        if not nxt:
            return False
        cur = _close(net, nxt)
    return net.final in cur


def _close(net, s):
    st = list(s)
    s = set(s)
    while st:
        u = st.pop()
        for v in net.eps[u]:
            if v not in s:
                s.add(v)
                st.append(v)
    return s
