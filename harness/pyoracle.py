"""Reference computations for the drivers that are written in Python."""
import itertools, math

INF = float("inf")


def faces(s):
    return [s[:i] + s[i + 1:] for i in range(len(s))] if len(s) > 1 else []


def closure(gens):
    K = set()
    for g in gens:
        g = tuple(sorted(set(g)))
        for k in range(1, len(g) + 1):
            K.update(itertools.combinations(g, k))
    return K


def reduce(simplices):
    """simplices: list of sorted tuples in filtration order; returns (pairs, essential indices)."""
    idx = {s: i for i, s in enumerate(simplices)}
    low, pairs, killed = {}, [], set()
    creators = []
    for j, s in enumerate(simplices):
        col = set(idx[f] for f in faces(s))
        while col:
            m = max(col)
            if m not in low:
                break
            col ^= low[m]
        if col:
            m = max(col)
            low[m] = col
            killed.add(m)
            pairs.append((m, j))
        else:
            creators.append(j)
    return pairs, [j for j in creators if j not in killed]


def order(weights):
    """weights: dict simplex -> weight; a filtration order"""
    return sorted(weights, key=lambda s: (weights[s], len(s), s))


def diagrams(weights, seq=None, include_top=False):
    """dimension -> sorted list of (birth, death), without points of zero persistence"""
    seq = order(weights) if seq is None else seq
    pairs, essential = reduce(seq)
    top = max((len(s) for s in seq), default=0) - 1
    D = {}
    for i, j in pairs:
        if weights[seq[i]] != weights[seq[j]]:
            D.setdefault(len(seq[i]) - 1, []).append((weights[seq[i]], weights[seq[j]]))
    for i in essential:
        if include_top or len(seq[i]) - 1 != top:
            D.setdefault(len(seq[i]) - 1, []).append((weights[seq[i]], INF))
    return {k: sorted(v) for k, v in D.items()}


def rips(n, dist, epsilon, dimension):
    """Vietoris--Rips complex: all cliques of at most dimension+1 vertices with diameter <= epsilon"""
    W = {(i,): 0.0 for i in range(n)}
    level = [((i,), 0.0) for i in range(n)]
    for d in range(1, dimension + 1):
        nxt = []
        for s, w in level:
            for v in range(s[-1] + 1, n):
                m = max(dist[u][v] for u in s)
                if m <= epsilon:
                    nxt.append((s + (v,), max(w, m)))
        W.update(nxt)
        level = nxt
    return W


class UnionFind:
    def __init__(self):
        self.p = {}

    def find(self, x):
        self.p.setdefault(x, x)
        while self.p[x] != x:
            self.p[x] = self.p[self.p[x]]
            x = self.p[x]
        return x

    def union(self, a, b):
        a, b = self.find(a), self.find(b)
        if a == b:
            return False
        self.p[a] = b
        return True


def mst(n, dist):
    U, out = UnionFind(), []
    for w, i, j in sorted((dist[i][j], i, j) for i in range(n) for j in range(i + 1, n)):
        if U.union(i, j):
            out.append((w, i, j))
    return out


def assignment(cost):
    """Minimum cost of a perfect matching (shortest augmenting paths with potentials)."""
    n = len(cost)
    u, v, p, way = [0.0] * (n + 1), [0.0] * (n + 1), [0] * (n + 1), [0] * (n + 1)
    for i in range(1, n + 1):
        p[0], j0 = i, 0
        minv, used = [INF] * (n + 1), [False] * (n + 1)
        while True:
            used[j0] = True
            i0, delta, j1 = p[j0], INF, 0
            for j in range(1, n + 1):
                if not used[j]:
                    cur = cost[i0 - 1][j - 1] - u[i0] - v[j]
                    if cur < minv[j]:
                        minv[j], way[j] = cur, j0
                    if minv[j] < delta:
                        delta, j1 = minv[j], j
            for j in range(n + 1):
                if used[j]:
                    u[p[j]] += delta
                    v[j] -= delta
                else:
                    minv[j] -= delta
            j0 = j1
            if p[j0] == 0:
                break
        while j0:
            j1 = way[j0]
            p[j0] = p[j1]
            j0 = j1
    return sum(cost[p[j] - 1][j - 1] for j in range(1, n + 1))


def linf(a, b):
    return max(abs(a[0] - b[0]), abs(a[1] - b[1]))


def to_diagonal(a):
    return abs(a[1] - a[0]) / 2


def wasserstein(A, B, p):
    n, m = len(A), len(B)
    if n + m == 0:
        return 0.0
    C = [[0.0] * (n + m) for _ in range(n + m)]
    for i in range(n + m):
        for j in range(n + m):
            if i < n and j < m:
                C[i][j] = linf(A[i], B[j]) ** p
            elif i < n:
                C[i][j] = to_diagonal(A[i]) ** p
            elif j < m:
                C[i][j] = to_diagonal(B[j]) ** p
    return assignment(C) ** (1.0 / p)


def hausdorff(A, B):
    if not A and not B:
        return 0.0
    if not A or not B:
        return INF
    return max(max(min(linf(a, b) for b in B) for a in A), max(min(linf(a, b) for a in A) for b in B))


def multiscale(A, B, sigma):
    s = 0.0
    for p in A:
        for q in B:
            s += math.exp(-((p[0] - q[0]) ** 2 + (p[1] - q[1]) ** 2) / (8 * sigma)) - math.exp(-((p[0] - q[1]) ** 2 + (p[1] - q[0]) ** 2) / (8 * sigma))
    return s / (8 * math.pi * sigma)
