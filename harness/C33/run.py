#!/usr/bin/env python3
"""Monitors of the command-line tools for images, triangulations, dimensions and curvature (C33)."""
import itertools, json, math, os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.dont_write_bytecode = True

import numpy as np

import pyoracle as O
import toolkit
from toolkit import INF, Skip, cleanup, close, rejected, run, same_points, section, success

TOOLS = {"image_analysis": "examples", "process_image_patches": "src/tools", "wicked_triangulations": "src/tools",
         "local_dimensionality": "src/tools", "mean_curvature": "src/tools"}


def f32(x):
    return float(np.float32(x))


def write_rows(c, path, rows, fmt="%.17g"):
    r = c.rng
    L = []
    for row in rows:
        L.append(r.choice([" ", " ", "\t", "  "]).join(fmt % x for x in row))
        if r.random() < 0.05:
            L.append("")
    open(path, "w").write("\n".join(L) + "\n")


# -- images -------------------------------------------------------------

@section(160, 1500)
def image(c):
    r = c.rng
    h, w = r.randint(1, 9), r.randint(1, 9)
    mode = r.randint(0, 3)
    value = [lambda: float(r.randint(0, 3)), lambda: f32(r.uniform(-5, 5)), lambda: float(r.randint(0, 255)), lambda: r.choice([0.0, 1.0])][mode]
    I = [[value() for _ in range(w)] for _ in range(h)]
    path = os.path.join(c.scratch, "image.txt")
    write_rows(c, path, I, "%.9g")
    if r.random() < 0.3:
        text = open(path).read()
        open(path, "w").write("# an image\n" + text)
    superlevel = r.random() < 0.5
    sign = -1.0 if superlevel else 1.0
    at = {y * w + x: sign * I[y][x] for y in range(h) for x in range(w)}
    gens = [(v,) for v in at]
    for y in range(h):
        for x in range(w):
            a, b, e, d = y * w + x, y * w + x + 1, (y + 1) * w + x + 1, (y + 1) * w + x
            if x + 1 < w:
                gens.append((a, b))
            if y + 1 < h:
                gens.append((a, d))
            if x + 1 < w and y + 1 < h:
                gens += [(a, b, e), (a, e, d)]
    W = {s: max(at[v] for v in s) for s in O.closure(gens)}
    D = O.diagrams(W)
    args = [r.choice(["-S", "--superlevel"])] if superlevel else r.choice([[], ["-s"], ["--sublevel"], ["-S", "-s"]])
    c.desc = "%s %r" % (args, I)
    if len(set(at.values())) > 1:
        c.nontrivial((superlevel, I))
    out = success(c, run(c, "image_analysis", args + [path]), "image_analysis").out
    groups, cur = [], []
    for l in out.splitlines():
        if l.strip():
            if not l.startswith("#"):
                cur.append(tuple(float(t) for t in l.split()))
        elif cur:
            groups.append(cur)
            cur = []
    if cur:
        groups.append(cur)
    want = [[(sign * a + 0.0, INF if b == INF else sign * b + 0.0) for a, b in D[k]] for k in sorted(D) if D[k]]
    if c.equal(len(groups), len(want), "image-diagrams", "number of diagrams that are not empty"):
        for g, e in zip(groups, want):
            same_points(c, g, e, "image", 10.0)
    cleanup(c)


@section(12, 60)
def image_errors(c):
    r = c.rng
    path = os.path.join(c.scratch, "image.txt")
    kind = c.k % 3
    if kind == 0:
        open(path, "w").write("1 2 3\n4 5\n")
    elif kind == 1:
        open(path, "w").write("1 2 3\n4 x 5\n")
    else:
        path = os.path.join(c.scratch, "missing.txt")
    c.desc = str(kind)
    c.nontrivial((kind, c.k))
    rejected(c, run(c, "image_analysis", [path]), "image_analysis", str(kind))
    cleanup(c)


# -- image patches ------------------------------------------------------

@section(120, 1000)
def patches(c):
    r = c.rng
    s = r.choice([2, 3, 3, 4, 5])
    n = r.choice([r.randint(1, 6), r.randint(5, 40)])
    zero = r.random() < 0.3
    P = []
    for _ in range(n):
        amp = r.choice([1, 1, 10, 100])
        P.append([0.0 if zero and r.random() < 0.2 else float(r.randint(1, 255)) if r.random() < 0.5 else f32(r.uniform(1, 1 + amp)) for _ in range(s * s)])
    if n > 2 and r.random() < 0.2:
        P[1] = list(P[0])
    path = os.path.join(c.scratch, "patches.txt")
    write_rows(c, path, P, "%.9g")
    c.desc = "patches %r" % P
    X = np.array(P, dtype=np.float64)
    L = np.where(X == 0, 0.0, np.log10(np.where(X == 0, 1.0, X)))
    L = L - L.mean(axis=1, keepdims=True)
    G = L.reshape(n, s, s)
    norm = 2 * (((G[:, 1:, :] - G[:, :-1, :]) ** 2).sum(axis=(1, 2)) + ((G[:, :, 1:] - G[:, :, :-1]) ** 2).sum(axis=(1, 2)))
    order = np.sort(norm)
    t = order[min(math.ceil((1.0 - 0.2) * n), n - 1)]
    for a, b in itertools.combinations(range(n), 2):
        if P[a] != P[b] and abs(norm[a] - norm[b]) <= 1e-4 * max(norm[a], norm[b]) and min(abs(norm[a] - t), abs(norm[b] - t)) <= 1e-4 * t:
            raise Skip()
    if min(norm) < 1e-3:
        raise Skip()
    keep = [i for i in range(n) if norm[i] >= t * (1 - 1e-6)]
    E = [L[i] / np.sqrt((L[i] ** 2).sum()) for i in keep]
    if n > 1:
        c.nontrivial(P)
    out = success(c, run(c, "process_image_patches", [path]), "process_image_patches").out
    got = [[float(v) for v in l.split()] for l in out.splitlines() if l.strip()]
    if c.equal(len(got), len(E), "patches-number"):
        for g, e in zip(got, E):
            ok = len(g) == len(e) and all(abs(x - y) <= 2e-4 for x, y in zip(g, e))
            c.expect(ok, "patches", lambda: "observed %r expected %r" % (g, list(e)))
    cleanup(c)


# -- triangulations -----------------------------------------------------

def rank(columns):
    low, n = {}, 0
    for x in columns:
        while x:
            h = x.bit_length()
            if h not in low:
                low[h] = x
                n += 1
                break
            x ^= low[h]
    return n


def betti_numbers(K, d):
    by = [sorted(s for s in K if len(s) == k + 1) for k in range(d + 2)]
    index = [{s: i for i, s in enumerate(B)} for B in by]
    ranks = [0] + [rank([sum(1 << index[k - 1][f] for f in O.faces(s)) for s in by[k]]) for k in range(1, d + 2)]
    return [len(by[k]) - ranks[k] - ranks[k + 1] for k in range(d + 1)]


def subdivide(K):
    """Barycentric subdivision: all chains of simplices; vertices of the subdivision are simplices"""
    L = set()

    def extend(chain, last):
        L.add(chain)
        for k in range(1, len(last)):
            for f in itertools.combinations(last, k):
                extend(frozenset(chain | {f}), f)
    for s in K:
        extend(frozenset([s]), s)
    return L


def intersection_betti(L, d, skeleta, p):
    """Betti numbers of the chains of allowable simplices with allowable boundary"""
    allowed, rejected_ = [[] for _ in range(d + 2)], [[] for _ in range(d + 2)]
    for chain in L:
        i = len(chain) - 1
        original = tuple(sorted(f[0] for f in chain if len(f) == 1))
        ok = True
        for k in range(1, d + 1):
            # dimension of the intersection with the skeleton of codimension k
            m = max((len(f) - 1 for j in range(1, len(original) + 1) for f in itertools.combinations(original, j) if f in skeleta[d - k]), default=-1)
            ok = ok and (m < 0 or m <= i - k + p[k - 1])
        (allowed if ok else rejected_)[i].append(chain)
    index = [{s: j for j, s in enumerate(allowed[i] + rejected_[i])} for i in range(d + 2)]

    def boundary(i):
        return [sum(1 << index[i - 1][s - {f}] for f in s) if i else 0 for s in allowed[i]]
    out = []
    for i in range(d + 1):
        cycles = len(allowed[i]) - rank(boundary(i))
        B = boundary(i + 1) if i < d else []
        na = len(allowed[i])
        out.append(cycles - (rank(B) - rank([b >> na for b in B])))
    return out


@section(40, 350)
def triangulations(c):
    r = c.rng
    complexes, L = [], []
    for q in range(r.randint(1, 3)):
        kind = r.randint(0, 5)
        if kind == 0:
            n = r.randint(3, 4)
            gens = [t for t in itertools.combinations(range(n + 1), n)]          # boundary of a simplex
        elif kind == 1:
            m = r.randint(3, 7)
            gens = [(i, (i + 1) % m) for i in range(m)]                          # circle
        elif kind == 2:
            gens = [(0, 1, 4), (0, 1, 5), (0, 2, 3), (0, 2, 5), (0, 3, 4), (1, 2, 3), (1, 2, 4), (1, 3, 5), (2, 4, 5), (3, 4, 5)]      # projective plane
        elif kind == 3:
            k = r.randint(3, 4)
            gens = [(a, b, 50) for a, b in itertools.combinations(range(k), 2)] + [(a, b, 60) for a, b in itertools.combinations(range(k), 2)]    # suspension
            if k == 4:
                gens = [t for t in gens if r.random() < 0.9]
        elif kind == 4:
            gens = [(0, 1, 2), (0, 1, 3), (0, 2, 3), (1, 2, 3), (0, 4, 5), (0, 4, 6), (0, 5, 6), (4, 5, 6)]                                # wedge of spheres
        else:
            n = r.randint(3, 6)
            gens = [tuple(r.sample(range(n), min(n, r.randint(1, 3)))) for _ in range(r.randint(2, 7))]
        gens = [g for g in gens if g] or [(0, 1)]
        if max(len(g) for g in gens) < 2:
            gens.append((0, 1))
        base = r.choice([0, 1, 1, 10])
        gens = [tuple(v + base for v in g) for g in gens]
        gens = [tuple(r.sample(g, len(g))) for g in r.sample(gens, len(gens))]
        complexes.append(O.closure(gens))
        sep = r.choice([",", ", ", ",\n  "])
        L.append("manifold_%d=[" % (q + 1) + sep.join("[" + ",".join(map(str, g)) + "]" for g in gens) + "]")
        if r.random() < 0.5:
            L.append("")
    path = os.path.join(c.scratch, "triangulations.txt")
    open(path, "w").write("\n".join(L) + "\n")
    c.desc = "\n".join(L)
    c.nontrivial(L)
    out = success(c, run(c, "wicked_triangulations", [path]), "wicked_triangulations").out
    try:
        J = json.loads(out)
    except ValueError as e:
        c.fail("triangulations-json", "%s in %r" % (e, out[:400]))
        cleanup(c)
        return
    n = len(complexes)
    c.equal(sorted(J), ["homology", "intersection_homology"], "triangulations-keys")
    H, I = J.get("homology", {}), J.get("intersection_homology", {})
    if c.equal((sorted(H), sorted(I)), (sorted(map(str, range(n))),) * 2, "triangulations-number"):
        for q, K in enumerate(complexes):
            d = max(map(len, K)) - 1
            b = betti_numbers(K, d)
            h = H[str(q)]
            c.equal(h.get("betti"), b, "triangulations-betti")
            c.equal(h.get("euler"), sum((-1) ** (len(s) - 1) for s in K), "triangulations-euler")
            skeleta = [set(s for s in K if len(s) <= j + 1) for j in range(d + 1)]
            S = subdivide(K)
            want = {p: intersection_betti(S, d, skeleta, p) for p in itertools.product(*[range(-1, k + 1) for k in range(d)])}
            got = {}
            for entry in I[str(q)].values():
                got[tuple(entry.get("perversity", []))] = entry.get("betti")
            c.equal(len(I[str(q)]), len(want), "perversities-number")
            if c.equal(sorted(got), sorted(want), "perversities"):
                for p in want:
                    c.equal(got[p], want[p], "triangulations-intersection", "perversity %r" % (p,))
    cleanup(c)


# -- local dimensionality -----------------------------------------------

def cloud(c, distinct=True):
    r = c.rng
    n, d = r.randint(6, 40), r.randint(2, 5)
    mode = r.randint(0, 2)
    P = []
    for _ in range(n):
        p = [r.gauss(0, 1) for _ in range(d)]
        if mode == 1:
            p = [p[0] * (j + 1) + 0.01 * r.gauss(0, 1) for j in range(d)]
        elif mode == 2:
            t = math.sqrt(sum(x * x for x in p))
            p = [x / t for x in p]
        P.append([float("%.9g" % x) for x in p])
    path = os.path.join(c.scratch, "cloud.txt")
    write_rows(c, path, P)
    return np.array(P), path


def neighbours(X):
    D = np.sqrt(((X[:, None, :] - X[None, :, :]) ** 2).sum(axis=2))
    idx = np.argsort(D, axis=1, kind="stable")
    return D, idx


def usable(D, idx, k):
    """The neighbourhoods are determined up to rounding errors"""
    S = np.sort(D, axis=1)
    if k < S.shape[1] and (S[:, k] - S[:, k - 1] < 1e-7).any():
        raise Skip()


@section(160, 1500)
def dimensionality(c):
    r = c.rng
    X, path = cloud(c)
    n, d = X.shape
    D, idx = neighbours(X)
    S = np.sort(D, axis=1)
    method = r.choice(["pca", "pca", "nn", "nn-range", "mle"])
    k = r.randint(2, min(10, n - 2))
    K = r.randint(k + 2, min(n, k + 8)) if k + 2 <= n else k
    args, E = [], None
    if method == "pca":
        args = r.choice([[], ["-m", "pca"], ["--method", "pca"]])
        usable(D, idx, k + 1)
        E = []
        for i in range(n):
            Y = X[idx[i, :k + 1]]
            s = np.linalg.svd(Y - Y.mean(axis=0), compute_uv=False)
            g = s[:-1] - s[1:]
            t = np.sort(g)
            if len(t) > 1 and t[-1] - t[-2] < 1e-6 * s[0]:
                raise Skip()
            E.append(float(np.argmax(g) + 1))
    elif method == "nn":
        args = ["-m", "nn"]
        E = [S[i, :k].mean() / ((S[i, :k + 1].mean() - S[i, :k].mean()) * k) for i in range(n)]
    elif method == "nn-range":
        args = ["-m", "nn", r.choice(["-K", "--K"]), str(K)]
        E = []
        for i in range(n):
            m = [S[i, :j].mean() for j in range(k, K)]
            a = sum((m[t + 1] - m[t]) * m[t] / (k + t) for t in range(len(m) - 1))
            b = sum((m[t + 1] - m[t]) ** 2 for t in range(len(m) - 1))
            if b == 0:
                raise Skip()
            E.append(a / b)
    else:
        args = ["--method", "mle", "-K", str(K)]
        E = []
        for i in range(n):
            t = 0.0
            for j in range(k - 1, K):
                if j > 1:
                    s = sum(math.log(S[i, j] / x) for x in S[i, :j] if x > 0 and S[i, j] > 0) / (j - 1)
                    t += 1 / s if s > 0 else 0.0
            E.append(t / (K - k + 1))
    if k != 8 or r.random() < 0.5:
        args += r.choice([["-k", str(k)], ["--k", str(k)], ["-k%d" % k]])
    smooth = r.random() < 0.4
    if smooth:
        steps = r.randint(0, 3)
        usable(D, idx, k + 1)
        args += [r.choice(["-s", "--smooth"])] + (["-n", str(steps)] if steps != 1 or r.random() < 0.5 else [])
        for _ in range(steps):
            F = []
            for i in range(n):
                w = [1 / D[i, j] ** 2 if D[i, j] > 0 else 1.0 for j in idx[i, :k + 1]]
                F.append(sum(x * E[j] for x, j in zip(w, idx[i, :k + 1])) / sum(w))
            E = F
    c.desc = "%s %r" % (args, X.tolist())
    c.nontrivial((args, X.tolist()))
    out = success(c, run(c, "local_dimensionality", args + [path]), "local_dimensionality").out.split()
    if c.equal(len(out), n, "dimensionality-number"):
        for i in range(n):
            c.expect(abs(float(out[i]) - E[i]) <= 1e-4 * abs(E[i]) + 1e-9, "dimensionality-" + method, lambda: "point %d: observed %s expected %r" % (i, out[i], E[i]))
    cleanup(c)


# -- curvature ----------------------------------------------------------

@section(60, 500)
def curvature(c):
    r = c.rng
    d = r.randint(2, 4)
    n = r.randint(2 * d + 6, 40)
    k = r.randint(2 * d + 6, n)
    radius = r.choice([1.0, 2.0, 0.5, r.uniform(0.2, 20)])
    centre = [r.uniform(-radius, radius) for _ in range(d)]
    P = []
    for _ in range(n):
        v = [r.gauss(0, 1) for _ in range(d)]
        t = math.sqrt(sum(x * x for x in v))
        P.append([centre[j] + radius * v[j] / t for j in range(d)])
    path = os.path.join(c.scratch, "sphere.txt")
    write_rows(c, path, P)
    c.desc = "radius %r k %d %r" % (radius, k, P)
    c.nontrivial((k, P))
    out = success(c, run(c, "mean_curvature", [path, k]), "mean_curvature").out
    rows = [[float(v) for v in l.split()] for l in out.splitlines() if l.strip()]
    if c.equal([len(q) for q in rows], [d + 1] * n, "curvature-format"):
        for q, p in zip(rows, P):
            c.expect(all(close(a, b, radius) for a, b in zip(q, p)), "curvature-coordinates", lambda: "observed %r expected %r" % (q, p))
        good = sum(abs(q[-1] * radius - 1) <= 1e-3 for q in rows)
        c.expect(good >= 0.9 * n, "curvature", lambda: "expected %r, observed %r" % (1 / radius, [q[-1] for q in rows]))
    cleanup(c)


toolkit.main(TOOLS)
