#!/usr/bin/env python3
"""Monitors of the Python bindings (C27).

The bindings are compiled from the working tree with AddressSanitizer and
UndefinedBehaviorSanitizer, imported in a process in which the sanitizer
runtime is preloaded, and driven with generated objects and arrays.
"""
import gc, itertools, math, os, struct, subprocess, sys, sysconfig

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.dont_write_bytecode = True

import pydriver
import pyoracle as O
from pydriver import section, Skip

INF = O.INF
LIBDIR = "/usr/lib/x86_64-linux-gnu"


def runtime(name):
    return subprocess.run(["g++", "-print-file-name=" + name], stdout=subprocess.PIPE, text=True).stdout.strip()


def build(builddir, repo):
    pkg = os.path.join(builddir, "aleph")
    os.makedirs(pkg, exist_ok=True)
    target = os.path.join(pkg, "aleph.so")
    harness = os.path.dirname(HERE)
    cmd = ["g++", "-std=gnu++14", "-shared", "-fPIC", "-O1", "-g1", "-include", "functional", "-w", "-fno-omit-frame-pointer", "-fvisibility=hidden",
           "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=vptr", "-fno-sanitize-recover=all",
           "-I" + repo + "/include", "-I" + harness + "/config", "-isystem", sysconfig.get_paths()["include"], "-isystem", "/usr/include/python3.12",
           "-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/hdf5/serial", "-MMD", "-MF", target + ".d",
           repo + "/bindings/python/aleph.cc", "-o", target + ".tmp",
           LIBDIR + "/hdf5/serial/libhdf5_cpp.so", LIBDIR + "/hdf5/serial/libhdf5.so", LIBDIR + "/libtinyxml2.so.10.0.0", "-llz4"]
    cfg = os.path.join(repo, "include/aleph/config")
    e = pydriver.compile_if_needed(target, cmd, target + ".d", ",".join(sorted(os.listdir(cfg))) if os.path.isdir(cfg) else "")
    if e:
        return e
    init = os.path.join(repo, "bindings/python/__init__.py")
    text = open(init).read() if os.path.exists(init) else "from .aleph import *\n"
    dst = os.path.join(pkg, "__init__.py")
    if not os.path.exists(dst) or open(dst).read() != text:
        open(dst, "w").write(text)
    return None


aleph = np = None


def prepare(builddir, repo):
    """Starts over with the sanitizer runtime loaded first, then imports the bindings."""
    global aleph, np
    if os.environ.get("VP_PRELOADED") != "1":
        env = dict(os.environ)
        env["LD_PRELOAD"] = runtime("libasan.so") + " " + runtime("libubsan.so") + " " + runtime("libstdc++.so.6")
        env["VP_PRELOADED"] = "1"
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        env["PYTHONMALLOC"] = "malloc"          # every Python object is seen by the sanitizer
        os.execve(sys.executable, [sys.executable] + sys.argv, env)
    sys.path.insert(0, builddir)
    import numpy
    np = numpy
    try:
        import aleph as module
    except Exception as e:
        sys.stderr.write("HARNESS: cannot import the bindings: %r\n" % e)
        os._exit(77)
    if not os.path.realpath(module.__file__).startswith(os.path.realpath(builddir)):
        sys.stderr.write("HARNESS: imported another module: %s\n" % module.__file__)
        os._exit(77)
    aleph = module


# -- generators ---------------------------------------------------------

def random_weights(c, maxv=7, maxdim=3, ties=None, sign=1):
    """Random complex with a monotone weight function: dict simplex -> weight"""
    r = c.rng
    ids = r.sample(range(r.choice([maxv, 50, 4000000000])), maxv) if r.random() < 0.5 else list(range(maxv))
    n = r.randint(1, maxv)
    ids = ids[:n]
    gens = [(v,) for v in ids] if r.random() < 0.5 else [(ids[0],)]
    for _ in range(r.randint(0, 8)):
        k = min(n, r.randint(1, maxdim + 1))
        gens.append(tuple(r.sample(ids, k)))
    K = O.closure(gens)
    ties = r.random() < 0.5 if ties is None else ties
    W = {}
    for s in sorted(K, key=lambda s: (len(s), s)):
        w = float(r.randint(-3, 6)) if ties else r.uniform(-5, 5)
        for f in O.faces(s):
            w = max(w, W[f])
        W[s] = w
    return W


def make_complex(c, W, seq):
    """One of the ways of creating a complex in Python"""
    m = c.rng.randint(0, 4)
    if m == 0:
        return aleph.SimplicialComplex([aleph.Simplex(list(s), W[s]) for s in seq])
    if m == 1:
        return aleph.SimplicialComplex([(list(s), W[s]) for s in seq])
    if m == 2:
        K = aleph.SimplicialComplex()
        for s in seq:
            K.append(aleph.Simplex(list(s[::-1]), W[s]))
        return K
    if m == 3:
        return aleph.SimplicialComplex([aleph.Simplex(aleph.Simplex(list(s)), W[s]) if i % 2 else (list(s), W[s]) for i, s in enumerate(seq)])
    L = list(seq)
    c.rng.shuffle(L)
    K = aleph.SimplicialComplex([(list(s), W[s]) for s in L])
    pos = {frozenset(s): i for i, s in enumerate(seq)}
    K.sort(lambda s, t: pos[frozenset(s)] < pos[frozenset(t)])
    return K


def vs(s):
    return tuple(sorted(s))


def points(D):
    return sorted((p.x, p.y) for p in D)


def offdiag(D):
    return sorted((p.x, p.y) for p in D if p.x != p.y)


def write_diagram(c, P):
    fn = os.path.join(c.scratch, "d.txt")
    with open(fn, "w") as f:
        for a, b in P:
            f.write("%r %r\n" % (a, b))
    return fn


def load_diagram(c, P):
    return aleph.load_persistence_diagram(write_diagram(c, P))


def random_points(c, lo, hi, unpaired=False, sup=None):
    r = c.rng
    n = r.randint(lo, hi)
    ties = r.random() < 0.5
    sup = r.random() < 0.3 if sup is None else sup
    P = []
    for _ in range(n):
        a, b = (float(r.randint(-3, 3)), float(r.randint(0, 4))) if ties else (r.uniform(-5, 5), r.uniform(0, 4))
        P.append((a, a - b if sup else a + b))
    if unpaired:
        P += [(r.uniform(-5, 5), INF) for _ in range(r.randint(0, 2))]
    r.shuffle(P)
    return P


LAYOUTS = ["plain", "fortran", "transposed", "rows", "columns", "reversed", "both", "readonly", "offset"]


def layout(c, A, which):
    """An array with the values of A and another memory layout; gaps are filled with other numbers."""
    n, m = A.shape
    junk = lambda shape: np.array([c.rng.uniform(-99, 99) for _ in range(shape[0] * shape[1])]).reshape(shape)
    if which == "fortran":
        B = np.asfortranarray(A)
    elif which == "transposed":
        B = np.ascontiguousarray(A.T).T
    elif which == "rows":
        X = junk((3 * n + 1, m))
        X[1::3][:n] = A
        B = X[1::3][:n]
    elif which == "columns":
        X = junk((n, 2 * m + 3))
        X[:, 3::2] = A
        B = X[:, 3::2]
    elif which == "reversed":
        B = np.ascontiguousarray(A[::-1])[::-1]
    elif which == "both":
        X = junk((2 * n, 3 * m))
        X[::-2, ::-3] = A
        B = X[::-2, ::-3]
    elif which == "readonly":
        B = A.copy()
        B.setflags(write=False)
    elif which == "offset":
        X = junk((n + 2, m + 2))
        X[1:-1, 1:-1] = A
        B = X[1:-1, 1:-1]
    else:
        B = A.copy()
    assert B.shape == A.shape and (B == A).all()
    return B


def random_cloud(c, maxn=9):
    r = c.rng
    n, d = r.randint(1, maxn), r.randint(1, 4)
    if r.random() < 0.4:
        return [[float(r.randint(0, 4)) for _ in range(d)] for _ in range(n)]
    return [[r.uniform(-2, 2) for _ in range(d)] for _ in range(n)]


def distances(P):
    return [[math.sqrt(sum((a - b) ** 2 for a, b in zip(p, q))) for q in P] for p in P]


def random_matrix(c, maxn=9, ties=None):
    r = c.rng
    n = r.randint(1, maxn)
    ties = r.random() < 0.4 if ties is None else ties
    M = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            M[i][j] = M[j][i] = float(r.randint(1, 5)) if ties else r.uniform(0.1, 9)
    return M, ties


def compare(c, got, want, key, tol=0.0, dims=None):
    """got: list of diagrams; want: dimension -> sorted points without diagonal"""
    seen = {}
    for D in got:
        c.expect(D.dimension not in seen, key + "-dimension", lambda: "two diagrams of dimension %d" % D.dimension)
        seen[D.dimension] = offdiag(D)
        c.equal(D.betti, sum(1 for p in D if p.unpaired), key + "-betti")
    for d in sorted(set(seen) | set(want)):
        a, b = seen.get(d, []), want.get(d, [])
        if tol:
            ok = len(a) == len(b) and all(O.linf(p, q) <= tol or p == q or (p[1] == q[1] and abs(p[0] - q[0]) <= tol) for p, q in zip(a, b))
        else:
            ok = a == b
        c.expect(ok, key, lambda: "dimension %d: observed %.500r expected %.500r" % (d, a, b))


# -- simplices and complexes ---------------------------------------------

@section(1500, 12000)
def simplices(c):
    r = c.rng
    n = r.randint(1, 7)
    V = r.sample(range(r.choice([7, 100, 2 ** 32])), n)
    data = r.choice([0.0, -2.5, r.uniform(-9, 9), 1e300, 7.0])
    c.desc = "vertices %s data %r" % (V, data)
    if n > 1:
        c.nontrivial((V, data))
    s = aleph.Simplex(list(V), data)
    S = set(V)
    c.equal(vs(s), tuple(sorted(V)), "vertices")
    c.equal([v for v in reversed(s)], list(reversed(list(s))), "reversed")
    c.equal([s[i] for i in range(len(s))], list(s), "getitem")
    c.equal(len(s), n, "len")
    c.equal(s.dimension, n - 1, "dimension")
    c.equal((s.empty, bool(s)), (False, True), "empty")
    c.equal((s.data, s.weight), (data, data), "data")
    for v in list(V) + [r.randrange(2 ** 32) for _ in range(3)]:
        c.equal(v in s, v in S, "contains")
    want = sorted(O.faces(tuple(sorted(V))))
    c.equal(sorted(vs(f) for f in s.boundary), want, "boundary")
    c.equal(sorted(vs(f) for f in aleph.Simplex(list(V), data).boundary), want, "boundary-of-temporary")
    t = aleph.Simplex(list(reversed(V)), data + 1)
    c.expect(s == t and not (s != t), "equal-ignores-data")
    u = aleph.Simplex(s, 3.5)
    c.equal((vs(u), u.data), (vs(s), 3.5), "copy-with-data")
    u.data = 4.5
    c.equal((u.data, s.data), (4.5, data), "set-data")
    u.weight = -1.0
    c.equal((u.data, u.weight, s.data), (-1.0, -1.0, data), "set-weight")
    w = aleph.Simplex(V[0], 2.0)
    c.equal((list(w), w.data), ([V[0]], 2.0), "vertex")
    o = aleph.Simplex(r.sample(range(7), r.randint(1, 4)))
    c.equal(o.data, 0.0, "default-data")
    c.expect((s == o) == (vs(s) == vs(o)) and (s != o) == (vs(s) != vs(o)), "equality")
    c.expect((s < o) + (o < s) + (s == o) == 1, "order-total")
    for k in (n, n + 1, 1000, 2 ** 32 - 1):
        c.raises(lambda: s[k], "index-out-of-range")
    c.raises(lambda: s[-1], "negative-index")
    text = repr(s)
    for v in V:
        c.expect(str(v) in text, "repr")
    e = aleph.Simplex()
    c.equal((len(e), e.empty, bool(e), list(e)), (0, True, False, []), "empty-simplex")
    c.raises(lambda: e.dimension, "dimension-of-empty")
    c.equal(list(e.boundary), [], "boundary-of-empty")


@section(1500, 12000)
def complexes(c):
    r = c.rng
    W = random_weights(c)
    seq = O.order(W)
    c.desc = "complex %s" % [(s, W[s]) for s in seq]
    if len(seq) > 3:
        c.nontrivial(c.desc)
    K = make_complex(c, W, seq)
    c.equal([(vs(s), s.data) for s in K], [(s, W[s]) for s in seq], "order-and-data")
    c.equal([vs(K[i]) for i in range(len(K))], seq, "getitem")
    c.equal((len(K), bool(K), K.dimension), (len(seq), True, max(map(len, seq)) - 1), "size")
    for s in r.sample(seq, min(4, len(seq))):
        c.expect(aleph.Simplex(list(s)) in K, "contains", lambda: str(s))
    other = tuple(sorted(r.sample(range(60), r.randint(1, 3))))
    c.equal(aleph.Simplex(list(other)) in K, other in W, "contains-other")
    for i in (len(seq), len(seq) + 1, 10 ** 6):
        c.raises(lambda: K[i], "index-out-of-range")
    # no duplicates
    x = r.choice(seq)
    K.append(aleph.Simplex(list(x), W[x] + 1))
    c.equal(len(K), len(seq), "append-duplicate")
    # appending to and sorting a copy leaves the other object alone
    S = K.sort()
    c.equal(sorted(vs(s) for s in S), sorted(seq), "sort-keeps-simplices")
    c.expect(all(not (S[i + 1] < S[i]) for i in range(len(S) - 1)), "sort-order")
    S.append([7, 61, 62])
    c.equal((len(S), len(K)), (len(seq) + 1, len(seq)), "copy-independent")
    c.equal((vs(S[len(S) - 1]), S[len(S) - 1].data), ((7, 61, 62), 0.0), "append-list")
    # a comparison functor that fails
    if len(seq) > 1:
        calls = []

        def bad(a, b):
            calls.append(1)
            if len(calls) > 1 + c.k % 5:
                raise KeyError("functor")
            return a < b
        try:
            K.sort(bad)
        except KeyError:
            pass
        c.equal(sorted(vs(s) for s in K), sorted(seq), "failed-sort-keeps-simplices")
        K.sort(lambda a, b: (a.data, len(a), vs(a)) < (b.data, len(b), vs(b)))
        c.equal([vs(s) for s in K], seq, "sort-functor")
    for v in seq:
        c.expect(str(v[0]) in repr(K), "repr")
        break
    E = aleph.SimplicialComplex()
    c.equal((len(E), bool(E), list(E)), (0, False, []), "empty-complex")
    c.raises(lambda: E.dimension, "dimension-of-empty")
    c.raises(lambda: E[0], "index-of-empty")


# -- persistent homology ---------------------------------------------------

@section(1500, 12000)
def persistence(c):
    W = random_weights(c)
    seq = O.order(W)
    c.desc = "complex %s" % [(s, W[s]) for s in seq]
    if len(seq) > 3:
        c.nontrivial(c.desc)
    K = make_complex(c, W, seq)
    compare(c, aleph.calculatePersistenceDiagrams(K), O.diagrams(W), "diagrams")
    c.equal([(vs(s), s.data) for s in K], [(s, W[s]) for s in seq], "input-unchanged")

    want = sorted(O.diagrams(W, include_top=True).get(0, []))
    D, P = aleph.calculateZeroDimensionalPersistenceDiagramAndPairing(K)
    c.equal(points(D), want, "zero-dimensional")
    c.equal(D.dimension, 0, "zero-dimension")
    got = sorted(P)
    c.equal(len(P), len(want), "pairing-size")
    vals = []
    for a, b in got:
        ok = a < len(seq) and len(seq[a]) == 1 and (b >= len(seq) or len(seq[b]) == 2)
        c.expect(ok, "pairing-indices", lambda: "(%d,%d)" % (a, b))
        if ok:
            vals.append((W[seq[a]], W[seq[b]] if b < len(seq) else INF))
    c.equal(sorted(vals), want, "pairing")
    u = c.rng.choice([100.0, -7.5, 0.0])
    D2, P2 = aleph.calculateZeroDimensionalPersistenceDiagramAndPairing(K, u)
    c.equal(points(D2), sorted((a, u if b == INF else b) for a, b in want), "unpaired-data")
    c.equal(sorted(P2), got, "unpaired-data-pairing")
    c.expect((P == P2) and not (P != P2), "pairing-equality")
    if got:
        A = np.array(P)
        c.equal(A.shape, (len(got), 2), "pairing-array-shape")
        c.equal(sorted((int(a), int(b)) for a, b in A), got, "pairing-array")


@section(700, 6000)
def pointclouds(c):
    P = random_cloud(c)
    d = len(P[0])
    D = distances(P)
    ds = sorted(set(x for row in D for x in row if x > 0))
    r = c.rng
    gaps = [(a + b) / 2 for a, b in zip(ds, ds[1:]) if b - a > 1e-6]
    eps = r.choice([0.0, ds[-1] + 1 if ds else 1.0] + gaps * 2)
    if eps == 0.0 and any(D[i][j] < 1e-6 for i in range(len(P)) for j in range(i)):
        raise Skip()
    dim = r.choice([0, 1, 2, 3])
    which = LAYOUTS[c.k % len(LAYOUTS)]
    c.desc = "points %s epsilon %r dimension %d layout %s" % (P, eps, dim, which)
    if len(P) > 2:
        c.nontrivial(c.desc)
    A = layout(c, np.array(P), which)
    before = A.copy()
    if dim == 0 and r.random() < 0.5:
        got = aleph.calculatePersistenceDiagrams(A, eps) if r.random() < 0.5 else aleph.calculatePersistenceDiagrams(buffer=A, epsilon=eps)
    else:
        got = aleph.calculatePersistenceDiagrams(A, eps, dim) if r.random() < 0.5 else aleph.calculatePersistenceDiagrams(A, dimension=dim, epsilon=eps)
    c.expect((A == before).all(), "input-unchanged")
    compare(c, got, O.diagrams(O.rips(len(P), D, eps, dim or d + 1)), "point-cloud", 1e-9)


@section(1200, 10000)
def matrices(c):
    M, ties = random_matrix(c)
    n = len(M)
    r = c.rng
    dim = r.choice([0, 1, 2, 3])
    which = LAYOUTS[c.k % len(LAYOUTS)]
    A = layout(c, np.array(M), which)
    kind = r.choice(["", "", "list", "lower", "diagonal", "integer", "big-endian", "float32"])
    if kind == "list":
        A = [list(row) for row in M]
    elif kind in ("lower", "diagonal") and A.flags.writeable:
        # only entries above the diagonal are used
        for i in range(n):
            for j in range(i if kind == "lower" else 0):
                A[i, j] = 77.0 + j
            A[i, i] = -5.0
    elif kind == "integer" and ties:
        A = A.astype(np.int32)
    elif kind == "big-endian":
        A = A.astype(">f8")
    elif kind == "float32" and ties:
        A = A.astype(np.float32)
    c.desc = "matrix %s max_dimension %d layout %s %s" % (M, dim, which, kind)
    if n > 2:
        c.nontrivial(c.desc)
    before = np.array(A)
    W = O.rips(n, M, INF, max(1, dim))
    compare(c, aleph.vietoris_rips_from_matrix(A, dim) if dim or r.random() < 0.5 else aleph.vietoris_rips_from_matrix(A), O.diagrams(W), "rips")

    tree = O.mst(n, M)
    E = aleph.vietoris_rips_from_matrix_1d(A)
    check_tree(c, M, tree, E, ties, "tree")

    E2, Q = aleph.vietoris_rips_from_matrix_2d(A)
    check_tree(c, M, tree, E2, ties, "tree-2d")
    W = O.rips(n, M, INF, 2)
    seq = O.order(W)
    want = sorted((W[seq[i]], W[seq[j]]) for i, j in O.reduce(seq)[0] if len(seq[i]) == 2)
    ok = all(len(q) == 4 and 0 <= q[0] < q[1] < n and 0 <= q[2] < q[3] < n for q in Q)
    if c.expect(ok, "edge-pair-indices", lambda: str(Q)[:500]):
        c.equal(sorted((M[i][j], M[k][l]) for i, j, k, l in Q), want, "edge-pairs")
        c.equal(len(set(q[:2] for q in Q)), len(Q), "edge-pairs-creators")
        c.expect(not (set(q[:2] for q in Q) & set(map(tuple, E2))), "edge-pairs-creators-in-tree")
    c.expect((np.array(A) == before).all(), "input-unchanged")


def check_tree(c, M, tree, E, ties, key):
    n = len(M)
    E = [tuple(e) for e in E]
    if not c.expect(all(len(e) == 2 and 0 <= e[0] < e[1] < n for e in E), key + "-indices", lambda: str(E)[:400]):
        return
    c.equal(sorted(M[i][j] for i, j in E), sorted(w for w, _, _ in tree), key + "-weights")
    U = O.UnionFind()
    c.expect(all([U.union(i, j) for i, j in E]), key + "-acyclic", lambda: str(E)[:400])
    if not ties:
        c.equal(sorted(E), sorted((i, j) for _, i, j in tree), key)


@section(1000, 8000)
def bipartite(c):
    r = c.rng
    n, m = r.randint(0, 6), r.randint(0, 6)
    ties = r.random() < 0.5
    rev = r.random() < 0.5
    w0 = r.choice([1.0, 5.0, 0.0, -3.0])
    M = [[(w0 - x if rev else w0 + x) for x in ((float(r.randint(0, 4)) if ties else r.uniform(0, 4)) for _ in range(m))] for _ in range(n)]
    which = LAYOUTS[c.k % len(LAYOUTS)] if n and m else "plain"
    A = layout(c, np.array(M).reshape(n, m), which)
    c.desc = "matrix %s reverse %s vertex weight %r layout %s" % (M, rev, w0, which)
    if n * m > 2:
        c.nontrivial(c.desc)
    U = O.UnionFind()
    for v in range(n + m):
        U.find(v)
    want = []
    for w, i, j in sorted(((M[i][j], i, j) for i in range(n) for j in range(m)), reverse=rev):
        if U.union(i, n + j) and w != w0:
            want.append((w0, w))
    want += [(w0, INF)] * sum(1 for v in range(n + m) if U.find(v) == v)
    want.sort()
    f = aleph.calculateZeroDimensionalPersistenceDiagramOfMatrix
    D = f(A, rev, w0) if r.random() < 0.5 else f(A, reverseFiltration=rev, vertexWeight=w0)
    c.equal(points(D), want, "matrix-diagram")
    u = r.choice([9.0, -9.0])
    c.equal(points(f(A, rev, w0, u)), sorted((a, u if b == INF else b) for a, b in want), "matrix-unpaired-data")
    if rev and w0 == 1.0:
        c.equal(points(f(A)), want, "matrix-defaults")


@section(600, 5000)
def expansion(c):
    W = random_weights(c, maxdim=1)
    W = {s: w for s, w in W.items() if len(s) <= 2}
    seq = O.order(W)
    dim = c.rng.randint(1, 4)
    c.desc = "graph %s dimension %d" % ([(s, W[s]) for s in seq], dim)
    if len(seq) > 3:
        c.nontrivial(c.desc)
    V = sorted(s[0] for s in W if len(s) == 1)
    want = dict(W)
    for k in range(3, dim + 2):
        for s in itertools.combinations(V, k):
            if all(e in W for e in itertools.combinations(s, 2)):
                want[s] = max(W[e] for e in itertools.combinations(s, 2))
    K = make_complex(c, W, seq)
    R = aleph.RipsExpander()
    L = R(K, dim)
    c.equal(sorted(vs(s) for s in L), sorted(want), "expansion")
    c.equal([(vs(s), s.data) for s in K], [(s, W[s]) for s in seq], "input-unchanged")
    X = R.assignMaximumWeight(L, 1)
    c.equal(sorted((vs(s), s.data) for s in X), sorted(want.items()), "maximum-weight")
    S = X.sort(lambda a, b: (a.data, len(a), vs(a)) < (b.data, len(b), vs(b)))
    del L, X, K, R
    compare(c, aleph.calculatePersistenceDiagrams(S), O.diagrams(want), "expansion-diagrams")


# -- diagrams ----------------------------------------------------------------

@section(1500, 12000)
def diagrams(c):
    P = random_points(c, 0, 9, unpaired=True)
    c.desc = "points %s" % P
    if len(P) > 1:
        c.nontrivial(c.desc)
    D = load_diagram(c, P)
    c.equal([(p.x, p.y) for p in D], P, "points")
    c.equal((len(D), bool(D), D.betti), (len(P), bool(P), sum(1 for p in P if p[1] == INF)), "size")
    for p, q in zip(D, P):
        c.equal((p.unpaired, p.persistence), (q[1] == INF, q[1] - q[0]), "point")
        c.expect(p == p and not (p != p), "point-equality")
    Pt = getattr(aleph, "PersistenceDiagram.Point")
    for a, b in P:
        c.expect(any(q == Pt(a, b) for q in D), "point-constructed")
    c.expect(Pt(3.0).unpaired and Pt(3.0).x == 3.0 and Pt(3.0).y == INF, "point-unpaired")
    c.equal((Pt(1.0, 2.5) == Pt(1.0, 2.5), Pt(1.0, 2.5) == Pt(1.0, 2.0), Pt(1.0, 2.5) != Pt(0.5, 2.5)), (True, False, True), "point-comparison")
    A = np.array(D)
    c.equal(A.shape if P else (0, 2), (len(P), 2), "array-shape")
    c.equal([tuple(x) for x in A], P, "array")
    k = c.rng.randint(0, 5)
    D.dimension = k
    c.equal(D.dimension, k, "dimension")
    E = load_diagram(c, P)
    E.dimension = k
    c.expect(D == E and not (D != E), "equality")
    if P:
        F = load_diagram(c, P[:-1] + [(P[-1][0] - 0.25, P[-1][1])])
        F.dimension = k
        c.expect(F != D and not (F == D), "inequality")
    kept = [p for p in D]
    E.removeUnpaired()
    c.equal([(p.x, p.y) for p in E], [p for p in P if p[1] != INF], "remove-unpaired")
    E.removeDiagonal()
    c.equal([(p.x, p.y) for p in E], [p for p in P if p[1] != INF and p[0] != p[1]], "remove-diagonal")
    D.removeUnpaired()
    D.removeDiagonal()
    c.equal([(p.x, p.y) for p in kept], P, "points-outlive-removal")
    c.equal([tuple(x) for x in A], P, "array-outlives-removal")
    text = repr(E)
    c.expect(text.count("\n") >= len(E) or len(E) < 2, "repr")


@section(1200, 10000)
def functionals(c):
    r = c.rng
    P = random_points(c, 0, 7)
    Q = random_points(c, 0, 7, sup=False) if r.random() < 0.7 else P[:]
    r.shuffle(Q)
    c.desc = "first %s second %s" % (P, Q)
    if len(P) + len(Q) > 2:
        c.nontrivial(c.desc)
    D, E = load_diagram(c, P), load_diagram(c, Q)
    N = aleph.norms
    for k in (1.0, 2.0, r.uniform(0.5, 4)):
        tp = sum(abs(b - a) ** k for a, b in P)
        tw = sum(abs(a) * abs(b - a) ** k for a, b in P)
        c.near(N.totalPersistence(D, k), tp, 1e-10 * (1 + tp), "total-persistence")
        c.near(N.totalPersistence(D, k, True), tw, 1e-10 * (1 + tw), "total-persistence-weighted")
        c.near(N.pNorm(D, k), tp ** (1 / k), 1e-10 * (1 + tp ** (1 / k)), "p-norm")
        c.near(N.pNorm(D, k=k, weighted=True), tw ** (1 / k), 1e-10 * (1 + tw ** (1 / k)), "p-norm-weighted")
    t2 = sum((b - a) ** 2 for a, b in P)
    c.near(N.totalPersistence(D), t2, 1e-10 * (1 + t2), "total-persistence-default")
    c.near(N.pNorm(D), math.sqrt(t2), 1e-10 * (1 + t2), "p-norm-default")
    c.near(N.infinityNorm(D), max([abs(b - a) for a, b in P], default=0.0), 0, "infinity-norm")
    c.raises(lambda: N.pNorm(D, 0.0), "p-norm-zero")

    c.near(aleph.hausdorffDistances(D, E), O.hausdorff(P, Q), 1e-12, "hausdorff")
    c.near(aleph.wassersteinDistance(D, E), O.wasserstein(P, Q, 1), 1e-9, "wasserstein")
    p = r.choice([1.0, 2.0, 3.0])
    w = O.wasserstein(P, Q, p)
    c.near(aleph.wassersteinDistance(D1=D, D2=E, p=p) ** p, w ** p, 1e-9 * (1 + w ** p), "wasserstein-power")
    sigma = r.choice([0.25, 1.0, r.uniform(0.1, 8)])
    kpq, kpp, kqq = O.multiscale(P, Q, sigma), O.multiscale(P, P, sigma), O.multiscale(Q, Q, sigma)
    tol = 1e-11 * (1 + len(P) + len(Q)) ** 2 / sigma
    c.near(aleph.multiScaleKernel(D, E, sigma), kpq, tol, "kernel")
    m = aleph.multiScalePseudoMetric(D, E, sigma)
    c.near(0.0 if m != m else m * m, max(0.0, kpp + kqq - 2 * kpq), 10 * tol, "pseudo-metric")
    # well-separated points far from the diagonal
    X = [(10.0 * i + r.uniform(-1, 1), 500.0 + 10 * i + r.uniform(-1, 1)) for i in range(r.randint(1, 6))]
    Y = [(a + r.uniform(-0.5, 0.5), b + r.uniform(-0.5, 0.5)) for a, b in X]
    want = max(O.linf(a, b) for a, b in zip(X, Y))
    r.shuffle(Y)
    c.near(aleph.bottleneckDistance(load_diagram(c, X), load_diagram(c, Y)), want, 1e-9, "bottleneck")
    F = load_diagram(c, Q)
    F.dimension = D.dimension + 1
    c.raises(lambda: aleph.wassersteinDistance(D, F), "wasserstein-dimensions")


@section(1200, 10000)
def stepfunctions(c):
    r = c.rng
    # nested intervals: the known finding of C13 is about valleys
    ends = sorted(r.uniform(-9, 9) for _ in range(2 * r.randint(0, 10)))
    P, Q = [], []
    for i in range(len(ends) // 2):
        r.choice((P, Q)).append((ends[i], ends[-1 - i]))
    r.shuffle(P)
    r.shuffle(Q)
    c.desc = "first %s second %s" % (P, Q)
    if len(P) + len(Q) > 2:
        c.nontrivial(c.desc)
    count = lambda X, x: sum(1 for a, b in X if a < x < b)
    ev = sorted(x for p in P + Q for x in p)
    xs = [(a + b) / 2 for a, b in zip(ev, ev[1:]) if b - a > 1e-6] + [-100.0, 100.0]
    D = load_diagram(c, P)
    f = aleph.StepFunction(D) if r.random() < 0.5 else aleph.make_persistence_indicator_function(D)
    g = aleph.StepFunction(load_diagram(c, Q))
    del D

    def same(h, want, key):
        for x in xs:
            c.near(h(x), want(x), 1e-9, key, "at %r:" % x)
    F, G = lambda x: count(P, x), lambda x: count(Q, x)
    same(f, F, "indicator")
    c.equal((f.max, f.sup), (max([F(x) for x in xs] + [0]), max([F(x) for x in xs] + [0])), "maximum")
    total = sum(b - a for a, b in P)
    c.near(f.integral, total, 1e-8 * (1 + total), "integral")
    same(f + g, lambda x: F(x) + G(x), "sum")
    same(f - g, lambda x: F(x) - G(x), "difference")
    same(-f, lambda x: -F(x), "negation")
    h = f - g
    a = abs(h)
    same(a, lambda x: abs(F(x) - G(x)), "absolute-value")
    same(h, lambda x: F(x) - G(x), "absolute-value-modified-operand")
    same(abs(f - g).pow(2), lambda x: (F(x) - G(x)) ** 2, "power")
    # distance of indicator functions
    I = sum(abs(F((s + t) / 2) - G((s + t) / 2)) * (t - s) for s, t in zip(ev, ev[1:]))
    c.near(a.integral, I, 1e-8 * (1 + I), "distance-integral")
    same(f, F, "operand-unchanged")
    same(g, G, "operand-unchanged")
    k = f + g
    k -= g
    same(k, F, "subtract-in-place")
    k += f
    same(k, lambda x: 2 * F(x), "add-in-place")
    e = aleph.StepFunction()
    c.equal((e(0.5), e.integral), (0.0, 0.0), "empty-function")


# -- files -------------------------------------------------------------------

@section(500, 4000)
def files(c):
    r = c.rng
    n = r.randint(2, 7)
    E = sorted(set(tuple(sorted(r.sample(range(n), 2))) for _ in range(r.randint(1, 10))))
    w = {e: (float(r.randint(1, 9)) if r.random() < 0.5 else round(r.uniform(0, 9), 3)) for e in E}
    c.desc = "edges %s" % w
    if len(E) > 1:
        c.nontrivial(c.desc)
    fn = os.path.join(c.scratch, "graph.txt")
    with open(fn, "w") as f:
        f.write("# comment\n")
        for (u, v), x in w.items():
            f.write("%d %d %r\n" % (u, v, x))
    for K in (aleph.load(fn), aleph.load(fn, max)):
        c.equal({vs(s): s.data for s in K if len(s) == 2}, w, "edge-list")
        c.equal(sorted(s[0] for s in K if len(s) == 1), sorted(set(v for e in E for v in e)), "edge-list-vertices")
    x = [float(r.randint(-5, 9)) for _ in range(n)]
    fn = os.path.join(c.scratch, "graph.gml")
    with open(fn, "w") as f:
        f.write("graph [\n  directed 0\n")
        for i in range(n):
            f.write("  node [\n    id %d\n    weight %r\n  ]\n" % (i, x[i]))
        for u, v in E:
            f.write("  edge [\n    source %d\n    target %d\n  ]\n" % (u, v))
        f.write("]\n")
    for call, functor in ((lambda: aleph.load(fn), max), (lambda: aleph.load(fn, max), max), (lambda: aleph.load(fn, min), min),
                          (lambda: aleph.load(fn, lambda a, b: a + 0.5 * b), None)):
        K = call()
        c.equal({s[0]: s.data for s in K if len(s) == 1}, dict(enumerate(x)), "gml-vertices")
        got = {vs(s): s.data for s in K if len(s) == 2}
        c.equal(sorted(got), E, "gml-edges")
        for (u, v), y in got.items():
            if functor:
                c.equal(y, functor(x[u], x[v]), "gml-functor")
            else:
                c.expect(y in (x[u] + 0.5 * x[v], x[v] + 0.5 * x[u]), "gml-functor-value", lambda: "edge %d %d: %r" % (u, v, y))
    c.raises(lambda: aleph.load(os.path.join(c.scratch, "missing.gml")), "missing-file")
    c.raises(lambda: aleph.load(fn, lambda a, b: 1 / 0), "failing-functor", ZeroDivisionError)
    c.raises(lambda: aleph.load(fn, lambda a, b: "x"), "functor-returns-text")
    c.raises(lambda: aleph.load_persistence_diagram(os.path.join(c.scratch, "missing.txt")), "missing-diagram")
    bad = os.path.join(c.scratch, "bad.txt")
    with open(bad, "w") as f:
        f.write(r.choice(["1 2\n3\n", "5\n", "0 1\n \n"]))
    c.raises(lambda: aleph.load_persistence_diagram(bad), "malformed-diagram")


# -- lifetimes and invalid arguments ------------------------------------------

@section(1200, 10000)
def lifetimes(c):
    r = c.rng
    W = random_weights(c)
    seq = O.order(W)
    c.desc = "complex %s" % [(s, W[s]) for s in seq]
    if len(seq) > 3:
        c.nontrivial(c.desc)
    make = lambda: aleph.SimplicialComplex([(list(s), W[s]) for s in seq])
    junk = []

    def churn():
        gc.collect(0)
        junk.append([bytes(64) for _ in range(20)])
    # iterators of temporaries
    c.equal([vs(s) for s in make()], seq, "complex-temporary")
    it = iter(make())
    churn()
    c.equal([vs(s) for s in it], seq, "complex-iterator")
    K = make()
    items = [s for s in K]
    first = K[0]
    last = next(iter(K))
    bounds = [s.boundary for s in K]
    its = [iter(s) for s in K]
    rev = [reversed(K[i]) for i in range(len(seq))]
    del K
    churn()
    c.equal([vs(s) for s in items], seq, "complex-items")
    c.equal([s.data for s in items], [W[s] for s in seq], "complex-items-data")
    c.equal((vs(first), vs(last)), (seq[0], seq[0]), "complex-item")
    del items, first, last
    churn()
    c.equal([sorted(vs(f) for f in b) for b in bounds], [sorted(O.faces(s)) for s in seq], "boundaries")
    c.equal([vs(i) for i in its], seq, "simplex-iterators")
    c.equal([vs(i) for i in rev], seq, "simplex-reverse-iterators")
    big = max(seq, key=len)
    f = [t for t in aleph.Simplex(list(big)).boundary]
    churn()
    c.equal(sorted(vs(t) for t in f), sorted(O.faces(big)), "boundary-items")
    # sorting keeps references valid
    K = make()
    items = [s for s in K]
    K.sort(lambda a, b: (len(b), vs(b)) < (len(a), vs(a)))
    c.equal(sorted(vs(s) for s in items), sorted(seq), "items-after-sort")
    for i in range(40):
        K.append([5000 + i])
    c.equal(sorted(vs(s) for s in items), sorted(seq), "items-after-append")
    # diagrams
    P = random_points(c, 1, 8)
    it = iter(load_diagram(c, P))
    churn()
    c.equal([(p.x, p.y) for p in it], P, "diagram-iterator")
    D = load_diagram(c, P)
    pts, A, B = [p for p in D], np.array(D), np.asarray(D)
    p0 = next(iter(D))
    del D
    churn()
    c.equal([(p.x, p.y) for p in pts], P, "diagram-points")
    c.equal((p0.x, p0.y), P[0], "diagram-point")
    c.equal(([tuple(x) for x in A], [tuple(x) for x in B]), (P, P), "diagram-array")
    B[0, 0] = 5.0
    del B
    ds = aleph.calculatePersistenceDiagrams(make())
    want = {d.dimension: offdiag(d) for d in ds}
    its = {d.dimension: iter(d) for d in ds}
    del ds
    churn()
    c.equal({k: sorted((p.x, p.y) for p in i if p.x != p.y) for k, i in its.items()}, want, "diagrams-iterators")
    it = iter(aleph.calculateZeroDimensionalPersistenceDiagramAndPairing(make())[1])
    churn()
    a = sorted(it)
    c.equal(a, sorted(aleph.calculateZeroDimensionalPersistenceDiagramAndPairing(make())[1]), "pairing-iterator")
    h = abs(aleph.StepFunction(load_diagram(c, P)) - aleph.StepFunction(load_diagram(c, P[:1])))
    churn()
    h.integral, h.max
    c.equal(vs(aleph.RipsExpander()(make(), 1)[0]) != (), True, "expander-temporary")


@section(600, 4000)
def invalid(c):
    r = c.rng
    big = r.choice([2 ** 32, 2 ** 40, 2 ** 64, 2 ** 80])
    S, K = aleph.Simplex([1, 5, 9]), aleph.SimplicialComplex([[0], [1], [0, 1]])
    bad = r.choice([None, "text", object(), 1.5, {"a": 1}, [1, 2], [[None]]])
    M3 = np.zeros((2, 2, 2))
    n, m = r.randint(0, 5), r.randint(0, 5)
    c.nontrivial(c.k)
    c.desc = "object %r rows %d columns %d" % (bad, n, m)
    calls = {
        "simplex-negative": lambda: aleph.Simplex([0, -r.randint(1, 9)]),
        "simplex-large": lambda: aleph.Simplex([0, big]),
        "simplex-text": lambda: aleph.Simplex(["a"]),
        "simplex-float": lambda: aleph.Simplex([1.5]),
        "simplex-none": lambda: aleph.Simplex([None, 1]),
        "simplex-data": lambda: aleph.Simplex([1], "x"),
        "simplex-object": lambda: aleph.Simplex(None),
        "simplex-set-data": lambda: setattr(S, "data", "x"),
        "simplex-set-dimension": lambda: setattr(S, "dimension", 3),
        "simplex-index": lambda: S[big],
        "simplex-compare": lambda: S < None,
        "complex-element": lambda: aleph.SimplicialComplex([[0], None]),
        "complex-integer": lambda: aleph.SimplicialComplex([1, 2]),
        "complex-tuple": lambda: aleph.SimplicialComplex([([0], 1.0, 2.0)]),
        "complex-tuple-short": lambda: aleph.SimplicialComplex([([0],)]),
        "complex-tuple-order": lambda: aleph.SimplicialComplex([(1.0, [0])]),
        "complex-nested": lambda: aleph.SimplicialComplex([[[0]]]),
        "complex-negative": lambda: aleph.SimplicialComplex([[0], [-1]]),
        "complex-append": lambda: K.append(None),
        "complex-append-text": lambda: K.append(["a"]),
        "complex-negative-index": lambda: K[-r.randint(1, 4)],
        "complex-index": lambda: K[r.choice([3, 4, 100, 2 ** 31, 2 ** 62])],
        "complex-sort": lambda: K.sort(5),
        "complex-sort-result": lambda: aleph.SimplicialComplex([[0], [1], [2]]).sort(lambda a, b: "x"),
        "diagrams-none": lambda: aleph.calculatePersistenceDiagrams(None),
        "diagrams-object": lambda: aleph.calculatePersistenceDiagrams(bad, 1.0, 1),
        "diagrams-1d": lambda: aleph.calculatePersistenceDiagrams(np.zeros(4), 1.0, 1),
        "diagrams-3d": lambda: aleph.calculatePersistenceDiagrams(M3, 1.0, 1),
        "diagrams-float32": lambda: aleph.calculatePersistenceDiagrams(np.zeros((3, 2), dtype=np.float32), 1.0, 1),
        "diagrams-integer": lambda: aleph.calculatePersistenceDiagrams(np.zeros((3, 2), dtype=np.int64), 1.0, 1),
        "diagrams-bytes": lambda: aleph.calculatePersistenceDiagrams(bytes(16), 1.0, 1),
        "diagrams-negative-dimension": lambda: aleph.calculatePersistenceDiagrams(np.zeros((3, 2)), 1.0, -1),
        "rips-1d": lambda: aleph.vietoris_rips_from_matrix(np.zeros(4)),
        "rips-3d": lambda: aleph.vietoris_rips_from_matrix(M3),
        "rips-text": lambda: aleph.vietoris_rips_from_matrix([["a"]]),
        "rips-1d-1d": lambda: aleph.vietoris_rips_from_matrix_1d(np.zeros(4)),
        "rips-1d-3d": lambda: aleph.vietoris_rips_from_matrix_1d(M3),
        "rips-2d-1d": lambda: aleph.vietoris_rips_from_matrix_2d(np.zeros(4)),
        "rips-2d-3d": lambda: aleph.vietoris_rips_from_matrix_2d(M3),
        "zero-matrix-1d": lambda: aleph.calculateZeroDimensionalPersistenceDiagramOfMatrix(np.zeros(4)),
        "zero-matrix-3d": lambda: aleph.calculateZeroDimensionalPersistenceDiagramOfMatrix(M3),
        "zero-none": lambda: aleph.calculateZeroDimensionalPersistenceDiagramAndPairing(None, 1.0),
        "norm-none": lambda: aleph.norms.pNorm(None, 1.0),
        "load-none": lambda: aleph.load(None),
        "load-functor": lambda: aleph.load("/nonexistent/file", 3),
        "load-directory": lambda: aleph.load_persistence_diagram("/nonexistent/file"),
    }
    if n != m:
        A = np.ones((n, m))
        calls["rips-rectangular"] = lambda: aleph.vietoris_rips_from_matrix(A)
        calls["rips-1d-rectangular"] = lambda: aleph.vietoris_rips_from_matrix_1d(A)
        calls["rips-2d-rectangular"] = lambda: aleph.vietoris_rips_from_matrix_2d(A)
    for key in sorted(calls):
        c.raises(calls[key], key)
    c.equal((vs(S), S.data, len(K)), ((1, 5, 9), 0.0, 3), "objects-unchanged")

    # degenerate sizes: an answer or an exception
    for call in (lambda: aleph.calculatePersistenceDiagrams(np.zeros((0, 2)), 1.0, 1), lambda: aleph.calculatePersistenceDiagrams(np.zeros((2, 0)), 1.0, 1),
                 lambda: aleph.calculatePersistenceDiagrams(np.zeros((0, 0))), lambda: aleph.vietoris_rips_from_matrix(np.zeros((0, 0))),
                 lambda: aleph.vietoris_rips_from_matrix_1d(np.zeros((0, 0))), lambda: aleph.vietoris_rips_from_matrix_2d(np.zeros((0, 0))),
                 lambda: aleph.calculatePersistenceDiagrams(aleph.SimplicialComplex()), lambda: aleph.RipsExpander()(aleph.SimplicialComplex(), 2),
                 lambda: aleph.calculateZeroDimensionalPersistenceDiagramAndPairing(aleph.SimplicialComplex()),
                 lambda: aleph.calculatePersistenceDiagrams(aleph.SimplicialComplex([[0, 1]])),
                 lambda: aleph.calculatePersistenceDiagrams(np.zeros((1, 1)), -1.0, 1), lambda: aleph.StepFunction().max, lambda: aleph.StepFunction().sup,
                 lambda: repr(aleph.PersistenceDiagram()) + repr(aleph.PersistencePairing()) + repr(aleph.SimplicialComplex()) + repr(aleph.Simplex())):
        try:
            call()
        except Exception:
            pass
        c.checks += 1


if __name__ == "__main__":
    pydriver.main(build, prepare)
