#!/usr/bin/env python3
"""Monitors of the command-line tools for diagrams, functions and point clouds (C30)."""
import itertools, json, math, os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.dont_write_bytecode = True

import pyoracle as O
import toolkit
from toolkit import INF, Skip, blocks, cleanup, close, flag_complex, full_pairing, g6, rejected, run, same_points, section, success

TOOLS = {"persistence_diagram_statistics": "src/tools", "persistence_indicator_function": "src/tools", "persistence_diagram_entropies": "src/tools",
         "make_signature": "src/tools", "point_cloud_data_descriptors": "src/tools", "rips_distributions": "src/tools", "persistent_spines": "src/tools",
         "spectral_analysis": "src/tools", "piecewise_linear_function_smoothing": "src/tools",
         "witness_complex": "examples", "vietoris_rips_eccentricity": "examples", "1D": "examples"}


# -- generated files ----------------------------------------------------

def random_diagram(c, lo=0, hi=12, unpaired=False, distinct=False):
    r = c.rng
    n = r.randint(lo, hi)
    k = r.randint(0, 3)
    D = []
    for i in range(n):
        if k == 0:
            a, b = float(r.randint(0, 5)), float(r.randint(6, 12))
        elif k == 1:
            a = r.uniform(-10, 10)
            b = a + r.uniform(0.01, 5)
        elif k == 2:
            a = r.randint(-4, 4) / 2.0
            b = a + r.randint(1, 6) / 4.0
        else:
            a, b = r.uniform(-1, 1), r.uniform(1.5, 900)
        D.append((a, b))
    if D and r.random() < 0.3 and not distinct:
        D.append(r.choice(D))
    if distinct:
        D = sorted(set(D))
    if unpaired and D and r.random() < 0.5:
        i = r.randrange(len(D))
        D[i] = (D[i][0], INF)
    r.shuffle(D)
    return D


def write_diagram(c, D, name):
    r = c.rng
    L = ["# a diagram", "#"] if r.random() < 0.4 else []
    for a, b in D:
        L.append("%.17g%s%s" % (a, r.choice(["\t", " ", "  "]), "%.17g" % b if b != INF else r.choice(["inf", "INF"])))
        if r.random() < 0.1:
            L.append("")
    open(os.path.join(c.scratch, name), "w").write("".join(l + "\n" for l in L))


def random_cloud(c, lo=1, hi=10, dims=(1, 2, 2, 3)):
    r = c.rng
    n, d = r.randint(lo, hi), r.choice(dims)
    grid = r.random() < 0.3
    return [[float(r.randint(0, 3)) if grid else r.uniform(-2, 2) for _ in range(d)] for _ in range(n)]


def write_cloud(c, P, name="points.txt"):
    sep = c.rng.choice([" ", ",", "\t", ", "])
    open(os.path.join(c.scratch, name), "w").write("".join(sep.join("%.17g" % x for x in p) + "\n" for p in P))


def distances(P):
    return [[math.sqrt(sum((a - b) ** 2 for a, b in zip(p, q))) for q in P] for p in P]


def generic(values, tol=1e-7):
    """All values are either equal (up to rounding) or clearly different"""
    v = sorted(values)
    return all(b - a < 1e-12 * max(1.0, abs(a)) or b - a > tol * max(1.0, abs(a)) for a, b in zip(v, v[1:]))


def rounded(W):
    return {s: float("%.9g" % w) + 0.0 for s, w in W.items()}


def check_diagrams(c, got, D, key, keep=False, scale=1.0):
    """got, D: dimension -> points"""
    for k in sorted(set(got) | set(D)):
        want = D.get(k, [])
        obs = got.get(k, [])
        if not keep:
            want = [q for q in want if q[0] != q[1]]
            obs = [q for q in obs if q[0] != q[1]]
        same_points(c, obs, want, key, scale)


def by_dimension(c, B):
    got = {}
    for h, pts in B:
        k = int(h["Dimension"])
        c.expect(k not in got, "dimensions", "dimension is reported twice")
        c.equal(int(h["Entries"]), len(pts), "entries", "number of entries")
        got[k] = pts
    return got


def from_json(c, text, tool):
    """List of diagrams; every one is a dict with the points as pairs of numbers"""
    try:
        doc = json.loads(text)
        out = doc["diagrams"]
        for d in out:
            d["points"] = [tuple(float(t) for t in p) for p in d["diagram"]]
    except (ValueError, KeyError, TypeError) as e:
        c.fail("json:" + tool, "%s in %.1500r" % (e, text))
        raise Skip()
    for d in out:
        c.equal(d["size"], len(d["points"]), "json-size", "size")
        c.equal(d["betti"], sum(1 for p in d["points"] if p[1] == INF), "json-betti", "Betti number")
    return out


# -- diagrams -----------------------------------------------------------

@section(250, 2000)
def statistics(c):
    r = c.rng
    args, power, invalid = [], 2.0, None
    if r.random() < 0.6:
        power = r.choice([1.0, 2.0, 3.0, 0.5, 2.5])
        args += r.choice([["--power", power], ["-p", power], ["--power=%g" % power]])
    inputs = []
    for i in range(r.randint(1, 4)):
        D = random_diagram(c, 1, 10)
        stem, name, dim = r.choice([("a%d_d%d", "a%d", 1), ("set_%d_k%d", "set_%d", 1), ("x_y_%d_d%d", "x_y_%d", 1), ("plain%d", "plain%d", 0), ("odd%d_q%d", "odd%d_q%d", 2), ("d%d", "d%d", 0)])
        k = r.randint(0, 12)
        fname = (stem % ((i, k) if stem.count("%") == 2 else i)) + ".txt"
        ename = name % ((i, k) if name.count("%") == 2 else i)
        inputs.append((fname, ename, k if dim == 1 else 0, D))
    if r.random() < 0.4:
        invalid = r.choice([p[r.randint(0, 1)] for _, _, _, D in inputs for p in D] + [99.0])
        args += r.choice([["--invalid", "%.17g" % invalid], ["-i", "%.17g" % invalid], ["--invalid=%.17g" % invalid]])
        if any(all(invalid in p for p in D) for _, _, _, D in inputs):
            raise Skip()
    for fname, _, _, D in inputs:
        write_diagram(c, D, fname)
        args.append(fname)
    c.desc = "persistence_diagram_statistics %s %r" % (" ".join(str(a) for a in args), [D for _, _, _, D in inputs])
    p = success(c, run(c, "persistence_diagram_statistics", args), "persistence_diagram_statistics")
    rows = [l.split(",") for l in p.out.splitlines() if l]
    header = ["file", "name", "dimension", "n_features", "power", "total_persistence", "total_persistence_normalized", "infinity_norm", "average_persistence"]
    if not c.equal(rows[:1], [header], "header", "columns") or not c.equal(len(rows), len(inputs) + 1, "rows", "number of rows"):
        cleanup(c)
        raise Skip()
    for row, (fname, name, dim, D) in zip(rows[1:], inputs):
        if not c.equal(len(row), len(header), "columns", "number of values"):
            continue
        if invalid is not None:
            D = [q for q in D if invalid not in q]
        c.equal(row[0].strip("'\""), fname, "file", "file name")
        c.equal(row[1], name, "name", "name of the data set")
        c.equal(row[2], str(dim), "dimension", "dimension")
        c.equal(row[3], str(len(D)), "features", "number of features")
        v = [float(t) for t in row[4:]]
        pers = [b - a for a, b in D]
        total = sum(x ** power for x in pers)
        want = [power, total, total / len(D), max(pers), sum(pers) / len(D)]
        for x, y, what in zip(v, want, header[4:]):
            c.expect(close(x, y), what, lambda: "observed %r expected %r in %s" % (x, y, fname))
    c.nontrivial((args, [D for _, _, _, D in inputs]))
    cleanup(c)


def indicator(D, x):
    """Number of intervals that contain x in their interior"""
    return sum(1 for a, b in D if a < x < b)


def step_value(segments, x):
    return [y for a, b, y in segments if a < x < b]


@section(250, 1800)
def indicators(c):
    r = c.rng
    prefix = r.choice([None, "", "X_", "p"])
    args = []
    # Nested intervals, so that the mean does not meet the known finding of C13
    mean = r.random() < 0.3
    inputs = {}
    for i in range(r.randint(1, 4)):
        if mean:
            lo, hi, D = -10.0 - i, 10.0 + i, []
            for _ in range(r.randint(1, 5)):
                D.append((lo, hi))
                lo, hi = lo + r.randint(1, 3) / 2.0, hi - r.randint(1, 3) / 2.0
        else:
            D = random_diagram(c, 1, 10, unpaired=True)
        inputs["dia%d%s" % (i, r.choice(["", "_d1", ".x"]))] = D
    os.mkdir(os.path.join(c.scratch, "out"))
    args += r.choice([["--output", "out"], ["-o", "out"], ["--output=out/"]])
    if prefix is not None:
        args += r.choice([["--prefix", prefix], ["-p", prefix], ["--prefix=" + prefix]])
    else:
        prefix = "PIF_"
    if mean:
        args.append(r.choice(["-m", "--mean"]))
    for name, D in inputs.items():
        write_diagram(c, D, name + ".txt")
        args.append(r.choice([name + ".txt", "./" + name + ".txt"]))
    c.desc = "persistence_indicator_function %s %r" % (" ".join(args), inputs)
    success(c, run(c, "persistence_indicator_function", args), "persistence_indicator_function")
    files = sorted(os.listdir(os.path.join(c.scratch, "out")))
    want = sorted([prefix + name + ".txt" for name in inputs] + ([prefix + "mean.txt"] if mean else []))
    if not c.equal(files, want, "files", "written files"):
        cleanup(c)
        raise Skip()
    inputs = {name: [q for q in D if q[1] != INF] for name, D in inputs.items()}
    for f in files:
        rows = [tuple(float(t) for t in l.split()) for l in open(os.path.join(c.scratch, "out", f)) if l.strip()]
        if not c.expect(len(rows) % 2 == 0 and all(len(q) == 2 for q in rows), "pairs", "lines of %s do not describe segments: %r" % (f, rows[:10])):
            continue
        S = []
        for (a, y), (b, z) in zip(rows[::2], rows[1::2]):
            c.expect(y == z and a <= b, "segment", "segment %r" % ((a, y, b, z),))
            S.append((a, b, y))
        if f == prefix + "mean.txt" and mean:
            everything, scale = [q for D in inputs.values() for q in D], len(inputs)
        else:
            everything, scale = inputs[f[len(prefix):-4]], 1
        # The numbers are printed with six digits; points close to an event are not evaluated
        X = sorted(set(x for q in everything for x in q))
        for a, b in zip(X, X[1:]):
            m = (a + b) / 2
            if b - a < 1e-4 * max(1.0, abs(a), abs(b)):
                continue
            y, n = step_value(S, m), indicator(everything, m) / scale
            c.expect((len(y) == 1 and close(y[0], n)) or (not y and n == 0), "value", lambda: "%s has the values %r at %r, expected %r" % (f, y, m, n))
        if X:
            c.expect(not S or (min(a for a, _, _ in S) >= X[0] - 1e-4 * max(1, abs(X[0])) and max(b for _, b, _ in S) <= X[-1] + 1e-4 * max(1, abs(X[-1]))), "support", lambda: "%s: %r" % (f, S[:10]))
        else:
            c.equal([s for s in S if s[2] != 0], [], "support", "function of an empty diagram")
    c.nontrivial((args, sorted(inputs.items())))
    cleanup(c)


@section(150, 1200)
def entropies(c):
    r = c.rng
    inputs = [random_diagram(c, 3, 10, distinct=True) for _ in range(r.randint(1, 4))]
    if any(len(D) < 3 for D in inputs):
        raise Skip()
    for i, D in enumerate(inputs):
        write_diagram(c, D, "d%d.txt" % i)
    args = ["d%d.txt" % i for i in range(len(inputs))]
    c.desc = "persistence_diagram_entropies %r" % inputs
    p = success(c, run(c, "persistence_diagram_entropies", args), "persistence_diagram_entropies")
    rows = [l.split("\t") for l in p.out.splitlines() if l]
    if not c.equal([len(q) for q in rows], [3] * len(inputs), "rows", "number of values per row"):
        cleanup(c)
        raise Skip()
    for row, D in zip(rows, inputs):
        pers = [b - a for a, b in D]
        want = -sum(x / sum(pers) * math.log2(x / sum(pers)) for x in pers)
        c.expect(close(float(row[2]), want, 1e4), "persistent-entropy", lambda: "observed %s expected %r" % (row[2], want))
    # The result of a file does not depend on the other ones
    if len(inputs) > 1:
        i = r.randrange(len(inputs))
        q = success(c, run(c, "persistence_diagram_entropies", [args[i]]), "persistence_diagram_entropies")
        c.equal(q.out.split(), rows[i], "independent", "entropies of a single file")
    c.nontrivial(inputs)
    cleanup(c)


@section(200, 1600)
def signatures(c):
    r = c.rng
    args, threshold, keep, normalize = [], 0.0, 0, r.random() < 0.4
    inputs = [random_diagram(c, 0, 9) for _ in range(r.randint(1, 4))]
    if r.random() < 0.5:
        threshold = r.choice([0.5, 1.0, 2.25, 100.0])
        args += r.choice([["-f", threshold], ["--filter", threshold], ["--filter=%g" % threshold]])
        if any(abs(b - a - threshold) < 1e-9 and b - a != threshold for D in inputs for a, b in D):
            raise Skip()
    if r.random() < 0.5:
        keep = r.randint(1, 12)
        args += r.choice([["-k", keep], ["--keep", keep]])
    if normalize:
        args.append(r.choice(["-n", "--normalize"]))
    for i, D in enumerate(inputs):
        write_diagram(c, D, "d%d.txt" % i)
        args.append("d%d.txt" % i)
    c.desc = "make_signature %s %r" % (" ".join(str(a) for a in args), inputs)
    p = success(c, run(c, "make_signature", args), "make_signature")
    lines = p.out.split("\n")
    if not c.equal(len(lines), len(inputs) + 1, "lines", "number of lines"):
        cleanup(c)
        raise Skip()
    for line, D in zip(lines, inputs):
        D = [q for q in D if not q[1] - q[0] < threshold]
        if normalize and D:
            lo, hi = min(a for a, _ in D), max(b for _, b in D)
            if lo != hi:
                D = [((a - lo) / (hi - lo), (b - lo) / (hi - lo)) for a, b in D]
        S = sorted((min(O.linf(p, q), p[1] - p[0], q[1] - q[0]) for p, q in itertools.combinations(D, 2)), reverse=True)
        if keep:
            S = (S + [0.0] * keep)[:keep]
        v = [float(t) for t in line.split()]
        c.expect(len(v) == len(S) and all(close(x, y) for x, y in zip(v, S)), "signature", lambda: "observed %r expected %r" % (v, S))
    c.nontrivial((args, inputs))
    cleanup(c)


# -- functions ----------------------------------------------------------

@section(200, 1500)
def function(c):
    """Persistent homology of a one-dimensional function"""
    r = c.rng
    n = r.choice([1, 2, 5, 20, 100])
    n = r.randint(1, n)
    f = [float(r.randint(-3, 6)) if r.random() < 0.5 else r.uniform(-5, 5) for _ in range(n)]
    open(os.path.join(c.scratch, "f.txt"), "w").write(r.choice([" ", "\n", "\t"]).join("%.17g" % x for x in f) + "\n")
    c.desc = "1D %r" % f
    p = success(c, run(c, "1D", ["f.txt"]), "1D")
    W = {(i,): x for i, x in enumerate(f)}
    W.update({(i, i + 1): max(f[i], f[i + 1]) for i in range(n - 1)})
    seq = O.order(W)
    pairs, essential = O.reduce(seq)
    want = [(W[seq[i]], W[seq[j]]) for i, j in pairs] + [(W[seq[i]], INF) for i in essential]
    got = [tuple(float(t) for t in l.split()) for l in p.err.splitlines() if l.strip()]
    # A single vertex has the highest dimension of the complex, so its class is not reported
    if n > 1:
        same_points(c, got, want, "function", 5)
        c.nontrivial(f)
    cleanup(c)


@section(250, 2000)
def spectra(c):
    r = c.rng
    n = r.randint(1, 15)
    X = sorted(r.sample(range(1, 400), n))
    X = [x / 4.0 for x in X]
    Y = [float(r.randint(1, 6)) if r.random() < 0.5 else r.uniform(0.1, 50) for _ in range(n)]
    L = r.choice([[], ["#spectrum", "title"], ["x y"]])
    L = L + ["%.17g%s%.17g" % (x, r.choice([" ", "\t"]), y) for x, y in zip(X, Y)]
    open(os.path.join(c.scratch, "s.txt"), "w").write("\n".join(L) + "\n")
    args, mode, normalize = [], r.choice(["diagram", "transformation", "identity"]), r.random() < 0.4
    if mode != "diagram" or r.random() < 0.5:
        args += r.choice([["-m", mode], ["--mode", mode], ["--mode=" + mode]])
    if normalize:
        args.append(r.choice(["-n", "--normalize"]))
    args.append("s.txt")
    c.desc = "spectral_analysis %s %r" % (" ".join(args), list(zip(X, Y)))
    p = success(c, run(c, "spectral_analysis", args), "spectral_analysis")
    got = [tuple(float(t) for t in l.split()) for l in p.out.splitlines() if l.strip()]
    total = sum(Y) if normalize else 1.0
    F = [y / total for y in Y]
    W = {(i,): -y for i, y in enumerate(F)}
    W.update({(i, i + 1): max(-F[i], -F[i + 1]) for i in range(n - 1)})
    seq = O.order(W)
    pairs, essential = O.reduce(seq)
    if mode == "diagram":
        want = [(-W[seq[i]], -W[seq[j]]) for i, j in pairs if W[seq[i]] != W[seq[j]]] + [(-W[seq[i]], 0.0) for i in essential]
        same_points(c, [q for q in got if q[0] != q[1]], want, "spectrum", 1)
    elif mode == "identity":
        c.expect(len(got) == n and all(close(g[0], x) and close(g[1], y) for g, x, y in zip(got, X, F)), "identity", lambda: "observed %r expected %r" % (got, list(zip(X, F))))
    else:
        # The persistence of every peak; which one of two equal peaks is destroyed is not determined
        pers = sorted([W[seq[j]] - W[seq[i]] for i, j in pairs] + [0.0 - W[seq[i]] for i in essential])
        obs = sorted(q[1] for q in got)
        c.expect([g6(q[0]) for q in got] == [g6(x) for x in X], "abscissae", lambda: "observed %r expected %r" % (got, X))
        c.expect(len(obs) == n and all(close(a, b) for a, b in zip(obs, pers)), "persistence", lambda: "observed %r expected %r" % (obs, pers))
        if len(set(Y)) == n:
            want = {X[seq[i][0]]: W[seq[j]] - W[seq[i]] for i, j in pairs}
            want.update({X[seq[i][0]]: 0.0 - W[seq[i]] for i in essential})
            c.expect(all(close(want.get(q[0], -1.0), q[1]) for q in got), "peaks", lambda: "observed %r expected %r" % (got, want))
    if n > 1:
        c.nontrivial((args, X, Y))
    cleanup(c)


def interpolate(F, x):
    F = sorted(F)
    for (a, y), (b, z) in zip(F, F[1:]):
        if a <= x <= b:
            return y if x == a else z if x == b else y + (z - y) * (x - a) / (b - a)
    return math.nan


@section(120, 900)
def smoothing(c):
    """The confidence band of a set of functions encloses their mean symmetrically"""
    r = c.rng
    n, m = r.randint(2, 5), r.randint(2, 8)
    X = sorted(r.sample(range(0, 60), m))
    same = r.random() < 0.2
    base = [float(r.randint(-4, 4)) for _ in X]
    F = [base if same else [r.uniform(-5, 5) for _ in X] for _ in range(n)]
    for i, f in enumerate(F):
        L = ["# function"] if r.random() < 0.4 else []
        L += ["%d%s%.17g" % (x, r.choice([" ", "\t"]), y) for x, y in zip(X, f)]
        open(os.path.join(c.scratch, "f%d.txt" % i), "w").write("\n".join(L) + "\n")
    args = r.choice([[], ["-a", "0.1"], ["--alpha=0.25"], ["--n", "20"], ["-n", "5"]]) + ["f%d.txt" % i for i in range(n)]
    c.desc = "piecewise_linear_function_smoothing %s %r %r" % (" ".join(args), X, F)
    p = success(c, run(c, "piecewise_linear_function_smoothing", args), "piecewise_linear_function_smoothing")
    if "-n" in args or "--n" in args:
        c.expect(" (n=%s, m=%d)" % (args[1], n) in p.err, "replicates", lambda: "number of replicates: %r" % p.err[:400])
    parts, cur = [], []
    for l in p.out.splitlines():
        if l.strip():
            cur.append(tuple(float(t) for t in l.split()))
        elif cur:
            parts.append(cur)
            cur = []
    if cur:
        parts.append(cur)
    if not c.equal(len(parts), 3, "parts", "number of functions"):
        cleanup(c)
        raise Skip()
    # Additional points of a function do not matter
    parts = [[(x, interpolate(part, x)) for x in X] for part in parts]
    mean = [sum(f[i] for f in F) / n for i in range(m)]
    M, U, L = parts
    c.expect(all(abs(q[1] - y) < 1e-4 for q, y in zip(M, mean)), "mean", lambda: "observed %r expected %r" % (M, mean))
    up = [u[1] - y for u, y in zip(U, mean)]
    down = [y - l[1] for l, y in zip(L, mean)]
    c.expect(all(abs(u - up[0]) < 2e-4 for u in up + down), "band", lambda: "the band is not symmetric about the mean: %r %r" % (up, down))
    spread = max(max(f[i] for f in F) - min(f[i] for f in F) for i in range(m))
    c.expect(-1e-4 <= up[0] <= spread + 1e-4, "width", lambda: "width %r of the band for functions that differ by at most %r" % (up[0], spread))
    c.nontrivial((args, X, F))
    cleanup(c)


# -- point clouds -------------------------------------------------------

def descriptor(P, dist, name, k, h, order):
    n = len(P)
    if name == "eccentricity":
        if order == 0:
            return [max([0.0] + [dist[i][j] for j in range(n) if j != i]) for i in range(n)]
        return [(sum(dist[i][j] ** order for j in range(n)) / n) ** (1.0 / order) for i in range(n)]
    if name == "gaussian":
        return [sum(math.exp(-dist[i][j] ** 2 / (2 * h)) for j in range(n) if dist[i][j] <= h) / n for i in range(n)]
    return [-sum(sorted(dist[i])[:k]) / n for i in range(n)]


@section(250, 2000)
def descriptors(c):
    r = c.rng
    P = random_cloud(c, 2, 9)
    n, d, dist = len(P), len(P[0]), distances(P)
    diam = max(max(row) for row in dist)
    name = r.choice(["density", "eccentricity", "gaussian"])
    k, h, order = r.randint(1, n), r.choice([0.01, 0.5, 1.0, 2.0]), r.choice([0, 1, 2, 3])
    args = []
    if name != "density" or r.random() < 0.5:
        args += r.choice([["-d", name], ["--descriptor", name], ["--descriptor=" + name]])
    if name == "density":
        if n >= 10 and r.random() < 0.3:
            k = 10
        else:
            args += r.choice([["-k", k], ["--k", k]])
    if name == "gaussian":
        if r.random() < 0.2:
            h = 0.01
        else:
            args += r.choice([["-b", h], ["--bandwidth", h]])
        if any(abs(x - h) < 1e-9 for row in dist for x in row):
            raise Skip()
    if name == "eccentricity":
        if r.random() < 0.2:
            order = 2
        else:
            args += r.choice([["-p", order], ["--power", order]])
    dim = r.choice([None, 1, 2, 3])
    eps = r.uniform(0.1, 1.2) * (diam if diam else 1.0)
    if any(abs(x - eps) < 1e-6 for row in dist for x in row):
        raise Skip()
    args += r.choice([["-e", "%.17g" % eps], ["--epsilon", "%.17g" % eps]])
    if dim is not None:
        args += r.choice([["-D", dim], ["--dimension", dim]])
    invert, normalize, finite = r.random() < 0.3, r.random() < 0.3, r.random() < 0.3
    args += [r.choice(o) for o, on in ((["-i", "--invert"], invert), (["-n", "--normalize"], normalize), (["-r", "--remove-unpaired"], finite)) if on]
    write_cloud(c, P)
    args.append("points.txt")
    V = descriptor(P, dist, name, k, h, order)
    if invert:
        V = [max(V) - v for v in V]
    # Values that differ by rounding errors only would be scaled to arbitrary values
    if not generic(V, 1e-6) or (normalize and max(V) - min(V) < 1e-9):
        raise Skip()
    if normalize:
        V = [(v - min(V)) / (max(V) - min(V)) for v in V]
    V = [float("%.9g" % v) + 0.0 for v in V]
    c.desc = "point_cloud_data_descriptors %s %r" % (" ".join(str(a) for a in args), P)
    p = success(c, run(c, "point_cloud_data_descriptors", args), "point_cloud_data_descriptors")
    got = {}
    for g in from_json(c, p.out, "point_cloud_data_descriptors"):
        c.expect(g["dimension"] not in got, "dimensions", "dimension is reported twice")
        got[g["dimension"]] = g["points"]
    K = O.rips(n, dist, eps, d + 1 if dim is None else dim)
    D = full_pairing({s: max(V[i] for i in s) for s in K})
    if finite:
        D = {q: [x for x in v if x[1] != INF] for q, v in D.items()}
    lo, hi = min(V), max(V)
    noise = lambda q: abs(q[0] - q[1]) <= 2e-6 * max(1e-9, abs(lo), abs(hi))
    got = {q: [x for x in v if not noise(x)] for q, v in got.items()}
    D = {q: [x for x in v if not noise(x)] for q, v in D.items()}
    check_diagrams(c, got, D, "descriptor-" + name, scale=max(1.0, abs(lo), abs(hi)) * 100)
    if n > 2:
        c.nontrivial((P, args))
    cleanup(c)


@section(200, 1600)
def eccentric(c):
    """Vietoris--Rips complex, weighted by eccentricities"""
    r = c.rng
    P = random_cloud(c, 1, 9)
    if r.random() < 0.1:
        P = [P[0]] * r.randint(1, 4)
    n, d, dist = len(P), len(P[0]), distances(P)
    diam = max(max(row) for row in dist)
    eps = r.uniform(0.1, 1.2) * (diam if diam else 1.0)
    order = r.choice([0, 1, 2, 3])
    args, dim, star = ["points.txt", "%.17g" % eps], None, None
    if r.random() < 0.8:
        dim = r.choice([1, 2, 3])
        args.append(dim)
        if r.random() < 0.8:
            args.append(order)
            if r.random() < 0.7:
                star = r.choice("uUlL")
                args.append(star)
    if len(args) < 4:
        order = 1
    E = descriptor(P, dist, "eccentricity", 0, 0, order)
    # All points are equally central in these cases, regardless of rounding; see known_defects
    if n <= 2 or diam == 0:
        raise Skip()
    if (max(E) - min(E) < 1e-6 or not generic(E, 1e-6)) or any(abs(x - eps) < 1e-6 for row in dist for x in row):
        raise Skip()
    V = [float("%.9g" % ((max(E) - e) / (max(E) - min(E)))) + 0.0 for e in E]
    write_cloud(c, P)
    c.desc = "vietoris_rips_eccentricity %s %r" % (" ".join(str(a) for a in args), P)
    p = success(c, run(c, "vietoris_rips_eccentricity", args), "vietoris_rips_eccentricity")
    K = O.rips(n, dist, eps, d + 1 if dim is None else dim)
    if star in ("u", "U"):
        D = full_pairing({s: -min(V[i] for i in s) for s in K})
        D = {k: [(0.0 - a, INF if b == INF else 0.0 - b) for a, b in v] for k, v in D.items()}
    else:
        D = full_pairing({s: max(V[i] for i in s) for s in K})
    got = by_dimension(c, blocks(p.out))
    noise = lambda q: abs(q[0] - q[1]) <= 2e-6
    got = {q: [x for x in v if not noise(x)] for q, v in got.items()}
    D = {q: [x for x in v if not noise(x)] for q, v in D.items()}
    check_diagrams(c, got, D, "eccentric", scale=100)
    c.nontrivial((P, args))
    cleanup(c)


@section(200, 1600)
def witness(c):
    """All points are landmarks, so that the random choice does not matter"""
    r = c.rng
    P = random_cloud(c, 2, 9)
    n, d, dist = len(P), len(P[0]), distances(P)
    nu, R, dim = r.choice([0, 1, 2, 2, 3]), r.choice([0.0, 0.0, r.uniform(0, 1), r.uniform(0, 3)]), r.choice([1, 2, 3])
    if nu > n:
        raise Skip()
    args = r.choice([["-l", 1], ["--landmarks", "1.0"], ["--landmarks=1"]])
    if nu != 2 or r.random() < 0.5:
        args += r.choice([["-n", nu], ["--nu", nu]])
    if R:
        args += r.choice([["-r", "%.17g" % R], ["--radius", "%.17g" % R]])
    if r.random() < 0.3:
        args.append(r.choice(["-R", "--random"]))
    args.append("points.txt")
    # The dimension is ignored unless it is followed by another argument; see known_defects
    args += [dim, "x"]
    m = [sorted(row)[nu - 1] if nu else 0.0 for row in dist]
    edges = {}
    for i, j in itertools.combinations(range(n), 2):
        w = [max(dist[k][i], dist[k][j]) for k in range(n)]
        if any(abs(x - R - y) < 1e-9 and (R or x != y) for x, y in zip(w, m)):
            raise Skip()
        ok = [x for x, y in zip(w, m) if x <= R + y]
        if ok:
            edges[(i, j)] = min(ok)
    write_cloud(c, P)
    c.desc = "witness_complex %s %r" % (" ".join(str(a) for a in args), P)
    p = success(c, run(c, "witness_complex", args), "witness_complex")
    W = rounded(flag_complex(range(n), [0.0] * n, edges, dim))
    check_diagrams(c, by_dimension(c, blocks(p.out)), full_pairing(W), "witness", scale=100)
    if edges:
        c.nontrivial((P, args))
    cleanup(c)


@section(150, 1200)
def distribution(c):
    """Squares of all pairwise distances"""
    r = c.rng
    P = random_cloud(c, 2, 12)
    metric = r.choice(["euclidean", "manhattan"])
    args = r.choice([["-d", metric], ["--distance", metric]]) if metric != "euclidean" or r.random() < 0.5 else []
    eps = None
    if metric == "euclidean":
        D = distances(P)
    else:
        D = [[sum(abs(a - b) for a, b in zip(p, q)) for q in P] for p in P]
    if r.random() < 0.5:
        eps = r.uniform(0.3, 4)
        args += r.choice([["-e", "%.17g" % eps], ["--epsilon", "%.17g" % eps]])
        if any(abs(x - eps) < 1e-6 for row in D for x in row):
            raise Skip()
    write_cloud(c, P)
    args.append("points.txt")
    c.desc = "rips_distributions %s %r" % (" ".join(args), P)
    p = success(c, run(c, "rips_distributions", args), "rips_distributions")
    try:
        doc = json.loads(p.out)
    except ValueError as e:
        c.fail("json:rips_distributions", "%s in %.1500r" % (e, p.out))
        raise Skip()
    want = sorted(D[i][j] ** 2 for i, j in itertools.combinations(range(len(P)), 2))
    got = sorted(float(x) for x in doc.get("distances", []))
    c.expect(len(got) == len(want) and all(close(x, y, 100) for x, y in zip(got, want)), "distances", lambda: "observed %r expected %r" % (got, want))
    # A point may or may not be a neighbour of itself
    if eps is not None:
        want = [sum(1 for x in row if x <= eps) for row in D]
        got = [int(x) for x in doc.get("unweighted_degrees", [])]
        c.expect(got == want or got == [x - 1 for x in want], "degrees", lambda: "observed %r expected %r" % (got, want))
    c.nontrivial((P, args))
    cleanup(c)


def parse_complexes(text):
    """Simplices as they are printed: every line of a complex contains one simplex"""
    out, cur = [], []
    for l in text.splitlines():
        l = l.strip()
        if l.startswith("{"):
            cur.append(tuple(sorted(int(t) for t in l[1:l.index("}")].split("(")[0].split())))
        elif not l and cur:
            out.append(cur)
            cur = []
    if cur:
        out.append(cur)
    return out


def free_faces(K):
    K = set(K)
    for s in K:
        up = [t for t in K if len(t) == len(s) + 1 and set(s) < set(t)]
        if len(up) == 1 and not any(set(up[0]) < set(t) for t in K):
            yield s, up[0]


@section(120, 900)
def spines(c):
    r = c.rng
    P = random_cloud(c, 2, 7, (2, 2, 3))
    dist = distances(P)
    diam = max(max(row) for row in dist)
    rad = r.uniform(0.2, 0.7) * (diam if diam else 1.0)
    method = r.choice([None, "dumb", "fast"])
    args = r.choice([["-r", "%.17g" % rad], ["--radius", "%.17g" % rad]])
    if method:
        args += r.choice([["-s", method], ["--spine", method]])
    write_cloud(c, P)
    c.desc = "persistent_spines %s %r" % (" ".join(args), P)
    p = success(c, run(c, "persistent_spines", args + ["points.txt"]), "persistent_spines")
    parts = parse_complexes(p.out)
    if not c.equal(len(parts), 2, "parts", "number of complexes"):
        cleanup(c)
        raise Skip()
    K, S = set(parts[0]), set(parts[1])
    c.expect(all((i,) in K for i in range(len(P))), "vertices", "vertices of the Čech complex are missing")
    for i, j in itertools.combinations(range(len(P)), 2):
        if abs(dist[i][j] - 2 * rad) > 1e-6:
            c.equal((i, j) in K, dist[i][j] < 2 * rad, "edges", "edge %d %d" % (i, j))
    c.expect(S <= K, "subcomplex", lambda: "spine contains %r" % sorted(S - K))
    c.expect(all(f in S for s in S for f in O.faces(s)), "closed", lambda: "spine %r" % sorted(S))
    c.expect(not list(free_faces(S)), "free", lambda: "spine %r has the free faces %r" % (sorted(S), list(free_faces(S))[:3]))
    euler = lambda L: sum((-1) ** (len(s) - 1) for s in L)
    c.equal(euler(S), euler(K), "euler", "Euler characteristic")
    betti = lambda L: {k: len(v) for k, v in O.diagrams({s: 0.0 for s in L}, include_top=True).items()}
    c.equal(betti(S), betti(K), "betti", "Betti numbers")
    if len(K) > len(P):
        c.nontrivial((P, args))
    if r.random() < 0.3 and len(P[0]) == 2:
        q = success(c, run(c, "persistent_spines", args + [r.choice(["-t", "--tikz"]), "points.txt"]), "persistent_spines")
        c.expect(q.out.lstrip().startswith("\\documentclass") and q.out.rstrip().endswith("\\end{document}"), "tikz", lambda: q.out[:200])
        c.equal(q.out.count("\\begin{tikzpicture}"), 2, "tikz-pictures", "number of pictures")
    cleanup(c)


@section(24, 60)
def invalid(c):
    """Missing arguments and missing files"""
    tools = sorted(TOOLS)
    tool = tools[c.k % len(tools)]
    extra = {"vietoris_rips_eccentricity": ["1"]}.get(tool, [])
    if c.k // len(tools) % 2 == 0:
        if tool == "make_signature":
            raise Skip()
        args = []
    else:
        args = ["missing.txt"] + extra
        if tool == "piecewise_linear_function_smoothing":
            args += ["missing.txt"]
        if tool == "persistence_indicator_function":
            args = ["-o", "."] + args
    c.desc = "%s %s" % (tool, " ".join(args))
    if tool == "vietoris_rips_eccentricity" and args:
        # see known_defects
        raise Skip()
    p = run(c, tool, args)
    # A point cloud that cannot be read is an empty point cloud
    if not args or tool not in ("persistent_spines", "point_cloud_data_descriptors", "rips_distributions", "witness_complex", "vietoris_rips_eccentricity"):
        rejected(c, p, tool, "arguments", bool(args))
    c.nontrivial((tool, args))
    cleanup(c)


@section(1, 1)
def known_defects(c):
    """Example programs that stay as they are; the keys are listed in known-findings.txt"""
    open(os.path.join(c.scratch, "points.txt"), "w").write("0 0\n3 4\n3 0\n")
    c.nontrivial("known defects")
    p = run(c, "witness_complex", ["-l", 1, "points.txt"], report=False)
    c.expect(p.bad is None and p.code == 0, "witness-without-dimension", lambda: "status %d" % p.code)
    p = run(c, "witness_complex", ["-l", 1, "-r", 9, "points.txt", 1], report=False)
    q = run(c, "witness_complex", ["-l", 1, "-r", 9, "points.txt", 1, "x"], report=False)
    c.equal(p.out, q.out, "witness-dimension")
    p = run(c, "vietoris_rips_eccentricity", ["missing.txt", 1], report=False)
    c.expect(p.bad is None, "eccentricity-empty", lambda: p.err[-300:])
    cleanup(c)


if __name__ == "__main__":
    toolkit.main(TOOLS)
