#!/usr/bin/env python3
"""Monitors of the command-line tools (C28).

The tools are compiled from the working tree with AddressSanitizer and
UndefinedBehaviorSanitizer and run as separate processes on generated files.
"""
import glob, itertools, json, math, os, random, shutil, sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.dont_write_bytecode = True

import pyoracle as O
import toolkit
from toolkit import (INF, Graph, Skip, blocks, cleanup, close, flag_complex, full_pairing, g6, random_graph, rejected, run, same_points, section,
                     store_graph, success, write_edges, write_gml, write_net)

TOOLS = {"betti_numbers": "src/tools", "topological_distance": "src/tools", "function_analysis": "src/tools",
         "clique_persistence_diagram": "src/tools", "vietoris_rips": "examples", "network_analysis": "examples"}


# -- sections -----------------------------------------------------------

@section(120, 800)
def betti(c):
    r = c.rng
    expected, files = {}, []
    for _ in range(r.randint(1, 5)):
        g = random_graph(c, 10, weighted=r.random() < 0.5)
        ident = r.choice([r.randint(0, 9), r.randint(0, 99999)])
        name = r.choice(["g%d", "graph_%05d_x", "%d", "t-%d-7", "a%db2"]) % ident
        path = os.path.join(c.scratch, name + ".gml")
        write_gml(c, g, path)
        files.append(path)
        U = O.UnionFind()
        for v in g.ids:
            U.find(v)
        for e in g.weights:
            U.union(*e)
        expected[ident] = len(g.weights) - len(g.ids) + len(set(U.find(v) for v in g.ids))
    # A file that was overwritten by a later one has the content of the later one
    seen = list(dict.fromkeys(files))
    c.desc = "betti_numbers " + " ".join(os.path.basename(f) for f in seen)
    by_id = {}
    if len(set(int("".join(itertools.takewhile(str.isdigit, os.path.basename(f).lstrip("abcdefghijklmnopqrstuvwxyz_-")))) for f in seen)) != len(seen):
        cleanup(c)
        raise Skip()
    p = success(c, run(c, "betti_numbers", seen), "betti_numbers")
    rows = [tuple(int(t) for t in line.split()) for line in p.out.split("\n") if line.strip()]
    c.equal(rows, sorted(expected.items()), "betti", "identifiers and Betti numbers")
    if len(seen) > 1 or any(expected.values()):
        c.nontrivial((sorted(expected.items()), [open(f).read() for f in seen]))
    cleanup(c)


def random_function(c):
    r = c.rng
    n = r.choice([1, 2, 3, 5, 10, 30, 200])
    n = r.randint(1, n)
    k = r.randint(0, 4)
    if k == 0:
        return [float(r.randint(-3, 3)) for _ in range(n)]
    if k == 1:
        return [r.uniform(-100, 100) for _ in range(n)]
    if k == 2:
        x, out = 0.0, []
        for _ in range(n):
            x += r.choice([-1, 1, 0, 0.5])
            out.append(x)
        return out
    if k == 3:
        return [float(i) * r.choice([1, 1, -1]) for i in range(n)]
    return [2.5] * n


@section(250, 2000)
def functions(c):
    r = c.rng
    sublevel, condense, normalize = r.random() < 0.5, r.random() < 0.35, r.random() < 0.4
    args, functions, stdin = [], [], ""
    if condense:
        args.append(r.choice(["-c", "--condense"]))
    if normalize:
        args.append(r.choice(["-n", "--normalize"]))
    if not sublevel:
        args.append(r.choice(["-S", "--superlevels"]))
    elif r.random() < 0.5:
        args.append(r.choice(["-s", "--sublevels"]))
    to_file = r.random() < 0.3
    if to_file:
        args += [r.choice(["-o", "--output"]), "result.dat"]
    for i in range(r.randint(1, 3)):
        F = [random_function(c) for _ in range(r.randint(1, 4))]
        text = ""
        for f in F:
            sep = r.choice([" ", ",", ";", ":", ", ", "\t", "  "])
            text += sep.join("%.17g" % x for x in f) + "\n"
        if i == 0 and r.random() < 0.3:
            stdin = text
            args.append("-")
        else:
            open(os.path.join(c.scratch, "f%d.txt" % i), "w").write(text)
            args.append("f%d.txt" % i)
        functions += F
    c.desc = "function_analysis %s %r" % (" ".join(args), [f[:12] for f in functions])
    p = success(c, run(c, "function_analysis", args, stdin), "function_analysis")
    text = open(os.path.join(c.scratch, "result.dat")).read() if to_file else p.out
    if to_file:
        c.equal(p.out.strip(), "", "output-file", "standard output")
    parts = [l for l in text.splitlines()] if condense else None
    if not condense:
        parts, cur = [], []
        for line in text.splitlines():
            if line.strip():
                cur.append(tuple(float(t) for t in line.split()))
            elif cur:
                parts.append(cur)
                cur = []
        if cur:
            parts.append(cur)
    if not c.equal(len(parts), len(functions), "functions", "number of results"):
        raise Skip()
    for f, part in zip(functions, parts):
        lo, hi = min(f), max(f)
        s = 1 if sublevel else -1
        W = {(i,): s * x for i, x in enumerate(f)}
        W.update({(i, i + 1): max(s * f[i], s * f[i + 1]) for i in range(len(f) - 1)})
        D = O.diagrams(W, include_top=True).get(0, [])
        end = hi if sublevel else lo
        points = [(s * a, end if b == INF else s * b) for a, b in D]
        if normalize and lo != hi:
            points = [((a - lo) / (hi - lo), (b - lo) / (hi - lo)) for a, b in points]
        scale = max(1.0, abs(lo), abs(hi))
        points = [q for q in points if q[0] != q[1]]
        if condense:
            v = [float(t) for t in part.split()]
            if not c.equal(len(v), 4, "columns", "number of condensed values"):
                continue
            pers = [abs(b - a) for a, b in points]
            pers += [0.0] * (len(f) - len(pers))
            norm = math.sqrt(sum(x * x for x in pers))
            c.expect(close(v[3], norm, scale), "norm", lambda: "observed %r expected %r" % (v[3], norm))
            want = (min(pers), max(pers), sum(pers) / len(pers))
            got = v[:3] if sublevel else [abs(v[1]), abs(v[0]), abs(v[2])]
            c.expect(all(close(x, y, scale) for x, y in zip(got, want)), "condensed", lambda: "observed %r expected minimum, maximum, mean %r" % (v, want))
        else:
            c.equal(len(part), len(f), "points", "number of points")
            same_points(c, [q for q in part if not (q[0] == q[1] and (abs(q[0]) > 0 or True))], [q for q in points if g6(q[0]) != g6(q[1])], "diagram", scale)
    if sum(len(f) for f in functions) > 2:
        c.nontrivial((functions, sublevel, condense, normalize))
    cleanup(c)


@section(200, 1500)
def pointclouds(c):
    r = c.rng
    n, d = r.randint(1, 12), r.choice([1, 2, 2, 3, 4])
    grid = r.random() < 0.4
    P = [[float(r.randint(0, 3)) if grid else r.uniform(-2, 2) for _ in range(d)] for _ in range(n)]
    dist = [[math.sqrt(sum((a - b) ** 2 for a, b in zip(p, q))) for q in P] for p in P]
    diam = max(max(row) for row in dist)
    keep, tail = r.random() < 0.3, r.random() < 0.3
    eps = r.uniform(0.1, 1.3) * (diam if diam else 1.0)
    if any(abs(x - eps) < 1e-6 for row in dist for x in row):
        raise Skip()
    dim = r.choice([None, 1, 2, 3]) if n <= 9 else r.choice([1, 2])
    args = [a for a, on in ((r.choice(["-k", "--keep"]), keep), (r.choice(["-t", "--tail"]), tail)) if on]
    sep = r.choice([" ", ",", "\t", "; "])
    sep = " " if sep == "; " else sep
    text = "".join(sep.join("%.17g" % x for x in p) + "\n" for p in P)
    use_stdin = r.random() < 0.3
    if not use_stdin:
        open(os.path.join(c.scratch, "points.txt"), "w").write(text)
    args += ["-" if use_stdin else "points.txt", "%.17g" % eps] + ([] if dim is None else [dim])
    c.desc = "vietoris_rips %s %r" % (" ".join(str(a) for a in args), P)
    p = success(c, run(c, "vietoris_rips", args, text if use_stdin else ""), "vietoris_rips")
    W = O.rips(n, dist, eps, d + 1 if dim is None else dim)
    # Equal distances may differ in the last digits: this must not create points of tiny persistence
    W = {s: round(w, 9) for s, w in W.items()}
    D = full_pairing(W)
    B = blocks(p.out)
    if max(len(s) for s in W) == 1:
        # Without edges, the top dimension is zero
        D = {}
    if tail:
        if not c.equal(len(B), 1 if D else 0, "tail", "number of diagrams"):
            raise Skip()
        if B:
            c.equal(int(B[0][0]["Dimension"]), max(D), "tail-dimension", "dimension of the last diagram")
        D = {k: v for k, v in D.items() if k == max(D)}
    got = {}
    for h, pts in B:
        k = int(h["Dimension"])
        c.expect(k not in got, "dimensions", "dimension is reported twice")
        c.equal(int(h["Entries"]), len(pts), "entries", "number of entries")
        got[k] = pts
    for k in sorted(set(got) | set(D)):
        want = D.get(k, [])
        if not keep:
            want = [q for q in want if q[0] != q[1]]
        obs = got.get(k, [])
        # Points of tiny persistence caused by rounding are not part of the definition
        if not keep:
            obs = [q for q in obs if q[0] != q[1]]
        same_points(c, obs, want, "diagram", diam)
    if n > 2 and any(len(v) > 1 for v in D.values()):
        c.nontrivial((P, args))
    cleanup(c)


@section(250, 1800)
def networks(c):
    r = c.rng
    g = random_graph(c, 9, weighted=r.random() < 0.85)
    stem = "net"
    path, kind = store_graph(c, g, stem)
    if not g.ids:
        cleanup(c)
        raise Skip()
    args, k = [], r.choice([1, 1, 2, 3, 4, 10])
    explicit = k != 1 or r.random() < 0.5
    invert, normalize, factor = r.random() < 0.3, r.random() < 0.4, r.choice([None, None, 1, 2, 2.5])
    nodes = r.random() < 0.3
    vw = {v: 0.0 for v in g.ids}
    edges = dict(g.weights)
    if nodes:
        invert = False
        vw = {v: (float(r.randint(1, 4)) if r.random() < 0.5 else r.uniform(0.5, 5)) for v in g.ids}
        open(os.path.join(c.scratch, "weights.txt"), "w").write(r.choice([" ", "\n"]).join("%.17g" % vw[v] for v in sorted(g.ids)) + "\n")
        args += [r.choice(["-w", "--node-weights"]), "weights.txt"]
        edges = {e: max(vw[e[0]], vw[e[1]]) for e in edges}
    allw = list(vw.values()) + list(edges.values())
    lo, hi = min(allw), max(allw)
    # Node weights are not normalized; see known_defects
    if normalize and not nodes:
        args.append(r.choice(["-n", "--normalize"]))
        if lo != hi:
            edges = {e: (w - lo) / (hi - lo) for e, w in edges.items()}
            lo, hi = 0.0, 1.0
    if invert:
        args.append(r.choice(["-i", "--invert-weights"]))
        edges = {e: hi - w for e, w in edges.items()}
    if factor is not None:
        args += r.choice([["-f", factor], ["--infinity", factor], ["--infinity=%g" % factor]])
    to_files = r.random() < 0.3
    if to_files:
        os.mkdir(os.path.join(c.scratch, "out"))
        args += [r.choice(["-o", "--output"]), "out"]
    args += [os.path.basename(path)] + ([k] if explicit else [])
    c.desc = "network_analysis %s vertices %r edges %r" % (" ".join(str(a) for a in args), g.ids, g.weights)
    p = success(c, run(c, "network_analysis", args), "network_analysis")
    W = flag_complex(g.ids, vw, edges, k)
    D = full_pairing(W)
    if max(len(s) for s in W) == 1:
        D = {}
    if to_files:
        c.equal(p.out.strip(), "", "output-files", "standard output")
        B = []
        for f in sorted(os.listdir(os.path.join(c.scratch, "out"))):
            parts = blocks(open(os.path.join(c.scratch, "out", f)).read())
            if c.equal(len(parts), 1, "output-files", "number of diagrams in a file"):
                dim = parts[0][0]["Dimension"]
                c.equal(f, "net_d" + dim.zfill(len(str(max(k, max(len(s) for s in W) - 1)))) + ".txt", "output-names", "file name")
                B += parts
    else:
        B = blocks(p.out)
    got = {}
    for h, pts in B:
        d = int(h["Dimension"])
        c.expect(d not in got, "dimensions", "dimension is reported twice")
        c.equal(int(h["Entries"]), len(pts), "entries", "number of entries")
        # The Betti number of transformed diagrams is not reported correctly; see known_defects
        if factor is None:
            c.equal(int(h["Betti number"]), sum(1 for q in D.get(d, []) if q[1] == INF), "betti", "Betti number")
        got[d] = pts
    for d in sorted(set(got) | set(D)):
        want = [q for q in D.get(d, []) if q[0] != q[1]]
        if factor is not None:
            want = [(a, factor * hi if b == INF else b) for a, b in want]
        same_points(c, got.get(d, []), want, "diagram", max(1.0, hi))
    if len(g.weights) > 1:
        c.nontrivial((g.ids, g.weights, args))
    cleanup(c)


# -- distances between diagrams -----------------------------------------

def random_points(c, maxn, ties=True):
    r = c.rng
    out = []
    for _ in range(r.randint(0, maxn)):
        a = float(r.randint(0, 6)) if ties and r.random() < 0.6 else r.uniform(0, 6)
        out.append((a, a + (float(r.randint(1, 4)) if ties and r.random() < 0.6 else r.uniform(0.01, 4))))
    return out


def text_diagram(c, D):
    r = c.rng
    L = ["# comment"] if r.random() < 0.4 else []
    for a, b in D:
        L.append("%.17g%s%s" % (a, r.choice([" ", "\t"]), "inf" if b == INF else "%.17g" % b))
        if r.random() < 0.1:
            L.append("")
    return "\n".join(L) + ("\n" if L else "")


def json_diagrams(c, name, by_dim):
    out = []
    for d in c.rng.sample(sorted(by_dim), len(by_dim)):
        D = by_dim[d]
        out.append({"betti": sum(1 for q in D if q[1] == INF), "dimension": d, "name": name, "size": len(D),
                    "diagram": [["%.17g" % a, "inf" if b == INF else "%.17g" % b] for a, b in D]})
    if len(out) == 1 and c.rng.random() < 0.5:
        return json.dumps(out[0])
    return json.dumps({"diagrams": out})


def nested(c, n):
    """Nested intervals with different ends"""
    r = c.rng
    L, R, out = 0.0, 100.0, []
    for _ in range(n):
        L += r.uniform(0.5, 3)
        R -= r.uniform(0.5, 3)
        out.append((L, R))
    r.shuffle(out)
    return out


def pif_distance(A, B, p, normalize):
    pts = sorted(set(x for q in A + B for x in q))
    f = lambda D, x: sum(1 for a, b in D if a <= x < b)
    na = nb = 1.0
    if normalize:
        na, nb = (sum(b - a for a, b in A) or 1.0), (sum(b - a for a, b in B) or 1.0)
        # Normalization divides by the maximum of the function, see normalizer below
        na = max([f(A, x) for x in pts] or [1]) or 1.0
        nb = max([f(B, x) for x in pts] or [1]) or 1.0
    s = 0.0
    for x, y in zip(pts, pts[1:]):
        m = (x + y) / 2
        s += (y - x) * abs(f(A, m) / na - f(B, m) / nb) ** p
    return s


@section(350, 2500)
def distances(c):
    r = c.rng
    kind = r.choice(["hausdorff", "hausdorff", "wasserstein", "wasserstein", "bottleneck", "indicator", "scale-space", "envelope"])
    flags = {"hausdorff": ["-h", "--hausdorff", None], "wasserstein": ["-w", "--wasserstein"], "bottleneck": ["-b", "--bottleneck"],
             "indicator": ["-i", "--indicator"], "scale-space": ["-S", "--scale-space"], "envelope": ["-E", "--envelope"]}
    args = []
    f = r.choice(flags[kind])
    if f:
        args.append(f)
    power = r.choice([None, 1, 2, 3, 1.5])
    if power is not None:
        args += r.choice([["-p", power], ["--power", power], ["--power=%g" % power]])
    p = 2.0 if power is None else float(power)
    m = r.choice([1, 2, 3, 3, 5, 9, 16]) if kind != "wasserstein" else r.choice([1, 2, 3, 5])
    dims = r.sample([0, 1, 2], r.randint(1, 3))
    clean = r.random() < 0.3 and kind in ("hausdorff", "wasserstein", "scale-space")
    dup = r.random() < 0.2 and kind in ("hausdorff", "wasserstein", "scale-space")
    factor = r.choice([None, None, 1, 2]) if kind in ("hausdorff", "wasserstein") and not clean else None
    normalize = kind == "indicator" and r.random() < 0.3
    unpaired = (clean or factor is not None or kind in ("indicator", "envelope"))
    sets = []
    shared = {d: [(10.0 * i, 10.0 * i + 1 + 0.1 * r.randint(0, 9)) for i in range(r.randint(1, 4))] for d in dims}
    for i in range(m):
        S = {}
        for d in dims:
            if r.random() < 0.2 and kind != "bottleneck" and S:
                continue
            if kind == "bottleneck":
                S[d] = [(a + r.uniform(-0.2, 0.2), b + r.uniform(-0.2, 0.2)) for a, b in shared[d]]
            elif kind == "indicator":
                S[d] = nested(c, r.randint(0, 4))
            else:
                S[d] = random_points(c, 5 if kind == "wasserstein" else 7)
                if kind == "hausdorff" and not S[d] and r.random() < 0.7:
                    S[d] = [(0.0, 1.0)]
            if unpaired and r.random() < 0.5 and S[d]:
                S[d].append((float(r.randint(0, 3)), INF))
            if dup and S[d]:
                S[d] += r.sample(S[d], r.randint(0, len(S[d])))
                r.shuffle(S[d])
            if clean and r.random() < 0.5:
                S[d].append((2.0, 2.0))
        sets.append(S)
    for flag, on in ((r.choice(["-c", "--clean"]), clean), ("-r", dup), (r.choice(["-n", "--normalize"]), normalize)):
        if on:
            args.append(flag)
    if factor is not None:
        args += ["-f", factor]
    kernel = kind == "scale-space" or r.random() < 0.25
    expo = kernel and r.random() < 0.5
    sigma = r.choice([None, 0.5, 2.0])
    if kernel and (kind != "scale-space" or r.random() < 0.3):
        args.append(r.choice(["-k", "--kernel"]))
    if expo:
        args.append(r.choice(["-e", "--exp"]))
    if sigma is not None and kernel:
        args += ["-s", sigma]
    sg = 1.0 if sigma is None or not kernel else sigma
    if r.random() < 0.2:
        args.append("-v")

    # Files
    files, as_json = [], r.random() < 0.4
    names = ["s%d" % i for i in range(m)]
    if not as_json and r.random() < 0.2:
        names = ["s%d_%s" % (i, r.choice("abc")) for i in range(m)]
    single = not as_json and r.random() < 0.15
    for i, S in enumerate(sets):
        if as_json:
            open(os.path.join(c.scratch, names[i] + ".json"), "w").write(json_diagrams(c, names[i], S))
            files.append(names[i] + ".json")
        else:
            if single:
                S = sets[i] = {0: S[min(S)]}
            letter = r.choice("dk")
            for d in sorted(S):
                name = "%s.txt" % names[i] if single else "%s_%s%s.txt" % (names[i], letter, r.choice(["%d", "%02d"]) % d)
                open(os.path.join(c.scratch, name), "w").write(text_diagram(c, S[d]))
                files.append(name)
    order = list(range(m))
    if not as_json and r.random() < 0.5:
        r.shuffle(files)
        seen = []
        for fn in files:
            stem = fn[:-4] if single else fn[:fn.rindex("_")]
            if stem not in seen:
                seen.append(stem)
        order = [names.index(s) for s in seen]
    if r.random() < 0.2:
        open(os.path.join(c.scratch, "list"), "w").write("\n".join(files) + "\n")
        args += ["-l", "list"]
    else:
        args += files
    sets = [sets[i] for i in order]
    c.desc = "topological_distance %s %r" % (" ".join(str(a) for a in args), sets)
    q = success(c, run(c, "topological_distance", args), "topological_distance")
    M = [[float(t) for t in line.split()] for line in q.out.splitlines() if line.strip()]
    if not c.expect(len(M) == m and all(len(row) == m for row in M), "shape", lambda: "observed %d rows for %d data sets" % (len(M), m)):
        raise Skip()

    def prepare(D):
        D = list(D)
        if clean:
            D = [x for x in D if x[0] != x[1] and x[1] != INF]
        if dup:
            D = sorted(set(D))
        if factor is not None and D:
            top = max([x[0] for x in D] + [x[1] for x in D if x[1] != INF])
            D = [(a, factor * top if b == INF else b) for a, b in D]
        return D

    T = [{d: prepare(D) for d, D in S.items()} for S in sets]
    alldims = range(min(d for S in T for d in S), max(d for S in T for d in S) + 1)
    for i in range(m):
        for j in range(m):
            x = M[i][j]
            if not c.expect(not math.isnan(x), "number", "the matrix contains NaN"):
                continue
            if i == j and not kernel:
                c.equal(x, 0.0, "diagonal", "entry %d of the diagonal" % i)
                continue
            if j < i:
                c.equal(x, M[j][i], "symmetry", "entries %d,%d" % (i, j))
                continue
            tot = 0.0
            for d in alldims:
                A, B = T[i].get(d, []), T[j].get(d, [])
                if kind == "hausdorff":
                    tot += O.hausdorff(A, B) ** p
                elif kind == "wasserstein":
                    tot += O.wasserstein(A, B, p) ** p
                elif kind == "bottleneck":
                    tot += max([O.linf(a, b) for a, b in zip(A, B)] or [0.0]) ** p
                elif kind == "indicator":
                    A, B = [z for z in A if z[1] != INF], [z for z in B if z[1] != INF]
                    tot += pif_distance(A, B, p, normalize)
                elif kind == "scale-space":
                    tot += O.multiscale(A, B, sg)
            if kind in ("hausdorff", "wasserstein", "bottleneck"):
                tot = tot ** (1.0 / p)
            if kind == "envelope":
                same = all(T[i].get(d, []) == T[j].get(d, []) for d in alldims)
                if same:
                    c.expect(close(x, (1.0 if expo else 0.0) if kernel else 0.0), "envelope-zero", lambda: "distance of equal diagrams is %r" % x)
                elif kernel:
                    c.expect(0 <= x <= 1 if expo else x <= 0, "envelope-range", lambda: "kernel value %r" % x)
                else:
                    c.expect(x >= 0, "envelope-range", lambda: "distance %r" % x)
                continue
            if kernel and kind != "scale-space":
                tot = -tot
                if expo:
                    tot = math.exp(sg * tot)
            c.expect(close(x, tot), kind, lambda: "entry %d,%d observed %r expected %r" % (i, j, x, tot))
    if m > 1:
        c.nontrivial((sets, args))
    cleanup(c)


# -- clique communities -------------------------------------------------

@section(200, 1400)
def cliques(c):
    r = c.rng
    g = random_graph(c, 9, distinct=r.random() < 0.4)
    if not g.weights:
        raise Skip()
    stem = "vp%d_%d_%08x" % (os.getpid(), c.case, random.SystemRandom().getrandbits(32))
    labels = None
    if r.random() < 0.6:
        labels = {v: r.choice(["a%d", "two words %d", "x-%d"]) % v for v in g.ids if r.random() < 0.7}
    path, kind = store_graph(c, g, stem, labels)
    maxk = r.choice([1, 2, 3, 4, 10])
    args = []
    empty, invert, normalize, reverse = (r.random() < 0.4 for _ in range(4))
    if empty:
        args.append(r.choice(["-e", "--ignore-empty"]))
    if invert:
        args.append(r.choice(["-i", "--invert-weights"]))
    if normalize:
        args.append(r.choice(["-n", "--normalize"]))
    if reverse:
        args.append(r.choice(["-r", "--reverse"]))
    mink, limited = 1, False
    if r.random() < 0.3:
        mink = r.randint(1, maxk)
        args += r.choice([["-k", mink], ["--min-k", mink]])
        mink, limited = (mink, True) if reverse else (1, False)
    args += [os.path.basename(path), maxk]
    c.desc = "clique_persistence_diagram %s edges %r vertices %r labels %r" % (" ".join(str(a) for a in args), g.weights, g.ids, labels)
    try:
        success(c, run(c, "clique_persistence_diagram", args), "clique_persistence_diagram")
        found = {os.path.basename(f): open(f).read() for f in glob.glob("/tmp/" + stem + "*")}
    finally:
        for f in glob.glob("/tmp/" + stem + "*"):
            os.unlink(f)
    edges = dict(g.weights)
    lo, hi = min([0.0] + list(edges.values())), max([0.0] + list(edges.values()))
    if normalize and hi != lo:
        edges = {e: (w - lo) / (hi - lo) for e, w in edges.items()}
        hi = 1.0
    if invert:
        edges = {e: hi - w for e, w in edges.items()}
    W = flag_complex(g.ids, {v: -INF for v in g.ids}, edges, maxk)
    lower, upper = {v: [0.0, 0] for v in g.ids}, {v: [0.0, 0] for v in g.ids}
    expected_files = {stem + ".txt"}
    for k in range(maxk, mink - 1, -1):
        nodes = [s for s in W if len(s) == k + 1]
        if not nodes:
            if not empty:
                break
            continue
        cofaces = {}
        for s in nodes:
            for face in O.faces(s):
                cofaces.setdefault(face, []).append(s)
        idx = {s: i for i, s in enumerate(nodes)}
        C = {(idx[s],): W[s] for s in nodes}
        U = O.UnionFind()
        for L in cofaces.values():
            for s, t in itertools.combinations(L, 2):
                C[tuple(sorted((idx[s], idx[t])))] = max(W[s], W[t])
                U.union(s, t)
        for s in nodes:
            U.find(s)
        D = O.diagrams(C, include_top=True).get(0, [])
        name = stem + "_k" + str(k).zfill(len(str(maxk))) + ".txt"
        expected_files.add(name)
        if not c.expect(name in found, "files", lambda: "%s is missing in %r" % (name, sorted(found))):
            continue
        rows = [tuple(float(t) for t in l.split()) for l in found[name].splitlines() if l.strip() and not l.startswith("#")]
        c.expect(all(len(q) == 3 for q in rows), "columns", lambda: "rows %r" % rows[:5])
        same_points(c, [q[:2] for q in rows if q[0] != q[1]], [(a, 2 * hi if b == INF else b) for a, b in D if a != (2 * hi if b == INF else b)], "diagram", hi)
        comps = {}
        for s in nodes:
            comps.setdefault(U.find(s), []).append(s)
        sizes = sorted(len(x) for x in comps.values())
        c.expect(all(1 <= q[2] <= max(sizes) for q in rows), "sizes", lambda: "sizes %r of components %r" % ([q[2] for q in rows], sizes))
        if all(b == INF for a, b in D):
            c.equal(sorted(q[2] for q in rows), [float(x) for x in sizes], "component-sizes", "sizes of the communities")
        for members in comps.values():
            b = min(W[s] for s in members)
            mi = {(idx[s],): W[s] for s in members}
            mi.update({e: w for e, w in C.items() if len(e) == 2 and (e[0],) in mi})
            finite = [(x, y) for x, y in O.diagrams(mi, include_top=True).get(0, []) if y != INF]
            for v in set(x for s in members for x in s):
                for acc in (lower, upper):
                    acc[v][0] += (2 * hi - b) ** 2
                    acc[v][1] += 1
                upper[v][0] += sum((y - x) ** 2 for x, y in finite)
                upper[v][1] += len(finite)
    c.nontrivial((g.weights, args))
    if limited:
        # Cliques of smaller order are not specified
        cleanup(c)
        return
    c.equal(sorted(found), sorted(expected_files), "files", "files that were written")
    rows = [l.split("\t") for l in found.get(stem + ".txt", "").splitlines() if l.strip()]
    c.equal([int(q[0]) for q in rows], sorted(g.ids), "vertices", "vertices of the centrality file")
    for q in rows:
        v = int(q[0])
        if v not in lower or len(q) < 3:
            c.fail("centrality", "row %r" % q)
            continue
        x, k = float(q[1]), int(q[2])
        tol = 1e-5 * (1 + upper[v][0])
        c.expect(lower[v][0] - tol <= x <= upper[v][0] + tol, "centrality", lambda: "vertex %d has %r outside of [%r, %r]" % (v, x, lower[v][0], upper[v][0]))
        c.expect(lower[v][1] <= k <= upper[v][1], "communities", lambda: "vertex %d is in %d communities, expected %r" % (v, k, (lower[v][1], upper[v][1])))
        want = []
        if kind != "txt":
            text = (labels or {}).get(v, "") if kind == "gml" else (labels.get(v, "") if labels else "v%d" % v)
            want = [] if not text else ["\"" + text + "\"" if " " in text else text]
        c.equal(q[3:], want, "labels", "label of vertex %d" % v)
    cleanup(c)


# -- invalid input ------------------------------------------------------

def invalid_cases(c):
    r = c.rng
    s = c.scratch

    def put(name, text):
        open(os.path.join(s, name), "w").write(text)
        return name

    gml = put("ok1.gml", "graph [\n node [\n id 1\n ]\n node [\n id 2\n ]\n edge [\n source 1\n target 2\n weight 2\n ]\n]\n")
    pts = put("points.txt", "0 0\n1 0\n0 1\n")
    dgm = put("s_d0.txt", "0 1\n2 3\n")
    tail = r.choice(["", "x", "\n\n"])
    return [
        ("betti_numbers", [], "no-arguments", False),
        ("betti_numbers", ["missing1.gml"], "missing-file", True),
        ("betti_numbers", [put("nothing.gml", open(os.path.join(s, gml)).read())], "no-identifier", True),
        ("betti_numbers", [put("bad1.gml", "graph [\n node [\n id 1\n ]\n edge [\n source 1\n target 5\n ]\n]\n")], "unknown-node", True),
        ("betti_numbers", [put("dup1.gml", "graph [\n node [\n id 1\n ]\n node [\n id 1\n ]\n]\n")], "duplicate-node", True),
        ("betti_numbers", [put("nest1.gml", "]\n" + tail)], "nesting", True),
        ("function_analysis", [], "no-arguments", False),
        ("function_analysis", ["missing.txt"], "missing-file", True),
        ("function_analysis", [put("f.txt", "1 2 x 3\n")], "not-a-number", True),
        ("vietoris_rips", [], "no-arguments", True),
        ("vietoris_rips", [pts], "no-threshold", True),
        ("vietoris_rips", [pts, 1, "z"], "dimension", True),
        ("vietoris_rips", [put("ragged.txt", "0 0\n1\n2 2 2\n"), 1], "ragged", True),
        ("network_analysis", [], "no-arguments", True),
        ("network_analysis", ["missing.gml"], "missing-file", True),
        ("network_analysis", ["missing.net"], "missing-file", True),
        ("network_analysis", ["missing.txt"], "missing-file", True),
        ("network_analysis", ["-w", "missing.txt", gml], "missing-weights", True),
        ("network_analysis", ["-w", put("short.txt", "1\n"), gml], "few-weights", True),
        ("network_analysis", ["-f", "z", gml], "factor", True),
        ("network_analysis", [gml, "z"], "dimension", True),
        ("network_analysis", [put("one.txt", "1\n")], "tokens", True),
        ("topological_distance", [], "no-arguments", True),
        ("topological_distance", ["-w"], "no-files", True),
        ("topological_distance", ["missing_d0.txt", dgm], "missing-file", True),
        ("topological_distance", [dgm, "missing_d1.txt"], "missing-file", True),
        ("topological_distance", ["missing.json"], "missing-file", True),
        ("topological_distance", [put("bad.json", "{\"diagrams\": [")], "json", True),
        ("topological_distance", [put("bad2.json", "{\"diagrams\": [{\"dimension\": 0}]}")], "json", True),
        ("topological_distance", [put("bad3.json", "[]")], "json", True),
        ("topological_distance", [put("tokens_d0.txt", "1 2\n3\n")], "tokens", True),
        ("topological_distance", [put("diagram.xyz", "1 2\n")], "format", True),
        ("topological_distance", ["-l", "missing"], "missing-list", True),
        ("topological_distance", ["-l", put("empty", "")], "empty-list", True),
        ("topological_distance", ["-p", "z", dgm], "power", True),
        ("clique_persistence_diagram", [], "no-arguments", True),
        ("clique_persistence_diagram", [gml], "no-dimension", True),
        ("clique_persistence_diagram", ["missing.gml", 2], "missing-file", True),
        ("clique_persistence_diagram", ["missing.net", 2], "missing-file", True),
        ("clique_persistence_diagram", ["missing.txt", 2], "missing-file", True),
        ("clique_persistence_diagram", [gml, "z"], "dimension", True),
    ]


@section(90, 300)
def invalid(c):
    cases = invalid_cases(c)
    for i in (c.k % len(cases), c.rng.randrange(len(cases))):
        tool, args, what, message = cases[i]
        c.desc = "%s %s" % (tool, " ".join(str(a) for a in args))
        rejected(c, run(c, tool, args), tool, what, message)
    c.nontrivial((c.k, c.desc))
    cleanup(c)


@section(1, 1)
def known_defects(c):
    """Example programs that stay as they are; the keys are listed in known-findings.txt"""
    open(os.path.join(c.scratch, "points.txt"), "w").write("0 0\n3 4\n3 0\n")
    open(os.path.join(c.scratch, "net.txt"), "w").write("0 1 2\n1 2 4\n")
    open(os.path.join(c.scratch, "weights.txt"), "w").write("1 2 3\n")
    c.nontrivial("known defects")
    p = run(c, "vietoris_rips", ["missing.txt", 1], report=False)
    c.expect(p.bad is None and p.code != 0, "vietoris-missing-file", lambda: "status %d" % p.code)
    p = success(c, run(c, "vietoris_rips", ["-n", "points.txt", 6, 1]), "vietoris_rips")
    c.equal(sorted(x for h, pts in blocks(p.out) for x in pts), [(0.0, 0.6), (0.0, 0.8), (0.0, 1.0)], "vietoris-normalize", p.out)
    p = success(c, run(c, "network_analysis", ["-f", "2", "net.txt"]), "network_analysis")
    c.equal([h["Betti number"] for h, pts in blocks(p.out)], ["1"], "network-infinity-betti")
    p = success(c, run(c, "network_analysis", ["-n", "-w", "weights.txt", "net.txt"]), "network_analysis")
    c.equal(sorted(x for h, pts in blocks(p.out) for x in pts), [(0.0, INF)], "network-normalize-nodes", p.out)
    cleanup(c)


if __name__ == "__main__":
    toolkit.main(TOOLS)
