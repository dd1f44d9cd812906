#!/usr/bin/env python3
"""Monitors of the command-line tools for graphs, meshes and grids (C31)."""
import itertools, json, math, os, re, sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.dont_write_bytecode = True

import pyoracle as O
import toolkit
from toolkit import INF, Skip, blocks, cleanup, close, flag_complex, full_pairing, g6, random_graph, rejected, run, same_points, section, success, write_edges, write_gml, write_net

TOOLS = {"connectivity_matrix_analysis": "src/tools", "graph_analysis": "src/tools", "sparse_adjacency_matrices": "src/tools",
         "clique_communities_to_json": "src/tools", "relevant_edges": "src/tools", "stratified_graph_analysis": "src/tools",
         "ply": "examples", "vtk": "examples", "create_random_graph": "examples"}


def complete_pairing(W):
    """dimension -> all points (with diagonal), including unpaired points of the top dimension"""
    seq = O.order(W)
    pairs, essential = O.reduce(seq)
    D = {}
    for i, j in pairs:
        D.setdefault(len(seq[i]) - 1, []).append((W[seq[i]], W[seq[j]]))
    for i in essential:
        D.setdefault(len(seq[i]) - 1, []).append((W[seq[i]], INF))
    return D


def off_diagonal(D):
    return {k: [q for q in v if q[0] != q[1]] for k, v in D.items()}


def negated(D):
    return {k: [(0.0 - a, INF if b == INF else 0.0 - b) for a, b in v] for k, v in D.items()}


def parts(text):
    """Groups of lines with numbers that are separated by empty lines"""
    out, cur = [], []
    for l in text.splitlines():
        if l.strip():
            cur.append(tuple(float(t) for t in l.split()))
        elif cur:
            out.append(cur)
            cur = []
    if cur:
        out.append(cur)
    return out


def points_of(path):
    return [tuple(float(t) for t in l.split()) for l in open(path) if l.strip()]


def same_parts(c, text, D, key, scale=10.0):
    """The non-empty diagrams are printed in order of their dimension"""
    want = [D[k] for k in sorted(D) if D[k]]
    got = parts(text)
    if c.equal(len(got), len(want), key + "-diagrams", "number of diagrams that are not empty"):
        for g, w in zip(got, want):
            same_points(c, g, w, key, scale)


def degrees(n, edges):
    d = [0] * n
    for u, v in edges:
        d[u] += 1
        d[v] += 1
    return d


# -- graphs -------------------------------------------------------------

@section(250, 2000)
def connectivity(c):
    """Connectivity matrices; larger weights are closer connections"""
    r = c.rng
    args, infinity = [], None
    dim = r.choice([0, 1, 2, 3])
    if dim:
        args += r.choice([["-d", dim], ["--dimension", dim]])
    if r.random() < 0.5:
        infinity = r.choice([1.0, 10.0, 99.5])
        args += r.choice([["-i", infinity], ["--infinity", infinity]])
    keep, verbose = r.random() < 0.5, r.random() < 0.3
    args += [r.choice(o) for o, on in ((["-k", "--keep-unpaired"], keep), (["-v", "--verbose"], verbose)) if on]
    inputs = []
    for i in range(r.randint(1, 3)):
        n = r.randint(2, 7)
        p = r.choice([0.4, 0.8, 1.0])
        M = [[0.0] * n for _ in range(n)]
        for u, v in itertools.combinations(range(n), 2):
            if r.random() < p:
                M[u][v] = M[v][u] = float(r.randint(1, 6)) if r.random() < 0.6 else r.uniform(0.1, 9)
        if not any(x for row in M for x in row):
            raise Skip()
        name = "m%d.txt" % i
        text = ""
        for u in range(n):
            text += r.choice([" ", "\t"]).join("nan" if not M[u][v] and not M[v][u] and u < v and r.random() < 0.2 else "%.17g" % M[u][v] for v in range(n)) + "\n"
        open(os.path.join(c.scratch, name), "w").write(text)
        inputs.append((name, M))
        args.append(r.choice(["", "./"]) + name)
    c.desc = "connectivity_matrix_analysis %s %r" % (" ".join(str(a) for a in args), [M for _, M in inputs])
    p = success(c, run(c, "connectivity_matrix_analysis", args), "connectivity_matrix_analysis")
    try:
        found = json.loads(p.out)["diagrams"]
        seen = {}
        for d in found:
            seen.setdefault(d["name"], []).append((d["dimension"], [tuple(float(t) for t in q) for q in d["diagram"]], d))
    except (ValueError, KeyError, TypeError) as e:
        c.fail("json", "%s in %.1500r" % (e, p.out))
        raise Skip()
    c.expect(verbose == ("Processing" in p.err), "verbose", lambda: p.err[:300])
    c.equal(sorted(seen), sorted(name for name, _ in inputs), "names", "names")
    for name, M in inputs:
        n = len(M)
        hi = max(x for row in M for x in row)
        edges = {(u, v): hi - M[u][v] for u, v in itertools.combinations(range(n), 2) if M[u][v]}
        W = flag_complex(range(n), [0.0] * n, edges, max(1, dim))
        D = complete_pairing(W) if keep else full_pairing(W)
        got = {}
        for k, pts, d in seen.get(name, []):
            c.expect(k not in got, "dimensions", "dimension is reported twice")
            got[k] = pts
            c.equal(d["size"], len(pts), "size", "size")
            finite = all(b < INF for _, b in pts)
            if finite and all(t in d for t in ("total_persistence_1", "total_persistence_2", "persistent_entropy")):
                pers = [abs(b - a) for a, b in pts]
                c.expect(abs(float(d["total_persistence_1"]) - sum(pers)) < 1e-3 * max(1, sum(pers)), "total-1", lambda: "%r" % d)
                c.expect(abs(float(d["total_persistence_2"]) - sum(x * x for x in pers)) < 1e-3 * max(1, sum(x * x for x in pers)), "total-2", lambda: "%r" % d)
        for k in sorted(set(got) | set(D)):
            want = [(a, infinity if b == INF and infinity is not None else b) for a, b in D.get(k, [])]
            same_points(c, got.get(k, []), want, "connectivity", 10)
    c.nontrivial((args, [M for _, M in inputs]))
    cleanup(c)


def write_numbered(c, n, edges, path):
    """Edge list of a graph without isolated vertices"""
    r = c.rng
    L = ["# graph"] if r.random() < 0.4 else []
    for u, v in r.sample(sorted(edges), len(edges)):
        if r.random() < 0.5:
            u, v = v, u
        L.append("%d%s%d%s" % (u, r.choice([" ", "\t"]), v, r.choice(["", " 1", " 3"])))
    open(path, "w").write("\n".join(L) + "\n")


def connected_edges(c, n):
    """Random edges such that every vertex is contained in one"""
    r = c.rng
    p = r.choice([0.2, 0.5, 0.9])
    E = set(e for e in itertools.combinations(range(n), 2) if r.random() < p)
    for v in range(n):
        if not any(v in e for e in E):
            u = r.choice([x for x in range(n) if x != v])
            E.add((min(u, v), max(u, v)))
    return E


@section(250, 2000)
def degree(c):
    """Degree-based filtration of a graph"""
    r = c.rng
    n = r.randint(2, 8)
    E = connected_edges(c, n)
    name = r.choice(["graph", "g_1", "a.b"])
    write_numbered(c, n, E, os.path.join(c.scratch, name + ".txt"))
    os.mkdir(os.path.join(c.scratch, "out"))
    factor, loops, zero, dim = 2, r.random() < 0.5, r.random() < 0.4, r.choice([None, 1, 2, 3])
    args = r.choice([["-o", "out"], ["--output", "out"], ["--output=out/"]])
    if r.random() < 0.5:
        factor = r.choice([1, 2, 3])
        args += r.choice([["-f", factor], ["--infinity", factor]])
    args += [r.choice(o) for o, on in ((["-l", "--loops"], loops), (["-z", "--zero"], zero)) if on]
    args.append(name + ".txt")
    if dim is not None:
        args.append(dim)
    c.desc = "graph_analysis %s %r" % (" ".join(str(a) for a in args), sorted(E))
    success(c, run(c, "graph_analysis", args), "graph_analysis")
    deg = degrees(n, E)
    W = {s: float(max(deg[v] for v in s)) for s in flag_complex(range(n), [0.0] * n, {e: 0.0 for e in E}, dim or 1)}
    if zero:
        for v in range(n):
            W[(v,)] = 0.0
    D = complete_pairing(W) if loops else full_pairing(W)
    D = {k: [(a, float(factor * max(deg)) if b == INF else b) for a, b in v if k or a != b] for k, v in D.items()}
    got = {}
    for f in sorted(os.listdir(os.path.join(c.scratch, "out"))):
        m = re.match(re.escape(name) + r"_d(\d+)\.txt$", f)
        if c.expect(m, "files", "unexpected file " + f):
            got[int(m.group(1))] = points_of(os.path.join(c.scratch, "out", f))
    for k in sorted(set(got) | set(D)):
        same_points(c, got.get(k, []), D.get(k, []), "degree", 1)
    c.nontrivial((args, sorted(E)))
    cleanup(c)


@section(250, 2000)
def sparse(c):
    """Sets of graphs in sparse adjacency matrix format"""
    r = c.rng
    graphs, A, indicator, offset = [], [], [], 1
    for i in range(r.randint(1, 12) if r.random() < 0.2 else r.randint(1, 4)):
        n = r.randint(2, 6)
        E = connected_edges(c, n)
        graphs.append((n, E))
        A += [e for u, v in E for e in ((u + offset, v + offset), (v + offset, u + offset))]
        indicator += [i + 1] * n
        offset += n
    labels = [r.choice(["0", "1", "-1", "7"]) for _ in graphs]
    if r.random() < 0.5:
        r.shuffle(A)
    w = lambda suffix, lines: open(os.path.join(c.scratch, "set_" + suffix + ".txt"), "w").write("".join(str(l) + "\n" for l in lines))
    w("A", [("%d, %d" if r.random() < 0.7 else "%d,%d") % e for e in A])
    w("graph_indicator", indicator)
    w("graph_labels", labels)
    os.mkdir(os.path.join(c.scratch, "out"))
    dim, factor, mode, normalise, closeness, store = r.choice([0, 0, 1, 2, 3]), 2.0, r.choice(["", "", "s", "S"]), r.random() < 0.3, r.random() < 0.3, r.random() < 0.3
    args = r.choice([["-o", "out"], ["--output", "out"], ["--output=out/"]])
    if dim:
        args += r.choice([["-d", dim], ["--dimension", dim]])
    if r.random() < 0.4:
        factor = r.choice([1.0, 1.5, 3.0])
        args += r.choice([["-f", factor], ["--infinity", factor]])
    # Labels and attributes of nodes belong to the graphs that are stored; the filtration uses the degrees only
    names, data = r.random() < 0.3, r.random() < 0.3
    node_labels = ["%s%d" % (r.choice("abc"), r.randint(0, 9)) for _ in indicator]
    if names or r.random() < 0.2:
        w("node_labels", node_labels)
    if data or r.random() < 0.2:
        w("node_attributes", ["%.3f, %d" % (r.uniform(0, 9), r.randint(0, 9)) for _ in indicator])
    args += [r.choice(o) for o, on in ((["-n", "--node-labels"], names), (["-a", "--attributes"], data)) if on]
    args += [r.choice(o) for o, on in ((["-s", "--sum"], mode == "s"), (["-S", "--superlevel"], mode == "S"), (["-N", "--normalise"], normalise),
                                       (["-c", "--closeness-centrality"], closeness), (["-g", "--graphs"], store)) if on]
    args.append("set_A.txt")
    c.desc = "sparse_adjacency_matrices %s %r" % (" ".join(str(a) for a in args), [(n, sorted(E)) for n, E in graphs])
    success(c, run(c, "sparse_adjacency_matrices", args), "sparse_adjacency_matrices")
    complexes, top = [], 0.0
    for n, E in graphs:
        deg = [float(x) for x in degrees(n, E)]
        top = max(top, max(deg))
        if normalise:
            # Single precision
            deg = [g6(x / max(deg)) for x in deg]
            top = 1.0
        K = flag_complex(range(n), [0.0] * n, {e: 0.0 for e in E}, dim or 1)
        # The sum of the degrees applies to simplices with more than one vertex
        f = sum if mode == "s" else min if mode == "S" else max
        complexes.append({s: (deg[s[0]] if len(s) == 1 else f(deg[v] for v in s)) for s in K})
    maxdim = max(len(s) - 1 for W in complexes for s in W)
    width = len(str(len(graphs)))
    out = os.path.join(c.scratch, "out")
    ids = ["%0*d" % (width, i) for i in range(len(graphs))]
    want = set("%s_d%d.txt" % (i, k) for i in ids for k in range(maxdim + 1)) | {"Labels.txt"}
    if closeness:
        want |= set(i + "_closeness_centrality.txt" for i in ids)
    if store:
        want |= set(i + ".gml" for i in ids)
    if not c.equal(sorted(os.listdir(out)), sorted(want), "files", "written files"):
        cleanup(c)
        raise Skip()
    c.equal(open(os.path.join(out, "Labels.txt")).read().split(), labels, "labels", "labels")
    for i, W, (n, E) in zip(ids, complexes, graphs):
        D = complete_pairing({s: -x for s, x in W.items()} if mode == "S" else W)
        D = negated(D) if mode == "S" else D
        for k in range(maxdim + 1):
            pts = [(a, factor * top if b == INF else b) for a, b in D.get(k, []) if a != b]
            got = points_of(os.path.join(out, "%s_d%d.txt" % (i, k)))
            if normalise and mode == "s":
                # Sums of rounded values may differ in the last digits
                pts, got = ([q for q in x if abs(q[0] - q[1]) > 1e-4] for x in (pts, got))
            same_points(c, got, pts, "sparse", 1000)
        if closeness:
            inf = float("inf")
            M = [[0.0 if u == v else 1.0 if (min(u, v), max(u, v)) in E else inf for v in range(n)] for u in range(n)]
            for k in range(n):
                for u in range(n):
                    for v in range(n):
                        M[u][v] = min(M[u][v], M[u][k] + M[k][v])
            cc = [n / sum(x for x in row if x < inf) for row in M]
            got = [float(t) for t in open(os.path.join(out, i + "_closeness_centrality.txt")).read().split()]
            c.expect(len(got) == n and all(close(x, y) for x, y in zip(got, cc)), "closeness", lambda: "observed %r expected %r" % (got, cc))
        if store:
            text = open(os.path.join(out, i + ".gml")).read()
            c.equal((len(re.findall(r"\bnode\b", text)), len(re.findall(r"\bedge\b", text))), (n, len(E)), "gml", "numbers of nodes and edges")
            field = lambda body, key: (re.findall(r"(?m)^\s*%s\s+\"?([^\"\n]*?)\"?\s*$" % key, body) or [None])[0]
            first = 1 + sum(m for m, _ in graphs[:int(i)])
            nodes = re.findall(r"\bnode\s*\[([^\]]*)\]", text)
            c.equal(sorted(int(field(x, "id")) for x in nodes), list(range(first, first + n)), "gml-nodes", "identifiers")
            for x in nodes:
                v = int(field(x, "id"))
                c.equal(field(x, "label"), node_labels[v - 1] if names else None, "gml-label", "label of node %d" % v)
                if data:
                    c.expect(first <= v < first + n and close(float(field(x, "data")), W[(v - first,)]), "gml-data", lambda: "node %d of %r" % (v, text))
            got = {tuple(sorted((int(field(x, "source")) - first, int(field(x, "target")) - first))): float(field(x, "weight")) for x in re.findall(r"\bedge\s*\[([^\]]*)\]", text)}
            c.expect(set(got) == set(E) and all(close(got[e], W[e]) for e in E), "gml-edges", lambda: "observed %r expected %r" % (got, {e: W[e] for e in E}))
    c.nontrivial((args, [(n, sorted(E)) for n, E in graphs]))
    cleanup(c)


@section(250, 2000)
def communities(c):
    """Clique communities below a threshold"""
    r = c.rng
    g = random_graph(c, 9, weighted=True)
    if not g.weights:
        raise Skip()
    labels = {v: r.choice(["Anna", "Bob", "Cy", "n"]) + str(v) for v in g.ids}
    kind = r.choice(["gml", "txt"])
    path = os.path.join(c.scratch, "net." + kind)
    if kind == "gml":
        write_gml(c, g, path, labels)
    else:
        write_edges(c, g, path)
    use = kind == "gml" and r.random() < 0.5
    normalize, invert, maxk = r.random() < 0.3, r.random() < 0.3, r.randint(1, 4)
    edges = dict(g.weights)
    lo, hi = min([0.0] + list(edges.values())), max(edges.values())
    if normalize and lo != hi:
        edges = {e: (w - lo) / (hi - lo) for e, w in edges.items()}
        lo, hi = 0.0, 1.0
    if invert:
        edges = {e: hi - w for e, w in edges.items()}
    t = r.choice(sorted(edges.values()) + [hi]) if not normalize and not invert and r.random() < 0.5 else r.uniform(0, 1.1) * hi
    if any(abs(w - t) < 1e-9 and w != t for w in edges.values()):
        raise Skip()
    args = [r.choice(o) for o, on in ((["-l", "--labels"], use), (["-n", "--normalize"], normalize), (["-i", "--invert-weights"], invert)) if on]
    args += [os.path.basename(path), "%.17g" % t, maxk]
    c.desc = "clique_communities_to_json %s %r %r" % (" ".join(str(a) for a in args), g.ids, g.weights)
    p = success(c, run(c, "clique_communities_to_json", args), "clique_communities_to_json")
    try:
        doc = json.loads(p.out)
        (name, levels), = doc.items()
        got = {int(k): sorted(sorted(tuple(sorted(s)) for s in community) for community in v) for k, v in levels.items()}
    except (ValueError, TypeError, AttributeError) as e:
        c.fail("json", "%s in %.1500r" % (e, p.out))
        raise Skip()
    c.expect(close(float(name), t), "threshold", name)
    c.equal(sorted(got), list(range(2, maxk + 2)), "levels", "levels")
    kept = {e: w for e, w in edges.items() if not w > t}
    W = flag_complex(g.ids, {v: 0.0 for v in g.ids}, kept, maxk)
    for k in range(1, maxk + 1):
        S = [s for s in W if len(s) == k + 1]
        U = O.UnionFind()
        for s in S:
            U.find(s)
        for a, b in itertools.combinations(S, 2):
            if len(set(a) & set(b)) == k:
                U.union(a, b)
        comp = {}
        for s in S:
            comp.setdefault(U.find(s), []).append(tuple(sorted(labels[v] for v in s)) if use else s)
        c.equal(got.get(k + 1), sorted(sorted(x) for x in comp.values()), "communities", "communities of %d-cliques" % (k + 1))
    if len(kept) > 1:
        c.nontrivial((args, g.ids, g.weights))
    cleanup(c)


@section(200, 1600)
def merges(c):
    """Zero-dimensional persistent homology of a weighted graph"""
    r = c.rng
    g = random_graph(c, 9, distinct=r.random() < 0.6)
    kind = r.choice(["gml", "net", "txt"])
    path = os.path.join(c.scratch, "net." + kind)
    labels = {v: r.choice("abcdef") + str(v) for v in g.ids} if kind != "txt" and (kind == "net" or r.random() < 0.5) else None
    if kind == "gml":
        write_gml(c, g, path, labels)
    elif kind == "net":
        write_net(c, g, path, labels)
    else:
        write_edges(c, g, path)
    if not g.ids:
        raise Skip()
    c.desc = "relevant_edges %s %r %r" % (kind, g.ids, g.weights)
    p = success(c, run(c, "relevant_edges", [os.path.basename(path)]), "relevant_edges")
    W = {(v,): 0.0 for v in g.ids}
    W.update(g.weights)
    D = complete_pairing(W).get(0, [])
    got = [tuple(float(t) for t in l.split()) for l in p.out.splitlines() if l.strip()]
    same_points(c, got, D, "merges", 10)
    if len(set(g.weights.values())) == len(g.weights):
        # The edges of the minimum spanning tree; the ratio of the sizes of the merged components
        U, size, want = O.UnionFind(), {}, {}
        for (u, v), w in sorted(g.weights.items(), key=lambda x: x[1]):
            a, b = U.find(u), U.find(v)
            if a != b:
                x, y = size.get(a, 1), size.get(b, 1)
                U.union(u, v)
                size[U.find(u)] = x + y
                want[(u, v)] = min(x, y) / max(x, y)
        seen = {(m.group(1), m.group(2)): float(m.group(3)) for m in re.finditer(r"Edge \((\w+),(\w+)\): (\S+)", p.err)}
        want = {tuple(labels[v] if labels else str(v) for v in e): x for e, x in want.items()}
        c.expect(sorted(seen) == sorted(want) and all(close(seen[e], want[e]) for e in want), "relevance", lambda: "observed %r expected %r" % (seen, want))
    if g.weights:
        c.nontrivial((g.ids, g.weights))
    cleanup(c)


@section(250, 2000)
def stratified(c):
    """Signed weights; standard and absolute filtrations"""
    r = c.rng
    graphs, bipartite = [], r.random() < 0.4
    opposite = r.random() < 0.5
    weight = lambda: float(r.choice([-3, -2, -1, 1, 2, 3])) if opposite else r.choice([-1, 1]) * r.uniform(0.1, 9)
    for i in range(r.randint(1, 3)):
        if bipartite:
            a, b = r.randint(1, 4), r.randint(1, 4)
            M = [[weight() for _ in range(b)] for _ in range(a)]
            E = {(x, a + y): M[x][y] for x in range(a) for y in range(b)}
            text = "".join(r.choice([" ", "\t"]).join("%.17g" % v for v in row) + "\n" for row in M)
            n = a + b
        else:
            n = r.randint(2, 7)
            E = {e: weight() for e in connected_edges(c, n)}
            text = "".join("%d %d %.17g\n" % (u, v, w) for (u, v), w in r.sample(sorted(E.items()), len(E)))
        if len(set(E.values())) < 2:
            raise Skip()
        open(os.path.join(c.scratch, "s%d.txt" % i), "w").write(text)
        graphs.append((n, E))
    filtration, reverse, weights, norm = r.choice(["standard", "absolute"]), r.random() < 0.5, r.choice(["global", "local"]), r.choice([None, None, "abs", "minmax", "standardize"])
    diagram, defaults = r.random() < 0.6, r.random() < 0.15
    args = []
    if defaults:
        args.append(r.choice(["-d", "--default"]))
        filtration, reverse, weights, norm = "absolute", True, "global", "abs"
    else:
        if filtration != "standard" or r.random() < 0.5:
            args += r.choice([["-f", filtration], ["--filtration", filtration]])
        if weights != "global" or r.random() < 0.5:
            args += r.choice([["-w", weights], ["--weights", weights]])
        if reverse:
            args.append(r.choice(["-r", "--reverse"]))
        if norm:
            args.append(r.choice(["-n", "--normalize="]) + norm)
    args += [r.choice(o) for o, on in ((["-b", "--bipartite"], bipartite), (["-p", "--persistence-diagrams"], diagram)) if on]
    args += ["s%d.txt" % i for i in range(len(graphs))]
    c.desc = "stratified_graph_analysis %s %r" % (" ".join(args), graphs)
    expected = []
    for n, E in graphs:
        V = list(E.values())
        if norm == "abs":
            E = {e: w / max(abs(min(V)), abs(max(V))) for e, w in E.items()}
        elif norm == "minmax":
            E = {e: 2 * (w - min(V)) / (max(V) - min(V)) - 1 for e, w in E.items()}
        elif norm == "standardize":
            mu = sum(V) / len(V)
            sigma = math.sqrt(sum((w - mu) ** 2 for w in V) / (len(V) - 1))
            E = {e: (w - mu) / sigma for e, w in E.items()}
        E = {e: float("%.10g" % w) + 0.0 for e, w in E.items()}
        level = (lambda w: w) if filtration == "standard" else abs
        F = {e: (-level(w) if reverse else level(w)) for e, w in E.items()}
        W = dict(F)
        for v in range(n):
            W[(v,)] = min(w for e, w in F.items() if weights == "global" or v in e)
        D = complete_pairing(W)[0]
        low = min(abs(w) for w in E.values())
        s = -1.0 if reverse else 1.0
        D = [(s * a, low if b == INF else s * b) for a, b in D if a != b]
        expected.append([(a + 0.0, b + 0.0) for a, b in D])
    p = success(c, run(c, "stratified_graph_analysis", args), "stratified_graph_analysis")
    if diagram:
        noise = lambda q: abs(q[0] - q[1]) < 1e-7
        got = [[q for q in x if not noise(q)] for x in parts(p.out)]
        want = [[q for q in x if not noise(q)] for x in expected]
        got, want = [x for x in got if x], [x for x in want if x]
        if c.equal(len(got), len(want), "stratified-diagrams", "number of diagrams that are not empty"):
            for g, w in zip(got, want):
                same_points(c, g, w, "stratified", 1000)
    else:
        got = [l.split() for l in p.out.splitlines() if l.strip()]
        if c.equal([q[0] for q in got], [str(i) for i in range(len(graphs))], "indices", "indices"):
            for q, w in zip(got, expected):
                norm2 = math.sqrt(sum((a - b) ** 2 for a, b in w))
                c.expect(close(float(q[1]), norm2, 1000), "norm", lambda: "observed %s expected %r" % (q[1], norm2))
    c.nontrivial((args, graphs))
    cleanup(c)


@section(100, 600)
def random_graphs(c):
    r = c.rng
    n, weighted = r.randint(1, 40), r.random() < 0.5
    # The weight is the number of successes before the first failure, so failures have to be possible
    p = r.choice([0.0, 0.3, 0.7] + ([] if weighted else [1.0]))
    args = r.choice([["-n", n], ["--cardinality", n]]) + r.choice([["-p", p], ["--probability", p]])
    if weighted:
        args.append(r.choice(["-w", "--weighted"]))
    c.desc = "create_random_graph %s" % " ".join(str(a) for a in args)
    q = success(c, run(c, "create_random_graph", args), "create_random_graph")
    text = q.out
    nodes = [int(x) for x in re.findall(r"node\s*\[[^\]]*?\bid\s+(\d+)", text)]
    edges = [(int(a), int(b)) for a, b in re.findall(r"edge\s*\[[^\]]*?\bsource\s+(\d+)\s+target\s+(\d+)", text)]
    c.equal(sorted(nodes), list(range(n)), "nodes", "nodes")
    c.expect(all(u != v and u in nodes and v in nodes for u, v in edges) and len(set(tuple(sorted(e)) for e in edges)) == len(edges), "edges", lambda: "%r" % edges[:50])
    if not weighted:
        full = n * (n - 1) // 2
        if p in (0.0, 1.0):
            c.equal(len(edges), int(p * full), "extreme", "number of edges")
        else:
            # Seven standard deviations
            s = 7 * math.sqrt(full * p * (1 - p)) + 1
            c.expect(abs(len(edges) - p * full) <= s, "density", "%d edges, expected %g" % (len(edges), p * full))
    if n > 2:
        c.nontrivial((args, c.k))
    cleanup(c)


# -- meshes and grids ---------------------------------------------------

@section(200, 1600)
def meshes(c):
    r = c.rng
    n = r.randint(3, 8)
    T = set()
    for _ in range(r.randint(1, 8)):
        T.add(tuple(sorted(r.sample(range(n), 3))))
    value = lambda: float(r.randint(0, 4)) if r.random() < 0.5 else r.uniform(-3, 3)
    V = [[value() for _ in range(4)] for _ in range(n)]
    quality = r.random() < 0.5
    L = ["ply", "format ascii 1.0"]
    if r.random() < 0.4:
        L.append("comment a mesh")
    L += ["element vertex %d" % n] + ["property float %s" % t for t in "xyz"] + (["property float quality"] if quality else [])
    L += ["element face %d" % len(T), "property list uchar int vertex_indices", "end_header"]
    L += [" ".join("%.17g" % x for x in (v if quality else v[:3])) for v in V]
    for t in r.sample(sorted(T), len(T)):
        t = list(t)
        r.shuffle(t)
        L.append("3 %d %d %d" % tuple(t))
    open(os.path.join(c.scratch, "mesh.ply"), "w").write("\n".join(L) + "\n")
    prop = r.choice([None, "x", "y", "z"] + (["quality"] * 3 if quality else []))
    # Superlevel sets are not sorted correctly; see known_defects
    sup = False
    args = [r.choice(["-S", "--superlevel"])] if sup else [r.choice(["-s", "--sublevel"])] if r.random() < 0.5 else []
    args += ["mesh.ply"] + ([prop] if prop else [])
    c.desc = "ply %s %r %r" % (" ".join(args), V, sorted(T))
    p = success(c, run(c, "ply", args), "ply")
    h = [v[{None: 2, "x": 0, "y": 1, "z": 2, "quality": 3}[prop]] for v in V]
    K = O.closure(list(T) + [(v,) for v in range(n)])
    f = -1.0 if sup else 1.0
    D = full_pairing({s: max(f * h[v] for v in s) for s in K})
    D = off_diagonal(negated(D) if sup else {k: [(a + 0.0, b + 0.0) for a, b in v] for k, v in D.items()})
    same_parts(c, p.out, D, "mesh")
    stats = {int(m.group(1)): [float(x) for x in re.findall(r": +(\S+)\n", m.group(2) + "\n")] for m in re.finditer(r"Dimension \[(\d+)\]\n(.*?)\n\n", p.err + "\n", re.S)}
    for k, s in stats.items():
        pers = [abs(b - a) for a, b in D.get(k, []) if b != INF]
        one, two = sum(pers), sum(x * x for x in pers)
        want = [one, two, one, math.sqrt(two)]
        c.expect(len(s) == 4 and all(close(x, y, 100) for x, y in zip(s, want)), "statistics", lambda: "observed %r expected %r" % (s, want))
    c.nontrivial((args, V, sorted(T)))
    cleanup(c)


@section(200, 1600)
def grids(c):
    r = c.rng
    nx, ny, nz = r.randint(1, 5), r.randint(1, 5), r.choice([1, 1, 2, 3])
    n = nx * ny * nz
    h = [float(r.randint(0, 5)) if r.random() < 0.5 else r.uniform(-3, 3) for _ in range(n)]
    at = lambda x, y, z: z * nx * ny + y * nx + x
    L = ["# vtk DataFile Version 3.0", "VTK Output", "ASCII", "DATASET STRUCTURED_GRID", "DIMENSIONS %d %d %d" % (nx, ny, nz), "POINTS %d float" % n]
    L += ["%d %d %d" % (x, y, z) for z in range(nz) for y in range(ny) for x in range(nx)]
    L += ["POINT_DATA %d" % n, "SCALARS values %s" % r.choice(["double", "float"]), "LOOKUP_TABLE default"]
    per = r.choice([1, nx, 3])
    L += [" ".join("%.17g" % v for v in h[i:i + per]) for i in range(0, n, per)]
    open(os.path.join(c.scratch, "g.vtk"), "w").write("\n".join(L) + "\n")
    sup = r.random() < 0.5
    args = [r.choice(["-S", "--superlevels"])] if sup else [r.choice(["-s", "--sublevels"])] if r.random() < 0.5 else []
    c.desc = "vtk %s %d %d %d %r" % (" ".join(args), nx, ny, nz, h)
    p = success(c, run(c, "vtk", args + ["g.vtk"]), "vtk")
    f = -1.0 if sup else 1.0
    W = {(i,): f * v for i, v in enumerate(h)}
    for x, y, z in itertools.product(range(nx), range(ny), range(nz)):
        for a, b, d in ((x + 1, y, z), (x, y + 1, z), (x, y, z + 1)):
            if a < nx and b < ny and d < nz:
                i, j = at(x, y, z), at(a, b, d)
                W[(i, j)] = max(f * h[i], f * h[j])
    D = full_pairing(W)
    D = off_diagonal(negated(D) if sup else {k: [(a + 0.0, b + 0.0) for a, b in v] for k, v in D.items()})
    same_parts(c, p.out, D, "grid")
    if n > 2:
        c.nontrivial((args, nx, ny, nz, h))
    cleanup(c)


@section(1, 1)
def known_defects(c):
    """Example programs that stay as they are; the keys are listed in known-findings.txt"""
    head = ["ply", "format ascii 1.0", "element vertex 3", "property float x", "property float y", "property float z", "element face 1", "property list uchar int vertex_indices", "end_header"]
    open(os.path.join(c.scratch, "mesh.ply"), "w").write("\n".join(head + ["0 0 1", "1 0 2", "0 1 3", "3 0 1 2"]) + "\n")
    c.nontrivial("known defects")
    p = success(c, run(c, "ply", ["-S", "mesh.ply"]), "ply")
    c.equal(parts(p.out), [[(3.0, INF)]], "ply-superlevel")
    cleanup(c)


@section(18, 54)
def invalid(c):
    """Missing arguments and missing files"""
    tools = sorted(set(TOOLS) - {"create_random_graph", "stratified_graph_analysis"})
    tool = tools[c.k % len(tools)]
    missing = c.k // len(tools) % 2
    args = ["missing" + {"ply": ".ply", "vtk": ".vtk", "clique_communities_to_json": ".gml", "relevant_edges": ".gml", "sparse_adjacency_matrices": "_A.txt"}.get(tool, ".txt")] if missing else []
    if missing and tool == "clique_communities_to_json":
        args += ["1", "2"]
    if missing and tool in ("graph_analysis", "sparse_adjacency_matrices"):
        args = ["-o", "."] + args
    c.desc = "%s %s" % (tool, " ".join(args))
    rejected(c, run(c, tool, args), tool, "arguments", bool(args))
    c.nontrivial((tool, args))
    cleanup(c)


if __name__ == "__main__":
    toolkit.main(TOOLS)
