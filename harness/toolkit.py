"""Shared parts of the monitors of the command-line tools.

The tools are compiled from the working tree with AddressSanitizer and
UndefinedBehaviorSanitizer and run as separate processes on generated files.
"""
import itertools, json, math, os, random, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))

import pydriver
import pyoracle as O
from pydriver import section, Skip

INF = O.INF
LIBDIR = "/usr/lib/x86_64-linux-gnu"
TOOLS = {}
BUILD = None


def compile_tools(builddir, repo):
    harness = HERE
    cfg = os.path.join(repo, "include/aleph/config")
    extra = ",".join(sorted(os.listdir(cfg))) if os.path.isdir(cfg) else ""

    def one(name):
        target = os.path.join(builddir, name)
        cmd = ["g++", "-std=gnu++14", "-O1", "-g1", "-include", "functional", "-w", "-fopenmp", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS",
               "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=vptr", "-fno-sanitize-recover=all",
               "-I" + repo + "/include", "-I" + harness + "/config", "-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/hdf5/serial",
               "-MMD", "-MF", target + ".d", os.path.join(repo, TOOLS[name], name + ".cc"), "-o", target + ".tmp",
               LIBDIR + "/hdf5/serial/libhdf5_cpp.so", LIBDIR + "/hdf5/serial/libhdf5.so", LIBDIR + "/libtinyxml2.so.10.0.0", "-llz4"]
        return pydriver.compile_if_needed(target, cmd, target + ".d", extra)

    with ThreadPoolExecutor(6) as pool:
        for e in pool.map(one, sorted(TOOLS)):
            if e:
                return e
    return None


def prepare_tools(builddir, repo):
    global BUILD
    BUILD = builddir


def main(tools):
    """tools: name of a tool -> directory of its source file"""
    TOOLS.update(tools)
    pydriver.main(compile_tools, prepare_tools)


# -- running the tools --------------------------------------------------

class Result:
    pass


def run(c, tool, args, stdin="", cwd=None, report=True):
    """Runs a tool; a memory error, undefined behaviour, a failed assertion or a hang is a violation."""
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "abort_on_error=0:exitcode=99:detect_leaks=0:handle_abort=0:detect_stack_use_after_return=1:print_legend=0:allocator_may_return_null=1:max_allocation_size_mb=2000"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=98"
    env["OMP_NUM_THREADS"] = str(c.rng.choice([1, 2, 3]))
    cmd = [os.path.join(BUILD, tool)] + [str(a) for a in args]
    for attempt in (0, 1):
        try:
            p = subprocess.run(cmd, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env, cwd=cwd or c.scratch, timeout=60)
            break
        except subprocess.TimeoutExpired:
            if attempt:
                c.fail("hang:" + tool, "no answer within 60 s, twice")
                raise Skip()
    r = Result()
    r.code, r.out, r.err = p.returncode, p.stdout, p.stderr
    bad = None
    if "ERROR: AddressSanitizer" in r.err or r.code == 99:
        bad = "memory"
    elif "runtime error:" in r.err or r.code == 98:
        bad = "undefined"
    elif "Assertion" in r.err and r.code == -6:
        bad = "assertion"
    elif r.code < 0 and not (r.code == -6 and "terminate called after throwing" in r.err and "what():" in r.err):
        bad = "signal%d" % -r.code
    c.expect(bad is None or not report, "%s:%s" % (bad, tool), lambda: r.err[-1800:])
    r.bad = bad
    return r


def success(c, r, tool):
    ok = c.expect(r.bad or r.code == 0, "status:" + tool, lambda: "exit status %d: %s" % (r.code, r.err[-600:]))
    if r.bad or not ok:
        raise Skip()
    return r


def rejected(c, r, tool, what, message=True):
    """Unusable input: non-zero status with a message"""
    if r.bad:
        return
    c.expect(r.code != 0, "accepted:%s:%s" % (tool, what), lambda: "unusable input gave status 0 and output %r" % r.out[:300])
    if message and r.code != 0:
        c.expect(r.err.strip() != "", "silent:%s:%s" % (tool, what), "no message")


def g6(x):
    return float("%.6g" % x)


def same_points(c, observed, expected, key, scale=1.0):
    a = sorted(tuple(p) for p in observed)
    b = sorted(tuple(g6(v) for v in p) for p in expected)
    if not c.expect(len(a) == len(b), key + "-count", lambda: "observed %d points %r, expected %d points %r" % (len(a), a[:30], len(b), b[:30])):
        return
    for p, q in zip(a, b):
        for x, y in zip(p, q):
            if not (x == y or abs(x - y) <= 2e-5 * max(abs(x), abs(y)) + 1e-9 * scale):
                c.fail(key, "observed %r expected %r" % (a[:30], b[:30]))
                return
    c.checks += 1


def close(x, y, scale=1.0):
    return x == y or abs(x - y) <= 2e-5 * max(abs(x), abs(y)) + 1e-9 * scale


def blocks(text):
    """Parses gnuplot-style output: list of (header dict, points)"""
    out, header, points, seen = [], {}, [], False
    for line in text.splitlines():
        line = line.strip()
        if line.startswith("# Persistence diagram"):
            if seen:
                out.append((header, points))
            header, points, seen = {}, [], True
        elif line.startswith("#"):
            if ":" in line:
                k, v = line[1:].split(":", 1)
                header[k.strip()] = v.strip()
        elif line:
            points.append(tuple(float(t) for t in line.split()))
    if seen:
        out.append((header, points))
    return out


# -- graphs -------------------------------------------------------------

class Graph:
    """Vertices as numbers, edges as a dict from sorted pairs to weights, names of vertices in the file"""


def random_graph(c, maxn=9, distinct=False, names=None, weighted=True):
    r = c.rng
    g = Graph()
    n = r.randint(2, maxn)
    base = r.choice([0, 0, 1, 7])
    ids = list(range(base, base + n)) if r.random() < 0.6 else sorted(r.sample(range(200), n))
    p = r.choice([0.2, 0.5, 0.9, 1.0])
    g.weights = {}
    for u, v in itertools.combinations(ids, 2):
        if r.random() < p:
            g.weights[(u, v)] = (float(r.randint(1, 5)) if r.random() < 0.7 and not distinct else r.uniform(0.1, 9)) if weighted else 0.0
    if distinct:
        for i, e in enumerate(r.sample(sorted(g.weights), len(g.weights))):
            g.weights[e] = 1.0 + i + r.choice([0, 0.25])
    g.ids = ids
    return g


def write_gml(c, g, path, labels=None, names=None):
    r = c.rng
    name = (lambda v: names[v]) if names else str
    inline = r.random() < 0.5
    L = ["Creator \"x\"", "graph", "["] if not inline else ["graph ["]
    nodes = list(g.ids)
    r.shuffle(nodes)
    for v in nodes:
        L += ["  node [" if inline else "  node\n  ["]
        L += ["    id %s" % name(v)]
        if labels and v in labels:
            L += ["    label \"%s\"" % labels[v]]
        L += ["  ]"]
    edges = list(g.weights.items())
    r.shuffle(edges)
    for (u, v), w in edges:
        if r.random() < 0.5:
            u, v = v, u
        L += ["  edge [" if inline else "  edge\n  [", "    source %s" % name(u), "    target %s" % name(v)]
        if w or r.random() < 0.5:
            L += ["    %s %.17g" % (r.choice(["weight", "value"]), w)]
        L += ["  ]"]
    L += ["]"]
    open(path, "w").write("\n".join(L) + "\n")


def write_net(c, g, path, labels=None):
    r = c.rng
    L = ["*Vertices %d" % len(g.ids)]
    L += ["%d \"%s\"" % (v, labels.get(v, "") if labels else "v%d" % v) for v in g.ids]
    L += [r.choice(["*Edges", "*edges", "*Arcs"])]
    L += ["%d %d %.17g" % (u, v, w) for (u, v), w in g.weights.items()]
    open(path, "w").write("\n".join(L) + "\n")


def write_edges(c, g, path):
    """Isolated vertices cannot be expressed in this format"""
    r = c.rng
    L = ["# edges"] if r.random() < 0.5 else []
    for (u, v), w in r.sample(sorted(g.weights.items()), len(g.weights)):
        if r.random() < 0.5:
            u, v = v, u
        L += ["%d%s%d%s%.17g" % (u, r.choice([" ", "\t", "  "]), v, r.choice([" ", "\t"]), w)]
    g.ids = sorted(set(x for e in g.weights for x in e))
    open(path, "w").write("\n".join(L) + "\n")


def store_graph(c, g, stem, labels=None, kinds=("gml", "net", "txt")):
    kind = c.rng.choice(kinds)
    path = os.path.join(c.scratch, stem + "." + kind)
    if kind == "gml":
        names = None
        if c.rng.random() < 0.3:
            # Identifiers that are not numbers are numbered in lexicographical order
            names = {v: "n%03d%s" % (v, c.rng.choice("xyz")) for v in g.ids}
        write_gml(c, g, path, labels, names)
        if names:
            index = {v: i for i, v in enumerate(sorted(g.ids))}
            g.ids = sorted(index.values())
            g.weights = {(index[u], index[v]): w for (u, v), w in g.weights.items()}
            if labels:
                new = {index[v]: t for v, t in labels.items()}
                labels.clear()
                labels.update(new)
    elif kind == "net":
        write_net(c, g, path, labels)
    else:
        write_edges(c, g, path)
    return path, kind


def flag_complex(ids, vertex_weight, edges, k):
    """All cliques with at most k+1 vertices; weight = maximum over vertices and edges"""
    W = {(v,): vertex_weight[v] for v in ids}
    level = [(v,) for v in sorted(ids)]
    for d in range(1, k + 1):
        nxt = []
        for s in level:
            for v in sorted(ids):
                if v > s[-1] and all((u, v) in edges for u in s):
                    t = s + (v,)
                    W[t] = max([W[s], vertex_weight[v]] + [edges[(u, v)] for u in s])
                    nxt.append(t)
        level = nxt
    return W


def full_pairing(W):
    """dimension -> all points (with diagonal), without unpaired points of the top dimension"""
    seq = O.order(W)
    pairs, essential = O.reduce(seq)
    top = max(len(s) for s in seq) - 1
    D = {}
    for i, j in pairs:
        D.setdefault(len(seq[i]) - 1, []).append((W[seq[i]], W[seq[j]]))
    for i in essential:
        if len(seq[i]) - 1 != top or len(seq[i]) == 0:
            D.setdefault(len(seq[i]) - 1, []).append((W[seq[i]], INF))
    return D


def cleanup(c):
    for f in os.listdir(c.scratch):
        p = os.path.join(c.scratch, f)
        shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
