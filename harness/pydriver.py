"""Protocol of bin/check.py for drivers that are written in Python.

A driver registers sections (functions that take one argument, the case
context) and calls main().  Case numbering, sharding and the records that are
written follow harness/main.cc.
"""
import ctypes, hashlib, json, mmap, os, random, struct, subprocess, sys

SECTIONS = []


class Skip(Exception):
    pass


def section(quick, thorough):
    def register(f):
        SECTIONS.append((f.__name__.strip("_"), quick, thorough, f))
        return f
    return register


class Ctx:
    def __init__(self, name, case, k, rng, scratch, thorough, out, reported):
        self.name, self.case, self.k, self.rng, self.scratch, self.thorough = name, case, k, rng, scratch, thorough
        self.checks, self.digest, self.desc = 0, None, ""
        self._out, self._reported = out, reported

    def fail(self, key, msg):
        full = self.name + "/" + key
        self._reported[full] = self._reported.get(full, 0) + 1
        if self._reported[full] > 5:
            return
        emit(self._out, {"t": "viol", "section": self.name, "key": full, "case": self.case, "msg": str(msg)[:2000], "desc": self.desc[:4000]})

    def expect(self, cond, key, msg=""):
        self.checks += 1
        if not cond:
            self.fail(key, msg() if callable(msg) else msg)
        return bool(cond)

    def equal(self, a, b, key, what=""):
        return self.expect(a == b, key, lambda: "%s observed %.700r expected %.700r" % (what, a, b))

    def near(self, a, b, tol, key, what=""):
        ok = a == b or abs(a - b) <= tol
        return self.expect(ok, key, lambda: "%s observed %r expected %r (tolerance %g)" % (what, a, b, tol))

    def raises(self, f, key, kinds=Exception):
        """The call must end with an exception; returns whether it did."""
        try:
            f()
        except kinds:
            self.checks += 1
            return True
        return self.expect(False, key, "no exception was raised")

    def nontrivial(self, obj):
        self.digest = int.from_bytes(hashlib.sha256(repr(obj).encode()).digest()[:7], "big")


def emit(out, rec):
    out.write(json.dumps(rec) + "\n")
    out.flush()


def sha_file(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def compile_if_needed(target, cmd, depfile, extra=""):
    """Runs cmd (which writes target + '.tmp' and depfile) unless nothing it depends on changed."""
    key_file = target + ".key"
    ck = hashlib.sha256((json.dumps(cmd) + extra).encode()).hexdigest()
    if os.path.exists(key_file) and os.path.exists(target):
        try:
            k = json.load(open(key_file))
            if k["cmd"] == ck and all(sha_file(d) == h for d, h in k["deps"].items()):
                return None
        except (OSError, ValueError, KeyError):
            pass
    if os.path.exists(key_file):
        os.unlink(key_file)
    for attempt in (0, 1):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode == 0:
            break
        if attempt == 1 or "error:" in r.stdout:
            return "cannot compile %s\n%s" % (target, r.stdout[:6000])
    text = open(depfile).read().replace("\\\n", " ").split(":", 1)[1]
    deps = {os.path.normpath(d): None for d in text.split()}
    for d in deps:
        deps[d] = sha_file(d)
    os.rename(target + ".tmp", target)
    with open(key_file, "w") as f:
        json.dump({"cmd": ck, "deps": deps}, f)
    return None


def options(argv):
    o, i = {}, 0
    while i < len(argv):
        if argv[i] in ("--list", "--build"):
            o[argv[i][2:]] = True
            i += 1
        elif argv[i].startswith("--") and i + 1 < len(argv):
            o[argv[i][2:]] = argv[i + 1]
            i += 2
        else:
            sys.stderr.write("HARNESS: unknown option %s\n" % argv[i])
            os._exit(77)
    return o


def main(build, prepare=None):
    """build(builddir, repo) -> error text or None; prepare(builddir, repo) is called once before the cases."""
    o = options(sys.argv[1:])
    builddir, repo = o["builddir"], o["repo"]
    if "build" in o:
        os.makedirs(builddir, exist_ok=True)
        e = build(builddir, repo)
        if e:
            print(e)
            sys.exit(1)
        sys.exit(0)
    ctypes.CDLL(None).prctl(1, 9, 0, 0, 0)  # PR_SET_PDEATHSIG: never outlive an interrupted check
    SECTIONS.sort(key=lambda s: s[0])
    if "list" in o:
        for name, q, t, _ in SECTIONS:
            print(name, q, t)
        sys.exit(0)
    if prepare:
        prepare(builddir, repo)

    seed, thorough = int(o.get("seed", "1")), o.get("tier") == "thorough"
    shard, shards, start = int(o.get("shard", "0")), int(o.get("shards", "1")), int(o.get("start", "0"))
    only, scale = int(o.get("case", "-1")), float(o.get("scale", "1"))
    out = open(o["out"], "a") if "out" in o else sys.stdout
    progress = None
    if "progress" in o:
        with open(o["progress"], "r+b") as f:
            progress = mmap.mmap(f.fileno(), 24)
    stats, digests, sampled, reported = {}, {}, set(), {}

    def flush():
        emit(out, {"t": "stat", "pid": os.getpid(), "sections": stats})
        for name, d in digests.items():
            if d:
                emit(out, {"t": "dig", "section": name, "d": d})
        digests.clear()

    index, beat, since = 0, 0, 0
    for name, q, t, f in SECTIONS:
        n = max(1, int((t if thorough else q) * scale))
        for k in range(n):
            case = index
            index += 1
            if only >= 0:
                if case != only:
                    continue
            elif case % shards != shard or case < start:
                continue
            if "section" in o and o["section"] != name:
                continue
            beat += 1
            if progress is not None:
                progress[0:16] = struct.pack("QQ", case, beat)
            c = Ctx(name, case, k, random.Random("%d/%s/%s/%d" % (seed, o.get("property", ""), name, k)), o.get("scratch", "/nonexistent"), thorough, out, reported)
            st = stats.setdefault(name, {"cases": 0, "checks": 0, "skipped": 0})
            st["cases"] += 1
            try:
                f(c)
            except Skip:
                st["skipped"] += 1
            except Exception as e:
                import traceback
                c.fail("exception:" + type(e).__name__, "unexpected exception: %s\n%s" % (e, traceback.format_exc()[-1200:]))
            st["checks"] += c.checks
            if c.digest is not None:
                digests.setdefault(name, []).append(c.digest)
                if name not in sampled and shard == 0 and c.desc:
                    sampled.add(name)
                    emit(out, {"t": "sample", "section": name, "case": case, "checks": c.checks, "desc": c.desc[:1200]})
            since += 1
            if since >= 50:
                since = 0
                flush()
    flush()
    emit(out, {"t": "done", "pid": os.getpid()})
    if progress is not None:
        progress[16:24] = struct.pack("Q", 1)
    out.flush()
    os._exit(0)
