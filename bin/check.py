#!/usr/bin/env python3
"""Builds and runs the runtime monitors of one property.

  check.py <ID>            build from /repo's working tree, run, judge
  check.py --build [ID..]  build only (used by setup)
  check.py <ID> --replay FILE   re-run the case recorded in a replay file

Exit status: 0 property held, 1 violation (with a VIOLATION line),
2 the check itself failed (build error, harness error, nothing observed).
"""
import fcntl, glob, hashlib, json, mmap, os, re, shutil, signal, struct, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
HARNESS = os.path.join(VERIF, "harness")
EVIDENCE = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known-findings.txt")
JOBS = 8
STALL = 75.0          # seconds without progress before a case is re-run alone
STALL_ALONE = 200.0   # limit of the re-run
DEADLINE = 800.0      # the whole run
MAX_RESTARTS = 12     # per shard


def die(msg):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(2)


def spec(pid):
    s = {"sanitizer": "address", "libs": [], "cxxflags": [], "rule": "", "assumptions": [], "driver": "c++", "shards": JOBS}
    f = os.path.join(HARNESS, pid, "spec.json")
    if os.path.exists(f):
        s.update(json.load(open(f)))
    return s


def flags(s):
    f = ["-std=gnu++14", "-O1", "-g1", "-include", "functional", "-w", "-fno-omit-frame-pointer",
         "-D_GLIBCXX_ASSERTIONS", "-I" + HARNESS, "-I" + REPO + "/include", "-I" + HARNESS + "/config",
         "-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/hdf5/serial"]
    if s["sanitizer"] == "thread":
        f += ["-fsanitize=thread"]
    else:
        f += ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all"]
    return f + s["cxxflags"]


def sha_file(path):
    h = hashlib.sha256()
    with open(path, "rb") as f:
        h.update(f.read())
    return h.hexdigest()


def parse_depfile(path):
    text = open(path).read().replace("\\\n", " ")
    text = text.split(":", 1)[1]
    return [os.path.normpath(d.replace("\\ ", " ")) for d in re.findall(r"(?:\\ |\S)+", text)]


def config_state():
    # which configuration headers the working tree provides
    return ",".join(sorted(os.path.basename(x) for x in glob.glob(REPO + "/include/aleph/config/*.hh")))


def up_to_date(key_file, target, cmdkey):
    if not (os.path.exists(key_file) and os.path.exists(target)):
        return False
    try:
        k = json.load(open(key_file))
        if k["cmd"] != cmdkey:
            return False
        for d, h in k["deps"].items():
            if sha_file(d) != h:
                return False
        return True
    except (OSError, ValueError, KeyError):
        return False


def compile_one(src, obj, cflags):
    key_file, dep = obj + ".key", obj + ".d"
    cmdkey = hashlib.sha256(json.dumps([cflags, src, config_state(), "v1"]).encode()).hexdigest()
    if up_to_date(key_file, obj, cmdkey):
        return None
    if os.path.exists(key_file):
        os.unlink(key_file)
    tmp = obj + ".tmp"
    cmd = ["g++"] + cflags + ["-MMD", "-MF", dep, "-c", src, "-o", tmp]
    for attempt in (0, 1):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode == 0:
            break
        if attempt == 1 or "error:" in r.stdout:
            return "cannot compile %s\n%s" % (src, r.stdout[:6000])
    deps = {d: sha_file(d) for d in parse_depfile(dep)}
    os.rename(tmp, obj)
    with open(key_file, "w") as f:
        json.dump({"cmd": cmdkey, "deps": deps}, f)
    return None


def build(pids):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        jobs, links = [], []
        for pid in pids:
            s = spec(pid)
            if s["driver"] != "c++":
                continue
            cf = flags(s)
            d = os.path.join(BUILD, pid)
            os.makedirs(d, exist_ok=True)
            objs = []
            for src in sorted(glob.glob(os.path.join(HARNESS, pid, "*.cc"))) + [os.path.join(HARNESS, "main.cc")]:
                obj = os.path.join(d, os.path.basename(src)[:-3] + ".o")
                mcf = [x for x in cf if not x.startswith("-I" + REPO)] if src.endswith("/main.cc") else cf
                jobs.append((src, obj, mcf))
                objs.append(obj)
            links.append((pid, s, cf, objs))
        with ThreadPoolExecutor(JOBS) as ex:
            errs = [e for e in ex.map(lambda j: compile_one(*j), jobs) if e]
        if errs:
            return errs[0]

        def link(l):
            pid, s, cf, objs = l
            exe = os.path.join(BUILD, pid, "driver")
            key = hashlib.sha256(("".join(sha_file(o) for o in objs) + json.dumps([cf, s["libs"]])).encode()).hexdigest()
            kf = exe + ".key"
            if os.path.exists(exe) and os.path.exists(kf) and open(kf).read() == key:
                return None
            san = [x for x in cf if x.startswith("-fsanitize")]
            r = subprocess.run(["g++", "-g1"] + san + objs + ["-o", exe + ".tmp"] + s["libs"] + ["-lpthread"],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if r.returncode != 0:
                return "cannot link %s\n%s" % (pid, r.stdout[:4000])
            os.rename(exe + ".tmp", exe)
            open(kf, "w").write(key)
            return None
        with ThreadPoolExecutor(JOBS) as ex:
            errs = [e for e in ex.map(link, links) if e]
        if errs:
            return errs[0]
        for pid in pids:
            s = spec(pid)
            if s["driver"] != "c++":
                r = subprocess.run([sys.executable, os.path.join(HARNESS, pid, s["driver"]), "--build", "--builddir", os.path.join(BUILD, pid), "--repo", REPO],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                if r.returncode != 0:
                    return "cannot build %s\n%s" % (pid, r.stdout[-4000:])
        return None
    finally:
        lock.close()


def environment(s):
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = ("abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=3000:"
                           "hard_rss_limit_mb=4000:handle_abort=1:detect_stack_use_after_return=1:alloc_dealloc_mismatch=1:"
                           "print_legend=0:quarantine_size_mb=32:" + s.get("asan_options", ""))
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=98"
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=97:second_deadlock_stack=1:history_size=4"
    env["LC_ALL"] = "C.UTF-8"
    env["OMP_NUM_THREADS"] = "2"
    env["OPENBLAS_NUM_THREADS"] = "1"
    env["HDF5_USE_FILE_LOCKING"] = "FALSE"
    return env


FRAME = re.compile(r"#\d+ 0x[0-9a-f]+ (?:in )?(.*)")


def repo_frame(text):
    for m in FRAME.finditer(text):
        g = re.search(re.escape(REPO) + r"/[^\s:]*/([^/\s:]+\.(?:hh|cc|hpp)):\d+", m.group(1))
        if g:
            return g.group(1)
    g = re.search(re.escape(REPO) + r"/[^\s:]*/([^/\s:]+\.(?:hh|cc|hpp)):\d+", text)
    return g.group(1) if g else "?"


def crash_kind(text, rc):
    m = re.search(r"ThreadSanitizer: ([a-z ]+)", text)
    if m:
        return "tsan-" + m.group(1).strip().replace(" ", "-")
    m = re.search(r"runtime error: ([^\n]*)", text)
    if m:
        k = re.sub(r"0x[0-9a-f]+|[-+]?\d[\d.e+-]*|nan|inf", "N", m.group(1))
        k = re.sub(r"'[^']*'", "T", k)
        k = re.sub(r"[^A-Za-z ]+", "", k).strip().replace(" ", "-")[:60]
        return "ubsan-" + k
    m = re.search(r"terminate called after throwing an instance of '([^']*)'", text)
    if m:
        return "terminate-" + re.sub(r"[^A-Za-z_:]", "", m.group(1))
    if "terminate called" in text:
        return "terminate"
    if re.search(r"Assertion [`'].*' failed", text):
        return "assertion"
    m = re.search(r"ERROR: AddressSanitizer: ([A-Za-z0-9-]+)", text)
    if m:
        return "asan-" + m.group(1)
    if "hard rss limit exhausted" in text:
        return "memory-limit"
    return "signal%d" % -rc if rc < 0 else "exit%d" % rc


class Shard:
    def __init__(self, n, cmd, wd, env):
        self.n, self.base, self.wd, self.env = n, cmd, wd, env
        self.out = os.path.join(wd, "out.%d" % n)
        self.progress = os.path.join(wd, "progress.%d" % n)
        self.scratch = os.path.join(wd, "scratch.%d" % n)
        os.makedirs(self.scratch, exist_ok=True)
        self.restarts, self.finished, self.gave_up = 0, False, False
        self.start(0)

    def start(self, start):
        with open(self.progress, "wb") as f:
            f.write(b"\0" * 24)
        self.err = os.path.join(self.wd, "err.%d" % self.n)
        self.errf = open(self.err, "wb")
        self.last_beat, self.last_time = None, time.time()
        self.proc = subprocess.Popen(self.base + ["--start", str(start), "--out", self.out, "--progress", self.progress, "--scratch", self.scratch],
                                     stdout=self.errf, stderr=self.errf, stdin=subprocess.DEVNULL, env=self.env, cwd=self.scratch, start_new_session=True)

    def peek(self):
        with open(self.progress, "rb") as f:
            d = f.read(24)
        return struct.unpack("QQQ", d.ljust(24, b"\0"))

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.proc.wait()
        self.errf.close()

    def stderr_text(self):
        with open(self.err, "rb") as f:
            d = f.read()
        if len(d) > 400000:
            d = d[:200000] + b"\n...\n" + d[-200000:]
        return d.decode("utf-8", "replace")


def load_known():
    known = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                known[(m.group(1), m.group(2))] = m.group(3)
    return known


def main():
    args = sys.argv[1:]
    if args and args[0] == "--build":
        pids = args[1:] or sorted(os.path.basename(d) for d in glob.glob(HARNESS + "/[A-Z][0-9]*"))
        t = time.time()
        e = build(pids)
        if e:
            die(e)
        print("built %s in %.0f s" % (" ".join(pids), time.time() - t))
        return 0
    pid = args[0]
    s = spec(pid)
    replay = None
    if "--replay" in args:
        replay = json.load(open(args[args.index("--replay") + 1]))
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if replay:
        seed, tier = replay["seed"], replay["tier"]
    t0 = time.time()
    e = build([pid])
    if e:
        die(e)
    t_build = time.time() - t0

    wd = os.path.join(BUILD, "run", "%s-%d" % (pid, os.getpid()))
    os.makedirs(wd)
    try:
        return run(pid, s, seed, tier, replay, wd, t0, t_build, args)
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def run(pid, s, seed, tier, replay, wd, t0, t_build, args):
    env = environment(s)
    if s["driver"] == "c++":
        exe = [os.path.join(BUILD, pid, "driver")]
    else:
        exe = [sys.executable, os.path.join(HARNESS, pid, s["driver"]), "--builddir", os.path.join(BUILD, pid), "--repo", REPO]
    base = exe + ["--property", pid, "--seed", str(seed), "--tier", tier]
    if "--section" in args:
        base += ["--section", args[args.index("--section") + 1]]
    if "--scale" in args:
        base += ["--scale", args[args.index("--scale") + 1]]

    lst = subprocess.run(exe + ["--list"], stdout=subprocess.PIPE, text=True, env=env)
    if lst.returncode != 0:
        die("driver cannot list its sections")
    sections = [(l.split()[0], int(l.split()[1]), int(l.split()[2])) for l in lst.stdout.splitlines() if l.strip()]
    bounds, i = [], 0
    for name, q, t in sections:
        n = t if tier == "thorough" else q
        if "--scale" in args:
            n = max(1, int(n * float(args[args.index("--scale") + 1])))
        bounds.append((i, i + n, name))
        i += n

    def section_of(case):
        for a, b, name in bounds:
            if a <= case < b:
                return name
        return "?"

    viols = []       # dicts: key, case, msg, desc

    if replay:
        r = subprocess.run(base + ["--case", str(replay["case"]), "--out", wd + "/o", "--scratch", wd], env=env, cwd=wd)
        sys.stdout.write(open(wd + "/o").read() if os.path.exists(wd + "/o") else "")
        print("exit status", r.returncode)
        return 0 if r.returncode == 0 else 1

    nshards = s["shards"]
    shards = [Shard(n, base + ["--shard", str(n), "--shards", str(nshards)], wd, env) for n in range(nshards)]
    timed_out = False
    hangs_rerun = 0
    while not all(x.finished for x in shards):
        time.sleep(0.1)
        if time.time() - t0 > DEADLINE:
            timed_out = True
            for x in shards:
                if not x.finished:
                    x.kill()
                    x.finished = True
            break
        for x in shards:
            if x.finished:
                continue
            rc = x.proc.poll()
            current, beat, fin = x.peek()
            if rc is None:
                if beat != x.last_beat:
                    x.last_beat, x.last_time = beat, time.time()
                elif time.time() - x.last_time > STALL:
                    x.kill()
                    # inconclusive so far: once more, alone and with a longer limit
                    hung = False
                    msg = ""
                    hangs_rerun += 1
                    try:
                        r = subprocess.run(base + ["--case", str(current), "--out", x.out, "--scratch", x.scratch], env=env, cwd=x.scratch,
                                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=STALL_ALONE if hangs_rerun <= 2 else STALL)
                        if r.returncode != 0:
                            text = r.stderr.decode("utf-8", "replace")
                            sec = section_of(current)
                            viols.append({"key": "%s/crash:%s@%s" % (sec, crash_kind(text, r.returncode), repo_frame(text)), "case": current,
                                          "msg": text[:3000], "desc": ""})
                    except subprocess.TimeoutExpired:
                        hung = True
                    if hung:
                        viols.append({"key": section_of(current) + "/hang", "case": current, "msg": "no progress within %d s, twice" % STALL, "desc": ""})
                    x.restarts += 1
                    if x.restarts > 3:
                        x.finished = x.gave_up = True
                    else:
                        x.start(current + 1)
                continue
            x.errf.close()
            if rc == 0 and fin == 1:
                x.finished = True
                continue
            if rc == 77:
                for y in shards:
                    if not y.finished:
                        y.kill()
                die("driver reported a harness failure: " + x.stderr_text()[-2000:])
            text = x.stderr_text()
            sec = section_of(current)
            key = "%s/crash:%s@%s" % (sec, crash_kind(text, rc), repo_frame(text))
            m = re.search(r"runtime error|ERROR: AddressSanitizer|ThreadSanitizer|Assertion|terminate called", text)
            a = max(0, (m.start() if m else len(text)) - 300)
            viols.append({"key": key, "case": current, "msg": text[a:a + 4000], "desc": ""})
            x.restarts += 1
            if x.restarts > MAX_RESTARTS:
                x.finished = x.gave_up = True
            else:
                x.start(current + 1)

    # -- collect what the monitors observed --------------------------------
    stats, digests, samples = {}, {}, []
    perpid = {}
    for x in shards:
        if not os.path.exists(x.out):
            continue
        for line in open(x.out, errors="replace"):
            try:
                r = json.loads(line)
            except ValueError:
                continue
            if r["t"] == "viol":
                viols.append(r)
            elif r["t"] == "stat":
                perpid[(x.n, r["pid"])] = r["sections"]
            elif r["t"] == "dig":
                digests.setdefault(r["section"], set()).update(r["d"])
            elif r["t"] == "sample":
                samples.append({k: r[k] for k in r if k != "t"})
    for secs in perpid.values():
        for name, v in secs.items():
            st = stats.setdefault(name, {"cases": 0, "comparisons": 0, "skipped": 0})
            st["cases"] += v["cases"]
            st["comparisons"] += v["checks"]
            st["skipped"] += v["skipped"]
    for name in stats:
        stats[name]["distinct_nontrivial"] = len(digests.get(name, ()))

    known = load_known()
    new, seen_known = {}, {}
    for v in viols:
        if (pid, v["key"]) in known:
            seen_known[v["key"]] = v
        else:
            new.setdefault(v["key"], v)

    evaluations = sum(v["cases"] for v in stats.values())
    comparisons = sum(v["comparisons"] for v in stats.values())
    distinct = sum(len(d) for d in digests.values())
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": s.get("level", "exploration"),
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": distinct, "rule": s["rule"],
            "samples": samples[:12], "comparisons": comparisons, "sections": stats,
            "sanitizer": s["sanitizer"], "process_restarts": sum(x.restarts for x in shards),
            "known_findings_seen": sorted(seen_known),
        },
        "wall_s": round(time.time() - t0, 2), "assumptions": s["assumptions"],
        "violations": [{"key": k, "case": v["case"], "message": v["msg"][:600]} for k, v in sorted(new.items())],
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    tmp = os.path.join(EVIDENCE, pid + ".json.tmp%d" % os.getpid())
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(EVIDENCE, pid + ".json"))

    for k in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s" % (pid, known[(pid, k)]))
    print("%s tier=%s seed=%d cases=%d comparisons=%d distinct_nontrivial=%d build=%.0fs wall=%.0fs"
          % (pid, tier, seed, evaluations, comparisons, distinct, t_build, time.time() - t0))
    if new:
        rd = os.path.join(EVIDENCE, "replay")
        os.makedirs(rd, exist_ok=True)
        for k, v in sorted(new.items())[:20]:
            name = os.path.join(rd, "%s-%s.json" % (pid, hashlib.sha256(k.encode()).hexdigest()[:10]))
            with open(name, "w") as f:
                json.dump({"property": pid, "key": k, "seed": seed, "tier": tier, "case": v["case"], "message": v["msg"], "description": v.get("desc", ""),
                           "how": "python3 bin/check.py %s --replay %s" % (pid, name)}, f, indent=1)
            print("  %s: case %s: %s" % (k, v["case"], v["msg"][:500].replace("\n", "\n    ")))
            print("VIOLATION property=%s replay=%s" % (pid, name), flush=True)
        return 1
    if timed_out:
        die("not finished within %d s" % DEADLINE)
    if any(x.gave_up for x in shards):
        die("too many restarts")
    if "--section" not in args:
        for a, b, name in bounds:
            st = stats.get(name)
            if not st or st["comparisons"] == 0:
                die("section %s observed nothing" % name)
            if st["cases"] + 8 * 200 * sum(x.restarts for x in shards) < b - a:
                die("section %s ran only %d of %d cases" % (name, st["cases"], b - a))
    return 0


if __name__ == "__main__":
    sys.exit(main())
