#!/usr/bin/env python3
"""Driver of the deterministic simulation.

  check.py C07 quick|thorough   decide one property (exit 0 held, 1 VIOLATION, anything else: no answer)
  check.py replay FILE          run one recorded schedule, log on stdout (exit 0 held, 1 violated)
  check.py build                build the simulator for /repo's current tree
  check.py determinism [N]      every property: N seeds, run in several processes and builds; event logs must agree

The simulator is rebuilt from /repo's working tree (cached by content). Everything random comes from VERIF_SEED.
"""
import fcntl, hashlib, json, os, re, shutil, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
FLAGS = ["-std=c++17", "-g", "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer"]
VARIANTS = {"plain": ["-O2"], "asan": ["-O1", "-fsanitize=address"], "sched": ["-O1"], "schedasan": ["-O1", "-fsanitize=address"]}
TRACED = ["-fsanitize-coverage=trace-pc"]  # sched builds: every basic block of the library is a point where its thread can be preempted
SIM_SRC = ["world", "gen", "main", "seam", "par", "script"]
BUILD_NAME = {"plain": "plain", "asan": "address sanitizer", "sched": "preemptible at every basic block", "schedasan": "preemptible at every basic block, address sanitizer"}
NCPU = max(2, min(8, os.cpu_count() or 2))
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:handle_abort=0:allocator_may_return_null=1:hard_rss_limit_mb=9000")


class NoAnswer(Exception):
    pass


# ---------------------------------------------------------------- build
def lib_sources():
    mk = open(os.path.join(REPO, "sources.mk")).read() if os.path.exists(os.path.join(REPO, "sources.mk")) else ""
    found = re.findall(r"^\s*UTREEXO_LIB_SOURCES_INT\s*\+?=\s*(\S.*)$", mk, re.M)
    out = []
    for line in found:
        for w in line.split():
            p = w.replace("%reldir%/", "").replace("%D%/", "")
            if p.endswith((".cpp", ".cc", ".c")) and os.path.exists(os.path.join(REPO, p)):
                out.append(p)
    if not out:
        for d, _, fs in os.walk(os.path.join(REPO, "src")):
            if any(x in d[len(REPO):] for x in ("/test", "/fuzz", "/bench")):
                continue
            out += [os.path.relpath(os.path.join(d, f), REPO) for f in fs if f.endswith(".cpp") and f != "utreexo.cpp"]
    return sorted(set(out))


def tree_key():
    h = hashlib.sha256()
    files = []
    for root in (os.path.join(REPO, "src"), os.path.join(REPO, "include"), os.path.join(HERE, "sim")):
        for d, ds, fs in os.walk(root):
            ds.sort()
            files += [os.path.join(d, f) for f in fs if f.endswith((".cpp", ".h", ".cc", ".c", ".hpp", ".ipp"))]
    for f in sorted(files) + [os.path.join(REPO, "sources.mk")]:
        if os.path.exists(f):
            h.update(f.encode() + b"\0" + open(f, "rb").read())
    h.update(json.dumps([FLAGS, VARIANTS, TRACED, SIM_SRC]).encode())
    return h.hexdigest()[:20]


def builds_of(pid):
    """the fast build, the one with the address sanitizer, and for C24 one that counts the library's basic blocks"""
    return {"C26": ("sched", "schedasan"), "C24": ("plain", "asan", "sched")}.get(pid, ("plain", "asan"))


def build(variants=("plain", "asan")):
    os.makedirs(BUILD, exist_ok=True)
    key = tree_key()
    out = {v: os.path.join(BUILD, f"{key}-{v}") for v in variants}
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        jobs = []
        for v, d in out.items():
            if os.path.exists(os.path.join(d, "sim")):
                os.utime(d)
                continue
            os.makedirs(d, exist_ok=True)
            fl = FLAGS + VARIANTS[v] + [f"-I{REPO}", f"-I{REPO}/src"]
            tr = TRACED if v.startswith("sched") else []
            for s in SIM_SRC:
                jobs.append((["g++"] + fl + (tr if s == "script" else []) + ["-c", os.path.join(HERE, "sim", s + ".cpp"), "-o", os.path.join(d, "sim_" + s + ".o")], v))
            for s in lib_sources():
                jobs.append((["g++"] + fl + tr + ["-c", os.path.join(REPO, s), "-o", os.path.join(d, "lib_" + s.replace("/", "_") + ".o")], v))

        def go(j):
            p = subprocess.run(j[0], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            return p.returncode, p.stdout, j
        with ThreadPoolExecutor(NCPU) as ex:
            for rc, txt, j in ex.map(go, jobs):
                if rc:
                    raise NoAnswer("compilation failed: " + " ".join(j[0]) + "\n" + txt[-3000:])
        for v in {j[1] for j in jobs}:
            d = out[v]
            objs = sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".o"))
            tmp = os.path.join(d, "sim.tmp")
            p = subprocess.run(["g++"] + FLAGS + VARIANTS[v] + objs + ["-o", tmp, "-ldl", "-rdynamic"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                raise NoAnswer("linking failed\n" + p.stdout[-3000:])
            os.rename(tmp, os.path.join(d, "sim"))
            for o in objs:
                os.unlink(o)
        old = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD) if os.path.isdir(os.path.join(BUILD, d))), key=os.path.getmtime)
        for d in old[:-12]:
            if d not in out.values():
                shutil.rmtree(d, ignore_errors=True)
    sims = {v: os.path.join(d, "sim") for v, d in out.items()}
    for v, s in sims.items():  # the model's hash function against Python's
        for msg in (b"", b"abc", b"x" * 111, b"y" * 200):
            got = subprocess.run([s, "selftest"], input=msg, stdout=subprocess.PIPE, env=ENV).stdout.decode().strip()
            if got != hashlib.new("sha512_256", msg).hexdigest():
                raise NoAnswer("model hash self test failed: " + got)
    if subprocess.run([sims[variants[0]], "modeltest"], stdout=subprocess.DEVNULL, env=ENV).returncode:
        raise NoAnswer("the two models of the accumulator rules disagree")
    return sims


# ---------------------------------------------------------------- runs
class Scratch:
    def __enter__(self):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        self.d = tempfile.mkdtemp(prefix="utreexo-sim-", dir=base)
        self.n = 0
        return self

    def new(self):
        self.n += 1
        d = os.path.join(self.d, f"w{self.n}")
        os.mkdir(d)
        return d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def run(cmd, timeout):
    """returns (rc, text); rc None on timeout, negative on a signal"""
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, timeout=timeout)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b"").decode("utf-8", "replace")


def summary(rc, txt):
    """what a replay came to: ('held'|'foreign'|'violated'|'death'|'error', class, detail)"""
    m = re.findall(r"^result (held|foreign|violated) class=(\S*) hash=(\S+) ?(.*)$", txt, re.M)
    if m and rc in (0, 1, 3):
        return m[-1][0], m[-1][1], m[-1][3], m[-1][2]
    if rc is None or rc == -14:
        return "death", "hang", "the process does not come to an end", ""
    if rc < 0:
        why = [l for l in txt.splitlines() if "Assertion" in l or "ERROR: AddressSanitizer" in l or "terminate called" in l or "what():" in l]
        return "death", "process-death", (" / ".join(w.strip() for w in why[:2]) or f"killed by signal {-rc}")[:400], ""
    return "error", "", txt[-300:], ""


def replay_twice(sim, trace, scr):
    a = run([sim, "replay", trace, scr.new()], 200)
    b = run([sim, "replay", trace, scr.new()], 200)
    sa, sb = summary(*a), summary(*b)
    return sa, (sa[0] == sb[0] and sa[1] == sb[1] and (sa[0] == "death" or sa[3] == sb[3])), a[1]


def num(pid):
    return int(pid[1:])


def confirm(pid, variant, sims, seed, scr, thorough, deadline, trace_text=None):
    """gate a candidate; returns (replay path, class, message) or None if it does not reproduce"""
    sim = sims[variant]
    d = scr.new()
    full = os.path.join(d, "full.trace")
    if trace_text is None:
        trace_text = run([sim, "gen", str(num(pid)), str(seed)] + (["thorough"] if thorough else []), 60)[1]
    open(full, "w").write(trace_text)
    s, same, log = replay_twice(sim, full, scr)
    if s[0] not in ("violated", "death") or not same:
        return None
    best, bs, blog = full, s, log
    small = os.path.join(d, "small.trace")
    secs = max(5, min(25 if not thorough else 120, deadline - time.time()))
    run([sim, "shrink", full, scr.new(), small, str(secs)], secs + 60)
    if os.path.exists(small):
        s2, same2, log2 = replay_twice(sim, small, scr)
        if same2 and s2[0] == s[0] and (s[0] == "death" or s2[1] == s[1]):
            best, bs, blog = small, s2, log2
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    path = os.path.join(HERE, "replays", f"{pid}-{seed}-{variant}.trace")
    head = [f"# property {pid}", f"# violation {bs[1]}: {bs[2]}", f"# seed {seed}, build variant: {variant}", f"# replay: python3 {HERE}/check.py replay {path}", "# --- log of the run"]
    head += ["# " + l for l in blog.splitlines()[-60:]]
    open(path, "w").write("\n".join(head) + "\n" + open(best).read())
    return path, bs[1], bs[2]


def series(sim, pid, first, stride, count, thorough, scr, timeout):
    """runs of several seeds one after the other in one process; returns (seed, class, detail) of the one that fails, or None"""
    d = scr.new()
    out = os.path.join(d, "out")
    os.mkdir(os.path.join(d, "s"))
    rc, txt = run([sim, "run", str(num(pid)), str(first), str(stride), str(count), "1000000", os.path.join(d, "s"), out] + (["thorough"] if thorough else []), timeout)
    if os.path.exists(out):
        r = json.load(open(out))
        return (r["seed"], r["cls"], r["msg"]) if r["verdict"] == "violation" else None
    if rc is None or rc >= 0:
        return None
    return (int(open(out + ".cur").read().split()[0]),) + summary(rc, txt)[1:3]


def confirm_series(pid, variant, sims, first, stride, seed, scr, thorough, deadline):
    """for what only fails after other runs in the same process (something in the library outlives the nodes)"""
    count = (seed - first) // stride + 1
    left = lambda: max(10, deadline - time.time())
    a = series(sims[variant], pid, first, stride, count, thorough, scr, left())
    if not a or a[0] != seed:
        return None
    fails = lambda n: series(sims[variant], pid, seed - (n - 1) * stride, stride, n, thorough, scr, left())
    while count > 1 and time.time() < deadline - 60:
        n = count // 2
        b = fails(n)
        if not b or b[:2] != a[:2]:
            break
        count = n
    b = fails(count)
    if not b or b[:2] != a[:2]:
        return None
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    path = os.path.join(HERE, "replays", f"{pid}-{seed}-{variant}.series")
    open(path, "w").write(f"# property {pid}\n# violation {a[1]}: {a[2]}\n# seed {seed}, after {count - 1} others in the same process, build variant: {variant}\n"
                          f"# replay: python3 {HERE}/check.py replay {path}\nseries {pid} {seed - (count - 1) * stride} {stride} {count} {int(thorough)}\n")
    return path, a[1], a[2]


def u64s(p):
    if not os.path.exists(p):
        return set()
    b = open(p, "rb").read()
    return set(struct.unpack(f"<{len(b) // 8}Q", b[: len(b) // 8 * 8]))


def merge(dst, src):
    for k, v in src.items():
        if isinstance(v, dict):
            merge(dst.setdefault(k, {}), v)
        elif isinstance(v, (int, float)) and not isinstance(v, bool):
            dst[k] = dst.get(k, 0) + v


def check(pid, tier):
    t_start = time.time()
    thorough = tier == "thorough"
    vseed = int(os.environ.get("VERIF_SEED", "1"))
    budget = float(os.environ.get("SIM_SECONDS", "600" if thorough else "30"))
    print(f"{pid} {tier} VERIF_SEED={vseed}", flush=True)
    variants = builds_of(pid)
    fast, slow, extra = variants[0], variants[1], variants[2:]
    sims = build(variants)
    t_built = time.time()
    base = vseed * 10**10
    violation = None
    unreproduced = []
    agg = {}
    states, runs = set(), set()
    n = num(pid)
    with Scratch() as scr:
        # schedules that once failed (genuine defects, repaired since)
        corpus = os.path.join(HERE, "corpus", pid)
        ncorpus = 0
        for f in sorted(os.listdir(corpus)) if os.path.isdir(corpus) else []:
            p = os.path.join(corpus, f)
            for v in variants:
                ncorpus += 1
                s = summary(*run([sims[v], "replay", p, scr.new()], 200))
                if s[0] in ("violated", "death"):
                    violation = confirm(pid, v, sims, "corpus-" + f.split(".")[0], scr, thorough, t_start + budget + 120, open(p).read())
                    if violation:
                        break
                    unreproduced.append((f, v))
            if violation:
                break
        # the seeded search
        workers = []
        n_asan = max(1, NCPU // 4)
        n_plain = max(1, NCPU - n_asan - len(extra))
        for i in range(n_plain):
            workers.append({"v": fast, "next": base + 1 + i, "stride": n_plain})
        for i in range(n_asan):
            workers.append({"v": slow, "next": base + 5 * 10**9 + 1 + i, "stride": n_asan})
        for v in extra:
            workers.append({"v": v, "next": base + 8 * 10**9 + 1, "stride": 1})
        end = time.time() + budget

        def launch(w):
            w["dir"] = scr.new()
            w["out"] = os.path.join(w["dir"], "out")
            os.mkdir(os.path.join(w["dir"], "s"))
            w["err"] = open(os.path.join(w["dir"], "err"), "wb")
            cmd = [sims[w["v"]], "run", str(n), str(w["next"]), str(w["stride"]), "1000000000", str(max(1, end - time.time())), os.path.join(w["dir"], "s"), w["out"]]
            w["p"] = subprocess.Popen(cmd + (["thorough"] if thorough else []), stdout=subprocess.DEVNULL, stderr=w["err"], env=ENV)

        def collect(w):
            if os.path.exists(w["out"]):
                r = json.load(open(w["out"]))
                merge(agg, {k: r[k] for k in ("runs", "foreign", "steps", "noop", "blocks", "nontrivial", "kinds", "checks", "probes", "faults")})
                merge(agg, {"secs_" + w["v"]: r["secs"], "runs_" + w["v"]: r["runs"]})
                if r["foreign"]:
                    agg.setdefault("foreign_example", f"seed {r['seed']}: {r['cls']} {r['msg']}" if r["verdict"] == "held" else "")
                states.update(u64s(w["out"] + ".states"))
                runs.update(u64s(w["out"] + ".runs"))
                return r
            return None

        if not violation:
            for w in workers:
                launch(w)
            live = list(workers)
            while live and not violation:
                time.sleep(0.05)
                for w in list(live):
                    rc = w["p"].poll()
                    if rc is None:
                        if time.time() > end + 250:
                            w["p"].kill()
                        continue
                    live.remove(w)
                    r = collect(w)
                    if r and r["verdict"] == "held" and rc == 0:
                        continue
                    if r and r["verdict"] == "violation":
                        seed = r["seed"]
                    else:
                        try:
                            seed = int(open(w["out"] + ".cur").read().split()[0])
                        except (OSError, IndexError, ValueError):
                            raise NoAnswer(f"worker failed before its first run: rc {rc}")
                    violation = confirm(pid, w["v"], sims, seed, scr, thorough, t_start + budget + 200)
                    if not violation and not unreproduced:
                        violation = confirm_series(pid, w["v"], sims, w["next"], w["stride"], seed, scr, thorough, t_start + budget + 200)
                    if violation:
                        break
                    unreproduced.append((seed, w["v"]))
                    if len(unreproduced) > 20:
                        break
                    if time.time() < end:
                        w["next"] = seed + w["stride"]
                        launch(w)
                        live.append(w)
            for w in live:
                w["p"].kill()
                w["p"].wait()
        wall_search = time.time() - t_built
        # the same seeds in another process and another build must give the same event logs
        det = None
        samples = []
        if not violation:
            k = 200 if thorough else 40
            with ThreadPoolExecutor(4) as ex:
                outs = list(ex.map(lambda a: run([sims[a[0]], "hashes", str(n), str(base + 1), str(k), a[1]], 250)[1], [(v, scr.new()) for v in (fast, *variants)]))
            det = {"seeds": k, "processes": len(outs), "builds": [fast, *variants], "identical_event_logs": all(o == outs[0] for o in outs) and outs[0].count("\n") == k}
        for sd in (base + 1, base + 2):
            rc, log = run([sims[fast], "one", str(n), str(sd), scr.new()] + (["thorough"] if thorough else []), 100)
            lines = log.splitlines()
            samples.append({"seed": sd, "events": lines[:40] + (["..."] if len(lines) > 41 else []) + lines[-1:]})

    faults = {"fired " + k: v for k, v in sorted(agg.get("faults", {}).items())}
    probes = agg.get("probes", {})
    secs = max(1e-9, sum(agg.get("secs_" + v, 0) for v in variants))
    prop = {}
    for l in open(os.path.join(HERE, "properties.jsonl")):
        d = json.loads(l)
        if d["id"] == pid:
            prop = d
    cov = {
        "evaluations": int(agg.get("runs", 0)) + ncorpus,
        "distinct_nontrivial": len(runs),
        "rule": "One evaluation is one simulated run: a seed is expanded into a configuration (nodes, leaf bound, hash collisions, disk use, fault mix) and a schedule of about 40 steps, "
                "executed against the real library. Distinct: the hash of the complete event log is new. Non-trivial: the run got to the property's own situation at least once "
                "(its fault fired inside an operation, its request kind was answered, or a reorganisation/sync step ran) rather than only idle steps.",
        "samples": samples,
        "property_checks_evaluated": agg.get("checks", {}).get(pid, 0),
        "runs_per_hour": round(agg.get("runs", 0) / max(1e-9, budget if not violation else wall_search) * 3600),
        "seeds_per_hour": round(agg.get("runs", 0) / max(1e-9, budget if not violation else wall_search) * 3600),
        "runs_by_build": {BUILD_NAME[v]: agg.get("runs_" + v, 0) for v in variants},
        "worker_seconds": round(secs, 1),
        "simulated_time": {"note": "the library reads no clock; time is the sequence of simulator steps and blocks", "steps": agg.get("steps", 0), "steps_without_effect": agg.get("noop", 0), "blocks_mined": agg.get("blocks", 0)},
        "steps_by_kind": agg.get("kinds", {}),
        "faults_injected": {**faults, **{k: v for k, v in probes.items() if k.startswith("message fault") or "crash" in k or "allocation" in k or "damaged" in k}},
        "rare_conditions_hit": probes,
        "distinct_states": len(states),
        "distinct_states_measure": "hash of (node kind, leaf count, cached nodes, remembered leaves, deletions of the last block, faults the node has been through)" + ("; plus, for every run of several threads, the hash of its sequence of (point, next thread)" if pid == "C26" else ""),
        "runs_with_other_properties_failing": agg.get("foreign", 0),
        "foreign_example": agg.get("foreign_example", ""),
        "corpus_replays": ncorpus,
        "determinism": det,
        "unreproduced_candidates": len(unreproduced),
        "real_components": ["utreexo::RamForest", "utreexo::Pollard", "utreexo::Accumulator", "utreexo::BatchProof", "utreexo::UndoBatch", "utreexo::ForestState", "CSHA512", "libstdc++ file streams"],
        "stubbed_components": ["network (message queue of the simulator)", "disk syscalls (fault layer in front of a RAM file system; a crash freezes it)", "operator new (failure injection and accounting)", "block source / miner"] + (["thread scheduler, mutexes, once-flags and guards of static variables (real threads, run one at a time)"] if pid == "C26" else []),
    }
    ev = {"property": pid, "tier": tier, "seed": vseed, "level": "exploration", "coverage": cov,
          "assumptions": ["x86-64 Linux, g++ -std=c++17, asserts on as shipped", "process crash, not power loss: what was written stays written", "distinct live leaf hashes, callers respect the documented call order"],
          "wall_s": round(time.time() - t_start, 2), "violations": 1 if violation else 0}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", f".{pid}.{os.getpid()}.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.rename(tmp, os.path.join(HERE, "evidence", f"{pid}.json"))
    print(f"{pid}: {cov['evaluations']} runs, {len(runs)} distinct non-trivial, {len(states)} states, {cov['property_checks_evaluated']} checks of this property; build {t_built - t_start:.0f}s search {wall_search:.0f}s")
    if violation:
        print(f"{violation[1]}: {violation[2]}")
        print(f"VIOLATION property={pid} replay={violation[0]}", flush=True)
        return 1
    if unreproduced:
        raise NoAnswer(f"candidates that do not reproduce: {unreproduced[:5]}")
    if not agg.get("runs"):
        raise NoAnswer("no run completed")
    if not det["identical_event_logs"]:
        raise NoAnswer("the same seeds gave different event logs")
    return 0


def known(pid):
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"known: property=(\S+) (.*)", l)
        if m and m.group(1) == pid:
            print(f"KNOWN-FINDING: property={pid} {m.group(2)}")


def main():
    a = sys.argv[1:]
    try:
        if a and a[0] == "build":
            print(build(tuple(VARIANTS)))
            return 0
        if a and a[0] == "replay":
            txt = open(a[1]).read()
            m = re.search(r"^# seed .*build variant: (\w+)", txt, re.M)
            v = m.group(1) if m else "plain"
            sims = build((v,))
            m = re.search(r"^series (\S+) (\d+) (\d+) (\d+) (\d)", txt, re.M)
            if m:
                with Scratch() as scr:
                    r = series(sims[v], m.group(1), *(int(m.group(i)) for i in (2, 3, 4)), m.group(5) == "1", scr, 600)
                print(*(r or ("held",)))
                return 1 if r else 0
            with Scratch() as scr:
                rc, log = run([sims[v], "replay", a[1], scr.new()], 200)
            print(log)
            s = summary(rc, log)
            print(*s[:3])
            return 1 if s[0] in ("violated", "death") else 0 if s[0] == "held" else 3
        if a and a[0] == "determinism":
            k = int(a[1]) if len(a) > 1 else 300
            sims = build(tuple(VARIANTS))
            bad = 0
            with Scratch() as scr, ThreadPoolExecutor(NCPU) as ex:
                def one(n):
                    fast, slow, *extra = builds_of(f"C{n:02d}")
                    first = int(os.environ.get("VERIF_SEED", "1")) * 10**10 + 7 * 10**9
                    whole = run([sims[fast], "hashes", str(n), str(first), str(k), scr.new()], 3600)[1].splitlines()
                    again = run([sims[fast], "hashes", str(n), str(first), str(k), scr.new()], 3600)[1].splitlines()
                    asan = run([sims[slow], "hashes", str(n), str(first), str(k), scr.new()], 3600)[1].splitlines()
                    for v in extra:
                        if run([sims[v], "hashes", str(n), str(first), str(k), scr.new()], 3600)[1].splitlines() != whole:
                            asan = None
                    parts = []
                    for j in range(0, k, max(1, k // 10)):
                        parts += run([sims[fast], "hashes", str(n), str(first + j), str(min(max(1, k // 10), k - j)), scr.new()], 3600)[1].splitlines()
                    return n, len(whole), whole == again == asan == parts
                for n, c, ok in ex.map(one, [*range(1, 21), 22, 23, 24, 25, 26]):
                    print(f"C{n:02d} {c} seeds x 4 executions: {'identical' if ok else 'DIFFERENT'}", flush=True)
                    bad += not ok
            return 2 if bad else 0
        if len(a) == 2 and re.fullmatch(r"C(0[1-9]|1\d|20|2[2-6])", a[0]) and a[1] in ("quick", "thorough"):
            known(a[0])
            return check(a[0], a[1])
        print(__doc__)
        return 2
    except NoAnswer as e:
        print("no answer:", e, flush=True)
        return 2


sys.exit(main())
