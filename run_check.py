#!/usr/bin/env python3
"""Decides one property by running instrumented workloads on /repo's current tree.

usage: run_check.py <ID> [--tier quick|thorough] [--seed N]
       run_check.py <ID> --replay FILE     re-runs one reported case, verbosely

Exit 0: held on everything observed. Exit 1: a VIOLATION line was printed.
Exit 2: inconclusive (harness or build error, or nothing was observed).
"""
import argparse, concurrent.futures as cf, fnmatch, hashlib, json, os, re, resource, shutil
import signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("HX_REPO", "/repo")
BUILD = os.environ.get("HX_BUILD", os.path.join(VERIF, "build"))
HARN = os.path.join(VERIF, "harness")
sys.path.insert(0, VERIF)
NPROC = int(os.environ.get("HX_JOBS", str(min(8, os.cpu_count() or 8))))
DEADLINE = {"quick": 780.0, "thorough": 6 * 3600.0}
T0 = time.time()

# ------------------------------------------------------------------ variants
GCC = "/usr/bin/g++-9"
CLANG = "/usr/bin/clang++-18"
SAN = "-O1 -gline-tables-only -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all"
VARIANTS = {
    "OFF": (GCC, "-O2 -DNDEBUG"),
    "SSE": (GCC, "-O2 -DNDEBUG -msse4.1 -DQUADIRON_USE_SIMD"),
    "AVX": (GCC, "-O2 -DNDEBUG -mavx2 -DQUADIRON_USE_SIMD"),
    "aOFF": (CLANG, SAN),
    "aSSE": (CLANG, SAN + " -msse4.1 -DQUADIRON_USE_SIMD"),
    "aAVX": (CLANG, SAN + " -mavx2 -DQUADIRON_USE_SIMD"),
    "tOFF": (CLANG, "-O1 -gline-tables-only -fsanitize=thread -DNDEBUG"),
    "tAVX": (CLANG, "-O1 -gline-tables-only -fsanitize=thread -DNDEBUG -mavx2 -DQUADIRON_USE_SIMD"),
    "vOFF": (GCC, "-O1 -g1 -DNDEBUG"),
    "vSSE": (GCC, "-O1 -g1 -DNDEBUG -msse4.1 -DQUADIRON_USE_SIMD"),
}
VALGRIND = ["/usr/bin/valgrind", "-q", "--error-exitcode=99", "--leak-check=full",
            "--errors-for-leak-kinds=definite,indirect", "--num-callers=14", "--expensive-definedness-checks=yes"]
CODEC = ["codec_fnt", "codec_gf2n", "codec_gf2nfft", "codec_gf2nadd", "codec_gfp", "codec_nf4"]


def file_hash(p):
    try:
        with open(p, "rb") as f:
            return hashlib.sha256(f.read()).hexdigest()[:16]
    except OSError:
        return "none"


DRIVER = os.path.join(REPO, "test", "ec_driver.cpp")


def split(h, *modes):
    """Parts of a heavy harness: each mode, and in it each half of the types, on its own."""
    out = ["main"]
    for m in modes:
        m, whole = (m[:-1], True) if m.endswith("*") else (m, False)
        out += ["%s -DHX_M_%s" % (h, m)] if whole else ["%s -DHX_M_%s -DHX_LO" % (h, m), "%s -DHX_M_%s -DHX_HI" % (h, m)]
    return out


HARNESS = {
    "h_codec": ["h_codec"] + CODEC,
    "h_codec.fnt": ["h_codec", "codec_fnt"],
    "h_codec.prime": ["h_codec", "codec_fnt", "codec_gfp", "codec_nf4"],
    "h_codec.other": ["h_codec"] + CODEC[1:],
    "h_capi": ["h_capi", "codec_fnt"],
    "h_props": ["h_props"],
    "h_diag": ["h_diag"],
    "h_files": ["main", "h_files -DHX_DRIVER=\"%s\" -DHX_DRIVER_IS=%s" % (DRIVER, file_hash(DRIVER))],
    "h_field.scalar": split("h_field", "scalar"),
    "h_field.bulk": split("h_field", "bulk"),
    "h_field.roots": split("h_field", "roots"),
    "h_fft": split("h_fft", "vector", "buffer"),
    "h_fft.buffer": split("h_fft", "buffer"),
    "h_arith": ["h_arith"],
    "h_thread": ["h_thread", "thread_field"] + CODEC,
    "h_vec": split("h_vec", "vector", "buffers", "cast*"),
    "h_alg": split("h_alg", "matrix", "poly"),
}
BASEFLAGS = "-std=c++14 -include utility"


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def read(p):
    with open(p, "rb") as f:
        return f.read()


class BuildError(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "src"), HARN):
        for d, ds, fs in sorted(os.walk(base)):
            ds.sort()
            for f in sorted(fs):
                if base == HARN and not f.endswith(".h"):
                    continue
                h.update(os.path.relpath(os.path.join(d, f), base).encode())
                h.update(read(os.path.join(d, f)))
    return h.hexdigest()


def lib_sources():
    src = os.path.join(REPO, "src")
    return sorted(os.path.join(src, f) for f in os.listdir(src) if f.endswith(".cpp"))


def build(pairs):
    """pairs: set of (variant, harness). Returns {(variant, harness): binary}."""
    th = tree_hash()
    gen = os.path.join(BUILD, "gen")
    os.makedirs(gen, exist_ok=True)
    bi = os.path.join(gen, "build_info.h")
    if not os.path.exists(bi):
        with open(bi, "w") as f:
            f.write('#define VERSION "verif"\n')
    objs, links = {}, []
    for v, h in sorted(pairs):
        cxx, fl = VARIANTS[v]
        mine = []
        for s in lib_sources() + [os.path.join(HARN, x) for x in HARNESS[h]]:
            s, _, defs = s.partition(" ")
            s = s if s.endswith(".cpp") else s + ".cpp"
            key = hashlib.sha256((th + cxx + fl + BASEFLAGS + defs + s).encode() + read(s)).hexdigest()[:20]
            o = os.path.join(BUILD, "obj", v, os.path.basename(s)[:-4] + "-" + key + ".o")
            objs[o] = (cxx, fl + " " + defs, s)
            mine.append(o)
        links.append((v, h, mine))

    def comp(o):
        cxx, fl, s = objs[o]
        os.makedirs(os.path.dirname(o), exist_ok=True)
        tmp = o + ".%d.tmp" % os.getpid()
        cmd = "%s %s %s -I%s -I%s -I%s -c %s -o %s" % (cxx, BASEFLAGS, fl, os.path.join(REPO, "src"), gen, HARN, s, tmp)
        p = subprocess.run(cmd.split(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise BuildError(cmd + "\n" + p.stdout.decode(errors="replace")[-6000:])
        os.replace(tmp, o)

    todo = [o for o in objs if not os.path.exists(o)]
    # the heaviest first
    todo.sort(key=lambda o: (0 if o.split("/")[-2][0] in "at" else 1, -os.path.getsize(objs[o][2])))
    with cf.ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(comp, todo))
    out = {}

    def link(x):
        v, h, mine = x
        cxx, fl = VARIANTS[v]
        key = hashlib.sha256("".join(mine).encode()).hexdigest()[:16]
        b = os.path.join(BUILD, "bin", "%s-%s-%s" % (h, v, key))
        os.makedirs(os.path.dirname(b), exist_ok=True)
        if not os.path.exists(b):
            tmp = b + ".%d.tmp" % os.getpid()
            p = subprocess.run([cxx] + fl.split() + mine + ["-o", tmp, "-lpthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                raise BuildError("link %s %s\n%s" % (v, h, p.stdout.decode(errors="replace")[-4000:]))
            os.replace(tmp, b)
        out[(v, h)] = b

    with cf.ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(link, links))
    return out


# ---------------------------------------------------------------- state file
def read_state(p):
    try:
        b = read(p)
        if b[:7] != b"HXSTATE":
            return None
        idx = int.from_bytes(b[8:16], "little", signed=True)
        ticks = int.from_bytes(b[16:24], "little")
        key = b[24:24 + 512].split(b"\0")[0].decode(errors="replace")
        desc = b[536:536 + 3000].split(b"\0")[0].decode(errors="replace")
        return idx, ticks, key, desc
    except OSError:
        return None


def crash_summary(txt):
    for pat in (r"ERROR: AddressSanitizer: ([^\n]*)", r"ERROR: LeakSanitizer: ([^\n]*)", r"WARNING: ThreadSanitizer: ([^\n]*)",
                r"(runtime error: [^\n]*)", r"(==\d+== (?:Invalid|Conditional|Use of uninit|Syscall param)[^\n]*)",
                r"(==\d+== [\d,]+ (?:\([^)]*\) )?bytes in [^\n]*(?:definitely|indirectly) lost[^\n]*)",
                r"(Assertion [^\n]*)", r"(terminate called[^\n]*)", r"(malloc[^\n]*|free\(\)[^\n]*|double free[^\n]*|corrupted[^\n]*)"):
        m = re.search(pat, txt)
        if m:
            return re.sub(r"==\d+== ?|0x[0-9a-f]+", "", m.group(1))[:300]
    return txt.strip()[-200:].replace("\n", " ")


def crash_kind(txt, rc):
    if "ThreadSanitizer" in txt:
        return "race"
    if "LeakSanitizer: detected memory leaks" in txt or (rc == 99 and re.search(r"definitely lost|indirectly lost", txt) and not re.search(r"Invalid (read|write)|uninitialised", txt)):
        return "leak"
    if "AddressSanitizer" in txt:
        return "memory"
    if "runtime error:" in txt:
        return "undefined"
    if rc == 99:
        return "uninitialised" if "uninitialised" in txt else "memory"
    if "Assertion" in txt:
        return "assertion"
    return "crash"


def repo_frames(txt):
    fr = []
    for m in re.finditer(r"(?:#\d+ 0x[0-9a-f]+ in|(?:at|by) 0x[0-9A-F]+:) ([^\n]*)", txt):
        line = m.group(1)
        g = re.search(r"([A-Za-z0-9_]+\.(?:h|cpp)):\d+", line)
        if g and ("/src/" in line or os.path.exists(os.path.join(REPO, "src", g.group(1)))):
            fn = re.sub(r"<[^<>]*>|\([^()]*\)", "", re.sub(r"<[^<>]*>", "", re.sub(r"\([^()]*\)", "", line))).split(" /")[0].strip()
            fr.append(g.group(1) + ":" + fn.split(" ")[-1])
        if len(fr) >= 2:
            break
    return "|".join(fr)


class Job:
    def __init__(self, harness, mode, variant, quick, thorough, digest=False, vg=False, hang=90, shards=None, env=None):
        self.harness, self.mode, self.variant = harness, mode, variant
        self.n = {"quick": quick, "thorough": thorough}
        self.digest, self.vg, self.hang, self.shards = digest, vg, hang, shards
        self.env = env or {}

    def name(self):
        return "%s:%s:%s%s" % (self.harness, self.mode, self.variant, ":valgrind" if self.vg else "")


class Result:
    def __init__(self):
        self.hung = False
        self.counts, self.distinct, self.samples = {}, {}, []
        self.viol = []   # (key, job, case, detail)
        self.errors, self.incon = [], []
        self.digests = {}  # mode -> variant -> {(idx,name): hash}
        self.jobcases = {}
        self.lock = threading.Lock()


def env_for(job):
    e = {k: v for k, v in os.environ.items() if not k.endswith("SAN_OPTIONS")}
    e["ASAN_OPTIONS"] = "abort_on_error=0:detect_leaks=1:detect_stack_use_after_return=1:strict_string_checks=1:hard_rss_limit_mb=3500:allocator_may_return_null=0:handle_abort=1:max_allocation_size_mb=3000"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:second_deadlock_stack=1"
    e["LSAN_OPTIONS"] = "exitcode=23"
    e.update(job.env)
    return e


def run_proc(job, binary, seed, tier, fr, to, wd, hang, verbose=False):
    """Runs one process; returns (status, stderr, state) with status ok/viol/error/crash/hang."""
    tag = "%s-%s-%s-%d-%d%s" % (job.harness, job.mode, job.variant, fr, to, "-vg" if job.vg else "")
    base = os.path.join(wd, tag)
    for s in (".out", ".state", ".err"):
        if os.path.exists(base + s):
            os.remove(base + s)
    cmd = [binary, "--mode", job.mode, "--tier", tier, "--seed", str(seed), "--from", str(fr), "--to", str(to),
           "--out", base + ".out", "--viol", base + ".viol", "--state", base + ".state"]
    if job.digest:
        cmd += ["--digest", base + ".dig"]
    if verbose:
        cmd += ["-v"]
    if job.vg:
        cmd = VALGRIND + cmd

    def pre():
        os.setsid()
        if job.variant[0] not in "at" and not job.vg:
            resource.setrlimit(resource.RLIMIT_AS, (5 << 30, 5 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    with open(base + ".err", "wb") as ef:
        p = subprocess.Popen(cmd, stdout=ef, stderr=ef, preexec_fn=pre, env=env_for(job), cwd=wd)
        last, t = None, time.time()
        status = None
        while True:
            try:
                rc = p.wait(0.2 if time.time() - t < 5 else 1.0)
                break
            except subprocess.TimeoutExpired:
                st = read_state(base + ".state")
                tk = st[1] if st else None
                if tk != last:
                    last, t = tk, time.time()
                elif time.time() - t > hang:
                    status = "hang"
                if time.time() - T0 > DEADLINE[tier] + 60:
                    status = "deadline"
                if status:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except OSError:
                        pass
                    rc = p.wait()
                    break
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    with open(base + ".err", "rb") as f:
        txt = f.read(400000).decode(errors="replace")
    st = read_state(base + ".state")
    if status is None:
        status = {0: "ok", 1: "viol", 3: "error"}.get(rc, "crash")
        # UBSan and ASan exit with 1 as well; a finished run leaves its report
        if rc in (0, 1) and not os.path.exists(base + ".out"):
            status = "crash" if rc else "error"
        elif re.search(r"LeakSanitizer: detected|AddressSanitizer|runtime error:|ThreadSanitizer", txt):
            status = "crash"
        if "LeakSanitizer has encountered a fatal error" in txt:
            status = "error"
    return status, rc, txt, st, base


def absorb(res, base, job):
    try:
        d = json.loads(read(base + ".out").decode(errors="replace"))
    except (OSError, ValueError):
        return
    with res.lock:
        for k, v in d["counts"].items():
            res.counts[k] = res.counts.get(k, 0) + v
        for k, v in d["distinct"].items():
            res.distinct.setdefault(k, set()).update(v)
        if len(res.samples) < 60:
            res.samples += d["samples"][:3]
        n = job.name()
        res.jobcases[n] = res.jobcases.get(n, 0) + d["counts"].get("cases", 0)


def absorb_viol(res, base, job):
    try:
        lines = read(base + ".viol").decode(errors="replace").splitlines()
    except OSError:
        return
    with res.lock:
        for l in lines:
            f = l.split("\t")
            if len(f) >= 4 and f[0] == "VIOL":
                res.viol.append((f[1], job, int(f[2]), f[3] + (" " + f[4] if len(f) > 4 else "")))
    os.remove(base + ".viol")


def absorb_digest(res, base, job):
    try:
        lines = read(base + ".dig").decode().splitlines()
    except OSError:
        return
    with res.lock:
        dst = res.digests.setdefault((job.harness, job.mode), {}).setdefault(job.variant, {})
        for l in lines:
            f = l.split("\t")
            if len(f) == 3:
                dst[(int(f[0]), f[1])] = f[2]


def run_shard(job, binary, seed, tier, fr, to, wd, res):
    cur, crashes = fr, 0
    while cur < to:
        if res.hung:
            with res.lock:
                res.incon.append("%s cases %d-%d not run: a hang was confirmed" % (job.name(), cur, to))
            return
        if time.time() - T0 > DEADLINE[tier]:
            with res.lock:
                res.incon.append("%s cases %d-%d not run: time budget" % (job.name(), cur, to))
            return
        status, rc, txt, st, base = run_proc(job, binary, seed, tier, cur, to, wd, job.hang)
        absorb_viol(res, base, job)
        absorb(res, base, job)
        if job.digest:
            absorb_digest(res, base, job)
        if status in ("ok", "viol"):
            return
        if status == "error":
            with res.lock:
                res.errors.append("%s: harness error rc=%s: %s" % (job.name(), rc, txt[-1500:]))
            return
        if status == "deadline":
            with res.lock:
                res.incon.append("%s stopped at the deadline" % job.name())
            return
        idx = st[0] if st else -1
        key = st[2] if st else "unknown"
        desc = st[3] if st else ""
        if status == "hang":
            if idx < 0:
                with res.lock:
                    res.incon.append("%s made no progress before its first case" % job.name())
                return
            if res.hung:
                with res.lock:
                    res.incon.append("%s case %d: no progress for %d s, not re-run" % (job.name(), idx, job.hang))
                return
            s2, rc2, txt2, st2, b2 = run_proc(job, binary, seed, tier, idx, idx + 1, wd, job.hang * 2)
            absorb_viol(res, b2, job)
            if s2 == "hang":
                with res.lock:
                    res.hung = True  # one confirmed hang decides the run; do not spend the budget on more
                    res.viol.append(("hang:" + (st2[2] if st2 else key), job, idx, "no progress for %d s, twice; [%s]" % (job.hang * 2, desc)))
            else:
                with res.lock:
                    res.incon.append("%s case %d: slow once, completed when re-run" % (job.name(), idx))
        else:
            kind = crash_kind(txt, rc)
            finished = os.path.exists(base + ".out")
            if kind == "leak":
                key = repo_frames(txt) or "unknown"
                desc = "cases %d-%d" % (cur, to)
            what = "%s (exit %s) %s" % (crash_summary(txt), rc, repo_frames(txt))
            keep = base + ".crash%d" % crashes
            with open(keep, "w") as f:
                f.write(txt)
            with res.lock:
                res.viol.append(("%s:%s" % (kind, key), job, cur if kind == "leak" else idx, "%s [%s]" % (what, desc)))
            if finished:  # reported at exit, nothing left to run
                return
        crashes += 1
        if crashes >= 4 or idx < cur:
            with res.lock:
                res.incon.append("%s cases %d-%d not run after repeated crashes" % (job.name(), idx + 1, to))
            return
        cur = idx + 1


def load_known():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m:
                out.append(m.groups())
    return out


def main():
    import checks
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--replay")
    ap.add_argument("--only", help="restrict to jobs whose name contains this")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    prop = a.prop
    chk = checks.CHECKS[prop]
    if a.replay:
        r = json.load(open(a.replay))
        job = [j for j in chk["jobs"] if j.name() == r["job"]][0]
        b = build({(job.variant, job.harness)})[(job.variant, job.harness)]
        wd = os.path.join(BUILD, "replay")
        os.makedirs(wd, exist_ok=True)
        st = run_proc(job, b, r["seed"], r["tier"], r["from"], r["to"], wd, job.hang * 3, verbose=True)
        print(st[2][-20000:])
        try:
            print(read(st[4] + ".viol").decode(errors="replace"))
        except OSError:
            pass
        print("status", st[0], "exit", st[1])
        sys.exit(0 if st[0] == "ok" else 1)

    jobs = [j for j in chk["jobs"] if j.n[a.tier] > 0 and (not a.only or a.only in j.name())]
    try:
        bins = build({(j.variant, j.harness) for j in jobs})
    except BuildError as e:
        log("BUILD ERROR\n" + str(e))
        sys.exit(2)
    tb = time.time() - T0
    wd = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    res = Result()
    work = []
    for j in jobs:
        n = max(1, int(j.n[a.tier] * a.scale))
        k = j.shards or (2 * NPROC if a.tier == "quick" else 6 * NPROC)
        k = min(k, n)
        for i in range(k):
            work.append((i / k, j, n * i // k, n * (i + 1) // k))
    # interleave the jobs so that every one of them gets its share early
    work.sort(key=lambda w: (w[1].variant[0] not in "atv", w[0]))
    with cf.ThreadPoolExecutor(NPROC) as ex:
        fs = [ex.submit(run_shard, j, bins[(j.variant, j.harness)], a.seed, a.tier, fr, to, wd, res) for _, j, fr, to in work]
        for f in fs:
            f.result()

    # identical results from every build configuration
    ncmp = 0
    for (h, m), per in res.digests.items():
        vs = sorted(per)
        for v in vs[1:]:
            for k in set(per[vs[0]]) & set(per[v]):
                ncmp += 1
                if per[vs[0]][k] != per[v][k]:
                    job = [j for j in jobs if j.mode == m and j.variant == v and j.harness == h][0]
                    res.viol.append(("builds-differ:%s:%s:%s-%s" % (m, k[1], vs[0], v), job, k[0],
                                     "case %d %s: digest %s in build %s, %s in build %s" % (k[0], k[1], per[vs[0]][k], vs[0], per[v][k], v)))
    if res.digests:
        res.counts["digests_compared_across_builds"] = ncmp

    if chk.get("kinds"):  # results are the business of the other properties
        res.viol = [v for v in res.viol if v[0].split(":")[0] in chk["kinds"]]
    known = [(k, w) for p, k, w in load_known() if p == prop]
    for k, w in known:
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, w, k))
    fresh, seen_keys = [], set()
    for key, job, idx, detail in res.viol:
        if any(fnmatch.fnmatchcase(key, k) for k, _ in known):
            continue
        if (key, job.variant) in seen_keys:
            continue
        seen_keys.add((key, job.variant))
        fresh.append((key, job, idx, detail))

    wall = time.time() - T0
    ev = chk.get("evaluations", "cases")
    evals = sum(res.counts.get(x, 0) for x in ([ev] if isinstance(ev, str) else ev))
    dn = chk["distinct"]
    ndist = sum(len(res.distinct.get(x, ())) for x in ([dn] if isinstance(dn, str) else dn))
    evd = dict(property=prop, tier=a.tier, seed=a.seed, level="exploration",
               coverage=dict(evaluations=evals, distinct_nontrivial=ndist, rule=chk["rule"],
                             samples=res.samples[:12],
                             observed=dict(sorted(res.counts.items())),
                             distinct={k: len(v) for k, v in sorted(res.distinct.items())},
                             cases_per_job=dict(sorted(res.jobcases.items())),
                             inconclusive=res.incon[:20], build_s=round(tb, 1)),
               assumptions=chk.get("assumptions", []), wall_s=round(wall, 1), violations=len(fresh))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evd, f, indent=1)
        f.write("\n")
    log("%s: %d evaluations, %d distinct, build %.0f s, total %.0f s, %d raw violation reports, %d inconclusive, %d errors"
        % (prop, evals, ndist, tb, wall, len(res.viol), len(res.incon), len(res.errors)))
    for x in res.incon[:10]:
        log("inconclusive:", x)
    if fresh:
        rd = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        for i, (key, job, idx, detail) in enumerate(fresh[:20]):
            p = os.path.join(rd, "%s-%d.json" % (prop, i))
            with open(p, "w") as f:
                json.dump(dict(property=prop, job=job.name(), seed=a.seed, tier=a.tier, **{"from": idx, "to": idx + 1}, key=key, detail=detail,
                               cmd="python3 %s/run_check.py %s --replay %s" % (VERIF, prop, p)), f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, p))
            print("  %s %s: %s" % (job.name(), key, detail[:600]))
    if not os.environ.get("HX_KEEP"):
        shutil.rmtree(wd, ignore_errors=True)
    if fresh:
        sys.exit(1)
    if res.errors:
        for x in res.errors[:3]:
            log("ERROR:", x)
        sys.exit(2)
    missing = [j.name() for j in jobs if not res.jobcases.get(j.name()) and not known]
    low = [k for k, v in chk.get("floors", {}).items() if res.counts.get(k, 0) < v * min(1.0, a.scale)]
    if a.only:
        low = []
    if missing or low or ndist == 0:
        log("INCONCLUSIVE: nothing observed for", missing, "below floor", low)
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
