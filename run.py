#!/usr/bin/env python3
"""Builds and runs the runtime monitors of one property against /repo's working tree.

  run.py <PROPERTY> [--tier quick|thorough] [--seed N] [--scale X]
  run.py --setup            compile everything once (warms /verif/build)
  run.py --replay FILE      run again the case a VIOLATION line pointed at
Exit: 0 held on everything explored, 1 violation (VIOLATION line), 2 the check itself failed.
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VH_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
NPROC = max(1, min(8, os.cpu_count() or 1))
MODS = ["core", "classifier", "regressor", "clusterer", "ensemble", "featselect", "valid", "visual"]
sys.path.insert(0, VERIF)
from props import PROPS  # noqa: E402

WARN = ["-w"]
COMMON = ["-std=c++17", "-g1", "-fno-omit-frame-pointer", "-pthread"] + WARN
FLAVORS = {
    # memory safety + undefined behaviour, every report fatal; bounds-checked containers
    "asan": dict(cxx="g++", flags=["-O1", "-DNDEBUG", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                                   "-D_GLIBCXX_ASSERTIONS"]),
    "tsan": dict(cxx="g++", flags=["-O1", "-DNDEBUG", "-fsanitize=thread"]),
    "plain": dict(cxx="g++", flags=["-O2", "-DNDEBUG"]),
    # as plain, but under valgrind memcheck: reads of uninitialised memory
    "memcheck": dict(cxx="g++", flags=["-O1", "-DNDEBUG"]),
}
def libsrc(m):
    return sorted(glob.glob(os.path.join(REPO, "subprojects", "ufjfmltk-" + m, "src", "*.cpp")))


def tree_hash():
    h = hashlib.sha256()
    for m in MODS:
        for part in ("include", "src"):
            base = os.path.join(REPO, "subprojects", "ufjfmltk-" + m, part)
            for d, dirs, files in os.walk(base):
                dirs.sort()
                for f in sorted(files):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, REPO).encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    base = os.path.join(VERIF, "harness")
    for f in sorted(os.listdir(base)):
        if f.endswith(".hpp"):
            with open(os.path.join(base, f), "rb") as fh:
                h.update(f.encode() + fh.read())
    return h.hexdigest()


def compile_one(cxx, flags, src, obj, log):
    inc = ["-I" + os.path.join(REPO, "subprojects", "ufjfmltk-" + m, "include") for m in MODS]
    tmp = obj + ".tmp%d" % os.getpid()
    r = subprocess.run([cxx] + COMMON + flags + inc + ["-I" + os.path.join(VERIF, "harness"), "-c", src, "-o", tmp],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        log.append("%s: compile failed\n%s" % (src, r.stdout[-4000:]))
        return False
    os.replace(tmp, obj)
    return True


def build_units(units):
    """units: list of (src, flavor, libs). Returns {(src, flavor): exe}; raises on failure."""
    th = tree_hash()
    os.makedirs(BUILD, exist_ok=True)
    jobs, exes, log = {}, {}, []
    for src, flavor, libs in units:
        fl = FLAVORS[flavor]
        objs = []
        srcs = [os.path.join(VERIF, "harness", src)]
        for l in libs:
            srcs += libsrc(l)
        for s in srcs:
            with open(s, "rb") as fh:
                k = hashlib.sha256((th + flavor + json.dumps(fl) + s).encode() + fh.read()).hexdigest()[:20]
            o = os.path.join(BUILD, "%s-%s-%s.o" % (os.path.basename(s).split(".")[0], flavor, k))
            objs.append(o)
            if not os.path.exists(o):
                jobs[o] = (fl["cxx"], fl["flags"], s)
        ek = hashlib.sha256(" ".join(objs).encode()).hexdigest()[:20]
        exes[(src, flavor)] = (os.path.join(BUILD, "%s-%s-%s.exe" % (src.split(".")[0], flavor, ek)), objs, fl)
    with cf.ThreadPoolExecutor(NPROC) as ex:
        fs = [ex.submit(compile_one, c, f, s, o, log) for o, (c, f, s) in
              sorted(jobs.items(), key=lambda kv: 0 if "/harness/" in kv[1][2] else 1)]
        ok = all(f.result() for f in fs)
    if not ok:
        raise RuntimeError("\n".join(log))
    out = {}
    for k, (exe, objs, fl) in exes.items():
        if not os.path.exists(exe):
            tmp = exe + ".tmp%d" % os.getpid()
            r = subprocess.run([fl["cxx"]] + COMMON + fl["flags"] + objs + ["-o", tmp, "-lpthread"],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise RuntimeError("link failed: " + r.stdout[-4000:])
            os.replace(tmp, exe)
        out[k] = exe
    return out


def prune_build(keep_newest=60):
    try:
        fs = [os.path.join(BUILD, f) for f in os.listdir(BUILD)]
        fs.sort(key=os.path.getmtime, reverse=True)
        for f in fs[keep_newest * 6:]:
            os.unlink(f)
    except OSError:
        pass


SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=0:max_malloc_fill_size=4096:malloc_fill_byte=190:hard_rss_limit_mb=6000:log_path={log}",
    "UBSAN_OPTIONS": "print_stacktrace=1:log_path={log}",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:second_deadlock_stack=1:report_signal_unsafe=0:log_path={log}",
}


def simplify_fn(fn):
    fn = re.sub(r"\(.*", "", fn)
    while True:
        n = re.sub(r"<[^<>]*>", "", fn)
        if n == fn:
            break
        fn = n
    return fn.strip()


def sanitizer_key(text, flavor):
    """(key, summary) of the first sanitizer report in text, or None."""
    m = re.search(r"SUMMARY: (\w+)Sanitizer: (.*)", text)
    frames = re.findall(r"#\d+ (?:0x[0-9a-f]+ in )?(.+?) (\S+?/(?:repo|ufjfmltk|subprojects)\S*?):(\d+)", text)
    where = ""
    for fn, path, _ in frames:
        if "/ufjfmltk" in path:
            where = simplify_fn(fn) or os.path.basename(path)
            break
    if m:
        kind = m.group(2).split(" ")[0]
        if m.group(1) == "Thread":
            kind = re.split(r" /| \S+/", m.group(2))[0].replace(" ", "-")
        return "%s:%s:%s" % (m.group(1).lower() + "san", kind, where), m.group(0)
    m = re.search(r"runtime error: (.*)", text)
    if m:
        return "ubsan:%s:%s" % (re.sub(r"[0-9a-fx]{2,}|-?\d+", "N", m.group(1))[:60], where), m.group(0)
    m = re.search(r"(\S+:\d+): .*Assertion '(.*)' failed", text)
    if m:
        return "glibcxx-assert:%s" % m.group(2)[:60], m.group(0)
    m = re.search(r"==\d+== (Conditional jump|Use of uninit|Invalid read|Invalid write|Syscall param|Invalid free|Source and dest|Mismatched free|Jump to)[^\n]*", text)
    if m:
        fn = re.findall(r"(?:at|by) 0x[0-9A-F]+: (.*?) \((\w+\.[hc]pp):(\d+)\)", text[m.start():])
        w = ""
        for f, path, _ in fn:
            if "mltk::" in f:
                w = simplify_fn(f)
                break
        return "memcheck:%s:%s" % (m.group(1).replace(" ", "-"), w), m.group(0)
    return None


class Shard:
    def __init__(self, exe, flavor, args, tmp, tag, timeout):
        self.exe, self.flavor, self.args, self.tmp, self.tag, self.timeout = exe, flavor, args, tmp, tag, timeout

    def run(self):
        scratch = os.path.join(self.tmp, "scratch-" + self.tag)
        os.makedirs(scratch, exist_ok=True)
        log = os.path.join(self.tmp, "san-" + self.tag)
        prog = os.path.join(self.tmp, "prog-" + self.tag)
        env = dict(os.environ)
        for k, v in SAN_ENV.items():
            env[k] = v.format(log=log)
        env["VH_SCRATCH"] = scratch
        env["LC_ALL"] = "C"
        env["TZ"] = "UTC"
        env.setdefault("DISPLAY", ":99")
        env["VH_DATASETS"] = os.path.join(REPO, "datasets")
        cmd = [self.exe] + self.args + ["--progress", prog]
        if self.flavor == "memcheck":
            cmd = ["valgrind", "-q", "--error-exitcode=78", "--track-origins=no", "--num-callers=25",
                   "--undef-value-errors=yes", "--log-file=" + log + ".vg"] + cmd
        self.timed_out = False
        t0 = time.time()
        with open(os.path.join(self.tmp, "out-" + self.tag), "w+b") as fo, open(os.path.join(self.tmp, "err-" + self.tag), "w+b") as fe:
            p = subprocess.Popen(cmd, stdout=fo, stderr=fe, env=env, cwd=scratch, start_new_session=True)
            try:
                p.wait(self.timeout)
            except subprocess.TimeoutExpired:
                self.timed_out = True
            # also ends anything the workload left behind
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
            fo.seek(0)
            self.out = fo.read().decode("utf-8", "replace")
            fe.seek(0)
            self.err = fe.read().decode("utf-8", "replace")[-20000:]
        self.rc = p.returncode
        self.wall = time.time() - t0
        self.san = ""
        for f in sorted(os.listdir(self.tmp)):
            if f.startswith("san-" + self.tag + "."):
                with open(os.path.join(self.tmp, f), errors="replace") as fh:
                    self.san += fh.read()
        self.last = ("", 0)
        try:
            with open(prog) as fh:
                a = fh.read().split()
                self.last = (a[0], int(a[1]))
        except (OSError, IndexError, ValueError):
            pass
        self.result, self.viols = None, []
        for line in self.out.splitlines():
            try:
                j = json.loads(line)
            except ValueError:
                continue
            if "violation" in j:
                self.viols.append(j["violation"])
            elif "result" in j:
                self.result = j["result"]
        shutil.rmtree(scratch, ignore_errors=True)
        return self


def load_known(prop):
    known = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                known[m.group(2)] = m.group(3)
    return known


def run_property(pid, tier, seed, scale):
    t0 = time.time()
    spec = PROPS[pid]
    units = [(u["src"], u["flavor"], u.get("libs", ["core"])) for u in spec["units"] if tier == "thorough" or not u.get("thorough_only")]
    uspecs = [u for u in spec["units"] if tier == "thorough" or not u.get("thorough_only")]
    exes = build_units(units)
    t_build = time.time() - t0
    tmp = tempfile.mkdtemp(prefix="vh-%s-" % pid, dir=os.environ.get("TMPDIR", "/tmp"))
    found, inconclusive, counters, distinct, samples = [], [], {}, set(), []
    evaluations = checks = 0
    per_flavor = {}
    try:
        shards = []
        if tier == "quick":
            scale *= spec.get("qx", 1.0)
        for ui, u in enumerate(uspecs):
            exe = exes[(u["src"], u["flavor"])]
            n = u.get("shards", NPROC)
            for s in range(n):
                args = ["--seed", str(seed), "--tier", tier, "--shard", "%d/%d" % (s, n), "--scale",
                        str(scale * u.get("scale", {}).get(tier, 1.0) if isinstance(u.get("scale"), dict) else scale * u.get("scale", 1.0))]
                for w in u.get("workloads", []):
                    args += ["--workload", w]
                to = u.get("timeout", {}).get(tier) or (max(120, 260 // len(uspecs)) if tier == "quick" else 7200)
                shards.append((ui, Shard(exe, u["flavor"], args, tmp, "%d-%d" % (ui, s), to)))
        with cf.ThreadPoolExecutor(spec.get("parallel", NPROC)) as ex:
            list(ex.map(lambda x: x[1].run(), shards))
        for ui, sh in shards:
            u = uspecs[ui]

            def add(key, detail, workload, case, san=""):
                found.append(dict(key=key, detail=detail, workload=workload, case=case, src=u["src"], flavor=u["flavor"],
                                  seed=seed, tier=tier, report=san[-12000:]))
            if sh.timed_out and any(f["key"].startswith("hang:") for f in found):
                continue        # one confirmed hang decides; the others are not tried again
            if sh.timed_out:
                # was it the case or the machine?  once more, alone, with more time
                w, c = sh.last
                again = Shard(sh.exe, sh.flavor, ["--seed", str(seed), "--tier", tier, "--only", "%s#%d" % (w, c)], tmp,
                              sh.tag + "-again", max(60, min(200, sh.timeout))).run()
                if again.timed_out:
                    add("hang:" + w, "case %s#%d did not finish in %d s, twice" % (w, c, again.timeout), w, c)
                else:
                    inconclusive.append("shard %s timed out at %s#%d, which finishes alone" % (sh.tag, w, c))
            for v in sh.viols:
                add(v["key"], v["detail"], v["workload"], v["case"])
            if sh.flavor == "tsan" and "WARNING: ThreadSanitizer" in sh.san:
                for rep in re.split(r"(?m)^==================\n", sh.san):
                    if "WARNING: ThreadSanitizer" in rep:
                        k = sanitizer_key(rep, "tsan")
                        if k:
                            add(k[0], k[1], sh.last[0], sh.last[1], rep)
            elif sh.flavor == "memcheck" and sh.san.strip():
                k = sanitizer_key(sh.san, "memcheck")
                if k:
                    add(k[0], k[1], "all", 0, sh.san)
                elif sh.rc == 78:
                    add("memcheck:error", sh.san[:300], "all", 0, sh.san)
            if not sh.timed_out and sh.result is None:
                text = sh.san + sh.err
                k = sanitizer_key(text, sh.flavor)
                if k:
                    add(k[0], "%s at %s#%d" % (k[1], sh.last[0], sh.last[1]), sh.last[0], sh.last[1], text)
                elif sh.rc in (126, 127) or "FATAL: ThreadSanitizer" in text:
                    inconclusive.append("could not run %s: rc=%s %s" % (sh.exe, sh.rc, text[-500:]))
                elif sh.rc == -9:
                    inconclusive.append("shard %s was killed (memory?) at %s#%d" % ((sh.tag,) + sh.last))
                else:
                    add("crash:%s" % sh.last[0], "ended with %s at %s#%d %s" % (sh.rc, sh.last[0], sh.last[1], text[-400:]),
                        sh.last[0], sh.last[1], text)
            if sh.result:
                evaluations += sh.result["evaluations"]
                checks += sh.result["checks"]
                per_flavor[u["flavor"]] = per_flavor.get(u["flavor"], 0) + sh.result["evaluations"]
                for k, v in sh.result["counters"].items():
                    counters[k] = counters.get(k, 0) + v
                distinct.update(sh.result["distinct"])
                if len(samples) < 6:
                    samples += sh.result["samples"][:2]
        known = load_known(pid)
        uniq = {}
        for f in found:
            uniq.setdefault(f["key"], f)
        fresh = [f for k, f in uniq.items() if k not in known]
        for k, what in known.items():
            print("KNOWN-FINDING: property=%s %s" % (pid, what))
        ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
                  coverage=dict(evaluations=evaluations, distinct_nontrivial=len(distinct), rule=spec["rule"],
                                samples=samples[:6], oracle_checks=checks, observed=dict(sorted(counters.items())),
                                evaluations_per_build=per_flavor, known_findings_observed=sorted(k for k in uniq if k in known)),
                  assumptions=spec.get("assumptions", []) + [
                      "verdict covers only the executions produced by this seed and tier; sanitizers see only what was executed"],
                  wall_s=round(time.time() - t0, 2), violations=len(fresh))
        ev["coverage"]["build_s"] = round(t_build, 1)
        os.makedirs(os.path.join(VERIF, "evidence", "replays"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        for n, f in enumerate(fresh[:8]):
            rp = os.path.join(VERIF, "evidence", "replays", "%s-%d.json" % (pid, n))
            with open(rp, "w") as fh:
                json.dump(dict(property=pid, **f), fh, indent=1)
            print("  %s [%s/%s case %s#%s] %s" % (f["key"], f["src"], f["flavor"], f["workload"], f["case"], f["detail"][:600].replace("\n", " ")))
            print("VIOLATION property=%s replay=%s" % (pid, rp))
        if fresh:
            return 1
        missing = [w for w in spec.get("must_observe", []) if not counters.get(w)]
        if inconclusive or not evaluations or not distinct or missing:
            print("INCONCLUSIVE property=%s %s" % (pid, "; ".join(inconclusive) or ("nothing observed for %s" % (missing or "any workload"))))
            return 2
        print("OK property=%s evaluations=%d distinct=%d oracle_checks=%d build=%.0fs total=%.0fs" %
              (pid, evaluations, len(distinct), checks, t_build, time.time() - t0))
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        prune_build()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args()
    try:
        if a.setup:
            allu = []
            for s in PROPS.values():
                for u in s["units"]:
                    x = (u["src"], u["flavor"], u.get("libs", ["core"]))
                    if x not in allu and not u.get("thorough_only"):
                        allu.append(x)
            build_units(allu)
            return 0
        if a.replay:
            r = json.load(open(a.replay))
            u = [x for x in PROPS[r["property"]]["units"] if x["src"] == r["src"] and x["flavor"] == r["flavor"]][0]
            exe = build_units([(u["src"], u["flavor"], u.get("libs", ["core"]))])[(u["src"], u["flavor"])]
            tmp = tempfile.mkdtemp(prefix="vh-replay-")
            try:
                s = Shard(exe, u["flavor"], ["--seed", str(r["seed"]), "--tier", r["tier"], "--only", "%s#%d" % (r["workload"], r["case"])],
                          tmp, "r", 600).run()
                print(s.out, s.san, s.err[-3000:])
                bad = bool(s.viols) or s.rc != 0 or bool(s.san.strip())
                print("reproduced" if bad else "not reproduced")
                return 1 if bad else 0
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
        return run_property(a.property, a.tier, a.seed, a.scale)
    except Exception as e:  # noqa: BLE001
        print("CHECK-ERROR: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
