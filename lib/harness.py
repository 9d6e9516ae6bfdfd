"""Parent side of every check: build, run workers, watch them, judge, write evidence.

A check module (checks/<id>.py) defines
    LEVEL_NOTE, RULE, REQUIRE (counter -> minimum that must have been observed), ASSUME
    jobs(tier)     -> list of dicts {flavour, group, shard, n, conf...}
    setup(job)     -> context (in the worker), and case(ctx, rng, i) -> info dict
Verdict per case: held, violated (Violation), or inconclusive.
"""
import hashlib, importlib, json, os, re, signal, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(VERIF, "checks")]
import vbuild

PY = vbuild.PY
EV = os.path.join(VERIF, "evidence")
NPROC = 8
HANG = 150          # seconds without any progress before a case is suspected to hang


def scratch(pid):
    d = os.path.join(VERIF, "scratch", "%s.%d" % (pid, os.getpid()))
    os.makedirs(d, exist_ok=True)
    return d


def env_for(flavour, bdir, home, job):
    e = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG", "TMPDIR", "VERIF_SEED", "VERIF_TIER")}
    e.update(STARPU_SILENT="1", STARPU_FXT_TRACE="0", STARPU_HOME=home, STARPU_PERF_MODEL_DIR=home,
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
             STARPU_WORKERS_NOBIND="1", STARPU_MAIN_THREAD_NOBIND="1", HF_HUB_OFFLINE="1",
             TRANSFORMERS_OFFLINE="1", HF_DATASETS_OFFLINE="1", CUDA_VISIBLE_DEVICES="",
             PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=HERE,
             MPLCONFIGDIR=home, HF_HOME=home)
    pre = []
    if flavour == "asan":
        pre += [libpath("libasan.so"), libpath("libubsan.so")]
        e["ASAN_OPTIONS"] = ("detect_leaks=0:alloc_dealloc_mismatch=0:halt_on_error=1:abort_on_error=1:"
                             "detect_odr_violation=0:handle_segv=1:max_malloc_fill_size=1048576:"
                             "malloc_fill_byte=255:detect_stack_use_after_return=0:allocator_may_return_null=1")
        e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:abort_on_error=1"
    elif flavour == "tsan":
        pre += [libpath("libtsan.so")]
        e["TSAN_OPTIONS"] = ("halt_on_error=0:report_signal_unsafe=0:report_thread_leaks=0:exitcode=0:"
                             "history_size=4:ignore_noninstrumented_modules=1:log_path=%s" % os.path.join(home, "tsan"))
    if job.get("monitor", True):
        pre.append(os.path.join(bdir, "native", "libvmon.so"))
    if pre:
        e["LD_PRELOAD"] = ":".join(pre)
    e.update(job.get("env", {}))
    return e


def libpath(n):
    p = subprocess.run(["gcc", "-print-file-name=" + n], capture_output=True, text=True).stdout.strip()
    return os.path.realpath(p)


class Worker:
    def __init__(self, pid, job, build, home, start=0, only=None):
        self.pid, self.job, self.build, self.home = pid, job, build, home
        self.start, self.only = start, only
        self.name = "%s-%s-%d" % (job.get("flavour", "plain"), job.get("group", "g"), job["shard"])
        self.tag = "%s.%d%s" % (self.name, start, ".re" if only is not None else "")
        self.out = os.path.join(home, self.tag + ".jsonl")
        self.err = os.path.join(home, self.tag + ".err")
        h = os.path.join(home, self.tag + ".home")
        os.makedirs(h, exist_ok=True)
        self.hdir = h
        cfg = dict(pid=pid, job=job, dir=build["dir"], out=self.out, start=start, only=only, home=h,
                   seed=seed(), tier=tier())
        self.p = subprocess.Popen([PY, "-X", "faulthandler", os.path.join(HERE, "worker.py"), json.dumps(cfg)],
                                  stdin=subprocess.DEVNULL, stdout=open(self.err, "wb"), stderr=subprocess.STDOUT,
                                  env=env_for(job.get("flavour", "plain"), build["dir"], h, job), cwd=h,
                                  start_new_session=True)
        self.pos, self.t, self.cur, self.done, self.last = 0, time.time(), None, False, start
        self.res, self.fin = [], None

    def poll(self):
        """Reads new records; returns True when the process ended."""
        ended = self.p.poll() is not None
        try:
            with open(self.out, "rb") as f:
                f.seek(self.pos)
                data = f.read()
        except OSError:
            data = b""
        cut = data.rfind(b"\n") + 1
        for l in data[:cut].splitlines():
            r = json.loads(l)
            self.t = time.time()
            if r["k"] == "S":
                self.cur = r["i"]
            elif r["k"] == "R":
                self.res.append(r)
                self.cur, self.last = None, r["i"] + 1
            elif r["k"] == "E":
                self.fin, self.done = r, True
        self.pos += cut
        return ended

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def stderr(self, n=6000):
        try:
            b = open(self.err, "rb").read()
        except OSError:
            return ""
        return b[-n:].decode(errors="replace") if len(b) > n else b.decode(errors="replace")


def seed():
    return int(os.environ.get("VERIF_SEED", "1"))


def tier():
    t = os.environ.get("VERIF_TIER", "quick")
    return t if t in ("quick", "thorough") else "quick"


def crash_key(rc, err):
    """What kind of crash, and in which NNTile function when that is known."""
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    kind = None
    if m:
        kind = "asan:" + m.group(1)
    elif "runtime error:" in err:
        kind = "ubsan:" + re.sub(r"0x[0-9a-f]+|-?[\d.e+]+", "N", re.search(r"runtime error: ([^\n]*)", err).group(1))[:60]
    elif "assert" in err.lower():
        m = re.search(r"\[(\w+)\]\[assert failure\]", err) or re.search(r"Assertion `?([^'`]{1,50})", err)
        kind = "assert:" + (m.group(1) if m else "?")
    elif "terminate called" in err:
        m = re.search(r"what\(\):\s*(.{1,60})", err)
        kind = "terminate:" + (m.group(1) if m else "?")
    else:
        kind = "signal:%d" % -rc if rc < 0 else "exit:%d" % rc
    m = re.search(r"#\d+ 0x[0-9a-f]+ in (nntile::[\w:]+)", err)
    return kind + (":" + m.group(1) if m else "")


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    try:
        return json.load(open(p))["findings"]
    except OSError:
        return []


class Run:
    def __init__(self, pid):
        self.pid, self.mod = pid, importlib.import_module(pid.lower())
        self.t0 = time.time()
        self.viol, self.inc, self.harness = [], [], []
        self.counts, self.keys, self.samples, self.codelets = {}, set(), [], set()
        self.evals = self.trivial = 0

    def add(self, r, w):
        if "viol" in r:
            for v in r["viol"]:
                v.update(job=w.job, i=r["i"])
                self.viol.append(v)
        if "inc" in r:
            self.inc.append(r["inc"])
        if "harness" in r:
            self.harness.append(r["harness"])
        self.evals += r.get("n", 0)
        for k, v in r.get("count", {}).items():
            self.counts[k] = self.counts.get(k, 0) + v
        for k in r.get("keys", []):
            self.keys.add(k)
        if r.get("sample") and (len(self.samples) < 6 or (len(self.samples) < 12 and r["i"] % 7 == 0)):
            self.samples.append(r["sample"])

    def run_jobs(self, jobs, builds, home):
        queue = [(j, 0, None) for j in jobs]
        live, retried = [], {}
        while queue or live:
            while queue and len(live) < NPROC:
                j, st, only = queue.pop(0)
                live.append(Worker(self.pid, j, builds[j.get("flavour", "plain")], home, st, only))
            time.sleep(0.03)
            for w in list(live):
                ended = w.poll()
                limit = w.job.get("hang", HANG) * (2 if w.only is not None else 1)
                hung = not ended and time.time() - w.t > limit
                if not ended and not hung:
                    continue
                if hung:
                    w.kill()
                    w.poll()
                live.remove(w)
                for r in w.res:
                    self.add(r, w)
                if w.fin:
                    for k, v in w.fin.get("stats", {}).items():
                        if k.startswith("max_"):
                            self.counts[k] = max(self.counts.get(k, 0), v)
                        else:
                            self.counts[k] = self.counts.get(k, 0) + v
                    self.codelets.update(w.fin.get("codelets", []))
                if hasattr(self.mod, "on_exit"):
                    self.viol += [dict(v, job=w.job, i=-1) for v in self.mod.on_exit(w)]
                ok_end = w.done and w.p.returncode == 0
                if ok_end:
                    continue
                rc = w.p.returncode
                i = w.cur if w.cur is not None else None
                err = w.stderr()
                key = (w.name, i if i is not None else "exit")
                if "ImportError" in err or "ModuleNotFoundError" in err:
                    if i is None and not w.res:
                        self.harness.append("worker %s: %s" % (w.tag, err[-1500:]))
                        continue
                if rc == 3:
                    self.harness.append("worker %s: %s" % (w.tag, err[-1500:]))
                    continue
                again = retried.get(key, 0)
                retried[key] = again + 1
                what = "hang" if hung else crash_key(rc, err)
                if rc == -9 and not hung:
                    # ended by the machine (memory): says nothing about the code
                    self.inc.append("worker %s killed" % w.tag)
                    if again < 1 and i is not None:
                        queue.insert(0, (w.job, i, None))
                    continue
                if i is None:
                    # died outside any case: at start-up or at shutdown
                    if again < 1:
                        queue.insert(0, (w.job, max(w.last - 1, w.start) if w.res else w.start, None) if w.only is None else (w.job, w.start, w.only))
                    else:
                        stage = "shutdown" if w.res or w.done else "startup"
                        self.viol.append(dict(key="%s:%s" % (stage, what), msg="process died at %s: rc=%s %s" % (
                            stage, rc, err[-1200:]), job=w.job, i=-1))
                    continue
                if hung and again < 1:
                    # decide on a second, undisturbed run of the same case
                    queue.insert(0, (w.job, i, i))
                    if w.only is None:
                        queue.insert(1, (w.job, i + 1, None))
                    self.inc.append("case %s/%s made no progress once" % key)
                    continue
                op = ""
                m = re.findall(r"@@case (\S+)", err)
                if m:
                    op = m[-1] + ":"
                self.viol.append(dict(key=op + what, msg="%s in case %s: rc=%s %s" % (
                    "no progress" if hung else "process died", i, rc, err[-2500:]), job=w.job, i=i))
                if w.only is None and len(self.viol) < 60:
                    queue.append((w.job, i + 1, None))

    def finish(self, home, builds):
        known = [k for k in load_known() if k["property"] == self.pid and k["status"] == "open"]
        kk = {k["key"]: k for k in known}
        seen, new = {}, {}
        for v in self.viol:
            (seen if v["key"] in kk else new).setdefault(v["key"], []).append(v)
        for k in known:
            print("KNOWN-FINDING: property=%s %s [%s; observed %d times in this run]" % (
                self.pid, k["what"], k["key"], len(seen.get(k["key"], []))))
        rd = os.path.join(EV, "replay")
        os.makedirs(rd, exist_ok=True)
        for f in os.listdir(rd):
            if f.startswith(self.pid + "-"):
                os.unlink(os.path.join(rd, f))
        for key, vs in new.items():
            v = vs[0]
            p = os.path.join(rd, "%s-%s.json" % (self.pid, hashlib.sha1(key.encode()).hexdigest()[:10]))
            json.dump(dict(property=self.pid, tier=tier(), seed=seed(), key=key, count=len(vs), job=v["job"],
                           case=v["i"], msg=v["msg"], data=v.get("data"),
                           how="python3 run.py %s --replay %s" % (self.pid, p)), open(p, "w"), indent=1)
            print("%s: %s\n    %s" % (self.pid, key, v["msg"][:700].replace("\n", "\n    ")))
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
        missing = []
        for k, m in getattr(self.mod, "REQUIRE", {}).items():
            have = len(self.codelets) if k == "codelets" else self.evals if k == "evaluations" else \
                len(self.keys) if k == "distinct" else self.counts.get(k, 0)
            if have < m:
                missing.append("%s: %d < %d" % (k, have, m))
        ev = dict(property=self.pid, tier=tier(), seed=seed(), level="exploration",
                  coverage=dict(evaluations=self.evals, distinct_nontrivial=len(self.keys), rule=self.mod.RULE,
                                samples=self.samples[:12] or ["none"], observed=self.counts,
                                codelets=sorted(self.codelets), inconclusive=self.inc[:20],
                                known_findings_seen={k: len(v) for k, v in seen.items()},
                                builds={k: v.get("digest", "")[:16] for k, v in builds.items()}),
                  assumptions=getattr(self.mod, "ASSUME", []), wall_s=round(time.time() - self.t0, 2),
                  violations=len(new))
        os.makedirs(EV, exist_ok=True)
        json.dump(ev, open(os.path.join(EV, self.pid + ".json"), "w"), indent=1)
        print("%s %s: %d evaluations, %d distinct, %d violations, %d inconclusive, %.1f s" % (
            self.pid, tier(), self.evals, len(self.keys), len(new), len(self.inc), time.time() - self.t0))
        if new:
            return 1
        for h in self.harness[:3]:
            print("HARNESS " + h)
        if self.harness or missing:
            if missing:
                print("observed too little: " + "; ".join(missing))
            return 2
        return 0


def main(argv):
    pid = argv[0]
    if "--tier" in argv:
        os.environ["VERIF_TIER"] = argv[argv.index("--tier") + 1]
    replay = argv[argv.index("--replay") + 1] if "--replay" in argv else None
    r = Run(pid)
    home = scratch(pid)
    try:
        rep = json.load(open(replay)) if replay else None
        if rep:
            os.environ["VERIF_SEED"], os.environ["VERIF_TIER"] = str(rep["seed"]), rep["tier"]
        jobs = [rep["job"]] if rep else r.mod.jobs(tier())
        builds = {}
        for f in sorted({j.get("flavour", "plain") for j in jobs}):
            builds[f] = vbuild.build(f)
        if rep:
            only = rep["case"] if rep["case"] >= 0 else None
            w = Worker(pid, jobs[0], builds[jobs[0].get("flavour", "plain")], home, only or 0, only)
            while not w.poll():
                time.sleep(0.05)
            w.poll()
            for x in w.res:
                r.add(x, w)
            print(w.stderr())
            for v in r.viol:
                print(v["key"], v["msg"])
            bad = bool(r.viol) or w.p.returncode != 0
            print("replay:", "violated" if bad else "held")
            return 1 if bad else 0
        r.run_jobs(jobs, builds, home)
        return r.finish(home, builds)
    except vbuild.BuildError as e:
        print("BUILD FAILED\n%s" % e)
        return 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            subprocess.run(["rm", "-rf", home])


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
