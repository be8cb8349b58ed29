"""Framework shared by all checks: build, package assembly, worker pool,
violation bookkeeping, known findings, evidence."""
import hashlib
import importlib
import json
import os
import queue
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
VENV_PY = "/opt/vp/venv/bin/python"
sys.path.insert(0, f"{VERIF}/tools")
import build as vpbuild  # noqa: E402


class HarnessError(Exception):
    pass


def assemble_package(dst, so):
    """Copy the Python package of the current tree and drop the freshly built
    extension module in."""
    src = f"{REPO}/src/vmecpp"
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(f"{dst}/vmecpp/cpp")
    for name in os.listdir(src):
        if name in ("cpp", "__pycache__") or name.endswith(".so"):
            continue
        p = f"{src}/{name}"
        if os.path.isdir(p):
            shutil.copytree(p, f"{dst}/vmecpp/{name}")
        else:
            shutil.copy(p, f"{dst}/vmecpp/{name}")
    for name in os.listdir(f"{src}/cpp"):
        if name.endswith(".py"):
            shutil.copy(f"{src}/cpp/{name}", f"{dst}/vmecpp/cpp/{name}")
    for sub in ("vmecpp", "vmecpp/simsopt_compat"):
        q = f"{src}/cpp/{sub}"
        for name in os.listdir(q) if os.path.isdir(q) else ():
            if name.endswith(".py"):
                os.makedirs(f"{dst}/vmecpp/cpp/{sub}", exist_ok=True)
                shutil.copy(f"{q}/{name}", f"{dst}/vmecpp/cpp/{sub}/{name}")
    if so:
        os.symlink(so, f"{dst}/vmecpp/cpp/_vmecpp.so")
    # metadata + indata2json stand-in (the classic namelist reader is an
    # external Fortran program that cannot be built here; see DESIGN.md)
    di = f"{dst}/vmecpp-0.0.0.dist-info"
    os.makedirs(di)
    open(f"{di}/METADATA", "w").write("Metadata-Version: 2.1\nName: vmecpp\nVersion: 0.0.0\n")
    os.makedirs(f"{dst}/vmecpp/cpp/third_party/indata2json", exist_ok=True)
    tgt = f"{dst}/vmecpp/cpp/third_party/indata2json/indata2json"
    with open(tgt, "w") as fh:
        fh.write(f"#!{VENV_PY}\nimport runpy,sys\nsys.argv[0]='indata2json'\n"
                 f"runpy.run_path('{VERIF}/tools/indata2json.py', run_name='__main__')\n")
    os.chmod(tgt, 0o755)
    open(f"{di}/RECORD", "w").write("vmecpp/cpp/third_party/indata2json/indata2json,,\n")
    return dst


class Worker:
    def __init__(self, ctx, idx, env):
        self.ctx, self.idx, self.env = ctx, idx, env
        self.p = None
        self.errpath = f"{ctx.scratch}/w{idx}.err"

    def start(self):
        self.cwd = tempfile.mkdtemp(prefix=f"w{self.idx}-", dir=self.ctx.scratch)
        self.err = open(self.errpath, "w+")
        env = dict(self.env)
        env["TMPDIR"] = f"{self.cwd}/tmp"
        os.makedirs(env["TMPDIR"])
        self.p = subprocess.Popen(
            [VENV_PY, f"{VERIF}/vplib/worker.py", self.ctx.module_name],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
            cwd=self.cwd, env=env, text=True, start_new_session=True)

    def stop(self):
        if self.p is None:
            return
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()
        self.p.stdin.close()
        self.p.stdout.close()
        self.err.close()
        self.p = None
        shutil.rmtree(self.cwd, ignore_errors=True)

    def errtail(self, n=4000):
        try:
            with open(self.errpath, errors="replace") as fh:
                t = fh.read()
            return t if len(t) < 2 * n else t[:n] + "\n...\n" + t[-n:]
        except OSError:
            return ""

    def call(self, case, timeout):
        if self.p is None or self.p.poll() is not None:
            self.stop()
            self.start()
        pos = self.err.seek(0, 2) if False else os.path.getsize(self.errpath)
        res = {}

        def rd():
            res["line"] = self.p.stdout.readline()
        t0 = time.time()
        try:
            self.p.stdin.write(json.dumps(case) + "\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        th = threading.Thread(target=rd, daemon=True)
        th.start()
        th.join(timeout)
        dt = time.time() - t0
        if th.is_alive():
            self.stop()
            return {"kind": "timeout", "wall": dt, "stderr": self.errtail()[-3000:]}
        line = res.get("line", "")
        if not line:
            rc = self.p.wait()
            with open(self.errpath, errors="replace") as fh:
                fh.seek(pos)
                t = fh.read()
            if len(t) > 12000:
                t = t[:6000] + "\n...\n" + t[-6000:]
            self.stop()
            return {"kind": "crash", "rc": rc, "stderr": t, "wall": dt}
        out = json.loads(line)
        out["wall"] = dt
        return out


def crash_signature(info):
    """Stable one-line description of a crash (no addresses, no line numbers)."""
    t = info.get("stderr", "")
    m = re.search(r"VP_FATAL (\S+?):\d+\] (.{0,80})", t)
    if m:
        return "abort:" + os.path.basename(m.group(1))
    m = re.search(r"Assertion `(.{0,100})", t)
    if m:
        return "assert:" + frame_of(t)
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", t)
    if m and m.group(1) != "ABRT":
        return "asan:" + m.group(1) + ":" + frame_of(t)
    m = re.search(r"(\S+?):\d+:\d+: runtime error: (.{0,60})", t)
    if m:
        return "ubsan:" + os.path.basename(m.group(1)) + ":" + re.sub(r"[^a-z ]+", "", m.group(2)).strip()[:40]
    m = re.search(r"AddressSanitizer: ABRT", t)
    if m:
        return "abort:" + frame_of(t)
    rc = info.get("rc", 0)
    return f"signal{-rc}" if rc < 0 else f"exit{rc}"


def frame_of(t):
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+)", t):
        if "/repo" in m.group(2) or "vmecpp" in m.group(2):
            fn = re.sub(r"\(.*", "", m.group(1))
            return fn.split("::")[-1][:60]
    return "?"


class Ctx:
    def __init__(self, prop, module_name):
        self.prop = prop
        self.module_name = module_name
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.thorough = self.tier == "thorough"
        os.makedirs(f"{VERIF}/scratch", exist_ok=True)
        self.scratch = tempfile.mkdtemp(prefix=f"{prop}-", dir=f"{VERIF}/scratch")
        self.t0 = time.time()
        self.rc = 2             # set by finish()
        self.viol = {}          # key -> (msg, detail)
        self.counters = {}
        self.states = set()
        self.samples = []
        self.inconclusive = []
        self.evaluations = 0
        self.skipped = 0
        self.notes = []
        self.build_s = 0.0
        self.pkgs = {}
        self.replays = []

    # ---- building ----
    def build(self, variant, targets):
        try:
            outs, dt = vpbuild.build(variant, targets)
        except RuntimeError as e:
            raise HarnessError(str(e))
        self.build_s += dt
        return outs

    def package(self, variant="rel", targets=("pymod",)):
        outs = self.build(variant, list(targets))
        so = outs[list(targets).index("pymod")]
        self.pkgs[variant] = assemble_package(f"{self.scratch}/pkg-{variant}", so)
        return outs

    def env(self, variant="rel", threads=1, **extra):
        e = {k: v for k, v in os.environ.items()
             if not k.startswith(("OMP_", "VERIF_", "ASAN_", "PYTHON"))}
        e.update(PYTHONPATH=f"{self.pkgs.get(variant, '')}:{VERIF}",
                 OMP_NUM_THREADS=str(threads), OPENBLAS_NUM_THREADS="1",
                 PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
                 OMP_WAIT_POLICY="passive", GOMP_SPINCOUNT="0",
                 HDF5_USE_FILE_LOCKING="FALSE", JAX_PLATFORMS="cpu",
                 VERIF_SEED=str(self.seed), VERIF_TIER=self.tier,
                 VP_VARIANT=variant)
        if variant == "asan":
            # libstdc++ too: the interceptor of __cxa_throw must find it
            e["LD_PRELOAD"] = " ".join(subprocess.run(
                ["g++", f"-print-file-name={so}"], capture_output=True,
                text=True).stdout.strip() for so in ("libasan.so", "libstdc++.so"))
            e["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:"
                                 "detect_stack_use_after_return=0:handle_segv=1:"
                                 "detect_odr_violation=0:handle_abort=1:malloc_context_size=12")
            e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:abort_on_error=1"
        if variant == "tsan":
            e["LD_PRELOAD"] = " ".join(subprocess.run(
                ["g++", f"-print-file-name={so}"], capture_output=True,
                text=True).stdout.strip() for so in ("libtsan.so", "libstdc++.so"))
            e["TSAN_OPTIONS"] = ("halt_on_error=1:abort_on_error=1:second_deadlock_stack=1:"
                                 "history_size=4:report_signal_unsafe=0:ignore_noninstrumented_modules=0")
        e.update({k: str(v) for k, v in extra.items()})
        return e

    # ---- results ----
    def violation(self, key, msg, detail=None):
        key = re.sub(r"\s+", "_", key)
        if key not in self.viol:
            self.viol[key] = (msg, detail)

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def run_cases(self, cases, workers=8, env=None, timeout=240, on_crash="violation",
                  on_timeout="inconclusive", handler=None):
        """cases: list of dicts with 'fn' and arguments.  Each runs in a
        persistent, crash-isolated worker process."""
        q = queue.Queue()
        for i, c in enumerate(cases):
            q.put((i, c))
        results = [None] * len(cases)
        env = env or self.env()
        lock = threading.Lock()

        def loop(widx):
            w = Worker(self, widx, env)
            try:
                while True:
                    try:
                        i, c = q.get_nowait()
                    except queue.Empty:
                        return
                    r = w.call(c, timeout)
                    if r["kind"] in ("crash", "timeout"):
                        # fresh process, once more: only a repeated crash counts
                        w.stop()
                        r2 = w.call(c, timeout * 2)
                        if r2["kind"] != r["kind"]:
                            with lock:
                                self.inconclusive.append(
                                    {"case": c, "what": f"{r['kind']} not repeated",
                                     "stderr": r.get("stderr", "")[-1500:]})
                        r = r2
                    results[i] = r
            finally:
                w.stop()
        ths = [threading.Thread(target=loop, args=(k,)) for k in range(min(workers, max(1, len(cases))))]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        for c, r in zip(cases, results):
            if r is None:
                raise HarnessError("worker thread died")
            if handler and handler(self, c, r):
                continue
            self.absorb(c, r, on_crash, on_timeout)
        return results

    def absorb(self, c, r, on_crash="violation", on_timeout="inconclusive"):
        if r["kind"] == "crash":
            if on_crash == "violation":
                self.violation(f"crash/{c['fn']}/{c.get('tag', '')}/{crash_signature(r)}",
                               "process crashed: " + crash_signature(r),
                               {"case": c, "rc": r["rc"], "stderr": r["stderr"]})
            else:
                self.inconclusive.append({"case": c, "what": "crash " + crash_signature(r)})
            return
        if r["kind"] == "timeout":
            if on_timeout == "violation":
                self.violation(f"hang/{c['fn']}/{c.get('tag', '')}", "did not finish",
                               {"case": c, "stderr": r["stderr"]})
            else:
                self.inconclusive.append({"case": c, "what": "timeout"})
            return
        if r["kind"] == "error":
            if r.get("in_package") and r["etype"] != "ImportError":
                self.violation(f"exception/{c['fn']}/{c.get('tag', '')}/{r['etype']}",
                               f"unexpected exception: {r['etype']}: {r['emsg'][:300]}",
                               {"case": c, "traceback": r["tb"]})
            else:
                raise HarnessError(f"case {json.dumps(c)[:400]}: {r['tb']}")
            return
        self.evaluations += r.get("evaluations", 1)
        for k, v in (r.get("counters") or {}).items():
            self.count(k, v)
        for s in r.get("states") or []:
            self.states.add(s)
        if r.get("skip"):
            self.skipped += 1
            self.count("skipped: " + r["skip"])
        for n in r.get("inconclusive") or []:
            self.inconclusive.append({"case": c, "what": n})
        if r.get("sample") is not None and len(self.samples) < 12:
            self.samples.append(r["sample"])
        for v in r.get("viol") or []:
            self.violation(v["key"], v["msg"], {"case": c, "detail": v.get("detail")})

    # ---- ending ----
    def known(self):
        out = {}
        try:
            with open(f"{VERIF}/KNOWN_FINDINGS.txt") as fh:
                for line in fh:
                    m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
                    if m and m.group(1) == self.prop:
                        out[m.group(2)] = m.group(3)
        except FileNotFoundError:
            pass
        return out

    def finish(self, level, rule, assumptions, min_evaluations=1, min_states=2):
        known = self.known()
        new = {}
        for k, (msg, det) in sorted(self.viol.items()):
            if k in known:
                print(f"KNOWN-FINDING: property={self.prop} {known[k]} [{k}]")
            else:
                new[k] = (msg, det)
        os.makedirs(f"{VERIF}/evidence/replay", exist_ok=True)
        viols = []
        for k, (msg, det) in new.items():
            h = hashlib.sha1(k.encode()).hexdigest()[:10]
            path = f"{VERIF}/evidence/replay/{self.prop}-{h}.json"
            with open(path, "w") as fh:
                json.dump({"property": self.prop, "key": k, "message": msg, "seed": self.seed,
                           "tier": self.tier, "detail": det,
                           "how": f"VERIF_SEED={self.seed} VERIF_TIER={self.tier} python3 /verif/check.py {self.prop}; "
                                  f"single case: python3 /verif/check.py {self.prop} --replay {path}"},
                          fh, indent=1, default=str)
            viols.append({"key": k, "message": msg, "replay": path})
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": {"evaluations": self.evaluations,
                           "distinct_nontrivial": len(self.states),
                           "rule": rule, "samples": self.samples[:12] or sorted(self.states)[:12],
                           "observed": self.counters,
                           "skipped": self.skipped,
                           "inconclusive": len(self.inconclusive),
                           "inconclusive_examples": self.inconclusive[:5],
                           "known_findings_seen": sorted(set(self.viol) & set(known)),
                           "build_s": round(self.build_s, 1)},
              "assumptions": assumptions,
              "wall_s": round(time.time() - self.t0, 2),
              "violations": viols}
        path = f"{VERIF}/evidence/{self.prop}.json"
        with open(path + ".tmp", "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
        os.replace(path + ".tmp", path)
        for v in viols:
            print(f"  {v['key']}: {v['message']}")
            print(f"VIOLATION property={self.prop} replay={v['replay']}")
        print(f"{self.prop}: {self.evaluations} oracle evaluations, {len(self.states)} distinct states, "
              f"{self.skipped} skipped, {len(self.inconclusive)} inconclusive, {len(viols)} violation(s), "
              f"build {self.build_s:.0f} s, total {ev['wall_s']:.0f} s")
        for k in sorted(self.counters):
            print(f"    {k}: {self.counters[k]}")
        self.rc = 0
        if viols:
            self.rc = 1
        elif self.evaluations < min_evaluations or len(self.states) < min_states:
            print(f"ERROR: too little observed ({self.evaluations} evaluations, {len(self.states)} states)")
            self.rc = 3
        return self.rc

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)
