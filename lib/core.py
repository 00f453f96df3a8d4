"""Building the program under test, running it under the monitor, reporting."""
import hashlib
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from collections import Counter
from multiprocessing import Process, Queue

from .expr import TypeProblem

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VM_REPO", "/repo")
BUILD = os.path.join(ROOT, ".build")
NOW = 1640995200  # 2022-01-01, the wall clock of the runs which do not set their own


class Violation(Exception):
    """The property does not hold in this execution"""


class BuildFailed(Exception):
    pass


# --------------------------------------------------------------------- build


def _source_hash(extra):
    h = hashlib.sha256(repr(extra).encode())
    files = []
    for base, dirs, names in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git", "tests", "docs"))
        for n in sorted(names):
            if n.endswith((".rs", ".pest", ".toml", ".lock")):
                files.append(os.path.join(base, n))
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fd:
            h.update(fd.read())
    return h.hexdigest()


def build(kind="dev"):
    """Builds /repo's working tree, returns the path of the executable.

    The artefacts are kept outside /repo. Nothing is trusted to be fresh: if the sources are not those
    of the last build made here, whatever cargo remembers of the crate is thrown away.
    """
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("CARGO_") and k != "CARGO_HOME":
            del env[k]
    for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "LD_PRELOAD", "RUSTC_WRAPPER"):
        env.pop(k, None)
    tdir = os.path.join(BUILD, kind)
    os.makedirs(tdir, exist_ok=True)
    env.update(CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=tdir, CARGO_TERM_COLOR="never",
               CARGO_INCREMENTAL="0", CARGO_PROFILE_DEV_DEBUG="0",
               CARGO_PROFILE_DEV_OVERFLOW_CHECKS="true", RUSTUP_TOOLCHAIN="1.88.0")
    cmd = ["cargo", "build", "--offline", "--bin", "dinero"]
    sub = "debug"
    if kind == "dev":
        # the dependencies are compiled once and for all, in setup_cmd; that makes every execution three times faster
        cmd += ["--config", 'profile.dev.package."*".opt-level=2', "--config", "profile.dev.opt-level=0"]
    elif kind == "opt":
        cmd += ["--config", 'profile.dev.package."*".opt-level=2', "--config", "profile.dev.opt-level=1"]
    elif kind == "asan":
        env["RUSTUP_TOOLCHAIN"] = "nightly"
        env["RUSTFLAGS"] = "-Zsanitizer=address -Awarnings"
        env["CARGO_PROFILE_DEV_OPT_LEVEL"] = "1"
        cmd += ["--target", "x86_64-unknown-linux-gnu"]
        sub = "x86_64-unknown-linux-gnu/debug"
    exe = os.path.join(tdir, sub, "dinero")
    lock = os.path.join(REPO, "Cargo.lock")
    if not os.path.exists(lock) and os.path.exists("/opt/vp/Cargo.lock"):
        shutil.copy("/opt/vp/Cargo.lock", lock)
    stamp = os.path.join(tdir, "stamp")
    want = _source_hash((kind, cmd))
    have = open(stamp).read() if os.path.exists(stamp) else ""
    if have != want:
        for base, dirs, _ in os.walk(tdir):
            for d in list(dirs):
                if os.path.basename(base) == ".fingerprint" and d.startswith("dinero"):
                    shutil.rmtree(os.path.join(base, d))
                    dirs.remove(d)
        if os.path.exists(exe):
            os.unlink(exe)
    r = subprocess.run(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or not os.path.exists(exe):
        raise BuildFailed(r.stdout[-3000:])
    with open(stamp, "w") as f:
        f.write(want)
    return exe


def build_shim():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(ROOT, "lib", "shim.c")
    tag = hashlib.sha256(open(src, "rb").read()).hexdigest()[:12]
    out = os.path.join(BUILD, "shim-%s.so" % tag)
    if not os.path.exists(out):
        tmp = out + ".%d" % os.getpid()
        subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", tmp, src], check=True)
        os.rename(tmp, out)
    return out


# ----------------------------------------------------------------------- run


class Res:
    """What the monitor saw in one execution"""
    __slots__ = ("rc", "sig", "timeout", "out", "err", "log", "cmd")

    def __init__(self, rc, sig, timeout, out, err, log, cmd):
        self.rc, self.sig, self.timeout = rc, sig, timeout
        self.out, self.err, self.log, self.cmd = out, err, log, cmd

    @property
    def ok(self):
        return self.rc == 0 and not self.sig and not self.timeout

    def brief(self):
        return "exit=%s signal=%s timeout=%s" % (self.rc, self.sig, self.timeout)


class Ctx:
    """Everything a case needs: a scratch directory and a way to run the program in it"""

    def __init__(self, exe, shim, scratch, rng, idx, tier, seed, variants=None):
        self.exe, self.shim, self.base = exe, shim, scratch
        self.rng, self.idx, self.tier, self.seed = rng, idx, tier, seed
        self.variants = variants or {}
        self.dir = os.path.join(scratch, "w")
        if os.path.exists(self.dir):
            shutil.rmtree(self.dir)
        os.makedirs(self.dir)
        self.home = os.path.join(scratch, "home")
        os.makedirs(self.home, exist_ok=True)
        self.trace = []
        self.count = Counter()
        self.files = {}
        self.nontrivial = None
        self.sample = None
        self.known = []

    def write(self, name, text):
        path = os.path.join(self.dir, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        data = text if isinstance(text, bytes) else text.encode("utf-8", "surrogateescape")
        with open(path, "wb") as f:
            f.write(data)
        self.files[name] = data
        return name

    def run(self, *args, seed=None, now=NOW, cwd=None, home=None, timeout=30, exe=None, env=None, preload=True):
        cmd = [exe or self.exe] + [str(a) for a in args]
        e = {"PATH": "/usr/bin:/bin", "HOME": home or self.home, "LC_ALL": "C.UTF-8", "RUST_BACKTRACE": "0",
             "TZ": "UTC"}
        if seed is None:
            seed = self.rng.randrange(1 << 30)
        if preload:
            logname = os.path.join(self.base, "log")
            logfd = os.open(logname, os.O_RDWR | os.O_CREAT | os.O_TRUNC)
            e.update(VM_SEED=str(seed), VM_NOW=str(now), VM_LOG=str(logfd), LD_PRELOAD=self.shim)
        if env:
            e.update(env)
        self.trace.append({"args": list(map(str, args)), "hash_seed": seed, "now": now})
        self.count["executions"] += 1
        timed = False
        try:
            for limit in (timeout, timeout * 4):
                timed = False
                p = subprocess.Popen(cmd, cwd=cwd or self.dir, env=e, stdin=subprocess.DEVNULL,
                                     stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                     pass_fds=(logfd,) if preload else (), start_new_session=True)
                try:
                    out, err = p.communicate(timeout=limit)
                    break
                except subprocess.TimeoutExpired:
                    timed = True
                    os.killpg(p.pid, signal.SIGKILL)
                    out, err = p.communicate()
            log = []
            if preload:
                with open(logname, "rb") as f:
                    log = f.read().decode("utf-8", "replace").splitlines()
        finally:
            if preload:
                os.close(logfd)
        rc = p.returncode
        r = Res(rc if rc >= 0 else None, -rc if rc < 0 and not timed else 0, timed,
                out.decode("utf-8", "surrogateescape"), err.decode("utf-8", "surrogateescape"), log, cmd)
        self.count["monitor_events"] += len(log)
        t = self.trace[-1]
        t["result"], t["stdout"], t["stderr"] = r.brief(), r.out[:6000], r.err[:3000]
        return r

    def fail(self, msg):
        raise Violation(msg)

    def expect(self, cond, msg):
        self.count["oracle_checks"] += 1
        if not cond:
            raise Violation(msg() if callable(msg) else msg)

    def seen(self, key, sample=None):
        """This case is non-trivial; `key` tells it from the others"""
        self.nontrivial = hashlib.sha256(repr(key).encode("utf-8", "surrogatepass")).hexdigest()[:16]
        if sample is not None:
            self.sample = sample


# -------------------------------------------------------------------- driver


def _worker(wid, mod, exe, shim, scratch, indices, tier, seed, q, deadline, variants):
    base = os.path.join(scratch, "p%d" % wid)
    os.makedirs(base, exist_ok=True)
    for idx in indices:
        if time.time() > deadline:
            q.put(("skip", idx))
            continue
        rng = random.Random("%s:%s:%s" % (seed, mod.ID, idx))
        ctx = Ctx(exe, shim, base, rng, idx, tier, seed, variants)
        try:
            if hasattr(mod, "world") and rng.random() < mod.WORLD:
                mod.world(ctx, rng)
            else:
                mod.case(ctx, rng, idx)
            q.put(("ok", idx, dict(ctx.count), ctx.nontrivial, ctx.sample, ctx.known))
        except Violation as v:
            q.put(("bad", idx, dict(ctx.count), str(v),
                   {k: d.decode("utf-8", "surrogateescape") for k, d in ctx.files.items()}, ctx.trace))
        except TypeProblem:  # what the expression says cannot be said of this journal
            q.put(("ok", idx, dict(ctx.count), None, None, []))
        except Exception:  # a mistake of the machinery, not an answer
            q.put(("err", idx, traceback.format_exc()))
    shutil.rmtree(base, ignore_errors=True)
    q.put(("end", wid))


def scratch_dir():
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    return tempfile.mkdtemp(prefix="vm-", dir=base)


def load_known():
    with open(os.path.join(ROOT, "known_findings.json")) as f:
        return json.load(f)


def drive(mod, tier, seed, only=None):
    t0 = time.time()
    exe = build(getattr(mod, "BUILD_THOROUGH", "dev") if tier == "thorough" else "dev")
    shim = build_shim()
    variants = mod.prepare(tier) if hasattr(mod, "prepare") else {}
    t_build = time.time() - t0
    n = mod.QUICK if tier == "quick" else mod.THOROUGH
    cap = getattr(mod, "CAP", 240) if tier == "quick" else getattr(mod, "CAP_THOROUGH", 2400)
    deadline = time.time() + float(os.environ.get("VM_CAP", cap))
    indices = list(range(n)) if only is None else [only]
    workers = min(int(os.environ.get("VM_JOBS", os.cpu_count() or 4)), len(indices))
    scratch = scratch_dir()
    q = Queue()
    procs = []
    try:
        for w in range(workers):
            p = Process(target=_worker, args=(w, mod, exe, shim, scratch, indices[w::workers], tier, seed, q,
                                              deadline, variants), daemon=True)
            p.start()
            procs.append(p)
        counts, distinct, samples, bad, errs, known = Counter(), set(), {}, [], [], {}
        ran = skipped = 0
        live = workers
        while live:
            m = q.get()
            if m[0] == "end":
                live -= 1
            elif m[0] == "skip":
                skipped += 1
            elif m[0] == "err":
                errs.append(m)
            else:
                ran += 1
                counts.update(m[2])
                if m[0] == "ok":
                    for k in m[5]:
                        known[k] = known.get(k, 0) + 1
                    if m[3]:
                        distinct.add(m[3])
                        if m[4] is not None:
                            samples[m[1]] = m[4]
                else:
                    bad.append(m)
    finally:
        for p in procs:
            p.terminate()
        shutil.rmtree(scratch, ignore_errors=True)

    pick = [samples[i] for i in sorted(samples)[:400]]
    pick = pick[:: max(1, len(pick) // 4)][:4]
    ev = {
        "property": mod.ID, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": counts["executions"],
            "cases": ran,
            "distinct_nontrivial": len(distinct),
            "rule": mod.RULE,
            "samples": pick or ["no non-trivial case in this run"],
            "observed": {k: v for k, v in sorted(counts.items()) if k != "executions"},
            "cases_not_run_for_lack_of_time": skipped,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + [
            "The executable is /repo's working tree built by cargo with the pinned lock file and overflow checks.",
            "Hash keys and the wall clock are those the preloaded monitor hands out.",
        ],
        "wall_s": round(time.time() - t0, 2),
        "build_s": round(t_build, 2),
        "violations": len(bad),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    evp = os.path.join(ROOT, "evidence", mod.ID + ".json")
    with open(evp + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
    os.rename(evp + ".tmp", evp)

    for k, c in sorted(known.items()):
        print("KNOWN-FINDING: property=%s %s" % (mod.ID, k))
    if bad:
        bad.sort(key=lambda m: m[1])
        rdir = os.path.join(ROOT, "replays", mod.ID)
        os.makedirs(rdir, exist_ok=True)
        for m in bad[:int(os.environ.get('VM_SHOW', '3'))]:
            path = os.path.join(rdir, "%s-%s-%s.json" % (tier, seed, m[1]))
            with open(path, "w") as f:
                json.dump({"property": mod.ID, "tier": tier, "seed": seed, "case": m[1], "what": m[3],
                           "replay": "VERIF_TIER=%s VERIF_SEED=%s python3 check.py %s --case %s" % (
                               tier, seed, mod.ID, m[1]),
                           "files": m[4], "executions": m[5]}, f, indent=1)
            print("-- case %s: %s" % (m[1], m[3][:1500]))
        print("%d of %d cases violate the property" % (len(bad), ran))
        print("VIOLATION property=%s replay=%s" % (
            mod.ID, os.path.join(rdir, "%s-%s-%s.json" % (tier, seed, bad[0][1]))))
        return 1
    if errs:
        print("The machinery failed in %d cases" % len(errs))
        print(errs[0][2])
        return 3
    print("%s %s seed=%s: held in %d executions (%d cases, %d distinct non-trivial), %.1f s (build %.1f s)" % (
        mod.ID, tier, seed, counts["executions"], ran, len(distinct), time.time() - t0, t_build))
    for k, v in sorted(counts.items()):
        if os.environ.get("VM_VERBOSE"):
            print("   %-40s %d" % (k, v))
    return 0
