#!/usr/local/bin/python3-vt
"""run.py PROP            explore (VERIF_TIER, VERIF_SEED)
   run.py --replay FILE   re-run one recorded failure"""
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from vf import build as vb  # noqa: E402
from vf.engine import find_test, load_prop  # noqa: E402

PY = "/usr/local/bin/python3-vt"
VENV = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
NCPU = os.cpu_count() or 8
T0 = time.time()


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln:
                d = json.loads(ln)
                if d.get("property") == prop and d.get("status") == "open":
                    out.append(d)
    return out


_infos = {}


def info_for(test):
    if not test.needs_lib and test.variant is None:
        return {}
    key = (test.variant, test.mex, tuple(test.targets), test.internals)
    if key not in _infos:
        _infos[key] = vb.build(test.variant, targets=test.targets, mex=test.mex,
                               internals=test.internals)
    return _infos[key]


def env_for(test):
    e = dict(os.environ)
    t = str(test.threads)
    e.update(OMP_NUM_THREADS=t, OPENBLAS_NUM_THREADS=t, OMP_DYNAMIC="FALSE",
             OMP_WAIT_POLICY="PASSIVE", GOMP_SPINCOUNT="0", PYTHONHASHSEED="0",
             PYTHONPATH=VERIF, OMP_THREAD_LIMIT="64", PYTHONDONTWRITEBYTECODE="1")
    if test.variant == "asan":
        lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True,
                             text=True).stdout.strip()
        ub = subprocess.run(["gcc", "-print-file-name=libubsan.so"], capture_output=True,
                            text=True).stdout.strip()
        e["LD_PRELOAD"] = lib + ":" + ub
        e["ASAN_OPTIONS"] = ("detect_leaks=0:exitcode=77:abort_on_error=0:"
                             "allocator_may_return_null=1:detect_stack_use_after_return=0"
                             ":handle_segv=1:detect_odr_violation=0:max_malloc_fill_size="
                             "1000000000:malloc_fill_byte=64")
        e["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=77:print_stacktrace=1"
        e["PYTHONMALLOC"] = "malloc"
    e.update(test.env)
    return e


class Job:
    def __init__(self, prop, test, work, tag, **cfg):
        self.test = test
        self.dir = os.path.join(work, tag)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.cfg = dict(prop=prop, test=test.name, outdir=self.dir, verif=VERIF,
                        info=info_for(test), **cfg)
        py = PY
        if test.python:
            py = test.python
            self.cfg["paths"] = [VENV]
        self.py = py
        self.proc = None
        self.hung = False

    def start(self):
        c = os.path.join(self.dir, "cfg.json")
        json.dump(self.cfg, open(c, "w"))
        self.err = open(os.path.join(self.dir, "stderr"), "wb")
        self.proc = subprocess.Popen(
            [self.py, os.path.join(VERIF, "vf", "engine.py"), c], stdout=subprocess.DEVNULL,
            stderr=self.err, stdin=subprocess.DEVNULL, env=env_for(self.test),
            cwd=self.dir, start_new_session=True)
        self.t0 = time.time()
        self.last = (None, 0.0)

    def cpu(self):
        try:
            f = open("/proc/%d/stat" % self.proc.pid).read().rsplit(")", 1)[1].split()
            return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
        except Exception:
            return 0.0

    def poll(self):
        r = self.proc.poll()
        if r is not None:
            return True
        cur = self.current()
        k = (cur or {}).get("i"), (cur or {}).get("chunk") and tuple(cur["chunk"])
        c = self.cpu()
        if k != self.last[0]:
            self.last = (k, c)
        elif cur is not None and c - self.last[1] > self.test.case_cpu * max(
                1, self.test.threads):
            self.hung = True
            self.kill()
            return True
        return False

    def kill(self):
        try:
            os.killpg(self.proc.pid, 9)
        except Exception:
            pass
        try:
            self.proc.wait(10)
        except Exception:
            pass

    def current(self):
        try:
            return json.load(open(os.path.join(self.dir, "cur.json")))
        except Exception:
            return None

    def result(self):
        try:
            return json.load(open(os.path.join(self.dir, "done.json")))
        except Exception:
            return None

    def stderr_tail(self, n=3000):
        try:
            b = open(os.path.join(self.dir, "stderr"), "rb").read()
            return b[-n:].decode(errors="replace")
        except Exception:
            return ""


def run_job(job, timeout):
    job.start()
    while not job.poll():
        if time.time() - job.t0 > timeout:
            job.kill()
            return "timeout"
        time.sleep(0.05)
    return None


def crash_message(job):
    if job.hung:
        return "the call did not return within %d s of CPU time" % job.test.case_cpu
    rc = job.proc.returncode
    t = job.stderr_tail()
    hint = ""
    for ln in t.splitlines():
        if "ERROR: AddressSanitizer" in ln or "runtime error:" in ln:
            hint = " (" + ln.strip()[:200] + ")"
    if rc < 0:
        return "the process was killed by signal %d%s" % (-rc, hint)
    return "the process exited with status %d%s" % (rc, hint)


def replay_once(prop, test, work, case, tag):
    """-> message or None"""
    j = Job(prop, test, work, tag, mode="replay", case=case)
    to = run_job(j, test.case_cpu * 2 + 60)
    r = j.result()
    if to == "timeout":
        return None
    if r is None:
        if j.current() is None:
            return None  # died before the case even started
        return crash_message(j)
    if r["error"]:
        print("error during replay:\n" + r["error"])
        return None
    return r["fail"]["message"] if r["fail"] else None


def replay_file(path):
    d = json.load(open(path))
    mod = load_prop(d["property"])
    test = find_test(mod, d["test"])
    work = os.path.join(vb.BUILD, "work", "replay-%d" % os.getpid())
    os.makedirs(work, exist_ok=True)
    try:
        if d.get("history"):
            h = d["history"]
            j = Job(d["property"], test, work, "h", mode="explore", **h)
            run_job(j, 600)
            r = j.result()
            msg = crash_message(j) if r is None else (r["fail"] or {}).get("message")
        else:
            msg = replay_once(d["property"], test, work, d["case"], "r")
    finally:
        shutil.rmtree(work, ignore_errors=True)
    if msg:
        print("reproduced: " + msg)
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    print("not reproduced")
    return 0


def explore(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    mod = load_prop(prop)
    only = os.environ.get("VERIF_TESTS")
    tests = [t for t in mod.TESTS if not only or t.name in only.split(",")]
    for t in [t for t in tests if t.internals]:
        try:
            info_for(t)
        except vb.BuildError:
            # the sub-steps are not offered the way include/*.h offers them: the library
            # must build all the same, and the whole-run tests still decide
            vb.build(t.variant, targets=t.targets, mex=t.mex)
            print("%s/%s skipped: the solver's sub-steps are not accessible" % (prop, t.name))
            tests.remove(t)
    soft = 560 if tier == "quick" else 3000
    known = known_findings(prop)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    work = os.path.join(vb.BUILD, "work", "%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    jobs = []
    for t in tests:
        ns = t.shards if tier == "quick" else max(t.shards, 4)
        n = t.quick if tier == "quick" else t.thorough
        cap = (t.cap if tier == "quick" else t.cap_thorough) * scale
        for s in range(ns):
            sd = int.from_bytes(hashlib.blake2b(
                ("%d/%s/%s/%d" % (seed, prop, t.name, s)).encode(),
                digest_size=6).digest(), "big")
            jobs.append(Job(prop, t, work, "%s.%d" % (t.name, s), mode="explore",
                            seed=sd, n=max(1, int(n * scale) // ns), cap=cap, tier=tier,
                            shard=s, nshards=ns, known=[k["key"] for k in known]))
    pending, running, finished, failed = list(jobs), [], [], []
    slots = NCPU
    stopped = False
    while pending or running:
        used = sum(min(j.test.threads, NCPU) for j in running)
        while pending and not failed and not stopped:
            need = min(pending[0].test.threads, NCPU)
            if running and used + need > slots:
                break
            j = pending.pop(0)
            j.start()
            running.append(j)
            used += need
        if failed or stopped:
            pending = []
        for j in list(running):
            if j.poll():
                running.remove(j)
                finished.append(j)
                r = j.result()
                if r is None or r["fail"] or r["error"]:
                    failed.append(j)
        if failed and running:
            # let the others go: one confirmed violation is the answer
            for j in running:
                j.kill()
                finished.append(j)
            running = []
        if time.time() - T0 > soft and running:
            for j in running:
                j.kill()
                finished.append(j)
            running, stopped = [], True
        time.sleep(0.05)

    violation = None
    unconfirmed = []
    broken = None
    for j in failed:
        r = j.result()
        t = j.test
        if r is not None and r["error"] and not r["fail"]:
            broken = "internal error in %s:\n%s" % (t.name, r["error"])
            continue
        cands = []
        if r is None:
            cur = j.current()
            if cur is None:
                broken = "worker for %s died before the first case: %s" % (
                    t.name, j.stderr_tail())
                continue
            msg = crash_message(j)
            if not j.hung and cur.get("chunk"):
                # shrink a crash: same generation, every case in a forked child
                jj = Job(prop, t, work, "isolate", mode="explore", seed=0, n=1, cap=60,
                         tier=tier, shard=0, nshards=1, isolate=True,
                         only_chunk=cur["chunk"], known=[k["key"] for k in known])
                run_job(jj, 150)
                rr = jj.result()
                if rr and rr["fail"]:
                    cands.append((rr["fail"]["case"], rr["fail"]["message"]))
            cands.append((cur["case"], msg))
        else:
            cands.append((r["fail"]["case"], r["fail"]["message"]))
            if r["first_fail"]:
                cands.append((r["first_fail"]["case"], r["first_fail"]["message"]))
        for case, msg in cands:
            for k in range(3):
                m = replay_once(prop, t, work, case, "confirm")
                if m:
                    violation = dict(property=prop, test=t.name, case=case, message=m)
                    break
                if time.time() - T0 > 780:
                    break
            if violation:
                break
        if not violation and time.time() - T0 < 500:
            # depends on what ran before in the same process: repeat the whole history
            h = {k: v for k, v in j.cfg.items()
                 if k in ("seed", "n", "cap", "tier", "shard", "nshards", "known")}
            h["cap"] = h["cap"] * 3
            jj = Job(prop, t, work, "history", mode="explore", **h)
            run_job(jj, 300)
            rr = jj.result()
            if rr is None and jj.current() is not None:
                violation = dict(property=prop, test=t.name, history=h,
                                 message=crash_message(jj))
            elif rr and rr["fail"]:
                violation = dict(property=prop, test=t.name, history=h,
                                 case=rr["fail"]["case"], message=rr["fail"]["message"])
            if not violation:
                unconfirmed.append(cands[0][1])
        if violation:
            break

    # ---- evidence
    ev, nt, labels, samples, per = 0, set(), {}, [], {}
    for j in finished:
        r = j.result()
        if r is None:
            c = j.current()
            ev += (c or {}).get("i", 0)
            continue
        ev += r["evals"]
        p = per.setdefault(j.test.name, dict(evaluations=0, distinct_nontrivial=0))
        p["evaluations"] += r["evals"]
        try:
            b = open(os.path.join(j.dir, "hashes"), "rb").read()
            hs = {j.test.name.encode() + b[i:i + 8] for i in range(0, len(b), 8)}
        except Exception:
            hs = set()
        before = len(nt)
        nt |= hs
        p["distinct_nontrivial"] += len(nt) - before
        for k, v in r["labels"].items():
            k = j.test.name + ":" + k
            labels[k] = labels.get(k, 0) + v
        for s in r["samples"][:2]:
            if sum(1 for x in samples if x["test"] == j.test.name) < 3:
                samples.append(dict(test=j.test.name, case=s))
    evd = dict(property=prop, tier=tier, seed=seed, level=mod.LEVEL,
               coverage=dict(evaluations=ev, distinct_nontrivial=len(nt), rule=mod.RULE,
                             samples=samples, per_test=per, labels=labels),
               assumptions=getattr(mod, "ASSUMPTIONS", []),
               wall_s=round(time.time() - T0, 2), violations=1 if violation else 0)
    if hasattr(mod, "EXHAUSTIVE"):
        evd["coverage"]["exhaustive_part"] = mod.EXHAUSTIVE
    if stopped:
        evd["coverage"]["stopped_at_soft_deadline"] = True
    if unconfirmed:
        evd["coverage"]["unconfirmed"] = unconfirmed
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    out = os.path.join(VERIF, "evidence", prop + ".json")
    json.dump(evd, open(out + ".tmp", "w"), indent=1)
    os.replace(out + ".tmp", out)

    rc = 0
    if violation:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        h = hashlib.blake2b(json.dumps(violation, sort_keys=True).encode(),
                            digest_size=5).hexdigest()
        path = os.path.join(VERIF, "replays", "%s-%s-%s.json" % (
            prop, violation["test"], h))
        json.dump(violation, open(path, "w"), indent=1)
        print("%s/%s: %s" % (prop, violation["test"], violation["message"]))
        print("case: %s" % json.dumps(violation.get("case"))[:1500])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
    elif broken:
        print(broken)
        rc = 2
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(work, ignore_errors=True)
    print("%s %s: %d evaluations, %d distinct non-trivial, %.1f s%s" % (
        prop, tier, ev, len(nt), time.time() - T0,
        "" if not unconfirmed else ", unconfirmed: %s" % unconfirmed))
    sys.stdout.flush()
    return rc


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        return replay_file(a[1])
    try:
        return explore(a[0])
    except vb.BuildError as e:
        print("build failed: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
