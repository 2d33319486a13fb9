"""Worker side: drives one test of one property with hypothesis in this process."""
import hashlib
import importlib
import json
import os
import random
import signal
import struct
import sys
import time
import traceback


class Test:
    """strategy draws a JSON-able case; check(case, L) raises Violation or returns
    truthy when the case was non-trivial (or a dict with key nt and labels)."""

    def __init__(self, name, strategy, check, quick=2000, thorough=40000, cap=40,
                 cap_thorough=600, variant="plain", threads=1, shards=2, internals=False,
                 chunk=100, env=None, mex=False, targets=("l1c",), python=None,
                 enumerate_cases=None, case_cpu=120, needs_lib=True):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough = quick, thorough
        self.cap, self.cap_thorough = cap, cap_thorough
        self.variant, self.threads, self.shards = variant, threads, shards
        self.internals, self.chunk, self.env = internals, chunk, env or {}
        self.mex, self.targets, self.python = mex, targets, python
        self.enumerate_cases = enumerate_cases
        self.case_cpu = case_cpu
        self.needs_lib = needs_lib


def load_prop(prop):
    m = importlib.import_module("props." + prop.lower())
    return m


def find_test(mod, name):
    for t in mod.TESTS:
        if t.name == name:
            return t
    raise KeyError(name)


def open_lib(test, info):
    from vf import lib
    if test.variant == "asan":
        lib.use_exact_buffers()
    if not test.needs_lib:
        return None
    L = lib.Lib(info)
    L.threads = test.threads
    return L


def case_hash(case):
    return hashlib.blake2b(json.dumps(case, sort_keys=True).encode(),
                           digest_size=8).digest()


class Worker:
    def __init__(self, mod, test, info, outdir, isolate=False, known=()):
        self.mod, self.test, self.outdir, self.isolate = mod, test, outdir, isolate
        self.info = info
        self.known = set(known)
        self.known_seen = set()
        self.L = None if isolate else open_lib(test, info)
        self.evals = 0
        self.hashes = set()
        self.labels = {}
        self.samples = []
        self.fail = None
        self.first_fail = None
        self.cur = open(os.path.join(outdir, "cur.json"), "w+")
        self.chunk_info = None
        self.sample_rng = random.Random(7)
        self.n_nt = 0

    def note(self, case):
        s = json.dumps({"i": self.evals, "chunk": self.chunk_info, "case": case})
        self.cur.seek(0)
        self.cur.write(s)
        self.cur.truncate()
        self.cur.flush()

    def run_isolated(self, case):
        from vf.lib import Violation
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            rc = 0
            msg = ""
            try:
                L = open_lib(self.test, self.info)
                self.test.check(case, L)
            except Violation as e:
                rc, msg = 1, str(e)
            except BaseException:
                rc, msg = 2, traceback.format_exc()[-800:]
            os.write(w, msg.encode()[:4000])
            os._exit(rc)
        os.close(w)
        t0 = time.time()
        data = b""
        import select
        dead = None
        while True:
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                dead = st
                break
            rl, _, _ = select.select([r], [], [], 0.02)
            if rl:
                chunk = os.read(r, 65536)
                if chunk:
                    data += chunk
                else:
                    p, dead = os.waitpid(pid, 0)
                    break
            if time.time() - t0 > self.test.case_cpu:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                raise Violation("the call did not return (killed after %d s)"
                                % self.test.case_cpu)
        while True:
            rl, _, _ = select.select([r], [], [], 0)
            if not rl:
                break
            chunk = os.read(r, 65536)
            if not chunk:
                break
            data += chunk
        os.close(r)
        if os.WIFSIGNALED(dead):
            raise Violation("the process was killed by signal %d" % os.WTERMSIG(dead))
        rc = os.WEXITSTATUS(dead)
        if rc == 0:
            return True
        if rc == 1:
            raise Violation(data.decode(errors="replace"))
        if rc == 2:
            raise RuntimeError(data.decode(errors="replace"))
        raise Violation("the process exited with status %d" % rc)

    def one(self, case):
        from vf.lib import Violation
        self.note(case)
        self.evals += 1
        try:
            if self.isolate:
                r = self.run_isolated(case)
            else:
                r = self.test.check(case, self.L)
        except Violation as e:
            if e.key is not None and e.key in self.known:
                self.known_seen.add(e.key)
                return
            f = dict(case=case, message=str(e))
            if self.first_fail is None:
                self.first_fail = f
            self.fail = f
            raise
        labels = ()
        if isinstance(r, dict):
            labels = r.get("labels", ())
            r = r.get("nt")
        for lb in labels:
            self.labels[lb] = self.labels.get(lb, 0) + 1
        if r:
            h = case_hash(case)
            if h not in self.hashes:
                self.hashes.add(h)
                self.n_nt += 1
                # reservoir of 3
                if len(self.samples) < 3:
                    self.samples.append(case)
                else:
                    j = self.sample_rng.randrange(self.n_nt)
                    if j < 3:
                        self.samples[j] = case

    def run(self, seed, n, cap, only_chunk=None):
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings
        from hypothesis.internal.conjecture import engine as hengine
        hengine.MAX_SHRINKING_SECONDS = 40
        from vf.lib import Violation
        t0 = time.time()
        done = 0
        if self.test.enumerate_cases is not None:
            tier, shard, nsh = self.enum_args
            cases = self.test.enumerate_cases(tier, seed)
            for k, c in enumerate(cases):
                if k % nsh != shard:
                    continue
                try:
                    self.one(c)
                except Violation:
                    return
                if time.time() - t0 > cap:
                    break
        if self.test.strategy is None:
            return
        k = 0
        while done < n and time.time() - t0 < cap:
            cn = min(self.test.chunk, n - done)
            cs = int.from_bytes(hashlib.blake2b(b"%d/%d" % (seed, k),
                                                digest_size=6).digest(), "big")
            if only_chunk is not None:
                cs, cn = only_chunk
            self.chunk_info = [cs, cn]

            deadline = t0 + cap

            @hypothesis.seed(cs)
            @settings(max_examples=cn, database=None, deadline=None,
                      suppress_health_check=list(HealthCheck), print_blob=False,
                      phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False,
                      verbosity=hypothesis.Verbosity.quiet)
            @given(self.test.strategy)
            def go(case):
                if self.first_fail is None and time.time() > deadline \
                        and only_chunk is None:
                    return
                self.one(case)

            try:
                go()
            except Violation:
                return
            except BaseException as e:
                if self.fail is not None:
                    # hypothesis calls a failure it cannot repeat flaky; keep the first
                    self.fail = dict(self.first_fail, flaky=True)
                    return
                raise
            done += cn
            k += 1
            if only_chunk is not None:
                break

    def finish(self, err=None):
        d = dict(evals=self.evals, nt=len(self.hashes), labels=self.labels,
                 samples=self.samples, fail=self.fail, error=err,
                 first_fail=self.first_fail, known=sorted(self.known_seen))
        with open(os.path.join(self.outdir, "hashes"), "wb") as f:
            f.write(b"".join(sorted(self.hashes)))
        tmp = os.path.join(self.outdir, "done.tmp")
        with open(tmp, "w") as f:
            json.dump(d, f)
        os.replace(tmp, os.path.join(self.outdir, "done.json"))


def main():
    cfg = json.load(open(sys.argv[1]))
    sys.path.insert(0, cfg["verif"])
    for p in cfg.get("paths", []):
        sys.path.append(p)
    os.environ["VF_INFO"] = json.dumps(cfg["info"])
    mod = load_prop(cfg["prop"])
    test = find_test(mod, cfg["test"])
    os.makedirs(cfg["outdir"], exist_ok=True)
    # the library may print; nothing of that belongs on our stdout
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    w = Worker(mod, test, cfg["info"], cfg["outdir"], isolate=cfg.get("isolate", False),
               known=cfg.get("known", ()))
    err = None
    try:
        if cfg["mode"] == "replay":
            os.environ["VF_REPLAY"] = "1"
            from vf.lib import Violation
            w.chunk_info = None
            try:
                w.one(cfg["case"])
            except Violation:
                pass
        else:
            w.enum_args = (cfg["tier"], cfg["shard"], cfg["nshards"])
            w.run(cfg["seed"], cfg["n"], cfg["cap"], cfg.get("only_chunk"))
    except Exception:
        err = traceback.format_exc()
        sys.stderr.write(err)
    w.finish(err)
    sys.stderr.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
