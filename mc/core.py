"""Explicit-state exploration framework.

A check module enumerates a finite set of *cases* (operation histories, input
shapes, configurations) simplest first; ``run_case`` executes every operation of
the case on the real code and compares each observation with a reference model.
The explorer runs every case (no sampling), in chunks; each chunk is executed in
a process forked from a warm parent, so a chunk is a deterministic function of
its case list and a violation can be replayed.
"""
from __future__ import annotations
import hashlib, json, os, pickle, select, signal, struct, sys, time, traceback, mmap, gc
from collections import Counter

NPROC = int(os.environ.get("VERIF_NPROC", "8"))
CASE_TIMEOUT = 180.0


class Violation(Exception):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.msg = msg
        self.key = key


class Skip(Exception):
    """Case outside the stated bound (counted, with reason)."""


def h64(obj) -> int:
    if not isinstance(obj, (bytes, bytearray)):
        obj = repr(obj).encode()
    return int.from_bytes(hashlib.blake2b(obj, digest_size=8).digest(), "big")


class Rec:
    """Per-chunk recorder."""

    def __init__(self, known):
        self.known = known
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.skips = Counter()
        self.counts = Counter()
        self.findings = {}
        self.nontrivial = 0

    def state(self, key):
        self.states.add(h64(key))

    def outcome(self, key):
        self.outcomes.add(h64(key))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def count(self, name, n=1):
        self.counts[name] += n

    def fail(self, msg, key=None):
        if key is not None and key in self.known:
            self.findings.setdefault(key, msg)
            return
        raise Violation(msg, key)

    def check(self, cond, msg, key=None):
        if not cond:
            self.fail(msg() if callable(msg) else msg, key)

    def pack(self):
        return dict(states=self.states, outcomes=self.outcomes, transitions=self.transitions,
                    traces=self.traces, skips=self.skips, findings=self.findings, counts=self.counts)


def run_one(mod, case, rec):
    """Run one case; returns None or (msg, key)."""
    try:
        mod.run_case(case, rec)
    except Violation as v:
        return (v.msg, v.key)
    except Skip as s:
        rec.skips[str(s)] += 1
    except MemoryError:
        raise
    except Exception as e:  # an exception out of the code under test breaks the property
        tb = traceback.extract_tb(e.__traceback__)
        where = ""
        for fr in reversed(tb):
            if "sectionproperties" in fr.filename:
                where = f" at {os.path.basename(fr.filename)}:{fr.lineno} {fr.name}"
                break
        key = "exc:" + type(e).__name__ + where.split(" ")[-1]
        msg = f"unexpected {type(e).__name__}: {e}{where}"
        if key in rec.known:
            rec.findings.setdefault(key, msg)
            return None
        return (msg, key if False else None)
    return None


def _child(mod, cases, base, known, wfd, prog):
    rec = Rec(known)
    viol = None
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    for i, c in enumerate(cases):
        prog.seek(0)
        prog.write(struct.pack("qd", i, time.time()))
        v = run_one(mod, c, rec)
        if v is not None:
            viol = (base + i, c, v[0], v[1])
            break
    data = pickle.dumps((rec.pack(), viol))
    with os.fdopen(wfd, "wb") as f:
        f.write(data)


def explore(mod, cases, known, nproc=None, chunk=None, budget=None):
    """Run every case. Returns aggregate dict."""
    nproc = nproc or NPROC
    n = len(cases)
    chunk = chunk or getattr(mod, "CHUNK", None) or max(1, min(200, n // (nproc * 6) + 1))
    # deterministic interleave keeps simplest first: consecutive slices
    jobs = [(s, cases[s:s + chunk]) for s in range(0, n, chunk)]
    agg = Rec(known)
    viols = []
    running = {}
    done = 0
    t0 = time.time()
    capped = False
    sys.stdout.flush(); sys.stderr.flush()
    gc.collect(); gc.freeze()
    ji = 0
    while ji < len(jobs) or running:
        while ji < len(jobs) and len(running) < nproc and not viols:
            if budget and time.time() - t0 > budget:
                capped = True
                break
            base, cs = jobs[ji]; ji += 1
            r, w = os.pipe()
            prog = mmap.mmap(-1, 16)
            prog.write(struct.pack("qd", 0, time.time()))
            pid = os.fork()
            if pid == 0:
                code = 3
                try:
                    os.close(r)
                    _child(mod, cs, base, known, w, prog)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stdout.flush(); sys.stderr.flush()
                    os._exit(code)
            os.close(w)
            running[r] = [pid, base, cs, prog, b""]
        if not running:
            break
        rd, _, _ = select.select(list(running), [], [], 1.0)
        for r in rd:
            b = os.read(r, 1 << 20)
            job = running[r]
            if b:
                job[4] += b
                continue
            os.close(r)
            pid, base, cs, prog, data = running.pop(r)[:5]
            _, st = os.waitpid(pid, 0)
            if os.WIFSIGNALED(st) or os.waitstatus_to_exitcode(st) != 0 or not data:
                i, _t = struct.unpack("qd", prog[:16])
                if os.WIFSIGNALED(st):
                    why = job[5] if len(job) > 5 else f"process killed by signal {os.WTERMSIG(st)}"
                else:
                    why = f"process ended with status {os.waitstatus_to_exitcode(st)}"
                viols.append((base + i, cs[i], why, None))
                continue
            pk, v = pickle.loads(data)
            agg.states |= pk["states"]; agg.outcomes |= pk["outcomes"]
            agg.transitions += pk["transitions"]; agg.traces += pk["traces"]
            agg.skips += pk["skips"]; agg.counts += pk["counts"]
            for k, m in pk["findings"].items():
                agg.findings.setdefault(k, m)
            if v is not None:
                viols.append(v)
            done += len(cs)
        if viols:
            ji = len(jobs)
        now = time.time()
        for r, job in list(running.items()):
            i, t = struct.unpack("qd", job[3][:16])
            limit = job[2][i].get("timeout", CASE_TIMEOUT)
            if now - t > limit and len(job) == 5:
                job.append(f"case did not terminate within {limit:.0f} s")
                os.kill(job[0], signal.SIGKILL)
    viols.sort(key=lambda v: v[0])
    return dict(agg=agg, viols=viols, done=done, total=n, capped=capped, chunk=chunk, wall=time.time() - t0)


def alone(mod, case, known):
    """Does the case fail when it is the only one run in its process?"""
    class _Nil:
        def seek(self, *a): pass
        def write(self, *a): pass
    r, w = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            signal.alarm(int(CASE_TIMEOUT))
            _child(mod, [case], 0, known, w, _Nil())
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 1 << 20)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if not data:
        return True
    return pickle.loads(data)[1] is not None


def close(a, b, rtol=1e-9, atol=0.0):
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))
