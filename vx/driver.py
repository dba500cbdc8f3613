"""Runs harnesses through the symbolic executor, in parallel, and collects the results."""
import gc
import json
import os
import random
import re
import sys
import tempfile
import time
import traceback

from . import build, exec as X, ll
from . import term as T

sys.setrecursionlimit(20000)

PROGRESS = os.environ.get("VX_PROGRESS")
INTERCEPT = [(re.compile(p), n) for p, n in [
    (r"4path4Path5__join|4path4Path4join|4path.*Path5__join", "vx_stub_join"),
    (r"3std3env3var5inner|3env4__var|3env3var.*inner", "vx_stub_var"),
    (r"2fs4read5inner", "vx_stub_read"),
    (r"17zoneinfo_compiled5parse", "vx_stub_parse"),
    (r"10SystemTime3now", "vx_stub_now"),
    (r"10SystemTime14duration_since", "vx_stub_since"),
    (r"^gmtime_r$", "vx_stub_gmtime"),
]]


class Result:
    def __init__(self, name):
        self.name = name
        self.violations = []
        self.suspects = []   # inconclusive paths with a concrete witness
        self.errors = []
        self.covers = {}
        self.samples = []
        self.n = dict(paths=0, killed=0, panics=0, forks=0, branches=0, steps=0, asserts=0, asserts_trivial=0,
                      queries=0, unsat=0, sat=0, unknown=0, retries=0, solver_ms=0, max_ms=0)
        self.funcs = {}

    def merge(self, d):
        for k in self.n:
            if k == "max_ms":
                self.n[k] = max(self.n[k], d["n"][k])
            else:
                self.n[k] += d["n"][k]
        self.violations += d["violations"]
        self.suspects += d["suspects"]
        self.errors += d["errors"]
        for k, v in d["covers"].items():
            self.covers.setdefault(int(k), v)
        self.samples += d["samples"]
        self.funcs.update(d["funcs"])


def snapshot(e, suspects, errors):
    s = e.solver.stats
    return dict(violations=e.violations, suspects=suspects, errors=errors, covers=e.covers, samples=e.samples, funcs=e.funcs_seen,
                n=dict(paths=e.paths, killed=e.killed, panics=e.panics_expected, forks=e.forks, branches=e.branches, steps=e.steps,
                       asserts=e.asserts, asserts_trivial=e.asserts_trivial, queries=s.queries, unsat=s.unsat, sat=s.sat,
                       unknown=s.unknown, retries=s.retries, solver_ms=int(s.time * 1000), max_ms=int(s.max_time * 1000)))


def reset(e):
    """forget counts (a worker reports only its own)"""
    from .solver import Stats
    e.violations, e.samples = [], []
    e.covers = dict(e.covers)
    e.paths = e.killed = e.panics_expected = e.forks = e.branches = e.steps = e.asserts = e.asserts_trivial = 0
    e.solver.stats = Stats()


def step(e, st, suspects, errors):
    try:
        e.run(st)
    except X.Inconclusive as x:
        w = None
        try:
            w = e.need_wit(st)
        except X.Inconclusive:
            pass
        at = [f.fn.name[-60:] for f in st.frames[-3:]]
        msg = "%s: %s (in %s)" % (type(x).__name__, x, " < ".join(reversed(at)))
        if w is not None:
            suspects.append({"kind": msg, "args": e.args_of(w), "at": at[-1] if at else ""})
        else:
            errors.append(msg)
        return "time budget" not in msg
    except Exception:
        at = [f.fn.name[-60:] for f in st.frames[-3:]]
        errors.append("%s (in %s)" % (traceback.format_exc()[-900:], " < ".join(reversed(at))))
    return True


def call_graph_covers(mod, fn):
    seen, todo, ids = set(), [fn], set()
    while todo:
        f = todo.pop()
        if f in seen or f not in mod.funcs:
            continue
        seen.add(f)
        for blk in mod.funcs[f].blocks.values():
            for ins in blk:
                if ins.op != "call":
                    continue
                tgt = ins.x[0]
                if tgt == "vx_cover":
                    ids.add(ins.a[0][1])
                elif isinstance(tgt, str):
                    todo.append(tgt)
    return ids


def run(llpath, harnesses, opts):
    """harnesses: [(name, cfg overrides)] -> {name: Result}, seconds"""
    t0 = time.time()
    text = open(llpath).read()
    mod = ll.parse_module(text)
    nr = build.noreturn_decls(text)
    res = {}
    engines = {}
    tasks = []
    nworkers = opts.get("workers", os.cpu_count() or 4)
    want = max(1, opts.get("frontier", 320) // len(harnesses))
    warm = opts.get("warm", 6.0) / len(harnesses)
    for h, over in harnesses:
        cfg = dict(intercepts=INTERCEPT, deadline=opts.get("deadline"), rlimit=opts.get("rlimit", 1_500_000), retry_rlimit=opts.get("retry_rlimit", 100_000_000))
        cfg.update(over)
        e = X.Engine(mod, nr, cfg)
        engines[h] = e
        res[h] = Result(h)
        e.work.append(e.start(h))
    # breadth first until there is enough to share out
    for h, e in engines.items():
        s, er = [], []
        t1 = time.time()
        while e.work and (len(harnesses) < nworkers or opts.get("always_warm")):
            if len(e.work) >= want or time.time() - t1 > warm:
                break
            if not step(e, e.work.pop(0), s, er) or len(e.violations) >= 3:
                break
        res[h].merge(snapshot(e, s, er))
        if len(e.violations) < 3:
            tasks += [(h, st) for st in e.work]
        e.work = []
        reset(e)
    rnd = random.Random(opts.get("seed", 1))
    rnd.shuffle(tasks)
    if tasks:
        parallel(tasks, engines, res, nworkers, opts)
    return mod, res, time.time() - t0


def parallel(tasks, engines, res, nworkers, opts):
    import multiprocessing
    nxt = multiprocessing.Value("i", 0)
    bad = multiprocessing.Value("i", 0)
    first = multiprocessing.Value("d", 0.0)  # when the first violation was found
    done = multiprocessing.Value("i", 0)
    if PROGRESS:
        pp = os.fork()
        if pp == 0:
            t0 = time.time()
            while os.getppid() != 1 and nxt.value < len(tasks) + 8:
                time.sleep(5)
                sys.stderr.write("[%4ds] tasks %d/%d paths %d bad %d\n" % (time.time() - t0, nxt.value, len(tasks), done.value, bad.value))
                sys.stderr.flush()
            os._exit(0)
    active = multiprocessing.Value("i", min(nworkers, len(tasks)))
    d = tempfile.mkdtemp(prefix="vx")
    gc.collect()
    gc.freeze()
    pids = []
    for w in range(min(nworkers, len(tasks))):
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            rc = 0
            try:
                worker(w, tasks, engines, nxt, bad, first, done, active, d, opts)
            except BaseException:
                traceback.print_exc()
                rc = 1
            finally:
                os._exit(rc)
        pids.append((w, pid))
    failed = []
    for w, pid in pids:
        stt = wait(pid, opts.get("deadline"))
        if stt != 0 or not os.path.exists(os.path.join(d, "%d.json" % w)):
            failed.append("worker %d ended with status %d" % (w, stt))
    for f in sorted(os.listdir(d)):
        if f.endswith(".json"):
            for h, r in json.load(open(os.path.join(d, f))).items():
                res[h].merge(r)
        os.unlink(os.path.join(d, f))
    os.rmdir(d)
    if failed:
        next(iter(res.values())).errors += failed


def wait(pid, deadline):
    """the worker's status; it is ended when it has not stopped well after the deadline"""
    while deadline:
        p, stt = os.waitpid(pid, os.WNOHANG)
        if p:
            return stt
        if time.time() > deadline + 20:
            os.kill(pid, 9)
            break
        time.sleep(0.02)
    return os.waitpid(pid, 0)[1]


def worker(w, tasks, engines, nxt, bad, first, done, active, d, opts):
    """takes shared tasks; when those have run out, hands half of its open paths to a new
    process whenever fewer than `workers` are busy"""
    gc.set_threshold(50_000, 20, 50)
    log = {h: ([], []) for h in engines}
    used, kids = set(), []
    nworkers = opts.get("workers", os.cpu_count() or 4)
    name = str(w)
    stop = False
    last = time.time()
    while not stop:
        if first.value and time.time() > first.value + opts.get("grace", 15):
            break
        with nxt.get_lock():
            i = nxt.value
            nxt.value += 1
        if i >= len(tasks):
            break
        h, st = tasks[i]
        e = engines[h]
        e.work = [st]
        e.work[0].nfork = (w + 1) * 100000 + i
        used.add(h)
        while e.work:
            now = time.time()
            if bad.value >= opts.get("max_bad", 12) or (first.value and now > first.value + opts.get("grace", 15)):
                stop = True
                break
            if opts.get("deadline") and now > opts["deadline"]:
                log[h][1].append("time budget exhausted")
                stop = True
                break
            with done.get_lock():
                done.value += 1
            v0 = len(e.violations)
            n0 = v0 + len(log[h][0])
            if not step(e, e.work.pop(), *log[h]):
                stop = True
                break
            if len(e.violations) + len(log[h][0]) > n0:
                with bad.get_lock():
                    bad.value += 1
                    if len(e.violations) > v0 and not first.value:
                        first.value = time.time()
            if nxt.value >= len(tasks) and active.value < nworkers and len(e.work) >= 2 and time.time() > last + 0.3:
                last = time.time()
                with active.get_lock():
                    ok = active.value < nworkers
                    active.value += ok
                if ok:
                    pid = os.fork()
                    if pid == 0:
                        e.work = e.work[0::2]
                        name = str(os.getpid())
                        kids, used = [], {h}
                        log = {k: ([], []) for k in engines}
                        for x in engines.values():
                            reset(x)
                    else:
                        e.work = e.work[1::2]
                        kids.append(pid)
    out = {h: snapshot(engines[h], *log[h]) for h in used}
    p = os.path.join(d, name + ".json")
    with open(p + ".t", "w") as f:
        json.dump(out, f)
    os.rename(p + ".t", p)
    with active.get_lock():
        active.value -= 1
    for k in kids:
        if wait(k, opts.get("deadline")) != 0:
            raise RuntimeError("a worker's child failed")
