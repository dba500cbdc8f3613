"""z3 back end: incremental, with a path stack kept in step with the DFS, plus a
non-incremental retry and an optional cvc5 cross-check."""
import os
import re
import subprocess
import tempfile
import threading
import time

import z3

from . import term as T


def _lin(x, zv):
    x = T.expand(x)
    if not x.t:
        return z3.IntVal(x.c)
    parts = []
    for a, k in x.t:
        v = zv(a)
        parts.append(v if k == 1 else z3.IntVal(k) * v)
    if x.c:
        parts.append(z3.IntVal(x.c))
    return parts[0] if len(parts) == 1 else z3.Sum(parts)


SLOW = float(os.environ.get("VX_SLOW", "0"))
SLOWN = [0]


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.retries = 0
        self.time = 0.0
        self.max_time = 0.0

    def add(self, o):
        for k in ("queries", "unsat", "sat", "unknown", "retries"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        self.time += o.time
        self.max_time = max(self.max_time, o.max_time)


class Watchdog:
    """interrupts a z3 call that its resource limit does not stop"""
    pid = None
    until = None

    @classmethod
    def start(cls):
        if cls.pid == os.getpid():
            return
        cls.pid = os.getpid()
        cls.until = None
        threading.Thread(target=cls.loop, daemon=True).start()

    @classmethod
    def loop(cls):
        while True:
            time.sleep(0.5)
            u = cls.until
            if u is not None and time.time() > u:
                z3.main_ctx().interrupt()


class Solver:
    def __init__(self, rlimit=1_500_000, retry_rlimit=200_000_000, dump=None):
        self.s = z3.Solver()
        self.s.set("random_seed", 1)
        self.rlimit = rlimit
        self.retry_rlimit = retry_rlimit
        self.stats = Stats()
        self.stack = []      # asserted path constraints (B), one z3 scope each
        self.defs = [set()]  # atoms defined per scope
        self.zc = {}
        self.bc = {}
        self.cross = dump    # callable(smt2 text, result) for cross-checking

    # -- translation
    def zvar(self, a):
        v = self.zc.get(a.id)
        if v is None:
            k = a.kind
            if k == "ite":
                v = z3.Int("i%d" % a.id)
            elif k == "mul":
                v = z3.Int("m%d" % a.id)
            else:
                v = z3.Int(("v_" + a.name) if k == "var" else "q%d" % a.id)
            self.zc[a.id] = v
        return v

    def zlin(self, x):
        return _lin(x, self.zvar)

    def _rel(self, x, le):
        x = T.expand(x)
        l = _lin(T.Lin(0, x.t), self.zvar)
        return l <= z3.IntVal(-x.c) if le else l == z3.IntVal(-x.c)

    def zb(self, b):
        r = self.bc.get(b)
        if r is None:
            k = b.k
            if k == "T":
                r = z3.BoolVal(True)
            elif k == "F":
                r = z3.BoolVal(False)
            elif k == "le":
                r = self._rel(b.a, True)
            elif k == "eq":
                r = self._rel(b.a, False)
            elif k == "not":
                r = z3.Not(self.zb(b.a))
            elif k == "and":
                r = z3.And([self.zb(x) for x in b.a])
            else:
                r = z3.Or([self.zb(x) for x in b.a])
            self.bc[b] = r
        return r

    def atom_def(self, a):
        v = self.zvar(a)
        out = []
        if a.kind == "div":
            x = self.zlin(a.a)
            out.append(z3.IntVal(a.b) * v <= x)
            out.append(x <= z3.IntVal(a.b) * v + z3.IntVal(a.b - 1))
        elif a.kind == "ite":
            c = self.zb(a.a)
            out.append(z3.Implies(c, v == self.zlin(a.b)))
            out.append(z3.Implies(z3.Not(c), v == self.zlin(a.c)))
        elif a.kind == "mul":
            out.append(v == self.zlin(a.a) * self.zlin(a.b))
        if a.lo is not None:
            out.append(v >= z3.IntVal(a.lo))
            out.append(v <= z3.IntVal(a.hi))
        return out

    def collect(self, b, out):
        if b.k in ("le", "eq"):
            for a, _ in b.a.t:
                self.collect_atom(a, out)
        elif b.k == "not":
            self.collect(b.a, out)
        elif b.k in ("and", "or"):
            for x in b.a:
                self.collect(x, out)

    def collect_atom(self, a, out):
        if a in out:
            return
        for d in self.defs:
            if a.id in d:
                return
        if a.kind == "def":
            for x, _ in a.a.t:
                self.collect_atom(x, out)
            return
        out[a] = True
        if a.kind == "div":
            for x, _ in a.a.t:
                self.collect_atom(x, out)
        elif a.kind == "ite":
            self.collect(a.a, out)
            for x, _ in a.b.t:
                self.collect_atom(x, out)
            for x, _ in a.c.t:
                self.collect_atom(x, out)
        elif a.kind == "mul":
            for x, _ in a.a.t:
                self.collect_atom(x, out)
            for x, _ in a.b.t:
                self.collect_atom(x, out)

    # -- path stack
    def sync(self, path):
        """path: list of B.  Keep the common prefix, pop the rest, push what is missing."""
        n = 0
        st = self.stack
        m = min(len(st), len(path))
        while n < m and st[n] is path[n]:
            n += 1
        if len(st) > n:
            self.s.pop(len(st) - n)
            del st[n:]
            del self.defs[n + 1:]
        for b in path[n:]:
            self.s.push()
            st.append(b)
            self.defs.append(set())
            self._assert(b)

    def _assert(self, b):
        need = {}
        self.collect(b, need)
        for a in need:
            self.defs[-1].add(a.id)
            for d in self.atom_def(a):
                self.s.add(d)
        self.s.add(self.zb(b))

    def check(self, path, extra, want_model=True):
        """-> ('sat', model dict) | ('unsat', None) | ('unknown', None)"""
        t0 = time.time()
        self.sync(path)
        self.s.push()
        self.defs.append(set())
        self._assert(extra)
        self.s.set("rlimit", self.rlimit)
        if not os.environ.get("NOWD"): Watchdog.start()
        Watchdog.until = t0 + 4
        r = self.s.check()
        Watchdog.until = None
        model = None
        st = self.stats
        if r == z3.sat and want_model:
            model = self.model(self.s.model())
        text = None
        if r == z3.unknown or self.cross or SLOW:
            text = list(self.s.assertions())
        self.s.pop()
        self.defs.pop()
        if r == z3.unknown:
            st.retries += 1
            r, model = self.portfolio(text)
        dt = time.time() - t0
        if SLOW and dt > SLOW:
            SLOWN[0] += 1
            with open("/tmp/slow/%d_%d_%s_%.1f.smt2" % (os.getpid(), SLOWN[0], r, dt), "w") as f:
                f.write(smt2(text))
        st.queries += 1
        st.time += dt
        st.max_time = max(st.max_time, dt)
        res = str(r)
        setattr(st, res, getattr(st, res) + 1)
        if self.cross and text is not None:
            self.cross(text, res)
        return res, model

    def portfolio(self, text):
        """other solvers, in turn, on the whole query"""
        t = smt2(text) + "(get-model)\n"
        for cmd in (["cvc5", "--tlimit=4000"], ["z3-new", "-T:6"], ["cvc5", "--tlimit=30000", "--decision=internal"], ["z3-new", "-T:60"], ["cvc5", "--tlimit=60000"]):
            res, m = external(cmd, t)
            if res in ("sat", "unsat"):
                return getattr(z3, res), m
        return z3.unknown, None

    def model(self, m):
        out = {}
        for d in m.decls():
            n = d.name()
            if n.startswith("v_"):
                out[n[2:]] = m[d].as_long()
        return out


def smt2(assertions):
    s = z3.Solver()
    s.add(assertions)
    body = s.to_smt2()
    return "(set-logic QF_NIA)\n" + body


MODEL = re.compile(r"\(define-fun v_(\S+) \(\) Int\s+(?:\(- (\d+)\)|(\d+))\s*\)")


def external(cmd, text):
    fd, p = tempfile.mkstemp(suffix=".smt2")
    try:
        with os.fdopen(fd, "w") as f:
            f.write("(set-option :produce-models true)\n" + text)
        r = subprocess.run(cmd + [p], capture_output=True, text=True)
        o = r.stdout.strip().split("\n", 1)
        if o[0] not in ("sat", "unsat"):
            return "unknown", None
        m = None
        if o[0] == "sat":
            m = {n: int(b) if b else -int(a) for n, a, b in MODEL.findall(o[1] if len(o) > 1 else "")}
        return o[0], m
    except OSError:
        return "error", None
    finally:
        os.unlink(p)
