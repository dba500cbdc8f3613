"""Symbolic executor for LLVM IR over exact integer terms.

A machine integer iN is V(N, lin): the word is  lin mod 2^N.  The unsigned / signed
reading is taken lazily (uview/sview), so wrap-around is modelled exactly."""
import random
import re
import time
from math import gcd

from . import ll
from . import term as T
from .solver import Solver


class Inconclusive(Exception):
    pass


class Unsupported(Inconclusive):
    pass


class Refork(Exception):
    """re-execute the current instruction (the state was split on a value)"""


class V:
    __slots__ = ("n", "lin", "mask")

    def __init__(self, n, lin, mask=None):
        self.n = n
        self.lin = lin
        self.mask = mask

    def __repr__(self):
        return "i%d %r" % (self.n, self.lin)


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj = obj  # object id or None for an absolute address
        self.off = off  # Lin

    def __repr__(self):
        return "ptr(%r,%r)" % (self.obj, self.off)


class Fn:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()
NULL = Ptr(None, T.ZERO)


class Obj:
    __slots__ = ("id", "size", "addr", "base", "relocs", "cells", "owner", "ro", "freed", "zero")

    def __init__(self, oid, size, addr, owner, base=None, relocs=None, ro=False, zero=False):
        self.id = oid
        self.size = size
        self.addr = addr
        self.base = base
        self.relocs = relocs
        self.cells = {}
        self.owner = owner
        self.ro = ro
        self.freed = False
        self.zero = zero

    def copy(self, owner):
        o = Obj(self.id, self.size, self.addr, owner, self.base, self.relocs, self.ro, self.zero)
        o.cells = dict(self.cells)
        o.freed = self.freed
        return o


class Frame:
    __slots__ = ("fn", "blk", "ins", "i", "env", "prev", "dst", "allocas", "rty")

    def __init__(self, fn, dst, rty):
        self.fn = fn
        self.blk = fn.entry
        self.ins = fn.blocks[fn.entry]
        self.i = 0
        self.env = {}
        self.prev = None
        self.dst = dst
        self.rty = rty
        self.allocas = []

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.blk, f.ins, f.i, f.prev, f.dst, f.rty = self.fn, self.blk, self.ins, self.i, self.prev, self.dst, self.rty
        f.env = dict(self.env)
        f.allocas = list(self.allocas)
        return f


class OrPair:
    """a | b for two arbitrary words (only its trailing zeros can be asked for)"""
    __slots__ = ("a", "b")

    def __init__(self, a, b):
        self.a, self.b = a, b


class State:
    __slots__ = ("frames", "mem", "tok", "path", "known", "bounds", "ivm", "wit", "memo", "views", "expect", "steps", "nfork", "forks", "covers", "nextaddr", "bad")

    def fork(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.tok = object()
        self.tok = object()
        s.path = list(self.path)
        s.known = dict(self.known)
        s.bounds = dict(self.bounds)
        s.ivm = {}
        s.wit = self.wit
        s.memo = self.memo
        s.views = dict(self.views)
        s.expect = self.expect
        s.steps = self.steps
        s.nfork = self.nfork
        s.covers = list(self.covers)
        s.bad = False
        s.nextaddr = self.nextaddr
        return s

    # ---- intervals under the path condition
    def iv(self, x):
        if not x.t:
            return x.c, x.c
        r = self.ivm.get(x)
        if r is not None:
            return r
        lo = hi = x.c
        for a, k in x.t:
            l, h = self.iva(a)
            if k > 0:
                lo += k * l
                hi += k * h
            else:
                lo += k * h
                hi += k * l
        kt, g = T.key(x)
        b = self.bounds.get(kt)
        if b is not None:
            if g > 0:
                l, h = g * b[0] + x.c, g * b[1] + x.c
            else:
                l, h = g * b[1] + x.c, g * b[0] + x.c
            if l > lo:
                lo = l
            if h < hi:
                hi = h
        r = (lo, hi)
        self.ivm[x] = r
        return r

    def iva(self, a):
        r = self.ivm.get(a)
        if r is not None:
            return r
        lo, hi = a.lo, a.hi
        if a.kind == "def":
            l, h = self.iv(a.a)
            lo = max(lo, l)
            hi = min(hi, h)
        elif a.kind == "div":
            l, h = self.iv(a.a)
            lo = max(lo, l // a.b)
            hi = min(hi, h // a.b)
        elif a.kind == "ite":
            c = self.decide(a.a)
            if c is True:
                l, h = self.iv(a.b)
            elif c is False:
                l, h = self.iv(a.c)
            else:
                l1, h1 = T._guard(a.a, True, a.b, *self.iv(a.b))
                l2, h2 = T._guard(a.a, False, a.c, *self.iv(a.c))
                l, h = min(l1, l2), max(h1, h2)
            lo = max(lo, l)
            hi = min(hi, h)
        elif a.kind == "mul":
            l1, h1 = self.iv(a.a)
            l2, h2 = self.iv(a.b)
            ps = (l1 * l2, l1 * h2, h1 * l2, h1 * h2)
            lo = max(lo, min(ps))
            hi = min(hi, max(ps))
        b = self.bounds.get(((a, 1),))
        if b is not None:
            lo = max(lo, b[0])
            hi = min(hi, b[1])
        self.ivm[a] = (lo, hi)
        return lo, hi

    def decide(self, b):
        k = b.k
        if k == "T":
            return True
        if k == "F":
            return False
        r = self.known.get(b)
        if r is not None:
            return r
        if k == "le":
            lo, hi = self.iv(b.a)
            if hi <= 0:
                return True
            if lo > 0:
                return False
            return None
        if k == "eq":
            lo, hi = self.iv(b.a)
            if lo > 0 or hi < 0:
                return False
            if lo == 0 and hi == 0:
                return True
            return None
        if k == "not":
            r = self.decide(b.a)
            return None if r is None else not r
        if k == "and":
            allt = True
            for x in b.a:
                r = self.decide(x)
                if r is False:
                    return False
                if r is None:
                    allt = False
            return True if allt else None
        allf = True
        for x in b.a:
            r = self.decide(x)
            if r is True:
                return True
            if r is None:
                allf = False
        return False if allf else None

    def learn(self, b):
        """b holds on this path"""
        self.known[b] = True
        self.known[T.bnot(b)] = False
        self._learn(b)
        self.ivm = {}

    def _learn(self, b):
        k = b.k
        if k == "and":
            for x in b.a:
                self.known[x] = True
                self.known[T.bnot(x)] = False
                self._learn(x)
        elif k == "or":
            rest = [x for x in b.a if self.decide(x) is not False]
            if len(rest) == 1:
                self.known[rest[0]] = True
                self.known[T.bnot(rest[0])] = False
                self._learn(rest[0])
            else:
                self._hull(rest)
        elif k in ("le", "eq"):
            x = b.a
            if not x.t:
                return
            kt, g = T.key(x)
            lo, hi = None, None
            if k == "eq":
                if x.c % g == 0:
                    lo = hi = -x.c // g
            elif g > 0:
                hi = (-x.c) // g
            else:
                lo = -((-x.c) // (-g))
            self._bound(kt, lo, hi, 6)

    def _bound(self, kt, lo, hi, depth):
        """lo <= kt <= hi, with what follows for the parts"""
        o = self.bounds.get(kt)
        if o is None:
            o = (-(1 << 300), 1 << 300)
        nlo = o[0] if lo is None else max(o[0], lo)
        nhi = o[1] if hi is None else min(o[1], hi)
        if (nlo, nhi) == o:
            return
        lo, hi = nlo, nhi
        self.bounds[kt] = (lo, hi)
        self.ivm = {}
        if depth == 0:
            return
        if len(kt) > 1:
            for a, c in kt:
                l2, h2 = 0, 0
                for a2, c2 in kt:
                    if a2 is not a:
                        l, h = self.iva(a2)
                        if c2 > 0:
                            l2 += c2 * l
                            h2 += c2 * h
                        else:
                            l2 += c2 * h
                            h2 += c2 * l
                # lo <= c*a + rest <= hi
                nl, nh = lo - h2, hi - l2
                if c > 0:
                    nl, nh = -((-nl) // c), nh // c
                else:
                    nl, nh = -(nh // (-c)), (-nl) // (-c)
                cl, ch = self.iva(a)
                if nl > cl or nh < ch:
                    self._bound(((a, 1),), max(nl, cl), min(nh, ch), depth - 1)
        else:
            a = kt[0][0]
            if a.kind == "div":
                self._part(a.a, a.b * lo, a.b * hi + a.b - 1, depth - 1)
            elif a.kind == "def":
                self._part(a.a, lo, hi, depth - 1)

    def _part(self, x, lo, hi, depth):
        """lo <= x <= hi"""
        if not x.t:
            return
        kt, g = T.key(x)
        lo, hi = lo - x.c, hi - x.c
        if g > 0:
            self._bound(kt, -((-lo) // g), hi // g, depth)
        else:
            self._bound(kt, -(hi // (-g)), (-lo) // (-g), depth)

    def _hull(self, rest):
        """bounds that every alternative implies"""
        alt = []
        for x in rest:
            d = {}
            for y in (x.a if x.k == "and" else (x,)):
                if y.k == "or":
                    continue
                if y.k not in ("le", "eq") or not y.a.t:
                    continue
                kt, g = T.key(y.a)
                lo, hi = d.get(kt, (None, None))
                c = y.a.c
                if y.k == "eq":
                    if c % g:
                        continue
                    l = h = -c // g
                elif g > 0:
                    l, h = None, (-c) // g
                else:
                    l, h = -((-c) // (-g)), None
                if l is not None and (lo is None or l > lo):
                    lo = l
                if h is not None and (hi is None or h < hi):
                    hi = h
                d[kt] = (lo, hi)
            alt.append(d)
        for kt in alt[0]:
            if all(kt in d for d in alt):
                x = T.Lin(0, kt)
                if all(d[kt][0] is not None for d in alt):
                    self._learn(T.B("le", T.addc(T.scale(x, -1), min(d[kt][0] for d in alt))))
                if all(d[kt][1] is not None for d in alt):
                    self._learn(T.B("le", T.addc(x, -max(d[kt][1] for d in alt))))


PANIC_NAME = re.compile(r"9panicking|13expect_failed|13unwrap_failed|12handle_error|18handle_alloc_error|begin_panic|capacity_overflow|5slice5index|process5abort|panic_")


class Engine:
    def __init__(self, mod, noreturn, cfg):
        self.mod = mod
        self.noreturn = noreturn
        self.cfg = cfg
        self.solver = Solver(cfg.get("rlimit", 1_500_000), cfg.get("retry_rlimit", 200_000_000), cfg.get("cross"))
        self.deadline = cfg.get("deadline")
        self.gobj = {}
        self.gmem = {}
        self.fnaddr = {}
        self.violations = []
        self.covers = {}
        self.cover_count = {}
        self.paths = 0
        self.killed = 0
        self.panics_expected = 0
        self.asserts = 0
        self.asserts_trivial = 0
        self.branches = 0
        self.forks = 0
        self.steps = 0
        self.funcs_seen = {}
        self.work = []
        self.fresh = 0
        self.oid = 0
        self.diamonds = {}
        self.fork_select = cfg.get("fork_select", True)
        self.max_steps = cfg.get("max_steps", 400_000)
        self.intercepts = cfg.get("intercepts", [])
        self.icache = {}
        self.concrete = cfg.get("concrete")
        self.trace_panic = None
        self.samples = []
        self.rnd = random.Random(cfg.get("seed", 1))

    # ------------------------------------------------------------ objects
    def new_obj(self, st, size, **kw):
        self.oid += 1
        oid = "o%d" % self.oid
        addr = st.nextaddr
        st.nextaddr += (size + 64) // 16 * 16 + 16
        st.mem[oid] = Obj(oid, size, addr, st.tok, **kw)
        return oid

    def gptr(self, name):
        o = self.gobj.get(name)
        if o is None:
            if name in self.mod.funcs or name in self.mod.decls:
                # functions: opaque addresses
                self.oid += 1
                o = "f:" + name
                self.gobj[name] = o
                self.gmem[o] = Obj(o, 1, 0x10000 + 16 * len(self.gobj), None, ro=True)
                return o
            g = self.mod.globals.get(name)
            if g is None or g.ty is None or g.init is None:
                raise Unsupported("external global @" + name)
            o = "g:" + name
            self.gobj[name] = o
            size = ll.alloc_size(g.ty)
            ob = Obj(o, size, 0x1000000 + sum(x.size + 32 for x in self.gmem.values()) // 16 * 16, None, ro=g.const)
            self.gmem[o] = ob
            buf = bytearray(size)
            rel = {}
            und = set()
            self.flatten(g.ty, g.init, 0, buf, rel)
            ob.base = bytes(buf)
            ob.relocs = rel
        return o

    def flatten(self, ty, v, off, buf, rel):
        k = v[0]
        if k == "zero" or k == "null" or k == "undef":
            return
        if k == "bytes":
            buf[off:off + len(v[1])] = v[1]
        elif k == "i":
            n = (ty.n + 7) // 8
            buf[off:off + n] = (v[1] % (1 << (8 * n))).to_bytes(n, "little")
        elif k == "agg":
            o = off
            if ty.k == "arr":
                for t, x in v[1]:
                    self.flatten(t, x, o, buf, rel)
                    o += ll.alloc_size(t)
            else:
                for (t, x), fo in zip(v[1], ty.offs):
                    self.flatten(t, x, off + fo, buf, rel)
        elif k == "g":
            rel[off] = v
        elif k == "ip":
            buf[off:off + 8] = (v[1] % (1 << 64)).to_bytes(8, "little")
        else:
            raise Unsupported("global initializer %r" % (v,))

    def obj(self, st, oid):
        o = st.mem.get(oid)
        if o is None:
            o = self.gmem.get(oid)
        if o is None:
            raise Inconclusive("dangling object %s" % oid)
        return o

    def wobj(self, st, oid):
        o = self.obj(st, oid)
        if o.owner is not st.tok:
            o = o.copy(st.tok)
            st.mem[oid] = o
        return o

    # ------------------------------------------------------------ solver glue
    def feasible(self, st, b):
        """is path & b satisfiable -> (bool, model or None)"""
        r, m = self.solver.check(st.path, b)
        if r == "sat":
            env = dict(st.wit) if st.wit else {}
            env.update(m)
            memo = {}
            # our own evaluator must agree with the solver about the whole path
            if not T.evb(b, env, memo) or not all(T.evb(x, env, memo) for x in st.path):
                raise Inconclusive("solver model does not satisfy the path condition (encoding error)")
            return True, (env, memo)
        if r == "unsat":
            return False, None
        return None, None

    def assume(self, st, b):
        """add b to the path; False if the path dies"""
        d = st.decide(b)
        if d is True:
            return True
        if d is False:
            return False
        if st.wit is None or not T.evb(b, st.wit, st.memo):
            ok, m = self.feasible(st, b)
            if ok is False:
                return False
            if ok is None:
                st.wit = None
            else:
                st.wit, st.memo = m
        st.path.append(b)
        st.learn(b)
        return True

    def literal(self, st, b):
        while b.k in ("and", "or", "not"):
            if b.k == "not":
                b = b.a
                continue
            b = next(x for x in b.a if st.decide(x) is None)
        return b

    def branch(self, st, b):
        """decide b on this path, forking when both outcomes are feasible.
        Returns True/False for the current state; the sibling is queued and will
        RE-EXECUTE the current instruction with the outcome known."""
        d = st.decide(b)
        if d is not None:
            return d
        if b.k in ("and", "or") and not self.cfg.get("noliteral"):
            # decide it literal by literal: paths stay conjunctions
            while d is None:
                self.branch(st, self.literal(st, b))
                d = st.decide(b)
            return d
        self.branches += 1
        if st.wit is None:
            t, mt = self.feasible(st, b)
            f, mf = self.feasible(st, T.bnot(b))
            if t is False and f is False:
                raise PathDead()
            if t is False:
                st.learn(T.bnot(b))
                if mf:
                    st.wit, st.memo = mf
                return False
            if f is False:
                st.learn(b)
                if mt:
                    st.wit, st.memo = mt
                return True
            side = True
            other = mf
            if mt:
                st.wit, st.memo = mt
        else:
            side = T.evb(b, st.wit, st.memo)
            ok, other = self.feasible(st, T.bnot(b) if side else b)
            if ok is False:
                st.learn(b if side else T.bnot(b))
                return side
        nb = T.bnot(b)
        s2 = st.fork()
        self.forks += 1
        ob = nb if side else b
        s2.path.append(ob)
        s2.learn(ob)
        if other:
            s2.wit, s2.memo = other
        else:
            s2.wit = None
        self.work.append(s2)
        cb = b if side else nb
        st.path.append(cb)
        st.learn(cb)
        return side

    def concretize(self, st, lin):
        """fix lin to one value on this path (other values are queued)"""
        lo, hi = st.iv(lin)
        while lo != hi:
            if st.wit is None:
                v = lo
            else:
                v = T.ev(lin, st.wit, st.memo)
            if self.branch(st, T.eq0(T.addc(lin, -v))):
                return v
            lo, hi = st.iv(lin)
        return lo

    # ------------------------------------------------------------ tightening
    def tighten(self, st, r, m, half=0):
        """try to show that floor((r+half)/m) has one value on this path; learns the bounds"""
        lo, hi = st.iv(r)
        if (lo + half) // m == (hi + half) // m:
            return
        key = ("tight", r, m, half)
        if any(a.kind == "def" for a, _ in r.t):
            return
        if key in st.views or st.wit is None:
            return
        st.views[key] = True
        w = (T.ev(r, st.wit, st.memo) + half) // m
        inside = T.band(T.le0(T.addc(T.scale(r, -1), w * m - half)), T.le0(T.addc(r, -(w * m - half + m - 1))))
        ok, _ = self.feasible(st, T.bnot(inside))
        if ok is False:
            st.learn(inside)

    def plain(self, st, x, m):
        """x without packed names, where they hide what x is modulo m"""
        if m & (m - 1):
            return T.expand(x)
        lo, hi = st.iv(x)
        if lo // m == hi // m:
            return x
        return self.resolve(st, T.expand(x))

    def tdiv(self, st, x, m):
        x = self.plain(st, self.resolve(st, x), m)
        if m > 1 and x.t:
            t = tuple((a, T._symmod(k, m)) for a, k in x.t if k % m)
            if t:
                self.tighten(st, T.Lin(x.c % m, t), m)
        return T.unpack(T.mk_div(x, m, st.iv))

    def sdiv2(self, st, x, m):
        """tdiv, with a case split when only two quotients are possible"""
        q = self.tdiv(st, x, m)
        for a, k in q.t:
            if a.kind == "div":
                l, h = st.iva(a)
                if h - l == 1 and m > self.cfg.get("split_above", 160):
                    self.concretize(st, T.of_atom(a))
        return self.resolve(st, q)

    def tmod(self, st, x, m):
        x = self.plain(st, self.resolve(st, x), m)
        if m > 1 and x.t:
            t = tuple((a, T._symmod(k, m)) for a, k in x.t if k % m)
            if t:
                self.tighten(st, T.Lin(x.c % m, t), m)
        r = T.unpack(T.mk_mod(x, m, st.iv))
        self.inrange(st, r, 0, m - 1)
        return r

    def inrange(self, st, r, lo, hi):
        """remember that lo <= r <= hi (a fact that needs no proof)"""
        if r.t:
            l, h = st.iv(r)
            if l < lo or h > hi:
                st.learn(T.band(T.le0(T.addc(T.scale(r, -1), lo)), T.le0(T.addc(r, -hi))))

    # ------------------------------------------------------------ views
    def resolve(self, st, x):
        """simplify x with what is known on this path: decided choices, atoms with one value"""
        if not x.t:
            return x
        key = ("r", x)
        r = st.ivm.get(key)
        if r is None:
            r = self._resolve(st, x)
            st.ivm[key] = r
        return r

    def _resolve(self, st, x):
        out = None
        for a, k in x.t:
            l, h = st.iva(a)
            if l == h:
                y = T.const(l * k)
            elif a.kind == "ite":
                d = st.decide(a.a)
                if d is None:
                    continue
                y = T.scale(a.b if d else a.c, k)
            elif a.kind == "def":
                y = self.resolve(st, a.a)
                if y == a.a:
                    continue
                y = T.scale(T.pack(y), k)
            elif a.kind == "div":
                y = self.resolve(st, a.a)
                if y == a.a:
                    continue
                y = T.mk_div(y, a.b, st.iv)
                if y.t == ((a, 1),):
                    continue
                y = T.scale(y, k)
            else:
                continue
            if out is None:
                out = x
            out = T.add(T.sub(out, T.Lin(0, ((a, k),))), y)
        if out is None or out == x:
            return x
        return self.resolve(st, T.coalesce(out))

    def uview(self, st, v):
        return self.view(st, v.lin, v.n, 0)

    def sview(self, st, v):
        return self.view(st, v.lin, v.n, 1 << (v.n - 1))

    def view(self, st, lin, n, half):
        M = 1 << n
        lin = self.resolve(st, lin)
        if not lin.t:
            return T.const((lin.c + half) % M - half)
        lo, hi = st.iv(lin)
        w = (lo + half) // M
        if w == (hi + half) // M:
            return lin if w == 0 else T.addc(lin, -w * M)
        r = T.lift(lin, lambda v: (v + half) % M - half)
        if r is not None:
            return r
        key = (lin, n, half)
        r = st.views.get(key)
        if r is not None:
            return r
        # reduce coefficients that are multiples of 2^n
        if any(k % M == 0 for _, k in lin.t):
            l2 = T.Lin(lin.c, tuple((a, k) for a, k in lin.t if k % M))
            if not l2.t:
                l2 = T.const(l2.c)
            return self.view(st, l2, n, half)
        self.tighten(st, lin, M, half)
        lo, hi = st.iv(lin)
        w = (lo + half) // M
        if w == (hi + half) // M:
            return lin if w == 0 else T.addc(lin, -w * M)
        q = T.mk_div(T.addc(lin, half), M, st.iv)
        r = T.sub(lin, T.scale(q, M))
        st.views[key] = r
        self.inrange(st, r, -half, M - half - 1)
        return r

    def windows(self, st, lin, n, half):
        """[(guard, reading)] covering all cases, small"""
        M = 1 << n
        lin = self.resolve(st, lin)
        r = T.lift(lin, lambda v: (v + half) % M - half)
        if r is not None:
            return [(T.TRUE, r)]
        if lin.t:
            self.tighten(st, lin, M, half)
        lo, hi = st.iv(lin)
        w0, w1 = (lo + half) // M, (hi + half) // M
        if w1 - w0 > 3:
            return None
        out = []
        for w in range(w0, w1 + 1):
            g = T.band(T.le0(T.addc(T.scale(lin, -1), w * M - half)), T.le0(T.addc(lin, -(w * M - half + M - 1))))
            if st.decide(g) is False:
                continue
            out.append((g if w0 != w1 else T.TRUE, T.addc(lin, -w * M)))
        return out

    def simp(self, st, b):
        d = st.decide(b)
        if d is not None:
            return T.bconst(d)
        if b.k in ("le", "eq"):
            x = T.expand(b.a)
            if x is not b.a:
                return self.simp(st, T.le0(x) if b.k == "le" else T.eq0(x))
        if b.k == "eq" and len(b.a.t) >= 6:
            return self.digits(st, b)
        return b

    def digits(self, st, b):
        """sum of digits in a mixed radix == 0  ->  each group of digits == 0"""
        t = sorted(b.a.t, key=lambda p: -abs(p[1]))
        if abs(t[0][1]) < 1 << 20:
            return b
        g = 0
        for i in range(len(t) - 1):
            g = gcd(g, t[i][1])
            if g <= abs(t[i + 1][1]):
                continue
            # high = g * h, |low| < g  =>  low == 0
            low = T.const(0)
            for a, k in t[i + 1:]:
                low = T.add(low, T.scale(T.of_atom(a), k))
            c = b.a.c % g
            for c in (c, c - g):
                lo, hi = st.iv(low)
                if -g < lo + c and hi + c < g:
                    break
            else:
                continue
            low = T.addc(low, c)
            high = T.sub(b.a, low)
            return T.band(self.simp(st, T.eq0(high)), self.simp(st, T.eq0(low)))
        return b

    def icmp(self, st, pred, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.icmp_ptr(st, pred, a, b)
        if isinstance(a, T.B) or isinstance(b, T.B):
            if pred == "eq":
                return T.biff(a, b)
            if pred == "ne":
                return T.bnot(T.biff(a, b))
            a = V(1, T.bool2lin(a))
            b = V(1, T.bool2lin(b))
            if pred[0] == "s":
                raise Unsupported("signed i1 compare")
        n = a.n
        M = 1 << n
        if pred in ("eq", "ne"):
            d = self.resolve(st, T.sub(a.lin, b.lin))
            lo, hi = st.iv(d)
            if -M < lo and hi < M:
                r = T.eq0(d)
            else:
                # equality modulo 2^n: few multiples, else views
                k0, k1 = -((-lo) // M), hi // M
                if k1 - k0 <= 4:
                    r = T.bor(*[T.eq0(T.addc(d, -k * M)) for k in range(k0, k1 + 1)])
                else:
                    r = T.eq(self.uview(st, a), self.uview(st, b))
            r = self.simp(st, r)
            return r if pred == "eq" else T.bnot(r)
        half = (1 << (n - 1)) if pred[0] == "s" else 0
        wa = self.windows(st, a.lin, n, half)
        wb = self.windows(st, b.lin, n, half)
        if wa is None or (wb is not None and len(wa) * len(wb) > 4):
            wa = [(T.TRUE, self.view(st, a.lin, n, half))]
        if wb is None or len(wa) * len(wb) > 4:
            wb = [(T.TRUE, self.view(st, b.lin, n, half))]
        rs = []
        for ga, x in wa:
            for gb, y in wb:
                p = pred[1:]
                if p == "lt":
                    c = T.lt(x, y)
                elif p == "le":
                    c = T.le(x, y)
                elif p == "gt":
                    c = T.lt(y, x)
                else:
                    c = T.le(y, x)
                rs.append(T.band(self.simp(st, ga), self.simp(st, gb), self.simp(st, c)))
        return self.simp(st, T.bor(*rs))

    def paddr(self, st, p):
        if p.obj is None:
            return p.off
        return T.addc(p.off, self.obj(st, p.obj).addr)

    def to_ptr(self, st, v):
        if isinstance(v, Ptr):
            return v
        if v is UNDEF:
            return NULL
        u = self.uview(st, v)
        if not u.t and u.c >= 0x10000:
            for o in list(st.mem.values()) + list(self.gmem.values()):
                if o.addr <= u.c <= o.addr + o.size:
                    return Ptr(o.id, T.const(u.c - o.addr))
        return Ptr(None, u)

    def icmp_ptr(self, st, pred, a, b):
        a = self.to_ptr(st, a)
        b = self.to_ptr(st, b)
        if a.obj == b.obj:
            x, y = a.off, b.off
        else:
            x, y = self.paddr(st, a), self.paddr(st, b)
        if pred == "eq":
            return self.simp(st, T.eq(x, y))
        if pred == "ne":
            return T.bnot(self.simp(st, T.eq(x, y)))
        p = pred[1:]
        r = {"lt": lambda: T.lt(x, y), "le": lambda: T.le(x, y), "gt": lambda: T.lt(y, x), "ge": lambda: T.le(y, x)}[p]()
        return self.simp(st, r)

    # ------------------------------------------------------------ bit operations
    def kmask(self, st, v):
        m = v.mask
        if m is None:
            lo, hi = st.iv(v.lin)
            if lo >= 0 and hi < (1 << v.n):
                m = (1 << hi.bit_length()) - 1
                if v.lin.t:
                    # common power of two of everything
                    z = 0
                    vals = [k for _, k in v.lin.t] + ([v.lin.c] if v.lin.c else [])
                    while all(k % (1 << (z + 1)) == 0 for k in vals) and z < 128:
                        z += 1
                    m &= ~((1 << z) - 1)
                else:
                    m = v.lin.c
            else:
                m = (1 << v.n) - 1
        return m

    def and_const(self, st, v, c):
        n = v.n
        c &= (1 << n) - 1
        km = self.kmask(st, v)
        full = (1 << n) - 1
        if km & ~c & full == 0:
            return V(n, self.uview(st, v), km)
        c &= km
        if c == 0:
            return V(n, T.ZERO, 0)
        # runs of ones
        out = T.ZERO
        b = 0
        while c >> b:
            if not (c >> b) & 1:
                b += 1
                continue
            e = b
            while (c >> e) & 1:
                e += 1
            # widen the run over bits known to be zero in v (keeps terms simple)
            lin = v.lin if e <= n else None
            x = self.tmod(st, lin, 1 << e) if e < n else self.uview(st, v)
            if b:
                x = T.scale(self.tdiv(st, x, 1 << b), 1 << b)
            out = T.add(out, x)
            b = e
        return V(n, out, c)

    def field(self, st, v):
        u = self.uview(st, v)
        if self.separable(st, u):
            return u
        return T.pack(u)

    def separable(self, st, u):
        """is u visibly a word put together from fields in disjoint bit ranges"""
        if u.c < 0:
            return False
        top = 0
        c = u.c
        for k, a in sorted(((k, a) for a, k in u.t), key=lambda x: x[0]):
            if k <= 0 or k & (k - 1) or top >= k:
                return False
            l, h = st.iva(a)
            if l < 0:
                return False
            top += c % k
            c -= c % k
            if top >= k:
                return False
            # constant bits within this field's own range would overlap
            w = k << max(h, 0).bit_length()
            if c % w:
                return False
            top += k * h
        return True

    def bitop(self, st, op, a, b, n):
        if isinstance(a, T.B) or isinstance(b, T.B):
            if not isinstance(a, T.B):
                a = self.to_bool(st, a)
            if not isinstance(b, T.B):
                b = self.to_bool(st, b)
            if op == "and":
                return T.band(a, b)
            if op == "or":
                return T.bor(a, b)
            return T.bnot(T.biff(a, b))
        full = (1 << n) - 1
        if not a.lin.t and b.lin.t:
            a, b = b, a
        ca = a.lin.c & full if not a.lin.t else None
        cb = b.lin.c & full if not b.lin.t else None
        if ca is not None and cb is not None:
            r = ca & cb if op == "and" else ca | cb if op == "or" else ca ^ cb
            return V(n, T.const(r), r)
        if op == "and" and cb is not None:
            return self.and_const(st, a, cb)
        if cb == 0:
            return a
        if op == "xor" and cb == full:
            return V(n, T.addc(T.scale(a.lin, -1), -1))
        ma, mb = self.kmask(st, a), self.kmask(st, b)
        if ma & mb == 0:
            if op == "and":
                return V(n, T.ZERO, 0)
            return V(n, T.unpack(T.coalesce(T.add(self.field(st, a), self.field(st, b)))), ma | mb)
        if cb is not None:
            t = self.and_const(st, a, cb)
            ua = self.uview(st, a)
            if op == "or":
                return V(n, T.addc(T.sub(ua, t.lin), cb), ma | cb)
            return V(n, T.addc(T.sub(ua, T.scale(t.lin, 2)), cb), ma | cb)
        if a.lin == b.lin:
            return a if op != "xor" else V(n, T.ZERO, 0)
        # sign-mask idiom: b is 0 or -1 everywhere
        for x, y in ((a, b), (b, a)):
            lo, hi = st.iv(y.lin)
            if lo >= -1 and hi <= 0:
                c = T.le0(T.addc(y.lin, 1))  # y == -1
                if op == "and":
                    return V(n, T.ite(c, self.uview(st, x), T.ZERO))
                if op == "or":
                    return V(n, T.ite(c, T.const(full), self.uview(st, x)))
                return V(n, T.ite(c, T.addc(T.scale(x.lin, -1), -1), x.lin))
        # bit by bit when only a few bits are in play
        common = ma & mb
        if bin(common).count("1") <= 8:
            ca_, cb_ = self.and_const(st, a, common), self.and_const(st, b, common)
            s = T.ZERO
            i = 0
            while common >> i:
                if (common >> i) & 1:
                    x = T.mk_mod(T.mk_div(ca_.lin, 1 << i, st.iv), 2, st.iv)
                    y = T.mk_mod(T.mk_div(cb_.lin, 1 << i, st.iv), 2, st.iv)
                    s = T.add(s, T.scale(T.bool2lin(T.band(T.le0(T.addc(T.scale(x, -1), 1)), T.le0(T.addc(T.scale(y, -1), 1)))), 1 << i))
                i += 1
            if op == "and":
                return V(n, s, common)
            both = T.add(self.uview(st, a), self.uview(st, b))
            return V(n, T.sub(both, s if op == "or" else T.scale(s, 2)), ma | mb)
        if op == "or":
            return OrPair(a, b)
        raise Unsupported("%s of two symbolic words" % op)

    def to_bool(self, st, v):
        if isinstance(v, T.B):
            return v
        if v is UNDEF:
            return self.freshbool(st)
        u = self.tmod(st, v.lin, 2)
        return self.simp(st, T.le0(T.addc(T.scale(u, -1), 1)))

    def freshvar(self, st, lo, hi, tag="u"):
        self.fresh += 1
        return T.var("$%s%d_%d" % (tag, st.nfork, self.fresh), lo, hi)

    def freshbool(self, st):
        return T.le0(T.addc(T.scale(self.freshvar(st, 0, 1), -1), 1))

    def asV(self, st, v, n):
        if isinstance(v, V):
            return v
        if isinstance(v, T.B):
            return V(n, T.bool2lin(v))
        if v is UNDEF:
            return V(n, self.freshvar(st, 0, (1 << n) - 1))
        if isinstance(v, Ptr):
            return V(64, self.paddr(st, v))
        raise Unsupported("integer expected, got %r" % (v,))

    def shift(self, st, op, a, b, n):
        if b.lin.t:
            k = self.concretize(st, self.uview(st, b))
        else:
            k = b.lin.c % (1 << n)
        if k >= n:
            return V(n, self.freshvar(st, 0, (1 << n) - 1))
        if k == 0:
            return a
        if op == "shl":
            m = None
            if a.mask is not None or a.lin.t:
                km = self.kmask(st, a)
                m = (km << k) & ((1 << n) - 1)
                if (km << k) >> n == 0:
                    return V(n, T.scale(self.field(st, a), 1 << k), m)
            return V(n, T.scale(a.lin, 1 << k), m)
        if op == "lshr":
            u = self.uview(st, a)
            return V(n, self.tdiv(st, u, 1 << k), self.kmask(st, a) >> k)
        s = self.sview(st, a)
        return V(n, self.tdiv(st, s, 1 << k))

    def divop(self, st, op, a, b, n):
        signed = op[0] == "s"
        x = self.sview(st, a) if signed else self.uview(st, a)
        y = self.sview(st, b) if signed else self.uview(st, b)
        x = self.resolve(st, x)
        y = self.resolve(st, y)
        if y.t:
            lo, hi = st.iv(y)
            if hi == lo:
                y = T.const(lo)
        if y.t:
            if self.cfg.get("split_div", True) and hi - lo <= self.cfg.get("split_div_max", 1 << 12):
                y = T.const(self.concretize(st, y))
            else:
                return self.div_sym(st, op, x, y, n)
        if y.c == 0:
            raise PathDead()  # guarded by a panic branch in Rust code
        c = y.c
        if not x.t:
            q = abs(x.c) // abs(c)
            if (x.c < 0) != (c < 0):
                q = -q
            return V(n, T.const(q if op.endswith("div") else x.c - q * c))
        if not signed:
            q = self.sdiv2(st, x, c)
            r = T.sub(x, T.scale(q, c))
            self.inrange(st, r, 0, c - 1)
            return V(n, q if op == "udiv" else r)
        neg = self.branch(st, T.lt(x, T.ZERO))
        ac = abs(c)
        ax = T.scale(x, -1) if neg else x
        q = self.sdiv2(st, ax, ac)
        self.inrange(st, T.sub(ax, T.scale(q, ac)), 0, ac - 1)
        if neg:
            q = T.scale(q, -1)
        if c < 0:
            q = T.scale(q, -1)
        return V(n, q if op == "sdiv" else T.sub(x, T.scale(q, c)))

    def div_sym(self, st, op, x, y, n):
        """division by a symbolic divisor: fresh q, r with x = q*y + r (non-linear)"""
        key = ("symdiv", x, y, op[0])
        got = st.views.get(key)
        if got is None:
            xn = self.branch(st, T.lt(x, T.ZERO)) if op[0] == "s" else False
            yn = self.branch(st, T.lt(y, T.ZERO)) if op[0] == "s" else False
            if self.branch(st, T.eq0(y)):
                raise PathDead()
            ax = T.scale(x, -1) if xn else x
            ay = T.scale(y, -1) if yn else y
            hi = st.iv(ax)[1]
            hy = st.iv(ay)[1]
            q = self.freshvar(st, 0, max(hi, 0), "q")
            r = self.freshvar(st, 0, max(hy - 1, 0), "r")
            if st.wit is not None:
                st.wit = dict(st.wit)
                vx, vy = T.ev(ax, st.wit, st.memo), T.ev(ay, st.wit, st.memo)
                st.wit[q.t[0][0].name] = vx // vy
                st.wit[r.t[0][0].name] = vx % vy
                st.memo = {}
            for c in (T.eq(ax, T.add(T.mk_mul(q, ay), r)), T.lt(r, ay)):
                st.path.append(c)
                st.learn(c)
            if xn != yn:
                q = T.scale(q, -1)
            if xn:
                r = T.scale(r, -1)
            got = (q, r)
            st.views[key] = got
        return V(n, got[0] if op.endswith("div") else got[1])

    # ------------------------------------------------------------ memory
    def addr(self, st, p, size, what):
        p = self.to_ptr(st, p)
        if p.obj is None:
            raise Inconclusive("%s through an invalid pointer %r" % (what, p))
        off = p.off
        if off.t:
            off = T.const(self.concretize(st, off))
        o = self.obj(st, p.obj)
        if off.c < 0 or off.c + size > o.size:
            raise Inconclusive("out-of-bounds %s: offset %d size %d of %d" % (what, off.c, size, o.size))
        if o.freed:
            raise Inconclusive("use after free")
        return o, off.c

    def write(self, st, p, size, val):
        o, off = self.addr(st, p, size, "store")
        if o.ro and o.owner is None and o.id.startswith("g:"):
            raise Inconclusive("store to a constant")
        o = self.wobj(st, o.id)
        self.put(st, o, off, size, val)

    def put(self, st, o, off, size, val):
        cells = o.cells
        for s in range(off - 16, off + size):
            c = cells.get(s)
            if c is None:
                continue
            cs, cv = c
            if s == off and cs == size:
                break
            if s + cs <= off:
                continue
            del cells[s]
            if s < off:
                cells[s] = (off - s, self.slice(st, cv, cs, 0, off - s))
            if s + cs > off + size:
                cells[off + size] = (s + cs - off - size, self.slice(st, cv, cs, off + size - s, s + cs - off - size))
        cells[off] = (size, val)

    def slice(self, st, v, size, o, n):
        if v is UNDEF:
            return UNDEF
        v = self.asV(st, v, 8 * size)
        u = self.tmod(st, v.lin, 1 << (8 * (o + n))) if o + n < size else self.uview(st, v)
        return V(8 * n, self.tdiv(st, u, 1 << (8 * o)), (self.kmask(st, v) >> (8 * o)) & ((1 << (8 * n)) - 1))

    def base_byte(self, o, b):
        if o.base is not None:
            return V(8, T.const(o.base[b]))
        if o.zero:
            return V(8, T.ZERO)
        return UNDEF

    def pieces(self, st, o, off, size):
        """[(rel, n, val)] covering [off, off+size)"""
        out = []
        cells = o.cells
        b = off
        end = off + size
        while b < end:
            c = cells.get(b)
            if c is not None:
                n = min(c[0], end - b)
                out.append((b - off, n, c[1] if n == c[0] else self.slice(st, c[1], c[0], 0, n)))
                b += n
                continue
            for s in range(b - 1, b - 17, -1):
                c = cells.get(s)
                if c is not None:
                    break
            if c is not None and s + c[0] > b:
                n = min(s + c[0], end) - b
                out.append((b - off, n, self.slice(st, c[1], c[0], b - s, n)))
                b += n
                continue
            if o.relocs and b in o.relocs and end - b >= 8:
                g = o.relocs[b]
                out.append((b - off, 8, Ptr(self.gptr(g[1]), T.const(g[2]))))
                b += 8
                continue
            out.append((b - off, 1, self.base_byte(o, b)))
            b += 1
        return out

    def read(self, st, p, size):
        o, off = self.addr(st, p, size, "load")
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return c[1]
        ps = self.pieces(st, o, off, size)
        if len(ps) == 1:
            return ps[0][2]
        if all(v is UNDEF for _, _, v in ps):
            return UNDEF
        lin = T.ZERO
        mask = 0
        for rel, n, v in ps:
            v = self.asV(st, v, 8 * n)
            lin = T.add(lin, T.scale(self.field(st, v), 1 << (8 * rel)))
            mask |= self.kmask(st, v) << (8 * rel)
        return V(8 * size, T.unpack(T.coalesce(lin)), mask)

    def load(self, st, ty, p):
        if ty.k == "i":
            v = self.read(st, p, ty.size)
            if v is UNDEF:
                return UNDEF
            if ty.n == 1:
                return self.to_bool(st, self.asV(st, v, 8))
            v = self.asV(st, v, ty.n)
            if v.n != ty.n:
                v = V(ty.n, v.lin, None if v.mask is None else v.mask & ((1 << ty.n) - 1))
            return v
        if ty.k == "ptr":
            v = self.read(st, p, 8)
            return self.to_ptr(st, v)
        if ty.k == "st":
            p = self.to_ptr(st, p)
            return [self.load(st, e, Ptr(p.obj, T.addc(p.off, o))) for e, o in zip(ty.e, ty.offs)]
        if ty.k == "arr":
            p = self.to_ptr(st, p)
            return [self.load(st, ty.e, Ptr(p.obj, T.addc(p.off, i * ll.alloc_size(ty.e)))) for i in range(ty.n)]
        raise Unsupported("load of %r" % ty)

    def store(self, st, ty, v, p):
        if ty.k == "i":
            if v is UNDEF:
                self.write(st, p, ty.size, UNDEF)
                return
            if isinstance(v, T.B):
                v = V(8, T.bool2lin(v), 1)
            elif isinstance(v, V) and ty.size * 8 != v.n:
                v = V(ty.size * 8, self.uview(st, v), v.mask)
            self.write(st, p, ty.size, v)
        elif ty.k == "ptr":
            self.write(st, p, 8, v)
        elif ty.k == "st":
            p = self.to_ptr(st, p)
            for e, o, x in zip(ty.e, ty.offs, v if v is not UNDEF else [UNDEF] * len(ty.e)):
                self.store(st, e, x, Ptr(p.obj, T.addc(p.off, o)))
        elif ty.k == "arr":
            p = self.to_ptr(st, p)
            for i in range(ty.n):
                self.store(st, ty.e, v[i] if v is not UNDEF else UNDEF, Ptr(p.obj, T.addc(p.off, i * ll.alloc_size(ty.e))))
        else:
            raise Unsupported("store of %r" % ty)

    def memcpy(self, st, d, s, n):
        if n == 0:
            return
        so, soff = self.addr(st, s, n, "memcpy read")
        ps = self.pieces(st, so, soff, n)
        do, doff = self.addr(st, d, n, "memcpy write")
        do = self.wobj(st, do.id)
        for rel, k, v in ps:
            self.put(st, do, doff + rel, k, v)

    # ------------------------------------------------------------ operands
    def val(self, st, fr, ty, a):
        k = a[0]
        if k == "l":
            v = fr.env.get(a[1])
            if v is None:
                raise Inconclusive("undefined local %s in %s" % (a[1], fr.fn.name))
            return v
        if k == "i":
            if ty.n == 1:
                return T.TRUE if a[1] & 1 else T.FALSE
            return V(ty.n, T.const(a[1]))
        if k == "null":
            return NULL
        if k == "g":
            return Ptr(self.gptr(a[1]), T.const(a[2]))
        if k == "undef":
            if ty.k in ("st",):
                return [self.val(st, fr, e, a) for e in ty.e]
            if ty.k == "arr":
                return [self.val(st, fr, ty.e, a) for _ in range(ty.n)]
            return UNDEF
        if k == "ip":
            return Ptr(None, T.const(a[1] % (1 << 64)))
        if k == "zero":
            if ty.k == "st":
                return [self.val(st, fr, e, a) for e in ty.e]
            if ty.k == "arr":
                return [self.val(st, fr, ty.e, a) for _ in range(ty.n)]
            if ty.k == "ptr":
                return NULL
            return V(ty.n, T.ZERO) if ty.n != 1 else T.FALSE
        if k == "agg":
            return [self.val(st, fr, t, x) for t, x in a[1]]
        if k == "p2i":
            return V(ty.n, self.paddr(st, self.val(st, fr, ll.PTR, a[1])))
        raise Unsupported("operand %r" % (a,))

    # ------------------------------------------------------------ running
    def start(self, fname):
        f = self.mod.funcs[fname]
        st = State.__new__(State)
        st.frames = []
        st.mem = {}
        st.tok = object()
        st.path = []
        st.known = {}
        st.bounds = {}
        st.ivm = {}
        st.wit = {}
        st.memo = {}
        st.views = {}
        st.expect = False
        st.steps = 0
        st.nfork = 0
        st.covers = []
        st.bad = False
        st.nextaddr = 0x40000000
        fr = Frame(f, None, ll.VOID)
        self.inputs = []
        for i, (ty, name) in enumerate(f.params):
            nm = "a%dw%d" % (i, ty.n)
            if self.concrete is not None:
                c = self.concrete[i]
                x = T.const(c % (1 << ty.n))
            else:
                x = T.var(nm, 0, (1 << ty.n) - 1)
            self.inputs.append((nm, ty.n))
            if ty.n == 1:
                fr.env[name] = T.le0(T.addc(T.scale(x, -1), 1))
            else:
                fr.env[name] = V(ty.n, x)
        st.frames.append(fr)
        self.funcs_seen[f.name] = f.ninstr
        return st

    def args_of(self, wit):
        return [str(wit.get(n, 0)) for n, _ in self.inputs]

    def explore(self, stop=None):
        while self.work:
            if stop and stop(self):
                return
            st = self.work.pop()
            self.run(st)
            if len(self.violations) >= self.cfg.get("max_violations", 4):
                return

    def run(self, st):
        try:
            self.loop(st)
        except PathDead:
            self.killed += 1
        except PathEnd:
            self.paths += 1
            if not st.bad and st.wit is not None:
                # witnesses of finished paths, spread over the run, for the native replay
                if len(self.samples) < 8:
                    self.samples.append([self.args_of(st.wit), sorted(set(st.covers)), st.expect])
                elif self.rnd.random() < 8 / self.paths:
                    self.samples[self.rnd.randrange(8)] = [self.args_of(st.wit), sorted(set(st.covers)), st.expect]

    def violation(self, st, kind, wit):
        self.violations.append({"kind": kind, "args": self.args_of(wit), "at": st.frames[-1].fn.name})
        st.bad = True

    def loop(self, st):
        cfgmax = self.max_steps
        while True:
            fr = st.frames[-1]
            ins = fr.ins[fr.i]
            st.steps += 1
            self.steps += 1
            if st.steps > cfgmax:
                raise Inconclusive("step bound %d reached (loop bound)" % cfgmax)
            if self.deadline and (self.steps & 255) == 0 and time.time() > self.deadline:
                raise Inconclusive("time budget exhausted")
            m = DISPATCH.get(ins.op)
            if m is None:
                raise Unsupported("instruction: %s" % ins.text)
            m(self, st, fr, ins)

    # each op_* advances fr.i itself
    def op_bin(self, st, fr, ins):
        ty = ins.ty
        n = ty.n
        op = ins.op
        a = self.val(st, fr, ty, ins.a[0])
        b = self.val(st, fr, ty, ins.a[1])
        if op in ("and", "or", "xor"):
            if n == 1:
                a = self.to_bool(st, a)
                b = self.to_bool(st, b)
            else:
                a = self.asV(st, a, n)
                b = self.asV(st, b, n)
            r = self.bitop(st, op, a, b, n)
        else:
            a = self.asV(st, a, n)
            b = self.asV(st, b, n)
            if op == "add":
                r = V(n, T.add(a.lin, b.lin))
            elif op == "sub":
                r = V(n, T.sub(a.lin, b.lin))
            elif op == "mul":
                if a.lin.t and b.lin.t:
                    r = V(n, self.mul(st, self.resolve(st, self.sview(st, a)), self.resolve(st, self.sview(st, b))))
                else:
                    ca = a.lin.c if not a.lin.t else b.lin.c
                    x = b.lin if not a.lin.t else a.lin
                    ca %= 1 << n
                    if ca >> (n - 1):
                        ca -= 1 << n
                    r = V(n, T.scale(x, ca))
            elif op in ("shl", "lshr", "ashr"):
                r = self.shift(st, op, a, b, n)
            else:
                r = self.divop(st, op, a, b, n)
            if n == 1:
                r = self.to_bool(st, r)
        fr.env[ins.dst] = r
        fr.i += 1

    def mul(self, st, x, y):
        for p, q in ((x, y), (y, x)):
            lo, hi = st.iv(p)
            if lo == hi:
                return T.scale(q, lo)
        mx = self.cfg.get("split_mul_max", 0)
        if mx:
            for p, q in ((x, y), (y, x)):
                lo, hi = st.iv(p)
                if hi - lo <= mx:
                    return T.scale(q, self.concretize(st, p))
        return T.mk_mul(x, y)

    def op_icmp(self, st, fr, ins):
        a = self.val(st, fr, ins.ty, ins.a[0])
        b = self.val(st, fr, ins.ty, ins.a[1])
        if ins.ty.k == "i" and ins.ty.n > 1:
            if a is UNDEF or isinstance(a, T.B):
                a = self.asV(st, a, ins.ty.n)
            if b is UNDEF or isinstance(b, T.B):
                b = self.asV(st, b, ins.ty.n)
        elif ins.ty.k == "i":
            a, b = self.to_bool(st, a), self.to_bool(st, b)
        fr.env[ins.dst] = self.icmp(st, ins.x, a, b)
        fr.i += 1

    def op_cast(self, st, fr, ins):
        v = self.val(st, fr, ins.x, ins.a[0])
        t, s, op = ins.ty, ins.x, ins.op
        if op == "trunc":
            if v is UNDEF:
                r = UNDEF
            elif t.n == 1:
                r = self.to_bool(st, self.asV(st, v, s.n))
            else:
                v = self.asV(st, v, s.n)
                r = V(t.n, v.lin, None if v.mask is None else v.mask & ((1 << t.n) - 1))
        elif op == "zext":
            if s.n == 1:
                r = V(t.n, T.bool2lin(self.to_bool(st, v)), 1)
            else:
                v = self.asV(st, v, s.n)
                u = self.uview(st, v)
                r = V(t.n, u, self.kmask(st, v))
        elif op == "sext":
            if s.n == 1:
                r = V(t.n, T.scale(T.bool2lin(self.to_bool(st, v)), -1))
            else:
                r = V(t.n, self.sview(st, self.asV(st, v, s.n)))
        elif op == "ptrtoint":
            r = V(t.n, self.paddr(st, self.to_ptr(st, v)))
        elif op == "inttoptr":
            r = self.to_ptr(st, v)
        else:
            r = v
        fr.env[ins.dst] = r
        fr.i += 1

    def op_freeze(self, st, fr, ins):
        v = self.val(st, fr, ins.ty, ins.a[0])
        if v is UNDEF and ins.ty.k == "i":
            v = self.freshbool(st) if ins.ty.n == 1 else self.asV(st, v, ins.ty.n)
        fr.env[ins.dst] = v
        fr.i += 1

    def op_select(self, st, fr, ins):
        c = self.to_bool(st, self.val(st, fr, ll.int_ty(1), ins.a[0]))
        a = self.val(st, fr, ins.ty, ins.a[1])
        b = self.val(st, fr, ins.ty, ins.a[2])
        d = st.decide(c)
        if d is None:
            if isinstance(a, T.B) or isinstance(b, T.B):
                fr.env[ins.dst] = T.bite(c, self.to_bool(st, a), self.to_bool(st, b))
                fr.i += 1
                return
            if isinstance(a, V) and isinstance(b, V) and (not self.fork_select or (self.cfg.get('mselect') and ins.ty.n <= 8 and not a.lin.t and not b.lin.t)):
                la, lb = a.lin, b.lin
                # keep one consistent reading when one side is an all-ones style constant
                fr.env[ins.dst] = V(ins.ty.n, T.ite(c, la, lb), None if a.mask is None or b.mask is None else a.mask | b.mask)
                fr.i += 1
                return
            d = self.branch(st, c)
        fr.env[ins.dst] = a if d else b
        fr.i += 1

    def jump(self, st, fr, lab):
        fr.prev = fr.blk
        fr.blk = lab
        fr.ins = fr.fn.blocks[lab]
        fr.i = 0
        # phis
        vals = []
        for ins in fr.ins:
            if ins.op != "phi":
                break
            vals.append((ins.dst, self.val(st, fr, ins.ty, ins.x[fr.prev])))
        for d, v in vals:
            fr.env[d] = v
        fr.i = len(vals)

    def op_jmp(self, st, fr, ins):
        self.jump(st, fr, ins.x[0])

    def op_br(self, st, fr, ins):
        c = self.to_bool(st, self.val(st, fr, ll.int_ty(1), ins.a[0]))
        d = st.decide(c)
        if d is None:
            if self.merge(st, fr, ins, c):
                return
            d = self.branch(st, c)
        self.jump(st, fr, ins.x[0] if d else ins.x[1])

    def diamond(self, fr, ins):
        """the block where both sides of this branch meet again without doing anything"""
        key = (fr.fn.name, fr.blk)
        r = self.diamonds.get(key, 0)
        if r == 0:
            r = None
            blocks = fr.fn.blocks
            nxt = []
            for lab in ins.x[:2]:
                b = blocks[lab]
                nxt.append((b[0].x[0], lab) if len(b) == 1 and b[0].op == "jmp" else (None, lab))
            (ja, a), (jb, b) = nxt
            if ja is not None and ja == jb and a != b:
                r = (ja, a, b)
            elif ja == b:
                r = (b, a, fr.blk)
            elif jb == a:
                r = (a, fr.blk, b)
            if r is not None:
                phis = [i for i in blocks[r[0]] if i.op == "phi"]
                if any(i.ty.k != "i" or i.ty.n > 8 or r[1] not in i.x or r[2] not in i.x for i in phis):
                    r = None
            self.diamonds[key] = r
        return r

    def merge(self, st, fr, ins, c):
        d = None if self.cfg.get("nomerge") else self.diamond(fr, ins)
        if d is None:
            return False
        lab, a, b = d
        vals = []
        for i in fr.fn.blocks[lab]:
            if i.op != "phi":
                break
            x = self.val(st, fr, i.ty, i.x[a])
            y = self.val(st, fr, i.ty, i.x[b])
            if i.ty.n == 1:
                vals.append((i.dst, T.bite(c, self.to_bool(st, x), self.to_bool(st, y))))
            elif isinstance(x, V) and isinstance(y, V):
                vals.append((i.dst, V(i.ty.n, T.ite(c, x.lin, y.lin))))
            else:
                return False
        fr.prev = a
        fr.blk = lab
        fr.ins = fr.fn.blocks[lab]
        for dst, v in vals:
            fr.env[dst] = v
        fr.i = len(vals)
        return True

    def op_switch(self, st, fr, ins):
        v = self.val(st, fr, ins.ty, ins.a[0])
        d, cases = ins.x
        n = ins.ty.n
        if n == 1:
            v = V(8, T.bool2lin(self.to_bool(st, v)))
            cases = [(c & 1, l) for c, l in cases]
            n = 8
        v = self.asV(st, v, n)
        u = v
        if v.lin.t and len(cases) > 1:
            u = V(n, self.uview(st, v))
        for c, lab in cases:
            if self.branch(st, self.icmp(st, "eq", u, V(n, T.const(c % (1 << n))))):
                self.jump(st, fr, lab)
                return
        self.jump(st, fr, d)

    def op_ret(self, st, fr, ins):
        v = None
        if ins.a:
            v = self.val(st, fr, ins.ty, ins.a[0])
        for o in fr.allocas:
            st.mem.pop(o, None)
        st.frames.pop()
        if not st.frames:
            self.finish(st)
        up = st.frames[-1]
        if fr.dst is not None:
            up.env[fr.dst] = v
        up.i += 1

    def finish(self, st):
        if st.expect:
            # a panic was required on this path
            w = self.need_wit(st)
            if w is None:
                raise PathDead()
            self.violation(st, "expected panic did not happen", w)
            raise PathEnd()
        raise PathEnd()

    def need_wit(self, st):
        if st.wit is not None:
            return st.wit
        ok, m = self.feasible(st, T.TRUE)
        if ok is None:
            raise Inconclusive("solver gave up on a path condition")
        if ok is False:
            return None
        st.wit, st.memo = m
        return st.wit

    def op_unreachable(self, st, fr, ins):
        if self.need_wit(st) is None:
            raise PathDead()
        raise Inconclusive("reachable 'unreachable' in %s args=%s" % (fr.fn.name, self.args_of(st.wit)))

    def op_alloca(self, st, fr, ins):
        o = self.new_obj(st, ll.alloc_size(ins.ty))
        fr.allocas.append(o)
        fr.env[ins.dst] = Ptr(o, T.ZERO)
        fr.i += 1

    def op_load(self, st, fr, ins):
        p = self.val(st, fr, ll.PTR, ins.a[0])
        fr.env[ins.dst] = self.load(st, ins.ty, p)
        fr.i += 1

    def op_store(self, st, fr, ins):
        v = self.val(st, fr, ins.ty, ins.a[0])
        p = self.val(st, fr, ll.PTR, ins.a[1])
        self.store(st, ins.ty, v, p)
        fr.i += 1

    def op_gep(self, st, fr, ins):
        p = self.to_ptr(st, self.val(st, fr, ll.PTR, ins.a[0]))
        off, steps = ins.x
        x = T.addc(p.off, off)
        for idx, ty, sz in steps:
            v = self.asV(st, self.val(st, fr, ty, idx), ty.n)
            x = T.add(x, T.scale(self.sview(st, v), sz))
        fr.env[ins.dst] = Ptr(p.obj, x)
        fr.i += 1

    def op_extract(self, st, fr, ins):
        v = self.val(st, fr, ins.ty, ins.a[0])
        for i in ins.x:
            v = v[i]
        fr.env[ins.dst] = v
        fr.i += 1

    def op_insert(self, st, fr, ins):
        ix, t2 = ins.x
        v = self.val(st, fr, ins.ty, ins.a[0])
        b = self.val(st, fr, t2, ins.a[1])

        def put(v, ix):
            v = list(v)
            if len(ix) == 1:
                v[ix[0]] = b
            else:
                v[ix[0]] = put(v[ix[0]], ix[1:])
            return v
        fr.env[ins.dst] = put(v, ix)
        fr.i += 1

    def op_fence(self, st, fr, ins):
        fr.i += 1

    def op_rmw(self, st, fr, ins):
        p = self.val(st, fr, ll.PTR, ins.a[0])
        v = self.val(st, fr, ins.ty, ins.a[1])
        n = ins.ty.n
        old = self.load(st, ins.ty, p)
        o = ins.x
        if o == "add":
            new = V(n, T.add(old.lin, v.lin))
        elif o == "sub":
            new = V(n, T.sub(old.lin, v.lin))
        elif o == "xchg":
            new = v
        else:
            raise Unsupported("atomicrmw " + o)
        self.store(st, ins.ty, new, p)
        fr.env[ins.dst] = old
        fr.i += 1

    def op_cmpxchg(self, st, fr, ins):
        p = self.val(st, fr, ll.PTR, ins.a[0])
        e = self.val(st, fr, ins.ty, ins.a[1])
        v = self.val(st, fr, ins.ty, ins.a[2])
        old = self.load(st, ins.ty, p)
        ok = self.branch(st, self.icmp(st, "eq", old, e))
        if ok:
            self.store(st, ins.ty, v, p)
        fr.env[ins.dst] = [old, T.bconst(ok)]
        fr.i += 1

    # ------------------------------------------------------------ calls
    def op_call(self, st, fr, ins):
        tgt, tys = ins.x
        if isinstance(tgt, tuple):
            p = self.to_ptr(st, self.val(st, fr, ll.PTR, tgt))
            if p.obj is None or not p.obj.startswith("f:"):
                raise Unsupported("indirect call")
            tgt = p.obj[2:]
        h = self.icache.get(tgt)
        if h is None:
            h = self.lookup(tgt)
            self.icache[tgt] = h
        kind, x = h
        if kind == "fn":
            f = x
            args = [self.val(st, fr, t, a) for t, a in zip(tys, ins.a)]
            nf = Frame(f, ins.dst, ins.ty)
            if len(f.params) != len(args):
                raise Unsupported("argument count mismatch calling " + tgt)
            for (t, n), v in zip(f.params, args):
                nf.env[n] = v
            if len(st.frames) > 200:
                raise Inconclusive("recursion bound")
            st.frames.append(nf)
            if f.name not in self.funcs_seen:
                self.funcs_seen[f.name] = f.ninstr
            return
        if kind == "panic":
            self.panic(st, fr, tgt)
        args = [self.val(st, fr, t, a) if t.k != "metadata" else None for t, a in zip(tys, ins.a)]
        r = x(self, st, fr, ins, args, tgt)
        if ins.dst is not None:
            fr.env[ins.dst] = r
        fr.i += 1

    def lookup(self, tgt):
        b = BUILTIN.get(tgt)
        if b:
            return "b", b
        for rx, name in self.intercepts:
            if rx.search(tgt):
                if name in self.mod.funcs:
                    return "fn", self.mod.funcs[name]
                if name.startswith("="):
                    return "b", BUILTIN[name[1:]]
        for rx, b in BUILTIN_RX:
            if rx.match(tgt):
                return "b", b
        if tgt in self.mod.funcs:
            return "fn", self.mod.funcs[tgt]
        if tgt in self.noreturn or (tgt in self.mod.decls and PANIC_NAME.search(tgt)):
            return "panic", None
        raise Unsupported("call of external function %s" % tgt)

    def panic(self, st, fr, tgt):
        if st.expect:
            self.panics_expected += 1
            raise PathEnd()
        w = self.need_wit(st)
        if w is None:
            raise PathDead()
        self.violation(st, "panic (%s) in %s" % (tgt[-60:], fr.fn.name[-80:]), w)
        raise PathEnd()


class PathDead(Exception):
    pass


class PathEnd(Exception):
    pass


DISPATCH = {
    "icmp": Engine.op_icmp, "freeze": Engine.op_freeze, "select": Engine.op_select, "jmp": Engine.op_jmp, "br": Engine.op_br,
    "switch": Engine.op_switch, "ret": Engine.op_ret, "unreachable": Engine.op_unreachable, "alloca": Engine.op_alloca,
    "load": Engine.op_load, "store": Engine.op_store, "getelementptr": Engine.op_gep, "extractvalue": Engine.op_extract,
    "insertvalue": Engine.op_insert, "fence": Engine.op_fence, "atomicrmw": Engine.op_rmw, "cmpxchg": Engine.op_cmpxchg, "call": Engine.op_call,
}
for _o in ll.BINOPS:
    DISPATCH[_o] = Engine.op_bin
for _o in ("trunc", "zext", "sext", "ptrtoint", "inttoptr", "bitcast"):
    DISPATCH[_o] = Engine.op_cast


# -------------------------------------------------------------------- builtins
def b_nop(e, st, fr, ins, a, t):
    return UNDEF


def b_assume(e, st, fr, ins, a, t):
    if not e.assume(st, e.to_bool(st, a[0])):
        raise PathDead()


def b_assert(e, st, fr, ins, a, t):
    c = e.to_bool(st, a[0])
    ident = a[1].lin.c
    e.asserts += 1
    d = st.decide(c)
    if d is True:
        e.asserts_trivial += 1
        return
    if d is False:
        w = e.need_wit(st)
        if w is None:
            raise PathDead()
        e.violation(st, "assert %d" % ident, w)
        raise PathEnd()
    if st.wit is not None and not T.evb(c, st.wit, st.memo):
        e.violation(st, "assert %d" % ident, st.wit)
        raise PathEnd()
    ok, m = e.feasible(st, T.bnot(c))
    if ok is None:
        raise Inconclusive("solver gave up on assert %d (args so far %s)" % (ident, e.args_of(st.wit or {})))
    if ok:
        e.violation(st, "assert %d" % ident, m[0])
        raise PathEnd()
    st.learn(c)


def b_cover(e, st, fr, ins, a, t):
    ident = a[0].lin.c
    st.covers.append(ident)
    e.cover_count[ident] = e.cover_count.get(ident, 0) + 1
    if ident not in e.covers:
        w = e.need_wit(st)
        if w is None:
            raise PathDead()
        e.covers[ident] = e.args_of(w)


def b_expect(e, st, fr, ins, a, t):
    st.expect = True


def b_split(e, st, fr, ins, a, t):
    v = e.concretize(st, e.sview(st, a[0]))
    return V(64, T.const(v))


def b_case(e, st, fr, ins, a, t):
    """case split on a condition"""
    return T.bconst(e.branch(st, e.to_bool(st, a[0])))


def _ov(op, signed):
    def f(e, st, fr, ins, a, t):
        n = int(t.rsplit(".i", 1)[1])
        x = e.asV(st, a[0], n)
        y = e.asV(st, a[1], n)
        x = e.sview(st, x) if signed else e.uview(st, x)
        y = e.sview(st, y) if signed else e.uview(st, y)
        if op == "mul":
            r = e.mul(st, e.resolve(st, x), e.resolve(st, y))
        else:
            r = T.add(x, y) if op == "add" else T.sub(x, y)
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << n) - 1)
        ok = T.band(e.simp(st, T.le0(T.addc(T.scale(r, -1), lo))), e.simp(st, T.le0(T.addc(r, -hi))))
        return [V(n, r), T.bnot(ok)]
    return f


def _sat(op, signed):
    def f(e, st, fr, ins, a, t):
        n = int(t.rsplit(".i", 1)[1])
        x = e.asV(st, a[0], n)
        y = e.asV(st, a[1], n)
        x = e.sview(st, x) if signed else e.uview(st, x)
        y = e.sview(st, y) if signed else e.uview(st, y)
        r = T.add(x, y) if op == "add" else T.sub(x, y)
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << n) - 1)
        c1 = e.simp(st, T.lt(r, T.const(lo)))
        c2 = e.simp(st, T.lt(T.const(hi), r))
        return V(n, T.ite(c1, T.const(lo), T.ite(c2, T.const(hi), r)))
    return f


def _minmax(mx, signed):
    def f(e, st, fr, ins, a, t):
        n = int(t.rsplit(".i", 1)[1])
        x = e.asV(st, a[0], n)
        y = e.asV(st, a[1], n)
        x = e.sview(st, x) if signed else e.uview(st, x)
        y = e.sview(st, y) if signed else e.uview(st, y)
        c = e.simp(st, T.le(x, y))
        if e.cfg.get("fork_min", True):
            return V(n, (y if mx else x) if e.branch(st, c) else (x if mx else y))
        return V(n, T.ite(c, y, x) if mx else T.ite(c, x, y))
    return f


def b_abs(e, st, fr, ins, a, t):
    x = e.asV(st, a[0], ins.ty.n)
    s = e.sview(st, x)
    if e.branch(st, T.lt(s, T.ZERO)):
        return V(x.n, T.scale(s, -1))
    return V(x.n, s)


def _cmp3(signed):
    def f(e, st, fr, ins, a, t):
        n = ins.ty.n
        m = re.search(r"\.i\d+\.i(\d+)", t)
        w = int(m.group(1))
        if isinstance(a[0], Ptr) or isinstance(a[1], Ptr):
            raise Unsupported("pointer three-way compare")
        x = e.asV(st, a[0], w)
        y = e.asV(st, a[1], w)
        l = e.icmp(st, "slt" if signed else "ult", x, y)
        if e.cfg.get("fork_cmp", False):
            if e.branch(st, l):
                return V(n, T.const(-1))
            return V(n, T.ZERO if e.branch(st, e.icmp(st, "eq", x, y)) else T.ONE)
        g = e.icmp(st, "sgt" if signed else "ugt", x, y)
        return V(n, T.ite(l, T.const(-1), T.ite(g, T.ONE, T.ZERO)))
    return f


def b_memcpy(e, st, fr, ins, a, t):
    n = e.concretize(st, e.uview(st, a[2]))
    e.memcpy(st, a[0], a[1], n)


def b_memset(e, st, fr, ins, a, t):
    n = e.concretize(st, e.uview(st, a[2]))
    if n:
        o, off = e.addr(st, a[0], n, "memset")
        o = e.wobj(st, o.id)
        for i in range(n):
            e.put(st, o, off + i, 1, V(8, a[1].lin) if isinstance(a[1], V) else a[1])


def b_memcmp(e, st, fr, ins, a, t):
    n = e.concretize(st, e.uview(st, a[2]))
    for i in range(n):
        x = e.asV(st, e.read(st, _padd(e, st, a[0], i), 1), 8)
        y = e.asV(st, e.read(st, _padd(e, st, a[1], i), 1), 8)
        if not e.branch(st, e.icmp(st, "eq", x, y)):
            lt = e.branch(st, e.icmp(st, "ult", x, y))
            return V(32, T.const(-1 if lt else 1))
    return V(32, T.ZERO)


def _padd(e, st, p, i):
    p = e.to_ptr(st, p)
    return Ptr(p.obj, T.addc(p.off, i))


def b_alloc(e, st, fr, ins, a, t):
    n = e.concretize(st, e.uview(st, a[0]))
    if n > 1 << 20:
        raise Inconclusive("allocation of %d bytes" % n)
    return Ptr(e.new_obj(st, n, zero="alloc_zeroed" in t), T.ZERO)


def b_realloc(e, st, fr, ins, a, t):
    n = e.concretize(st, e.uview(st, a[3]))
    old = e.concretize(st, e.uview(st, a[1]))
    p = Ptr(e.new_obj(st, n), T.ZERO)
    e.memcpy(st, p, a[0], min(n, old))
    return p


def b_dealloc(e, st, fr, ins, a, t):
    p = e.to_ptr(st, a[0])
    if p.obj is not None:
        o = e.wobj(st, p.obj)
        o.freed = True


def b_expect_intr(e, st, fr, ins, a, t):
    return a[0]


def b_ctz(lead):
    def f(e, st, fr, ins, a, t):
        n = ins.ty.n
        if isinstance(a[0], OrPair):
            if lead:
                raise Unsupported("leading zeros of a | b")
            parts = [e.asV(st, y, n) for y in (a[0].a, a[0].b)]
        else:
            parts = [e.asV(st, a[0], n)]
        if not lead:
            # case by case: the lowest bit that any of them has
            parts = [e.uview(st, x) for x in parts]
            for k in range(n):
                for x in parts:
                    y = T.mk_mod(T.mk_div(x, 1 << k, st.iv), 2, st.iv)
                    if e.branch(st, T.le0(T.addc(T.scale(y, -1), 1))):
                        return V(n, T.const(k))
            return V(n, T.const(n))
        x = parts[0]
        c = e.concretize(st, e.uview(st, x)) % (1 << n)
        if c == 0:
            return V(n, T.const(n))
        return V(n, T.const(n - c.bit_length() if lead else (c & -c).bit_length() - 1))
    return f


def b_ctpop(e, st, fr, ins, a, t):
    n = ins.ty.n
    c = e.concretize(st, e.uview(st, e.asV(st, a[0], n)))
    return V(n, T.const(bin(c).count("1")))


def b_fsh(left):
    def f(e, st, fr, ins, a, t):
        n = ins.ty.n
        k = e.concretize(st, e.uview(st, e.asV(st, a[2], n))) % n
        x, y = e.asV(st, a[0], n), e.asV(st, a[1], n)
        if k == 0:
            return x if left else y
        if not left:
            k = n - k
        hi = T.scale(x.lin, 1 << k)
        lo = T.mk_div(e.uview(st, y), 1 << (n - k), st.iv)
        return V(n, T.add(hi, lo))
    return f


def b_bswap(e, st, fr, ins, a, t):
    n = ins.ty.n
    v = e.asV(st, a[0], n)
    out = T.ZERO
    for i in range(n // 8):
        out = T.add(out, T.scale(e.uview(st, e.slice(st, v, n // 8, i, 1)), 1 << (n - 8 - 8 * i)))
    return V(n, out)


def b_trap(e, st, fr, ins, a, t):
    e.panic(st, fr, t)


def b_objsize(e, st, fr, ins, a, t):
    return V(ins.ty.n, T.const(-1))


def b_strlen(e, st, fr, ins, a, t):
    i = 0
    while True:
        x = e.asV(st, e.read(st, _padd(e, st, a[0], i), 1), 8)
        if e.branch(st, e.icmp(st, "eq", x, V(8, T.ZERO))):
            return V(64, T.const(i))
        i += 1


BUILTIN = {
    "vx_assume": b_assume, "vx_assert": b_assert, "vx_cover": b_cover, "vx_expect_panic": b_expect, "vx_split": b_split, "vx_case": b_case,
    "memcpy": b_memcpy, "memmove": b_memcpy, "memset": b_memset, "memcmp": b_memcmp, "bcmp": b_memcmp, "strlen": b_strlen,
    "nop": b_nop,
}
BUILTIN_RX = [(re.compile(p), f) for p, f in [
    (r"llvm\.sadd\.with", _ov("add", True)), (r"llvm\.uadd\.with", _ov("add", False)),
    (r"llvm\.ssub\.with", _ov("sub", True)), (r"llvm\.usub\.with", _ov("sub", False)),
    (r"llvm\.smul\.with", _ov("mul", True)), (r"llvm\.umul\.with", _ov("mul", False)),
    (r"llvm\.sadd\.sat", _sat("add", True)), (r"llvm\.uadd\.sat", _sat("add", False)),
    (r"llvm\.ssub\.sat", _sat("sub", True)), (r"llvm\.usub\.sat", _sat("sub", False)),
    (r"llvm\.smax", _minmax(True, True)), (r"llvm\.smin", _minmax(False, True)),
    (r"llvm\.umax", _minmax(True, False)), (r"llvm\.umin", _minmax(False, False)),
    (r"llvm\.abs", b_abs), (r"llvm\.scmp", _cmp3(True)), (r"llvm\.ucmp", _cmp3(False)),
    (r"llvm\.mem(cpy|move)", b_memcpy), (r"llvm\.memset", b_memset),
    (r"llvm\.(lifetime|assume|experimental\.noalias|dbg|invariant|prefetch|donothing|sideeffect|pseudoprobe|var\.annotation)", b_nop),
    (r"llvm\.expect", b_expect_intr), (r"llvm\.cttz", b_ctz(False)), (r"llvm\.ctlz", b_ctz(True)), (r"llvm\.ctpop", b_ctpop),
    (r"llvm\.fshl", b_fsh(True)), (r"llvm\.fshr", b_fsh(False)), (r"llvm\.bswap", b_bswap), (r"llvm\.trap|llvm\.ubsantrap", b_trap),
    (r"llvm\.objectsize", b_objsize),
    (r".*___rust_no_alloc_shim", b_nop), (r".*___rust_alloc(_zeroed)?$", b_alloc), (r".*___rust_dealloc$", b_dealloc), (r".*___rust_realloc$", b_realloc),
    (r"__rust_alloc(_zeroed)?$", b_alloc), (r"__rust_dealloc$", b_dealloc), (r"__rust_realloc$", b_realloc),
]]
