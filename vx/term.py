"""Integer terms for the symbolic executor.

A Lin is an exact mathematical integer  c + sum(coef * atom).  Machine words are
Lins read modulo 2^N (see exec.py), so wrap-around is represented exactly and not
approximated by mathematical integers.

Atoms:  Var(name, lo, hi) | Div(lin, m>0) floor | Ite(cond, lin, lin) | Mul(lin, lin)
Bools:  B(kind, ...) with kinds  T F le eq and or not ,  le: lin <= 0, eq: lin == 0
"""
from math import gcd

_atoms = []


class Atom:
    __slots__ = ("id", "kind", "a", "b", "c", "lo", "hi", "name", "z")

    def __repr__(self):
        if self.kind == "var":
            return self.name
        if self.kind == "div":
            return "div(%r,%d)" % (self.a, self.b)
        if self.kind == "ite":
            return "ite(%r,%r,%r)" % (self.a, self.b, self.c)
        return "(%r*%r)" % (self.a, self.b)


_table = {}


def _mk(kind, a, b=None, c=None, lo=None, hi=None, name=None):
    key = (kind, a, b, c, name)
    x = _table.get(key)
    if x is None:
        x = Atom()
        x.id = len(_atoms)
        x.kind = kind
        x.a, x.b, x.c = a, b, c
        x.lo, x.hi = lo, hi
        x.name = name
        x.z = None
        _atoms.append(x)
        _table[key] = x
    return x


class Lin:
    __slots__ = ("c", "t", "h")

    def __init__(self, c, t):
        self.c = c
        self.t = t  # tuple of (atom, coef), sorted by atom id, coef != 0
        self.h = hash((c, tuple((a.id, k) for a, k in t)))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o or (self.h == o.h and self.c == o.c and self.t == o.t)

    def __repr__(self):
        if not self.t:
            return str(self.c)
        s = "+".join(("%d*%r" % (k, a)) if k != 1 else repr(a) for a, k in self.t)
        return "(%s%+d)" % (s, self.c) if self.c else "(%s)" % s


_ccache = {}


def const(n):
    r = _ccache.get(n)
    if r is None:
        r = Lin(n, ())
        _ccache[n] = r
    return r


ZERO = const(0)
ONE = const(1)


def of_atom(a):
    return Lin(0, ((a, 1),))


def var(name, lo, hi):
    return of_atom(_mk("var", None, lo=lo, hi=hi, name=name))


def pack(x):
    """name x by one atom (for words put together from fields)"""
    if not x.t or (len(x.t) == 1 and x.c == 0 and x.t[0][1] == 1):
        return x
    g = x.c
    for _, k in x.t:
        g = gcd(g, k)
    if g > 1:
        return scale(pack(Lin(x.c // g, tuple((a, k // g) for a, k in x.t))), g)
    lo, hi = interval(x)
    return of_atom(_mk("def", x, lo=lo, hi=hi))


def unpack(x):
    """undo pack when a single field is left"""
    while len(x.t) == 1 and x.c == 0 and x.t[0][0].kind == "def":
        a, k = x.t[0]
        x = scale(a.a, k)
    return x


def coalesce(x):
    """put the pieces of a field that was cut in two together again"""
    again = True
    while again:
        again = False
        for a, k in x.t:
            if a.kind != "def":
                continue
            divs = [b for b, _ in a.a.t if b.kind == "div"]
            if not divs:
                continue
            have = {b for b, _ in x.t}
            if not any(b in have for b in divs):
                continue
            y = add(add(x, Lin(0, ((a, -k),))), scale(a.a, k))
            left = {b for b, _ in y.t}
            if any(b in have and b not in left for b in divs):
                x = y
                again = True
                break
        else:
            again = _coalesce2(x)
            if again is not None:
                x = again
                again = True
    return x


def _coalesce2(x):
    """two packed pieces that share a quotient which cancels once both are opened"""
    ds = [(a, k, {b for b, _ in a.a.t if b.kind == "div"}) for a, k in x.t if a.kind == "def"]
    for i, (a, k, d) in enumerate(ds):
        for a2, k2, d2 in ds[i + 1:]:
            both = d & d2
            if not both:
                continue
            y = add(add(x, Lin(0, ((a, -k),))), scale(a.a, k))
            y = add(add(y, Lin(0, ((a2, -k2),))), scale(a2.a, k2))
            left = {b for b, _ in y.t}
            if any(b not in left for b in both):
                return y
    return None


def expand(x):
    """x without packed names"""
    for a, k in x.t:
        if a.kind == "def":
            break
    else:
        return x
    out = const(x.c)
    for a, k in x.t:
        out = add(out, scale(expand(a.a), k) if a.kind == "def" else Lin(0, ((a, k),)))
    return out


def add(x, y):
    if not y.t:
        return x if y.c == 0 else (const(x.c + y.c) if not x.t else Lin(x.c + y.c, x.t))
    if not x.t:
        return y if x.c == 0 else Lin(x.c + y.c, y.t)
    out = []
    i = j = 0
    xt, yt = x.t, y.t
    while i < len(xt) and j < len(yt):
        a, k = xt[i]
        b, l = yt[j]
        if a is b:
            if k + l:
                out.append((a, k + l))
            i += 1
            j += 1
        elif a.id < b.id:
            out.append(xt[i])
            i += 1
        else:
            out.append(yt[j])
            j += 1
    out.extend(xt[i:])
    out.extend(yt[j:])
    if not out:
        return const(x.c + y.c)
    return Lin(x.c + y.c, tuple(out))


def scale(x, k):
    if k == 1:
        return x
    if k == 0:
        return ZERO
    if not x.t:
        return const(x.c * k)
    return Lin(x.c * k, tuple((a, c * k) for a, c in x.t))


def addc(x, n):
    if n == 0:
        return x
    if not x.t:
        return const(x.c + n)
    return Lin(x.c + n, x.t)


def sub(x, y):
    return add(x, scale(y, -1))


def key(x):
    """Canonical direction of x without its constant: (tuple, factor) with x = factor*key + c."""
    g = 0
    for _, k in x.t:
        g = gcd(g, k)
    if x.t[0][1] < 0:
        g = -g
    if g == 1:
        return x.t, 1
    return tuple((a, k // g) for a, k in x.t), g


# ---------------------------------------------------------------- booleans
class B:
    __slots__ = ("k", "a", "h", "n")

    def __init__(self, k, a):
        self.k = k
        self.a = a
        self.h = hash((k, a))
        self.n = None

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o or (self.h == o.h and self.k == o.k and self.a == o.a)

    def __repr__(self):
        if self.k in "TF":
            return self.k
        if self.k == "le":
            return "%r<=0" % (self.a,)
        if self.k == "eq":
            return "%r==0" % (self.a,)
        return "%s%r" % (self.k, self.a)


TRUE = B("T", ())
FALSE = B("F", ())


def bconst(b):
    return TRUE if b else FALSE


def _atom01(x):
    """x is c + k*atom with atom in {0,1} of ite kind -> (cond)"""
    if len(x.t) == 1:
        a = x.t[0][0]
        if a.kind == "ite" and not a.b.t and not a.c.t and a.b.c == 1 and a.c.c == 0:
            return a
    return None


def _choice(x):
    """x is c + k*ite(..) whose leaves are all constants -> the atom"""
    if len(x.t) == 1 and x.t[0][0].kind == "ite" and _leaves(x.t[0][0], 4):
        return x.t[0]
    return None


def _choices(x):
    """all atoms of x are choices between constants (few) -> the first"""
    if not x.t or len(x.t) > 2:
        return None
    for a, _ in x.t:
        if a.kind != "ite" or not _leaves(a, 4):
            return None
    return x.t[0]


def lift(x, f):
    """f over the leaves of a choice between constants, or None"""
    p = _choice(x)
    if p is None:
        return None
    a, k = p
    return ite(a.a, _lift(a.b, k, x.c, f), _lift(a.c, k, x.c, f))


def _lift(y, k, c, f):
    y = addc(scale(y, k), c)
    if not y.t:
        return const(f(y.c))
    return lift(y, f)


def _leaves(a, d):
    if d == 0:
        return False
    for y in (a.b, a.c):
        if y.t and not (len(y.t) == 1 and y.t[0][0].kind == "ite" and _leaves(y.t[0][0], d - 1)):
            return False
    return True


def le0(x):
    """x <= 0"""
    if not x.t:
        return bconst(x.c <= 0)
    p = _choices(x)
    if p is not None:
        a, k = p
        y = sub(x, Lin(0, (p,)))
        return bite(a.a, le0(add(scale(a.b, k), y)), le0(add(scale(a.c, k), y)))
    a = _atom01(x)
    if a is not None:
        t = x.c + x.t[0][1] <= 0
        f = x.c <= 0
        if t and f:
            return TRUE
        if not t and not f:
            return FALSE
        return a.a if t else bnot(a.a)
    g = 0
    for _, k in x.t:
        g = gcd(g, k)
    if g > 1:
        # g*y + c <= 0  <=>  y + ceil(c/g) <= 0
        x = Lin(-((-x.c) // g), tuple((a, k // g) for a, k in x.t))
    return B("le", x)


def le(x, y):
    return le0(sub(x, y))


def lt(x, y):
    return le0(addc(sub(x, y), 1))


def eq0(x):
    if not x.t:
        return bconst(x.c == 0)
    p = _choices(x)
    if p is not None:
        a, k = p
        y = sub(x, Lin(0, (p,)))
        return bite(a.a, eq0(add(scale(a.b, k), y)), eq0(add(scale(a.c, k), y)))
    a = _atom01(x)
    if a is not None:
        t = x.c + x.t[0][1] == 0
        f = x.c == 0
        if t and f:
            return TRUE
        if not t and not f:
            return FALSE
        return a.a if t else bnot(a.a)
    g = 0
    for _, k in x.t:
        g = gcd(g, k)
    if x.c % g:
        return FALSE
    if x.t[0][1] < 0:
        g = -g
    if g != 1:
        x = Lin(x.c // g, tuple((a, k // g) for a, k in x.t))
    return B("eq", x)


def eq(x, y):
    return eq0(sub(x, y))


def bnot(b):
    k = b.k
    if k == "T":
        return FALSE
    if k == "F":
        return TRUE
    if k == "not":
        return b.a
    if k == "le":
        # not (x<=0)  <=>  1-x <= 0
        r = b.n
        if r is None:
            r = le0(addc(scale(b.a, -1), 1))
            b.n = r
        return r
    if k == "and":
        return B("or", tuple(bnot(x) for x in b.a))
    if k == "or":
        return B("and", tuple(bnot(x) for x in b.a))
    return B("not", b)


def band(*xs):
    out = []
    for x in xs:
        if x.k == "F":
            return FALSE
        if x.k == "T":
            continue
        if x.k == "and":
            out.extend(y for y in x.a if y not in out)
        elif x not in out:
            out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    for x in out:
        if bnot(x) in out:
            return FALSE
    return B("and", tuple(out))


def bor(*xs):
    out = []
    for x in xs:
        if x.k == "T":
            return TRUE
        if x.k == "F":
            continue
        if x.k == "or":
            out.extend(y for y in x.a if y not in out)
        elif x not in out:
            out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    for x in out:
        if bnot(x) in out:
            return TRUE
    return B("or", tuple(out))


def bite(c, x, y):
    if c.k == "T":
        return x
    if c.k == "F":
        return y
    if x == y:
        return x
    return bor(band(c, x), band(bnot(c), y))


def biff(x, y):
    if x.k == "T":
        return y
    if x.k == "F":
        return bnot(y)
    if y.k == "T":
        return x
    if y.k == "F":
        return bnot(x)
    if x == y:
        return TRUE
    return bor(band(x, y), band(bnot(x), bnot(y)))


def ite(c, x, y):
    if c.k == "T":
        return x
    if c.k == "F":
        return y
    if x == y:
        return x
    if c.k in ("not", "or"):
        c = bnot(c)
        x, y = y, x
    d = sub(x, y)
    if not d.t:
        a = of_atom(_mk("ite", c, ONE, ZERO, lo=0, hi=1))
        return add(scale(a, d.c), y)
    xl, xh = _guard(c, True, x, *interval(x))
    yl, yh = _guard(c, False, y, *interval(y))
    return of_atom(_mk("ite", c, x, y, lo=min(xl, yl), hi=max(xh, yh)))


def _guard(c, pos, x, lo, hi):
    """interval of x given that c is true (pos) or false"""
    if not x.t:
        return lo, hi
    k = c.k
    if k == "not":
        return _guard(c.a, not pos, x, lo, hi)
    l, h = lo, hi
    if (k == "and" and pos) or (k == "or" and not pos):
        for y in c.a:
            l, h = _guard(y, pos, x, l, h)
    elif k == "le":
        d = sub(x, c.a)
        if not d.t:      # x = a + d,  a <= 0 or a >= 1
            if pos:
                h = min(h, d.c)
            else:
                l = max(l, d.c + 1)
        else:
            d = add(x, c.a)
            if not d.t:  # x = d - a
                if pos:
                    l = max(l, d.c)
                else:
                    h = min(h, d.c - 1)
    return (l, h) if l <= h else (lo, hi)


def bool2lin(b):
    # (v >= 1) for a 0/1 variable is the variable itself
    if b.k == "le" and len(b.a.t) == 1:
        a, k = b.a.t[0]
        if a.kind == "var" and a.lo == 0 and a.hi == 1:
            if k == -1 and b.a.c == 1:
                return of_atom(a)
            if k == 1 and b.a.c == 0:
                return Lin(1, ((a, -1),))
    return ite(b, ONE, ZERO)


def interval(x):
    lo = hi = x.c
    for a, k in x.t:
        if k > 0:
            lo += k * a.lo
            hi += k * a.hi
        else:
            lo += k * a.hi
            hi += k * a.lo
    return lo, hi


def mk_div(x, m, iv=interval):
    """floor(x/m), m > 0"""
    if m == 1:
        return x
    if not x.t:
        return const(x.c // m)
    r = lift(x, lambda v: v // m) if m == 2 else None
    if r is not None:
        return r
    hi_t = []
    lo_t = []
    for a, k in x.t:
        if k % m == 0:
            hi_t.append((a, k // m))
        else:
            # pull the multiple of m out of the coefficient as well
            q, r = divmod(k, m)
            if m - r < r:
                q += 1
                r -= m
            if q:
                hi_t.append((a, q))
            lo_t.append((a, r))
    qc, rc = divmod(x.c, m)
    head = Lin(qc, tuple(hi_t)) if hi_t else const(qc)
    if not lo_t:
        return head
    lo = Lin(rc, tuple(lo_t))
    l, h = iv(lo)
    if l // m == h // m:
        return addc(head, l // m)
    # common divisor of the remaining coefficients
    g = m
    for _, k in lo_t:
        g = gcd(g, k)
    if g > 1:
        lo = Lin(rc // g, tuple((a, k // g) for a, k in lo_t))
        return add(head, mk_div(lo, m // g, iv))
    if len(lo_t) == 1 and lo_t[0][1] == 1 and lo_t[0][0].kind == "div":
        a = lo_t[0][0]
        return add(head, mk_div(addc(a.a, a.b * rc), a.b * m, iv))
    if lo_t[0][1] < 0:
        # floor(-y/m) = -floor((y+m-1)/m)
        y = addc(scale(lo, -1), m - 1)
        gl, gh = interval(y)
        return sub(head, _fin(y, m, gl, gh, iv))
    gl, gh = interval(lo)
    return add(head, _fin(lo, m, gl, gh, iv))


def _fin(x, m, gl, gh, iv):
    qc, rc = divmod(x.c, m)
    x = Lin(rc, x.t)
    gl -= qc * m
    gh -= qc * m
    l, h = iv(x)
    if l // m == h // m:
        return const(qc + l // m)
    return addc(of_atom(_mk("div", x, m, lo=gl // m, hi=gh // m)), qc)


def mk_mod(x, m, iv=interval):
    """x mod m in [0,m)"""
    x = Lin(x.c % m, tuple((a, _symmod(k, m)) for a, k in x.t if k % m)) if x.t else const(x.c % m)
    if not x.t:
        return const(x.c % m)
    l, h = iv(x)
    if l // m == h // m:
        return addc(x, -(l // m) * m)
    return sub(x, scale(mk_div(x, m, iv), m))


def _symmod(k, m):
    r = k % m
    return r - m if m - r < r else r


def mk_mul(x, y):
    if not x.t:
        return scale(y, x.c)
    if not y.t:
        return scale(x, y.c)
    if (y.h, y.c) < (x.h, x.c):
        x, y = y, x
    xl, xh = interval(x)
    yl, yh = interval(y)
    ps = (xl * yl, xl * yh, xh * yl, xh * yh)
    return of_atom(_mk("mul", x, y, lo=min(ps), hi=max(ps)))


# ---------------------------------------------------------------- evaluation
def ev(x, env, memo):
    r = x.c
    for a, k in x.t:
        r += k * ev_atom(a, env, memo)
    return r


def ev_atom(a, env, memo):
    v = memo.get(a.id)
    if v is None:
        kd = a.kind
        if kd == "var":
            v = env.get(a.name)
            if v is None:
                v = 0 if a.lo <= 0 <= a.hi else a.lo
                env[a.name] = v
        elif kd == "div":
            v = ev(a.a, env, memo) // a.b
        elif kd == "def":
            v = ev(a.a, env, memo)
        elif kd == "ite":
            v = ev(a.b, env, memo) if evb(a.a, env, memo) else ev(a.c, env, memo)
        else:
            v = ev(a.a, env, memo) * ev(a.b, env, memo)
        memo[a.id] = v
    return v


def evb(b, env, memo):
    k = b.k
    if k == "T":
        return True
    if k == "F":
        return False
    if k == "le":
        return ev(b.a, env, memo) <= 0
    if k == "eq":
        return ev(b.a, env, memo) == 0
    if k == "not":
        return not evb(b.a, env, memo)
    if k == "and":
        return all(evb(x, env, memo) for x in b.a)
    return any(evb(x, env, memo) for x in b.a)
