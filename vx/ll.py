"""Parser for the textual LLVM IR that rustc + opt produce (opaque pointers)."""
import re

TOK = re.compile(r'''
   \s+
 | (?P<str>c"(?:[^"\\]|\\.)*")
 | (?P<loc>%"(?:[^"\\]|\\.)*"|%[-\w.$]+)
 | (?P<glob>@"(?:[^"\\]|\\.)*"|@[-\w.$]+)
 | (?P<meta>![\w.]*(?:\([^)]*\))?|!"[^"]*")
 | (?P<attr>\#\d+)
 | (?P<q>"(?:[^"\\]|\\.)*")
 | (?P<num>-?\d+(?:\.\d+e[+-]\d+)?)
 | (?P<word>[A-Za-z_][\w.]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[()\[\]{}<>,=*:|])
''', re.X)


class ParseError(Exception):
    pass


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ";":
            break
        m = TOK.match(s, i)
        if not m:
            raise ParseError("cannot tokenize: %r in %r" % (s[i:i + 40], s[:200]))
        i = m.end()
        if m.lastgroup:
            out.append((m.lastgroup, m.group(m.lastgroup)))
    return out


# ------------------------------------------------------------------ types
class Ty:
    __slots__ = ("k", "n", "e", "packed", "size", "align", "offs")

    def __repr__(self):
        if self.k == "i":
            return "i%d" % self.n
        if self.k == "arr":
            return "[%d x %r]" % (self.n, self.e)
        if self.k == "st":
            return "{%s}" % ", ".join(map(repr, self.e))
        return self.k


_types = {}


def _ty(k, n=None, e=None, packed=False):
    kk = (k, n, tuple(id(x) for x in e) if isinstance(e, (list, tuple)) else id(e), packed)
    t = _types.get(kk)
    if t:
        return t
    t = Ty()
    t.k, t.n, t.e, t.packed = k, n, e, packed
    t.offs = None
    if k == "i":
        b = (n + 7) // 8
        t.size = b
        a = 1
        while a < b and a < 16:
            a *= 2
        t.align = a
    elif k == "ptr":
        t.size = t.align = 8
    elif k == "arr":
        t.size = n * alloc_size(e)
        t.align = e.align
    elif k == "st":
        off = 0
        al = 1
        t.offs = []
        for x in e:
            a = 1 if packed else x.align
            al = max(al, a)
            off = (off + a - 1) // a * a
            t.offs.append(off)
            off += alloc_size(x)
        t.align = al
        t.size = (off + al - 1) // al * al
    elif k == "double":
        t.size = t.align = 8
    elif k == "float":
        t.size = t.align = 4
    else:
        t.size = 0
        t.align = 1
    _types[kk] = t
    return t


def alloc_size(t):
    return (t.size + t.align - 1) // t.align * t.align


def int_ty(n):
    return _ty("i", n)


PTR = _ty("ptr")
VOID = _ty("void")

SIMPLE = {"ptr": PTR, "void": VOID, "double": _ty("double"), "float": _ty("float"), "label": _ty("label"), "metadata": _ty("metadata"), "token": _ty("token")}


class P:
    """Token cursor."""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else (None, None)

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise ParseError("expected %r at %r" % (v, self.t[self.i - 2:self.i + 6]))

    def is_type(self):
        k, v = self.peek()
        if k == "word":
            return v in SIMPLE or re.fullmatch(r"i\d+", v) is not None
        if k == "loc":
            return v in self.mod.types
        return v in ("[", "{", "<")

    def type(self):
        k, v = self.next()
        if k == "word":
            if v in SIMPLE:
                return SIMPLE[v]
            m = re.fullmatch(r"i(\d+)", v)
            if m:
                return int_ty(int(m.group(1)))
        elif k == "loc" and v in self.mod.types:
            return self.mod.types[v]
        elif v == "[":
            n = int(self.next()[1])
            self.expect("x")
            e = self.type()
            self.expect("]")
            return _ty("arr", n, e)
        elif v == "{":
            return self._struct("}", False)
        elif v == "<":
            if self.accept("{"):
                t = self._struct("}", True)
                self.expect(">")
                return t
            raise ParseError("vector types are not supported")
        raise ParseError("type expected, got %r" % (v,))

    def _struct(self, end, packed):
        es = []
        if not self.accept(end):
            while True:
                es.append(self.type())
                if self.accept(end):
                    break
                self.expect(",")
        return _ty("st", None, tuple(es), packed)

    ATTR_INT = {"align", "dereferenceable", "dereferenceable_or_null"}

    def skip_attrs(self):
        while True:
            k, v = self.peek()
            if k == "attr" or k == "q":
                self.next()
                if k == "q" and self.accept("="):
                    self.next()
                continue
            if k != "word" or v in ("true", "false", "null", "undef", "poison", "zeroinitializer", "getelementptr", "inttoptr", "ptrtoint"):
                return
            if self.is_type():
                return
            self.next()
            if v == "align" and self.peek()[0] == "num":
                self.next()
            elif self.peek()[1] == "(":
                self.skip_paren()

    def skip_paren(self):
        d = 0
        while True:
            v = self.next()[1]
            if v == "(":
                d += 1
            elif v == ")":
                d -= 1
                if d == 0:
                    return

    # ---- operands: ('l',name) local | ('i',int) | ('null',) | ('undef',) | ('g',name,off) | ('agg',[..]) | ('zero',) | ('bytes',b)
    def value(self, ty):
        k, v = self.next()
        if k == "loc":
            return ("l", v)
        if k == "num":
            if ty.k != "i":
                return ("fp", v)
            return ("i", int(v))
        if k == "glob":
            return ("g", unq(v), 0)
        if k == "str":
            return ("bytes", unescape(v[2:-1]))
        if v == "true":
            return ("i", 1)
        if v == "false":
            return ("i", 0)
        if v == "null":
            return ("null",)
        if v in ("undef", "poison"):
            return ("undef",)
        if v == "zeroinitializer":
            return ("zero",)
        if v == "getelementptr":
            self.skip_flags()
            self.expect("(")
            bt = self.type()
            self.expect(",")
            pt = self.type()
            base = self.value(pt)
            off = 0
            first = True
            while self.accept(","):
                it = self.type()
                idx = self.value(it)
                if idx[0] != "i":
                    raise ParseError("non-constant index in constant expression")
                if first:
                    off += idx[1] * alloc_size(bt)
                    first = False
                elif bt.k == "arr":
                    bt = bt.e
                    off += idx[1] * alloc_size(bt)
                else:
                    off += bt.offs[idx[1]]
                    bt = bt.e[idx[1]]
            self.expect(")")
            if base[0] == "g":
                return ("g", base[1], base[2] + off)
            if base[0] == "null":
                return ("ip", off)
            raise ParseError("constant gep base")
        if v == "inttoptr":
            self.expect("(")
            t = self.type()
            x = self.value(t)
            self.expect("to")
            self.type()
            self.expect(")")
            return ("ip", x[1])
        if v == "ptrtoint":
            self.expect("(")
            t = self.type()
            x = self.value(t)
            self.expect("to")
            self.type()
            self.expect(")")
            return ("p2i", x)
        if v in ("[", "{", "<"):
            close = {"[": "]", "{": "}", "<": ">"}[v]
            if v == "<" and self.peek()[1] == "{":
                self.next()
                r = self._agg("}")
                self.expect(">")
                return r
            return self._agg(close)
        raise ParseError("value expected, got %r (type %r) near %r" % (v, ty, self.t[max(0, self.i - 5):self.i + 5]))

    def _agg(self, close):
        xs = []
        if not self.accept(close):
            while True:
                t = self.type()
                xs.append((t, self.value(t)))
                if self.accept(close):
                    break
                self.expect(",")
        return ("agg", xs)

    def skip_flags(self):
        while self.peek()[0] == "word" and self.peek()[1] in FLAGS:
            w = self.next()[1]
            if w == "inrange":
                self.skip_paren()


FLAGS = {"nuw", "nsw", "exact", "disjoint", "nneg", "inbounds", "nusw", "samesign", "volatile", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "inrange", "unordered"}


def unq(v):
    """strip sigil and quotes"""
    v = v[1:]
    if v.startswith('"'):
        v = v[1:-1]
    return v


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92)
                i += 2
                continue
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Instr:
    __slots__ = ("op", "dst", "ty", "a", "x", "text")

    def __init__(self, op, dst, ty, a, x=None, text=""):
        self.op, self.dst, self.ty, self.a, self.x, self.text = op, dst, ty, a, x, text

    def __repr__(self):
        return self.text.strip()


class Func:
    def __init__(self, name):
        self.name = name
        self.params = []
        self.ret = None
        self.blocks = {}
        self.entry = None
        self.ninstr = 0


class Global:
    def __init__(self, name, ty, init, const):
        self.name, self.ty, self.init, self.const = name, ty, init, const


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}


BINOPS = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"}
CASTS = {"trunc", "zext", "sext", "ptrtoint", "inttoptr", "bitcast", "freeze_"}


def parse_module(text):
    mod = Module()
    lines = text.split("\n")
    # types first (may refer forward: resolve iteratively)
    pend = {}
    for l in lines:
        m = re.match(r'(%"(?:[^"\\]|\\.)*"|%[-\w.$]+) = type (.*)$', l)
        if m:
            pend[m.group(1)] = m.group(2)
    while pend:
        n = len(pend)
        for k in list(pend):
            try:
                mod.types[k] = P(tokenize(pend[k]), mod).type()
                del pend[k]
            except ParseError:
                pass
        if len(pend) == n:
            break  # unused exotic types: reported when used
    i = 0
    N = len(lines)
    while i < N:
        l = lines[i]
        if l.startswith("@"):
            parse_global(mod, l)
        elif l.startswith("declare"):
            m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\(', l)
            if m:
                mod.decls[unq("@" + m.group(1))] = l
        elif l.startswith("define"):
            j = i
            while lines[j] != "}":
                j += 1
            f = parse_func(mod, lines[i:j])
            mod.funcs[f.name] = f
            i = j
        i += 1
    return mod


def parse_global(mod, l):
    m = re.match(r'(@"(?:[^"\\]|\\.)*"|@[-\w.$]+) = (.*)$', l)
    name = unq(m.group(1))
    rest = m.group(2)
    try:
        toks = tokenize(rest)
    except ParseError:
        return
    p = P(toks, mod)
    const = None
    ext = False
    while True:
        k, v = p.peek()
        if v in ("constant", "global"):
            const = v == "constant"
            p.next()
            break
        if v in ("external", "extern_weak"):
            ext = True
        if v == "alias" or k is None:
            return
        p.next()
        if p.peek()[1] == "(":
            p.skip_paren()
    try:
        ty = p.type()
        init = None if ext else p.value(ty)
    except ParseError as e:
        ty, init = None, ("err", str(e))
    mod.globals[name] = Global(name, ty, init, const)


def parse_func(mod, lines):
    hdr = lines[0]
    m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\(', hdr)
    f = Func(unq("@" + m.group(1)))
    # parameters
    toks = tokenize(hdr[m.end():hdr.rindex("{")])
    p = P(toks, mod)
    if not p.accept(")"):
        while True:
            if p.accept("..."):
                p.expect(")")
                break
            t = p.type()
            p.skip_attrs()
            f.params.append((t, p.next()[1]))
            if p.accept(")"):
                break
            p.expect(",")
    cur = None
    i = 1
    while i < len(lines):
        l = lines[i]
        i += 1
        s = l.strip()
        if not s or s.startswith(";"):
            continue
        m = re.match(r'("(?:[^"\\]|\\.)*"|[-\w.$]+):', l)
        if m and not l.startswith(" "):
            cur = "%" + m.group(1)
            f.blocks[cur] = []
            if f.entry is None:
                f.entry = cur
            continue
        if cur is None:
            cur = "%0"
            f.entry = cur
            f.blocks[cur] = []
        if s.startswith("switch") or " = switch" in s:
            while "]" not in s:
                s += " " + lines[i].strip()
                i += 1
        try:
            ins = parse_instr(mod, s)
        except (ParseError, IndexError, KeyError, TypeError) as e:
            ins = Instr("unsupported", None, VOID, [], None, "%s  [%s]" % (s, e))
        f.blocks[cur].append(ins)
        f.ninstr += 1
    return f


def parse_instr(mod, s):
    toks = tokenize(s)
    # strip trailing metadata / attributes
    p = P(toks, mod)
    dst = None
    if len(toks) > 1 and toks[0][0] == "loc" and toks[1][1] == "=":
        dst = toks[0][1]
        p.i = 2
    k, op = p.next()
    while op in ("tail", "musttail", "notail"):
        k, op = p.next()
    I = lambda ty, a, x=None, o=op: Instr(o, dst, ty, a, x, s)
    if op in BINOPS:
        p.skip_flags()
        t = p.type()
        a = p.value(t)
        p.expect(",")
        b = p.value(t)
        return I(t, [a, b], None, op)
    if op == "icmp":
        p.skip_flags()
        pred = p.next()[1]
        t = p.type()
        a = p.value(t)
        p.expect(",")
        b = p.value(t)
        return I(t, [a, b], pred)
    if op in ("trunc", "zext", "sext", "ptrtoint", "inttoptr", "bitcast"):
        p.skip_flags()
        t = p.type()
        a = p.value(t)
        p.expect("to")
        t2 = p.type()
        return I(t2, [a], t)
    if op == "freeze":
        t = p.type()
        return I(t, [p.value(t)])
    if op == "select":
        p.skip_flags()
        ct = p.type()
        c = p.value(ct)
        p.expect(",")
        t = p.type()
        a = p.value(t)
        p.expect(",")
        t = p.type()
        b = p.value(t)
        return I(t, [c, a, b])
    if op == "br":
        if p.peek()[1] == "label":
            p.next()
            return I(VOID, [], [p.next()[1]], "jmp")
        t = p.type()
        c = p.value(t)
        p.expect(",")
        p.expect("label")
        a = p.next()[1]
        p.expect(",")
        p.expect("label")
        b = p.next()[1]
        return I(VOID, [c], [a, b])
    if op == "switch":
        t = p.type()
        c = p.value(t)
        p.expect(",")
        p.expect("label")
        d = p.next()[1]
        p.expect("[")
        cases = []
        while not p.accept("]"):
            tt = p.type()
            v = p.value(tt)
            p.expect(",")
            p.expect("label")
            cases.append((v[1], p.next()[1]))
        return I(t, [c], (d, cases))
    if op == "ret":
        t = p.type()
        if t is VOID:
            return I(t, [])
        return I(t, [p.value(t)])
    if op == "unreachable":
        return I(VOID, [])
    if op == "phi":
        p.skip_flags()
        t = p.type()
        arms = {}
        while True:
            p.expect("[")
            v = p.value(t)
            p.expect(",")
            arms[p.next()[1]] = v
            p.expect("]")
            if not p.accept(","):
                break
            if p.peek()[1] != "[":
                break
        return I(t, [], arms)
    if op == "alloca":
        t = p.type()
        return I(t, [])
    if op == "load":
        p.skip_flags()
        p.accept("atomic")
        p.skip_flags()
        t = p.type()
        p.expect(",")
        pt = p.type()
        a = p.value(pt)
        rng = None
        return I(t, [a])
    if op == "store":
        p.accept("atomic")
        p.skip_flags()
        t = p.type()
        v = p.value(t)
        p.expect(",")
        pt = p.type()
        a = p.value(pt)
        return I(t, [v, a])
    if op == "getelementptr":
        p.skip_flags()
        bt = p.type()
        p.expect(",")
        pt = p.type()
        base = p.value(pt)
        steps = []  # (const offset) or (value, type, scale)
        off = 0
        first = True
        while p.accept(","):
            if p.peek()[0] == "meta":
                break
            it = p.type()
            idx = p.value(it)
            if first:
                sz = alloc_size(bt)
                first = False
            elif bt.k == "arr":
                bt = bt.e
                sz = alloc_size(bt)
            else:
                off += bt.offs[idx[1]]
                bt = bt.e[idx[1]]
                continue
            if idx[0] == "i":
                off += idx[1] * sz
            else:
                steps.append((idx, it, sz))
        return I(PTR, [base], (off, steps))
    if op == "extractvalue":
        t = p.type()
        a = p.value(t)
        ix = []
        while p.accept(","):
            if p.peek()[0] != "num":
                break
            ix.append(int(p.next()[1]))
        return I(t, [a], ix)
    if op == "insertvalue":
        t = p.type()
        a = p.value(t)
        p.expect(",")
        t2 = p.type()
        b = p.value(t2)
        ix = []
        while p.accept(","):
            if p.peek()[0] != "num":
                break
            ix.append(int(p.next()[1]))
        return I(t, [a, b], (ix, t2))
    if op == "fence":
        return I(VOID, [])
    if op == "atomicrmw":
        p.skip_flags()
        o = p.next()[1]
        p.type()
        a = p.value(PTR)
        p.expect(",")
        t = p.type()
        v = p.value(t)
        return I(t, [a, v], o)
    if op == "cmpxchg":
        p.accept("weak")
        p.skip_flags()
        p.type()
        a = p.value(PTR)
        p.expect(",")
        t = p.type()
        e = p.value(t)
        p.expect(",")
        t = p.type()
        n = p.value(t)
        return I(t, [a, e, n])
    if op in ("call", "invoke"):
        p.skip_flags()
        p.skip_attrs()
        # calling conventions are words: skipped by skip_attrs
        rt = p.type()
        if p.peek()[1] == "(":  # function type
            p.skip_paren()
        callee = p.next()
        p.expect("(")
        args = []
        tys = []
        if not p.accept(")"):
            while True:
                t = p.type()
                if t.k == "metadata":
                    d = 0
                    while True:
                        v = p.peek()[1]
                        if d == 0 and v in (",", ")"):
                            break
                        if v in ("(", "{", "["):
                            d += 1
                        if v in (")", "}", "]"):
                            d -= 1
                        p.next()
                    args.append(("undef",))
                    tys.append(t)
                else:
                    p.skip_attrs()
                    args.append(p.value(t))
                    tys.append(t)
                if p.accept(")"):
                    break
                p.expect(",")
        tgt = unq(callee[1]) if callee[0] == "glob" else ("l", callee[1])
        if callee[0] == "word":
            raise ParseError("call target %r" % (callee,))
        return I(rt, args, (tgt, tys), "call")
    # anything else is reported when (and only when) it is executed
    return I(VOID, [], None, "unsupported")
