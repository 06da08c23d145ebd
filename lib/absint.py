"""Disjunctive dataflow over the IR (property simulation).

An abstract state is a finite set of facts: what each register/memory cell is
known to hold (access paths, constants), the outcome of comparisons already
taken, and the property automaton's own state.  States are propagated through
the control-flow graph of a root function (library callees are entered, with
their call string as context) to a fixpoint; loop heads generalise induction
variables and memory counters, states that only differ in irrelevant facts are
joined.  There is no solver and no enumeration of inputs."""
import heapq
import itertools
import os

from ir import Broken, operands

TOP = ("s", "top")
C0 = ("c", 0)
C1 = ("c", 1)


def C(n):
    return ("c", n)


def isc(v):
    return v[0] == "c"


def split(p):
    """pointer value -> (base, path)"""
    if p[0] == "p":
        return p[1], p[2]
    return p, ()


def mkptr(base, path):
    if not path and base[0] not in ("al", "g", "bv"):
        return base
    return ("p", base, path)


def beyond(e, rest):
    """does the path rest lead outside the block entry e describes?  None: it may or may not"""
    n = e[1] if e[0] == "zero" and len(e) > 1 else e[3] if e[0] == "copy" and len(e) > 3 else None
    if n is None or not rest or rest[0][0] != "i":
        return False
    i, sz = rest[0][1], rest[0][2]
    if i[0] == "c":
        return not 0 <= i[1] * sz < n
    return None if sz >= n else False


def outer(e):
    """what a smaller block was laid over"""
    return e[2] if e[0] == "zero" and len(e) > 2 else e[4] if e[0] == "copy" and len(e) > 4 else None


def within(e, n, under):
    """entry for the first n bytes, over what was recorded for a larger block"""
    if n is None:
        return e
    while under is not None and (under[0] not in ("zero", "copy") or beyond(under, (("i", C(n), 1),)) is not False):
        under = outer(under) if under[0] in ("zero", "copy") else None
    return e + (n,) + ((under,) if under is not None else ())


def subst(v, old, new, memo):
    """replace sub-tuple old by new inside nested tuples/frozensets/dicts"""
    if v == old:
        return new
    t = type(v)
    if t is tuple:
        k = id(v)
        r = memo.get(k)
        if r is not None:
            return r[1]
        n = None
        for i, x in enumerate(v):
            if type(x) in (tuple, frozenset):
                y = subst(x, old, new, memo)
                if y is not x:
                    if n is None:
                        n = list(v)
                    n[i] = y
        res = tuple(n) if n is not None else v
        memo[k] = (v, res)
        return res
    if t is frozenset:
        n = [subst(x, old, new, memo) for x in v]
        fs = frozenset(n)
        return fs if fs != v else v
    return v


def mentions(v, x, memo):
    if v == x:
        return True
    t = type(v)
    if t is tuple or t is frozenset:
        k = id(v)
        r = memo.get(k)
        if r is not None:
            return r[1]
        res = False
        for y in v:
            if type(y) in (tuple, frozenset) and mentions(y, x, memo):
                res = True
                break
        memo[k] = (v, res)
        return res
    return False


_leafcache = {}


def leaves(v):
    """all opaque leaf symbols in a value"""
    if type(v) is frozenset:
        r = set()
        for y in v:
            if type(y) in (tuple, frozenset):
                r |= leaves(y)
        return frozenset(r)
    if type(v) is not tuple or not v:
        return frozenset()
    r = _leafcache.get(v)
    if r is not None:
        return r
    if v[0] == "s" and v[1] in ("call", "phi", "ld", "wid", "heap", "join", "fresh"):
        r = frozenset([v])
    elif v[0] in ("old", "H", "E", "Ej"):
        r = frozenset([v])
    elif v[0] in ("al", "bv"):
        r = frozenset([v])
    else:
        s = set()
        for y in v:
            if type(y) in (tuple, frozenset):
                s |= leaves(y)
        r = frozenset(s)
    if len(_leafcache) > 400000:
        _leafcache.clear()
    _leafcache[v] = r
    return r


def depth(v, lim=24):
    if lim <= 0:
        return 99
    if type(v) is tuple:
        m = 0
        for y in v:
            if type(y) is tuple:
                d = depth(y, lim - 1)
                if d > m:
                    m = d
        return m + 1
    return 0


INF = float("inf")
NOFACT = (-INF, INF, frozenset())
LT, EQ, GT, UNO = 1, 2, 4, 8
SWAP = {LT: GT, EQ: EQ, GT: LT, UNO: UNO}


def swapbits(b):
    r = 0
    for k, v in SWAP.items():
        if b & k:
            r |= v
    return r


ICMP = {"eq": ("e", EQ), "ne": ("e", LT | GT), "slt": ("s", LT), "sle": ("s", LT | EQ), "sgt": ("s", GT), "sge": ("s", GT | EQ),
        "ult": ("u", LT), "ule": ("u", LT | EQ), "ugt": ("u", GT), "uge": ("u", GT | EQ)}
FCMP = {"oeq": EQ, "ogt": GT, "oge": GT | EQ, "olt": LT, "ole": LT | EQ, "one": LT | GT, "ord": LT | EQ | GT, "uno": UNO,
        "ueq": EQ | UNO, "ugt": GT | UNO, "uge": GT | EQ | UNO, "ult": LT | UNO, "ule": LT | EQ | UNO, "une": LT | GT | UNO}


class State:
    __slots__ = ("env", "mem", "facts", "rel", "ps", "epoch", "defs", "trace", "made")

    def __init__(self):
        self.env = {}
        self.mem = {}
        self.facts = {}
        self.rel = {}
        self.ps = {}
        self.defs = {}
        self.epoch = ("E0",)
        self.trace = None
        self.made = set()

    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env)
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.rel = dict(self.rel)
        s.ps = dict(self.ps)
        s.defs = dict(self.defs)
        s.epoch = self.epoch
        s.trace = self.trace
        s.made = set(self.made)
        return s

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.mem.items()), frozenset(self.facts.items()),
                frozenset(self.rel.items()), frozenset(self.ps.items()), self.epoch, frozenset(self.defs.items()))

    # -- renaming ---------------------------------------------------------
    def _map(self, fn):
        self.env = {k: fn(v) for k, v in self.env.items()}
        self.mem = {fn(k): fn(v) for k, v in self.mem.items()}
        self.facts = {fn(k): v for k, v in self.facts.items()}
        rel = {}
        for k, v in self.rel.items():
            n = fn(k)
            if n is not k and n != k and repr(n[1]) > repr(n[2]):
                n, v = (n[0], n[2], n[1]), swapbits(v)
            rel[n] = v
        self.rel = rel
        self.ps = {k: fn(v) for k, v in self.ps.items()}
        self.defs = {fn(k): fn(v) for k, v in self.defs.items()}
        self.epoch = fn(self.epoch)
        self.made = {fn(k) for k in self.made}

    def forget(self, sym):
        memo = {}
        self.facts = {k: v for k, v in self.facts.items() if not mentions(k, sym, memo)}
        self.rel = {k: v for k, v in self.rel.items() if not mentions(k, sym, memo)}
        self.defs = {k: v for k, v in self.defs.items() if not mentions(k, sym, memo)}
        self.mem = {k: v for k, v in self.mem.items() if not mentions(k, sym, memo)}
        m2 = {}
        self.env = {k: subst(v, sym, TOP, m2) for k, v in self.env.items()}
        self.mem = {k: subst(v, sym, TOP, m2) for k, v in self.mem.items()}
        self.ps = {k: subst(v, sym, TOP, m2) for k, v in self.ps.items()}
        if mentions(self.epoch, sym, memo):
            self.epoch = subst(self.epoch, sym, TOP, m2)

    def retire(self, sym):
        """sym is about to be redefined: what it named becomes ('old', sym)"""
        old = ("old", sym)
        self.forget(old)
        memo = {}
        self._map(lambda v: subst(v, sym, old, memo) if type(v) in (tuple, frozenset) else v)

    def fresh(self, sym, eng=None):
        if sym in self.made:
            if eng is not None:
                eng.ana.retiring(self, sym)
            self.retire(sym)
        self.made.add(sym)
        return sym

    # -- unary facts ------------------------------------------------------
    def fact(self, a):
        return self.facts.get(a, NOFACT)

    def setfact(self, a, lo=-INF, hi=INF, ne=frozenset()):
        if TOP == a or a[0] == "c":
            return True
        l, h, n = self.facts.get(a, NOFACT)
        l, h = max(l, lo), min(h, hi)
        n = n | ne
        while l in n and l < h:
            l += 1
        while h in n and h > l:
            h -= 1
        if l > h or (l == h and l in n):
            return False
        n = frozenset(x for x in n if l <= x <= h)
        self.facts[a] = (l, h, n)
        return True

    def const(self, v):
        if v[0] == "c":
            return v[1]
        l, h, n = self.facts.get(v, NOFACT)
        if l == h:
            return l
        return None


class Exit:
    __slots__ = ("val", "st")

    def __init__(self, val, st):
        self.val = val
        self.st = st


class Analysis:
    """Property hooks; override what the property needs."""
    name = "?"
    max_depth = 12
    rename_all = False       # also report loop registers that start as a copy of another value
    cap = 24
    exit_cap = 8
    unroll = 0               # follow the first turns of counted loops with their exact counter

    def __init__(self, mod):
        self.mod = mod
        self.findings = {}
        self.stats = {"states": 0, "inlined": set(), "externals": set(), "unmodelled": set(), "calls": 0, "roots": []}

    # policy
    def inline(self, eng, st, fr, inst, f):
        return True

    def call(self, eng, st, fr, inst, name, args):
        return None

    def icall(self, eng, st, fr, inst, fieldname, target, args):
        return None

    def load(self, eng, st, fr, inst, ptr):
        pass

    def loaded(self, eng, st, fr, inst, ptr, val):
        pass

    def store(self, eng, st, fr, inst, ptr, val):
        pass

    def ret(self, eng, st, val):
        pass

    def terminated(self, eng, st, fr, inst, name, args):
        pass

    def retiring(self, st, sym):
        pass

    def eager(self, eng, st, fr, inst, v):
        return False

    def renamed(self, eng, st, obj, v, sym):
        """the value v of a register or cell is called sym from here on"""
        if v[0] != "c":
            memo = {}
            st.ps = {k: subst(x, v, sym, memo) for k, x in st.ps.items()}

    def branch(self, eng, st, fr, inst, cond, truth):
        pass

    def backedge(self, eng, st, fr, f, hdr):
        pass

    def turned(self, eng, st, fr, f, hdr, vals):
        """back edge, after loop-carried truth values were decided; vals: the
        next value of each loop variable"""

    def loopexit(self, eng, st, fr, f, hdr):
        pass

    def prejoin(self, eng, st):
        """called before states are joined: what must survive goes into ps"""

    def joinps(self, st):
        """merge key: states with equal key may be joined (facts intersected);
        what is known about the property's own values is kept apart"""
        return frozenset((k, st.fact(v)) for k, v in st.ps.items() if v[0] == "s" and v[1] == "call")

    def report(self, rule, where, msg, st=None):
        k = (rule, where, msg)
        if k not in self.findings:
            self.findings[k] = path_of(st) if st is not None else []


def path_of(st, n=14):
    out = []
    t = st.trace
    while t is not None and len(out) < n:
        out.append(t[1])
        t = t[0]
    out.reverse()
    return out


PURE = {"strlen", "strcmp", "strncmp", "strcasecmp", "strncasecmp", "memcmp", "strnlen", "toupper", "tolower", "isdigit", "isalpha", "isalnum", "isspace",
        "isupper", "islower", "isprint", "isxdigit", "ispunct", "abs", "labs", "llabs", "fabs", "llvm.fabs.f64", "llvm.fabs.f32", "atoi", "atol", "atoll",
        "atof", "strspn", "strcspn"}
PUREPTR = {"strchr", "strrchr", "strstr", "strpbrk", "memchr"}
ALLOC = {"malloc", "calloc", "strdup", "strndup", "aligned_alloc"}
PRINT = {"printf", "fprintf", "vprintf", "vfprintf", "puts", "fputs", "putchar", "fputc", "putc", "fwrite", "fflush", "perror", "putchar_unlocked", "vdprintf", "dprintf", "write"}
IGNORE = {"llvm.dbg.declare", "llvm.dbg.value", "llvm.va_start", "llvm.va_end", "llvm.lifetime.start", "llvm.va_start.p0", "llvm.va_end.p0", "llvm.va_copy",
          "llvm.lifetime.end", "llvm.dbg.label", "llvm.va_copy.p0", "llvm.stacksave", "llvm.stackrestore", "llvm.stacksave.p0", "llvm.stackrestore.p0", "llvm.assume", "llvm.donothing"}
NORET = {"exit", "abort", "_exit", "_Exit", "quick_exit", "__assert_fail", "longjmp"}


class Engine:
    def __init__(self, mod, ana, budget=400000):
        self.mod = mod
        self.ana = ana
        self.budget = budget
        self.depth = 0
        self.stack = []

    # ---- values ---------------------------------------------------------
    def operand(self, st, fr, o):
        k = o["k"]
        if k == "c":
            v = o["v"]
            if o.get("w") == 1:
                v &= 1
            return ("c", v)
        if k == "v":
            return st.env.get((fr, o["n"]), TOP)
        if k == "a":
            return st.env.get((fr, "a", o["n"]), TOP)
        if k == "g":
            return ("p", ("g", o["n"]), ())
        if k == "f":
            return ("fn", o["n"])
        if k == "fp":
            return ("fp", o["v"])
        if k == "undef":
            return ("s", "undef")
        if k == "gep":
            b = self.operand(st, fr, o["base"])
            base, path = split(b)
            return mkptr(base, path + (("o", o["off"]),)) if o["off"] else b
        return TOP

    def icmp(self, st, pred, a, b):
        """value of the comparison, folded when known"""
        if TOP in (a, b):
            return ("op", "?")
        if a == b and pred in ("eq", "sle", "sge", "ule", "uge"):
            return C1
        if a == b and pred in ("ne", "slt", "sgt", "ult", "ugt"):
            return C0
        # an operand known to be zero is zero
        if a[0] == "s" and not isc(b) and st.const(a) == 0:
            return self.icmp(st, pred, C0, b)
        if b[0] == "s" and not isc(a) and st.const(b) == 0:
            return self.icmp(st, pred, a, C0)
        r = self.evalcmp(st, ("op", "icmp", pred, a, b))
        if r is not None:
            return C1 if r else C0
        # boolean-valued operand against 0/1
        if isc(b) and self.isbool(a) and pred in ("eq", "ne") and b[1] in (0, 1):
            want = (b[1] == 1) == (pred == "eq")
            return a if want else self.neg(a)
        return ("op", "icmp", pred, a, b)

    def isbool(self, v):
        return v[0] == "op" and v[1] in ("icmp", "fcmp", "not", "and1", "or1", "?")

    def neg(self, v):
        if isc(v):
            return C0 if v[1] & 1 else C1
        if v[0] == "op" and v[1] == "not":
            return v[2]
        return ("op", "not", v)

    def nonnull(self, st, v):
        """True/False/None"""
        if v[0] == "c":
            return v[1] != 0
        if v[0] == "fn":
            return True
        if v[0] == "p":
            if v[1][0] in ("al", "g", "bv"):
                return True
            # field/element of a pointer: non-null when the base is usable
            return True
        l, h, n = st.fact(v)
        if l > 0 or h < 0 or 0 in n:
            return True
        if l == h == 0:
            return False
        l, h, n = st.fact(("U", v))
        if l > 0 or 0 in n:
            return True
        return None

    def norm(self, a, b):
        """x+c1 ? c2  ->  x ? c2-c1 ; constants to the right"""
        if isc(b) and a[0] == "op" and a[1] == "add" and isc(a[3]):
            return self.norm(a[2], ("c", b[1] - a[3][1]))
        return a, b

    def iv(self, st, v):
        if v[0] == "c":
            return v[1], v[1]
        l, h, n = st.fact(v)
        if v[0] == "op" and v[1] == "add" and isc(v[3]):
            l2, h2, _ = st.fact(v[2])
            l, h = max(l, l2 + v[3][1]), min(h, h2 + v[3][1])
        return l, h

    def evalcmp(self, st, c):
        """truth of a comparison under the facts, or None"""
        _, kind, pred, a, b = c
        if kind == "fcmp":
            bits = FCMP.get(pred)
            if bits is None:
                return None
            k, sw = self.relkey(a, b)
            have = st.rel.get(("f",) + k, 15)
            if sw:
                have = swapbits(have)
            if have & bits == have:
                return True
            if not have & bits:
                return False
            return None
        cls, bits = ICMP[pred]
        if isc(a) and isc(b):
            x, y = a[1], b[1]
            if cls == "u":
                x, y = x % 2 ** 64, y % 2 ** 64
            r = LT if x < y else EQ if x == y else GT
            return bool(r & bits)
        if isc(a):
            a, b, bits = b, a, swapbits(bits)
        if isc(b):
            if b[1] == 0 and cls == "u" and bits in (LT, GT | EQ):
                return bits != LT
            if b[1] == 0 and cls in ("e", "u") and bits in (EQ, LT | GT, GT):
                nn = self.nonnull(st, a)
                if nn is not None:
                    return nn == (bits != EQ)
            if cls in ("e", "s") or True:
                a2, b2 = self.norm(a, b) if cls != "u" or (a[0] == "op" and a[1] == "add" and isc(a[3]) and a[3][1] >= 0 and b[1] >= a[3][1]) else (a, b)
                n = b2[1]
                if cls in ("e", "s"):
                    l, h = self.iv(st, a2)
                    poss = (LT if l < n else 0) | (EQ if l <= n <= h and n not in st.fact(a2)[2] else 0) | (GT if h > n else 0)
                    ul, uh, une = st.fact(("U", a2))
                    if n >= 0 and (n < ul or n > uh or n in une):
                        poss &= ~EQ
                else:
                    ul, uh, une = st.fact(("U", a2))
                    ul = max(ul, 0)
                    l, h = self.iv(st, a2)
                    if l >= 0:
                        ul, uh = max(ul, l), min(uh, h)
                    if n < 0:
                        return None
                    poss = (LT if ul < n else 0) | (EQ if ul <= n <= uh and n not in une and n not in st.fact(a2)[2] else 0) | (GT if uh > n else 0)
                if poss & bits == poss:
                    return True
                if not poss & bits:
                    return False
            return None
        if a[0] == "p" and b[0] == "p" and a[1] == b[1] and cls == "e":
            pass
        k, sw = self.relkey(a, b)
        res = 7
        for cl in ("s", "u"):
            if cls in ("e", cl):
                have = st.rel.get((cl,) + k, 7)
                if sw:
                    have = swapbits(have)
                if cls == "e":
                    if have == EQ:
                        return bits == EQ
                    if not have & EQ:
                        return bits != EQ
                else:
                    if have & bits == have:
                        return True
                    if not have & bits:
                        return False
        if cls == "s":
            l, h = self.distance(st, a, b)
            poss = (LT if l < 0 else 0) | (EQ if l <= 0 <= h else 0) | (GT if h > 0 else 0)
            if poss & bits == poss:
                return True
            if not poss & bits:
                return False
        # interval fallback
        l1, h1 = self.iv(st, a)
        l2, h2 = self.iv(st, b)
        if cls == "s" or (cls == "u" and l1 >= 0 and l2 >= 0) or cls == "e":
            poss = (LT if l1 < h2 else 0) | (EQ if l1 <= h2 and l2 <= h1 else 0) | (GT if h1 > l2 else 0)
            if poss & bits == poss:
                return True
            if not poss & bits:
                return False
        if cls == "e":
            na, nb = self.nonnull(st, a), self.nonnull(st, b)
            if na is not None and nb is not None and na != nb:
                return bits != EQ
        return None

    def distance(self, st, a, b):
        """bounds of a - b (signed, no overflow) from what is known about values
        that differ from them by constants"""
        def sp(v):
            if v[0] == "op" and v[1] == "add" and isc(v[3]):
                return v[2], v[3][1]
            return v, 0
        (x, c), (y, d) = sp(a), sp(b)
        lo, hi = -INF, INF
        if x == y:
            return c - d, c - d
        for (cl, p, q), w in st.rel.items():
            if cl != "s" or w == 7:
                continue
            (p, e), (q, g) = sp(p), sp(q)
            if (p, q) == (x, y):
                o = g - e
            elif (q, p) == (x, y):
                o, w = e - g, swapbits(w)
            else:
                continue
            # x - y = (p - q) + o
            if not w & GT:
                hi = min(hi, o if w & EQ else o - 1)
            if not w & LT:
                lo = max(lo, o if w & EQ else o + 1)
        for k, t in ((("op", "sub", x, y), 1), (("op", "sub", y, x), -1)):
            l, h, _ = st.fact(k)
            if t < 0:
                l, h = -h, -l
            lo, hi = max(lo, l), min(hi, h)
        return lo + c - d, hi + c - d

    def relkey(self, a, b):
        if repr(a) <= repr(b):
            return (a, b), False
        return (b, a), True

    def assume(self, st, v, truth):
        """states in which v has the truth value (st is consumed)"""
        if v[0] == "c":
            return [st] if bool(v[1]) == truth else []
        if v[0] == "op":
            if v[1] == "not":
                return self.assume(st, v[2], not truth)
            if v[1] in ("and1", "or1"):
                a, b = v[2], v[3]
                if (v[1] == "and1") == truth:
                    return [s2 for s in self.assume(st, a, truth) for s2 in self.assume(s, b, truth)]
                r = self.assume(st.copy(), a, truth)
                for s in self.assume(st, a, not truth):
                    r += self.assume(s, b, truth)
                return r
            if v[1] == "?":
                return [st]
            if v[1] in ("icmp", "fcmp"):
                e = self.evalcmp(st, v)
                if e is not None:
                    return [st] if e == truth else []
                return [st] if self.addcmp(st, v, truth) else []
        e = self.evalcmp(st, ("op", "icmp", "ne", v, C0))
        if e is not None:
            return [st] if e == truth else []
        return [st] if self.addcmp(st, ("op", "icmp", "ne", v, C0), truth) else []

    def addcmp(self, st, c, truth):
        _, kind, pred, a, b = c
        if TOP in (a, b):
            return True
        if kind == "fcmp":
            bits = FCMP.get(pred)
            if bits is None:
                return True
            if not truth:
                bits = 15 & ~bits
            k, sw = self.relkey(a, b)
            kk = ("f",) + k
            have = st.rel.get(kk, 15) & (swapbits(bits) if sw else bits)
            if not have:
                return False
            st.rel[kk] = have
            return True
        cls, bits = ICMP[pred]
        if not truth:
            bits = 7 & ~bits
        if isc(a):
            a, b, bits = b, a, swapbits(bits)
        if isc(b):
            if cls == "u":
                n = b[1]
                if bits == GT and n == 0:
                    return st.setfact(a, ne=frozenset([0]))
                if n >= 0:
                    l, h = self.iv(st, a)
                    lo = n if bits in (EQ, GT | EQ) else n + 1 if bits == GT else 0
                    hi = n if bits in (EQ, LT | EQ) else n - 1 if bits == LT else INF
                    if hi != INF:
                        if not st.setfact(a, lo, hi):
                            return False
                        if a[0] == "op" and a[1] == "add" and isc(a[3]) and 0 <= lo - a[3][1] and hi - a[3][1] < 2 ** 31:
                            if not st.setfact(a[2], lo - a[3][1], hi - a[3][1]):
                                return False
                    elif l >= 0:
                        return st.setfact(a, lo, hi)
                    return st.setfact(("U", a), lo, hi)
                return True
            a2, b2 = self.norm(a, b)
            n = b2[1]
            if bits == EQ:
                ok = st.setfact(a2, n, n)
            elif bits == LT | GT:
                ok = st.setfact(a2, ne=frozenset([n]))
            else:
                ok = st.setfact(a2, n + 1 if bits == GT else n if bits & GT else -INF, n - 1 if bits == LT else n if bits & LT else INF)
            if ok and a2 != a:
                # keep the fact on the written form too (used by equality tests)
                n = b[1]
                if bits == EQ:
                    st.setfact(a, n, n)
                elif bits == LT | GT:
                    st.setfact(a, ne=frozenset([n]))
            return ok
        k, sw = self.relkey(a, b)
        bb = swapbits(bits) if sw else bits
        if cls == "e":
            for cl in ("s", "u"):
                have = st.rel.get((cl,) + k, 7) & bb
                if not have:
                    return False
                st.rel[(cl,) + k] = have
            if bits == EQ:
                # share unary facts
                fa, fb = st.fact(a), st.fact(b)
                if fa != NOFACT and not st.setfact(b, fa[0], fa[1], fa[2]):
                    return False
                if fb != NOFACT and not st.setfact(a, fb[0], fb[1], fb[2]):
                    return False
            return True
        have = st.rel.get((cls,) + k, 7) & bb
        if not have:
            return False
        st.rel[(cls,) + k] = have
        other = "u" if cls == "s" else "s"
        if not have & EQ:
            h2 = st.rel.get((other,) + k, 7) & (LT | GT)
            if not h2:
                return False
            st.rel[(other,) + k] = h2
        elif have == EQ:
            st.rel[(other,) + k] = st.rel.get((other,) + k, 7) & EQ or EQ
        if cls == "u" and not (bb & (GT | EQ) if not sw else 0):
            pass
        # a u< b / a u> b : the larger one is non-zero
        if cls == "u":
            if bits == LT:
                st.setfact(b, ne=frozenset([0]))
            elif bits == GT:
                st.setfact(a, ne=frozenset([0]))
        return True

    # ---- memory ---------------------------------------------------------
    def ginit(self, gname, path):
        """constant of a read-only global at path, or None"""
        g = self.mod.globals.get(gname)
        if not g or not g["const"] or "init" not in g:
            return None
        off = 0
        for s in path:
            if s[0] == "o":
                off += s[1]
            elif s[0] == "i":
                if not isc(s[1]):
                    return None
                off += s[1][1] * s[2]
            elif s[0] == "f":
                o = self.fieldoff.get(s[1])
                if o is None:
                    return None
                off += o
        return self.cat(g["init"], off)

    @property
    def fieldoff(self):
        if not hasattr(self, "_fo"):
            self._fo = {}
            for t in self.mod.diu.values():
                for f in t["fields"]:
                    self._fo[t["name"] + "." + f["n"]] = f["off"]
        return self._fo

    def cat(self, c, off):
        if c["k"] == "zero":
            return C0
        if c["k"] == "data":
            if c.get("isstr"):
                return C(c["bytes"][off]) if off < len(c["bytes"]) else None
            return None
        if c["k"] == "agg":
            offs = c.get("offs", [])
            best = None
            for o, e in zip(offs, c["elems"]):
                if o <= off:
                    best = (o, e)
            if best is None:
                return None
            return self.cat(best[1], off - best[0])
        if off == 0:
            if c["k"] == "c":
                return C(c["v"])
            if c["k"] == "g":
                return ("p", ("g", c["n"]), ())
            if c["k"] == "f":
                return ("fn", c["n"])
            if c["k"] == "fp":
                return ("fp", c["v"])
        return None

    def conv(self, ty, want, v):
        if ty == want or {ty, want} <= {"ptr", "i64"}:
            return v
        if v[0] == "c" and want.startswith("i"):
            w = int(want[1:])
            n = v[1] & ((1 << w) - 1)
            if n >> (w - 1) and w > 8:
                n -= 1 << w
            return C(n)
        if v[0] == "c" and want == "ptr":
            return v
        return ("op", "as:" + want, v)

    def read(self, st, ptr, ty):
        base, path = split(ptr)
        if ptr == TOP or base == TOP:
            return TOP
        loc = (base, path)
        e = st.mem.get(loc)
        if e is None:
            # covered by a bulk operation on a prefix?
            for n in range(len(path), -1, -1):
                p = st.mem.get((base, path[:n]))
                if p is None:
                    continue
                if p[0] in ("zero", "copy") and n < len(path):
                    out = beyond(p, path[n:])
                    while out and outer(p):
                        p = outer(p)
                        out = beyond(p, path[n:])
                    if out is None:
                        return ("s", "hv", ("part",), loc, ty)
                    if out:
                        continue
                if p[0] == "zero":
                    e = ("v", ty, ("fp", "0") if ty in ("double", "float") else C0)
                    break
                if p[0] == "copy":
                    v = self.read(st, mkptr(p[1], p[2] + path[n:]), ty)
                    return v
                if p[0] == "v" and n < len(path) and path[n:] == ():
                    break
                if p[0] == "hv" and n < len(path):
                    return ("s", "hv", p[1], loc, ty)
            if e is None:
                if base[0] == "g":
                    v = self.ginit(base[1], path)
                    if v is not None:
                        return self.conv("?", ty, v) if v[0] == "c" else v
                st.mem[loc] = ("rd",)
                e = ("rd",)
        if e[0] == "v":
            return self.conv(e[1], ty, e[2])
        if e[0] == "rd":
            return ("s", "init", st.epoch, loc, ty)
        if e[0] == "hv":
            return ("s", "hv", e[1], loc, ty)
        if e[0] == "zero":
            return ("fp", "0") if ty in ("double", "float") else C0
        if e[0] == "copy":
            return self.read(st, mkptr(e[1], e[2]), ty)
        return TOP

    def mayalias(self, l1, l2):
        (b1, p1), (b2, p2) = l1, l2
        if b1 == b2:
            for x, y in zip(p1, p2):
                if x == y:
                    continue
                if x[0] == "f" and y[0] == "f":
                    return False
                if x[0] == "i" and y[0] == "i":
                    if isc(x[1]) and isc(y[1]):
                        return False
                    d = self.diff(x[1], y[1])
                    if d is not None and d != 0:
                        return False
                    continue
                if x[0] == "o" and y[0] == "o":
                    return False
                if "f" in (x[0], y[0]) and any(z[0] == "i" and isc(z[1]) and z[1][1] != 0 for z in (x, y)):
                    return False        # a field of element 0 against another element
                if "f" in (x[0], y[0]):
                    # element 0 vs field of element 0 ... compare the remaining fields
                    break
                continue
            n = min(len(p1), len(p2))
            if p1[:n] == p2[:n] and len(p1) != len(p2):
                z = (p1 if len(p1) > n else p2)[n]
                if z[0] == "i" and isc(z[1]) and z[1][1] != 0:
                    return False        # element 0 against another element
            f1 = [s for s in p1 if s[0] == "f"]
            f2 = [s for s in p2 if s[0] == "f"]
            if f1 and f2 and f1[-1] != f2[-1] and len(f1) == len(f2):
                return False
            # p[0] against p[i]: indices may coincide unless i is known non-zero
            return True
        for b in (b1, b2):
            if b[0] in ("al", "g", "bv") or (b[0] == "s" and b[1] == "heap"):
                return False
        if not p1 or not p2:
            return False
        a, b = p1[-1], p2[-1]
        if a[0] == "f" and b[0] == "f":
            return a[1] == b[1]
        return False

    def diff(self, a, b):
        def sp(v):
            if v[0] == "op" and v[1] == "add" and isc(v[3]):
                return v[2], v[3][1]
            return v, 0
        (x, c), (y, d) = sp(a), sp(b)
        if x == y:
            return c - d
        return None

    def write(self, st, ptr, ty, val, uid):
        base, path = split(ptr)
        if ptr == TOP or base == TOP:
            return
        loc = (base, path)
        hit = []
        for l, e in st.mem.items():
            if l == loc:
                continue
            if l[0] == base and len(l[1]) > len(path) and l[1][:len(path)] == path:
                # writing the whole (scalar over struct start): keep siblings of a struct
                z = l[1][len(path)]
                if z[0] == "f" or z[0] == "i" and isc(z[1]) and z[1][1] != 0:
                    continue
                hit.append(l)
                continue
            if l[0] == base and len(path) > len(l[1]) and path[:len(l[1])] == l[1]:
                continue   # bulk prefix (zero/copy) stays, the exact entry below overrides
            if e[0] in ("zero", "copy"):
                continue
            if self.mayalias(l, loc):
                hit.append(l)
        if hit:
            uid = ("H",) + tuple(uid)
            if uid in st.made:
                # the same store again: what it clobbered before is an older value
                old = ("old", uid)
                memo = {}
                st.retire(uid)
                loc = subst(loc, uid, old, memo)
                val = subst(val, uid, old, memo)
                hit = [subst(l, uid, old, memo) for l in hit]
            st.made.add(uid)
            for l in hit:
                if l in st.mem:
                    st.mem[l] = ("hv", uid)
        st.mem[loc] = ("v", ty, val)

    def touch_chars(self, st, ptr):
        """text behind ptr was modified: results of string functions on it are stale"""
        base, path = split(ptr)
        memo = {}
        def bad(k):
            return self._strcall_on(k, base)
        st.facts = {k: v for k, v in st.facts.items() if not bad(k)}
        st.rel = {k: v for k, v in st.rel.items() if not bad(k)}
        for l in list(st.mem):
            if l[0] == base and (not path or l[1][:len(path)] == path) and l[1] != path:
                if all(s[0] != "f" for s in l[1][len(path):]):
                    del st.mem[l]
        e = st.mem.get((base, path))
        if e is None or e[0] in ("zero", "rd"):
            st.mem[(base, path)] = ("hv", ("chars",))

    def _strcall_on(self, k, base):
        if type(k) is not tuple:
            return False
        if len(k) > 1 and k[0] == "op" and type(k[1]) is str and k[1].startswith("call:"):
            if mentions(k, base, {}):
                return True
        return any(type(x) is tuple and self._strcall_on(x, base) for x in k)

    def havoc(self, st, uid, keep=()):
        """an unknown callee may have written anything reachable"""
        E = ("E",) + (uid,)
        st.fresh(E, self)
        st.epoch = E
        nm = {}
        for l, e in st.mem.items():
            b = l[0]
            if b[0] in ("al", "bv") and b not in keep:
                nm[l] = e
            elif b[0] == "g" and self.mod.globals.get(b[1], {}).get("const"):
                nm[l] = e
        st.mem = nm

    # ---- joining --------------------------------------------------------
    def gc(self, st, live_frames, fn, fr, blk):
        # dead registers
        if blk is not None:
          live = fn.live_after_phi[blk]
          st.env = {k: v for k, v in st.env.items() if k[0] != fr or (len(k) == 3) or k[1] in live}
        roots = set()
        for v in st.env.values():
            roots |= leaves(v)
        for k, v in st.mem.items():
            roots |= leaves(v)
        for v in st.ps.values():
            roots |= leaves(v)
        roots |= leaves(st.epoch)
        # memory of unreachable objects
        keepm = {}
        for k, v in st.mem.items():
            lv = leaves(k[0])
            if all(x in roots for x in lv):
                lk = leaves(k)
                if all(x in roots for x in lk):
                    keepm[k] = v
        st.mem = keepm
        st.facts = {k: v for k, v in st.facts.items() if v != NOFACT and leaves(k) <= roots}
        st.rel = {k: v for k, v in st.rel.items() if leaves(k) <= roots}
        st.defs = {k: v for k, v in st.defs.items() if leaves(k) <= roots}
        st.made = {m for m in st.made if m in roots or m[0] == "E"}  # an unmentioned name is free again

    def join(self, a, b, uid):
        """least upper bound used when too many states meet; names introduced
        here stand for 'the value at this point' and are canonical in a"""
        for k, v in b.env.items():
            sym = ("s", "join", uid, k)
            if sym in b.made and v != sym:
                b.retire(sym)
        for k, e in list(b.mem.items()):
            sym = ("join", uid, k)
            if sym in b.made and e != ("hv", sym):
                b.retire(sym)
        s = State()
        s.ps = dict(a.ps)
        s.trace = a.trace
        s.made = a.made | b.made
        if a.epoch == b.epoch:
            s.epoch = a.epoch
        else:
            s.epoch = ("Ej", uid)
            s.made.add(s.epoch)
        for k, v in a.env.items():
            if k in b.env:
                w = b.env[k]
                if v == w:
                    s.env[k] = v
                    continue
                if len(k) == 3 and k[1] == "me":
                    s.env[k] = ("s", "me?")
                    continue
                if len(k) == 3 and k[1] == "stp":
                    s.env[k] = w if v == ("s", "stp0") else v if w == ("s", "stp0") else ("s", "stp?")
                    continue
                sym = ("s", "join", uid, k)
                s.env[k] = sym
                s.made.add(sym)
                f = self.lubfact(self.unary(a, v), self.unary(b, w), v == sym)
                if f != NOFACT:
                    s.facts[sym] = f
        def cellof(st, k, other):
            """the cell's content, where only a cleared block around it is recorded"""
            e = st.mem.get(k)
            if e is None and other is not None and other[0] == "v":
                for n in range(len(k[1]) - 1, -1, -1):
                    p = st.mem.get((k[0], k[1][:n]))
                    if p is not None:
                        while beyond(p, k[1][n:]) and outer(p):
                            p = outer(p)
                        if beyond(p, k[1][n:]) is not False:
                            continue
                        if p[0] == "zero":
                            return ("v", other[1], ("fp", "0") if other[1] in ("double", "float") else C0)
                        break
            return e
        for k in set(a.mem) | set(b.mem):
            x, y = a.mem.get(k), b.mem.get(k)
            x, y = cellof(a, k, y), cellof(b, k, x)
            if x == y:
                s.mem[k] = x
                continue
            if (x is None or y is None) and (x or y)[0] == "rd":
                s.mem[k] = x or y
                continue
            if x and y and {x[0], y[0]} <= {"rd", "v"} and x[0] != y[0]:
                # one side still has the initial value
                r, v = (x, y) if x[0] == "rd" else (y, x)
                st = a if x[0] == "rd" else b
                if v[2] == ("s", "init", st.epoch, k, v[1]):
                    s.mem[k] = v
                    continue
            sym = ("join", uid, k)
            s.made.add(sym)
            s.mem[k] = ("hv", sym)
            if x and y:
                for ty in {e[1] for e in (x, y) if e[0] == "v"}:
                    vs = []
                    for st, e in ((a, x), (b, y)):
                        if e[0] == "v" and e[1] == ty:
                            vs.append(self.unary(st, e[2]))
                        elif e[0] == "zero":
                            vs.append((0, 0, frozenset()))
                        elif e[0] == "hv":
                            vs.append(self.unary(st, ("s", "hv", e[1], k, ty)))
                        elif e[0] == "rd":
                            vs.append(self.unary(st, ("s", "init", st.epoch, k, ty)))
                        else:
                            vs.append(NOFACT)
                    f = self.lubfact(vs[0], vs[1], x == ("hv", sym))
                    if f != NOFACT:
                        s.facts[("s", "hv", sym, k, ty)] = f
                if x[0] == "hv" and x[1] == sym:
                    # canonical side: facts on the joined cell
                    for fk in list(a.facts):
                        if fk[0] == "s" and fk[1] == "hv" and fk[2] == sym and fk[3] == k and fk not in s.facts:
                            ty = fk[4]
                            if y[0] == "v":
                                w = self.unary(b, y[2])
                            elif y[0] == "hv":
                                w = self.unary(b, ("s", "hv", y[1], k, ty))
                            elif y[0] == "zero":
                                w = (0, 0, frozenset())
                            elif y[0] == "rd":
                                w = self.unary(b, ("s", "init", b.epoch, k, ty))
                            else:
                                w = NOFACT
                            f = self.lubfact(a.facts[fk], w, True)
                            if f != NOFACT:
                                s.facts[fk] = f
        for k, v in a.facts.items():
            if k in s.facts:
                continue
            w = b.facts.get(k)
            if w is not None:
                f = self.lubfact(v, w, True)
                if f != NOFACT:
                    s.facts[k] = f
        for k, v in a.rel.items():
            w = b.rel.get(k)
            if w is not None:
                m = v | w
                if m != (15 if k[0] == "f" else 7):
                    s.rel[k] = m
        s.defs = {k: v for k, v in a.defs.items() if b.defs.get(k) == v}
        return s

    @staticmethod
    def lubfact(v, w, widen):
        lo, hi = min(v[0], w[0]), max(v[1], w[1])
        z = lambda q: q[0] > 0 or q[1] < 0 or 0 in q[2]
        nz = z(v) and z(w)
        ne = frozenset(x for x in v[2] if x in w[2] or x < w[0] or x > w[1]) | frozenset(x for x in w[2] if x < v[0] or x > v[1])
        if widen:
            # an interval that still grows is given up except at 0/1
            if lo < v[0]:
                lo = 1 if lo >= 1 else 0 if lo >= 0 else -1 if lo >= -1 else -INF
            if hi > v[1]:
                hi = INF
        if nz:
            ne |= frozenset([0])
        ne = frozenset(x for x in ne if lo <= x <= hi)
        return (lo, hi, ne)

    def unary(self, st, v):
        if v[0] == "c":
            return (v[1], v[1], frozenset())
        if v[0] in ("p", "fn"):
            return (-INF, INF, frozenset([0]))
        return st.fact(v)

    # ---- running --------------------------------------------------------
    def run_root(self, f, setup=None, args=None):
        st = State()
        fr = ()
        for n, p in enumerate(f.params):
            v = ("s", "arg", n)
            if p["ty"] == "ptr":
                st.facts[v] = (-INF, INF, frozenset([0])) if not (args and args.get(n) == "nullable") else NOFACT
            if "byval" in p:
                v = ("p", ("bv", "root", n), ())
            st.env[(fr, "a", n)] = v
        if setup:
            setup(st)
        self.ana.stats["roots"].append(f.src)
        self.root = f
        exits = self.run(f, fr, [st])
        for e in exits:
            self.ana.ret(self, e.st, e.val)
        return exits

    def run(self, f, fr, states):
        """run f from its entry with the given states; returns exits"""
        self.stack.append(f.name)
        if len(self.stack) > 60:
            raise Broken("analysis recursion too deep")
        exits = []
        seen = [dict() for _ in f.blocks]
        acc = [dict() for _ in f.blocks]
        pending = [[] for _ in f.blocks]
        heap = []
        inq = set()

        def push(b, s):
            pending[b].append(s)
            if b not in inq:
                inq.add(b)
                heapq.heappush(heap, (f.rpo[b], b))
        for s in states:
            push(0, s)
        cap = self.ana.cap
        while heap:
            _, b = heapq.heappop(heap)
            inq.discard(b)
            todo = pending[b]
            pending[b] = []
            uniq = {}
            for s in todo:
                self.gc(s, None, f, fr, b)
                k = s.key()
                if k not in seen[b]:
                    uniq.setdefault(k, s)
            todo = list(uniq.values())
            if not todo:
                continue
            if len(seen[b]) + len(todo) > cap or acc[b]:
                uid = (fr, f.name, b)
                new = []
                for g, l in self.groups(todo).items():
                    s0 = acc[b].get(g)
                    for s in l:
                        if s0 is None:
                            s0 = s
                            continue
                        s0 = self.join(s0, s, uid)
                    self.gc(s0, None, f, fr, b)
                    old = acc[b].get(g)
                    if old is None or old.key() != s0.key():
                        acc[b][g] = s0
                        if s0.key() not in seen[b]:
                            new.append(s0)
                if len(acc[b]) > 400:
                    raise Broken("too many property states in %s" % f.name)
                todo = new
            if len(seen[b]) > 40 * cap:
                raise Broken("no fixpoint within bounds in %s (block %d)" % (f.name, b))
            for s in todo:
                seen[b][s.key()] = 1
                self.ana.stats["states"] += 1
                self.budget -= 1
                if self.budget < 0:
                    raise Broken("analysis budget exhausted in %s (%s)" % (f.name, self.ana.name))
                for kind, x, s2 in self.block(f, fr, b, s.copy()):
                    if kind == "ret":
                        exits.append(Exit(x, s2))
                    else:
                        for s3 in self.enter(f, fr, b, x, s2):
                            push(x, s3)
        self.stack.pop()
        # merge identical exits
        out = {}
        for e in exits:
            out.setdefault((e.val, e.st.key()), e)
        return list(out.values())

    def groups(self, sts):
        g = {}
        for s in sts:
            self.ana.prejoin(self, s)
            g.setdefault((frozenset(s.ps.items()), self.ana.joinps(s)), []).append(s)
        return g

    def mergexits(self, outs, uid):
        """exits of an entered callee; beyond the cap, join those that agree
        on the returned value and the property state"""
        if len(outs) <= self.ana.exit_cap:
            return outs
        g = {}
        for v, s in outs:
            self.ana.prejoin(self, s)
            vk = v if v[0] in ("c", "fn") or self.isbool(v) else ("any", self.nonnull(s, v))
            g.setdefault((vk, frozenset(s.ps.items()), self.ana.joinps(s)), []).append((v, s))
        res = []
        for (vk, _, _), l in g.items():
            s0 = None
            for v, s in l:
                s.env[("ret",)] = v
                s0 = s if s0 is None else self.join(s0, s, uid)
            v = s0.env.pop(("ret",))
            res.append((v, s0))
        return res

    def enter(self, f, fr, b, to, st):
        """edge b->to: assign phis (parallel), generalise at loop heads;
        returns the states to continue with"""
        back = (b, to) in f.back
        out = [st]
        for h, body in f.loops.items():
            if b in body and to not in body:
                nx = []
                for s in out:
                    for k in [k for k in s.env if k[0] == fr and len(k) == 3 and k[1] == "me" and k[2][0] == h]:
                        del s.env[k]
                    r = self.ana.loopexit(self, s, fr, f, h)
                    nx += [s] if r is None else r
                out = nx
        if to in f.headers and back:
            nx = []
            for s in out:
                vals = self.phivals(f, fr, b, to, s)
                for pid, v in vals.items():
                    if pid in f.inductive:
                        k = (fr, "stp", pid)
                        d = self.step_of(s, ("s", "phi", fr, f.name, pid), v)
                        if s.env.get(k) != d:
                            s.env[k] = d if s.env.get(k) == ("s", "stp0") else ("s", "stp?")
                r = self.ana.backedge(self, s, fr, f, to)
                nx += [s] if r is None else r
            out = nx
            # loop-carried truth values: follow both
            for i in f.blocks[to]:
                if i.op != "phi":
                    break
                if i.id in f.inductive:
                    continue
                nx = []
                for s in out:
                    v = self.phivals(f, fr, b, to, s)[i.id]
                    if self.isbool(v) and v != ("op", "?"):
                        for t in (True, False):
                            nx += self.assume(s.copy(), v, t)
                    else:
                        nx.append(s)
                out = nx
            # the same for truth values kept in local variables
            nx = []
            for s in out:
                todo = [s]
                for loc, e in list(s.mem.items()):
                    if loc[0][0] == "al" and e[0] == "v" and self.isbool(e[2]) and e[2] != ("op", "?"):
                        t2 = []
                        for s1 in todo:
                            for t in (True, False):
                                for s2 in self.assume(s1.copy(), e[2], t):
                                    s2.mem[loc] = ("v", e[1], C1 if t else C0)
                                    t2.append(s2)
                        todo = t2
                nx += todo
            out = nx
            for s in out:
                self.ana.turned(self, s, fr, f, to, self.phivals(f, fr, b, to, s))
        for s in out:
            self.assign(f, fr, b, to, s, back)
        return out

    def phivals(self, f, fr, b, to, st):
        vals = {}
        for i in f.blocks[to]:
            if i.op != "phi":
                break
            for pb, o in i.ops:
                if pb == b:
                    vals[i.id] = self.operand(st, fr, o)
                    break
        return vals

    def assign(self, f, fr, b, to, st, back):
        vals = self.phivals(f, fr, b, to, st)
        for pid, v in vals.items():
            if self.isbool(v):
                e = self.boolfold(st, v)
                if e is not None:
                    vals[pid] = C1 if e else C0
        ind = f.inductive
        if self.ana.unroll:
            # short counted loops are followed turn by turn
            ind = {p for p in ind if p not in vals or not (isc(vals[p]) and 0 <= vals[p][1] <= self.ana.unroll)}
        if to in f.headers:
            if back:
                self.widen_mem(st, fr, f, to)
            else:
                for loc, e in st.mem.items():
                    if loc[0][0] == "al" and not loc[1] and e[0] == "v" and e[2][0] in ("op", "c"):
                        st.env[(fr, "me", (to, loc))] = e[2]
                for pid, v in vals.items():
                    if pid in ind:
                        st.env[(fr, "org", pid)] = v
                        st.env[(fr, "stp", pid)] = ("s", "stp0")
            moving = {("s", "phi", fr, f.name, pid) for pid in vals if pid in ind}
            moving |= {("old", m) for m in moving}
            if back:
                # a carried value that depends on this iteration gets a name of its own
                for loc, e in list(st.mem.items()):
                    if loc[0][0] != "al" or e[0] != "v" or e[2][0] in ("c", "p", "fn") or not (leaves(e[2]) & moving) or self.isbool(e[2]):
                        continue
                    sym = ("s", "wid", fr, f.name, to, wloc(loc))
                    if e[2] == sym or st.mem.get(loc) != e:
                        continue
                    if sym in st.made:
                        self.ana.retiring(st, sym)
                        st.retire(sym)
                        memo = {}
                        vals = {k: subst(x, sym, ("old", sym), memo) for k, x in vals.items()}
                        if loc not in st.mem:
                            continue
                        e = st.mem[loc]
                    st.made.add(sym)
                    self.copyfacts(st, e[2], sym, True)
                    self.ana.renamed(self, st, ("mem", loc), e[2], sym)
                    st.mem[loc] = ("v", e[1], sym)
                for pid, v in list(vals.items()):
                    if pid in ind or v[0] == "c":
                        continue
                    if leaves(v) & moving:
                        sym = ("s", "wid", fr, f.name, pid)
                        if v == sym:
                            continue
                        if sym in st.made:
                            self.ana.retiring(st, sym)
                            st.retire(sym)
                            memo = {}
                            vals = {k: subst(x, sym, ("old", sym), memo) for k, x in vals.items()}
                            v = vals[pid]
                        st.made.add(sym)
                        self.copyfacts(st, v, sym, True)
                        self.ana.renamed(self, st, ("phi", fr, f.name, pid), v, sym)
                        vals[pid] = sym
            for pid, v in list(vals.items()):
                if pid in ind:
                    sym = ("s", "phi", fr, f.name, pid)
                    if sym in st.made:
                        self.ana.retiring(st, sym)
                        st.retire(sym)
                        memo = {}
                        vals = {k: subst(x, sym, ("old", sym), memo) for k, x in vals.items()}
                    st.made.add(sym)
            for pid, v in vals.items():
                if pid in ind:
                    sym = ("s", "phi", fr, f.name, pid)
                    st.defs[sym] = v
                    st.env[(fr, pid)] = sym
                    self.copyfacts(st, v, sym, back)
                    if v[0] == "c" or self.ana.rename_all or v == ("old", sym) or v[0] == "op" and leaves(v) & moving:
                        self.ana.renamed(self, st, ("phi", fr, f.name, pid), v, sym)
                else:
                    if depth(v) > 9:
                        sym = st.fresh(("s", "wid", fr, f.name, pid), self)
                        self.copyfacts(st, v, sym, True)
                        self.ana.renamed(self, st, ("phi", fr, f.name, pid), v, sym)
                        v = sym
                    st.env[(fr, pid)] = v
        else:
            for pid, v in vals.items():
                st.env[(fr, pid)] = v

    def boolfold(self, st, v):
        if v == ("op", "?"):
            return None
        a = self.assume(st.copy(), v, True)
        b = self.assume(st.copy(), v, False)
        if a and not b:
            return True
        if b and not a:
            return False
        return None

    def step_of(self, st, old, new):
        """advance of an induction variable over one iteration (elements)"""
        if old is None:
            return ("s", "stp?")
        if old == new:
            return C0
        if new[0] == "op" and new[1] == "add" and new[2] == old and isc(new[3]):
            return new[3]
        bo, po = split(old)
        bn, pn = split(new)
        if bo == bn and len(pn) == len(po) + 1 and pn[:-1] == po and pn[-1][0] == "i" and isc(pn[-1][1]):
            return pn[-1][1]
        return ("s", "stp?")

    def apart(self, f, o):
        """the distance of two places in one list (lists have fewer than 2^31 entries)"""
        for op in ("sdiv", "sub", "ptrtoint"):
            x = f.insts[o["n"]] if o.get("k") == "v" else None
            if x is None or x.op != op:
                return False
            o = x.ops[0]
        return True

    def cursor(self, st, sym):
        """(origin, step) of a loop variable, step None when irregular; a
        variable that has not gone round yet has step 'first'"""
        if not (sym[0] == "s" and sym[1] == "phi"):
            return None
        fr, pid = sym[2], sym[4]
        o = st.env.get((fr, "org", pid))
        d = st.env.get((fr, "stp", pid))
        if o is None or d is None:
            return None
        return o, (d[1] if isc(d) else 1 if d == ("s", "stp0") else None)

    def rebase(self, st, e, b, p, sym):
        """an expression with the cells at and below a place named after sym"""
        if type(e) is not tuple or len(e) < 2:
            return e
        if e[:2] == ("s", "init"):
            loc = e[3]
            at = st.mem.get(loc)
            if e[2] == st.epoch and loc[0] == b and loc[1][:len(p)] == p and (at is None or at[0] == "rd"):
                return e[:3] + ((sym, loc[1][len(p):]),) + e[4:]
            return e
        if e[0] == "op":
            return e[:2] + tuple(self.rebase(st, x, b, p, sym) for x in e[2:])
        return e

    def firstturn(self, st, p, v):
        """a character read where the loop's cursor still stands at its start
        is the one known from there"""
        b, q = split(p)
        if b[:2] == ("s", "phi") and st.env.get((b[2], "stp", b[4])) == ("s", "stp0") and v not in st.facts:
            o = st.env.get((b[2], "org", b[4]))
            if o is not None and o[0] in ("p", "s") and o != TOP:
                ob, oq = split(o)
                at = st.mem.get((ob, oq + q))
                if at is not None and at[0] == "v" and at[2] in st.facts or at is not None and at[0] == "rd":
                    st.setfact(v, *st.fact(self.read(st, mkptr(ob, oq + q), "i8")))

    def copyfacts(self, st, v, sym, back):
        if v[0] == "c":
            n = v[1]
            if back:
                st.setfact(sym, *( (n, n) if -1 <= n <= 1 else (2, INF) if n > 1 else (-INF, -2)))
            else:
                st.setfact(sym, n, n)
            return
        if v[0] == "p" or v[0] == "fn":
            st.setfact(sym, ne=frozenset([0]))
            if back and v[0] == "p" and v[2]:
                # what is known of the cells there
                for k, w in list(st.facts.items()):
                    n = self.rebase(st, k, v[1], v[2], sym)
                    if n != k and n not in st.facts:
                        st.facts[n] = w
            return
        l, h = self.iv(st, v)
        if v[0] == "op" and v[1] == "add" and isc(v[3]):
            c = v[3][1]
            # widen: lower bound survives an increment, upper bound a decrement
            if c > 0:
                h = INF
                l = min(l, 1)
            elif c < 0:
                l = 0 if l >= 0 else -1 if l == -1 else -INF
                h = max(h, -1) if h != INF else INF
            st.setfact(sym, l, h)
            if c == 1:
                self.bump(st, v[2], sym)
            return
        if v[0] == "op":
            st.setfact(sym, min(l, 1) if l != -INF else l, INF if h > 1 else h, frozenset([0]) & st.fact(v)[2])
            if v[1] == "call:strlen":
                for cl in "su":
                    st.rel[(cl,) + self.relkey(sym, v)[0]] = EQ
            return
        _, _, ne = st.fact(v)
        st.setfact(sym, l, h, ne)
        memo = {}
        # facts about expressions over v carry over to sym
        for k, w in list(st.facts.items()):
            if k != v and mentions(k, v, memo):
                st.facts[subst(k, v, sym, {})] = w
        for k, w in list(st.rel.items()):
            if mentions(k, v, memo):
                a = subst(k[1], v, sym, {})
                b2 = subst(k[2], v, sym, {})
                kk, sw = self.relkey(a, b2)
                st.rel[(k[0],) + kk] = swapbits(w) if sw else w

    def bump(self, st, old, sym):
        """sym = old + 1: what old < x says about sym"""
        if old[0] == "op" and old[1] == "call:strlen":
            # a length of an object in memory: adding one does not wrap
            for cl in "su":
                r, sw = self.relkey(sym, old)
                st.rel[(cl,) + r] = LT if sw else GT
        for k, w in list(st.rel.items()):
            cl, a, b = k
            if cl not in "su":
                continue
            if b == old:
                a, b, w = b, a, swapbits(w)
            if a != old or w != LT or sym in leaves(b):
                continue
            have = LT | EQ
            for kk in (cl, "s", "u"):
                r, sw = self.relkey(old, ("op", "add", b, C(-1)))
                g = st.rel.get((kk,) + r, 7)
                if (swapbits(g) if sw else g) & LT == 0 and kk == cl:
                    have = EQ
            r, sw = self.relkey(sym, b)
            st.rel[(cl,) + r] = swapbits(have) if sw else have

    def widen_mem(self, st, fr, f, hdr):
        for loc, e in list(st.mem.items()):
            if e[0] != "v":
                continue
            v = e[2]
            grow = (v[0] == "op" and v[1] in ("add", "sub", "mul", "shl", "lshr", "sdiv", "udiv")) or depth(v) > 9
            if v[0] == "c" and abs(v[1]) > 1 and loc[0][0] == "al" and not loc[1] and loc[0][1] == fr and loc[0][2] == f.name:
                grow = ("al", loc[0][3]) in self.mod.counters()[f.name]
            grow = grow or (v[0] == "p" and any(s[0] == "i" and s[1][0] == "op" for s in v[2]))
            if grow and st.env.get((fr, "me", (hdr, loc))) == v:
                grow = False     # as it was when the loop was entered
            if grow:
                sym = ("s", "wid", fr, f.name, hdr, wloc(loc))
                if sym in st.made:
                    self.ana.retiring(st, sym)
                    st.retire(sym)
                st.made.add(sym)
                if loc in st.mem:
                    v = st.mem[loc][2]
                    self.copyfacts(st, v, sym, True)
                    self.ana.renamed(self, st, ("mem", loc), v, sym)
                    st.mem[loc] = ("v", e[1], sym)

    def tr(self, st, s):
        st.trace = (st.trace, s)

    def block(self, f, fr, b, st):
        """yields ('goto', block, state) / ('ret', value, state)"""
        work = [(0, st)]
        insts = f.blocks[b]
        while work:
            k, st = work.pop()
            while True:
                i = insts[k]
                op = i.op
                if op in ("phi", "dbg"):
                    k += 1
                    continue
                if op == "br":
                    succ = i.get("succ")
                    if not i.ops:
                        yield ("goto", succ[0], st)
                    else:
                        c = self.operand(st, fr, i.ops[0])
                        if succ[0] == succ[1]:
                            yield ("goto", succ[0], st)
                            break
                        for truth, s in ((True, succ[0]), (False, succ[1])):
                            st2 = st.copy() if truth else st
                            for s3 in self.assume(st2, c, truth):
                                self.ana.branch(self, s3, fr, i, c, truth)
                                if i.ln:
                                    self.tr(s3, "%s %s" % (i.loc, "taken" if truth else "not taken"))
                                yield ("goto", s, s3)
                    break
                if op == "switch":
                    v = self.operand(st, fr, i.ops[0])
                    rest = st
                    dead = False
                    bydest = {}
                    for cv, dst in i.get("cases"):
                        bydest.setdefault(dst, []).append(cv)
                    for cv, dst in i.get("cases"):
                        st2 = st.copy()
                        for s3 in self.assume(st2, self.icmp(st2, "eq", v, C(cv)), True):
                            self.tr(s3, "%s case %d" % (i.loc, cv))
                            yield ("goto", dst, s3)
                    s4 = [st]
                    for cv, _ in i.get("cases"):
                        s4 = [y for x in s4 for y in self.assume(x, self.icmp(x, "eq", v, C(cv)), False)]
                    for s3 in s4:
                        self.tr(s3, "%s default" % i.loc)
                        yield ("goto", i.get("default"), s3)
                    break
                if op == "ret":
                    v = self.operand(st, fr, i.ops[0]) if i.ops else C0
                    yield ("ret", v, st)
                    break
                if op == "unreachable":
                    break
                r = self.step(f, fr, i, st)
                if r is None:
                    k += 1
                    continue
                # list of successor states
                if not r:
                    break
                for s in r[1:]:
                    work.append((k + 1, s))
                st = r[0]
                k += 1

    def setv(self, st, fr, i, v):
        st.env[(fr, i.id)] = v

    def step(self, f, fr, i, st):
        op = i.op
        if op == "load":
            p = self.operand(st, fr, i.ops[0])
            self.ana.load(self, st, fr, i, p)
            v = self.read(st, p, i.ty)
            if depth(v) > 17:
                v = st.fresh(("s", "ld", fr, f.name, i.id), self)
            if i.ty == "i8" and v[0] == "s":
                self.firstturn(st, p, v)
            self.ana.loaded(self, st, fr, i, p, v)
            self.setv(st, fr, i, v)
            return None
        if op == "store":
            v = self.operand(st, fr, i.ops[0])
            p = self.operand(st, fr, i.ops[1])
            self.ana.store(self, st, fr, i, p, v)
            self.write(st, p, i.get("vty"), v, (fr, f.name, i.id))
            if i.get("vty") == "i8":
                b, pa = split(p)
                if not pa or pa[-1][0] != "f":
                    self.touch_text_only(st, p)
            return None
        if op == "getelementptr":
            b = self.operand(st, fr, i.ops[0])
            self.setv(st, fr, i, self.gep(st, fr, b, i.get("steps")))
            return None
        if op == "alloca":
            al = ("al", fr, f.name, i.id)
            if al in st.made:
                st.retire(al)
            st.made.add(al)
            self.setv(st, fr, i, ("p", al, ()))
            return None
        if op in ("sext", "zext", "bitcast", "ptrtoint", "inttoptr", "addrspacecast", "fpext"):
            v = self.operand(st, fr, i.ops[0])
            if op == "sext" and i.get("from") == "i1":
                v = ("op", "neg", v) if not isc(v) else C(-(v[1] & 1))
            if op == "zext" and isc(v) and v[1] < 0:
                w = int(i.get("from")[1:])
                v = C(v[1] & ((1 << w) - 1))
            if op == "fpext":
                v = ("op", "fpext", v)
            self.setv(st, fr, i, v)
            return None
        if op == "trunc":
            v = self.operand(st, fr, i.ops[0])
            if i.ty == "i1":
                if isc(v):
                    v = C(v[1] & 1)
                elif not self.isbool(v):
                    v = self.icmp(st, "ne", v, C0)
            elif isc(v):
                w = int(i.ty[1:])
                n = v[1] & ((1 << w) - 1)
                if n >> (w - 1):
                    n -= 1 << w
                v = C(n)
            elif self.isbool(v):
                pass
            else:
                l, h = self.iv(st, v)
                w = int(i.ty[1:])
                if not (l >= -(1 << (w - 1)) and h < (1 << (w - 1))) and not (w == 32 and self.apart(f, i.ops[0])):
                    v = ("op", "trunc" + i.ty, v)
            self.setv(st, fr, i, v)
            return None
        if op == "icmp":
            a = self.operand(st, fr, i.ops[0])
            b = self.operand(st, fr, i.ops[1])
            v = self.icmp(st, i.get("pred"), a, b)
            self.setv(st, fr, i, v)
            return self.decide(st, fr, i, v)
        if op == "fcmp":
            a = self.operand(st, fr, i.ops[0])
            b = self.operand(st, fr, i.ops[1])
            v = ("op", "fcmp", i.get("pred"), a, b) if TOP not in (a, b) else ("op", "?")
            self.setv(st, fr, i, v)
            return self.decide(st, fr, i, v)
        if op == "select":
            c = self.operand(st, fr, i.ops[0])
            out = []
            for truth in (True, False):
                for s in self.assume(st.copy(), c, truth):
                    self.setv(s, fr, i, self.operand(s, fr, i.ops[1 if truth else 2]))
                    out.append(s)
            return out
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "sdiv", "udiv", "srem", "urem"):
            a = self.operand(st, fr, i.ops[0])
            b = self.operand(st, fr, i.ops[1])
            self.setv(st, fr, i, self.binop(st, op, a, b, i.ty))
            return None
        if op in ("fadd", "fsub", "fmul", "fdiv", "fneg", "fptosi", "fptoui", "sitofp", "uitofp", "fptrunc"):
            vs = tuple(self.operand(st, fr, o) for o in i.ops)
            self.setv(st, fr, i, ("op", op) + vs if TOP not in vs else TOP)
            return None
        if op == "call":
            return self.docall(f, fr, i, st)
        if op in ("extractvalue", "insertvalue", "freeze", "va_arg"):
            self.setv(st, fr, i, TOP)
            return None
        raise Broken("unhandled instruction %s at %s" % (op, i.loc))

    def decide(self, st, fr, i, v):
        """follow both outcomes of a comparison right away if the analysis asks"""
        if not self.isbool(v) or v == ("op", "?") or not self.ana.eager(self, st, fr, i, v):
            return None
        out = []
        for t in (True, False):
            for s in self.assume(st.copy(), v, t):
                self.setv(s, fr, i, C1 if t else C0)
                self.tr(s, "%s %s" % (i.loc, "holds" if t else "does not hold"))
                out.append(s)
        return out

    def touch_text_only(self, st, p):
        base, _ = split(p)
        if not any(self._strcall_on(k, base) for k in st.facts):
            return
        st.facts = {k: v for k, v in st.facts.items() if not self._strcall_on(k, base)}
        st.rel = {k: v for k, v in st.rel.items() if not self._strcall_on(k, base)}

    def binop(self, st, op, a, b, ty):
        if TOP in (a, b):
            return TOP
        if isc(a) and isc(b):
            x, y = a[1], b[1]
            try:
                r = {"add": x + y, "sub": x - y, "mul": x * y, "and": x & y, "or": x | y, "xor": x ^ y,
                     "shl": x << y if 0 <= y < 64 else 0, "lshr": x >> y if x >= 0 and 0 <= y < 64 else None, "ashr": x >> y if 0 <= y < 64 else None,
                     "sdiv": int(x / y) if y else None, "udiv": x // y if y > 0 and x >= 0 else None,
                     "srem": None, "urem": x % y if y > 0 and x >= 0 else None}[op]
            except Exception:
                r = None
            if r is not None:
                w = int(ty[1:]) if ty[0] == "i" else 64
                r &= (1 << w) - 1
                if w > 1 and r >> (w - 1):
                    r -= 1 << w
                return C(r)
        if ty == "i1":
            if op == "xor":
                if isc(b):
                    return self.neg(a) if b[1] & 1 else a
                if isc(a):
                    return self.neg(b) if a[1] & 1 else b
            if op == "and":
                if isc(a):
                    return b if a[1] else C0
                if isc(b):
                    return a if b[1] else C0
                return ("op", "and1", a, b)
            if op == "or":
                if isc(a):
                    return C1 if a[1] else b
                if isc(b):
                    return C1 if b[1] else a
                return ("op", "or1", a, b)
        if op == "sub" and isc(b):
            op, b = "add", C(-b[1])
        if op in ("add", "mul", "and", "or", "xor") and isc(a):
            a, b = b, a
        if op == "add":
            if isc(b):
                if b[1] == 0:
                    return a
                if a[0] == "op" and a[1] == "add" and isc(a[3]):
                    n = a[3][1] + b[1]
                    return a[2] if n == 0 else ("op", "add", a[2], C(n))
            elif b[0] == "op" and b[1] == "add" and isc(b[3]):
                return self.binop(st, "add", self.binop(st, "add", a, b[2], ty), b[3], ty)
            elif a[0] == "op" and a[1] == "add" and isc(a[3]):
                return self.binop(st, "add", self.binop(st, "add", a[2], b, ty), a[3], ty)
            elif repr(b) < repr(a):
                a, b = b, a
        if op == "sub":
            if a == b:
                return C0
            if a[0] == "p" and b[0] == "p" and a[1] == b[1] and a[2] == b[2]:
                return C0
            # pointer difference p+i - p
            ba, pa = split(a)
            bb, pb = split(b)
            if ba == bb and len(pa) == len(pb) + 1 and pa[:len(pb)] == pb and pa[-1][0] == "i" and pa[-1][2] == 1:
                return pa[-1][1]
            if ba == bb and len(pa) == len(pb) + 1 and pa[:len(pb)] == pb and pa[-1][0] == "i" and pa[-1][2] > 1:
                return ("op", "mul", pa[-1][1], C(pa[-1][2]))
        if op in ("sdiv", "udiv") and isc(b) and b[1] > 0 and a[0] == "op" and a[1] == "mul" and a[3] == b:
            return a[2]
        if op == "mul" and isc(b) and b[1] == 1:
            return a
        if op == "and":
            if isc(b):
                if b[1] == 0:
                    return C0
                if self.isbool(a) and b[1] & 1:
                    return a
                if b[1] == -1:
                    return a
        if op == "or" and isc(b) and b[1] == 0:
            return a
        if op == "xor" and isc(b) and b[1] == 1 and self.isbool(a):
            return self.neg(a)
        return ("op", op, a, b)

    def gep(self, st, fr, b, steps):
        if b == TOP:
            return TOP
        base, path = split(b)
        first = True
        for s in steps:
            if "f" in s:
                path = path + (("f", self.mod.field(s["f"], s["off"])),) if not s["f"].startswith("union.") else path
            else:
                v = self.operand(st, fr, s["i"])
                if v == TOP:
                    return TOP
                sz = s["sz"]
                c = st.const(v)
                if c is not None and not (v[0] != "c" and c == 0 and False):
                    v2 = v if v[0] != "c" else C(c)
                else:
                    v2 = v
                if path and path[-1][0] == "i" and path[-1][2] == sz and first:
                    nv = self.binop(st, "add", path[-1][1], v2, "i64")
                    path = path[:-1]
                    if nv != C0:
                        path = path + (("i", nv, sz),)
                elif v2 != C0:
                    path = path + (("i", v2, sz),)
            first = False
        return mkptr(base, path)

    # ---- calls ----------------------------------------------------------
    def docall(self, f, fr, i, st):
        ana = self.ana
        ana.stats["calls"] += 1
        c = i.d["callee"]
        args = [self.operand(st, fr, o) for o in i.ops]
        if c["k"] == "asm":
            self.setv(st, fr, i, TOP)
            return None
        target = ("fn", c["n"]) if c["k"] == "f" else self.operand(st, fr, c)
        if target[0] != "fn":
            fieldname = self.target_field(target)
            res = ana.icall(self, st, fr, i, fieldname, target, args)
            if res is None:
                sym = st.fresh(("s", "call", fr, f.name, i.id, "icall"), self)
                self.havoc(st, (fr, f.name, i.id))
                res = [(sym, st)]
        else:
            name = target[1]
            res = ana.call(self, st, fr, i, name, args)
            if res is None:
                g = self.mod.defined.get(name)
                if g is not None:
                    if name not in self.stack and len(self.stack) < ana.max_depth and ana.inline(self, st, fr, i, g):
                        res = self.inline(f, fr, i, st, g, args)
                    else:
                        res = self.opaque(st, fr, f, i, g, args)
                else:
                    res = self.external(f, fr, i, st, name, args)
        out = []
        for v, s in res:
            self.setv(s, fr, i, v)
            out.append(s)
        return out

    def opaque(self, st, fr, f, i, g, args):
        """a callee that is not entered: havoc exactly what it may write"""
        uid = ("H", fr, f.name, i.id)
        mod = self.mod.modset(g.name)
        sym = st.fresh(("s", "call", fr, f.name, i.id, g.src), self)
        self.ana.stats.setdefault("opaque", set()).add(g.src)
        if mod["any"]:
            self.havoc(st, (fr, f.name, i.id), keep={split(a)[0] for a in args})
            return [(sym, st)]
        st.fresh(uid)
        bases = set()
        outs = {k: {n for kk, n in mod["outs"] if kk == k} for k in "rc"}
        def out(k, n):
            return "*" in outs[k] or n in outs[k]
        for n, a in enumerate(args):
            b, p = split(a)
            if a[0] == "p" and (out("r", n) or out("c", n)):
                bases.add(b)
        for l in list(st.mem):
            b, p = l
            fs = [x for x in p if x[0] == "f"]
            hit = bool(fs) and any(x[1] in mod["fields"] for x in fs)
            if not fs and b in bases and (mod["raw"] or mod["chars"]):
                hit = True
            if b[0] in ("al", "bv") and b not in bases and not hit:
                continue
            if b[0] == "g" and self.mod.globals.get(b[1], {}).get("const"):
                continue
            if b[0] == "g" and b[1] in mod["globals"]:
                hit = True
            if hit:
                if st.mem[l][0] in ("zero", "copy"):
                    for m in list(st.mem):
                        if m != l and m[0] == b and m[1][:len(p)] == p:
                            del st.mem[m]
                st.mem[l] = ("hv", uid)
        # cells not yet read but covered by a bulk entry
        for l in list(st.mem):
            e = st.mem[l]
            if e[0] in ("zero", "copy") and mod["fields"]:
                pass
        if mod["chars"] or mod["raw"]:
            for n, a in enumerate(args):
                if a[0] in ("p", "s") and (out("c", n) or out("r", n) and "i8" in g.sig_of(n) or out("r", n) and "char" in g.sig_of(n) and "*" not in g.sig_of(n).replace("*", "", 1)):
                    self.touch_text_only(st, a)
        return [(sym, st)]

    def target_field(self, t):
        while t[0] == "op" and t[1].startswith("as:"):
            t = t[2]
        if t[0] == "s" and t[1] in ("init", "hv"):
            path = t[3][1]
            for s in reversed(path):
                if s[0] == "f":
                    return s[1]
        return None

    def inline(self, f, fr, i, st, g, args):
        self.ana.stats["inlined"].add(g.src)
        nfr = fr + ((f.name, i.id),)
        bv = dict((k, sz) for k, sz in i.get("byval", []))
        for n, p in enumerate(g.params):
            v = args[n] if n < len(args) else TOP
            if n in bv:
                al = ("bv", nfr, n)
                if al in st.made:
                    st.retire(al)
                st.made.add(al)
                b, pa = split(v)
                self.bulkcopy(st, (al, ()), (b, pa))
                v = ("p", al, ())
            st.env[(nfr, "a", n)] = v
        exits = self.run(g, nfr, [st])
        out = {}
        for e in exits:
            s = e.st
            s.env = {k: v for k, v in s.env.items() if k[0] != nfr}
            # locals of the callee are gone
            s.mem = {k: v for k, v in s.mem.items() if not (k[0][0] in ("al", "bv") and k[0][1] == nfr)}
            out.setdefault((e.val, s.key()), (e.val, s))
        res = list(out.values())
        if len(res) > 1:
            for v, s in res:
                s.env[("ret",)] = v
                self.gc(s, None, f, None, None)
            out = {}
            for v, s in res:
                v = s.env.pop(("ret",))
                out.setdefault((v, s.key()), (v, s))
            res = self.mergexits(list(out.values()), (fr, f.name, i.id, "exit"))
        return res

    def bulkcopy(self, st, dst, src, n=None):
        (db, dp), (sb, sp) = dst, src
        under = st.mem.get(dst)
        for l in list(st.mem):
            if l[0] == db and l[1][:len(dp)] == dp and beyond(("copy", db, dp, n), l[1][len(dp):]) is not True:
                del st.mem[l]
        if sb == TOP:
            st.mem[dst] = ("hv", ("top",))
            return
        for l, e in list(st.mem.items()):
            if l[0] == sb and l[1][:len(sp)] == sp and l[1] != sp and \
                    beyond(("copy", sb, sp, n), l[1][len(sp):]) is not True:
                st.mem[(db, dp + l[1][len(sp):])] = e if e[0] != "rd" else ("v", "?", None)
        # entries marked rd: materialise
        for l, e in list(st.mem.items()):
            if e == ("v", "?", None):
                del st.mem[l]
        e = st.mem.get((sb, sp))
        if e is not None and e[0] in ("zero", "copy", "v"):
            st.mem[(db, dp)] = e if e[0] == "v" or n is None else within(e[:3] if e[0] == "copy" else ("zero",), n, under)
        else:
            st.mem[(db, dp)] = within(("copy", sb, sp), n, under)

    def memcpy(self, st, i, fr, f, dst, src, n):
        db, dp = split(dst)
        sb, sp = split(src)
        if dst == TOP or db == TOP:
            return
        if n in (8, 4, 2, 1) and not any(l[0] == sb and len(l[1]) > len(sp) and l[1][:len(sp)] == sp for l in st.mem):
            ty = {8: "i64", 4: "i32", 2: "i16", 1: "i8"}[n]
            e = st.mem.get((sb, sp))
            if e is not None and e[0] == "v":
                ty, v = e[1], e[2]
            else:
                v = self.read(st, src, ty)
            self.ana.store(self, st, fr, i, dst, v)
            self.write(st, dst, ty, v, (fr, f.name, i.id))
            return
        self.ana.store(self, st, fr, i, dst, ("op", "copyof", src))
        # invalidate possible aliases of the destination's fields
        self.bulkcopy(st, (db, dp), (sb, sp), n)

    def external(self, f, fr, i, st, name, args):
        ana = self.ana
        ana.stats["externals"].add(name)
        uid = (fr, f.name, i.id)
        if name in IGNORE:
            return [(TOP, st)]
        if name in NORET or self.mod.funcs[name].d.get("noreturn"):
            ana.terminated(self, st, fr, i, name, args)
            return []
        if name in PURE:
            if TOP in args:
                return [(st.fresh(("s", "fresh") + uid, self), st)]
            v = ("op", "call:" + name) + tuple(args)
            if depth(v) > 17:
                v = st.fresh(("s", "fresh") + uid, self)
            if name in ("strlen", "strnlen"):
                st.setfact(v, 0, INF)
                c = self.read(st.copy(), args[0], "i8")
                if name == "strlen" and c != TOP:
                    if self.nonnull(st, c):
                        st.setfact(v, 1, INF)
                    elif st.const(c) == 0:
                        st.setfact(v, 0, 0)
            return [(v, st)]
        if name in PUREPTR:
            if TOP in args:
                return [(st.fresh(("s", "fresh") + uid, self), st)]
            v = ("op", "call:" + name) + tuple(args)
            if depth(v) > 17:
                v = st.fresh(("s", "fresh") + uid, self)
            return [(v, st)]
        if name in ALLOC:
            sym = st.fresh(("s", "heap") + uid + (name,), self)
            if name == "calloc":
                st.mem[(sym, ())] = ("zero",)
            s2 = st.copy()
            out = []
            if st.setfact(sym, ne=frozenset([0])):
                out.append((sym, st))
            out.append((C0, s2))
            return out
        if name in ("realloc", "reallocarray"):
            sym = st.fresh(("s", "heap") + uid + (name,), self)
            s2 = st.copy()
            st.setfact(sym, ne=frozenset([0]))
            return [(sym, st), (C0, s2)]
        if name == "free":
            return [(TOP, st)]
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove") or name in ("memcpy", "memmove"):
            n = st.const(args[2])
            if n is None:
                self.touch_chars(st, args[0])
            else:
                self.memcpy(st, i, fr, f, args[0], args[1], n)
            return [(args[0], st)]
        if name.startswith("llvm.memset") or name == "memset":
            b, p = split(args[0])
            if st.const(args[1]) == 0 and args[0] != TOP:
                n = st.const(args[2])
                z = within(("zero",), n, st.mem.get((b, p)))
                for l in list(st.mem):
                    if l[0] == b and l[1][:len(p)] == p and beyond(z, l[1][len(p):]) is not True:
                        del st.mem[l]
                st.mem[(b, p)] = z
            else:
                self.touch_chars(st, args[0])
            return [(args[0], st)]
        if name in PRINT:
            return [(st.fresh(("s", "fresh") + uid, self), st)]
        if name in ("snprintf", "vsnprintf", "sprintf", "vsprintf"):
            self.touch_chars(st, args[0])
            return [(st.fresh(("s", "fresh") + uid, self), st)]
        if name in ("strcpy", "strncpy", "strcat", "strncat", "stpcpy", "strlcpy", "strlcat"):
            self.touch_chars(st, args[0])
            return [(args[0], st)]
        if name in ("strtol", "strtoll", "strtoul", "strtoull", "strtod", "strtof", "strtold", "__isoc23_strtol", "__isoc23_strtoll", "__isoc23_strtoul", "__isoc23_strtoull"):
            if len(args) > 1 and args[1] != C0 and args[1] != TOP:
                e = st.fresh(("s", "fresh") + uid + ("end",), self)
                st.setfact(e, ne=frozenset([0]))
                self.write(st, args[1], "ptr", e, uid)
            return [(st.fresh(("s", "call") + uid + (name,), self), st)]
        if name == "getenv" or name == "secure_getenv":
            return [(st.fresh(("s", "call") + uid + (name,), self), st)]
        if name == "qsort":
            b, p = split(args[0])
            for l in list(st.mem):
                if l[0] == b and len(l[1]) > len(p) and l[1][:len(p)] == p:
                    st.mem[l] = ("hv", uid)
            return [(TOP, st)]
        if name in ("__errno_location", "__ctype_b_loc", "__ctype_tolower_loc", "__ctype_toupper_loc"):
            v = ("s", "ext", name)
            st.setfact(v, ne=frozenset([0]))
            return [(v, st)]
        if name in ("pipe", "dup", "dup2", "close", "fcntl", "read", "dup3", "pipe2", "open", "fileno", "isatty"):
            if name in ("pipe", "read", "pipe2"):
                p = args[0] if name != "read" else args[1]
                b, pa = split(p)
                for l in list(st.mem):
                    if l[0] == b and l[1][:len(pa)] == pa:
                        st.mem[l] = ("hv", uid)
                if (b, pa) not in st.mem:
                    st.mem[(b, pa)] = ("hv", uid)
            return [(st.fresh(("s", "call") + uid + (name,), self), st)]
        if name.startswith("pcre2_"):
            if "compile" in name:
                for a in args:
                    if a[0] == "p" and a[1][0] == "al":
                        self.write(st, a, "i32", st.fresh(("s", "fresh") + uid + (a[1][-1],), self), uid)
            if "get_error_message" in name:
                self.touch_chars(st, args[1])
            if "free" in name:
                return [(TOP, st)]
            return [(st.fresh(("s", "call") + uid + (name,), self), st)]
        ana.stats["unmodelled"].add(name)
        sym = st.fresh(("s", "call") + uid + (name,), self)
        self.havoc(st, uid, keep={split(a)[0] for a in args})
        return [(sym, st)]


def wloc(loc):
    """name of a memory cell for widening (without inner generations)"""
    return loc
