"""Ordering and uniqueness flags (P30)."""
import absint
import macros
from absint import C, C0, C1, TOP, LT, EQ, GT, split, mkptr, isc
from roles import *

PAIRV, PAIRK = "argus_pair_s.value", "argus_pair_s.key"
ELEMTY = {"INT": "i64", "FLOAT": "double", "STRING": "ptr", "BOOL": "i8", "KEY": "ptr"}


def declared(mod):
    """{collection type: handler} as the definition macros pair them"""
    defs = macros.definitions()
    D = macros.Data(macros.compiled(defs))
    out = {}
    for m, kind, t in defs:
        col, base = macros.collection(t)
        if col:
            h = D.fn(D.field(D.entry("w_" + m, 0), "handler"))
            if h in mod.defined:
                out[t] = (h, m)
    return out


def dispatchers(mod, h):
    """functions reached from the handler that act on the flags"""
    r = reads(mod)
    c = [n for n in reach(mod, h) if n != h and OPT + "flags" in r[n] and "qsort" in mod.closure(n)]
    return [mod.defined[n] for n in c if not any(m != n and m in c for m in reach(mod, n))]


def makesunique(mod, f):
    """takes a list and its length and gives back a length"""
    return f.ret in ("i64", "i32") and any(s.count("*") == 1 for s in f.sig[1:]) and any(mod.defined[n].headers for n in reach(mod, f.name)) \
        and "qsort" not in mod.closure(f.name) and not (mod.modset(f.name)["fields"] & {OPT + "value_count"})


class Flags(App):
    """what is done to the list on each path of the function that acts on the flags"""
    name = "flags"
    cap = 60
    exit_cap = 200

    def __init__(self, mod):
        super().__init__(mod)
        self.bad = []
        self.seen = set()

    def inline(self, eng, st, fr, inst, f):
        return True

    def lst(self, eng, st):
        return eng.read(st, fieldptr(("s", "arg", 0), OPT + "value"), "ptr")

    def cnt(self, eng, st):
        return eng.read(st, fieldptr(("s", "arg", 0), OPT + "value_count"), "i64")

    def call(self, eng, st, fr, inst, name, args):
        if name == "qsort":
            n = self.cnt(eng, st)
            if args[0] != self.lst(eng, st) or args[1] != n:
                self.bad.append((inst.fn, "sorts something other than the option's current elements", absint.path_of(st)))
            cmp = args[3][1] if args[3][0] == "fn" else None
            ps(st, sorted=("t", cmp, args[2][1] if isc(args[2]) else None))
            self.seen.add(("sort", cmp))
            return [(TOP, st)]
        g = self.mod.defined.get(name)
        if g is not None and makesunique(self.mod, g):
            k = [n for n in range(len(g.params)) if g.sig_of(n).count("*") == 1]
            j = [n for n in range(len(g.params)) if n not in k]
            if args[k[0]] != self.lst(eng, st) or self.cnt(eng, st) not in [args[n] for n in j]:
                self.bad.append((inst.fn, "removes duplicates from something other than the option's current elements", absint.path_of(st)))
            consts = tuple((n, st.const(args[n])) for n in j if args[n] != TOP and st.const(args[n]) is not None)
            r = st.fresh(("s", "call", fr, inst.fn.name, inst.id, "unique"), eng)
            st.setfact(r, 0, absint.INF)
            ps(st, unique=("t", name, consts), kept=r)
            self.seen.add(("unique", name, consts))
            return [(r, st)]
        return None

    def renamed(self, eng, st, obj, v, sym):
        if v[0] in ("op", "old", "s"):
            super().renamed(eng, st, obj, v, sym)


def run_flags(ctx):
    mod = ctx.mod
    for r, t in (("acts", "a handler applies the option's flags after its last element on every successful path"),
                 ("sorted", "a collection is sorted by its own elements exactly when its flag says so"),
                 ("unique", "duplicates are removed exactly when the flag says so, and the count kept is stored"),
                 ("comparator", "a comparison orders two elements by the member and type they are stored as"),
                 ("same", "an element is dropped only when it equals one that is kept, and kept only when it differs from every one kept so far"),
                 ("width", "integers are compared in the width they are stored in")):
        ctx.rule(r, t)
    types = declared(mod)
    ctx.need(len(types) >= 8, "only %d collection types with handlers of the library" % len(types))
    comps, uniqs = {}, {}
    for t, (h, m) in sorted(types.items()):
        col, base = macros.collection(t)
        hf = mod.defined[h]
        ds = dispatchers(mod, h)
        ctx.inst("acts")
        if not ds:
            ctx.violation("acts", where(hf), "never acts on the flags of its collection")
            continue
        acts(ctx, mod, hf, ds)
        for d in ds:
            dispatch(ctx, mod, t, col, base, d, comps, uniqs)
    for (fn, elem), at in sorted(comps.items()):
        comparator(ctx, mod, fn, elem, at)
    for (fn, consts, elem), at in sorted(uniqs.items(), key=str):
        uniqueness(ctx, mod, fn, dict(consts), elem)
    ctx.setcount("collection_types", len(types))
    ctx.setcount("comparators", len(comps))
    ctx.setcount("uniqueness_functions", len(uniqs))


class Acts(App):
    name = "acts"
    cap = 40
    exit_cap = 100

    def __init__(self, mod, ds):
        super().__init__(mod)
        self.ds = {d.name for d in ds}

    def inline(self, eng, st, fr, inst, f):
        w = self.mod.modset(f.name)["fields"]
        return OPT + "value_count" in w and f.name not in self.ds or bool(reach(self.mod, f.name) & self.ds) and f.name not in self.ds

    def call(self, eng, st, fr, inst, name, args):
        if name in self.ds:
            ps(st, acted=C1 if args and args[0] == ("s", "arg", 1) else C0)
        return None

    def store(self, eng, st, fr, inst, ptr, val):
        b, p = split(ptr)
        if p and p[-1] == ("f", OPT + "value_count") and inst.fn.name not in self.ds:
            ps(st, acted=C0, stored=C1)


def acts(ctx, mod, hf, ds):
    ana = Acts(mod, ds)
    eng = ctx.engine(ana)
    for e in eng.run_root(hf):
        for s in eng.assume(e.st.copy(), eng.icmp(e.st, "eq", e.val, C0), True):
            ctx.inst("acts")
            if s.ps.get("stored") == C1 and s.ps.get("acted") != C1:
                ctx.violation("acts", where(hf), "may succeed without acting on the flags after it stored an element", absint.path_of(s))
    ctx.absorb(ana)


def dispatch(ctx, mod, t, col, base, d, comps, uniqs):
    ana = Flags(mod)
    eng = ctx.engine(ana)
    E = mod.enum
    o = ("s", "arg", 0)
    vt = C(E("VALUE_TYPE_" + t))

    def setup(st):
        eng.write(st, fieldptr(o, OPT + "value_type"), "i32", vt, ("type",))
        st.setfact(ana.cnt(eng, st), 2, absint.INF)
        # only a definition's own flags are acted on
        ps(st, flags=eng.read(st, fieldptr(o, OPT + "flags"), "i32"), n0=ana.cnt(eng, st), l0=ana.lst(eng, st))
    exits = eng.run_root(d, setup=setup)
    ctx.absorb(ana)
    w = where(d)
    for fn, msg, tr in ana.bad:
        ctx.violation("sorted" if "sorts" in msg else "unique", where(fn), msg, tr)
    if col == "MAP":
        sk, sv, u = E("FLAG_SORTED_KEY"), E("FLAG_SORTED_VALUE"), E("FLAG_UNIQUE_VALUE")
        want = lambda key, val: "KEY" if key else base if val else None
    else:
        sk, sv, u = None, E("FLAG_SORTED"), E("FLAG_UNIQUE")
        want = lambda key, val: base if val else None
    for e in exits:
        cases = [((), e.st)]
        for m in (sk, sv, u):
            if m is None:
                cases = [(c + (False,), s) for c, s in cases]
                continue
            nx = []
            for c, s in cases:
                fl = s.ps["flags"]
                b = bits(eng, s, fl, m)
                for v in ([b] if b is not None else [True, False]):
                    if b is not None:
                        nx.append((c + (v,), s))
                    else:
                        nx += [(c + (v,), x) for x in eng.assume(s.copy(), ("op", "icmp", "ne", ("op", "and", fl, C(m)), C0), v)]
            cases = nx
        for (key, val, uni), s in cases:
            tr = absint.path_of(s)
            ctx.inst("unique")
            got = s.ps.get("unique")
            if uni and not got:
                ctx.violation("unique", w, "may leave duplicates in a collection of type %s" % t, tr)
            elif not uni and got:
                ctx.violation("unique", w, "removes duplicates from a collection of type %s without being asked to" % t, tr)
            n = ana.cnt(eng, s)
            if n != (s.ps["kept"] if got else s.ps["n0"]) and not (got and truth(eng, s, "eq", n, s.ps["kept"])):
                ctx.violation("unique", w, "does not store the number of elements kept for type %s" % t, tr)
            if ana.lst(eng, s) != s.ps["l0"]:
                ctx.violation("unique", w, "replaces the elements of type %s" % t, tr)
            if got:
                uniqs.setdefault((got[1], got[2], base if col != "MAP" else "MAP_" + base), w)
            ctx.inst("sorted")
            srt = s.ps.get("sorted")
            by = want(key, val)
            if by and not srt and truth(eng, s, "ule", n, C1) is not True:
                ctx.violation("sorted", w, "may leave a collection of type %s unsorted although asked to sort it" % t, tr)
            elif srt and not by:
                ctx.violation("sorted", w, "sorts a collection of type %s without being asked to" % t, tr)
            elif srt:
                size = mod.diu["argus_pair_s" if col == "MAP" else "argus_value_u"]["size"]
                if srt[2] != size:
                    ctx.violation("sorted", w, "sorts type %s with elements of %s bytes" % (t, srt[2]), tr)
                if srt[1] not in mod.defined:
                    ctx.violation("sorted", w, "compares type %s by something other than a function of the library" % t, tr)
                else:
                    comps.setdefault((srt[1], ("MAP_" if col == "MAP" else "") + by), w)


def member(eng, st, ptr, elem, ty=None):
    col = elem.startswith("MAP_")
    base = elem[4:] if col else elem
    b, p = split(ptr)
    if base == "KEY":
        p = p + (("f", PAIRK),)
    elif col:
        p = p + (("f", PAIRV),)
    return eng.read(st, mkptr(b, p), ty or ELEMTY[base])


class Plain(App):
    name = "comparator"

    def inline(self, eng, st, fr, inst, f):
        return True


def relation(eng, st, x, y, base):
    """('LT'|'EQ'|'GT') possibilities the path leaves between two elements"""
    if base in ("STRING", "KEY"):
        c, s = ("op", "call:strcmp", x, y), 1
        l, h, n = st.fact(c)
        if (l, h, n) == (-absint.INF, absint.INF, frozenset()):
            c, s = ("op", "call:strcmp", y, x), -1
        out = set()
        for r, p in (("LT", "slt"), ("EQ", "eq"), ("GT", "sgt")):
            if truth(eng, st, p, c, C0) is not False:
                out.add(r if s > 0 else {"LT": "GT", "EQ": "EQ", "GT": "LT"}[r])
        return out
    if base == "BOOL":
        tv = {None: (0, 1), True: (0,), False: (1,)}
        return {"LT" if i < j else "EQ" if i == j else "GT" for i in tv[zero(eng, st, x)] for j in tv[zero(eng, st, y)] if possible(eng, st, x, i, y, j)}
    if base == "FLOAT":
        return {r for r, p in (("LT", "olt"), ("EQ", "oeq"), ("GT", "ogt")) if boolval(eng, st, ("op", "fcmp", p, x, y)) is not False}
    return {r for r, p in (("LT", "slt"), ("EQ", "eq"), ("GT", "sgt")) if truth(eng, st, p, x, y) is not False}


def possible(eng, st, x, i, y, j):
    """may the truth values x and y be i and j, as far as they were compared?"""
    val = {}
    for v, t in ((x, i), (y, j)):
        val[("op", "icmp", "ne", v, C0)] = t
        val[("op", "icmp", "eq", v, C0)] = 1 - t
    for k, have in st.rel.items():
        if k[0] != "s":
            continue
        a, b = fold(k[1], val), fold(k[2], val)
        if a is not None and b is not None and not have & (LT if a < b else EQ if a == b else GT):
            return False
    return True


def bare(v):
    while v[0] == "op" and (v[1:3] == ("icmp", "ne") and v[4] == C0 or v[1] in ("sext", "zext", "trunc", "ext") or v[1].startswith("as:")):
        v = v[3] if v[1] == "icmp" else v[2]
    return v


def booleans(eng, v, out):
    if v[0] == "op":
        if v[1] in ("icmp", "fcmp"):
            if v not in out:
                out.append(v)
        else:
            for x in v[2:]:
                if type(x) is tuple:
                    booleans(eng, x, out)
    return out


def fold(v, val):
    """integer value of an expression over decided comparisons"""
    if v in val:
        return val[v]
    if v[0] == "c":
        return v[1]
    if v[0] == "op" and v[1] in ("add", "sub", "mul") and len(v) == 4:
        a, b = fold(v[2], val), fold(v[3], val)
        return None if a is None or b is None else a + b if v[1] == "add" else a - b if v[1] == "sub" else a * b
    if v[0] == "op" and (v[1] in ("sext", "zext", "trunc", "ext") or v[1].startswith("as:")):
        return fold(v[2], val)
    return None


def decided(eng, st, v):
    """[(integer, state)] when the result is made of comparisons, e.g. (a > b) - (a < b)"""
    bs = booleans(eng, v, [])
    if not bs or len(bs) > 4:
        return None
    cs = [({}, st)]
    for b in bs:
        cs = [(dict(val, **{}) | {b: int(t)}, s2) for val, s in cs for t in (True, False) for s2 in eng.assume(s.copy(), b, t)]
    out = [(fold(v, val), s) for val, s in cs]
    return None if any(n is None for n, _ in out) else out


def comparator(ctx, mod, fn, elem, at):
    f = mod.defined[fn]
    base = elem.replace("MAP_", "")
    ana = Plain(mod)
    eng = ctx.engine(ana)
    a, b = ("s", "arg", 0), ("s", "arg", 1)
    exits = eng.run_root(f)
    w = where(f)
    for e in exits:
        st = e.st
        x, y = member(eng, st, a, elem), member(eng, st, b, elem)
        if ELEMTY[base] == "ptr" and (zero(eng, st, x) is True or zero(eng, st, y) is True):
            continue        # stored texts are never NULL
        ctx.inst("comparator")
        v = e.val
        if v == ("op", "call:strcmp", x, y) and ELEMTY[base] == "ptr":
            continue
        if base == "BOOL" and v[0] == "op" and v[1] == "sub" and bare(v[2]) == bare(x) and bare(v[3]) == bare(y):
            continue
        vals = []
        d = decided(eng, st, v) if v != TOP else None
        if d is not None:
            vals = [("LT" if n < 0 else "GT" if n > 0 else "EQ", s) for n, s in d]
            v = TOP
        for p, r in (("slt", "LT"), ("eq", "EQ"), ("sgt", "GT")):
            for s in (eng.assume(st.copy(), eng.icmp(st, p, v, C0), True) if v != TOP else []):
                vals.append((r, s))
        if not vals:
            ctx.violation("comparator", w, "its result for elements of type %s does not follow from comparing them" % elem, absint.path_of(st))
        for r, s in vals:
            if relation(eng, s, x, y, base) == {r}:
                continue
            if base == "INT" and relation(eng, s, member(eng, s, a, elem, "i32"), member(eng, s, b, elem, "i32"), base) == {r}:
                ctx.violation("width", "FLAG_SORTED over %s elements" % elem, w + " compares only the low 32 bits of the integers", absint.path_of(s))
                continue
            ctx.violation("comparator", w, "its result for elements of type %s does not follow from comparing them" % elem, absint.path_of(s))
    ctx.absorb(ana)


class Unique(App):
    """one pass that keeps the first of equal elements: which elements an
    iteration has compared with which of the kept ones"""
    name = "unique"
    cap = 80
    exit_cap = 200

    def __init__(self, mod, f, elem, arr, cnt):
        super().__init__(mod)
        self.f, self.elem, self.base = f, elem, elem.replace("MAP_", "")
        self.arr, self.cnt = ("s", "arg", arr), ("s", "arg", cnt)
        self.bad = []
        self.kept = set()
        self.turns = 0
        self.narrow = set()

    def inline(self, eng, st, fr, inst, f):
        return True

    # which element of the list an address or value belongs to
    def index(self, ptr):
        b, p = split(ptr)
        if b == self.arr and p and p[0][0] == "i":
            return p[0][1]
        if b == self.arr and not p:
            return C0
        if b == self.arr and p and p[0][0] == "f":
            return C0
        return None

    def owner(self, v):
        v = bare(v)
        if v[0] == "s" and v[1] in ("init", "hv") and len(v) > 4:
            b, p = v[3]
            if b == self.arr:
                return p[0][1] if p and p[0][0] == "i" else C0
        return None

    def isnarrow(self, v):
        v = bare(v)
        return v[0] == "s" and v[1] in ("init", "hv") and v[4] == "i32"

    def right(self, v):
        """is it the member the element is stored as?"""
        v = bare(v)
        b, p = v[3]
        f = [x for x in p if x[0] == "f"]
        col = self.elem.startswith("MAP_")
        return (f == [("f", PAIRV)] if col else not f) and v[4] == ELEMTY[self.base]

    def related(self, eng, st):
        """{(i, j): 'EQ'|'NE'} elements whose comparison this path has decided"""
        out = {}

        def put(a, b, r):
            i, j = self.owner(a), self.owner(b)
            if i is None or j is None or i == j:
                return
            if self.base == "INT" and self.isnarrow(a) and self.isnarrow(b):
                self.narrow.add(self.f.name)
            elif not (self.right(a) and self.right(b)):
                return
            out[(i, j)] = out[(j, i)] = r
        for k, have in st.rel.items():
            if k[0] == "f":
                continue
            a, b = k[1:]
            put(a, b, "EQ") if have == EQ else put(a, b, "NE") if not have & EQ else None
        for v, (l, h, n) in st.facts.items():
            if v[0] == "op" and v[1] == "call:strcmp":
                if l == h == 0:
                    put(v[2], v[3], "EQ")
                elif 0 in n or l > 0 or h < 0:
                    put(v[2], v[3], "NE")
        for a, b, r in self.floats(eng, st):
            put(a, b, r)
        return out

    def floats(self, eng, st):
        for k, have in st.rel.items():
            if k[0] != "f":
                continue
            for x, y, bitset in ((k[-2], k[-1], have), (k[-1], k[-2], absint.swapbits(have))):
                if self.owner(x) is not None and self.owner(y) is not None:
                    # bits of FCMP: decide by the comparison itself
                    z = [boolval(eng, st, ("op", "fcmp", p, x, y)) for p in ("oeq", "une")]
                    if True in z:
                        yield x, y, "EQ" if z[0] else "NE"
                    continue
                if x[0] == "op" and x[1].startswith("call:") and "fabs" in x[1] and x[2][0] == "op" and x[2][1] == "fsub" and y[0] == "fp":
                    lt = boolval(eng, st, ("op", "fcmp", "olt", x, y))
                    le = boolval(eng, st, ("op", "fcmp", "ole", x, y))
                    if float(y[1]) <= 1e-6 and (lt is True or le is True):
                        yield x[2][2], x[2][3], "EQ"
                    elif lt is False or le is False:
                        yield x[2][2], x[2][3], "NE"

    def counters(self, st):
        out = set()
        for k, v in st.env.items():
            if v[0] == "s" and v[1] == "phi":
                out.add(v)
        return out

    def learn(self, eng, st):
        rel = self.related(eng, st)
        for (i, j), r in rel.items():
            if r == "EQ":
                for k in self.counters(st) | {i}:
                    if k != j and (truth(eng, st, "ult", j, k) is True):
                        self.latch(st, "dup", (i, k))
        return rel

    def branch(self, eng, st, fr, inst, cond, truth_):
        self.learn(eng, st)

    def phis(self, fr, f, hdr):
        return [("s", "phi", fr, f.name, i.id) for i in f.blocks[hdr] if i.op == "phi"]

    def turned(self, eng, st, fr, f, hdr, vals):
        rel = self.learn(eng, st)
        mine = self.phis(fr, f, hdr)
        found = False
        for J in mine:
            ne = {i for (i, j), r in rel.items() if r == "NE" and j == J}
            eq = {i for (i, j), r in rel.items() if r == "EQ" and j == J}
            for i in ne - eq:
                self.latch(st, "with", (fr, hdr, i))
            found |= bool(ne - eq)
        if not found:
            self.latch(st, "spoilt", (fr, hdr))
        if fr == () and not any(hdr in body for h, body in f.loops.items() if h != hdr):
            self.outer(eng, st, fr, f, hdr, vals)

    def backedge(self, eng, st, fr, f, hdr):
        pass

    def loaded(self, eng, st, fr, inst, ptr, val):
        if ELEMTY[self.base] == "ptr" and val[0] == "s" and self.owner(val) is not None:
            st.setfact(val, ne=frozenset([0]))      # stored texts are never NULL

    def loopexit(self, eng, st, fr, f, hdr):
        self.learn(eng, st)
        w = {x[2] for x in st.ps.get("with", ("set", ()))[1] if x[:2] == (fr, hdr)}
        spoilt = self.has(st, "spoilt", (fr, hdr))
        for J in self.phis(fr, f, hdr):
            c = eng.cursor(st, J)
            if not c or c[1] != 1 or c[0] != C0:
                continue
            for K in self.counters(st):
                if K != J and truth(eng, st, "ult", J, K) is False and not spoilt:
                    for i in (w or {"*"}):
                        self.latch(st, "new", (i, K))
        st.ps = {k: ("set", frozenset(y for y in x[1] if y[:2] != (fr, hdr))) if k in ("with", "spoilt") else x for k, x in st.ps.items()}
        # the pass over the whole list
        for I in self.phis(fr, f, hdr):
            c = eng.cursor(st, I)
            if c and c[1] == 1 and c[0] in (C0, C1) and truth(eng, st, "ult", I, self.cnt) is False:
                self.latch(st, "whole", c[0])

    def outer(self, eng, st, fr, f, hdr, vals):
        """one element of the list is settled"""
        regular = {}
        for pid, v in vals.items():
            s = ("s", "phi", fr, f.name, pid)
            c = eng.cursor(st, s)
            if c:
                regular[s] = (c, v)
        I = [s for s, (c, v) in regular.items() if v == ("op", "add", s, C1) and c[1] == 1 and isc(c[0])]
        self.turns += 1
        ks = [K for K, o in self.kept if K in regular]
        for K in ks:
            v = regular[K][1]
            if v == K:
                if not any(self.has(st, "dup", (i, k)) for i in I for k in set(I) | {K}):
                    self.bad.append(("drops an element that need not equal one that is kept", absint.path_of(st)))
            elif v == ("op", "add", K, C1):
                ok = [i for i in I if self.has(st, "new", (i, K)) or self.has(st, "new", ("*", K))]
                if not ok:
                    self.bad.append(("keeps an element without having compared it with every one kept so far", absint.path_of(st)))
                elif not any(self.moved(eng, st, K, i) for i in ok):
                    self.bad.append(("does not store the element it keeps behind the others kept", absint.path_of(st)))
        for k in ("dup", "new"):
            st.ps = {a: b for a, b in st.ps.items() if a != k}

    def moved(self, eng, st, K, i):
        if truth(eng, st, "eq", K, i) is True:
            return True
        pair = self.elem.startswith("MAP_")
        size = self.mod.diu["argus_pair_s" if pair else "argus_value_u"]["size"]
        at = mkptr(self.arr, (("i", K, size),))
        for e in [self.elem] + (["MAP_KEY"] if pair else []):
            o = self.owner(member(eng, st, at, e))
            if o is not None and o != i:
                return False
        return True

    def judge(self, eng, e):
        """(rule message, path) of a wrong result"""
        v, st = e.val, e.st
        if v == self.cnt:
            return None if truth(eng, st, "ule", self.cnt, C1) is True else "reports every element kept without having compared them"
        ks = {K: o for K, o in self.kept}
        if v not in ks:
            return None if not ks or v[0] != "s" or truth(eng, st, "ule", self.cnt, C1) is True else "returns something other than the number of elements kept"
        if not self.has(st, "whole", ks[v]):
            return "may end before every element was looked at"
        return None


def uniqueness(ctx, mod, fn, consts, elem):
    f = mod.defined[fn]
    base = elem.replace("MAP_", "")
    arr = [n for n in range(len(f.params)) if f.sig_of(n).count("*") == 1][0]
    cnt = [n for n in range(len(f.params)) if n != arr and n not in consts][0]
    ana = Unique(mod, f, elem, arr, cnt)
    eng = ana.eng = ctx.engine(ana)

    def setup(st):
        for n, v in consts.items():
            st.setfact(("s", "arg", n), v, v)
    w = where(f)
    # the counter of the elements kept is what it returns
    for e in eng.run_root(f, setup=setup):
        c = eng.cursor(e.st, e.val)
        if c:
            ana.kept.add((e.val, c[0]))
    kept = ana.kept
    ana = Unique(mod, f, elem, arr, cnt)
    ana.kept = kept
    eng = ana.eng = ctx.engine(ana)
    exits = eng.run_root(f, setup=setup)
    ctx.absorb(ana)
    ctx.inst("width")
    if ana.narrow:
        ctx.violation("width", "FLAG_UNIQUE over %s elements" % elem, w + " compares only the low 32 bits of the integers")
    if not ana.kept:
        ctx.notes.append("%s: how it removes duplicates of type %s is not understood" % (f.src, elem))
        return
    ctx.inst("same", ana.turns)
    for msg, tr in ana.bad:
        ctx.violation("same", w, "%s (elements of type %s)" % (msg, elem), tr)
    for e in exits:
        ctx.inst("same")
        msg = ana.judge(eng, e)
        if msg:
            ctx.violation("same", w, "%s (elements of type %s)" % (msg, elem), absint.path_of(e.st))
