"""What a dotted path names (P19)."""
import absint
from absint import C, C0, C1, TOP, LT, EQ, GT, split, mkptr, isc
from roles import *
from levels import Levels, plain
from lookups import calls_of, ends, samestring, lookups

STACK, DEPTH, OPTIONS = ARG + "subcommand_stack", ARG + "subcommand_depth", ARG + "options"
DOT = C(ord("."))


class Path(Levels):
    name = "paths"
    rename_all = True

    def __init__(self, mod, f, leafs, counters):
        super().__init__(mod)
        self.f, self.leafs, self.counters, self.ncount = f, leafs, counters, 0
        n = [k for k in range(len(f.params)) if "argus" in f.sig_of(k) and "option" not in f.sig_of(k)][0]
        self.A = ("s", "arg", n) if "*" in f.sig_of(n) else ("p", ("bv", absint.ROOT if hasattr(absint, "ROOT") else "root", n), ())
        self.P = ("s", "arg", [k for k in range(len(f.params)) if "char" in f.sig_of(k)][0])
        self.opt_obl = {"looked": lambda *a: False}
        self.seen = 0

    def setup(self, st):
        # the record of active subcommands is small (P15)
        b, p = split(self.A)
        d = ("s", "init", ("E0",), (b, p + (("f", DEPTH),)), "i64")
        st.setfact(d, 0, 1 << 20)
        st.setfact(("op", "trunci32", d), 0, 1 << 20)

    def inline(self, eng, st, fr, inst, f):
        return True

    def call(self, eng, st, fr, inst, name, args):
        if name in self.counters:
            self.ncount += 1
            sym = st.fresh(("s", "call", fr, "COUNT", inst.fn.name, inst.id), eng)
            if args[0] != self.P:
                return [(sym, st)]
            # the text has a dot exactly when dots were counted
            dot, out = ("op", "call:strchr", self.P, DOT), []
            for t in (True, False):
                for s in eng.assume(st.copy(), eng.icmp(st, "ne", sym, C0), t):
                    out += [(sym, x) for x in eng.assume(s, eng.icmp(s, "ne", dot, C0), t)]
            return out
        if name not in self.leafs:
            return None
        self.seen += 1
        sym = st.fresh(("s", "call", fr, "LOOKUP", inst.fn.name, inst.id), eng)
        t = [a for k, a in enumerate(args) if "option" in self.mod.defined[name].sig_of(k)][0]
        g = [a for k, a in enumerate(args) if "char" in self.mod.defined[name].sig_of(k)][0]
        out = []
        for z in (True, False):
            for s in eng.assume(st.copy(), eng.icmp(st, "eq", sym, C0), z):
                if z:
                    self.latch(s, "done", ("looked", t))
                    ps(s, iter=C1)
                    ps(s, miss=("t", self.where(eng, s, fr, t, g, False), C1 if g == self.P and "m" not in st.ps else C0))
                    out.append((C0, s))
                else:
                    ps(s, hit=("t", sym, self.where(eng, s, fr, t, g, True)))
                    out.append((sym, s))
        return out

    # -- which level a table belongs to
    def root(self, eng, st):
        return fval(eng, st, self.A, OPTIONS, "ptr")

    def stackslot(self, t):
        """t is the table of the stack's entry ... : (index) or None"""
        o, fl = cell(t)
        if fl != OPT + "sub_options":
            return None
        while o[0] == "op" and o[1].startswith("as:"):
            o = o[2]
        if o[0] != "s" or o[1] not in ("init", "hv"):
            return None
        b, p = o[3]
        if len(p) >= 2 and p[-1][0] == "i" and p[-2] == ("f", STACK) and mkptr(b, p[:-2]) == self.A:
            return p[-1][1]
        if p and p[-1] == ("f", STACK) and mkptr(b, p[:-1]) == self.A:
            return C0
        return None

    def where(self, eng, st, fr, t, g, found):
        """is looking g up in table t what the path asks for here?"""
        P = self.P
        c = [x for x in calls_of(st, "strchr", "strrchr", "memchr") if x[2] == g and x[3] == DOT]
        dotted = {not zero(eng, st, x) for x in c if zero(eng, st, x) is not None}
        first = eng.read(st, P, "i8")
        if g == P and "m" not in st.ps:
            if dotted != {False}:
                return C(2) if self.ncount or t != self.root(eng, st) else C0
            if not found:
                return C0
            # innermost level first
            d = fval(eng, st, self.A, DEPTH, "i64")
            if t == self.root(eng, st) and (zero(eng, st, d) is True or self.has(st, "done", ("stk", "looked"))):
                return C0
            return C0 if self.deeper_done(eng, st, t, d) else C(3)
        b, p = split(g)
        if b == P and p == (("i", C1, 1),) and truth(eng, st, "eq", first, DOT) is True:
            return C0 if t == self.root(eng, st) else C(4)
        if g not in self.aliases(eng, st, "rest"):
            return C(5)
        if t not in self.aliases(eng, st, "lvl"):
            return C(4)
        if dotted != {False} and "last" not in st.ps:
            return C(6)
        return C0

    # relations are forgotten with the values they are about: note what they mean
    def branch(self, eng, st, fr, inst, cond, truth):
        if "excuse" not in st.ps and self.excused(eng, st):
            ps(st, excuse=C1)

    def loopexit(self, eng, st, fr, f, hdr):
        if st.ps.get("m") == ("t", fr, f.name, C(hdr)) and self.exhausted(eng, st):
            ps(st, last=C1)
        return super().loopexit(eng, st, fr, f, hdr)

    def exhausted(self, eng, st):
        """the walk over the components ended by its count"""
        m = st.ps["m"]
        for cl, a, b in st.rel:
            for i, x in ((a, b), (b, a)):
                if i[:2] == ("s", "phi") and i[2:4] == m[1:3] and not isc(x) and self.counts(x) and truth(eng, st, "ult", i, x) is False:
                    return True
        return False

    def deeper_done(self, eng, st, t, d):
        """within a downward walk: every level deeper than t's was searched"""
        x = self.stackslot(t)
        for k, v in st.env.items():
            if len(k) != 2 or type(v) is not tuple or v[:2] != ("s", "phi"):
                continue
            c = eng.cursor(st, v)
            if c is None or c[1] != -1 and not raw(st, v):
                continue
            if any(y[0] == "stk:looked" and y[1:3] == (v[2], v[3]) for y in st.ps.get("bad", ("set", frozenset()))[1]):
                continue
            org = plain(c[0])
            if x is None:
                if zero(eng, st, v) is True and truth(eng, st, "eq", org, d) is True and t == self.root(eng, st):
                    return True
                continue
            for s in (C0, C(-1)):
                if same(eng, st, x, eng.binop(st, "add", v, s, "i64") if s != C0 else v) and \
                        same(eng, st, eng.binop(st, "add", org, s, "i64") if s != C0 else org, eng.binop(st, "add", d, C(-1), "i64")):
                    return True
        return False

    # -- components
    def backedge(self, eng, st, fr, f, hdr):
        self.component(eng, st, fr, f, hdr)
        return super().backedge(eng, st, fr, f, hdr)

    def aliases(self, eng, st, key):
        out = {x[1] for x in st.ps.get(key, ("set", ()))[1]}
        out.discard(TOP)
        if "m" not in st.ps:
            out.add(self.P if key == "rest" else self.root(eng, st))
        return out

    def compared(self, eng, st):
        """(index, result, end of the component, next level): the component
        looked at now compared with the names of active subcommands"""
        for g in self.aliases(eng, st, "rest"):
            for d in calls_of(st, "strchr", "memchr"):
                if d[2] != g or d[3] != DOT or zero(eng, st, d) is not False:
                    continue
                lens = {k for k in self.lengths(st, d, g)}
                for n in self.names(st):
                    x = self.stackslot(mkptr_sub(n))
                    if x is None:
                        continue
                    for l in lens:
                        r = samestring(eng, st, n, g, l)
                        if r is not None:
                            yield x, r, d, n

    def lengths(self, st, d, g):
        out = {("op", "pdiff", d, g)}

        def go(v):
            if type(v) is not tuple:
                return
            if len(v) == 4 and v[0] == "op" and v[1] == "sub" and under(v[2]) == d and under(v[3]) == g:
                out.add(v)
            for x in v:
                if type(x) is tuple:
                    go(x)
        for k in list(st.facts) + list(st.rel):
            go(k)
        return out

    def names(self, st):
        """names of entries of the stack that were compared"""
        out = set()
        for c in calls_of(st, "strcmp", "strncmp", "memcmp", "strlen"):
            for v in c[2:4]:
                if type(v) is tuple and v[0] == "s" and v[1] in ("init", "hv") and cell(v)[1] == OPT + "name":
                    out.add(v)
        return out

    def component(self, eng, st, fr, f, hdr):
        here = ("t", fr, f.name, C(hdr))
        if st.ps.get("m", here) != here:
            return
        for x, r, d, n in self.compared(eng, st):
            if r is not True or x[0] != "s" or x[1] != "phi" or x[2:4] != (fr, f.name):
                continue
            c = eng.cursor(st, x)
            first = "m" not in st.ps
            if not (zero(eng, st, x) is True if first else c and c[0] == C0 and c[1] == 1):
                continue
            sub = fval(eng, st, cell(n)[0], OPT + "sub_options", "ptr")
            ps(st, m=here, rest=("set", frozenset([("is", mkptr(*plus(d)))])), lvl=("set", frozenset([("is", sub)])))
            return
        if "m" in st.ps:
            ps(st, rest=("set", frozenset()), lvl=("set", frozenset()))

    def retiring(self, st, sym):
        keep = {k: st.ps[k] for k in ("rest", "lvl") if k in st.ps}
        super().retiring(st, sym)
        ps(st, **keep)

    def renamed(self, eng, st, obj, v, sym):
        for k in ("rest", "lvl"):
            if v in self.aliases(eng, st, k):
                self.latch(st, k, ("is", sym))
        if v[0] in ("op", "old"):
            super().renamed(eng, st, obj, v, sym)

    def judge(self, ctx, eng, e):
        f, st = self.f, e.st
        w, tr = where(f), absint.path_of(st)
        for t in (True, False):
            for s in eng.assume(st.copy(), eng.icmp(st, "eq", e.val, C0), t):
                ctx.inst("level" if not t else "absent")
                if not t:
                    h = s.ps.get("hit")
                    if h is None or h[1] != e.val:
                        ctx.violation("level", w, "returns something no lookup found", tr)
                    elif h[2] != C0:
                        ctx.violation("level", w, "returns an entry " + CODES[h[2][1]], tr)
                    continue
                if "hit" in s.ps:
                    ctx.violation("absent", w, "found an entry but reports that there is none", tr)
                    continue
                if zero(eng, s, self.P) is True:
                    continue
                m = s.ps.get("miss")
                if m is None:
                    if "excuse" not in s.ps:
                        ctx.violation("absent", w, "may report that a path names nothing without having searched the table it names", tr)
                elif m[1] == C0 and m[2] == C1:
                    for x, where_ in self.missing(eng, s, self.root(eng, s)):
                        ctx.violation("absent", w, "may report that no level has an option of that name without having searched %s: %s" % (where_, self.why(x)), tr)
                elif m[1] != C0:
                    ctx.violation("absent", w, "may report that a path names nothing after searching for an entry " + CODES[m[1][1]], tr)

    def excused(self, eng, st):
        d = fval(eng, st, self.A, DEPTH, "i64")
        if zero(eng, st, d) is True and "m" not in st.ps and self.more(eng, st):
            return True
        for cl, a, b in st.rel:
            for x in (a, b):
                if x != d and not isc(x) and truth(eng, st, "ult", d, x) is True and self.counts(x):
                    return True
                # as many components as active subcommands, and one more
                c = eng.cursor(st, x) if x[:2] == ("s", "phi") else None
                if c and c == (C0, 1) and truth(eng, st, "ult", x, d) is False and self.more(eng, st):
                    return True
        return any(r is False and (x == C0 or x[0] == "s" and x[1] == "phi") for x, r, d_, n in self.compared(eng, st))

    def more(self, eng, st):
        return any(d[2] == g and d[3] == DOT and zero(eng, st, d) is False for g in self.aliases(eng, st, "rest") for d in calls_of(st, "strchr", "memchr"))

    def counts(self, x):
        return x[0] == "s" and x[1] in ("call", "phi", "wid")


CODES = {2: "of the complete path although the path may have components", 3: "at an outer level before every inner level was searched",
         4: "of a table other than that of the last active subcommand the path names", 5: "by something other than the path's last component",
         6: "by a text that may have further components"}


def mkptr_sub(n):
    """the sub_options value of the entry whose name n is"""
    o, _ = cell(n)
    b, p = split(o)
    return ("s", n[1], n[2], (b, p + (("f", OPT + "sub_options"),)), "ptr")


def under(v):
    while v[0] == "op" and (v[1].startswith("as:") or v[1] in ("ptrtoint", "p2i")):
        v = v[2]
    return v


def plus(d):
    b, p = split(d)
    return b, p + (("i", C1, 1),)


def same(eng, st, a, b):
    return a == b or truth(eng, st, "eq", a, b) is True


def raw(st, sym):
    return st.env.get((sym[2], "stp", sym[4])) == ("s", "stp0")


def counting(mod, f):
    """counts characters of a text"""
    chars = {o["v"] for i in f.all_insts() if i.op in ("icmp", "switch") for o in i.ops if o.get("k") == "c"} - {0}
    return chars == {46} and f.ret.startswith("i") and len(f.params) == 1 and "char" in f.sig_of(0) and "*" in f.sig_of(0) and f.headers and not mod.callgraph()[f.name] and not mod.modset(f.name)["fields"]


def run_paths(ctx):
    mod = ctx.mod
    ctx.rule("level", "a path yields the entry its last component (or the whole path, if it has none) names in the table it designates: each earlier component equals an active subcommand's complete name, outermost first; a leading dot is the parser's own table; a plain name is looked for from the innermost level outwards")
    ctx.rule("absent", "a path is reported to name nothing only after the table it designates, or for a plain name every level, was searched, or a component differs from the active subcommand's name, or there are more components than active subcommands")
    leafs = {f.name for f in lookups(mod) if "argus_option_t*" in f.sig[0] and OPT + "name" in reads(mod)[f.name] and STACK not in reads(mod)[f.name] and f.headers}
    fs = [f for f in mod.defined.values() if "argus_option_t" in f.sig[0] and takes(f, "char") and STACK in reads(mod)[f.name] and reach(mod, f.name) & leafs]
    fs = [f for f in fs if not any(f.name in reach(mod, g.name) for g in fs if g is not f)]
    counters = {f.name for f in mod.defined.values() if counting(mod, f)}
    ctx.need(leafs, "no function looks an option up by name")
    ctx.need(fs, "no function resolves a path against the active subcommands")
    for f in fs:
        ana = Path(mod, f, leafs, counters)
        eng = ana.eng = ctx.engine(ana)
        for e in eng.run_root(f, setup=ana.setup, args={0: "nullable", 1: "nullable"}):
            ana.judge(ctx, eng, e)
        ctx.absorb(ana)
        ctx.count("lookups", ana.seen)
