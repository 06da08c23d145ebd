"""Which entry a name selects (P10)."""
import absint
from absint import C, C0, C1, TOP, LT, EQ, GT, split, mkptr, isc, mentions
from roles import *
from levels import Levels
from cmdline import integer

NAMES = ("name", "lname", "sname")


def calls_of(st, *names):
    """results of string functions that are known on this path"""
    out = set()

    def go(v):
        if type(v) is not tuple:
            return
        if len(v) > 2 and v[0] == "op" and type(v[1]) is str and v[1][5:] in names and v[1].startswith("call:"):
            out.add(v)
        for x in v:
            if type(x) is tuple:
                go(x)
    for k in st.facts:
        go(k)
    for k in st.rel:
        go(k)
    return out


def samestring(eng, st, n, g, length=None):
    """is the text n exactly the text g (or its first length characters)?
    True / False / None"""
    if n == g and length is None:
        return True
    no = None
    for c in calls_of(st, "strcmp", "strncmp", "memcmp"):
        if {c[2], c[3]} != {n, g}:
            continue
        z = zero(eng, st, c)
        if z is None:
            continue
        if c[1] == "call:strcmp":
            if length is None:
                return z
            continue
        k = c[4]
        if not z:
            # they differ within the first k characters; k must not go beyond the given text
            if length is None or k == length or truth(eng, st, "ule", k, length) is True:
                no = False
            continue
        if length is not None and k == length or k == ("op", "call:strlen", g) and length is None:
            e = ends(eng, st, n, k)
            if e is not None:
                return e
        if k == ("op", "call:strlen", n):
            e = (truth(eng, st, "eq", k, length) if length is not None else ends(eng, st, g, k))
            if e is not None:
                return e
    l = ("op", "call:strlen", n)
    e = truth(eng, st, "eq", l, length if length is not None else ("op", "call:strlen", g))
    return False if e is False else no


def ends(eng, st, s, k):
    """does the text s, at least k long, end after k characters?"""
    e = truth(eng, st, "eq", ("op", "call:strlen", s), k)
    if e is not None:
        return e
    b, p = split(s)
    return zero(eng, st, eng.read(st, mkptr(b, p + (("i", k, 1),)), "i8"))


def startswith(eng, st, n, g):
    """does the text n begin with all of g?"""
    for c in calls_of(st, "strncmp", "memcmp"):
        if {c[2], c[3]} == {n, g} and c[4] == ("op", "call:strlen", g):
            z = zero(eng, st, c)
            if z is not None:
                return z
    s = samestring(eng, st, n, g)
    return True if s else None


class Find(Levels):
    """one table walk that looks for a name"""
    name = "lookup"

    def __init__(self, mod, f):
        super().__init__(mod)
        self.f = f
        r = reads(mod)[f.name]
        self.table = [n for n in range(len(f.params)) if "argus_option_t" in f.sig_of(n) and f.sig_of(n).count("*") == 1][0]
        self.out = [n for n in range(len(f.params)) if "argus_option_t" in f.sig_of(n) and f.sig_of(n).count("*") == 2]
        self.key = [n for n in range(len(f.params)) if "char" in f.sig_of(n)][0]
        ln = [n for n in range(len(f.params)) if integer(f.sig_of(n))]
        self.length = ("s", "arg", ln[0]) if ln and "*" in f.sig_of(self.key) else None
        used = [x for x in NAMES if OPT + x in r]
        if "*" not in f.sig_of(self.key):
            used = ["sname"]
        elif len(used) > 1:
            used = [x for x in used if x != "sname"]
        self.field = used[0]
        self.kind = "TYPE_SUBCOMMAND" if self.out else "TYPE_OPTION" if self.field != "name" else None
        self.opt_obl = {"other": self.o_other}
        if self.out:
            self.opt_obl["begins"] = self.o_begins
        self.G = ("s", "arg", self.key)

    def inline(self, eng, st, fr, inst, f):
        return True

    def ineligible(self, eng, st, o):
        if self.kind and istype(self.mod, eng, st, o, self.kind) is False:
            return True
        if self.field == "sname":
            return False
        return zero(eng, st, fval(eng, st, o, OPT + self.field, "ptr")) is True

    def same(self, eng, st, o):
        if self.field == "sname":
            return truth(eng, st, "eq", fval(eng, st, o, OPT + "sname", "i8"), self.G)
        return samestring(eng, st, fval(eng, st, o, OPT + self.field, "ptr"), self.G, self.length)

    def o_other(self, eng, st, o, lst):
        """this entry is not the one named"""
        if self.ineligible(eng, st, o) or self.same(eng, st, o) is False:
            return True
        return bool(self.out) and startswith(eng, st, fval(eng, st, o, OPT + self.field, "ptr"), self.G) is False

    # the name may be the beginning of an entry's name (subcommands)
    def o_begins(self, eng, st, o, lst):
        return self.begins(eng, st, o) is not None

    def begins(self, eng, st, o):
        if self.ineligible(eng, st, o):
            return False
        return startswith(eng, st, fval(eng, st, o, OPT + self.field, "ptr"), self.G)

    def split_element(self, eng, st, fr, f, hdr, kind, ptr, lst):
        if self.out and lst == ("s", "arg", self.table):
            b = self.begins(eng, st, ptr)
            if b and self.passes(f, hdr):
                n = st.ps.get("n", C0)[1]
                ps(st, n=C(min(n + 1, 2)))
                if n == 0:
                    self.latch(st, "m0", ("is", ptr))
        if lst == ("s", "arg", self.table) and not self.ineligible(eng, st, ptr) and self.same(eng, st, ptr) is True and \
                (not self.kind or istype(self.mod, eng, st, ptr, self.kind) is True):
            self.latch(st, "hit", ("is", ptr))
        return [st]

    # an entry singled out earlier is known under every name it is carried by
    def renamed(self, eng, st, obj, v, sym):
        for k in ("hit", "m0"):
            if self.has(st, k, ("is", v)):
                self.latch(st, k, ("is", sym))
        if v[0] in ("op", "old"):
            super().renamed(eng, st, obj, v, sym)

    def passes(self, f, hdr):
        return True

    def loopexit(self, eng, st, fr, f, hdr):
        super().loopexit(eng, st, fr, f, hdr)
        if "n" in st.ps and self.has(st, "done", ("begins", ("s", "arg", self.table))):
            # counted over the whole table
            ps(st, full=C1)

    def entry(self, eng, st, v):
        """is v an entry of the table searched?"""
        b, p = split(v)
        if b == ("s", "arg", self.table):
            return True
        c = eng.cursor(st, b) if b[0] == "s" else None
        return bool(c) and c[0] == ("s", "arg", self.table)

    def judge(self, ctx, eng, e):
        f, st = self.f, e.st
        w, tr = where(f), absint.path_of(st)
        T = ("s", "arg", self.table)
        if not self.out:
            for t in (True, False):
                for s in eng.assume(st.copy(), eng.icmp(st, "eq", e.val, C0), t):
                    if t:
                        ctx.inst("absent")
                        if not (self.has(s, "done", ("other", T)) or "*" in f.sig_of(self.key) and zero(eng, s, self.G) is True):
                            ctx.violation("absent", w, "may report that there is no such entry without having compared every one: %s" % self.why("other"), tr)
                        continue
                    ctx.inst("chosen")
                    self.chosen(ctx, eng, s, e.val, w, tr)
            return
        # the subcommand an argument selects
        for t in (True, False):
            for s in eng.assume(st.copy(), eng.icmp(st, "eq", e.val, C0), t):
                ctx.inst("prefix")
                n = s.ps.get("n", C0)[1]
                begins = self.has(s, "done", ("begins", T))
                other = self.has(s, "done", ("other", T))
                out = ("s", "arg", self.out[0])
                r = eng.read(s, out, "ptr")
                init = ("s", "init", ("E0",), (out, ()), "ptr")
                if not t:
                    if not (begins and n == 2):
                        ctx.violation("prefix", w, "may reject a name as ambiguous although fewer than two subcommands begin with it", tr)
                    if not other:
                        ctx.violation("prefix", w, "may reject a name as ambiguous although a subcommand has exactly that name", tr)
                    continue
                if r == C0 or r == init or zero(eng, s, r) is True:
                    if (not begins or n) and zero(eng, s, self.G) is not True:
                        ctx.violation("absent", w, "may report that there is no such subcommand without having compared every one: %s" % self.why("begins"), tr)
                    continue
                if self.has(s, "hit", ("is", r)) or self.entry(eng, s, r) and self.same(eng, s, r) is True and istype(self.mod, eng, s, r, self.kind) is True:
                    ctx.inst("chosen")
                    continue
                if begins and n == 1 and self.has(s, "m0", ("is", r)):
                    continue
                ctx.violation("prefix", w, "selects a subcommand that is neither named exactly nor the only one whose name begins so", tr)

    def chosen(self, ctx, eng, s, v, w, tr):
        if self.has(s, "hit", ("is", v)):
            return
        if not self.entry(eng, s, v):
            ctx.violation("chosen", w, "selects something that is not an entry of the table searched", tr)
        elif self.same(eng, s, v) is not True:
            ctx.violation("chosen", w, "selects an entry whose complete name may differ from the name given", tr)
        elif self.kind and istype(self.mod, eng, s, v, self.kind) is not True:
            ctx.violation("chosen", w, "selects an entry that may not be of the kind looked for", tr)


def istype(mod, eng, st, o, name):
    return truth(eng, st, "eq", fval(eng, st, o, OPT + "type", "i32"), C(mod.enum(name)))


def lookups(mod):
    """functions that walk one table comparing names"""
    out = []
    for f in mod.defined.values():
        r = reads(mod)[f.name]
        if not takes(f, "argus_option_t") or not any("char" in t for t in f.sig) or has(mod, f, HANDLER) or mod.modset(f.name)["fields"] - {ARG + "error_code"}:
            continue
        if takes(f, "char") and any(t.count("*") == 2 and "argus_option_t" in t for t in f.sig) and OPT + "name" in r:
            out.append(f)
        elif "argus_option_t*" in f.sig[0] and OPT + "type" in r and any(OPT + x in r for x in NAMES) and takes_table(f):
            out.append(f)
    return [f for f in out if f.headers or any(g.headers for g in (mod.defined[n] for n in reach(mod, f.name)))]


def takes_table(f):
    return any("argus_option_t" in t for t in f.sig[1:])


def run_lookups(ctx):
    mod = ctx.mod
    ctx.rule("chosen", "a lookup selects an entry only if its complete name equals the complete name given and it is of the kind looked for")
    ctx.rule("absent", "a lookup reports that there is no such entry only after every entry of the table was compared and differs")
    ctx.rule("prefix", "a subcommand is selected by its exact name, or else as the only one whose name begins with the argument; two such are ambiguous")
    fs = lookups(mod)
    ctx.need(fs, "no function looks an entry up by name")
    for f in fs:
        ana = Find(mod, f)
        eng = ana.eng = ctx.engine(ana)
        for e in eng.run_root(f, args={ana.key: "nullable"}):
            ana.judge(ctx, eng, e)
        ctx.absorb(ana)
        ctx.count("lookups")
