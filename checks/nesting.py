"""The record of active subcommands: every access stays inside it (P15)."""
import absint
from absint import C, C0, C1, TOP, EQ, GT, split, mkptr, isc
from roles import *

STACK, DEPTH = ARG + "subcommand_stack", ARG + "subcommand_depth"


def touches(mod, f):
    for i in f.all_insts():
        if i.op == "getelementptr":
            for s in i.get("steps"):
                if "f" in s and not s["f"].startswith("union.") and mod.field(s["f"], s["off"]) in (STACK, DEPTH):
                    return True
    return False


def size_of(mod):
    t = [t for t in mod.diu.values() if t["name"] == "argus_s"][0]
    return [f["size"] for f in t["fields"] if f["n"] == "subcommand_stack"][0] // 8


class Nest(App):
    name = "nesting"
    cap = 60

    def __init__(self, mod, root, must):
        super().__init__(mod)
        self.root = root
        self.must = must            # functions whose accesses are judged in this context
        self.max = size_of(mod)
        self.n = {"read": 0, "store": 0}

    def inline(self, eng, st, fr, inst, f):
        r = reach(self.mod, f.name)
        return f.name in self.must or bool(r & self.must) and self.root not in r or straight(self.mod, f)

    def owner(self, ptr):
        """(parser, index) when ptr is an element of the record"""
        b, p = split(ptr)
        for n, s in enumerate(p):
            if s == ("f", STACK):
                rest = p[n + 1:]
                if not rest:
                    return mkptr(b, p[:n]), C0
                if rest[0][0] == "i" and len(rest) == 1 and rest[0][2] == 8:
                    return mkptr(b, p[:n]), rest[0][1]
                return mkptr(b, p[:n]), TOP
        return None, None

    def below(self, eng, st, x, lim):
        """is 0 <= x < lim certain?"""
        if x == TOP:
            return False
        if truth(eng, st, "ult", x, lim) is True:
            return True
        lo, hi = eng.iv(st, x)
        if lo >= 0 and truth(eng, st, "slt", x, lim) is True:
            return True
        k = st.const(x)
        if k is not None:
            # some value known above k that the limit is not below
            zs = [lim] + [z for (cl, p, q), w in st.rel.items() if cl == "u"
                          for a, z, v in ((q, p, w), (p, q, absint.swapbits(w))) if a == lim and not v & GT]
            return k >= 0 and any(eng.iv(st, z)[0] > k or st.fact(("U", z))[0] > k or k == 0 and eng.nonnull(st, z) is True for z in zs)
        b, c = (x[2], x[3][1]) if x[0] == "op" and x[1] == "add" and isc(x[3]) else (x, 0)
        if b[0] == "op" and b[1].startswith("trunc"):
            b = b[2]
        bl, bh = eng.iv(st, b)
        # no wrap below zero
        pos = bl + c >= 0 or c < 0 and all(eng.nonnull(st, eng.binop(st, "add", b, C(-k), "i64")) is True for k in range(-c))
        if b == lim:
            return c < 0 and pos
        cur = eng.cursor(st, b)
        if cur and cur[0] == C0 and cur[1] == 1 and c == 0 and truth(eng, st, "ne", b, lim) is True and \
                (st.env.get((b[2], "stp", b[4])) == ("s", "stp0") or lim in st.ps.get("ne:%s:%d" % (b[3], b[4]), ("set", ()))[1]):
            return True             # counts up from zero and was never equal to the limit
        if cur and st.env.get((b[2], "stp", b[4])) == ("s", "stp0"):
            cur = (cur[0], -1)      # has its first value
        if cur and cur[1] is not None and cur[1] < 0 and pos:
            k = eng.diff(cur[0], lim)
            if k is not None and k + c < 0:
                return True
        if c <= 0 and pos:
            # through a value in between
            for (cl, p, q), w in st.rel.items():
                if cl not in "su":
                    continue
                for a, z, k in ((p, q, w), (q, p, absint.swapbits(w))):
                    if a == b and not k & GT and (cl == "u" or bl >= 0):
                        strict = not k & EQ or c < 0
                        if z == lim and strict:
                            return True
                        if truth(eng, st, "ule", z, lim) is True and (strict or truth(eng, st, "ult", z, lim) is True):
                            return True
            if cur and cur[1] is not None and cur[1] < 0 and truth(eng, st, "ult" if c == 0 else "ule", cur[0], lim) is True:
                return True
        return False

    def loaded(self, eng, st, fr, inst, ptr, val):
        a, x = self.owner(ptr)
        if a is not None:
            self.n["read"] += 1
            d = fval(eng, st, a, DEPTH, "i64")
            if not self.below(eng, st, x, d):
                self.report("within", where(inst.fn), "may read an entry of the record of active subcommands that is not in use", st)

    def backedge(self, eng, st, fr, f, hdr):
        for i in f.blocks[hdr]:
            if i.op != "phi":
                break
            sym = ("s", "phi", fr, f.name, i.id)
            c = eng.cursor(st, sym)
            if not c or c[0] != C0 or c[1] != 1:
                continue
            k = "ne:%s:%d" % (f.name, i.id)
            now = {q if p == sym else p for (cl, p, q), w in st.rel.items() if cl in "su" and sym in (p, q) and not w & EQ}
            if st.const(sym) == 0:
                now |= {z for z in st.facts if z[0] != "U" and eng.nonnull(st, z) is True}
            if k in st.ps:
                now &= st.ps[k][1]
            st.ps = dict(st.ps)
            st.ps[k] = ("set", frozenset(now))
        self.clear(st, fr, f, hdr)

    def loopexit(self, eng, st, fr, f, hdr):
        pass

    def store(self, eng, st, fr, inst, ptr, val):
        a, x = self.owner(ptr)
        w = where(inst.fn)
        if a is not None:
            self.n["store"] += 1
            l, h = eng.iv(st, x) if x != TOP else (-absint.INF, absint.INF)
            ul, uh, _ = st.fact(("U", x))
            if not (truth(eng, st, "ult", x, C(self.max)) is True if x != TOP else False) and not (l >= 0 and h < self.max) and uh >= self.max:
                self.report("within", w, "may write beyond the record of active subcommands", st)
            if "slot" in st.ps:
                self.report("record", w, "writes two entries for one subcommand", st)
            ps(st, slot=x, ent=val, own=a)
            return
        b, p = split(ptr)
        if p and p[-1] == ("f", DEPTH):
            d = fval(eng, st, mkptr(b, p[:-1]), DEPTH, "i64")
            if val == C0 and "slot" not in st.ps and "d0" not in st.ps:
                return
            if val != eng.binop(st, "add", d, C1, "i64"):
                self.report("record", w, "changes the number of active subcommands other than by one more", st)
            if "d0" in st.ps:
                self.report("record", w, "counts one subcommand twice", st)
            ps(st, d0=d, own=mkptr(b, p[:-1]))

    def settled(self, eng, st, w):
        """the record is consistent again"""
        if "slot" not in st.ps and "d0" not in st.ps:
            return
        if "slot" not in st.ps:
            self.report("record", w, "counts a subcommand it did not record", st)
        elif "d0" not in st.ps:
            self.report("record", w, "records a subcommand without counting it", st)
        elif st.ps["slot"] != st.ps["d0"] and truth(eng, st, "eq", st.ps["slot"], st.ps["d0"]) is not True:
            self.report("record", w, "does not record the subcommand at the next free entry", st)
        st.ps = {k: v for k, v in st.ps.items() if k not in ("slot", "d0", "own")}
        ps(st, entered=C1)

    def call(self, eng, st, fr, inst, name, args):
        f = self.mod.defined.get(name)
        if f is None or not (DEPTH in reads(self.mod)[name] or "&" + STACK in reads(self.mod)[name]):
            return None
        if name != self.root and self.inline(eng, st, fr, inst, f):
            return None
        w = where(inst.fn)
        self.settled(eng, st, w)
        if "ent" in st.ps and DEPTH in self.mod.modset(name)["fields"]:
            t = [cell(a) for n, a in enumerate(args) if "argus_option_t" in f.sig_of(n)]
            if t and t[0] != (st.ps["ent"], OPT + "sub_options"):
                self.report("record", w, "records another subcommand than the one it enters", st)
        v, st = eng.opaque(st, fr, inst.fn, inst, f, args)[0]
        return [(v, st)]


def run_nesting(ctx):
    mod = ctx.mod
    ctx.rule("within", "the record of active subcommands is written only below its fixed size and read only below the number of active subcommands")
    ctx.rule("record", "entering a subcommand records exactly it at the next free entry and counts one more; nothing else changes the number, which starts at zero")
    ctx.rule("refused", "a subcommand is not entered exactly when the record is full; that is reported as a failure, recorded in the parser")
    subjects = sorted(n for n, f in mod.defined.items() if touches(mod, f))
    ctx.need(subjects, "nothing uses the record of active subcommands")
    todo = [(mod.defined[n], frozenset([n]), 0) for n in subjects]
    seen = set()
    writers = set()
    while todo:
        f, must, up = todo.pop()
        if (f.name, must) in seen:
            continue
        seen.add((f.name, must))
        ana = Nest(mod, f.name, must)
        eng = ana.eng = ctx.engine(ana)

        def setup(st, f=f):
            for n, p in enumerate(f.params):
                if "argus_t" in f.sig_of(n):
                    b = ("bv", "root", n) if "byval" in p else ("s", "arg", n)
                    st.setfact(("s", "init", ("E0",), (b, (("f", DEPTH),)), "i64"), 0, ana.max)
        exits = eng.run_root(f, setup)
        for e in exits:
            s = e.st
            ana.settled(eng, s, where(f))
        up_ = mod.callers(f.name)
        if ana.findings and up < 3 and f.name != "argus_parse" and any(g.name not in must for g in up_):
            # judged in the context of the callers
            todo += [(g, must | {g.name}, up + 1) for g in up_ if g.name not in must]
            continue
        if any(fl == STACK for n in must for fl, _, _ in mod_stores(mod, mod.defined[n])):
            writers.add(f.name)
            refusals(ctx, eng, f, exits, ana.max)
        ctx.absorb(ana)
        ctx.inst("within", ana.n["read"] + ana.n["store"])
        ctx.inst("record", ana.n["store"])
    ctx.need(writers, "no function records an active subcommand")
    for n in subjects:
        f = mod.defined[n]
        for fl, v, i in mod_stores(mod, f):
            if fl == DEPTH:
                ctx.inst("record")


def mod_stores(mod, f):
    out = []
    for i in f.all_insts():
        if i.op == "store":
            for x in mod._ptrsteps(f, i.ops[1]):
                if x[0] == "field" and x[1] in (STACK, DEPTH):
                    out.append((x[1], i.ops[0], i))
    return out


def refusals(ctx, eng, f, exits, size):
    w = where(f)
    if f.ret != "i32":
        return
    par = [n for n in range(len(f.params)) if "argus_t" in f.sig_of(n)]
    if not par:
        return
    a = ("s", "arg", par[0])
    for e in exits:
        ctx.inst("refused")
        s = e.st
        if "entered" in s.ps:
            continue
        tr = absint.path_of(s)
        d = fval(eng, s, a, DEPTH, "i64")
        full = truth(eng, s, "uge", d, C(size)) is True or truth(eng, s, "eq", d, C(size)) is True
        if full and zero(eng, s, e.val) is not False:
            ctx.violation("refused", w, "may report success although the subcommand was not entered", tr)
        elif full and fval(eng, s, a, ARG + "error_code", "i32") != e.val:
            ctx.violation("refused", w, "refuses a subcommand without recording the error", tr)
        elif not full and e.val == C(ctx.mod.enum("ARGUS_ERROR_STACK_OVERFLOW")):
            ctx.violation("refused", w, "refuses a subcommand although there may be room for it", tr)
