"""Collections keep the elements they are given (P37)."""
import absint
from absint import C, C0, C1, TOP, split, mkptr, isc
from roles import *
from collections_ import declared, dispatchers

VAL, CNT = OPT + "value", OPT + "value_count"
O = ("s", "arg", 1)
KEY, PVAL = "argus_pair_s.key", "argus_pair_s.value"
MISSED = "passes over a piece of the text without storing it"
COMPARES = ("strcmp", "strcoll")


def bare(v):
    while v[0] == "op" and (v[1].startswith(("as:", "trunc", "sext", "zext"))):
        v = v[2]
    return v


class Keep(App):
    name = "kept"
    cap = 120
    exit_cap = 60

    def __init__(self, mod, ds, ismap, add):
        super().__init__(mod)
        self.ds, self.ismap, self.add = ds, ismap, add
        self.n = {"elements": 0, "pieces": 0}
        self.pairs = set()

    def inline(self, eng, st, fr, inst, f):
        if f.name in self.ds:
            return False
        m = self.mod.modset(f.name)["fields"]
        return bool(m & {VAL, CNT}) or PVAL in m or KEY in reads(self.mod)[f.name] or f.ret == "i32" and len(f.sig) > 1 and "argus_option_t*" in "".join(f.sig[1:])

    def cnt(self, eng, st):
        return eng.read(st, fieldptr(O, CNT), "i64")

    def lst(self, eng, st):
        return eng.read(st, fieldptr(O, VAL), "ptr")

    def call(self, eng, st, fr, inst, name, args):
        g = self.mod.defined.get(name)
        if name in self.ds:
            self.settle(eng, st, inst.fn, "acts on the flags")
        elif name.startswith(("llvm.memcpy", "llvm.memmove")) and self.ismap and isc(args[2]) and args[2][1] == 16 and self.place(eng, st, args[0]):
            k = eng.read(st, fieldptr(args[1], KEY), "ptr") if args[1] != TOP else TOP
            self.stored(eng, st, inst, fieldptr(args[0], KEY), k)
            self.stored(eng, st, inst, fieldptr(args[0], PVAL), TOP)
            self.pairs.add((inst.fn.name, inst.id))
        elif g is not None and g.sig[0].count("*") == 2 and "char" in g.sig[0]:
            res = eng.opaque(st, fr, inst.fn, inst, g, args)
            for v, s in res:
                self.latch(s, "lists", bare(v))
            return res
        return None

    def joinps(self, st):
        return super().joinps(st), self.outcomes(self.eng, st, self.root)

    # ------------------------------------------------------------ elements
    def place(self, eng, st, ptr):
        """(index, member) when the address is one of an element of the collection"""
        b, p = split(ptr)
        lst = self.lst(eng, st)
        lb, lp = split(lst)
        if b != lb or p[:len(lp)] != lp:
            return None
        q = [s for s in p[len(lp):]]
        fl = [s[1] for s in q if s[0] == "f"]
        ix = [s for s in q if s[0] == "i"]
        if len(ix) > 1:
            return None
        return (ix[0][1] if ix else C0), (fl[0] if fl else None)

    def store(self, eng, st, fr, inst, ptr, val):
        if (inst.fn.name, inst.id) not in self.pairs:       # a pair copied whole is seen in call()
            self.stored(eng, st, inst, ptr, val)

    def stored(self, eng, st, inst, ptr, val):
        b, p = split(ptr)
        if inst.fn.name in self.ds:
            return
        if p and p[-1] == ("f", CNT) and mkptr(b, p[:-1]) == O:
            old = self.cnt(eng, st)
            one = eng.binop(st, "add", old, C1, "i64")
            if val == C0 and zero(eng, st, old) is True:
                return
            if st.ps.get("counted") == C1 or val != one and truth(eng, st, "eq", val, one) is not True:
                self.add("counted", inst.fn, "changes the count by something else than one for the element stored", st)
                return
            ps(st, counted=C1)
            self.settled(st)
            return
        at = self.place(eng, st, ptr)
        if at is None:
            return
        idx, member = at
        self.n["elements"] += 1
        cnt = self.cnt(eng, st)
        if st.ps.get("counted") == C1:
            cnt = eng.binop(st, "sub", cnt, C1, "i64")
        if idx == cnt or bare(idx) == cnt or truth(eng, st, "eq", idx, cnt) is True:
            if member == KEY:
                if not any(x == val for x in self.none(st)):
                    self.add("key", inst.fn, "adds a pair without having found that no stored pair has its key", st)
            new = set(x[1] for x in st.ps.get("new", ("set", frozenset()))[1]) | {member or PVAL}
            st.ps = dict(st.ps, new=("set", frozenset(("m", x) for x in new)))
            self.settled(st)
            return
        if self.ismap and member != KEY:
            if self.samekey(eng, st, ptr):
                ps(st, piece=C1)
                return
            self.add("key", inst.fn, "changes the value of a stored pair that may have another key", st)
            return
        self.add("behind", inst.fn, "writes over a stored element", st)

    def samekey(self, eng, st, ptr):
        b, p = split(ptr)
        while p and p[-1][0] == "f":
            p = p[:-1]
        alts = [mkptr(b, p)]
        if p and p[-1][0] == "i":
            alts.append(mkptr(b, p[:-1] + (("i", bare(p[-1][1]), p[-1][2]),)))
        for a in alts:
            k = eng.read(st, fieldptr(a, KEY), "ptr")
            for v, f in st.facts.items():
                if v[0] == "op" and v[1][5:] in COMPARES and len(v) == 4 and k in v[2:] and zero(eng, st, v) is True:
                    return True
        # the place the loop over the stored keys noted when it met an equal one
        i = [bare(s[1]) for s in p if s[0] == "i"]
        return bool(i) and i[-1][:2] in (("s", "phi"), ("s", "wid")) and st.ps.get("hit") == C1

    def none(self, st):
        return st.ps.get("none", ("set", frozenset()))[1]

    def settled(self, st):
        want = {KEY, PVAL} if self.ismap else {PVAL}
        new = {x[1] for x in st.ps.get("new", ("set", frozenset()))[1]}
        if st.ps.get("counted") == C1 and new >= want:
            st.ps = {k: v for k, v in st.ps.items() if k not in ("counted", "new", "none")}
            st.ps["piece"] = C1

    def settle(self, eng, st, f, what):
        if st.ps.get("counted") == C1:
            self.add("counted", f, "counts an element that was not stored", st)
        elif "new" in st.ps:
            self.add("counted", f, "stores an element without counting it", st)

    # --------------------------------------------------------------- loops
    def keys(self, eng, st, ptr):
        """texts the key of the pair is known to differ from; None: the pair has no key"""
        k = eng.read(st, fieldptr(ptr, KEY), "ptr")
        if zero(eng, st, k) is True:
            return None
        out = set()
        for v in st.facts:
            if v[0] == "op" and v[1][5:] in COMPARES and len(v) == 4 and k in v[2:] and zero(eng, st, v) is False:
                out.add(v[3] if v[2] == k else v[2])
        return out

    def element(self, eng, st, fr, f, hdr, kind, ptr, lst, regular):
        if kind == "pair":
            if any(s[0] == "i" and s[1][0] == "old" for s in split(ptr)[1]):
                return          # seen before this run of the loop
            if lst != self.lst(eng, st) or not regular:
                ps(st, scan=("t", "irregular"))
                return
            ks = self.keys(eng, st, ptr)
            if ks is None:
                return
            if not ks and self.samekey(eng, st, ptr):
                ps(st, hit=C1)
                self.fits(eng, st, [s[1] for s in split(ptr)[1] if s[0] == "i"][-1])
            cur = st.ps.get("against")
            new = frozenset(ks) if cur is None else cur[1] & frozenset(ks)
            st.ps = dict(st.ps, against=("set", new))
        elif kind == "ptr" and self.has(st, "lists", bare(lst)):
            self.n["pieces"] += 1
            if not regular:
                self.add("pieces", f, "does not go through the pieces of the text one by one from the first", st)
            elif "missed" in st.ps:
                self.add("pieces", f, MISSED, st)
            elif st.ps.get("piece") != C1:
                ps(st, missed=C1)
            self.settle(eng, st, f, "goes on")
            st.ps = {k: v for k, v in st.ps.items() if k != "piece"}

    def exitloop(self, eng, st, fr, f, hdr):
        if any(self.counts(i) for b in f.loops[hdr] for i in f.blocks[b]):
            if not any(k == "ptr" for k, p, s in self.accessed(st, fr, f, hdr)):
                ps(st, piece=C1)
        lst, cnt = self.lst(eng, st), self.cnt(eng, st)
        for i in f.blocks[hdr]:
            if i.op != "phi":
                break
            sym = ("s", "phi", fr, f.name, i.id)
            if complete_count(eng, st, sym, lst, cnt, 16) is True:
                ag, odd = st.ps.get("against"), "scan" in st.ps
                st.ps = {k: v for k, v in st.ps.items() if k not in ("against", "scan", "none")}
                if odd:
                    continue
                if ag is None:
                    ag = ("set", frozenset(self.texts(f, fr, st, eng, hdr)))
                st.ps["none"] = ag
            elif any(k == "pair" and s == sym for k, p, s in self.accessed(st, fr, f, hdr)):
                st.ps = {k: v for k, v in st.ps.items() if k not in ("against", "scan", "none")}
                self.fits(eng, st, sym)

    def fits(self, eng, st, sym):
        """places of pairs that exist fit the type they are given in"""
        v = ("op", "trunci32", sym)
        for s in eng.assume(st, eng.icmp(st, "sge", v, C0), True)[:1]:
            st.facts = s.facts

    def texts(self, f, fr, st, eng, hdr):
        """what the loop compares keys with (it had no pair to compare)"""
        out = set()
        for b in f.loops[hdr]:
            for i in f.blocks[b]:
                if i.op == "call" and i.callee_name() in COMPARES:
                    for o in i.ops:
                        if o["k"] == "a" or o["k"] == "v" and f.insts[o["n"]].block not in f.loops[hdr]:
                            out.add(eng.operand(st, fr, o))
        return out

    def counts(self, i):
        if i.op == "store":
            return ("field", CNT) in self.mod._ptrsteps(i.fn, i.ops[1])
        c = i.callee_name() if i.op == "call" else None
        return c in self.mod.defined and c not in self.ds and CNT in self.mod.modset(c)["fields"]


def run_kept(ctx):
    mod = ctx.mod
    for r, t in (("behind", "an element is stored directly behind those stored before"),
                 ("counted", "the count goes up by one for each element stored, and by nothing else"),
                 ("key", "a pair is added only when no stored pair has its key, and a stored pair changed only when it has the key given"),
                 ("pieces", "a handler succeeds only after it dealt with every piece of the text, first to last")):
        ctx.rule(r, t)
    types = declared(mod)
    ctx.need(len(types) >= 8, "only %d collection types with handlers of the library" % len(types))
    for t, (h, m) in sorted(types.items()):
        hf = mod.defined[h]
        ds = {d.name for d in dispatchers(mod, hf.name)}
        seen = set()

        def add(rule, f, text, st):
            if (rule, f.name) not in seen:
                seen.add((rule, f.name))
                ctx.violation(rule, where(hf), text, absint.path_of(st))
        ana = Keep(mod, ds, "MAP" in t, add)
        eng = ana.eng = ctx.engine(ana)
        ana.root = hf.name
        for e in eng.run_root(hf):
            for s in eng.assume(e.st.copy(), eng.icmp(e.st, "eq", e.val, C0), True):
                for r in ("pieces", "counted", "behind"):
                    ctx.inst(r)
                if "MAP" in t:
                    ctx.inst("key")
                if "missed" in s.ps:
                    add("pieces", hf, MISSED, s)
                lists = s.ps.get("lists")
                if lists is None:
                    if s.ps.get("piece") != C1:
                        add("pieces", hf, "may succeed without storing the value it was given", s)
                else:
                    for l in lists[1]:
                        if ("ptr", l) not in {(k, bare(x)) for k, x in s.ps.get("done", ("set", frozenset()))[1]}:
                            add("pieces", hf, "may succeed without having dealt with every piece of the text", s)
                ana.settle(eng, s, hf, "returns")
        ctx.absorb(ana)
        for k, x in ana.n.items():
            ctx.count(k, x)
    ctx.setcount("collection_types", len(types))
