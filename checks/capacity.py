"""Collections are written only inside their allocated capacity (P13).

Two parts. A function that makes room (it changes the capacity of the option it
is given, but not its count) is run through the abstract interpreter: what it
leaves behind on success has room for one more element in a block of that size,
on failure nothing has changed. Every other function is walked path by path with
the room it has at each point."""
import absint
from absint import C, C0, C1, TOP, mkptr, isc, split
from blocks import Blocks, Walk, State, okey, family, VAL, CNT, CAP
from roles import *

MEMBERS = (8, 16)                    # a value, a pair


def allocates(mod, name):
    return any(family(c) == "free" for c in mod.closure(name) | {name})


def growers(mod):
    out = {}
    for n, f in sorted(mod.defined.items()):
        m = mod.modset(n)["fields"]
        if CAP in m and CNT not in m and allocates(mod, n) and f.ret in ("i32", "i1", "i8", "i64") and option(f) is not None:
            out[n] = f
    return out


def option(f):
    p = [n for n in range(len(f.params)) if "argus_option_t" in f.sig_of(n)]
    return p[0] if len(p) == 1 else None


# ---------------------------------------------------------------- making room
class Room(App):
    name = "capacity"
    cap = 60

    def inline(self, eng, st, fr, inst, f):
        return straight(self.mod, f)

    def call(self, eng, st, fr, inst, name, args):
        if name in self.mod.defined or family(name) != "free":
            return None
        n = {"malloc": lambda a: a[0], "realloc": lambda a: a[1], "aligned_alloc": lambda a: a[1],
             "calloc": lambda a: eng.binop(st, "mul", a[0], a[1], "i64"), "reallocarray": lambda a: eng.binop(st, "mul", a[1], a[2], "i64")}.get(name)
        if n is None:
            return None
        size = n(args)
        parts = tuple(args[-2:]) if name in ("calloc", "reallocarray") else ()
        res = eng.external(inst.fn, fr, inst, st, name, args)
        for v, s in res:
            if v == C0:
                ps(s, oom=C1)
            else:
                ps(s, **{"block": ("t", v, size, parts)})
        return res


def scaled(v):
    """(what, how many times) of a product with constants"""
    n = 1
    while v[0] == "op" and v[1] in ("mul", "shl") and isc(v[3]):
        n *= v[3][1] if v[1] == "mul" else 1 << v[3][1]
        v = v[2]
    return v, n


def factor(eng, st, size, parts, cap, f):
    """the number of bytes per unit of capacity"""
    (a, n), (b, k) = scaled(size), scaled(cap)
    if a == b and k and not isc(a):
        return C(n // k)
    if parts and cap in parts:
        other = parts[1 - parts.index(cap)] if parts[0] != parts[1] else parts[0]
        return other
    nc, cc = st.const(size), st.const(cap)
    if nc is not None and cc:
        return C(nc // cc)
    for k in (8, 16, 24, 32):
        if size == eng.binop(st, "mul", cap, C(k), "i64"):
            return C(k)
    if size[0] == "op" and size[1] == "mul":
        for a, b in ((size[2], size[3]), (size[3], size[2])):
            if a == cap:
                return b
    for j in range(len(f.params)):
        if size == eng.binop(st, "mul", cap, ("s", "arg", j), "i64") or size == eng.binop(st, "mul", ("s", "arg", j), cap, "i64"):
            return ("s", "arg", j)
    return None


def more(eng, st, n0, c0, cap, least=1):
    """is cap above n0, which is at most c0 (at least the smallest capacity there is)?"""
    if cap[0] == "op" and cap[1] == "add" and c0 in cap[2:4]:
        x = cap[3] if cap[2] == c0 else cap[2]
        if x[0] == "op" and x[2] == c0 and isc(x[3]) and (x[1] == "udiv" and 1 <= x[3][1] <= least or x[1] == "lshr" and 1 << x[3][1] <= least):
            return True
    if truth(eng, st, "ult", n0, cap) is True:
        return True
    if cap[0] == "op" and cap[1] in ("add", "mul", "shl") and isc(cap[3]):
        if cap[2] == c0 and cap[3][1] >= (2 if cap[1] == "mul" else 1):
            return True
        if cap[2] == n0 and cap[3][1] >= 1 and cap[1] == "add":
            return True
    return cap[0] == "op" and cap[1] == "add" and cap[2] == c0 and cap[3] == c0


class Grower:
    """what a function that makes room returns, and how large an element it makes room for"""

    def __init__(self, ctx, f):
        mod = ctx.mod
        self.f, self.units, self.ok, self.failed = f, set(), set(), set()
        ana = Room(mod)
        eng = ana.eng = ctx.engine(ana)
        k = option(f)
        o = ("s", "arg", k)
        old = {}

        def setup(st):
            for fl, ty in ((VAL, "ptr"), (CNT, "i64"), (CAP, "i64")):
                old[fl] = fval(eng, st, o, fl, ty)
        exits = eng.run_root(f, setup)
        w = where(f)
        ctx.need(exits, "no way out of %s" % f.src)
        firsts = [e.st.const(fval(eng, e.st, o, CAP, "i64")) for e in exits if zero(eng, e.st, old[VAL]) is True and "oom" not in e.st.ps]
        least = min([c or 1 for c in firsts] or [1])
        for e in exits:
            s = e.st
            tr = absint.path_of(s)
            oom = "oom" in s.ps
            ctx.inst("room" if not oom else "kept")
            z = zero(eng, s, e.val)
            (self.failed if oom else self.ok).add((z, s.const(e.val)))
            v, n, c = fval(eng, s, o, VAL, "ptr"), fval(eng, s, o, CNT, "i64"), fval(eng, s, o, CAP, "i64")
            v0, n0, c0 = old[VAL], old[CNT], old[CAP]
            empty = zero(eng, s, v0) is True
            same = v == v0 or empty and zero(eng, s, v) is True
            if oom:
                if not same:
                    ctx.violation("kept", w, "changes which block an option holds although it could not be enlarged", tr)
                elif c != c0 and not (empty and zero(eng, s, c) is True):
                    ctx.violation("kept", w, "changes the recorded capacity of a collection that could not be enlarged", tr)
                continue
            if same:
                if empty:
                    ctx.violation("room", w, "reports room in a collection that has no block", tr)
                elif c != c0:
                    ctx.violation("room", w, "changes the recorded capacity of a block it did not enlarge", tr)
                elif not any(truth(eng, s, p, eng.binop(s, "add", n0, C(k), "i64"), c0) is True for p, k in (("ult", 0), ("ult", 1), ("ule", 1), ("ult", 2))):
                    ctx.violation("room", w, "reports room in a collection that may be full", tr)
                continue
            b = s.ps.get("block")
            if b is None or b[1] != v:
                ctx.violation("room", w, "makes an option hold something else than the block it obtained", tr)
                continue
            u = factor(eng, s, b[2], b[3], c, f)
            if u is None:
                ctx.violation("room", w, "obtains a block that is not as large as the recorded capacity", tr)
            else:
                self.units.add(u)
            if empty:
                k1 = s.const(c)
                if (k1 is None or k1 < 1) and truth(eng, s, "ult", n0, c) is not True and truth(eng, s, "ult", C0, c) is not True and \
                        not (c[0] == "op" and c[1] == "add" and c[2] == n0 and isc(c[3]) and c[3][1] >= 1):
                    ctx.violation("room", w, "starts a collection with a capacity that may be zero", tr)
            elif not more(eng, s, n0, c0, c, least):
                ctx.violation("room", w, "may report room although the capacity was not raised above the number of elements", tr)
        if {z for z, _ in self.ok} & {z for z, _ in self.failed} or None in {z for z, _ in self.ok | self.failed}:
            ctx.violation("kept", w, "reports a failure to make room like a success")
        ctx.inst("kept", 0 if self.failed else 1)
        if not self.failed:
            ctx.violation("kept", w, "does not notice that the block could not be obtained")

    def value(self, ok):
        s = self.ok if ok else self.failed
        c = {k for _, k in s}
        if len(c) == 1 and None not in c:
            return c.pop()
        return 0 if {z for z, _ in s} == {True} else "nz"


# ---------------------------------------------------------------- using room
class Use(Walk):
    def __init__(self, K, f):
        super().__init__(K.S, f, [State("n", flags=frozenset({"entry"}))])
        self.K = K
        self.asks = set()               # what the callers have to provide
        self.ends = []
        self.gone = False
        self.n = {"access": 0, "count": 0, "refuse": 0, "reset": 0}
        self.dom = f.dominators()
        # makes room on its own account: not decided here
        self.own = any(i.op == "store" and self.field(i.ops[1]) == CAP and not (i.ops[0]["k"] == "c" and int(i.ops[0]["v"]) == 0) for i in f.all_insts())

    def strip(self, o):
        while o["k"] == "v":
            x = self.f.insts[o["n"]]
            if x.op in ("zext", "sext", "trunc", "freeze", "bitcast"):
                o = x.ops[0]
            else:
                break
        return o

    def field(self, o):
        """the option member an address is"""
        _, p = self.addr(o)
        if p and p[-1][0] == "f" and not any(s[0] == "i" for s in p):
            return p[-1][1]
        return None

    def loaded(self, o):
        """(member, load) when a value was read from one"""
        o = self.strip(o)
        if o["k"] == "v":
            x = self.f.insts[o["n"]]
            if x.op == "load":
                return self.field(x.ops[0]), x
        return None, None

    def element(self, o):
        """(what holds the block, index operand, element size) of an element's address"""
        idx, size = None, None
        while o["k"] == "v":
            x = self.f.insts[o["n"]]
            if x.op == "getelementptr":
                for s in x.get("steps"):
                    if "i" in s and not (s["i"]["k"] == "c" and int(s["i"]["v"]) == 0):
                        if idx is not None:
                            return None
                        idx, size = s["i"], s.get("sz")
                o = x.ops[0]
            elif x.op in ("bitcast", "freeze"):
                o = x.ops[0]
            elif x.op == "load" and self.field(x.ops[0]) == VAL:
                return x, idx, size
            else:
                return None
        return None

    # -- one index ----------------------------------------------------------------
    def judge(self, i, st, idx, write, what):
        """report unless the index is one the collection has room for"""
        K, f = self.K, self.f
        if idx is None or self.own:
            return
        o = self.strip(idx)
        if o["k"] == "c":
            return
        if o["k"] == "a":
            self.asks.add(("index", o["n"]))
            return
        x = f.insts[o["n"]]
        m, l = self.loaded(o)
        if m == CNT:
            if not write or ("good", l.id) in st.flags:
                return
            if ("ask", l.id) in st.flags and K.callers.get(f.name):
                self.asks.add("room")
                return
            self.report("inside", i, "%s an element behind the last one without having made room for it" % what)
            return
        if x.op in ("add", "sub") and x.ops[1]["k"] == "c":
            c = int(x.ops[1]["v"])
            c = c - (1 << 64) if c >= 1 << 63 else c
            c = -c if x.op == "sub" else c
            m, l = self.loaded(x.ops[0])
            if m == CNT and c >= 1 and "many" not in st.flags:
                self.report("inside", i, "%s an element beyond the one there is room for" % what)
            elif m != CNT and c >= 1 and write:
                p = self.strip(x.ops[0])
                if p["k"] == "v" and f.insts[p["n"]].op == "phi" and self.bounded(f.insts[p["n"]], i) and not self.bounded(x, i):
                    self.report("inside", i, "%s the element after the one its index is tested for" % what)
            return
        if x.op == "phi":
            if self.bounded(x, i):
                return
            if write and self.runaway(x):
                self.report("inside", i, "%s elements at an index that the count the room is made for does not follow" % what)
            return
        if x.op == "call" and x.callee_name() in K.finders:
            miss = K.finders[x.callee_name()]
            if not i.get("tested") and self.reaches(x, i, miss):
                self.report("inside", i, "%s an element at the index of an entry that may not have been found" % what)

    def bounded(self, x, i):
        """is the index below the count wherever i is reached?"""
        f = self.f
        for b in self.dom[i.block] | {i.block}:
            t = f.blocks[b][-1]
            if t.op != "br" or len(t.get("succ")) != 2 or t.ops[0]["k"] != "v":
                continue
            c = f.insts[t.ops[0]["n"]]
            if c.op != "icmp":
                continue
            a, z = self.strip(c.ops[0]), self.strip(c.ops[1])
            p = c.get("pred")
            if okey(z) == ("v", x.id):
                a, z = z, a
                p = {"ult": "ugt", "ugt": "ult", "slt": "sgt", "sgt": "slt", "ule": "uge", "uge": "ule", "sle": "sge", "sge": "sle"}.get(p, p)
            if okey(a) != ("v", x.id) or not (self.loaded(z)[0] == CNT or z["k"] == "a"):
                continue
            good = {"ult": 0, "slt": 0, "ne": 0, "uge": 1, "sge": 1, "eq": 1}.get(p)
            if good is not None:
                s = t.get("succ")[good]
                if s != t.get("succ")[1 - good] and (s in self.dom[i.block] | {i.block}) and set(f.pred[s]) == {b}:
                    return True
        return False

    def runaway(self, x):
        """starts at the count and runs on while the count itself stays"""
        f = self.f
        L = f.loops.get(x.block)
        if L is None:
            return False
        init = [v for p, v in x.ops if p not in L]
        if not any(self.loaded(v)[0] == CNT for v in init):
            return False
        for b in L:
            for j in f.blocks[b]:
                if j.op == "store" and self.field(j.ops[1]) == CNT or j.op == "call" and j.callee_name() in self.mod.defined and CNT in self.mod.modset(j.callee_name())["fields"]:
                    return False
        return any(j.op == "call" and j.callee_name() in self.K.growers for b in L for j in f.blocks[b])

    def reaches(self, x, i, miss):
        """can i be reached from x when x is the index of nothing?"""
        f = self.f

        def ev(o, n=0):
            if o["k"] == "c":
                return int(o["v"])
            if o["k"] != "v" or n > 8:
                return None
            j = f.insts[o["n"]]
            if j is x:
                return miss
            if j.op in ("sext", "zext", "trunc", "freeze"):
                v = ev(j.ops[0], n + 1)
                return None if v is None else (v & ((1 << 32) - 1) if j.op == "zext" and v < 0 else abs(v) & 1 if j.ty == "i1" else v)
            if j.op == "icmp":
                a, b = ev(j.ops[0], n + 1), ev(j.ops[1], n + 1)
                if a is None or b is None:
                    return None
                p = j.get("pred")
                if p[0] == "u":
                    a, b = a % (1 << 64), b % (1 << 64)
                return int({"eq": a == b, "ne": a != b}.get(p, {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}.get(p[1:], False)))
            if j.op == "xor" and j.ty == "i1":
                a, b = ev(j.ops[0], n + 1), ev(j.ops[1], n + 1)
                return None if None in (a, b) else (a ^ b) & 1
            if j.op == "and" and j.ty == "i1":
                vs = [ev(v, n + 1) for v in j.ops]
                return 0 if 0 in vs else 1 if None not in vs else None
            if j.op == "or" and j.ty == "i1":
                vs = [ev(v, n + 1) for v in j.ops]
                return 1 if any(v for v in vs) else 0 if None not in vs else None
            return None
        seen, w = set(), [x.block]
        while w:
            b = w.pop()
            if b in seen:
                continue
            seen.add(b)
            if b == i.block:
                return True
            t = f.blocks[b][-1]
            ss = t.get("succ") or []
            if t.op == "br" and len(ss) == 2:
                v = ev(t.ops[0])
                if v is not None:
                    ss = [ss[0 if v else 1]]
            elif t.op == "switch":
                v = ev(t.ops[0])
                ss = [s for c, s in t.get("cases") if v is None or int(c) == v] + [t.get("default")]
            w += [s for s in ss if s != x.block]
        return False

    # -- instructions ----------------------------------------------------------------
    def enter(self, pb, b, st):
        f, got = self.f, set()
        if f.ret == "ptr":
            for p in f.blocks[b]:
                if p.op != "phi":
                    break
                o = next(v for q, v in p.ops if q == pb)
                if p.ty == "ptr" and (self.element(o) and "stored" in self.access(f.blocks[pb][-1], st, o, True, "hands out").flags or ("slot",) + okey(o) in st.flags):
                    got.add(("slot", "v", p.id))
        s = super().enter(pb, b, st)
        return s.to(flags=s.flags | got) if got else s

    def access(self, i, st, o, write, what):
        e = self.element(o)
        if e is None:
            return st
        base, idx, size = e
        if idx is None and not (write and i.op == "store"):
            return st
        self.n["access"] += 1
        if ("base", base.id) not in st.flags:
            self.report("inside", i, "%s an element of the block the collection had before room was made" % what)
        if idx is None:
            return st.to(flags=st.flags | {"stored"})
        self.judge(i, st, idx, write, what)
        o = self.strip(idx)
        if o["k"] == "v" and self.f.insts[o["n"]].op == "call":
            return st
        if size:
            self.K.sizes.setdefault(self.f.name, set()).add(size)
        return st.to(flags=(st.flags | {"stored"}) - {"owed"}) if write else st

    def step(self, i, st):
        if ("v", i.id) in st.facts:
            st = st.to()
            st.facts.pop(("v", i.id), None)
        if i.op == "load":
            m = self.field(i.ops[0])
            fl = st.flags
            if m == CNT:
                fl = fl - {("good", i.id), ("ask", i.id)}
                fl = fl | {("good", i.id)} if "room" in fl else fl | {("ask", i.id)} if "entry" in fl else fl
            elif m == VAL:
                fl = fl | {("base", i.id)}
            else:
                self.access(i, st, i.ops[0], False, "reads")
            return [st.to(flags=fl)] if fl != st.flags else [st]
        if i.op == "store":
            return [self.put(i, st)]
        if i.op == "select":
            return super().step(i, st)
        if i.op == "call":
            return self.callee(i, st)
        return [st]

    def put(self, i, st):
        m = self.field(i.ops[1])
        if m == VAL and self.f.name not in self.K.growers:
            return st.to(flags=frozenset(x for x in st.flags if x in ("entry", "gone", "failed", "owed", "many") or isinstance(x, tuple) and x[0] == "base"))
        if m != CNT:
            return self.access(i, st, i.ops[1], True, "stores")
        self.n["count"] += 1
        v = self.strip(i.ops[0])
        fl = st.flags
        drop = {"room", "entry", "stored"}
        if v["k"] == "c" and int(v["v"]) == 0:
            self.n["reset"] += "gone" in fl
            drop = drop | {"gone"}
        if v["k"] == "v":
            x = self.f.insts[v["n"]]
            if x.op in ("add", "sub"):
                for a, b in (x.ops, x.ops[::-1]):
                    if self.loaded(a)[0] == CNT and b["k"] == "c":
                        c = int(b["v"])
                        if x.op == "add" and 1 < c < 1 << 32:
                            self.report("counted", i, "counts more than the one element there is room for")
                        elif x.op == "add" and c == 1:
                            if "entry" in fl and self.K.callers.get(self.f.name) and "stored" not in fl:
                                self.asks.add("counts")
                            elif "stored" not in fl:
                                if "room" in fl:
                                    fl = fl | {"owed"}
                                else:
                                    self.report("counted", i, "counts an element that was not stored")
        return st.to(flags=fl - drop)

    def callee(self, i, st):
        K, mod = self.K, self.mod
        name = i.callee_name()
        if name in K.growers:
            g = K.growers[name]
            if "owed" in st.flags:
                self.report("counted", i, "counts an element that was not stored")
            keep = frozenset(x for x in st.flags if not (isinstance(x, tuple) and x[0] in ("base", "good", "ask")) and x not in ("entry", "stored", "owed"))
            ok = st.to(flags=keep | {"room"} | ({"many"} if len(g.f.params) > 1 and not K.plain(g) else set()))
            ok.facts[("v", i.id)] = g.value(True)
            no = st.to(flags=(st.flags - {"room", "entry"}) | {"failed"})
            no.facts[("v", i.id)] = g.value(False)
            K.uses.setdefault(name, set()).add(self.f.name)
            return [ok, no]
        if name not in mod.defined:
            if name is None and mod.callee_field(i) == OPT + "free_handler":
                return [st.to(flags=st.flags | {"gone"})]
            if name and name.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")):
                s = self.access(i, st, i.ops[0], True, "copies")
                return [self.access(i, s, i.ops[1], False, "copies") if not name.startswith("llvm.memset") else s]
            self.bulk(i, st)
            return [st]
        g = mod.defined[name]
        self.bulk(i, st)
        for n, o in enumerate(i.ops):
            if o["k"] == "v" and n < len(g.params) and g.params[n]["ty"] == "ptr" and self.element(o):
                st = self.access(i, st, o, True, "hands out")
        if "failed" in st.flags:
            self.reported(i, st, g)
        w = K.walk(name)
        for a in sorted(w.asks, key=str):
            if a == "room":
                if "room" in st.flags:
                    st = st.to(flags=st.flags | {"stored"})
                elif "entry" in st.flags and K.callers.get(self.f.name):
                    self.asks.add("room")
                else:
                    self.report("inside", i, "has %s store an element without having made room for it" % g.src)
            elif a == "counts":
                if "stored" not in st.flags and "room" in st.flags:
                    st = st.to(flags=st.flags | {"owed"})
                elif "stored" not in st.flags:
                    if "entry" in st.flags and K.callers.get(self.f.name):
                        self.asks.add("counts")
                    else:
                        self.report("counted", i, "counts an element that was not stored")
            elif a[0] == "index" and a[1] < len(i.ops):
                self.judge(i, st, i.ops[a[1]], True, "stores")
        m = mod.modset(name)["fields"]
        fl = st.flags
        if CNT in m:
            fl = fl - {"room", "entry", "stored"}
        if CAP in m:
            fl = fl - {"entry"}
        if CAP in m or VAL in m:
            fl = frozenset(x for x in fl if not (isinstance(x, tuple) and x[0] == "base"))
            if "room" in w.gives:
                fl = fl | {"room"}
        st = st.to(flags=fl)
        if w.gone:
            st = st.to(flags=st.flags | {"gone"})
        outs = [st]
        if w.fails:
            outs = []
            for failed, room, v, slot in sorted(w.results, key=str):
                s = st.to(flags=st.flags | ({"failed"} if failed else set()))
                if room and CNT not in m:
                    s.flags = s.flags | {"room"}
                if slot:
                    s.flags = (s.flags | {"stored"}) - {"owed"}
                if v is not None:
                    s.facts[("v", i.id)] = v
                outs.append(s)
        return outs

    def reported(self, i, st, g):
        """the failure is recorded as one of memory"""
        if ARG + "error_code" not in self.mod.modset(g.name)["fields"] or len(i.ops) < 2 or "argus_t" not in "".join(g.sig[1:2]) or g.params[1]["ty"] != "i32":
            return
        v = self.val(st, i.ops[1])
        self.n["refuse"] += 1
        if isinstance(v, int) and v != self.K.memory and v != 0:
            self.report("refused", i, "reports a collection that could not be enlarged as some other error")

    def bulk(self, i, st):
        """the whole collection is handed on with as many elements as it has"""
        hit = [n for n, o in enumerate(i.ops) if o["k"] == "v" and self.loaded(o)[0] == VAL and not self.f.insts[o["n"]].op == "call"]
        if not hit:
            return
        for n, o in enumerate(i.ops):
            if n in hit or o["k"] != "v":
                continue
            x = self.f.insts[self.strip(o)["n"]] if self.strip(o)["k"] == "v" else None
            if x is None:
                continue
            if x.op == "load" and self.field(x.ops[0]) == CAP:
                self.report("inside", i, "hands on the elements of a collection with its capacity as their number")
            if x.op == "add" and self.loaded(x.ops[0])[0] == CNT and x.ops[1]["k"] == "c" and 0 < int(x.ops[1]["v"]) < 1 << 32:
                self.report("inside", i, "hands on more elements than a collection has")
            if x.op == "load" and self.field(x.ops[0]) == CNT:
                self.n["access"] += 1

    def ret(self, i, st):
        slot = False
        if i.ops and self.f.ret == "ptr" and self.element(i.ops[0]):
            st = self.access(i, st, i.ops[0], True, "hands out")
            slot = "stored" in st.flags
        elif i.ops and ("slot",) + okey(i.ops[0]) in st.flags:
            slot = True
        v = self.val(st, i.ops[0]) if i.ops else None
        failed = "failed" in st.flags
        if "owed" in st.flags:
            self.report("counted", i, "counts an element that was not stored")
        if "gone" in st.flags:
            self.gone = True
            if not self.K.callers.get(self.f.name):
                self.report("reset", i, "leaves elements counted in an option whose block was released")
        self.ends.append((failed, "room" in st.flags, "nz" if slot else v, slot))
        if failed and not self.K.callers.get(self.f.name) and self.f.ret == "i32":
            self.n["refuse"] += 1
            if v == 0:
                self.report("refused", i, "may report success although the collection could not be enlarged")
            elif isinstance(v, int) and v != self.K.memory:
                self.report("refused", i, "reports a collection that could not be enlarged as some other error")

    @property
    def results(self):
        return set(self.ends)

    @property
    def fails(self):
        return any(e[0] for e in self.ends)

    @property
    def gives(self):
        ok = [e[1] for e in self.ends if not e[0]]
        return {"room"} if ok and all(ok) else set()


class Uses:
    def __init__(self, ctx, gr):
        self.mod, self.growers = ctx.mod, gr
        self.S = Blocks(ctx.mod)
        self.memory = ctx.mod.enum("ARGUS_ERROR_MEMORY")
        self.callers = {n: ctx.mod.callers(n) for n in ctx.mod.defined}
        self.finders = {n: m for n, m in ((n, finder(ctx.mod, f)) for n, f in ctx.mod.defined.items()) if m is not None}
        self.memo, self.open, self.sizes, self.uses = {}, set(), {}, {}

    def plain(self, g):
        """its further parameters are only about the size of an element"""
        return any(u[0] == "s" for u in g.units)

    def walk(self, name):
        if name not in self.memo:
            w = Use(self, self.mod.defined[name])
            if name in self.open or name in self.growers or not self.concerned(name):
                return w
            self.open.add(name)
            w.run()
            self.open.discard(name)
            self.memo[name] = w
        return self.memo[name]

    def concerned(self, name):
        m = self.mod.modset(name)["fields"]
        r = reads(self.mod)[name]
        return bool({CNT, CAP} & m or VAL in r or VAL in m or any(g in self.mod.closure(name) for g in self.growers))


def finder(mod, f):
    """the value a search for an entry of an option returns when there is none"""
    if f.ret not in ("i32", "i64") or option(f) is None or CNT not in reads(mod)[f.name] or mod.modset(f.name)["fields"]:
        return None
    miss, found = set(), False

    def walk(o, seen):
        nonlocal found
        while o["k"] == "v" and f.insts[o["n"]].op in ("trunc", "sext", "zext", "freeze"):
            o = f.insts[o["n"]].ops[0]
        if o["k"] == "c":
            v = int(o["v"])
            miss.add(v - (1 << 32) if f.ret == "i32" and v >= 1 << 31 else v - (1 << 64) if v >= 1 << 63 else v)
        elif o["k"] == "v":
            x = f.insts[o["n"]]
            if x.op == "phi" and x.block not in f.loops:
                if x.id not in seen:
                    for _, v in x.ops:
                        walk(v, seen | {x.id})
            elif x.op == "phi":
                found = True
            else:
                miss.add(None)
        else:
            miss.add(None)
    for i in f.all_insts():
        if i.op == "ret" and i.ops:
            walk(i.ops[0], set())
    if found and len(miss) == 1:
        m = miss.pop()
        if m is not None and m < 0:
            return m
    return None


def run_capacity(ctx):
    mod = ctx.mod
    ctx.rule("room", "making room succeeds only with a block as large as the recorded capacity, which is above the number of elements")
    ctx.rule("kept", "when a collection cannot be enlarged, its block, its capacity and its count stay as they were and the failure is returned")
    ctx.rule("inside", "an element is stored only at an index there is room for, of the block the collection has now")
    ctx.rule("counted", "the count follows the elements: one more for each one stored")
    ctx.rule("refused", "a value there is no room for is refused with a memory error")
    ctx.rule("reset", "an option whose block was released counts no elements when the caller goes on")
    ctx.rule("size", "room is made in units of the element that is stored")
    gr = growers(mod)
    for n in list(gr):
        # a helper of another one that takes the parts it needs is judged there
        up = mod.callers(n)
        if up and all(g.name in gr for g in up) and len(gr[n].params) > 1:
            del gr[n]
    ctx.need(gr, "no function makes room in a collection")
    gs = {n: Grower(ctx, f) for n, f in gr.items()}
    K = Uses(ctx, gs)
    n = {"access": 0, "count": 0, "refuse": 0, "reset": 0}
    for name, f in sorted(mod.defined.items()):
        if name in gs or not K.concerned(name):
            continue
        w = K.walk(name)
        for k in n:
            n[k] += w.n[k]
        for (rule, _, _), (i, what) in sorted(w.bad.items(), key=str):
            ctx.violation(rule, where(f), what, [str(i.loc)])
    ctx.inst("inside", n["access"])
    ctx.inst("counted", n["count"])
    ctx.inst("refused", n["refuse"])
    ctx.inst("reset", n["reset"])
    compact(ctx)
    # sizes
    for g, users in sorted(K.uses.items()):
        for u in sorted(gs[g].units, key=str):
            for name in sorted(users):
                for s in sorted(K.sizes.get(name, ())):
                    ctx.inst("size")
                    if isc(u):
                        if u[1] < s:
                            ctx.violation("size", where(mod.defined[name]), "stores elements of %d bytes where %s made room for %d" % (s, gs[g].f.src, u[1]))
                        continue
                    for i in mod.defined[name].all_insts():
                        if i.op == "call" and i.callee_name() == g and i.ops[u[2]]["k"] == "c" and int(i.ops[u[2]]["v"]) < s:
                            ctx.violation("size", where(mod.defined[name]), "stores elements of %d bytes where it made room for less" % s)
    ctx.setcount("functions that make room", len(gs))
    for name, w in sorted(K.memo.items()):
        if w.own:
            ctx.notes.append("%s makes room on its own account: its indices are not decided" % mod.defined[name].src)
    ctx.setcount("functions walked", len(K.memo))


def compact(ctx):
    """functions over an array and its length: what they store stays inside"""
    mod = ctx.mod
    for name, f in sorted(mod.defined.items()):
        arr = [n for n in range(len(f.params)) if any(t in f.sig_of(n) for t in ("argus_value_t", "argus_pair_t"))]
        if not arr or "i64" not in [p["ty"] for p in f.params]:
            continue
        dom = f.dominators()
        for i in f.all_insts():
            to = None
            if i.op == "store":
                to = i.ops[1]
            elif i.op == "call" and (i.callee_name() or "").startswith(("llvm.memcpy", "llvm.memmove")):
                to = i.ops[0]
            if to is None:
                continue
            idx = None
            while to["k"] == "v":
                x = f.insts[to["n"]]
                if x.op == "getelementptr":
                    for s in x.get("steps"):
                        if "i" in s and not (s["i"]["k"] == "c" and int(s["i"]["v"]) == 0):
                            idx = s["i"]
                    to = x.ops[0]
                elif x.op == "bitcast":
                    to = x.ops[0]
                else:
                    break
            if to["k"] != "a" or to["n"] not in arr or idx is None:
                continue
            ctx.inst("inside")
            why = outside(f, dom, i, idx)
            if why:
                ctx.violation("inside", where(f), why)


def outside(f, dom, i, idx):
    o = idx
    if o["k"] != "v":
        return None
    x = f.insts[o["n"]]
    off = 0
    if x.op == "add" and x.ops[1]["k"] == "c":
        off = int(x.ops[1]["v"])
        off = off - (1 << 64) if off >= 1 << 63 else off
        if x.ops[0]["k"] != "v":
            return None
        x = f.insts[x.ops[0]["n"]]
    if x.op != "phi" or x.block not in f.loops:
        return None
    L = f.loops[x.block]
    init = [v for p, v in x.ops if p not in L]
    if len(init) != 1 or init[0]["k"] != "c":
        return None
    c0 = int(init[0]["v"])
    if off > 0 and not tested(f, dom, i, o["n"]):
        return "stores an element after the one its index stands for"
    if tested(f, dom, i, x.id):
        return None
    # follows the index that is tested
    for y in f.blocks[x.block]:
        if y.op != "phi":
            break
        if y is x or not tested(f, dom, i, y.id):
            continue
        yi = [v for p, v in y.ops if p not in L]
        if len(yi) == 1 and yi[0]["k"] == "c" and int(yi[0]["v"]) < c0:
            return "stores elements at an index that starts above the one that is tested"
        for p, v in x.ops:
            if p in L and steps(f, v, x.id, 0) > 1:
                return "moves the index it stores at by more than one"
    return None


def steps(f, o, home, n):
    if o["k"] != "v" or n > 8 or o["n"] == home:
        return 0
    x = f.insts[o["n"]]
    if x.op == "add" and x.ops[1]["k"] == "c":
        c = int(x.ops[1]["v"])
        return (0 if c >= 1 << 63 else c) + steps(f, x.ops[0], home, n + 1)
    if x.op == "phi":
        return max([steps(f, v, home, n + 1) for _, v in x.ops] or [0])
    if x.op == "select":
        return max(steps(f, v, home, n + 1) for v in x.ops[1:])
    return 0


def tested(f, dom, i, n):
    for b in dom[i.block] | {i.block}:
        t = f.blocks[b][-1]
        if t.op == "br" and len(t.get("succ")) == 2 and t.ops[0]["k"] == "v":
            c = f.insts[t.ops[0]["n"]]
            if c.op == "icmp":
                p, a, z = c.get("pred"), c.ops[0], c.ops[1]
                if okey(z) == ("v", n):
                    a, z = z, a
                    p = {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}.get(p, p)
                if okey(a) == ("v", n) and z["k"] == "a":
                    k = {"ult": 0, "slt": 0, "ne": 0, "uge": 1, "sge": 1, "eq": 1}.get(p)
                    if k is not None and t.get("succ")[k] in dom[i.block] | {i.block}:
                        return True
    return False
