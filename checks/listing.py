"""Help lists every visible entry of the table and no hidden one (P29).

Three steps are judged one by one: each walk over the table keeps (or prints)
every visible entry, what is kept is linked into a list without dropping another,
and every list that is filled is printed to its end by something that shows the
entry's name."""
import absint
from absint import C, C0, C1, TOP, split, mkptr, isc
from levels import Levels
from roles import *
from blocks import family

TYPES = {"option": "TYPE_OPTION", "positional": "TYPE_POSITIONAL", "subcommand": "TYPE_SUBCOMMAND"}
SHOWN = {"option": (OPT + "sname", OPT + "lname"), "positional": (OPT + "name",), "subcommand": (OPT + "name",)}


def optparam(f):
    p = [n for n in range(len(f.params)) if "argus_option_t" in f.sig_of(n) and "**" not in f.sig_of(n)]
    return p[0] if len(p) == 1 else None


def strip(f, o):
    while o["k"] == "v" and f.insts[o["n"]].op in ("zext", "sext", "trunc", "freeze", "bitcast"):
        o = f.insts[o["n"]].ops[0]
    return o


def address(f, o):
    """(what the address is based on, [struct steps]) """
    steps = []
    while o["k"] == "v":
        x = f.insts[o["n"]]
        if x.op == "getelementptr":
            steps = [(s["f"], s["off"]) for s in x.get("steps") if "f" in s] + steps
            o = x.ops[0]
        elif x.op in ("bitcast", "freeze"):
            o = x.ops[0]
        else:
            break
    return o, steps


def fieldload(f, o):
    """(base, raw field, load) when a value was read from a member"""
    o = strip(f, o)
    if o["k"] != "v" or f.insts[o["n"]].op != "load":
        return None, None, None
    x = f.insts[o["n"]]
    b, s = address(f, x.ops[0])
    return b, (s[-1] if s else None), x


# ---------------------------------------------------------------- filling
def walks(f, mod):
    """loops that read the type of one entry after the other"""
    return [h for h, L in f.loops.items() if any(i.op == "load" and OPT + "type" in [x[1] for x in mod._ptrsteps(f, i.ops[0]) if x[0] == "field"]
                                               for b in L for i in f.blocks[b])]


class Fill(Levels):
    name = "listing"

    def __init__(self, mod, root, keepers, printers):
        super().__init__(mod)
        self.root, self.keepers, self.printers = root, keepers, printers
        self.opt_obl = {t: (lambda eng, st, o, lst, t=t: self.dealt(eng, st, o, t)) for t in TYPES}
        self.lists = {t: set() for t in TYPES}
        self.n = 0

    def inline(self, eng, st, fr, inst, f):
        return f.name not in self.keepers and f.name not in self.printers and not maker(self.mod, f) and \
            (straight(self.mod, f) or optparam(f) is not None or bool(reach(self.mod, f.name) & (self.keepers | self.printers)))

    def hidden(self, eng, st, o):
        return bits(eng, st, fval(eng, st, o, OPT + "flags", "i32"), self.mod.enum("FLAG_HIDDEN"))

    def istype(self, eng, st, o, t):
        return truth(eng, st, "eq", fval(eng, st, o, OPT + "type", "i32"), C(self.mod.enum(TYPES[t])))

    def dealt(self, eng, st, o, t):
        if self.istype(eng, st, o, t) is False or self.hidden(eng, st, o) is True:
            return True
        if st.ps.get("kept") == o:
            return True
        return "mk" in st.ps and zero(eng, st, st.ps["mk"]) is True

    def iteration(self, eng, st, fr, f, hdr, acc):
        super().iteration(eng, st, fr, f, hdr, acc)
        if any(k == "opt" for k, _, _ in acc):
            st.ps = {k: v for k, v in st.ps.items() if k not in ("kept", "mk")}

    def exitloop(self, eng, st, fr, f, hdr):
        if any(k == "opt" and self.ended(eng, st, k, p, s) for k, p, s in self.accessed(st, fr, f, hdr)):
            st.ps = {k: v for k, v in st.ps.items() if k not in ("kept", "mk")}

    def call(self, eng, st, fr, inst, name, args):
        g = self.mod.defined.get(name)
        if g is None:
            return None
        if name in self.keepers or name in self.printers:
            self.n += 1
            w = where(inst.fn)
            o = args[optparam(g)]
            if self.hidden(eng, st, o) is not False:
                self.report("hidden", w, "lists an entry that may be marked hidden", st)
            if st.ps.get("kept") == o:
                self.report("once", w, "lists one entry twice", st)
            at = "print" if name in self.printers else None
            for n, a in enumerate(inst.ops):
                if n != optparam(g) and name in self.keepers:
                    s = [x for x in split(args[n])[1] if x[0] == "f"]
                    if s:
                        at = s[-1][1]
            for t in TYPES:
                if self.istype(eng, st, o, t) is not False:
                    self.lists[t].add((at, name))
            v, st = eng.opaque(st, fr, inst.fn, inst, g, args)[0]
            ps(st, kept=o)
            return [(v, st)]
        if maker(self.mod, g):
            v, st = eng.opaque(st, fr, inst.fn, inst, g, args)[0]
            ps(st, mk=v)
            return [(v, st)]
        return None


def maker(mod, g):
    """hands out a block it may have failed to obtain"""
    return g.ret == "ptr" and any(family(c) == "free" for c in mod.closure(g.name)) and "argus_option_t" not in g.sig[0]


# ---------------------------------------------------------------- linking
class Link(App):
    name = "linking"
    cap = 60

    def inline(self, eng, st, fr, inst, f):
        return True

    def call(self, eng, st, fr, inst, name, args):
        if name in self.mod.defined or family(name) != "free":
            return None
        res = eng.external(inst.fn, fr, inst, st, name, args)
        for v, s in res:
            if name == "calloc":
                ps(s, zeroed=C1)
            ps(s, **({"oom": C1} if v == C0 else {"node": v}))
        return res

    def store(self, eng, st, fr, inst, ptr, val):
        if "node" not in st.ps:
            return
        node = st.ps["node"]
        if val != node or split(ptr)[0] == node or split(ptr)[0][0] == "al":
            return
        old = eng.read(st, ptr, "ptr")
        keeps = zero(eng, st, old) is True or any(l[0] == node and e[0] == "v" and e[2] == old for l, e in st.mem.items() if isinstance(e, tuple) and len(e) > 2)
        if not keeps:
            self.report("linked", where(inst.fn), "drops the entries that were in the list", st)
        if "linked" in st.ps:
            self.report("linked", where(inst.fn), "links one entry in two places", st)
        ps(st, linked=C1)


def members(mod, inside, known):
    """members of blocks of the kind some members of which are known that are read"""
    kinds = {k.rsplit(".", 1)[0] for k in known}
    return {r for n in inside for r in reads(mod)[n] if r.rsplit(".", 1)[0] in kinds}


def linking(ctx, f, group, inside):
    mod = ctx.mod
    ana = Link(mod)
    eng = ana.eng = ctx.engine(ana)
    w = where(f)
    want = ("s", "arg", optparam(f)) if not group else None
    for e in eng.run_root(f):
        s = e.st
        ctx.inst("linked")
        tr = absint.path_of(s)
        node = s.ps.get("node")
        if node is None:
            if not group and "oom" not in s.ps:
                ctx.violation("linked", w, "may return without having kept the entry", tr)
            continue
        if "oom" in s.ps:
            continue
        if "linked" not in s.ps:
            ctx.violation("linked", w, "may return without having linked the entry into the list", tr)
        got = {l[1][-1][1] for l, en in s.mem.items() if l[0] == node and l[1] and l[1][-1][0] == "f"}
        open_ = members(mod, inside, got) - got
        if open_ and "zeroed" not in s.ps:
            ctx.violation("linked", w, "leaves open %s of a block it hands on" % ", ".join(sorted(open_)), tr)
        vals = [en[2] for l, en in s.mem.items() if l[0] == node and isinstance(en, tuple) and en[0] == "v"]
        if not group and want not in vals:
            ctx.violation("linked", w, "records another entry than the one it was given", tr)
        if not any(v == C0 for v in vals) and not group and len(vals) < 2:
            ctx.violation("linked", w, "leaves open what follows the entry in the list", tr)
    ctx.absorb(ana)


# ---------------------------------------------------------------- printing
class Paths:
    """which instructions are passed on every way, assuming some values are there"""

    def __init__(self, mod):
        self.mod = mod
        self.listers, self.busy = {}, set()

    def ev(self, f, o, there, n=0):
        """value of a condition (None: open) when everything `there` holds for is not NULL"""
        if o["k"] == "c":
            return int(o["v"])
        if there(f, o):
            return "nz"
        if o["k"] != "v" or n > 8:
            return None
        x = f.insts[o["n"]]
        if x.op in ("zext", "sext", "freeze", "bitcast", "trunc"):
            v = self.ev(f, x.ops[0], there, n + 1)
            return v if v is None or isinstance(v, int) or x.op != "trunc" else None
        if x.op == "icmp":
            a, b = self.ev(f, x.ops[0], there, n + 1), self.ev(f, x.ops[1], there, n + 1)
            if a is None or b is None:
                return None
            p = x.get("pred")
            if "nz" in (a, b):
                if a == b or 0 not in (a, b) or p not in ("eq", "ne", "ugt"):
                    return None
                return int(p != "eq")
            return int({"eq": a == b, "ne": a != b}[p]) if p in ("eq", "ne") else None
        if x.op == "xor" and x.ty == "i1":
            a, b = self.ev(f, x.ops[0], there, n + 1), self.ev(f, x.ops[1], there, n + 1)
            return None if not isinstance(a, int) or not isinstance(b, int) else (a ^ b) & 1
        if x.op in ("and", "or") and x.ty == "i1":
            vs = [self.ev(f, v, there, n + 1) for v in x.ops]
            if x.op == "and":
                return 0 if 0 in vs else 1 if None not in vs else None
            return 1 if any(v not in (0, None) for v in vs) else 0 if None not in vs else None
        if x.op == "select":
            c = self.ev(f, x.ops[0], there, n + 1)
            return None if c is None else self.ev(f, x.ops[2 if c == 0 else 1], there, n + 1)
        if x.op == "phi":
            # a || b, a && b: what comes in over edges that can be taken
            vs = set()
            for p, v in x.ops:
                if p in self.live(f, there):
                    t = f.blocks[p][-1]
                    if t.op == "br" and len(t.get("succ")) == 2:
                        c = self.ev(f, t.ops[0], there, n + 1)
                        if c is not None and t.get("succ")[0 if c else 1] != x.block:
                            continue
                    vs.add(self.ev(f, v, there, n + 1))
            return vs.pop() if len(vs) == 1 else None
        if x.op == "call" and x.callee_name() in self.mod.defined:
            g = self.mod.defined[x.callee_name()]
            if g.headers or self.mod.modset(g.name)["fields"]:
                return None
            known = {k: self.ev(f, v, there, n + 1) for k, v in enumerate(x.ops)}

            def inner(h, v):
                return v["k"] == "a" and known.get(v["n"]) not in (None, 0)
            vs = {self.ev(g, i.ops[0], inner, n + 1) if i.ops else None for i in g.all_insts() if i.op == "ret"}
            return vs.pop() if len(vs) == 1 else None
        return None

    def live(self, f, there):
        return range(len(f.blocks))

    def nexts(self, f, b, there):
        t = f.blocks[b][-1]
        if t.op == "br" and len(t.get("succ")) == 2:
            v = self.ev(f, t.ops[0], there)
            if v is not None:
                return [t.get("succ")[0 if v else 1]]
        return f.succ[b]

    def avoid(self, f, start, sites, goal, there, stop=()):
        """a block of goal reachable from start without any of the sites"""
        seen, w = set(), [start]
        at = {}
        for i in sites:
            at.setdefault(i.block, []).append(i)
        first = True
        while w:
            b = w.pop()
            if b in seen and not first:
                continue
            if not first and b in goal and b not in at:
                return b
            if not first and b in goal and goal is stop:
                return b
            seen.add(b)
            if b in at:
                first = False
                continue
            if b in goal and f.blocks[b][-1].op == "ret":
                return b
            first = False
            for s in self.nexts(f, b, there):
                if s in goal and s in stop:
                    return s
                if s not in stop:
                    w.append(s)
        return None

    def rets(self, f):
        return {b for b in range(len(f.blocks)) if f.blocks[b][-1].op == "ret"}


def noted(x):
    return lambda f, o: False


class Show(Paths):
    """functions that show a member of the entry they are given"""

    def __init__(self, mod):
        super().__init__(mod)
        self.memo = {}

    def shows(self, name, field, k):
        key = (name, field, k)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = False
        f = self.mod.defined[name]

        def mine(h, o):
            b, r, x = fieldload(h, o)
            return x is not None and b["k"] == "a" and b["n"] == k and r is not None and self.mod.field(*r) == field

        def there(h, o):
            o = strip(h, o)
            return h is f and o["k"] == "v" and mine(h, o)
        sites = []
        for i in f.all_insts():
            if i.op != "call":
                continue
            c = i.callee_name()
            if c in PRINTS or c in ("dprintf", "write"):
                if any(self.derived(f, o, mine) for o in i.ops):
                    sites.append(i)
            elif c in self.mod.defined:
                g = self.mod.defined[c]
                if any(o["k"] == "a" and o["n"] == k and n < len(g.params) and self.shows(c, field, n) for n, o in enumerate(i.ops)):
                    sites.append(i)
                elif any(self.derived(f, o, mine) and n < len(g.params) and self.prints(c, n) for n, o in enumerate(i.ops)):
                    sites.append(i)
        r = bool(sites) and self.avoid(f, 0, sites, self.rets(f), there) is None
        self.memo[key] = r
        return r

    def derived(self, f, o, mine, n=0):
        if mine(f, o):
            return True
        if o["k"] != "v" or n > 6:
            return False
        x = f.insts[o["n"]]
        if x.op in ("zext", "sext", "trunc", "freeze", "bitcast"):
            return self.derived(f, x.ops[0], mine, n + 1)
        if x.op == "select":
            return all(self.derived(f, v, mine, n + 1) for v in x.ops[1:])
        return False

    def prints(self, name, k):
        """prints the text it is given as k-th argument whatever happens"""
        key = (name, "text", k)
        if key not in self.memo:
            self.memo[key] = False
            f = self.mod.defined[name]

            def there(h, o):
                return h is f and o["k"] == "a" and o["n"] == k
            sites = [i for i in f.all_insts() if i.op == "call" and any(strip(f, o) == {"k": "a", "n": k} or strip(f, o).get("k") == "a" and strip(f, o).get("n") == k for o in i.ops) and
                     (i.callee_name() in PRINTS or i.callee_name() in self.mod.defined and any(
                         strip(f, o).get("k") == "a" and strip(f, o).get("n") == k and n < len(self.mod.defined[i.callee_name()].params) and self.prints(i.callee_name(), n)
                         for n, o in enumerate(i.ops)))]
            self.memo[key] = bool(sites) and self.avoid(f, 0, sites, self.rets(f), there) is None
        return self.memo[key]


class Render(Paths):
    def __init__(self, ctx, printers, opt, nxt):
        super().__init__(ctx.mod)
        self.ctx, self.printers, self.opt, self.nxt = ctx, printers, opt, nxt
        self.memo = {}

    def chain(self, f, h):
        """(phi, start) of a loop that follows a chain of nodes"""
        L = f.loops[h]
        for x in f.blocks[h]:
            if x.op != "phi":
                break
            if x.ty != "ptr":
                continue
            init = [v for p, v in x.ops if p not in L]
            back = [v for p, v in x.ops if p in L]
            if len(init) == 1 and back and all(fieldload(f, v)[0] is not None and okv(fieldload(f, v)[0]) == ("v", x.id) for v in back):
                return x, init[0], {fieldload(f, v)[1] for v in back}
        return None, None, None

    def walk(self, f, h, quiet=False):
        """what prints the entries of the chain followed by a loop; None if it is none of entries"""
        x, init, nx = self.chain(f, h)
        if x is None:
            return None
        L = f.loops[h]
        sites = []
        for b in L:
            for i in f.blocks[b]:
                if i.op == "call":
                    for n, o in enumerate(i.ops):
                        bs, r, ld = fieldload(f, o)
                        if ld is not None and okv(bs) == ("v", x.id) and r is not None and r[1] == self.opt and \
                                (i.callee_name() in self.printers or i.d["callee"]["k"] in ("a", "v")):
                            sites.append(i)
        if not sites:
            return None
        w = where(f)

        def there(g, o):
            return g is f and okv(o) == ("v", x.id)
        self.ctx.inst("printed")
        if {r[1] for r in nx if r} != {self.nxt}:
            self.ctx.violation("printed", w, "does not go from one entry of a list to the next")
        # once round without printing
        inside = [s for s in self.nexts(f, h, there) if s in L]
        if not any(i.block == h for i in sites):
            for s in inside:
                if self.around(f, s, sites, h, there):
                    self.ctx.violation("printed", w, "may pass an entry of a list without printing it")
        if self.leaves(f, h, L, there):
            self.ctx.violation("printed", w, "may leave a list before its end")
        for i in sites:
            if self.again(f, i, sites, h):
                self.ctx.violation("once", w, "may print one entry of a list twice")
        return {i.callee_name() if i.callee_name() else ("param",) + okv(i.d["callee"]) for i in sites}

    def around(self, f, s, sites, h, there):
        at = {i.block for i in sites}
        seen, w = set(), [s]
        while w:
            b = w.pop()
            if b in seen or b in at:
                continue
            if b == h:
                return True
            seen.add(b)
            w += self.nexts(f, b, there)
        return False

    def leaves(self, f, h, L, there):
        seen, w = set(), [h]
        while w:
            b = w.pop()
            if b in seen:
                continue
            seen.add(b)
            for s in self.nexts(f, b, there):
                if s not in L:
                    return True
                if s != h:
                    w.append(s)
        return f.blocks[h][-1].op == "ret"

    def again(self, f, i, sites, h):
        rest = f.blocks[i.block][f.blocks[i.block].index(i) + 1:]
        if any(j in rest for j in sites):
            return True
        at = {j.block for j in sites}
        seen, w = set(), list(f.succ[i.block])
        while w:
            b = w.pop()
            if b in seen or b == h:
                continue
            seen.add(b)
            if b in at:
                return True
            w += f.succ[b]
        return False

    def lister(self, name, k):
        """what prints the list given as k-th argument, to its end, in every case"""
        key = (name, k)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = None
        f = self.mod.defined[name]
        if f.params[k]["ty"] != "ptr" or any(x in f.sig_of(k) for x in ("argus_t", "argus_s", "argus_option", "char")):
            return None

        def there(g, o):
            return g is f and okv(strip(g, o)) == ("a", k)
        sites, who = [], set()
        for h in f.loops:
            x, init, _ = self.chain(f, h)
            if x is not None and okv(strip(f, init)) == ("a", k):
                p = self.walk(f, h)
                if p:
                    sites.append(f.blocks[h][-1])
                    who |= p
        for i in f.all_insts():
            if i.op == "call" and i.callee_name() in self.mod.defined:
                for n, o in enumerate(i.ops):
                    if okv(strip(f, o)) == ("a", k) and n < len(self.mod.defined[i.callee_name()].params):
                        p = self.lister(i.callee_name(), n)
                        if p:
                            sites.append(i)
                            who |= self.bind(i, p)
            elif i.op == "call" and i.d["callee"]["k"] == "a":
                for n, o in enumerate(i.ops):
                    if okv(strip(f, o)) == ("a", k):
                        sites.append(i)
                        who.add(("list", "a", i.d["callee"]["n"], n))
        prints, goes = self.first(f, k), [i for i in f.all_insts() if i.op == "call" and i.callee_name() == name and
                                          self.member(f, i.ops[k], k) == self.nxt]
        if prints and goes:
            self.ctx.inst("printed")
            for s in (prints, goes):
                if self.avoid(f, 0, s, self.rets(f), there) is not None:
                    self.ctx.violation("printed", where(f), "may leave a list before its end")
            for s in (prints, goes):
                if several(self, (f, [(i, None, None, None) for i in s])):
                    self.ctx.violation("once", where(f), "may print one entry of a list twice")
            who |= {i.callee_name() if i.callee_name() else ("param",) + okv(i.d["callee"]) for i in prints}
            self.memo[key] = who
            return who
        if sites:
            if self.avoid(f, 0, sites, self.rets(f), there) is not None:
                self.ctx.violation("printed", where(f), "may return without having printed a list that has entries")
            self.memo[key] = who
        return self.memo[key]

    def member(self, f, o, k):
        b, r, ld = fieldload(f, o)
        return r[1] if ld is not None and r is not None and okv(b) == ("a", k) else None

    def first(self, f, k):
        """calls that print the first entry of the list given as k-th argument"""
        return [i for i in f.all_insts() if i.op == "call" and (i.callee_name() in self.printers or i.d["callee"]["k"] == "a") and
                any(self.member(f, o, k) == self.opt for o in i.ops)]

    def bind(self, i, who):
        out = set()
        for p in who:
            if isinstance(p, tuple) and p[0] == "list":
                o = i.ops[p[2]]
                if o["k"] == "f":
                    out |= self.lister(o["n"], p[3]) or {("unknown", "", "")}
                else:
                    out.add(("list",) + okv(o) + (p[3],))
                continue
            if isinstance(p, tuple) and p[1] == "a":
                o = i.ops[p[2]]
                out.add(o["n"] if o["k"] == "f" else ("param",) + okv(o))
            else:
                out.add(p)
        return out

    def keyed(self, f):
        """list member -> [(site, what prints it, base)] of the lists a function prints"""
        out = {}
        for h in f.loops:
            x, init, _ = self.chain(f, h)
            if x is None:
                continue
            b, r, ld = fieldload(f, init)
            if ld is not None and r is not None:
                p = self.walk(f, h)
                if p:
                    out.setdefault(self.mod.field(*r) or r, []).append((f.blocks[h][-1], p, b, r))
        for i in f.all_insts():
            if i.op == "call" and i.callee_name() in self.mod.defined:
                for n, o in enumerate(i.ops):
                    b, r, ld = fieldload(f, o)
                    if ld is not None and r is not None and o.get("k") == "v" and n < len(self.mod.defined[i.callee_name()].params):
                        p = self.lister(i.callee_name(), n)
                        if p:
                            out.setdefault(self.mod.field(*r) or r, []).append((i, self.bind(i, p), b, r))
        return out


def okv(o):
    return (o["k"], o.get("n")) if o is not None else None


def printer(mod, f):
    """prints one entry it is given"""
    if optparam(f) is None or f.ret not in ("void", "i32", "i64") or walks(f, mod):
        return False
    r = reads(mod)[f.name]
    return bool(r & {OPT + "name", OPT + "lname", OPT + "sname"}) and bool(mod.closure(f.name) & PRINTS) and \
        bool(readsdirect(mod, f) & {OPT + "name", OPT + "lname", OPT + "sname"} or any(
            i.op == "call" and i.callee_name() in mod.defined and any(o["k"] == "a" and o["n"] == optparam(f) for o in i.ops) for i in f.all_insts()))


def keeper(mod, f):
    """records the entry it is given in a block it obtains"""
    k = optparam(f)
    return k is not None and any(family(c) == "free" for c in mod.closure(f.name)) and stores(mod, f, k, set()) and not walks(f, mod) and f.ret != "ptr"


def stores(mod, f, k, seen):
    """stores its k-th argument into a member of something"""
    if (f.name, k) in seen:
        return None
    seen.add((f.name, k))
    for i in f.all_insts():
        if i.op == "store" and i.ops[0]["k"] == "a" and i.ops[0]["n"] == k:
            b, s = address(f, i.ops[1])
            if s:
                return s[-1]
        if i.op == "call" and i.callee_name() in mod.defined:
            for n, o in enumerate(i.ops):
                if o["k"] == "a" and o["n"] == k and n < len(mod.defined[i.callee_name()].params):
                    r = stores(mod, mod.defined[i.callee_name()], n, seen)
                    if r:
                        return r
    return None


def run_listing(ctx):
    mod = ctx.mod
    ctx.rule("every", "each walk over the table lists every option, positional and subcommand that is not hidden")
    ctx.rule("hidden", "no entry marked hidden is listed")
    ctx.rule("once", "no entry is listed twice")
    ctx.rule("linked", "an entry that is kept is linked into its list without dropping another")
    ctx.rule("printed", "every list that is filled is printed, entry by entry, to its end")
    ctx.rule("shown", "printing an entry shows what it is called")
    ctx.rule("reached", "a request for help fills the lists and prints what was filled")
    top = "argus_print_help"
    ctx.need(top in mod.defined, "argus_print_help vanished")
    inside = reach(mod, top)
    keepers = {n for n in inside if keeper(mod, mod.defined[n])}
    keepers = {n for n in keepers if not (reach(mod, n) - {n}) & keepers}
    printers = {n for n in inside if printer(mod, mod.defined[n])}
    fillers = [mod.defined[n] for n in sorted(inside) if walks(mod.defined[n], mod) and reach(mod, n) & (keepers | printers)]
    ctx.need(fillers, "nothing goes through the table to list its entries")
    ctx.need(keepers, "nothing keeps an entry to list")
    lists, done = {t: set() for t in TYPES}, {t: 0 for t in TYPES}
    for f in fillers:
        ana = Fill(mod, f, keepers, printers)
        eng = ana.eng = ctx.engine(ana)
        tab = optparam(f)
        exits = eng.run_root(f)
        for t in TYPES:
            if not ana.lists[t]:
                continue
            done[t] += 1
            lists[t] |= ana.lists[t]
            for e in exits:
                ctx.inst("every")
                if tab is None or not ana.has(e.st, "done", (t, ("s", "arg", tab))):
                    ctx.violation("every", where(f), "may pass a visible %s without listing it: %s" % (t, ana.why(t)), absint.path_of(e.st))
        ctx.absorb(ana)
        ctx.inst("hidden", ana.n)
        ctx.inst("once", ana.n)
    for t in TYPES:
        if done[t] == 0:
            ctx.violation("every", where(fillers[0]), "does not list any %s" % t)
        elif done[t] > 1:
            ctx.violation("once", where(fillers[1]), "lists each %s again" % t)
    # linking
    opt = set()
    for n in sorted(keepers):
        f = mod.defined[n]
        linking(ctx, f, False, inside)
        r = stores(mod, f, optparam(f), set())
        opt.add(r)
    makers = {i.callee_name() for f in fillers for n in reach(mod, f.name) - keepers for i in mod.defined[n].all_insts()
              if i.op == "call" and i.callee_name() in mod.defined and maker(mod, mod.defined[i.callee_name()]) and n not in {k for kk in keepers for k in reach(mod, kk)}}
    for n in sorted(makers):
        linking(ctx, mod.defined[n], True, inside)
    ctx.need(len(opt) == 1, "entries are kept in blocks of several kinds")
    node = opt.pop()
    nxt = 8 if node[1] == 0 else 0
    R = Render(ctx, printers, node[1], nxt)
    sh = Show(mod)
    bound = {}
    for n in sorted(inside):
        f = mod.defined[n]
        for key, sites in R.keyed(f).items():
            bound.setdefault(key, []).append((f, sites))
    renderers = set()
    for t in sorted(TYPES):
        for at, how in sorted(lists[t], key=str):
            who = set()
            if at == "print":
                who = {how}
            else:
                b = bound.get(at, [])
                if not b:
                    ctx.violation("printed", where(fillers[0]), "keeps each %s in a list that is never printed (%s)" % (t, at))
                    continue
                if len(b) > 1 or len(b[0][1]) > 1 and several(R, b[0]):
                    ctx.violation("once", where(b[0][0]), "prints a list a second time (%s)" % at)
                f, sites = b[0]
                renderers.add(f.name)
                for _, p, _, _ in sites:
                    who |= p
                always(ctx, R, f, sites)
            for p in sorted(who, key=str):
                ctx.inst("shown")
                if p not in mod.defined:
                    if p[0] == "unknown":
                        ctx.violation("printed", where(f), "hands a list to something that does not print it")
                    continue
                for fl in SHOWN[t]:
                    if not sh.shows(p, fl, optparam(mod.defined[p])):
                        ctx.violation("shown", where(mod.defined[p]), "may print a %s without its %s" % (t, fl.split(".")[-1]))
    # from the request to the lists
    raws = {}
    for key, b in bound.items():
        for f, sites in b:
            for _, _, base, r in sites:
                x = f.insts[base["n"]] if base["k"] == "v" else None
                if x is not None and x.op == "phi" and x.block in f.loops:
                    # reached through a chain of groups: what the chain starts with
                    init = R.chain(f, x.block)[1]
                    r = fieldload(f, init)[1] if init is not None else None
                    if r is None and init is not None and strip(f, init)["k"] == "a":
                        rs = {fieldload(mod.defined[c], i.ops[strip(f, init)["n"]])[1] for c in inside for i in mod.defined[c].all_insts()
                              if i.op == "call" and i.callee_name() == f.name}
                        r = rs.pop() if len(rs) == 1 else None
                raws.setdefault(f.name, set()).add(r)
    names = {f.name for f in fillers}
    for goal in sorted(names | renderers):
        ctx.inst("reached")
        for raw in [None] if goal in names else sorted(raws[goal], key=str):
            if not passes(mod, R, top, goal, set(), raw):
                ctx.violation("reached", where(mod.fn(top)), "may print help without %s" % ("going through the table" if goal in names else "printing the lists it filled"))
        f = twice(mod, inside, goal)
        if f is not None:
            ctx.violation("once", where(f), "may %s twice" % ("list the table" if goal in names else "print the lists"))
    ctx.setcount("lists", len(bound))


def several(R, b):
    """can two of the sites be passed one after the other?"""
    f, sites = b
    for i, _, _, _ in sites:
        inner = {h for h, L in f.loops.items() if i.block in L}
        seen, w = set(), list(f.succ[i.block])
        while w:
            x = w.pop()
            if x in seen or x in inner:
                continue
            seen.add(x)
            if any(j is not i and j.block == x for j, _, _, _ in sites):
                return True
            w += f.succ[x]
        row = f.blocks[i.block]
        if any(j is not i and j in row[row.index(i) + 1:] for j, _, _, _ in sites):
            return True
    return False


def twice(mod, names, goal):
    """a function that makes the very same call on the way to the goal twice"""
    for n in sorted(names):
        f = mod.defined[n]
        sites = [i for i in f.all_insts() if i.op == "call" and i.callee_name() in mod.defined and (i.callee_name() == goal or goal in reach(mod, i.callee_name()))]
        for i in sites:
            same = [(j, None, None, None) for j in sites if j.callee_name() == i.callee_name() and [okv(o) for o in j.ops] == [okv(o) for o in i.ops]]
            if len(same) > 1 and several(None, (f, same)):
                return f
            if any(i.block in L for L in f.loops.values()) and all(o["k"] in ("a", "c", "g") or o["k"] == "v" and not any(
                    f.insts[o["n"]].block in L for L in f.loops.values() if i.block in L) for o in i.ops):
                return f
    return None


def always(ctx, R, f, sites):
    """the list is printed whenever it has entries"""
    i, p, base, raw = sites[0]
    insts = [s[0] for s in sites]

    def there(g, o):
        b, r, ld = fieldload(g, o)
        return g is f and ld is not None and r == raw and okv(b) == okv(base)
    w = where(f)
    ctx.inst("printed")
    if base["k"] == "v" and f.insts[base["n"]].op == "phi" and f.insts[base["n"]].block in f.loops:
        h = f.insts[base["n"]].block
        x, init, nx = R.chain(f, h)
        if x is None or x.id != base["n"]:
            ctx.violation("printed", w, "does not go from one group to the next")
            return

        def both(g, o):
            return there(g, o) or g is f and okv(o) == ("v", x.id)
        for s in [s for s in R.nexts(f, h, both) if s in f.loops[h]]:
            if R.around(f, s, insts, h, both):
                ctx.violation("printed", w, "may pass a group without printing its entries")
        if R.leaves(f, h, f.loops[h], lambda g, o: g is f and okv(o) == ("v", x.id)):
            ctx.violation("printed", w, "may leave the groups before the last one")
        b2, r2, l2 = fieldload(f, init)

        def grp(g, o):
            b, r, ld = fieldload(g, o)
            return g is f and (ld is not None and r == r2 and okv(b) == okv(b2) if l2 is not None else okv(strip(g, o)) == okv(strip(f, init)))
        if R.avoid(f, 0, [f.blocks[h][-1]], R.rets(f), grp) is not None:
            ctx.violation("printed", w, "may return without having printed the groups")
        return
    if R.avoid(f, 0, insts, R.rets(f), there) is not None:
        ctx.violation("printed", w, "may return without having printed a list that has entries")


def passes(mod, R, name, goal, seen, raw=None):
    """does every way through the function go through the goal (when the list kept at raw has entries)?"""
    if name == goal:
        return True
    if name in seen:
        return False
    f = mod.defined[name]

    def there(g, o):
        b, r, ld = fieldload(g, o)
        return raw is not None and ld is not None and r == raw
    sites = [i for i in f.all_insts() if i.op == "call" and i.callee_name() in mod.defined and passes(mod, R, i.callee_name(), goal, seen | {name}, raw)]
    return bool(sites) and R.avoid(f, 0, sites, R.rets(f), there) is None
