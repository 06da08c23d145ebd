"""How the command line is taken apart: which arguments are read, in which
order, and what each becomes (P31, P32)."""
import absint
from absint import ALLOC, C, C0, C1, TOP, split, mkptr, isc, mentions
from roles import *
from pipeline import appliers, phase_roles

A, O, N, V = (("s", "arg", n) for n in range(4))
LAST = {OPT + "type", "argus_option_s.name"}


def strlens(v):
    if type(v) is not tuple:
        return []
    out = [v] if len(v) == 3 and v[:2] == ("op", "call:strlen") else []
    return out + [y for x in v for y in strlens(x)]


def leaves_of(v):
    """sum as (terms, constant)"""
    if isc(v):
        return [], v[1]
    if v[0] == "op" and v[1] == "add":
        a, b = leaves_of(v[2]), leaves_of(v[3])
        return a[0] + b[0], a[1] + b[1]
    return [v], 0


def integer(t):
    return t in ("int", "size_t", "unsigned int", "long", "unsigned long", "int32_t")


def dd(mod):
    """globals holding the text of a bare double dash"""
    return {n for n in mod.globals if mod.string_at(n) == b"--"}


class Line(App):
    name = "cmdline"
    cap = 200
    rename_all = True
    exit_cap = 60

    def __init__(self, mod, root):
        super().__init__(mod)
        self.root = root
        self.appliers = {f.name for f in appliers(mod)}
        self.n = {"read": 0, "apply": 0, "rest": 0, "look": 0}
        self.dashes = dd(mod)
        self.objs = {"next": set(), "pos": set()}
        for f in mod.defined.values():
            for i in f.all_insts():
                if i.op == "getelementptr" and i.ops[0].get("k") == "a" and f.sig_of(i.ops[0]["n"]).count("*") == 2 and "char" in f.sig_of(i.ops[0]["n"]):
                    for s in i.get("steps"):
                        self.feeds("next", f, s.get("i", {"k": "c"}), set())
                if i.op == "call" and i.callee_name() in mod.defined and self.lookup(mod.defined[i.callee_name()]) == "pos":
                    g = mod.defined[i.callee_name()]
                    for n, o in enumerate(i.ops[:len(g.params)]):
                        if integer(g.sig_of(n)):
                            self.feeds("pos", f, o, set())

        f = mod.defined[root]
        self.verdicts = [((), i.id) for h in f.headers for i in f.blocks[h] if i.op == "phi" and i.ty == "i32"
                         and not any((f.name, "phi", i.id) in x for x in self.objs.values())]

    def joinps(self, st):
        """a status carried around the loop stays apart as success and failure"""
        return super().joinps(st), tuple(zero(self.eng, st, st.env[k]) if k in st.env else None for k in self.verdicts)

    def feeds(self, role, f, o, seen):
        """registers and cells of the walk that a value is computed from"""
        if o["k"] == "a":
            for g in self.mod.defined.values():
                for i in g.calls():
                    if i.callee_name() == f.name and o["n"] < len(i.ops) and (g.name, i.id) not in seen:
                        seen.add((g.name, i.id))
                        self.feeds(role, g, i.ops[o["n"]], seen)
            return
        if o["k"] != "v" or (f.name, o["n"]) in seen:
            return
        seen.add((f.name, o["n"]))
        i = f.insts[o["n"]]
        if i.op == "alloca":
            self.objs[role].add((f.name, "al", i.id))
        elif i.op == "phi":
            self.objs[role].add((f.name, "phi", i.id))
            for _, v in i.ops:
                self.feeds(role, f, v, seen)
        elif i.op in ("load", "add", "sub", "sext", "zext", "trunc", "select", "freeze"):
            for v in i.ops:
                self.feeds(role, f, v, seen)

    def renamed(self, eng, st, obj, v, sym):
        k = (obj[2], "phi", obj[3]) if obj[0] == "phi" else (obj[1][0][2], "al", obj[1][0][3]) if obj[1][0][0] == "al" else None
        for role in ("next", "pos"):
            if k not in self.objs[role]:
                continue
            was = st.ps.get(role, C0)
            d = was[1] - v[1] if isc(was) and isc(v) else eng.diff(was, v)
            d = d if d is not None and abs(d) < 3 else None
            if truth(eng, st, "eq", v, was) is True:
                ps(st, **{role: sym})
            elif d is not None:
                ps(st, **{role: eng.binop(st, "add", sym, C(d), "i32")})
        if v[0] in ("op", "old"):
            super().renamed(eng, st, obj, v, sym)

    # ---- roles
    def lookup(self, f):
        """kind of the option lookup a function performs"""
        m = self.mod
        if has(m, f, HANDLER) or m.modset(f.name)["fields"] - {ARG + "error_code"} or OPT + "type" not in reads(m)[f.name]:
            return None
        r = reads(m)[f.name]
        if f.ret == "ptr" and takes(f, "argus_option_t"):
            if OPT + "sname" in r and not any("*" in t and "char" in t for t in f.sig[1:]):
                return "short"
            if OPT + "lname" in r and any("char" in t for t in f.sig[1:]):
                return "long"
            if any("char" in t for t in f.sig[1:]):
                return "name"
            return "pos"
        if any(t.count("*") >= 2 and "argus_option_t" in t for t in f.sig[1:]):
            return "sub"
        return None

    def inline(self, eng, st, fr, inst, f):
        m = self.mod
        if self.root in reach(m, f.name) and f.name != self.root:
            return True
        if has(m, f, HANDLER):
            return True
        return straight(m, f)

    # ---- reading the arguments
    def argindex(self, eng, st, ptr):
        """index into the argument list, None when ptr is elsewhere"""
        b, p = split(ptr)
        if b == V:
            if not p:
                return C0
            if p[0][0] == "i" and len(p) == 1:
                return p[0][1]
            return TOP
        if mentions(b, V, {}):
            c = eng.cursor(st, b)
            if c and split(c[0])[0] == V:
                return ("s", "walk", b)
        return None

    def loaded(self, eng, st, fr, inst, ptr, val):
        if ptr == TOP:
            return
        i = self.argindex(eng, st, ptr)
        if i is None:
            return
        self.n["read"] += 1
        w = where(inst.fn)
        st.setfact(val, ne=frozenset([0]))
        nx = st.ps.get("next", C0)
        if truth(eng, st, "slt", i, N) is not True:
            self.report("bounds", w, "may read an argument beyond the number given", st)
        if i == nx:
            if "opt" in st.ps:
                if "val" in st.ps:
                    self.report("order", w, "takes more than one further argument", st)
                ps(st, val=val)
            else:
                if "cur" in st.ps:
                    self.settle(eng, st, w)
                ps(st, cur=val)
            ps(st, next=eng.binop(st, "add", nx, C1, "i32"))
            return
        if val in (st.ps.get("cur"), st.ps.get("val")):
            return
        self.report("order", w, "reads the arguments in another order than from left to right, one after the other", st)

    def eager(self, eng, st, fr, inst, v):
        return False

    # ---- double dash
    def dashes_(self, eng, st, v):
        """is the argument known (not) to be a bare double dash?"""
        if "nd" in st.ps and v == st.ps.get("cur"):
            return st.ps["nd"] == C1
        for g in self.dashes:
            gp = ("p", ("g", g), ())
            for a, b in ((v, gp), (gp, v)):
                for t in (("op", "call:strcmp", a, b),):
                    z = zero(eng, st, t)
                    if z is not None:
                        return z
        b0 = [eng.read(st, mkptr(v, (("i", C(k), 1),)) if k else v, "i8") for k in range(3)]
        eq = [truth(eng, st, "eq", x, C(c)) for x, c in zip(b0, (45, 45, 0))]
        if all(e is True for e in eq):
            return True
        if any(e is False for e in eq):
            return False
        # a text that does not begin with two dashes
        for k, f in st.facts.items():
            if k[0] == "op" and k[1] == "call:strncmp" and v in k[2:4] and (f[0] > 0 or f[1] < 0 or 0 in f[2]):
                o = k[3] if k[2] == v else k[2]
                if o[0] == "p" and o[1][0] == "g" and self.mod.string_at(o[1][1]) in (b"-", b"--"):
                    return False
        return None

    def calm(self, eng, st, inst, what):
        """before an argument is taken for an option or subcommand"""
        cur = st.ps.get("cur")
        if "dd" in st.ps:
            self.report("positional", where(inst.fn), "%s after a bare double dash" % what, st)
        elif cur is not None and self.dashes_(eng, st, cur) is not False:
            self.report("dash", where(inst.fn), "%s although the argument may be a bare double dash" % what, st)

    # ---- what an argument becomes
    def call(self, eng, st, fr, inst, name, args):
        f = self.mod.defined.get(name)
        if f is None:
            return None
        if name in self.appliers:
            self.apply(eng, st, inst, f, args)
            v, st = eng.opaque(st, fr, inst.fn, inst, f, args)[0]
            ps(st, ap=v)
            return [(v, st)]
        if name == self.root:
            self.rest(eng, st, inst, f, args)
            v, st = eng.opaque(st, fr, inst.fn, inst, f, args)[0]
            ps(st, sub=v)
            return [(v, st)]
        k = self.lookup(f)
        if k is None:
            return None
        self.n["look"] += 1
        w = where(inst.fn)
        if "over" in st.ps:
            self.report("interpreted", w, "goes on with an argument that was dealt with", st)
        if k != "name" and not any(a == O for a in args):
            self.report("interpreted", w, "looks an option up in another table", st)
        if k in ("long", "short", "name"):
            self.calm(eng, st, inst, "looks for an option")
        if k == "sub":
            self.calm(eng, st, inst, "looks for a subcommand")
        v, st = eng.opaque(st, fr, inst.fn, inst, f, args)[0]
        if k == "sub":
            ps(st, ls=v)
            out = [a for n, a in enumerate(args) if f.sig_of(n).count("*") >= 2]
            for a in out:
                sym = st.fresh(("s", "call", fr, inst.fn.name, inst.id, "found"), eng)
                eng.write(st, a, "ptr", sym, (fr, inst.fn.name, inst.id))
                ps(st, found=sym)
        else:
            pos = [a for n, a in enumerate(args) if integer(f.sig_of(n))]
            ps(st, opt=v, kind=("s", "k", k))
            if k == "pos" and pos:
                ps(st, at_=pos[0])
        return [(v, st)]

    def apply(self, eng, st, inst, f, args):
        m = self.mod
        self.n["apply"] += 1
        w = where(inst.fn)
        if "ap" in st.ps and zero(eng, st, st.ps["ap"]) is not True:
            self.report("stops", w, "goes on although an argument may have been refused", st)
        cur = st.ps.get("cur")
        o = [a for n, a in enumerate(args) if "argus_option_t" in f.sig_of(n)][0]
        v = [a for n, a in enumerate(args) if "char" in f.sig_of(n)][0]
        if args[0] != A:
            self.report("interpreted", w, "stores the value in another parser", st)
        if cur is None or o != st.ps.get("opt"):
            self.report("interpreted", w, "applies a value to an option not looked up for this argument", st)
            return
        if zero(eng, st, o) is not False:
            self.report("interpreted", w, "applies a value to an option that may not exist", st)
        k = st.ps["kind"][2]
        if k == "pos":
            if v != cur:
                self.report("interpreted", w, "a positional does not receive the argument itself", st)
            if "dd" not in st.ps and self.dashes_(eng, st, cur) is not False:
                self.report("dash", w, "a bare double dash may be handed to a positional", st)
            want = st.ps.get("pos", C0)
            if "at_" not in st.ps or truth(eng, st, "eq", st.ps["at_"], want) is not True:
                self.report("next", w, "a positional argument is not handed to the next positional", st)
            ps(st, pos=eng.binop(st, "add", st.ps.get("at_", want), C1, "i32"))
        else:
            if "dd" in st.ps:
                self.report("positional", w, "an argument after a bare double dash becomes an option", st)
            flag = truth(eng, st, "eq", fval(eng, st, o, OPT + "value_type", "i32"), C(m.enum("VALUE_TYPE_FLAG")))
            if flag is None:
                self.report("value", w, "applies a value without regard to whether the option takes one", st)
            elif flag:
                if v != C0:
                    self.report("value", w, "hands a text to an option that takes none", st)
            else:
                self.value(eng, st, inst, v, cur)
        st.ps = {x: y for x, y in st.ps.items() if x not in ("opt", "kind", "at_", "val")}
        ps(st, used=C1)
        if k != "short" or v != C0:
            ps(st, over=C1)

    def value(self, eng, st, inst, v, cur):
        w = where(inst.fn)
        if zero(eng, st, v) is not False and not self.within(eng, st, v, cur):
            self.report("value", w, "an option that takes a value may be given none", st)
            return
        nxt = st.ps.get("val")
        if nxt is not None:
            if v != nxt:
                self.report("value", w, "takes a further argument but uses another text as the value", st)
            return
        if not self.within(eng, st, v, cur):
            self.report("value", w, "the value is neither the rest of the argument nor the next one", st)
        elif st.ps["kind"][2] == "short" and not self.filled(eng, st, v):
            self.report("value", w, "the rest of the argument may be empty, the next one is not taken", st)

    def within(self, eng, st, v, cur):
        b, p = split(v)
        if v != cur and (b == cur and bool(p) or mentions(b, cur, {}) and (bool(p) or b[0] == "op")):
            return True
        # a place that moves along the text
        c = eng.cursor(st, b) if p else None
        return c is not None and c[1] is not None and c[1] > 0 and mentions(c[0], cur, {})

    def filled(self, eng, st, v):
        """is the text known not to be empty?"""
        if eng.nonnull(st, eng.read(st.copy(), v, "i8")):
            return True
        b, p = split(v)
        for n in {x for k in list(st.facts) + [y for k in st.rel for y in k[1:]] for x in strlens(k)}:
            b2, p2 = split(n[2])
            if b2 != b or not p or p[-1][0] != "i":
                continue
            i = p[-1][1]
            j = p2[-1][1] if p2 else C0
            i, j = leaves_of(i), leaves_of(j)
            if any(x not in i[0] for x in j[0]):
                continue
            rest = list(i[0])
            for x in j[0]:
                rest.remove(x)
            c = i[1] - j[1]
            if not rest and truth(eng, st, "ult", C(c), n):
                return True
            if len(rest) == 1 and (truth(eng, st, "ult", rest[0], n) is True or c == 0):
                if c == 0 and truth(eng, st, "ult", rest[0], n) or c and truth(eng, st, "ult", rest[0], ("op", "add", n, C(-c))):
                    return True
        return False

    def rest(self, eng, st, inst, f, args):
        self.n["rest"] += 1
        w = where(inst.fn)
        if "ap" in st.ps and zero(eng, st, st.ps["ap"]) is not True:
            self.report("stops", w, "enters a subcommand although an argument may have been refused", st)
        self.calm(eng, st, inst, "enters a subcommand")
        nx = st.ps.get("next", C0)
        if "val" in st.ps:
            self.report("order", w, "takes a further argument before entering a subcommand", st)
        found = st.ps.get("found")
        opts = [a for n, a in enumerate(args) if "argus_option_t" in f.sig_of(n)][0]
        o, fl = cell(opts)
        if found is None or fl != OPT + "sub_options" or o != found or zero(eng, st, found) is not False:
            self.report("interpreted", w, "continues with another table than that of the subcommand found", st)
        if args[0] != A:
            self.report("interpreted", w, "continues with another parser", st)
        n = [a for k, a in enumerate(args) if integer(f.sig_of(k))][0]
        v = [a for k, a in enumerate(args) if f.sig_of(k).count("*") == 2][0]
        left = eng.binop(st, "sub", N, nx, "i32")
        if n not in (left, eng.binop(st, "sub", eng.binop(st, "sub", N, eng.binop(st, "sub", nx, C1, "i32"), "i32"), C1, "i32")) and \
                truth(eng, st, "eq", n, left) is not True:
            self.report("order", w, "does not hand the number of remaining arguments to the subcommand: %s" % (n,), st)
        i = self.argindex(eng, st, v)
        if i != nx:
            self.report("order", w, "does not hand exactly the remaining arguments to the subcommand", st)

    # ---- between arguments
    def prejoin(self, eng, st):
        cur = st.ps.get("cur")
        if cur is not None and "nd" not in st.ps:
            d = self.dashes_(eng, st, cur)
            if d is not None:
                ps(st, nd=C1 if d else C0)

    def backedge(self, eng, st, fr, f, hdr):
        if f.name == self.root and fr == () and "opt" not in st.ps:
            if "used" in st.ps or "cur" in st.ps and self.dashes_(eng, st, st.ps["cur"]):
                self.settle(eng, st, where(f))
        self.tidy(eng, st)
        super().backedge(eng, st, fr, f, hdr)

    def settle(self, eng, st, w):
        """the argument at hand has been dealt with"""
        cur = st.ps["cur"]
        d = self.dashes_(eng, st, cur)
        if "used" not in st.ps:
            if "dd" in st.ps:
                self.report("positional", w, "an argument after a bare double dash is passed over", st)
            elif d is not True:
                self.report("interpreted", w, "an argument may be passed over", st)
        if d is True and "dd" not in st.ps and "used" not in st.ps:
            ps(st, dd=C1)
        elif d is True and "dd" not in st.ps:
            self.report("dash", w, "a bare double dash does not make the rest positional", st)
        st.ps = {k: v for k, v in st.ps.items() if k not in ("cur", "val", "used", "over", "nd", "opt", "kind", "at_", "found", "ls")}
        self.tidy(eng, st)

    def tidy(self, eng, st):
        if "ap" in st.ps and zero(eng, st, st.ps["ap"]) is True:
            st.ps = {k: v for k, v in st.ps.items() if k != "ap"}

    def retiring(self, st, sym):
        pass


def loops_of(f):
    return set(f.headers)


def run_line(ctx, rules):
    mod = ctx.mod
    for r in rules:
        ctx.rule(*r)
    phase_roles(mod)
    roots = [mod.defined[n] for n in sorted(mod._walks) if any(g.name not in mod._walks for g in mod.callers(n)) and takes(mod.defined[n], "char**")]
    ctx.need(roots, "no function walks the command line")
    for f in roots:
        ana = Line(mod, f.name)
        eng = ana.eng = ctx.engine(ana)
        for e in eng.run_root(f):
            for t in (True, False):
                for s in eng.assume(e.st.copy(), eng.icmp(e.st, "eq", e.val, C0), t):
                    finish(ctx, ana, eng, f, s, e.val, t)
        ctx.absorb(ana)
        ctx.inst("bounds", ana.n["read"])
        ctx.inst("order", ana.n["read"] + ana.n["rest"])
        for r in ("interpreted", "value", "dash", "positional", "stops", "next"):
            ctx.inst(r, ana.n["apply"] + ana.n["look"] + ana.n["rest"])


def finish(ctx, ana, eng, f, s, val, ok):
    tr = absint.path_of(s)
    w = where(f)
    ap, sub, nx = s.ps.get("ap"), s.ps.get("sub"), s.ps.get("next", C0)
    if ok:
        ctx.inst("stops")
        if "cur" in s.ps and sub is None:
            ana.settle(eng, s, w)
        if ap is not None and zero(eng, s, ap) is not True:
            ctx.violation("stops", w, "success although an argument may have been refused", tr)
        if sub is not None:
            if zero(eng, s, sub) is not True:
                ctx.violation("stops", w, "success although the subcommand's arguments may have been refused", tr)
            return
        if truth(eng, s, "slt", nx, N) is not False:
            ctx.violation("interpreted", w, "success although arguments may be left over", tr)
        return
    err = fval(eng, s, A, ARG + "error_code", "i32")
    good = [x for x in (ap, sub, s.ps.get("ls")) if x is not None and val == x]
    if not good and val != err:
        ctx.violation("stops", w, "fails with a status that is not that of the argument refused", tr)


LINE = [("bounds", "an argument is read only at an index below the number of arguments given"),
        ("order", "arguments are taken one after the other from the first; a subcommand is handed exactly the remaining ones"),
        ("interpreted", "every argument becomes a positional, an option or a subcommand of this table, or is the bare double dash; success leaves none over"),
        ("value", "an option that takes a value receives the rest of its argument or the next argument, one that takes none receives none"),
        ("next", "positional arguments are handed to the positionals in turn, the first to the first"),
        ("stops", "the first argument refused ends the line with its own status")]
DASH = [("dash", "an argument is taken for an option, subcommand or positional only once it is known not to be a bare double dash, which makes the rest positional"),
        ("positional", "after a bare double dash each argument is handed unchanged to the next positional and none is looked up as an option or subcommand"),
        ("next", "positional arguments are handed to the positionals in turn, the first to the first")]


def run_p31(ctx):
    run_line(ctx, LINE)


def run_p32(ctx):
    run_line(ctx, DASH)
