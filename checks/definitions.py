"""The check of option definitions accepts only tables in which every entry at
every level meets every rule (P25)."""
import absint
from absint import C, C0, C1, TOP, split, mkptr, isc, mentions, EQ
from roles import *
from levels import Levels

BADST = "rejected"


def all3(*xs):
    return False if any(x is False for x in xs) else True if all(x is True for x in xs) else None


def any3(*xs):
    return True if any(x is True for x in xs) else False if all(x is False for x in xs) else None


def no3(x):
    return None if x is None else not x


def stale(v):
    """speaks about a loop variable's earlier value"""
    return type(v) is tuple and (v == TOP or v[:1] == ("old",) or any(stale(x) for x in v if type(x) is tuple))


class Defs(Levels):
    name = "definitions"
    cap = 24
    exit_cap = 6
    momentary = ()

    def __init__(self, mod, verdicts, lookups, reporters):
        super().__init__(mod)
        self.verdicts = verdicts
        self.lookups = lookups
        self.reporters = reporters
        self.reports = 0
        self.spoiled = set()
        m = mod.enum
        self.F = {n: m("FLAG_" + n) for n in ("REQUIRED", "HIDDEN", "ADVANCED", "DEPRECATED", "EXPERIMENTAL", "EXIT", "SORTED", "UNIQUE", "SORTED_VALUE",
                                              "SORTED_KEY", "UNIQUE_VALUE", "EXCLUSIVE", "ENV_OVERRIDE", "AUTO_ENV", "NO_ENV_PREFIX")}
        vt = {n: m("VALUE_TYPE_" + n) for n in ("FLAG", "STRING", "INT", "FLOAT", "BOOL", "VARIADIC_STRING", "VARIADIC_INT", "VARIADIC_FLOAT", "ARRAY_STRING",
                                                "ARRAY_INT", "ARRAY_FLOAT", "MAP_STRING", "MAP_INT", "MAP_FLOAT", "MAP_BOOL")}
        self.V = vt
        self.variadic = vt["VARIADIC_STRING"] | vt["VARIADIC_INT"] | vt["VARIADIC_FLOAT"]
        self.opt_obl = {n[2:]: getattr(self, n) for n in dir(self) if n.startswith("r_")}
        self.ptr_obl = {"found": self.q_found, "accepted": self.q_accepted, "disjoint": self.q_disjoint}

    # -- what the rules speak about
    def fv(self, eng, st, o, field, ty="ptr"):
        return fval(eng, st, o, OPT + field, ty)

    def ty(self, eng, st, o, *names):
        return any3(*[truth(eng, st, "eq", self.fv(eng, st, o, "type", "i32"), C(self.mod.enum("TYPE_" + n))) for n in names])

    def null(self, eng, st, o, field):
        return zero(eng, st, self.fv(eng, st, o, field))

    def flagged(self, eng, st, o, mask):
        return bits(eng, st, self.fv(eng, st, o, "flags", "i32"), mask)

    def vtype(self, eng, st, o, mask):
        return bits(eng, st, self.fv(eng, st, o, "value_type", "i32"), mask)

    def dflt(self, eng, st, o):
        return no3(zero(eng, st, self.fv(eng, st, o, "have_default", "i8")))

    def only(self, eng, st, o, *names):
        """no flags besides these"""
        m = 0
        for n in names:
            m |= self.F[n]
        return no3(self.flagged(eng, st, o, 0xFFFFFFFF & ~m))

    def text0(self, eng, st, o, field, ch):
        """does the text begin with this character?"""
        s = self.fv(eng, st, o, field)
        if s == TOP:
            return None
        return truth(eng, st, "eq", eng.read(st, mkptr(*split(s)), "i8"), C(ch))

    def haschar(self, eng, st, o, field, ch):
        s = self.fv(eng, st, o, field)
        return no3(zero(eng, st, ("op", "call:strchr", s, C(ch))))

    # -- the rules for one entry: True it meets it, False it breaks it
    def r_kind(self, eng, st, o, lst):
        l, h, n = st.fact(self.fv(eng, st, o, "type", "i32"))
        ks = {self.mod.enum("TYPE_" + x) for x in ("NONE", "OPTION", "GROUP", "POSITIONAL", "SUBCOMMAND")}
        v = [x for x in range(l, h + 1) if x not in n] if h - l < 100 else None
        if v is not None and set(v) <= ks:
            return True
        if l > max(ks) or h < min(ks) or ks <= n | {x for x in ks if x < l or x > h}:
            return False

    def r_name(self, eng, st, o, lst):
        g = self.ty(eng, st, o, "GROUP")
        z = self.null(eng, st, o, "name")
        return any3(g, all3(no3(z), True if z is True else no3(self.text0(eng, st, o, "name", 0))))

    def r_short_space(self, eng, st, o, lst):
        return no3(truth(eng, st, "eq", self.fv(eng, st, o, "sname", "i8"), C(32)))

    def r_short_hyphen(self, eng, st, o, lst):
        return no3(truth(eng, st, "eq", self.fv(eng, st, o, "sname", "i8"), C(45)))

    def r_short_unique(self, eng, st, o, lst):
        s = self.fv(eng, st, o, "sname", "i8")
        if zero(eng, st, s) is True:
            return True
        if any(x[0] == "taken" and x[1] == o for x in st.ps.get("slot", ("set", ()))[1]):
            return True
        if any(x[0] == "dup" and x[1] == o for x in st.ps.get("slot", ("set", ()))[1]):
            return False

    def r_long_hyphen(self, eng, st, o, lst):
        return any3(self.null(eng, st, o, "lname"), no3(self.text0(eng, st, o, "lname", 45)))

    def r_long_empty(self, eng, st, o, lst):
        return any3(self.null(eng, st, o, "lname"), no3(self.text0(eng, st, o, "lname", 0)))

    def r_long_space(self, eng, st, o, lst):
        return any3(self.null(eng, st, o, "lname"), no3(self.haschar(eng, st, o, "lname", 32)))

    def r_long_dot(self, eng, st, o, lst):
        return any3(self.null(eng, st, o, "lname"), no3(self.haschar(eng, st, o, "lname", 46)))

    def r_long_unique(self, eng, st, o, lst):
        return any3(self.null(eng, st, o, "lname"), True if self.has(st, "uniq", ("of", o)) else False if self.clash(eng, st, o, None) is True else None)

    def clash(self, eng, st, o, other):
        """is o's long name the name or long name of the other entry?"""
        n = self.fv(eng, st, o, "lname")
        if other is None:
            for c in self.compared(st):
                if n in c[2:4] and zero(eng, st, c) is True:
                    a, fl = cell(c[2] if c[3] == n else c[3])
                    if a not in (None, o) and fl in (OPT + "name", OPT + "lname"):
                        return True
            return None
        r = []
        for fl in ("name", "lname"):
            x = self.fv(eng, st, other, fl)
            z = zero(eng, st, x)
            d = [no3(zero(eng, st, c)) for c in self.compared(st) if set(c[2:4]) == {n, x}]
            apart = z is True or True in d or self.has(st, "slot", ("apart", o, other, fl))
            if apart:
                self.latch(st, "slot", ("apart", o, other, fl))
            r.append(True if apart else False if False in d else None)
        return no3(all3(*r))

    def compared(self, st):
        out = set()
        for k in st.facts:
            if k[0] == "op" and k[1] == "call:strcmp":
                out.add(k)
        return out

    def r_opt_has_name(self, eng, st, o, lst):
        return any3(no3(self.ty(eng, st, o, "OPTION")), no3(zero(eng, st, self.fv(eng, st, o, "sname", "i8"))), no3(self.null(eng, st, o, "lname")))

    def r_opt_flags(self, eng, st, o, lst):
        t = no3(self.ty(eng, st, o, "OPTION"))
        V = self.V
        kinds = [(V["INT"] | V["STRING"] | V["FLOAT"] | V["BOOL"], ("SORTED", "UNIQUE", "SORTED_VALUE", "SORTED_KEY", "UNIQUE_VALUE", "EXCLUSIVE")),
                 (V["ARRAY_STRING"] | V["ARRAY_INT"] | V["ARRAY_FLOAT"], ("SORTED_VALUE", "SORTED_KEY", "UNIQUE_VALUE", "EXCLUSIVE")),
                 (V["MAP_STRING"] | V["MAP_INT"] | V["MAP_FLOAT"] | V["MAP_BOOL"], ("SORTED", "UNIQUE", "EXCLUSIVE"))]
        r = []
        for mask, no in kinds:
            m = 0
            for n in no:
                m |= self.F[n]
            x = self.flagged(eng, st, o, m)
            # what else may be given is the library's choice: any use of flags it names is a reason
            r.append(any3(no3(self.vtype(eng, st, o, mask)), no3(x)))
        if any(x is False for x in r):
            return any3(t, False)
        a = any3(t, all3(*r))
        if a is None and self.flagged(eng, st, o, 0xFFFFFFFF & ~sum(self.F[n] for n in ("DEPRECATED", "EXPERIMENTAL"))) is True:
            self.loose = True
        return a

    def r_help(self, eng, st, o, lst):
        return any3(self.ty(eng, st, o, "GROUP"), no3(self.null(eng, st, o, "help")))

    def r_handler(self, eng, st, o, lst):
        return any3(no3(self.ty(eng, st, o, "OPTION", "POSITIONAL")), no3(self.null(eng, st, o, "handler")))

    def r_pos_flags(self, eng, st, o, lst):
        t = no3(self.ty(eng, st, o, "POSITIONAL"))
        v = self.vtype(eng, st, o, self.variadic)
        a = self.only(eng, st, o, "REQUIRED")
        b = self.only(eng, st, o, "SORTED", "UNIQUE", "DEPRECATED", "EXPERIMENTAL", "REQUIRED")
        return any3(t, a, b if v is True else all3(no3(v), a))

    def r_pos_default(self, eng, st, o, lst):
        return any3(no3(self.ty(eng, st, o, "POSITIONAL")), no3(self.flagged(eng, st, o, self.F["REQUIRED"])), no3(self.dflt(eng, st, o)))

    def r_pos_deps(self, eng, st, o, lst):
        return any3(no3(self.ty(eng, st, o, "POSITIONAL", "SUBCOMMAND")), all3(self.null(eng, st, o, "require"), self.null(eng, st, o, "conflict")))

    def listdone(self, eng, st, o, field, x):
        v = self.fv(eng, st, o, field)
        return any3(zero(eng, st, v), True if self.has(st, "done", (x, v)) else None)

    def lookup_of(self, v, w=None):
        return v[0] == "op" and v[1] == "call:lookup" and v[-1] == w

    def r_require_known(self, eng, st, o, lst):
        return self.deps(eng, st, o, lst, "require")

    def r_conflict_known(self, eng, st, o, lst):
        return self.deps(eng, st, o, lst, "conflict")

    def deps(self, eng, st, o, lst, field):
        d = self.listdone(eng, st, o, field, "found")
        if d is None:
            v = self.fv(eng, st, o, field)
            for k in st.facts:
                if k[0] == "op" and k[1] == "call:lookup" and zero(eng, st, k) is True and k[3][0] == "s" and k[3][1] in ("init", "hv"):
                    if self.inlist(st, k[3][3], v):
                        d = False
        return any3(no3(self.ty(eng, st, o, "OPTION")), d)

    def inlist(self, st, loc, v):
        b, p = loc
        b2, p2 = split(v)
        if not p:
            c = self.eng.cursor(st, b)
            if c is not None and c[0] == v:
                return True
        return b == b2 and len(p) == len(p2) + 1 and p[:-1] == p2 or b == b2 and p == p2

    def r_require_conflict(self, eng, st, o, lst):
        r = self.fv(eng, st, o, "require")
        c = self.fv(eng, st, o, "conflict")
        d = any3(zero(eng, st, r), zero(eng, st, c), True if self.has(st, "done", ("disjoint", r)) or self.has(st, "done", ("disjoint", c)) else None)
        if d is None:
            for k in self.compared(st):
                if zero(eng, st, k) is True and all(x[0] == "s" and x[1] in ("init", "hv") for x in k[2:4]):
                    ls = [x[3] for x in k[2:4]]
                    if self.inlist(st, ls[0], r) and self.inlist(st, ls[1], c) or self.inlist(st, ls[0], c) and self.inlist(st, ls[1], r):
                        d = False
        return any3(no3(self.ty(eng, st, o, "OPTION")), d)

    def r_flag_default(self, eng, st, o, lst):
        return any3(no3(self.ty(eng, st, o, "OPTION", "POSITIONAL")), no3(self.dflt(eng, st, o)),
                    no3(truth(eng, st, "eq", self.fv(eng, st, o, "value_type", "i32"), C(self.V["FLAG"]))))

    def r_default_valid(self, eng, st, o, lst):
        d = self.listdone(eng, st, o, "validators", "accepted")
        if d is None:
            v = self.fv(eng, st, o, "validators")
            for k in st.facts:
                if k[0] == "op" and k[1] == "call:verdict" and zero(eng, st, k) is False and k[2][0] == "s" and k[2][1] in ("init", "hv") and self.inlist(st, k[2][3], v):
                    d = False
        return any3(no3(self.ty(eng, st, o, "OPTION", "POSITIONAL")), no3(self.dflt(eng, st, o)), d)

    def r_sub_table(self, eng, st, o, lst):
        return any3(no3(self.ty(eng, st, o, "SUBCOMMAND")), no3(self.null(eng, st, o, "sub_options")))

    def r_sub_flags(self, eng, st, o, lst):
        return any3(no3(self.ty(eng, st, o, "SUBCOMMAND")), self.only(eng, st, o, "HIDDEN", "ADVANCED", "DEPRECATED", "EXPERIMENTAL"))

    def r_sub_handler(self, eng, st, o, lst):
        return any3(no3(self.ty(eng, st, o, "SUBCOMMAND")), self.null(eng, st, o, "handler"))

    def r_sub_default(self, eng, st, o, lst):
        return any3(no3(self.ty(eng, st, o, "SUBCOMMAND")), no3(self.dflt(eng, st, o)))

    def r_sub_validators(self, eng, st, o, lst):
        return any3(no3(self.ty(eng, st, o, "SUBCOMMAND")), self.null(eng, st, o, "validators"))

    def r_group_flags(self, eng, st, o, lst):
        return any3(no3(self.ty(eng, st, o, "GROUP")), self.only(eng, st, o, "EXCLUSIVE"))

    def r_nested(self, eng, st, o, lst):
        t = self.fv(eng, st, o, "sub_options")
        return any3(no3(self.ty(eng, st, o, "SUBCOMMAND")), zero(eng, st, t), zero(eng, st, ("op", "call:nested", t)))

    # order of the entries of one table
    def walk(self, o):
        """the loop that walks over this entry"""
        b, p = split(o)
        x = p[-1][1] if p and p[-1][0] == "i" else b
        while x[0] == "op" and x[1] == "add" and isc(x[3]):
            x = x[2]
        return (x[2], x[3], x[4]) if x[0] == "s" and x[1] == "phi" else None

    def positional(self, eng, st, o, required, variadic=None):
        r = [self.ty(eng, st, o, "POSITIONAL"), self.flagged(eng, st, o, self.F["REQUIRED"])]
        if not required:
            r[1] = no3(r[1])
        if variadic is not None:
            v = self.vtype(eng, st, o, self.variadic)
            r.append(v if variadic else no3(v))
        return all3(*r)

    def facts_of(self, eng, st, o):
        return {"sub": self.ty(eng, st, o, "SUBCOMMAND"), "optional": self.positional(eng, st, o, False),
                "many": self.positional(eng, st, o, True, True), "plain": self.positional(eng, st, o, True, False)}

    def order(self, eng, st, o, what, *before):
        """no entry of this kind once one of the other kind was seen"""
        k = self.walk(o)
        if k is None:
            return None
        mine = self.facts_of(eng, st, o)
        mine["option"] = self.ty(eng, st, o, "OPTION")
        mine["required"] = self.positional(eng, st, o, True)
        b = any3(*[any3(self.has(st, "hist", (x,) + k), mine[x] if x != what else False) for x in before])
        return no3(all3(mine[what], b))

    def r_order_option(self, eng, st, o, lst):
        return self.order(eng, st, o, "option", "sub")

    def r_order_mixed(self, eng, st, o, lst):
        return all3(self.order(eng, st, o, "sub", "plain"), self.order(eng, st, o, "plain", "sub"))

    def r_order_many(self, eng, st, o, lst):
        return all3(self.twice(eng, st, o), self.order(eng, st, o, "plain", "many"))

    def twice(self, eng, st, o):
        k = self.walk(o)
        return None if k is None else no3(all3(self.facts_of(eng, st, o)["many"], self.has(st, "hist", ("many",) + k)))

    def r_order_optional(self, eng, st, o, lst):
        return all3(self.order(eng, st, o, "optional", "many"), self.order(eng, st, o, "required", "optional"))

    # -- rules for entries of lists
    def q_found(self, eng, st, ptr, lst):
        v = eng.read(st, ptr, "ptr")
        return any(k[0] == "op" and k[1] == "call:lookup" and k[3] == v and k[2] == self.table and zero(eng, st, k) is False for k in st.facts)

    def q_accepted(self, eng, st, ptr, lst):
        v = eng.read(st, ptr, "ptr")
        k = ("op", "call:verdict", v)
        if zero(eng, st, k) is True:
            return True
        o, fl = cell(lst)
        order = eng.read(st, mkptr(v, (("f", "validator_entry_s.order"),)), "i32")
        pre = truth(eng, st, "eq", order, C(self.mod.enum("ORDER_PRE")))
        post = truth(eng, st, "eq", order, C(self.mod.enum("ORDER_POST")))
        if pre is False and post is False:
            return True
        if fl != OPT + "validators":
            return False
        txt = truth(eng, st, "eq", self.fv(eng, st, o, "value_type", "i32"), C(self.V["STRING"]))
        return post is False and txt is False

    def q_disjoint(self, eng, st, ptr, lst):
        """the entry differs from every entry of the other list"""
        v = eng.read(st, ptr, "ptr")
        o, fl = cell(lst)
        if fl not in (OPT + "require", OPT + "conflict"):
            return False
        other = self.fv(eng, st, o, "conflict" if fl == OPT + "require" else "require")
        return self.has(st, "apart", (v, other)) or zero(eng, st, other) is True

    # -- state kept
    def rejected(self, st):
        return BADST in st.ps

    def inline(self, eng, st, fr, inst, f):
        return f.name in self.verdicts or straight(self.mod, f) and not self.mod.closure(f.name) & {"dup2", "dup", "pipe"}

    def joinps(self, st):
        return self.rejected(st)        # what matters is kept apart as property state

    def prejoin(self, eng, st):
        if self.rejected(st):
            return
        for key in ("ok", "apart", "uniq", "slot"):
            if key in st.ps:
                rest = frozenset(x for x in st.ps[key][1] if not stale(x))
                st.ps = {k: v for k, v in st.ps.items() if k != key}
                if rest:
                    st.ps[key] = ("set", rest)
        self.note_met(eng, st)
        self.history(eng, st)
        self.note_met(eng, st)
        es = list(self.entries(st))
        if any(self.broken(eng, st, o) for o in es):
            self.latch(st, "slot", ("broken",))
        for a in es:
            for b in es:
                if a != b and "long_unique" in self.opt_obl:
                    s = self.walk(b)
                    if s and not mentions(a, ("s", "phi") + s, {}):
                        self.clash(eng, st, a, b)

    def note_met(self, eng, st):
        """rules already settled, or given up, for this walk need no noting"""
        allobl = self.opt_obl
        done = st.ps.get("done", ("set", ()))[1]
        skip = {x for x, l in done if l == self.table}
        frs = {self.walk(o) for o in self.entries(st)} - {None}
        skip |= self.given_up(frs)
        self.opt_obl = {x: p for x, p in allobl.items() if x not in skip}
        try:
            super().prejoin(eng, st)
        finally:
            self.opt_obl = allobl

    def given_up(self, walks):
        out = set()
        for x, fn, hdr in self.spoiled:
            f = self.mod.defined[fn]
            if any(k[1:] == (fn, i.id) for k in walks for i in f.blocks[hdr] if i.op == "phi"):
                out.add(x)
        return out

    # a rule one turn of a loop does not settle is one the loop does not settle
    def spoil(self, st, x, fr, f, hdr, why):
        super().spoil(st, x, fr, f, hdr, why)
        self.spoiled.add((x, f.name, hdr))

    def entries(self, st):
        for k, v in list(st.env.items()):
            if len(k) == 3 and k[1] == "acc:opt" and v[0] == "set":
                for ptr in v[1]:
                    yield ptr

    def history(self, eng, st, final=False):
        for o in self.entries(st):
            k = self.walk(o)
            if k is None:
                continue
            gone = self.given_up({k}) | {x for x, l in st.ps.get("done", ("set", ()))[1] if l == self.table}
            for x, v in self.facts_of(eng, st, o).items():
                if not {"order_option", "order_mixed", "order_many", "order_optional"} - gone:
                    break
                if v is False and not final:
                    self.latch(st, "slot", ("not", o, x))
                if v is True or final and v is None and not self.has(st, "slot", ("not", o, x)):
                    self.latch(st, "hist", (x,) + k)
            if self.ty(eng, st, o, "OPTION") is True and any(self.ishelp(eng, st, c, o) for c in self.compared(st)):
                self.latch(st, "help", ("seen",))

    def ishelp(self, eng, st, c, o):
        n = self.fv(eng, st, o, "name")
        if zero(eng, st, c) is not True or n not in c[2:4]:
            return False
        t = c[3] if c[2] == n else c[2]
        b, p = split(t)
        return b[0] == "g" and not any(s[0] == "i" and s[1] != C0 for s in p) and self.mod.string_at(b[1]) == b"help"

    def backedge(self, eng, st, fr, f, hdr):
        if self.rejected(st):
            self.clear(st, fr, f, hdr)
            return [st]
        acc = self.accessed(st, fr, f, hdr)
        self.inner(eng, st, fr, f, hdr, acc)
        # the order of the entries is judged with this entry not yet counted among the earlier ones
        self.note_met(eng, st)
        self.history(eng, st, True)
        return super().backedge(eng, st, fr, f, hdr)

    def cover(self, eng, st, fr, f, hdr, kind, ptr, lst, reg):
        if kind == "opt" and not reg:
            return      # a second walk inside another: see inner
        if kind == "opt":
            allobl = self.opt_obl
            self.opt_obl = {x: p for x, p in allobl.items() if not self.has(st, "done", (x, lst))}
            try:
                super().cover(eng, st, fr, f, hdr, kind, ptr, lst, reg)
            finally:
                self.opt_obl = allobl
            return
        super().cover(eng, st, fr, f, hdr, kind, ptr, lst, reg)

    def outer(self, st, sym):
        """entries of walks other than that by sym"""
        return [o for o in self.entries(st) if not mentions(o, sym, {})]

    def inner(self, eng, st, fr, f, hdr, acc):
        """comparisons of an entry with the others of its table, and of an
        element of one list with those of another"""
        for kind, ptr, sym in acc:
            if kind == "opt":
                ok = frozenset(o for o in self.outer(st, sym) if self.clash(eng, st, o, ptr) is False)
                self.narrow(st, ("pair", fr, hdr), ok)
            elif kind == "ptr":
                v = eng.read(st, ptr, "ptr")
                ok = set()
                for c in self.compared(st):
                    if v in c[2:4] and zero(eng, st, c) is False:
                        x = c[3] if c[2] == v else c[2]
                        if not mentions(x, sym, {}):
                            ok.add(x)
                self.narrow(st, ("diff", fr, hdr), frozenset(ok))

    def narrow(self, st, key, ok):
        cur = {x for x in st.ps.get("cmp", ("set", frozenset()))[1]}
        old = [x for x in cur if x[0] == key]
        if old:
            cur -= set(old)
            ok &= old[0][1]
        cur.add((key, ok))
        st.ps = dict(st.ps)
        st.ps["cmp"] = ("set", frozenset(cur))

    def loopexit(self, eng, st, fr, f, hdr):
        if self.rejected(st):
            self.clear(st, fr, f, hdr)
            return
        acc = self.accessed(st, fr, f, hdr)
        cur = {x[0]: x[1] for x in st.ps.get("cmp", ("set", frozenset()))[1]}
        for kind, ptr, sym in acc:
            if not self.ended(eng, st, kind, ptr, sym):
                continue
            c = eng.cursor(st, sym)
            if c is None or c[1] != 1:
                continue
            lst, reg = self.listof(eng, st, ptr, sym)
            if kind == "opt" and not reg:
                b, p = split(ptr)
                for o in self.outer(st, sym):
                    b2, p2 = split(o)
                    if b2 == b and p and p2 and p[:-1] == p2[:-1] and p[-1][1] == sym and \
                            (c[0] == eng.binop(st, "add", p2[-1][1], C1, "i64") or truth(eng, st, "eq", c[0], eng.binop(st, "add", p2[-1][1], C1, "i32")) is True):
                        ok = cur.get(("pair", fr, hdr))
                        if ok is None or o in ok:
                            self.latch(st, "uniq", ("of", o))
            elif kind == "ptr" and reg:
                ok = cur.get(("diff", fr, hdr))
                for o in self.texts(eng, st, sym):
                    if ok is None or o in ok:
                        self.latch(st, "apart", (o, lst))
        if "cmp" in st.ps:
            rest = frozenset(x for x in st.ps["cmp"][1] if x[0][1:] != (fr, hdr))
            st.ps = {k: v for k, v in st.ps.items() if k != "cmp"}
            if rest:
                st.ps["cmp"] = ("set", rest)
        if "hist" in st.ps:
            ids = {(fr, f.name, i.id) for i in f.blocks[hdr] if i.op == "phi"}
            rest = frozenset(x for x in st.ps["hist"][1] if x[1:] not in ids)
            st.ps = {k: v for k, v in st.ps.items() if k != "hist"}
            if rest:
                st.ps["hist"] = ("set", rest)
        # an empty list settles nothing that the loop does not settle for others
        for x, fn, h in self.spoiled:
            if (fn, h) == (f.name, hdr):
                self.latch(st, "bad", (x, fr, f.name, hdr))
        super().loopexit(eng, st, fr, f, hdr)
        self.clear(st, fr, f, hdr)
        self.drop(st, fr, f, hdr, ("ok", "apart", "uniq", "slot"))

    def drop(self, st, fr, f, hdr, keys):
        syms = [("s", "phi", fr, f.name, i.id) for i in f.blocks[hdr] if i.op == "phi"]
        for key in keys:
            if key in st.ps:
                rest = frozenset(x for x in st.ps[key][1] if x != ("broken",) and not any(mentions(x, s, {}) for s in syms))
                st.ps = {k: v for k, v in st.ps.items() if k != key}
                if rest:
                    st.ps[key] = ("set", rest)

    def texts(self, eng, st, sym):
        """elements of lists walked by other loops"""
        out = set()
        for k, v in list(st.env.items()):
            if len(k) == 3 and k[1] == "acc:ptr" and v[0] == "set":
                for ptr in v[1]:
                    x = eng.read(st, ptr, "ptr")
                    if not stale(x) and not mentions(x, sym, {}):
                        out.add(x)
        return out

    def iteration(self, eng, st, fr, f, hdr, acc):
        """what was established inside this turn does not speak about the next"""
        self.drop(st, fr, f, hdr, ("apart", "uniq", "slot"))
        if any(k == "opt" for k, _, _ in acc):
            if "done" in st.ps:
                rest = frozenset(x for x in st.ps["done"][1] if x[0] not in self.ptr_obl)
                st.ps = dict(st.ps, done=("set", rest))
        super().iteration(eng, st, fr, f, hdr, acc)
        for x, fn, h in self.spoiled:
            if (fn, h) == (f.name, hdr):
                self.latch(st, "bad", (x, fr, f.name, hdr))

    def stackstep(self, eng, st, fr, f, hdr, acc):
        pass

    # short names already taken: a table indexed by the name
    def loaded(self, eng, st, fr, inst, ptr, val):
        if self.rejected(st):
            return
        super().loaded(eng, st, fr, inst, ptr, val)
        if inst.ty == "i8":
            o = self.slotof(eng, st, ptr)
            if o is not None:
                self.latch(st, "slot", ("was", o, ptr, val))

    def slotof(self, eng, st, ptr):
        b, p = split(ptr)
        if ptr == TOP or not p or p[-1][0] != "i":
            return None
        o, fl = cell(p[-1][1])
        return o if fl == OPT + "sname" else None

    def store(self, eng, st, fr, inst, ptr, val):
        if self.rejected(st):
            return
        o = self.slotof(eng, st, ptr)
        if o is not None and zero(eng, st, val) is False:
            for x in list(st.ps.get("slot", ("set", ()))[1]):
                if x[0] == "was" and x[1:3] == (o, ptr):
                    z = zero(eng, st, x[3])
                    if z is True:
                        self.latch(st, "slot", ("taken", o))

    def duplicate(self, eng, st):
        for x in list(st.ps.get("slot", ("set", ()))[1]):
            if x[0] == "was" and zero(eng, st, x[3]) is False:
                self.latch(st, "slot", ("dup", x[1]))

    # -- calls
    def call(self, eng, st, fr, inst, name, args):
        g = self.mod.defined.get(name)
        if name in self.reporters:
            self.reports += 1
            if not self.rejected(st):
                self.why_reject(eng, st, inst, args)
            st.ps = {BADST: C1}
            return [(TOP, st)]
        if name in self.lookups:
            tab = [a for n, a in enumerate(args) if "argus_option_t" in g.sig_of(n)][0]
            key = [a for n, a in enumerate(args) if "char" in g.sig_of(n)][0]
            if TOP in (tab, key):
                return None
            return [(("op", "call:lookup", tab, key), st)]
        if name in eng.stack and name in self.verdicts:
            t = [a for n, a in enumerate(args) if "argus_option_t" in g.sig_of(n)]
            v = ("op", "call:nested", t[0]) if t and t[0] != TOP else st.fresh(("s", "call", fr, inst.fn.name, inst.id, "nested"), eng)
            return self.verdict(eng, st, v)
        return None

    def verdict(self, eng, st, v):
        """what was asked says no: from here on the table may not be accepted"""
        out = []
        for t in (True, False):
            for s in eng.assume(st.copy(), eng.icmp(st, "eq", v, C0), t):
                if not t:
                    s.ps = {BADST: C1}
                out.append((C0 if t else v, s))
        return out

    def callback(self, eng, st, fr, inst, tag, target, args, res):
        pass

    def icall(self, eng, st, fr, inst, field, target, args):
        if field == "validator_entry_s.func":
            e = cell(target)[0]
            self.appcall(eng, st, fr, inst, "VALIDATOR")
            if e is None:
                return None
            subj = args[1] if len(args) > 1 else TOP
            o, fl = cell(subj)
            good = any(subj == x for x in self.entries(st)) or subj in self.params(st) or o is not None and ".default_value" in str(subj)
            if not good and not self.rejected(st):
                self.report("default", where(inst.fn), "runs a validator on something other than the entry or its default", st)
            return self.verdict(eng, st, ("op", "call:verdict", e))
        return super().icall(eng, st, fr, inst, field, target, args)

    def params(self, st):
        return ()

    def broken(self, eng, st, o):
        self.loose = False
        return any(p(eng, st, o, None) is False for p in self.opt_obl.values()) or self.loose

    def why_reject(self, eng, st, inst, args):
        """some rule must be broken here"""
        self.duplicate(eng, st)
        es = list(self.entries(st))
        es += [a for a in args if a not in es and a[0] in ("p", "s")]
        for o in es:
            if self.broken(eng, st, o):
                return
            # nested deeper than supported
            t = self.fv(eng, st, o, "sub_options")
            if self.ty(eng, st, o, "SUBCOMMAND") is True and zero(eng, st, t) is False and \
                    any(f[0] >= 1 and f[0] != absint.INF and any(l[1] in ("init", "arg") and (l[1] == "arg" or l[3][0][0] == "g") for l in absint.leaves(k)) for k, f in st.facts.items()):
                return
        if self.has(st, "slot", ("broken",)):
            return
        if not self.has(st, "help", ("seen",)) and not [o for o in self.entries(st)]:
            return
        self.report("just", where(inst.fn), "reports a fault although no rule is known to be broken", st)


def run_definitions(ctx):
    mod = ctx.mod
    ctx.rule("accepts", "a table is accepted only after every entry was found to meet this rule")
    ctx.rule("reported", "a table for which a fault was reported is not accepted")
    ctx.rule("help", "a table is accepted only when an option named help was found in it")
    ctx.rule("just", "a fault is reported only where a rule is broken")
    ctx.rule("default", "validators are run on the entry or its default")
    init = mod.fn("_argus_init_validate")
    reps = {f.name for f in mod.defined.values() if f.src == "argus_struct_error"}
    ctx.need(reps, "no function reports faulty definitions")
    inside = reach(mod, init.name)
    verdicts = {n for n in inside if mod.closure(n) & reps and mod.defined[n].d["ret"] == "i32" and takes(mod.defined[n], "argus_option_t")}
    ctx.need(verdicts, "nothing checks the definitions")
    lookups = {n for n in mod.defined if is_name_lookup(mod, mod.defined[n]) and takes(mod.defined[n], "char") and "argus_option_t" in mod.defined[n].sig_of(0)}
    tops = [f for f in (mod.defined[n] for n in sorted(verdicts)) if any(g.name not in verdicts for g in mod.callers(f.name))]
    for f in tops:
        tn = [n for n in range(len(f.params)) if "argus_option_t" in f.sig_of(n)][0]
        T = ("s", "arg", tn)
        spoiled = set()
        while True:
            ana = Defs(mod, verdicts, lookups, reps)
            ana.table = T
            ana.A = next((("s", "arg", n) for n in range(len(f.params)) if "argus_t" in f.sig_of(n)), ("s", "noparser"))
            ana.spoiled |= spoiled
            eng = ana.eng = ctx.engine(ana)
            try:
                exits = eng.run_root(f)
            except Broken:
                # which rules a loop settles is found out on the way
                if ana.spoiled == spoiled:
                    raise
                exits = None
            if ana.spoiled == spoiled:
                break
            spoiled = ana.spoiled
            ctx.anas.remove(ana)
        for e in exits:
            for s in eng.assume(e.st.copy(), eng.icmp(e.st, "eq", e.val, C0), True):
                tr = absint.path_of(s)
                ctx.inst("reported")
                if ana.rejected(s):
                    ctx.violation("reported", where(f), "may accept a table although a fault was reported", tr)
                    continue
                ctx.inst("help")
                if not ana.has(s, "help", ("seen",)):
                    ctx.violation("help", where(f), "may accept a table without a help option", tr)
                for x in ana.opt_obl:
                    ctx.inst("accepts")
                    if not ana.has(s, "done", (x, T)):
                        ctx.violation("accepts", "%s rule %s" % (where(f), x.replace("_", "-")), "may accept a table with an entry that breaks it: %s" % ana.why(x), tr)
        ctx.absorb(ana)
        ctx.inst("just", ana.reports)
        ctx.inst("default")
