"""Coverage of option tables: every entry of the root table and of every active
subcommand's table meets its obligation before the phase may succeed."""
import absint
from absint import C, C0, C1, TOP, split, mkptr, isc
from roles import *

A = ("s", "arg", 0)
BAD = ("s", "bad")


class Levels(App):
    """obligations: {name: predicate(eng, st, element pointer, list) -> bool};
    an obligation is discharged for a list when one loop that walks it from its
    first entry to its end meets it for every entry."""
    cap = 60
    exit_cap = 40
    opt_obl = {}
    ptr_obl = {}
    rule = "?"
    A = A                           # the parser
    momentary = ("exclusive",)      # judged when moving on, not before

    def __init__(self, mod):
        super().__init__(mod)
        self.badat = {}
        self.cands = {}

    # an entry that meets its obligation stays met when states are joined
    def prejoin(self, eng, st):
        for k, v in list(st.env.items()):
            if len(k) == 3 and k[1] in ("acc:opt", "acc:ptr") and v[0] == "set":
                for ptr in v[1]:
                    lst = mkptr(split(ptr)[0], split(ptr)[1][:-1]) if split(ptr)[1] else ptr
                    for x, p in (self.opt_obl if k[1] == "acc:opt" else self.ptr_obl).items():
                        if x not in self.momentary and p(eng, st, ptr, lst):
                            self.latch(st, "ok", (x, ptr))
            elif len(k) == 3 and k[1] == "acc:stk" and v[0] == "set":
                for ptr in v[1]:
                    if self.nolevel(eng, st, ptr):
                        self.latch(st, "ok", ("stk", ptr))

    def nolevel(self, eng, st, ptr):
        """this entry of the stack has no table"""
        e = eng.read(st, ptr, "ptr")
        return zero(eng, st, e) is True or zero(eng, st, fval(eng, st, e, OPT + "sub_options", "ptr")) is True

    def joinps(self, st):
        """which table a variable stands for is kept apart"""
        r = super().joinps(st)
        t = frozenset((k, v) for k, v in st.env.items() if v[0] == "s" and v[1] in ("init", "hv") and cell(v)[1] in (ARG + "options", OPT + "sub_options"))
        b = frozenset((k, v) for k, v in st.env.items() if v == C0 or v == C1)
        return r, t, b

    # -- hooks
    def split_element(self, eng, st, fr, f, hdr, kind, ptr, lst):
        return [st]

    def backedge(self, eng, st, fr, f, hdr):
        acc = self.accessed(st, fr, f, hdr)
        states = [st]
        for kind, ptr, sym in acc:
            if kind == "opt" and ptr[0] in ("p", "s"):
                nx = []
                lst, _ = self.listof(eng, st, ptr, sym)
                for s in states:
                    nx += self.split_element(eng, s, fr, f, hdr, kind, ptr, lst)
                states = nx
        for s in states:
            seen = set()
            for kind, ptr, sym in acc:
                lst, reg = self.listof(eng, s, ptr, sym)
                self.cover(eng, s, fr, f, hdr, kind, ptr, lst, reg)
                seen.add(kind)
            self.iteration(eng, s, fr, f, hdr, acc)
            s.ps = {k: v for k, v in s.ps.items() if k != "iter"}
            self.clear(s, fr, f, hdr)
        return states

    def iteration(self, eng, st, fr, f, hdr, acc):
        """an iteration that looks at no entry of any list counts against every
        list the loop may be walking"""
        if not acc and "iter" not in st.ps:
            for x in list(self.opt_obl) + list(self.ptr_obl):
                self.spoil(st, x, fr, f, hdr, "goes round the loop without looking at an entry")
        self.stackstep(eng, st, fr, f, hdr, acc)

    def stackstep(self, eng, st, fr, f, hdr, acc):
        """which entry of the active-subcommand stack this iteration dealt with,
        relative to the loop's counter"""
        syms = [("s", "phi", fr, f.name, i.id) for i in f.blocks[hdr] if i.op == "phi"]
        offs = set()
        for kind, ptr, sym in acc:
            if kind == "stk":
                x = split(ptr)[1][-1][1]
                offs.add((sym[4], eng.binop(st, "sub", x, sym, "i64") if x != sym else C0) if x[0] != "op" else (sym[4], x[3]))
        if not offs:
            offs = {("none", sym[4], zero(eng, st, sym) is True) for sym in syms}
        for o in offs:
            self.latch(st, "stkoff", (fr, f.name, hdr) + o)

    def spoil(self, st, x, fr, f, hdr, why):
        self.latch(st, "bad", (x, fr, f.name, hdr))
        self.badat.setdefault((x, f.name, hdr), "%s %s" % (where(f), why))

    def cover(self, eng, st, fr, f, hdr, kind, ptr, lst, reg):
        if kind == "opt":
            for x, p in self.opt_obl.items():
                if not reg:
                    self.spoil(st, x, fr, f, hdr, "does not walk the table from its first entry one by one")
                elif not (self.has(st, "ok", (x, ptr)) or p(eng, st, ptr, lst)):
                    self.spoil(st, x, fr, f, hdr, "moves past an entry without it")
        elif kind == "ptr":
            for x, p in self.ptr_obl.items():
                if not reg or not (self.has(st, "ok", (x, ptr)) or p(eng, st, ptr, lst)):
                    self.spoil(st, x, fr, f, hdr, "moves past a list entry without it")
        elif kind == "stk":
            if self.has(st, "ok", ("stk", ptr)) or self.nolevel(eng, st, ptr):
                return
            e = eng.read(st, ptr, "ptr")
            sub = fval(eng, st, e, OPT + "sub_options", "ptr")
            for x in self.opt_obl:
                if not self.has(st, "done", (x, sub)):
                    self.spoil(st, "stk:" + x, fr, f, hdr, "moves past an active subcommand without it")

    def loopexit(self, eng, st, fr, f, hdr):
        acc = self.accessed(st, fr, f, hdr)
        bad = {(y[0]) for y in st.ps.get("bad", ("set", frozenset()))[1] if y[1:] == (fr, f.name, hdr)}
        for kind, ptr, sym in acc:
            lst, reg = self.listof(eng, st, ptr, sym)
            if lst is not None and reg and self.ended(eng, st, kind, ptr, sym):
                for x in (self.opt_obl if kind == "opt" else self.ptr_obl if kind == "ptr" else ()):
                    if x not in bad:
                        self.latch(st, "done", (x, lst))
                        ps(st, iter=C1)
        if "stk" not in bad:
            d = fval(eng, st, self.A, ARG + "subcommand_depth", "i64")
            for i in f.blocks[hdr]:
                if i.op != "phi":
                    break
                sym = ("s", "phi", fr, f.name, i.id)
                if self.stack_ended(eng, st, fr, f, hdr, sym, d):
                    for x in self.opt_obl:
                        if "stk:" + x not in bad:
                            self.latch(st, "done", ("stk", x))
        for key in ("bad", "stkoff"):
            if key in st.ps:
                rest = frozenset(y for y in st.ps[key][1] if (y[1:] if key == "bad" else y[:3]) != (fr, f.name, hdr))
                st.ps = {k: v for k, v in st.ps.items() if k != key}
                if rest:
                    st.ps[key] = ("set", rest)
        self.exitloop(eng, st, fr, f, hdr)

    def stack_ended(self, eng, st, fr, f, hdr, sym, d):
        """the loop is left and the counter sym has gone through every entry"""
        c = eng.cursor(st, sym)
        if c is None:
            return False
        org, step = c
        mine = [y[3:] for y in st.ps.get("stkoff", ("set", frozenset()))[1] if y[:3] == (fr, f.name, hdr)]
        k = {y[1] for y in mine if y[0] == sym[4]}
        none = [y for y in mine if y[0] == "none" and y[1] == sym[4]]
        if len(k) > 1 or any(not isc(x) for x in k):
            return False
        k = k.pop()[1] if k else None
        if k is None:
            # not one iteration dealt with an active subcommand
            if zero(eng, st, d) is True:
                return True
            if none and step == -1 and plain(org) == d and all(y[2] for y in none):
                return True         # the count was zero to begin with
            if not none:
                return (isc(org) and org[1] <= 0 and truth(eng, st, "ult", sym, d) is False) or (org == d and zero(eng, st, sym) is True)
            # only the iteration for the root level took place
            return org == C0 and step == 1 and all(y[2] for y in none) and truth(eng, st, "ugt", sym, d) is True
        last = eng.binop(st, "add", sym, C(k), "i64")
        if step == 1 and isc(org):
            skipped = [y for y in none if not y[2]]
            if skipped or org[1] + k + (1 if none else 0) != 0:
                return False
            return truth(eng, st, "ult", last, d) is False or truth(eng, st, "slt", last, d) is False or \
                truth(eng, st, "ult", sym, eng.binop(st, "add", d, C(-k), "i64")) is False or truth(eng, st, "ugt", sym, d) is (True if k == -1 else None)
        if step == -1 and k == -1 and plain(org) == d and all(y[2] for y in none):
            # down to the parser's own level, which is number 0, or to the first entry
            return zero(eng, st, sym) is True and not none or truth(eng, st, "slt", sym, C0) is True
        if step == -1 and not none:
            if k == 0 and plain(org) == eng.binop(st, "add", d, C(-1), "i64"):
                return truth(eng, st, "slt", sym, C0) is True or truth(eng, st, "eq", sym, C(-1)) is True
        return False

    # -- verdict at a successful exit
    def missing(self, eng, st, root):
        out = []
        for x in self.opt_obl:
            if not self.has(st, "done", (x, root)):
                out.append((x, "the parser's own table"))
            d = zero(eng, st, fval(eng, st, self.A, ARG + "subcommand_depth", "i64"))
            if d is not True and not self.has(st, "done", ("stk", x)):
                out.append((x, "the tables of the active subcommands"))
        return out

    def why(self, x):
        w = sorted(v for k, v in self.badat.items() if k[0] in (x, "stk:" + x, "stk"))
        return w[0] if w else "no loop covers it to the end"


def plain(v):
    """a count without the conversions to a narrower type (a count of active
    subcommands is small)"""
    if v[0] == "op" and v[1].startswith("trunc"):
        return plain(v[2])
    if v[0] == "op" and v[1] == "add" and isc(v[3]):
        return ("op", "add", plain(v[2]), v[3])
    return v


def known(v):
    return v is True


# ---- validation phase -----------------------------------------------------------------
class Post(Levels):
    name = "post"

    def __init__(self, mod):
        super().__init__(mod)
        E = mod.enum
        self.POST, self.PRE = E("ORDER_POST"), E("ORDER_PRE")
        self.lookups = {f.name for f in mod.defined.values() if is_name_lookup(mod, f)}
        self.opt_obl = {"post": self.o_post, "positional": self.o_pos, "require": lambda *a: self.o_dep(OPT + "require", "require", *a),
                        "conflict": lambda *a: self.o_dep(OPT + "conflict", "conflict", *a), "exclusive": self.o_excl}
        self.ptr_obl = {"post": self.p_post, "require": self.p_req, "conflict": self.p_conf}

    OWN = {"post": ["validators"], "positional": ["flags"], "require": ["require"], "conflict": ["conflict"], "exclusive": ["flags"]}

    def inline(self, eng, st, fr, inst, f):
        if f.name in self.lookups:
            return False
        if straight(self.mod, f):
            return True
        c = self.mod.closure(f.name)
        r = reads(self.mod)[f.name]
        if r & {OPT + x for x in self.OWN[self.which]} or ARG + "subcommand_stack" in r or (self.which == "post" and VALID in c):
            return True
        if r & {OPT + x for w in self.OWN.values() for x in w} or VALID in c:
            return False        # another obligation's business, entered in that one's run
        return bool(r & {OPT + "is_set", OPT + "type"}) or f.src == "argus_parsing_error"

    def isset(self, eng, st, o):
        v = fval(eng, st, o, OPT + "is_set", "i8")
        z = zero(eng, st, v)
        if z is None:
            z = zero(eng, st, eng.binop(st, "and", v, C1, "i8")) if False else None
        return None if z is None else not z

    def typ(self, eng, st, o, name):
        return truth(eng, st, "eq", fval(eng, st, o, OPT + "type", "i32"), C(self.mod.enum(name)))

    def flag(self, eng, st, o, name):
        return bits(eng, st, fval(eng, st, o, OPT + "flags", "i32"), self.mod.enum(name))

    def o_post(self, eng, st, o, lst):
        if self.isset(eng, st, o) is False or self.typ(eng, st, o, "TYPE_GROUP") is True:
            return True
        v = fval(eng, st, o, OPT + "validators", "ptr")
        return zero(eng, st, v) is True or self.has(st, "done", ("post", v))

    def p_post(self, eng, st, ptr, lst):
        opt, fl = cell(lst)
        if fl != OPT + "validators":
            return True
        ve = eng.read(st, ptr, "ptr")
        order = eng.read(st, fieldptr(ve, "validator_entry_s.order"), "i32")
        if truth(eng, st, "eq", order, C(self.POST)) is False:
            return True
        return st.ps.get("ve") == ve and zero(eng, st, st.ps["vres"]) is True

    def o_pos(self, eng, st, o, lst):
        return self.typ(eng, st, o, "TYPE_POSITIONAL") is False or self.flag(eng, st, o, "FLAG_REQUIRED") is False or self.isset(eng, st, o) is True

    def o_dep(self, field, x, eng, st, o, lst):
        if self.isset(eng, st, o) is False or self.typ(eng, st, o, "TYPE_GROUP") is True:
            return True
        v = fval(eng, st, o, field, "ptr")
        return zero(eng, st, v) is True or self.has(st, "done", (x, v))

    def dep(self, eng, st, ptr, lst):
        """(result of looking the named option up in the list's own table)"""
        n = eng.read(st, ptr, "ptr")
        if st.ps.get("lkn") != n:
            return None
        opt, _ = cell(lst)
        if opt is not None:
            t = self.tableof(eng, st, opt)
            if t is not None and st.ps.get("lkl") != t:
                return None
        return st.ps["lkr"]

    def tableof(self, eng, st, o):
        b, p = split(o)
        if p and p[-1][0] == "i":
            return mkptr(b, p[:-1])
        c = eng.cursor(st, b)
        if c is not None and not p:
            return c[0]
        if p and all(s[0] == "i" for s in p):
            return mkptr(b, ())
        return None

    def p_req(self, eng, st, ptr, lst):
        if cell(lst)[1] != OPT + "require":
            return True
        r = self.dep(eng, st, ptr, lst)
        return r is not None and (zero(eng, st, r) is True or self.isset(eng, st, r) is True)

    def p_conf(self, eng, st, ptr, lst):
        if cell(lst)[1] != OPT + "conflict":
            return True
        r = self.dep(eng, st, ptr, lst)
        return r is not None and (zero(eng, st, r) is True or self.isset(eng, st, r) is False)

    def joinps(self, st):
        r = super().joinps(st)
        if self.which != "exclusive":
            return r
        out = []
        for k, v in st.env.items():
            if len(k) == 3 and k[1] == "acc:opt":
                for ptr in v[1]:
                    out.append((k, ptr, self.isset(self.eng, st, ptr), self.typ(self.eng, st, ptr, "TYPE_GROUP"), self.flag(self.eng, st, ptr, "FLAG_EXCLUSIVE")))
        return r, frozenset(out)

    # exclusive groups: grp = current group entry, cnt = set options seen in it
    def split_element(self, eng, st, fr, f, hdr, kind, ptr, lst):
        if "exclusive" not in self.opt_obl:
            return [st]
        out = []
        ty = fval(eng, st, ptr, OPT + "type", "i32")
        for t in (True, False):
            for s in eng.assume(st.copy(), eng.icmp(st, "eq", ty, C(self.mod.enum("TYPE_GROUP"))), t):
                if t:
                    fl = fval(eng, s, ptr, OPT + "flags", "i32")
                    m = eng.binop(s, "and", fl, C(self.mod.enum("FLAG_EXCLUSIVE")), "i32")
                    for x in (True, False):
                        for s2 in eng.assume(s.copy(), eng.icmp(s, "ne", m, C0), x):
                            ps(s2, grp=C1 if x else C0, cnt=C0)
                            out.append(s2)
                else:
                    se = fval(eng, s, ptr, OPT + "is_set", "i8")
                    for x in (True, False):
                        for s2 in eng.assume(s.copy(), eng.icmp(s, "ne", se, C0), x):
                            if x and s2.ps.get("grp") == C1:
                                if s2.ps.get("cnt") == C1:
                                    ps(s2, over=C1)
                                ps(s2, cnt=C1)
                            out.append(s2)
        return out

    def o_excl(self, eng, st, o, lst):
        if st.ps.get("over") == C1:
            st.ps = {k: v for k, v in st.ps.items() if k != "over"}
            return False
        return True

    STALE = ("cur", "lkr", "lkl", "lkn")

    def iteration(self, eng, st, fr, f, hdr, acc):
        super().iteration(eng, st, fr, f, hdr, acc)
        if any(k == "opt" for k, _, _ in acc):
            self.tidy(eng, st)
        elif acc:
            st.ps = {k: v for k, v in st.ps.items() if k not in ("lkr", "lkl", "lkn")}

    def tidy(self, eng, st):
        drop = set(self.STALE)
        if "vres" in st.ps and zero(eng, st, st.ps["vres"]) is True:
            drop |= {"ve", "vres"}
        st.ps = {k: v for k, v in st.ps.items() if k not in drop}

    def exitloop(self, eng, st, fr, f, hdr):
        for kind, ptr, sym in self.accessed(st, fr, f, hdr):
            if self.ended(eng, st, kind, ptr, sym):
                if kind == "opt":
                    self.tidy(eng, st)
                    st.ps = {k: v for k, v in st.ps.items() if k not in ("grp", "cnt", "over")}
                elif kind == "ptr":
                    st.ps = {k: v for k, v in st.ps.items() if k not in ("lkr", "lkl", "lkn")}

    def loaded(self, eng, st, fr, inst, ptr, val):
        super().loaded(eng, st, fr, inst, ptr, val)
        b, p = split(ptr)
        if p and p[-1] == ("f", "validator_entry_s.order"):
            st.setfact(val, min(self.PRE, self.POST), max(self.PRE, self.POST))
        if p and p[-1] == ("f", OPT + "name"):
            st.setfact(val, ne=frozenset([0]))     # every table entry that can be set has a name
        if p and p[-1] == ("f", OPT + "type") and inst.ty == "i32":
            ps(st, cur=mkptr(b, p[:-1]))

    def call(self, eng, st, fr, inst, name, args):
        if name in self.lookups:
            g = self.mod.defined[name]
            sym = st.fresh(("s", "call", fr, "LOOKUP", inst.fn.name, inst.id), eng)
            st.setfact(fval(eng, st, sym, OPT + "is_set", "i8"), 0, 1)
            if self.which in ("require", "conflict", "positional"):
                ps(st, lkr=sym, lkl=args[0], lkn=args[1] if len(args) > 1 else TOP)
            return [(sym, st)]
        g = self.mod.defined.get(name)
        if g is not None and not self.inline(eng, st, fr, inst, g) and g.src != "argus_parsing_error" and inst.ty[0] == "i":
            out = []
            for v, s in eng.opaque(st, fr, inst.fn, inst, g, args):
                for t in (True, False):
                    for s2 in eng.assume(s.copy(), eng.icmp(s, "eq", v, C0), t):
                        if not t or inst.ty == "i1":
                            ps(s2, oth=C1)
                        out.append((v, s2))
            return out
        if g is not None and g.src == "argus_parsing_error":
            code = st.const(args[1])
            self.justify(eng, st, inst, code)
            if args[0] != A:
                self.report("reject-code", where(inst.fn), "the error is not recorded on the parser being validated", st)
            eng.write(st, fieldptr(args[0], ARG + "error_code"), "i32", args[1], (fr, inst.fn.name, inst.id))
            ps(st, rep=args[1])
            return [(TOP, st)]
        return None

    def justify(self, eng, st, inst, code):
        E = self.mod.enum
        o = st.ps.get("cur")
        ok = False
        mine = {"positional": "ARGUS_ERROR_MISSING_REQUIRED", "require": "ARGUS_ERROR_MISSING_REQUIRED", "conflict": "ARGUS_ERROR_CONFLICTING_OPTIONS",
                "exclusive": "ARGUS_ERROR_EXCLUSIVE_GROUP"}.get(self.which)
        if mine is None or code != E(mine):
            return
        if code == E("ARGUS_ERROR_MISSING_REQUIRED") and (st.ps.get("lkr") is None) != (self.which == "positional"):
            return      # the other source of this error, judged in its own run
        cs = o is not None and self.isset(eng, st, o)
        lk = st.ps.get("lkr")
        if code == E("ARGUS_ERROR_MISSING_REQUIRED"):
            ok = o is not None and self.typ(eng, st, o, "TYPE_POSITIONAL") is True and self.flag(eng, st, o, "FLAG_REQUIRED") is True and cs is False
            ok = ok or (lk is not None and cs is True and zero(eng, st, lk) is False and self.isset(eng, st, lk) is False and self.from_list(st, OPT + "require"))
        elif code == E("ARGUS_ERROR_CONFLICTING_OPTIONS"):
            ok = lk is not None and cs is True and zero(eng, st, lk) is False and self.isset(eng, st, lk) is True and self.from_list(st, OPT + "conflict")
        elif code == E("ARGUS_ERROR_EXCLUSIVE_GROUP"):
            ok = cs is True and st.ps.get("grp") == C1 and st.ps.get("cnt") == C1
        else:
            ok = True
        self.njust = getattr(self, "njust", 0) + 1
        if not ok:
            self.report("reject-only", where(inst.fn), "a constraint error can be raised without the constraint being broken", st)

    def from_list(self, st, field):
        """the name last looked up is an entry of the current option's list"""
        n = st.ps.get("lkn")
        if n is None or n[0] != "s" or n[1] not in ("init", "hv"):
            return False
        b, p = n[3]
        if p and p[-1][0] == "i":
            p = p[:-1]
        o, f = cell(mkptr(b, p))
        if f is None and b[0] == "s" and b[1] == "phi":
            return True
        return f == field

    def callback(self, eng, st, fr, inst, tag, target, args, res):
        if tag == "HANDLER":
            self.report("post-run", where(inst.fn), "a handler runs during validation", st)
        if tag == "VALIDATOR" and self.which != "post":
            ps(st, vres=res)
        if tag != "VALIDATOR" or self.which != "post":
            return
        ve, _ = cell(target)
        if ve is None:
            return
        order = eng.read(st, fieldptr(ve, "validator_entry_s.order"), "i32")
        if truth(eng, st, "eq", order, C(self.POST)) is not True:
            self.report("post-run", where(inst.fn), "a validator that need not be a POST validator is run on the parsed option", st)
        if "vres" in st.ps and zero(eng, st, st.ps["vres"]) is not True:
            self.report("post-run", where(inst.fn), "validation goes on although a validator may have rejected", st)
        if self.isset(eng, st, args[1]) is not True:
            self.report("post-run", where(inst.fn), "a POST validator is run on an option that may not be set", st)
        if args[0] != A:
            self.report("post-run", where(inst.fn), "the validator is not given the parser", st)
        # the entry belongs to the option handed over
        b, p = split(ve)
        owner = None
        if ve[0] == "s" and ve[1] in ("init", "hv"):
            b, p = ve[3]
            lst = mkptr(b, p[:-1]) if p and p[-1][0] == "i" else mkptr(b, p)
            if lst[0] == "s" and lst[1] == "phi":
                c = eng.cursor(st, lst)
                lst = c[0] if c else lst
            owner = cell(lst)[0]
        if owner != args[1]:
            self.report("post-run", where(inst.fn), "a validator is run on another option than the one it is attached to", st)
        if len(args) > 2:
            d = args[2]
            want = fieldptr(ve, "validator_entry_s.data")
            db, dp = split(d)
            e = st.mem.get((db, dp))
            if d != want and d != TOP and not (e and e[0] == "copy" and mkptr(e[1], e[2]) == want):
                self.report("post-run", where(inst.fn), "the validator is not given its own data", st)
        ps(st, ve=ve, vres=res)


OBL = {"post": "every POST validator of every set option has accepted",
       "positional": "every required positional is set",
       "require": "every option a set option requires is set",
       "conflict": "no option a set option conflicts with is set",
       "exclusive": "no exclusive group has two set options"}


def run_post(ctx, whichall):
    for x in whichall:
        run_post1(ctx, (x,))


def run_post1(ctx, which):
    mod = ctx.mod
    roots = post_roots(mod)
    for f in roots:
        ana = Post(mod)
        ana.which = which[0]
        ana.opt_obl = {k: v for k, v in ana.opt_obl.items() if k in which}
        ana.ptr_obl = {k: v for k, v in ana.ptr_obl.items() if k in which}
        eng = ana.eng = ctx.engine(ana)
        exits = eng.run_root(f)
        root = ("s", "init", ("E0",), (A, (("f", ARG + "options"),)), "ptr")
        for e in exits:
            st, val = e.st, e.val
            tr = absint.path_of(st)
            for t in (True, False):
                for s in eng.assume(st.copy(), eng.icmp(st, "eq", val, C0), t):
                    if t:
                        for x in which:
                            ctx.inst("covered")
                        for x, lv in ana.missing(eng, s, root):
                            ctx.violation("covered", where(f), "validation can succeed without '%s' being established for %s: %s" % (OBL[x], lv, ana.why(x)), tr)
                        if "vres" in s.ps and zero(eng, s, s.ps["vres"]) is not True:
                            ctx.violation("post-run", where(f), "success although a validator may have rejected", tr)
                    else:
                        ctx.inst("reject-code")
                        v = s.ps.get("vres")
                        if v is not None and zero(eng, s, v) is not True:
                            if val != v:
                                ctx.violation("post-run", where(f), "the rejecting validator's own status is not what is returned", tr)
                            ctx.inst("post-run")
                            continue
                        r = s.ps.get("rep")
                        if r is None and s.ps.get("oth") == C1:
                            continue        # the status of a callee entered in another obligation's run
                        if r is None or s.const(r) != s.const(val):
                            ctx.violation("reject-code", where(f), "fails with a status that is not the error reported", tr)
        ctx.absorb(ana)
        ctx.inst("reject-only", getattr(ana, "njust", 0))


def post_roots(mod):
    from pipeline import phase_roles
    r = [n for n, k in phase_roles(mod).items() if k == "post"]
    top = [n for n in r if any(g.name not in r for g in mod.callers(n)) or not mod.callers(n)]
    return [mod.defined[n] for n in top]


def run_p06(ctx):
    ctx.rule("covered", "the validation phase succeeds only when every POST validator of every set option accepted, in the parser's table and in every active subcommand's")
    ctx.rule("post-run", "a POST validator runs only on the set option it is attached to, with its own data; the first rejection ends the phase and its status is returned unchanged")
    run_post(ctx, ("post",))


def run_p07(ctx):
    ctx.rule("covered", "the validation phase succeeds only when required positionals are set, requirements met, conflicts absent and exclusive groups respected, at every level")
    ctx.rule("reject-only", "a constraint error is raised only where that constraint is broken")
    ctx.rule("reject-code", "the status of a broken constraint is the error reported for it")
    run_post(ctx, ("positional", "require", "conflict", "exclusive"))
