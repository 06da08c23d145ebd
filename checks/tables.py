"""Walks over option tables that apply the environment (P08) or release what
options hold (P04)."""
import absint
from absint import C, C0, C1, TOP, split, mkptr, isc
from roles import *
from levels import Levels, A
from pipeline import appliers, phase_roles


def flagof(mod, eng, st, o, name):
    return bits(eng, st, fval(eng, st, o, OPT + "flags", "i32"), mod.enum(name))


def istype(mod, eng, st, o, name):
    return truth(eng, st, "eq", fval(eng, st, o, OPT + "type", "i32"), C(mod.enum(name)))


def yes(eng, st, o, field):
    """is the boolean/count field known set (True) / clear (False)?"""
    z = zero(eng, st, fval(eng, st, o, OPT + field, "i64" if field in ("value_count", "value_capacity") else "i8"))
    return None if z is None else not z


# ---- environment ------------------------------------------------------------------
GETENV = ("getenv", "secure_getenv")


class Env(Levels):
    name = "env"
    STEP = ("nm", "nmo", "ge", "gea", "ap", "apo")

    def __init__(self, mod):
        super().__init__(mod)
        self.opt_obl = {"env": self.o_env}
        self.appliers = {f.name for f in appliers(mod)}
        top = self.roots = [mod.defined[n] for n, k in phase_roles(mod).items() if k == "env"]
        inside = set().union(*[reach(mod, f.name) for f in top])
        names = {n for n in inside if OPT + "env_name" in reads(mod)[n] and not mod.closure(n) & set(GETENV) and not has(mod, mod.defined[n], HANDLER)
                 and mod.defined[n].d["ret"] == "ptr"}
        self.resolvers = {n for n in names if any(g.name in inside and g.name not in names for g in mod.callers(n))}
        if not self.resolvers:
            raise Broken("no function names an option's environment variable")
        self.applied = 0

    def inline(self, eng, st, fr, inst, f):
        c = self.mod.closure(f.name)
        return straight(self.mod, f) or bool(c & set(GETENV)) or has(self.mod, f, HANDLER) or bool(reach(self.mod, f.name) & self.resolvers) \
            or ARG + "subcommand_stack" in reads(self.mod)[f.name]

    def o_env(self, eng, st, o, lst):
        m = self.mod
        if istype(m, eng, st, o, "TYPE_GROUP") is True or istype(m, eng, st, o, "TYPE_SUBCOMMAND") is True:
            return True
        if st.ps.get("apo") == o:
            return zero(eng, st, st.ps["ap"]) is True
        if yes(eng, st, o, "is_set") is True and flagof(m, eng, st, o, "FLAG_ENV_OVERRIDE") is False and \
                (yes(eng, st, o, "have_default") is False or yes(eng, st, o, "value_count") is True):
            return True
        if st.ps.get("nmo") == o:
            if zero(eng, st, st.ps["nm"]) is True:
                return True
            return st.ps.get("gea") == st.ps["nm"] and zero(eng, st, st.ps["ge"]) is True
        return False

    def iteration(self, eng, st, fr, f, hdr, acc):
        super().iteration(eng, st, fr, f, hdr, acc)
        if any(k == "opt" for k, _, _ in acc):
            self.tidy(eng, st)

    def tidy(self, eng, st):
        if "ap" not in st.ps or zero(eng, st, st.ps["ap"]) is True:
            st.ps = {k: v for k, v in st.ps.items() if k not in self.STEP}

    def exitloop(self, eng, st, fr, f, hdr):
        if any(k == "opt" and self.ended(eng, st, k, p, s) for k, p, s in self.accessed(st, fr, f, hdr)):
            self.tidy(eng, st)

    def call(self, eng, st, fr, inst, name, args):
        g = self.mod.defined.get(name)
        if name in GETENV:
            sym = st.fresh(("s", "call", fr, inst.fn.name, inst.id, "getenv"), eng)
            if st.ps.get("nm") != args[0]:
                self.report("env-source", where(inst.fn), "reads a variable that was not named for the option at hand", st)
            elif zero(eng, st, args[0]) is not False:
                self.report("env-source", where(inst.fn), "reads the environment although there may be no variable for the option", st)
            ps(st, ge=sym, gea=args[0])
            return [(sym, st)]
        if name in self.resolvers:
            v, st = eng.opaque(st, fr, inst.fn, inst, g, args)[0]
            o = [a for n, a in enumerate(args) if n < len(g.sig) and "argus_option_t" in g.sig_of(n)]
            if any("argus_t" in g.sig_of(n) and a != A for n, a in enumerate(args)):
                self.report("env-source", where(inst.fn), "the variable is not named for the parser being parsed into", st)
            if o:
                ps(st, nm=v, nmo=o[0])
            return [(v, st)]
        if name in self.appliers:
            self.apply(eng, st, inst, g, args)
            v, st = eng.opaque(st, fr, inst.fn, inst, g, args)[0]
            o = [a for n, a in enumerate(args) if "argus_option_t" in g.sig_of(n)]
            ps(st, ap=v, apo=o[0] if o else TOP)
            return [(v, st)]
        return None

    def apply(self, eng, st, inst, g, args):
        m = self.mod
        self.applied += 1
        w = where(inst.fn)
        if "ap" in st.ps and zero(eng, st, st.ps["ap"]) is not True:
            self.report("env-result", w, "goes on applying values although an earlier one may have been refused", st)
        o = st.ps.get("nmo")
        if o is None or o not in args or st.ps.get("gea") != st.ps["nm"] or st.ps["ge"] not in args:
            self.report("env-source", w, "applies a text that is not the value of the option's own variable", st)
            return
        if A not in args:
            self.report("env-source", w, "applies the value to another parser", st)
        if zero(eng, st, st.ps["ge"]) is not False:
            self.report("env-source", w, "applies the value of a variable that may be absent", st)
        if not (istype(m, eng, st, o, "TYPE_GROUP") is False and istype(m, eng, st, o, "TYPE_SUBCOMMAND") is False):
            self.report("env-only", w, "applies the environment to a group or subcommand entry", st)
        if not (yes(eng, st, o, "is_set") is False or flagof(m, eng, st, o, "FLAG_ENV_OVERRIDE") is True or
                yes(eng, st, o, "value_count") is False):     # nothing parsed: at most its default
            self.report("env-only", w, "the environment may replace what the command line set although the option does not allow it", st)

    def store(self, eng, st, fr, inst, ptr, val):
        b, p = split(ptr)
        if p and p[-1][0] == "f" and p[-1][1].startswith(OPT):
            o = mkptr(b, p[:-1])
            if st.ps.get("apo") != o or zero(eng, st, st.ps["ap"]) is not False:
                self.report("env-only", where(inst.fn), "changes an option other than by applying its variable", st)


def run_env(ctx):
    mod = ctx.mod
    ctx.rule("covered", "the environment phase succeeds only after every entry of the parser's table and of every active subcommand's was given its variable's value, had none, or was left to the command line")
    ctx.rule("env-only", "a value from the environment is applied only to an option the command line left open, that holds only its default, or that allows it")
    ctx.rule("env-source", "the text applied is the present value of the variable named for that very option")
    ctx.rule("env-result", "the first value refused ends the phase and its status is returned unchanged")
    ana0 = Env(mod)
    roles = {f.name for f in ana0.roots}
    roots = [f for f in ana0.roots if not mod.callers(f.name) or any(g.name not in roles for g in mod.callers(f.name))]
    for f in roots:
        ana = Env(mod)
        eng = ana.eng = ctx.engine(ana)
        exits = eng.run_root(f)
        root = ("s", "init", ("E0",), (A, (("f", ARG + "options"),)), "ptr")
        for e in exits:
            for t in (True, False):
                for s in eng.assume(e.st.copy(), eng.icmp(e.st, "eq", e.val, C0), t):
                    tr = absint.path_of(s)
                    v = s.ps.get("ap")
                    if t:
                        ctx.inst("covered")
                        for x, lv in ana.missing(eng, s, root):
                            ctx.violation("covered", where(f), "the phase can succeed without the environment having been applied to every open option of %s: %s" % (lv, ana.why(x)), tr)
                        if v is not None and zero(eng, s, v) is not True:
                            ctx.violation("env-result", where(f), "success although a value may have been refused", tr)
                    else:
                        ctx.inst("env-result")
                        if v is None or e.val != v:
                            ctx.violation("env-result", where(f), "fails with a status that is not that of the value refused", tr)
        ctx.absorb(ana)
        ctx.inst("env-only", ana.applied)
        ctx.inst("env-source", ana.applied)


# ---- release ------------------------------------------------------------------------
class Free(Levels):
    name = "free"

    def __init__(self, mod):
        super().__init__(mod)
        self.opt_obl = {"free": self.o_free}
        self.released = 0

    def inline(self, eng, st, fr, inst, f):
        return True

    def o_free(self, eng, st, o, lst):
        m = self.mod
        if yes(eng, st, o, "is_allocated") is False:
            if st.ps.get("rel") == o:
                for fl, ty in (("value", "ptr"), ("value_count", "i64"), ("value_capacity", "i64")):
                    if zero(eng, st, fval(eng, st, o, OPT + fl, ty)) is not True:
                        return False
            return True
        return st.ps.get("rel") != o and (istype(m, eng, st, o, "TYPE_GROUP") is True or istype(m, eng, st, o, "TYPE_SUBCOMMAND") is True)

    def release(self, eng, st, inst, o):
        self.released += 1
        w = where(inst.fn)
        if "rel" in st.ps and st.ps["rel"] == o:
            self.report("free-once", w, "an option's value may be released twice", st)
        if yes(eng, st, o, "is_allocated") is not True:
            self.report("free-once", w, "releases the value of an option that may not hold an allocated one", st)
        ps(st, rel=o)

    def callback(self, eng, st, fr, inst, tag, target, args, res):
        if tag != "FREEH":
            self.report("free-once", where(inst.fn), "runs an application callback while releasing", st)
            return
        o, _ = cell(target)
        if o is None or o != args[0]:
            self.report("free-once", where(inst.fn), "the release callback is given another option than its own", st)
            return
        if zero(eng, st, target) is not False:
            self.report("free-once", where(inst.fn), "calls a release callback that may be missing", st)

    def icall(self, eng, st, fr, inst, field, target, args):
        if field == OPT + "free_handler":
            o, _ = cell(target)
            if o is not None:
                self.release(eng, st, inst, o)
        return super().icall(eng, st, fr, inst, field, target, args)

    def call(self, eng, st, fr, inst, name, args):
        if name == "free":
            o, fl = cell(args[0])
            if fl == OPT + "value":
                self.release(eng, st, inst, o)
                if zero(eng, st, fval(eng, st, o, OPT + "free_handler", "ptr")) is not True:
                    self.report("free-once", where(inst.fn), "releases a value itself although the option may have a release callback", st)
            return [(TOP, st)]
        return None

    def store(self, eng, st, fr, inst, ptr, val):
        b, p = split(ptr)
        if not p or p[-1][0] != "f":
            return
        o = mkptr(b, p[:-1])
        fl = p[-1][1]
        if fl in (OPT + "is_allocated", OPT + "value") and st.ps.get("rel") != o and yes(eng, st, o, "is_allocated") is not False:
            self.report("free-once", where(inst.fn), "forgets a value that was not released", st)

    def iteration(self, eng, st, fr, f, hdr, acc):
        super().iteration(eng, st, fr, f, hdr, acc)
        if any(k == "opt" for k, _, _ in acc):
            st.ps = {k: v for k, v in st.ps.items() if k != "rel"}

    def exitloop(self, eng, st, fr, f, hdr):
        if any(k == "opt" and self.ended(eng, st, k, p, s) for k, p, s in self.accessed(st, fr, f, hdr)):
            st.ps = {k: v for k, v in st.ps.items() if k != "rel"}


def run_free(ctx):
    mod = ctx.mod
    ctx.rule("covered", "releasing a parser deals with every entry of its own table and of every active subcommand's: afterwards no entry holds an allocated value, and a released one reads as empty")
    ctx.rule("free-once", "a value is released exactly once, only while the option holds an allocated one, through its own release callback if it has one")
    f = mod.fn("argus_free")
    ana = Free(mod)
    eng = ana.eng = ctx.engine(ana)
    root = ("s", "init", ("E0",), (A, (("f", ARG + "options"),)), "ptr")
    for e in eng.run_root(f):
        ctx.inst("covered")
        for x, lv in ana.missing(eng, e.st, root):
            ctx.violation("covered", where(f), "returns without every value held in %s having been released and forgotten: %s" % (lv, ana.why(x)), absint.path_of(e.st))
    ctx.absorb(ana)
    ctx.inst("free-once", ana.released)
