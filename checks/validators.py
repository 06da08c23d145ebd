"""Built-in validators: what each accepts and rejects (P22, P23)."""
import re

import absint
from absint import ALLOC, C, C0, TOP, split, mkptr, isc
from roles import *

VALUE = ("s", "arg", 1)
DATA = ("p", ("bv", "root", 2), ())
FORMATTERS = "validator_entry_s.formatter"


def reported(eng, st):
    """error code now recorded in the caller's parser; None when untouched"""
    v = fval(eng, st, ("s", "arg", 0), ARG + "error_code", "i32")
    return None if v[0] == "s" and v[1] == "init" else v


class Validator(App):
    name = "validator"
    exit_cap = 80

    def __init__(self, mod, choices=None):
        super().__init__(mod)
        self.choices = choices
        self.n = {"cmp": 0}
        self.walks, self.blanks = set(), set()

    def inline(self, eng, st, fr, inst, f):
        return f.ret != "ptr" or not (self.mod.closure(f.name) & set(ALLOC))

    def call(self, eng, st, fr, inst, name, args):
        if name in ("strlen", "strcmp", "strncmp", "strcasecmp", "strnlen"):
            for a in args[:2]:
                o, fl = cell(a)
                if fl == OPT + "value":
                    self.n["cmp"] += 1
                    if zero(eng, st, a) is not False:
                        self.report("present", where(inst.fn), "examines a text that may be missing", st)
        return None

    # -- choices ------------------------------------------------------------
    def choicelist(self, eng, st, b):
        """is b the list of choices?"""
        c = eng.cursor(st, b)
        if c is not None:
            b = split(c[0])[0]
        return b[0] == "s" and b[1] in ("init", "hv") and any(x[0] == "f" and x[1].startswith("choices_data_s.") for x in b[3][1])

    def loaded(self, eng, st, fr, inst, ptr, val):
        if self.choices and ptr != TOP and inst.ty in ("ptr", "i64", "double", "i32", "float"):
            b, p = split(ptr)
            if self.choicelist(eng, st, b) and not (p and p[-1][0] == "f"):
                self.note(st, "ptr", ptr)
                return
        super().loaded(eng, st, fr, inst, ptr, val)

    def eager(self, eng, st, fr, inst, v):
        def elems(x):
            if x[0] == "s" and x[1] in ("init", "hv"):
                return self.choicelist(eng, st, x[3][0])
            return x[0] == "op" and any(elems(y) for y in x[2:] if isinstance(y, tuple))
        return bool(self.choices) and elems(v)

    def count(self, eng, st):
        return eng.read(st, mkptr(DATA[1], (("f", "choices_data_s.count"),)), "i64")

    def inside(self, eng, st, ptr, sym):
        """is the element one of the count choices?"""
        cnt = self.count(eng, st)
        lst, reg = self.listof(eng, st, ptr, sym)
        b, p = split(ptr)
        org, step = eng.cursor(st, sym) or (None, None)
        if org == cnt and p and p[-1][1] == ("op", "add", sym, C(-1)):
            return zero(eng, st, sym) is False
        if not reg:
            return False
        if b == sym:
            end = mkptr(split(org)[0], split(org)[1] + (("i", cnt, 8),))
            return truth(eng, st, "ult", sym, end) is True or truth(eng, st, "ne", sym, end) is True
        return truth(eng, st, "ult", sym, cnt) is True

    def ended(self, eng, st, kind, ptr, sym):
        if self.choices and kind == "ptr":
            return self.over(eng, st, sym)
        return super().ended(eng, st, kind, ptr, sym)

    def same(self, eng, st, v, c):
        """is the value known equal (True) or unequal (False) to the choice?"""
        if self.choices == "string":
            for a, b in ((v, c), (c, v)):
                z = zero(eng, st, ("op", "call:strcmp", a, b))
                if z is not None:
                    return z
            return None
        if self.choices == "float":
            return eng.evalcmp(st, ("op", "fcmp", "oeq", v, c))
        return truth(eng, st, "eq", v, c)

    def val(self, eng, st):
        return eng.read(st, fieldptr(VALUE, OPT + "value"), {"string": "ptr", "int": "i64", "float": "double"}[self.choices])

    def elem(self, eng, st, ptr):
        return eng.read(st, ptr, {"string": "ptr", "int": "i64", "float": "double"}[self.choices])

    def match(self, eng, st, fr, f):
        """latch a match found in the current iteration of any loop"""
        for hdr in f.headers:
            for kind, ptr, sym in self.accessed(st, fr, f, hdr):
                if kind == "ptr" and self.same(eng, st, self.val(eng, st), self.elem(eng, st, ptr)) is True:
                    if self.inside(eng, st, ptr, sym):
                        st.ps = dict(st.ps, match=C(1))

    def branch(self, eng, st, fr, inst, cond, truth_):
        if self.choices:
                self.match(eng, st, fr, inst.fn)

    def element(self, eng, st, fr, f, hdr, kind, ptr, lst, regular):
        if self.choices and kind == "ptr":
            self.walks.add((f.name, hdr))
            self.match(eng, st, fr, f)
            if "match" in st.ps:
                return
            if not regular or self.same(eng, st, self.val(eng, st), self.elem(eng, st, ptr)) is not False:
                self.latch(st, "skipped", (kind, lst))

    def blank(self, eng, st, fr, f, hdr):
        self.blanks.add((f.name, hdr))

    def left(self, eng, st, fr, f, hdr, kind, ptr, lst):
        if self.choices:
            self.match(eng, st, fr, f)

    def exitloop(self, eng, st, fr, f, hdr):
        """counted walk over the choices, left because the count is reached"""
        if not self.choices or self.accessed(st, fr, f, hdr):
            return
        for i in f.blocks[hdr]:
            if i.op != "phi":
                break
            if self.over(eng, st, ("s", "phi", fr, f.name, i.id)):
                self.latch(st, "done", ("ptr", C0))

    def over(self, eng, st, sym):
        """has the variable gone through every choice?"""
        c = eng.cursor(st, sym)
        if c is None:
            return False
        cnt = self.count(eng, st)
        lst = c[0] if self.choicelist(eng, st, c[0]) else eng.read(st, mkptr(DATA[1], (("f", "choices_data_s."),)), "ptr")
        return complete_count(eng, st, sym, lst, cnt, 8) is True


def rng(eng, st, name):
    return eng.read(st, mkptr(DATA[1], (("f", "argus_range_s." + name),)), "i64")


def subject(kind, eng, st):
    """the 64-bit value the bounds are about"""
    if kind == "length":
        v = eng.read(st, fieldptr(VALUE, OPT + "value"), "ptr")
        return ("op", "call:strlen", v)
    if kind == "count":
        return eng.read(st, fieldptr(VALUE, OPT + "value_count"), "i64")
    return eng.read(st, fieldptr(VALUE, OPT + "value"), "i64")


def run_validators(ctx):
    mod = ctx.mod
    ctx.rule("accepts", "a bounds validator accepts only a value that is at least the minimum and at most the maximum")
    ctx.rule("width", "a number is compared as stored, not a part of it")
    ctx.rule("present", "a text is only examined when it is there")
    ctx.rule("rejects", "a bounds validator rejects only a value outside the bounds, a missing text, or bounds that make no sense")
    ctx.rule("choice", "a choice validator accepts only a value that equals one of the choices, and rejects only after comparing it with every choice")
    ctx.rule("reported", "every rejection is reported to the parser with the very status returned, and acceptance reports nothing")
    for n, kind in (("range_validator", "range"), ("length_validator", "length"), ("count_validator", "count"),
                    ("choices_string_validator", "string"), ("choices_int_validator", "int"), ("choices_float_validator", "float")):
        f = mod.fn(n)
        ch = kind if kind in ("string", "int", "float") else None
        ana = Validator(mod, ch)
        eng = ana.eng = ctx.engine(ana)
        for e in eng.run_root(f):
            for t in (True, False):
                for s in eng.assume(e.st.copy(), eng.icmp(e.st, "eq", e.val, C0), t):
                    tr = absint.path_of(s)
                    err = reported(eng, s)
                    ctx.inst("reported")
                    if t and err is not None:
                        ctx.violation("reported", where(f), "reports an error and accepts the value", tr)
                    if not t and (err is None or err != e.val):
                        ctx.violation("reported", where(f), "rejects with a status that was not reported", tr)
                    if ch:
                        ctx.inst("choice")
                        choice(ctx, eng, ana, f, s, t, tr)
                    else:
                        ctx.inst("accepts" if t else "rejects")
                        ctx.inst("width")
                        bounds(ctx, eng, f, kind, s, t, tr)
        ctx.inst("present", ana.n["cmp"])
        for _ in ana.walks & ana.blanks:
            ctx.violation("choice", where(f), "passes over choices without comparing them")
        ctx.absorb(ana)


def choice(ctx, eng, ana, f, s, accepted, tr):
    if accepted:
        if "match" not in s.ps:
            ctx.violation("choice", where(f), "accepts a value that may differ from every choice", tr)
        return
    if ana.choices == "string" and zero(eng, s, ana.val(eng, s)) is True:
        return
    done = s.ps.get("done")
    cnt = eng.read(s, mkptr(DATA[1], (("f", "choices_data_s.count"),)), "i64")
    if zero(eng, s, cnt) is True:
        return
    if "match" in s.ps:
        ctx.violation("choice", where(f), "rejects a value that equals a choice", tr)
    elif not done or "skipped" in s.ps:
        ctx.violation("choice", where(f), "rejects a value without having compared it with every choice", tr)


def bounds(ctx, eng, f, kind, s, accepted, tr):
    lo, hi = rng(eng, s, "min"), rng(eng, s, "max")
    if kind == "length" and zero(eng, s, eng.read(s, fieldptr(VALUE, OPT + "value"), "ptr")) is True:
        if accepted:
            ctx.violation("accepts", where(f), "accepts a missing text", tr)
        return
    v = subject(kind, eng, s)
    vs = [v]
    width = ""
    if kind == "range":
        n = eng.read(s, fieldptr(VALUE, OPT + "value"), "i32")
        vs.append(n)

    def known(p, a, b):
        return [x for x in vs if truth(eng, s, p, *[x if y is None else y for y in (a, b)]) is True]
    if accepted:
        a, b = known("sge", None, lo), known("sle", None, hi)
        if not a:
            ctx.violation("accepts", where(f), "accepts a value that may be below the minimum", tr)
        if not b:
            ctx.violation("accepts", where(f), "accepts a value that may be above the maximum", tr)
        if a and b and kind == "range" and (v not in a or v not in b):
            ctx.violation("width", where(f), "compares only the low half of the stored integer", tr)
        return
    ok = known("slt", None, lo) or known("sgt", None, hi) or truth(eng, s, "sgt", lo, hi) is True
    if kind != "range":
        ok = ok or truth(eng, s, "slt", lo, C0) is True or truth(eng, s, "slt", hi, C0) is True
    if not ok:
        ctx.violation("rejects", where(f), "may reject a value within the bounds", tr)


# ---- regular expressions -----------------------------------------------------------
def base(name):
    return re.sub(r"_(8|16|32)$", "", name)


class Regex(Validator):
    name = "regex"

    def __init__(self, mod):
        super().__init__(mod)
        self.matches = 0

    def live(self, eng, st, inst, v, key, what):
        if v != st.ps.get(key):
            self.report("match", where(inst.fn), "uses something else than the %s" % what, st)
        elif key + "f" in st.ps:
            self.report("match", where(inst.fn), "uses the %s after its release" % what, st)
        elif zero(eng, st, v) is not False:
            self.report("match", where(inst.fn), "uses the %s although it may be missing" % what, st)

    def two(self, eng, st, fr, inst, key):
        sym = st.fresh(("s", "call", fr, inst.fn.name, inst.id, key), eng)
        s2 = st.copy()
        st.setfact(sym, ne=frozenset([0]))
        st.ps = dict(st.ps, **{key: sym})
        s2.ps = dict(s2.ps, **{key: C0})
        return [(sym, st), (C0, s2)]

    def call(self, eng, st, fr, inst, name, args):
        b = base(name)
        w = where(inst.fn)
        if b == "pcre2_compile":
            o, fl = cell(args[0])
            if fl != "regex_data_s.pattern" or o != DATA:
                self.report("match", w, "compiles something else than the validator's pattern", st)
            elif zero(eng, st, args[0]) is not False:
                self.report("match", w, "compiles a pattern that may be missing", st)
            if st.const(args[1]) not in (-1, 2 ** 64 - 1) and args[1] != ("op", "call:strlen", args[0]):
                self.report("match", w, "compiles only part of the pattern", st)
            if st.const(args[2]) != 0:
                self.report("match", w, "compiles the pattern with options that change its meaning", st)
            if "re" in st.ps and st.ps["re"] != C0:
                self.report("match", w, "compiles the pattern again", st)
            for a in args:
                if a[0] == "p" and a[1][0] == "al":
                    eng.write(st, a, "i32", st.fresh(("s", "fresh", fr, inst.fn.name, inst.id, a[1][-1]), eng), (fr, inst.fn.name, inst.id))
            return self.two(eng, st, fr, inst, "re")
        if b.startswith("pcre2_match_data_create"):
            if b.endswith("from_pattern"):
                self.live(eng, st, inst, args[0], "re", "compiled pattern")
            return self.two(eng, st, fr, inst, "md")
        if b in ("pcre2_match", "pcre2_dfa_match"):
            self.matches += 1
            self.live(eng, st, inst, args[0], "re", "compiled pattern")
            self.live(eng, st, inst, args[5], "md", "match block")
            if args[1] != VALUE:
                self.report("match", w, "matches something else than the value", st)
            elif zero(eng, st, args[1]) is not False:
                self.report("match", w, "matches a value that may be missing", st)
            if st.const(args[2]) not in (-1, 2 ** 64 - 1) and args[2] != ("op", "call:strlen", args[1]) or st.const(args[3]) != 0:
                self.report("match", w, "matches only part of the value", st)
            if st.const(args[4]) not in (0, 0x40000000):
                self.report("match", w, "matches with options that change what matches", st)
            sym = st.fresh(("s", "call", fr, inst.fn.name, inst.id, "match"), eng)
            st.ps = dict(st.ps, rc=sym)
            return [(sym, st)]
        if b in ("pcre2_code_free", "pcre2_match_data_free"):
            k = "re" if "code" in b else "md"
            if args[0] == C0:
                return [(TOP, st)]
            if args[0] != st.ps.get(k):
                self.report("released", w, "releases something else than what was obtained", st)
            elif k + "f" in st.ps:
                self.report("released", w, "releases a block twice", st)
            st.ps = dict(st.ps, **{k + "f": C(1)})
            return [(TOP, st)]
        if b.startswith("pcre2_") and b not in ("pcre2_get_error_message", "pcre2_config"):
            if st.ps.get("re") in args or st.ps.get("md") in args:
                for k in ("re", "md"):
                    if st.ps.get(k) in args:
                        self.live(eng, st, inst, st.ps[k], k, "block")
        return None

    def retiring(self, st, sym):
        pass


def run_regex(ctx):
    mod = ctx.mod
    ctx.rule("match", "the validator's own pattern, compiled whole and checked, is matched against the whole value with blocks that are present and not yet released")
    ctx.rule("accepts", "success is returned only when the pattern matched, and an error only when it did not, could not be compiled, or something was missing")
    ctx.rule("released", "the compiled pattern and the match block are released exactly once on every path")
    ctx.rule("reported", "every rejection is reported to the parser with the very status returned, and acceptance reports nothing")
    f = mod.fn("regex_validator")
    if "ARGUS_REGEX" not in ctx.defs:
        without(ctx, mod, f)
        return
    regex(ctx, f)


def regex(ctx, f):
    mod = ctx.mod
    ana = Regex(mod)
    eng = ana.eng = ctx.engine(ana)
    for e in eng.run_root(f, args={1: "nullable"}):
        for t in (True, False):
            for s in eng.assume(e.st.copy(), eng.icmp(e.st, "eq", e.val, C0), t):
                tr = absint.path_of(s)
                err = reported(eng, s)
                ctx.inst("reported")
                ctx.inst("accepts")
                ctx.inst("released")
                if t and err is not None:
                    ctx.violation("reported", where(f), "reports an error and accepts the value", tr)
                if not t and (err is None or err != e.val):
                    ctx.violation("reported", where(f), "rejects with a status that was not reported", tr)
                for k, what in (("re", "compiled pattern"), ("md", "match block")):
                    v = s.ps.get(k)
                    if v is not None and zero(eng, s, v) is not True and k + "f" not in s.ps:
                        ctx.violation("released", where(f), "returns without releasing the %s" % what, tr)
                rc = s.ps.get("rc")
                if t and (rc is None or truth(eng, s, "sge", rc, C0) is not True):
                    ctx.violation("accepts", where(f), "accepts a value although the pattern may not have matched", tr)
                if not t and rc is not None and truth(eng, s, "slt", rc, C0) is not True:
                    ctx.violation("accepts", where(f), "may reject a value that matched", tr)
                if not t and rc is None:
                    pat = eng.read(s, mkptr(DATA[1], (("f", "regex_data_s.pattern"),)), "ptr")
                    if not (s.ps.get("re") == C0 or s.ps.get("md") == C0 or zero(eng, s, VALUE) is True or zero(eng, s, pat) is True):
                        ctx.violation("accepts", where(f), "rejects a value without having matched it", tr)
    ctx.absorb(ana)
    ctx.inst("match", ana.matches)


def without(ctx, mod, f):
    """built without the expression library: nothing may be accepted"""
    ana = Validator(mod)
    eng = ana.eng = absint.Engine(mod, ana, 100000)
    for e in eng.run_root(f, args={1: "nullable"}):
        ctx.inst("accepts")
        if zero(eng, e.st, e.val) is not False:
            ctx.violation("accepts", where(f), "accepts a value although built without support for patterns", absint.path_of(e.st))
    ctx.absorb(ana)
