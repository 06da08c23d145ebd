"""Typed accessors: outcome table of every public read function."""
import absint
from absint import C, C0, TOP, split, isc
from ir import Broken
from spec import *
from scan import Scan, loop_reaches
from effects import Effects
from outputs import called


class Acc(absint.Analysis):
    name = "accessors"
    cap = 60

    def __init__(self, mod):
        super().__init__(mod)
        self.lookups = {f.name for f in mod.defined.values() if is_name_lookup(mod, f)}

    def call(self, eng, st, fr, inst, name, args):
        if name in self.lookups:
            g = self.mod.defined[name]
            sym = st.fresh(("s", "call", fr, "LOOKUP", inst.id, g.src), eng)
            st.ps = dict(st.ps, lookup=sym, largs=tuple(args), nlook=C(st.ps.get("nlook", C0)[1] + 1))
            return [(sym, st)]
        return None


def where(f):
    return "%s (%s)" % (f.src, f.loc)


def initial(loc, ty):
    return ("s", "init", ("E0",), loc, ty)


def check_get(ctx, name, rid, retty, outcome):
    mod = ctx.mod
    f = mod.fn(name)
    ana = Acc(mod)
    eng = ctx.engine(ana)
    exits = eng.run_root(f)
    ctx.need(exits, "%s never returns" % name)
    ctx.absorb(ana)
    for e in exits:
        ctx.inst(rid)
        outcome(ctx, eng, f, e.st, e.val)


def lookup_ok(ctx, eng, f, st, rid, v):
    """the option consulted is the one found for this parser and this path"""
    l = st.ps.get("lookup")
    if l is None:
        ctx.violation(rid, where(f), "returns without looking the requested name up", absint.path_of(st))
        return None
    a = st.ps["largs"]
    if ("s", "arg", 1) not in a:
        ctx.violation(rid, where(f), "looks up something other than the requested name", absint.path_of(st))
        return None
    return l


def errcode(eng, st):
    return fval(eng, st, ("s", "arg", 0), ARG + "error_code", "i32")


def run_accessors(ctx):
    mod = ctx.mod
    E = mod.enum
    ctx.rule("lookup-null", "a name that is not found yields the neutral result (and NO_VALUE for value getters), never a read through it")
    ctx.rule("outcome-table", "every return of a value getter is the error its path has established, or the stored value with error_code 0 after all of: found, right kind, index/key present")
    ctx.rule("writes", "reading writes nothing but the parser's error code and the iterator it is given: no option, no stored value, no hidden variable the outcome could come from")
    untouched(ctx)
    ARR = enummask(mod, ["VALUE_TYPE_ARRAY_STRING", "VALUE_TYPE_ARRAY_INT", "VALUE_TYPE_ARRAY_FLOAT", "VALUE_TYPE_VARIADIC_STRING",
                         "VALUE_TYPE_VARIADIC_INT", "VALUE_TYPE_VARIADIC_FLOAT"])
    MAP = enummask(mod, ["VALUE_TYPE_MAP_STRING", "VALUE_TYPE_MAP_INT", "VALUE_TYPE_MAP_FLOAT", "VALUE_TYPE_MAP_BOOL"])
    NOV, TYP, IDX, KEY, OK = (E("ARGUS_ERROR_NO_VALUE"), E("ARGUS_ERROR_INVALID_TYPE"), E("ARGUS_ERROR_INVALID_INDEX"),
                              E("ARGUS_ERROR_INVALID_KEY"), E("ARGUS_SUCCESS"))
    NAMES = {NOV: "NO_VALUE", TYP: "INVALID_TYPE", IDX: "INVALID_INDEX", KEY: "INVALID_KEY", OK: "0"}

    def common(ctx, eng, f, st, rid):
        o = lookup_ok(ctx, eng, f, st, rid, None)
        return o

    def isnull(eng, st, o):
        return zero(eng, st, o)

    def verdict(ctx, eng, f, st, val, o, conds, success):
        """conds: ordered [(code, failed?)] ; success(val) -> error text or None"""
        ec = st.const(errcode(eng, st))
        if ec is None:
            ctx.violation("outcome-table", where(f), "returns with an error_code this call did not establish", absint.path_of(st))
            return
        for code, failed in conds:
            if ec == code:
                if failed is not True:
                    ctx.violation("outcome-table", where(f), "reports %s on a path that has not established that condition" % NAMES.get(code, code), absint.path_of(st))
                if st.const(val) != 0:
                    ctx.violation("outcome-table", where(f), "reports %s but returns something other than the zero value" % NAMES.get(code, code), absint.path_of(st))
                return
            if failed is not False:
                ctx.violation("outcome-table", where(f), "reports %s although %s is not excluded on this path" % (NAMES.get(ec, ec), NAMES.get(code, code)), absint.path_of(st))
                return
        if ec != OK:
            ctx.violation("outcome-table", where(f), "reports %s although every condition for success holds" % NAMES.get(ec, ec), absint.path_of(st))
            return
        t = success(val)
        if t:
            ctx.violation("outcome-table", where(f), t, absint.path_of(st))

    def inval(o, ty="i64"):
        b, p = split(o)
        return b, p

    def g_get(ctx, eng, f, st, val):
        o = common(ctx, eng, f, st, "outcome-table")
        if o is None:
            return
        def ok(v):
            if v != fval(eng, st, o, OPT + "value", "i64"):
                return "a found option's value is not what is returned"
        verdict(ctx, eng, f, st, val, o, [(NOV, isnull(eng, st, o))], ok)

    def g_array(ctx, eng, f, st, val):
        o = common(ctx, eng, f, st, "outcome-table")
        if o is None:
            return
        n = isnull(eng, st, o)
        conds = [(NOV, n)]
        if n is False:
            vt = fval(eng, st, o, OPT + "value_type", "i32")
            b = bits(eng, st, vt, ARR)
            conds.append((TYP, None if b is None else not b))
            cnt = fval(eng, st, o, OPT + "value_count", "i64")
            t = truth(eng, st, "ult", ("s", "arg", 2), cnt)
            conds.append((IDX, None if t is None else not t))

        def ok(v):
            arr = fval(eng, st, o, OPT + "value", "ptr")
            idx = ("s", "arg", 2)
            c = st.const(idx)
            cand = set()
            for i in ([idx] if c is None else [idx, C(c)]):
                b, p = split(arr)
                path = p if i == C0 else p + (("i", i, 8),)
                cand.add(eng.read(st, absint.mkptr(b, path), "i64"))
            if v not in cand:
                return "the element returned is not the one stored at the requested index"
        verdict(ctx, eng, f, st, val, o, conds, ok)

    def g_map(ctx, eng, f, st, val):
        o = common(ctx, eng, f, st, "outcome-table")
        if o is None:
            return
        n = isnull(eng, st, o)
        conds = [(NOV, n)]
        found = None
        if n is False:
            vt = fval(eng, st, o, OPT + "value_type", "i32")
            b = bits(eng, st, vt, MAP)
            conds.append((TYP, None if b is None else not b))
            found = match(eng, st, o)
            done = st.ps.get("scan") == ("c", 1) or zero(eng, st, fval(eng, st, o, OPT + "value_count", "i64")) is True
            conds.append((KEY, False if found else True if done else None))

        def ok(v):
            if not found:
                return "returns a value without having matched the requested key"
            b, p = split(found)
            if v != fval(eng, st, found, "argus_pair_s.value", "i64"):
                return "the value returned does not belong to the pair whose key matched"
        verdict(ctx, eng, f, st, val, o, conds, ok)

    def match(eng, st, o):
        """pair whose key compared equal to the requested key"""
        for k, fct in st.facts.items():
            if k[0] == "op" and k[1] == "call:strcmp" and fct[0] == fct[1] == 0:
                ops = set(k[2:])
                if ("s", "arg", 2) in ops and len(ops) == 2:
                    other = (ops - {("s", "arg", 2)}).pop()
                    if other[0] == "s" and other[1] in ("init", "hv"):
                        b, p = other[3]
                        if p and p[-1] == ("f", "argus_pair_s.key"):
                            return absint.mkptr(b, p[:-1])
                        if b[0] != "op":
                            return absint.mkptr(b, p)
        return None

    def g_isset(ctx, eng, f, st, val):
        o = lookup_ok(ctx, eng, f, st, "lookup-null", None)
        if o is None:
            return
        n = isnull(eng, st, o)
        if n is None:
            ctx.violation("lookup-null", where(f), "the lookup result is used without being tested", absint.path_of(st))
        elif n and zero(eng, st, val) is not True:
            ctx.violation("lookup-null", where(f), "an unknown name does not yield the neutral answer", absint.path_of(st))
        elif not n:
            fld, ty = (OPT + "is_set", "i8") if f.src == "argus_is_set" else (OPT + "value_count", "i64")
            want = fval(eng, st, o, fld, ty)
            if val != want and val != eng.icmp(st, "ne", want, C0) and not same_bool(eng, st, val, want):
                ctx.violation("lookup-null", where(f), "a found option's state is not what is returned", absint.path_of(st))

    def same_bool(eng, st, v, want):
        z1, z2 = zero(eng, st, v), zero(eng, st, want)
        if f_isbool(want) and z1 is not None and z1 == z2:
            return True
        return v[0] == "op" and v[1].startswith(("trunc", "as:")) and v[2] == want

    def f_isbool(w):
        return w[0] == "s" and w[-1] == "i8"

    check_get(ctx, "argus_get", "outcome-table", "i64", g_get)
    check_get(ctx, "argus_array_get", "outcome-table", "i64", g_array)
    mapscan(ctx, "argus_map_get", "outcome-table", g_map)
    check_get(ctx, "argus_is_set", "lookup-null", "i1", g_isset)
    check_get(ctx, "argus_count", "lookup-null", "i64", g_isset)


class MapScan(Acc, Scan):
    """adds: the scan over the pairs starts at 0, advances by one, tests every
    key and is complete when it ends at value_count"""

    def pairs(self, eng, st):
        o = st.ps.get("lookup")
        return None if o is None else (fval(eng, st, o, OPT + "value", "ptr"), fval(eng, st, o, OPT + "value_count", "i64"))

    def element(self, eng, st, fr, f, hdr, kind, ptr, lst, regular):
        if kind != "pair":
            return
        pc = self.pairs(eng, st)
        if pc is None or lst != pc[0]:
            self.report("outcome-table", where(f), "the scan does not walk the found option's pairs", st)
        elif not regular:
            self.report("outcome-table", where(f), "the scan over the pairs does not start at the first pair and advance by one", st)
        key = eng.read(st, fieldptr(ptr, "argus_pair_s.key"), "ptr")
        if zero(eng, st, key) is True:
            return
        t = zero(eng, st, ("op", "call:strcmp", key, ("s", "arg", 2)))
        t2 = zero(eng, st, ("op", "call:strcmp", ("s", "arg", 2), key))
        if t is not False and t2 is not False:
            self.report("outcome-table", where(f), "the scan moves on from a pair whose key was not compared with the requested key", st)

    def blank(self, eng, st, fr, f, hdr):
        if loop_reaches(self.mod, f, hdr, ("strcmp",)):
            self.report("outcome-table", where(f), "the scan moves on from a pair whose key was not compared with the requested key", st)

    def exitloop(self, eng, st, fr, f, hdr):
        pc = self.pairs(eng, st)
        if pc is None or not loop_reaches(self.mod, f, hdr, ("strcmp",)):
            return
        for i in f.blocks[hdr]:
            if i.op != "phi":
                break
            sym = ("s", "phi", fr, f.name, i.id)
            if complete_count(eng, st, sym, pc[0], pc[1], 16) is not True:
                continue
            st.ps = dict(st.ps, scan=C(1))


def mapscan(ctx, name, rid, outcome):
    mod = ctx.mod
    f = mod.fn(name)
    ana = MapScan(mod)
    eng = ctx.engine(ana)
    exits = eng.run_root(f)
    ctx.need(exits, "%s never returns" % name)
    ctx.absorb(ana)
    for e in exits:
        ctx.inst(rid)
        outcome(ctx, eng, f, e.st, e.val)


READERS = ("argus_get", "argus_is_set", "argus_count", "argus_array_get", "argus_map_get", "argus_array_it", "argus_map_it", "argus_array_next", "argus_map_next",
           "argus_array_reset", "argus_map_reset")


def untouched(ctx):
    """reading leaves the parser as it is"""
    mod = ctx.mod
    ctx.need(all(n in mod.defined for n in READERS), "a function that reads values vanished")
    scope = called(mod, READERS)
    E = Effects(mod)

    def local(f, o):
        while o["k"] == "v" and f.insts[o["n"]].op in ("getelementptr", "bitcast"):
            o = f.insts[o["n"]].ops[0]
        return o["k"] == "v" and f.insts[o["n"]].op == "alloca" or o["k"] == "a" and ("byval" in f.params[o["n"]] or "sret" in f.params[o["n"]])

    for f, i, verb, ts in E.writes():
        if f.name not in scope:
            continue
        ctx.inst("writes")
        if i.op == "store" and local(f, i.ops[1]) or i.op == "call" and i.ops and local(f, i.ops[0]):
            continue
        for t in sorted(ts, key=str):
            if t[0] == "f" and t[1].startswith((OPT, ARG, "argus_pair_s.")) and t[1] != ARG + "error_code":
                ctx.violation("writes", where(f), "%s %s while only reading" % (verb, t[1].rsplit(".", 1)[1]), str(i.loc))
            elif t[0] == "elem" and any(stored(q) for q in t[2]) or t[0] == "block" and t[1][0] == "load" and any(stored(q) for q in t[1][1]):
                ctx.violation("writes", where(f), "%s a stored value while only reading" % verb, str(i.loc))


def stored(q):
    return q[0] == "f" and q[1].startswith((OPT, ARG, "argus_pair_s.", "argus_array_iterator_s.", "argus_map_iterator_s.")) or q[0] == "elem" and any(stored(r) for r in q[2])
