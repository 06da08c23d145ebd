"""Queries on abstract states: what a path has established about a field, a
mask, an ordering; and role lookups on the program."""
from absint import C, C0, TOP, split, mkptr, INF, LT, EQ, GT, isc, NOFACT
from ir import Broken, operands

OPT = "argus_option_s."
ARG = "argus_s."


def fieldptr(obj, field):
    b, p = split(obj)
    return mkptr(b, p + (("f", field),))


def fval(eng, st, obj, field, ty):
    """current value of obj->field"""
    return eng.read(st, fieldptr(obj, field), ty)


def truth(eng, st, pred, a, b):
    v = eng.icmp(st, pred, a, b)
    if isc(v):
        return bool(v[1])
    return None


def zero(eng, st, v):
    """True when v is known 0/NULL, False when known non-zero"""
    if v[0] == "c":
        return v[1] == 0
    if v[0] == "fp":
        return None
    if v == TOP:
        return None
    if eng.isbool(v):
        r = boolval(eng, st, v)
        return None if r is None else not r
    l, h, n = st.fact(v)
    if l == h == 0:
        return True
    nn = eng.nonnull(st, v)
    return None if nn is None else not nn


def boolval(eng, st, v):
    """truth of a boolean-valued expression under st"""
    if isc(v):
        return bool(v[1])
    a = eng.assume(st.copy(), v, True)
    b = eng.assume(st.copy(), v, False)
    if a and not b:
        return True
    if b and not a:
        return False
    return None


def bits(eng, st, v, mask):
    """is v & mask known non-zero (True) / zero (False)?"""
    c = st.const(v)
    if c is not None:
        return bool(c & mask)
    zero_m = 0
    for k, f in st.facts.items():
        if k[0] == "op" and k[1] == "and" and k[2] == v and isc(k[3]):
            m = k[3][1] & 0xFFFFFFFF
            l, h, n = f
            if l == h == 0:
                zero_m |= m
            elif 0 in n or l > 0 or h < 0:
                if m & ~mask == 0:
                    return True
            if l == h and l & mask:
                return True
    if mask & ~zero_m == 0:
        return False
    l, h, n = st.fact(v)
    if h < INF and l >= 0 and h - l <= 4096:
        r = {bool(x & mask) for x in range(l, h + 1) if x not in n and not (x & zero_m)}
        if len(r) == 1:
            return r.pop()
    return None


def enummask(mod, names):
    m = 0
    for n in names:
        m |= mod.enum(n)
    return m


# ---- roles ------------------------------------------------------------------
def reads(mod):
    """per function: struct fields loaded, transitively"""
    if not hasattr(mod, "_reads"):
        r = {}
        for n, f in mod.defined.items():
            s = set()
            for i in f.all_insts():
                if i.op == "load":
                    for x in mod._ptrsteps(f, i.ops[0]):
                        if x[0] == "field":
                            s.add(x[1])
                elif i.op == "getelementptr":
                    for x in i.get("steps"):
                        if "f" in x and not x["f"].startswith("union."):
                            fl = mod.field(x["f"], x["off"])
                            if ".@" not in fl:
                                s.add("&" + fl)
            r[n] = s
        ch = True
        cg = mod.callgraph()
        while ch:
            ch = False
            for n in r:
                b = len(r[n])
                for c in cg[n]:
                    r[n] |= r.get(c.lstrip("&"), set())
                ch |= len(r[n]) != b
        mod._reads = r
    return mod._reads


def readsdirect(mod, f):
    s = set()
    for i in f.all_insts():
        if i.op == "load":
            for x in mod._ptrsteps(f, i.ops[0]):
                if x[0] == "field":
                    s.add(x[1])
    return s


def retty(f):
    return f.ret


def is_name_lookup(mod, f):
    """returns an option found by comparing names"""
    return f.ret == "ptr" and OPT + "name" in reads(mod)[f.name] and ("strcmp" in mod.closure(f.name) or "strncmp" in mod.closure(f.name)) \
        and not mod.modset(f.name)["fields"]


def needs_api(mod, names):
    return [mod.fn(n) for n in names]


def complete_count(eng, st, sym, arr, cnt, size):
    """has the loop variable sym covered arr[0..cnt) when the loop is left?"""
    c = eng.cursor(st, sym)
    if c is None:
        return None
    org, step = c
    if step in (1, -1) and org == cnt and zero(eng, st, sym) is True:
        return True
    if step == 1 and org == C0:
        return truth(eng, st, "ult", sym, cnt) is False
    if step == 1 and org == arr:
        b, p = split(arr)
        end = mkptr(b, p + (("i", cnt, size),))
        return truth(eng, st, "ult", sym, end) is False or truth(eng, st, "eq", sym, end) is True
    return None
