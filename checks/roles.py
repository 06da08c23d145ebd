"""Roles of the library's functions, recognised by what they do."""
import absint
from absint import C, C0, TOP, split, mkptr, isc
from ir import Broken
from spec import *
from scan import Scan, loop_reaches

HANDLER = "icall:argus_option_s.handler"
VALID = "icall:validator_entry_s.func"
FREEH = "icall:argus_option_s.free_handler"
ACTION = "icall:argus_option_s.action"
PRINTS = {"printf", "fprintf", "vfprintf", "puts", "putchar", "fputs", "fputc", "fwrite", "perror", "vprintf"}
VALUE_STATE = {OPT + "value", OPT + "value_count", OPT + "value_capacity", OPT + "is_allocated", ARG + "error_code"}


def where(f):
    return "%s (%s)" % (f.src, f.loc)


def reach(mod, name):
    """library functions reachable from name (name included)"""
    cg = mod.callgraph()
    seen, w = set(), [name]
    while w:
        x = w.pop().lstrip("&")
        if x in seen or x not in mod.defined:
            continue
        seen.add(x)
        w.extend(cg[x])
    return seen


def has(mod, f, *prims):
    c = mod.closure(f.name)
    return all(p in c for p in prims)


_sl = {}


def straight(mod, f):
    """neither the function nor anything it calls loops or recurses"""
    k = (id(mod), f.name)
    if k not in _sl:
        r = reach(mod, f.name)
        cg = mod.callgraph()
        _sl[k] = not any(mod.defined[n].headers for n in r) and f.name not in {c.lstrip("&") for n in r for c in cg[n]}
    return _sl[k]


def direct(mod, prim):
    """functions that contain the primitive themselves"""
    return [f for f in mod.defined.values() if prim in mod.callgraph()[f.name]]


def lowest(mod, pred):
    """functions satisfying pred none of whose callees does"""
    good = {n for n, f in mod.defined.items() if pred(f)}
    return [mod.defined[n] for n in sorted(good) if not ((reach(mod, n) - {n}) & good - {n})
            or not any(c.lstrip("&") in good and c.lstrip("&") != n for c in mod.callgraph()[n])]


def takes(f, *types):
    """parameter types as written in the source"""
    return all(any(t in s for s in f.sig) for t in types)


class App(Scan):
    """Scan with the frame assumption for application callbacks: they touch the
    value state of options and the parser's error code, not definitions."""

    def outcomes(self, eng, st, root):
        """statuses carried around loops: known to be success, failure, or neither"""
        out = []
        for k, v in st.env.items():
            if len(k) != 2 or type(k[1]) is not int:
                continue
            name = root
            if k[0]:
                i = self.mod.defined[k[0][-1][0]].insts.get(k[0][-1][1])
                name = i.callee_name() if i is not None else None
            f = self.mod.defined.get(name)
            i = f.insts.get(k[1]) if f is not None else None
            if i is not None and i.op == "phi" and i.ty == "i32" and i.block in f.headers and i.id not in f.inductive:
                out.append((k, zero(eng, st, v)))
        return frozenset(out)

    def appcall(self, eng, st, fr, inst, tag):
        sym = st.fresh(("s", "call", fr, tag, inst.fn.name, inst.id), eng)
        uid = ("H", fr, inst.fn.name, inst.id, tag)
        st.fresh(uid)
        for l in list(st.mem):
            fs = [s for s in l[1] if s[0] == "f"]
            if fs and fs[-1][1] in VALUE_STATE:
                st.mem[l] = ("hv", uid)
        return sym

    def icall(self, eng, st, fr, inst, field, target, args):
        tag = {OPT + "handler": "HANDLER", "validator_entry_s.func": "VALIDATOR", OPT + "free_handler": "FREEH", OPT + "action": "ACTION",
               "validator_entry_s.formatter": "FORMATTER"}.get(field)
        if tag is None:
            return None
        sym = self.appcall(eng, st, fr, inst, tag)
        self.callback(eng, st, fr, inst, tag, target, args, sym)
        return [(sym, st)]

    def callback(self, eng, st, fr, inst, tag, target, args, res):
        pass


def cell(v):
    """(object, field) a value was loaded from"""
    while v[0] == "op" and v[1].startswith("as:"):
        v = v[2]
    if v[0] == "s" and v[1] in ("init", "hv"):
        b, p = v[3]
        if p and p[-1][0] == "f":
            return mkptr(b, p[:-1]), p[-1][1]
    return None, None


def ps(st, **kw):
    st.ps = dict(st.ps, **kw)
