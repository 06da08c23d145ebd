"""Where addresses and values come from, following SSA definitions through
helper parameters and results (flow-insensitive, over a chosen set of functions)."""
from absint import ALLOC

REALLOCS = {"realloc", "reallocarray"}
COPIES = {"memcpy", "memmove", "llvm.memcpy.p0.p0.i64", "llvm.memmove.p0.p0.i64"}


def gepfield(mod, x):
    """last field a GEP selects, union members standing for their union"""
    st = [s for s in x.get("steps") if "f" in s]
    while st and st[-1]["f"].startswith("union."):
        st.pop()
    return mod.field(st[-1]["f"], st[-1]["off"]) if st else None


class Places:
    def __init__(self, mod, scope):
        self.mod = mod
        self.scope = set(scope) & set(mod.defined)
        self.sites = {}
        self.taken = set()
        for n in sorted(self.scope):
            for i in mod.defined[n].all_insts():
                if i.op == "call" and i.callee_name() in self.scope:
                    self.sites.setdefault(i.callee_name(), []).append(i)
                for k, o in enumerate(i.ops if i.op != "phi" else [v for _, v in i.ops]):
                    if isinstance(o, dict) and o["k"] == "f":
                        self.taken.add(o["n"])
        self._r = {}

    def args(self, i):
        return [o for o in i.ops]

    # -- where a value comes from
    def roots(self, f, o, seen=None):
        """("const",v) ("fn",n) ("global",g) ("alloca",f,id) ("load",places) ("alloc",fn)
        ("ext",fn) ("arg",f,n) ("op",)"""
        seen = set() if seen is None else seen
        k = o["k"]
        if k == "c":
            return {("const", o["v"])}
        if k == "f":
            return {("fn", o["n"])}
        if k == "g":
            return {("global", o["n"])}
        if k == "gep":
            return self.roots(f, o["base"], seen)
        if k == "a":
            key = (f.name, "a", o["n"])
            if key in seen:
                return set()
            seen.add(key)
            s = self.sites.get(f.name, [])
            out = set()
            for i in s:
                if o["n"] < len(i.ops):
                    out |= self.roots(i.fn, i.ops[o["n"]], seen)
            if not s or f.name in self.taken:
                out.add(("arg", f.name, o["n"]))
            return out
        if k != "v":
            return {("op",)}
        key = (f.name, o["n"])
        if key in seen:
            return set()
        seen.add(key)
        x = f.insts[o["n"]]
        if x.op == "phi":
            return set().union(*[self.roots(f, v, seen) for _, v in x.ops])
        if x.op == "select":
            return self.roots(f, x.ops[1], seen) | self.roots(f, x.ops[2], seen)
        if x.op in ("getelementptr", "bitcast", "freeze", "sext", "zext", "trunc", "inttoptr", "ptrtoint"):
            return self.roots(f, x.ops[0], seen)
        if x.op == "alloca":
            return {("alloca", f.name, x.id)}
        if x.op == "load":
            return {("load", frozenset(self.place(f, x.ops[0], seen)))}
        if x.op == "call":
            c = x.callee_name()
            if c is None:
                return {("ext", "icall:" + str(self.mod.callee_field(x)))}
            if c in self.mod.defined:
                out = set()
                for r in self.mod.defined[c].all_insts():
                    if r.op == "ret" and r.ops:
                        out |= self.roots(self.mod.defined[c], r.ops[0], seen)
                return out
            if c in ALLOC:
                return {("alloc", c)}
            if c in REALLOCS:
                return {("alloc", c)}
            if c in ("strchr", "strrchr", "strstr", "strpbrk", "memchr", "strcpy", "strncpy", "strcat", "strncat", "memcpy", "memmove", "memset", "stpcpy"):
                return self.roots(f, x.ops[0], seen)
            return {("ext", c)}
        return {("op",)}

    # -- what an address denotes
    def place(self, f, o, seen=None):
        """("f",field) ("elem",elemtype,places-of-the-list) ("deref",places) ("global",g)
        ("alloca",f,id) ("arg",f,n) ("fresh",el) ("ext",fn)"""
        seen = set() if seen is None else seen
        if o["k"] == "gep":
            return {("global", o["base"]["n"])} if o["base"]["k"] == "g" else {("op",)}
        if o["k"] == "v":
            x = f.insts[o["n"]]
            if x.op == "getelementptr":
                fld = gepfield(self.mod, x)
                if fld:
                    r = self.roots(f, x.ops[0], set(seen))
                    if r and all(y[0] == "alloca" for y in r):
                        return r
                    return {("f", fld)}
                el = next((s["el"] for s in x.get("steps") if "el" in s), "?")
                return self.deref(self.inner(f, x.ops[0], set(seen)), el)
            if x.op in ("phi", "select"):
                key = ("pl", f.name, o["n"])
                if key in seen:
                    return set()
                seen.add(key)
                return set().union(*[self.place(f, v, seen) for v in ([v for _, v in x.ops] if x.op == "phi" else x.ops[1:])])
            if x.op in ("bitcast", "freeze"):
                return self.place(f, x.ops[0], seen)
        if o["k"] == "a" and self.sites.get(f.name):
            key = ("pl", f.name, "a", o["n"])
            if key in seen:
                return set()
            seen.add(key)
            out = set().union(*[self.place(i.fn, i.ops[o["n"]], seen) for i in self.sites[f.name] if o["n"] < len(i.ops)])
            return out | ({("arg", f.name, o["n"])} if f.name in self.taken else set())
        return self.deref(self.inner(f, o, set(seen)), None)

    def inner(self, f, o, seen):
        """like roots, but an address inside an object keeps denoting that place"""
        if o["k"] == "v":
            x = f.insts[o["n"]]
            if x.op == "getelementptr":
                p = self.place(f, o, seen)
                return {("at", y) for y in p}
        return self.roots(f, o, seen)

    def deref(self, roots, el):
        out = set()
        for r in roots:
            if r[0] == "load":
                out.add(("elem", el, r[1]))
            elif r[0] == "at":
                out.add(r[1])
            elif r[0] == "alloc":
                out.add(("fresh", el))
            elif r[0] in ("global", "alloca", "arg", "ext"):
                out.add(r)
            elif r[0] == "op":
                out.add(r)
        return out

    def stores(self):
        """(function, instruction, place, stored type, roots of the value)"""
        for n in sorted(self.scope):
            f = self.mod.defined[n]
            for i in f.all_insts():
                if i.op == "store":
                    for p in self.place(f, i.ops[1]):
                        yield f, i, p, i.get("vty"), i.ops[0]
                elif i.op == "call" and (i.callee_name() or "").startswith(("llvm.memcpy", "llvm.memmove")) or i.op == "call" and i.callee_name() in COPIES:
                    for p in self.place(f, i.ops[0]):
                        yield f, i, p, "copy", i.ops[1]
