"""What the library writes to (P27)."""
from outputs import called, REQUESTS
from places import Places
from roles import *
import macros

WRITES = {"memcpy": 0, "memmove": 0, "mempcpy": 0, "memset": 0, "strcpy": 0, "strncpy": 0, "stpcpy": 0, "strcat": 0, "strncat": 0, "sprintf": 0, "snprintf": 0,
          "vsprintf": 0, "vsnprintf": 0, "qsort": 0, "strtok": 0, "strtok_r": 0, "strsep": 0, "read": 1, "fread": 0, "fgets": 0, "gets": 0, "strlcpy": 0, "strlcat": 0,
          "bzero": 0, "swab": 1, "free": 0, "realloc": 0}
TEXT = {"strcpy", "strncpy", "stpcpy", "strcat", "strncat", "sprintf", "snprintf", "vsprintf", "vsnprintf", "strtok", "strtok_r", "strsep", "strlcpy", "strlcat"}
ENVIRON = {"setenv", "putenv", "unsetenv", "clearenv"}
STATE = {OPT + x for x in ("value", "value_count", "value_capacity", "is_set", "is_allocated")}
OWN = {ARG + x for x in ("error_code", "subcommand_stack", "subcommand_depth")}


class Effects:
    def __init__(self, mod):
        self.mod = mod
        self.pl = Places(mod, mod.defined)
        self.api = set()
        self.local = {}
        for f, i, p, ty, o in self.pl.stores():
            if p[0] == "alloca" and ty != "copy":
                self.local.setdefault(p[1:], []).append((f, o))

    def borrowed(self):
        """places of the values that may hold a text of the application: what is written through them is written there"""
        out = set()
        for f, i, p, ty, o in self.pl.stores():
            if p == ("f", OPT + "value") or p[0] == "elem" and ("f", OPT + "value") in p[2]:
                rs = self.pl.roots(f, o)
                if ty == "copy":
                    rs = set().union(*[self.pl.roots(g, v) for q in self.pl.place(f, o) if q[0] == "alloca" for g, v in self.local.get(q[1:], ())])
                for r in rs:
                    if argument(self.mod, r) or r == ("ext", "getenv") or r[0] == "load" and any(q[0] == "f" and q[1].startswith(OPT) and q[1] != OPT + "value" for q in r[1]):
                        out.add(p)
        return out

    def targets(self, f, o):
        """objects an address may lie in"""
        out = set()
        for p in self.pl.place(f, o):
            out |= self.widen(p, 0)
        return out

    def widen(self, p, n):
        """follow pointers kept in local variables to what was put there"""
        if p[0] == "elem" and n < 4:
            locs = [x for x in p[2] if x[0] == "alloca"]
            if locs:
                out = {("elem", p[1], frozenset(x for x in p[2] if x[0] != "alloca"))} if len(locs) < len(p[2]) else set()
                for x in locs:
                    for f, o in self.local.get(x[1:], ()):
                        for q in self.pl.deref(self.pl.roots(f, o), p[1]):
                            out |= self.widen(q, n + 1)
                return out
        return {p}

    def writes(self):
        for n in sorted(self.pl.scope):
            f = self.mod.defined[n]
            for i in f.all_insts():
                if i.op == "store":
                    yield f, i, "writes", self.targets(f, i.ops[1])
                elif i.op == "call":
                    c = i.callee_name() or ""
                    k = WRITES.get(c, 0 if c.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")) else None)
                    if k is not None and k < len(i.ops):
                        o = i.ops[k]
                        if c in ("free", "realloc"):
                            t = set()
                            for r in self.pl.roots(f, o):
                                t |= {("block", r)}
                            yield f, i, "releases", t
                        elif c.startswith("llvm") or o["k"] == "v":
                            yield f, i, "writes", self.targets(f, o)
                        else:
                            yield f, i, "writes", self.targets(f, o)


def text(p):
    """how a written object is described, None when it may be written"""
    k = p[0]
    if k == "f":
        s, fld = p[1].rsplit(".", 1)
        if s + "." == OPT:
            return None if p[1] in STATE else "the %s of an option definition" % fld
        if s + "." == ARG:
            return None if p[1] in OWN or fld in ("helper", "options", "version", "description", "program_name", "env_prefix") else "the parser's %s" % fld
        if s.startswith(("validator_entry_s", "validator_data")):
            return "the %s of a validator" % fld
        return None
    if k == "elem":
        for q in p[2]:
            t = owned(q)
            if t:
                return t
        return None
    if k == "arg":
        return "arg"
    if k == "ext":
        return "the environment" if p[1] in ("getenv", "secure_getenv") else None
    return None


def owned(q):
    """what a pointer kept at q leads to, when that is not the library's"""
    if q[0] == "f":
        s, fld = q[1].rsplit(".", 1)
        if q[1] == OPT + "value" or q[1] in ("argus_pair_s.value", "argus_pair_s.key"):
            return None
        if s + "." == OPT and fld != "sub_options":
            return "the text or list an option definition gives as its %s" % fld
        if s + "." == ARG and fld in ("program_name", "description", "version", "env_prefix"):
            return "the text given as the parser's %s" % fld
        if s.startswith(("validator_", "choices")):
            return "the data of a validator"
        return None
    if q[0] == "elem":
        for r in q[2]:
            t = owned(r)
            if t:
                return t
        return None
    if q[0] == "arg":
        return "arg"
    if q[0] == "global" and q[1] == "environ":
        return "the environment"
    return None


def run_effects(ctx):
    mod = ctx.mod
    for r, t in (("definition", "nothing but an option's value, counts and set state is written in an option definition"),
                 ("argument", "no argument text, nor the list of arguments, is written"),
                 ("environment", "the environment is not changed"),
                 ("display", "displaying writes nothing to options or parser")):
        ctx.rule(r, t)
    E = Effects(mod)
    held = E.borrowed()
    show = called(mod, [r for r in REQUESTS if r != "argus_exec"])
    n = 0
    for f, i, verb, ts in E.writes():
        n += 1
        w = where(f)
        for t in sorted(ts, key=str):
            if t[0] == "block":
                r = t[1]
                if r[0] == "load":
                    d = next((x for x in (owned(q) for q in r[1]) if x), None)
                else:
                    d = "arg" if r[0] == "arg" else "the environment" if r == ("ext", "getenv") else None
                a = r
            else:
                d, a = text(t), t
                if d is None and t[0] == "elem" and (t[1] == "i8" or i.callee_name() in TEXT if i.op == "call" else t[1] == "i8" or t[1] is None and i.get("vty") == "i8"):
                    if any(q in held for q in t[2]):
                        d = "through a value the text it was given as"
            if f.name in show:
                ctx.inst("display")
                if t[0] == "f" and t[1].startswith((OPT, ARG)):
                    ctx.violation("display", w, "%s %s while displaying" % (verb, t[1].rsplit(".", 1)[1]), str(i.loc))
            if d == "arg":
                d = argument(mod, a)
                ctx.inst("argument")
                if d:
                    ctx.violation("argument", w, "%s %s" % (verb, d), str(i.loc))
                continue
            ctx.inst("definition")
            if d == "the environment":
                ctx.violation("environment", w, "%s %s" % (verb, d), str(i.loc))
            elif d:
                ctx.violation("definition", w, "%s %s" % (verb, d), str(i.loc))
    ctx.inst("environment")
    for n2 in sorted(mod.defined):
        for i in mod.defined[n2].all_insts():
            if i.op == "call" and i.callee_name() in ENVIRON:
                ctx.violation("environment", where(mod.defined[n2]), "calls %s" % i.callee_name(), str(i.loc))
    ctx.setcount("writes", n)


def argument(mod, p):
    """is the root parameter one the application's texts come in by?"""
    if p[0] == "elem":
        for q in p[2]:
            d = argument(mod, q)
            if d:
                return d
        return None
    if p[0] != "arg":
        return None
    f = mod.defined[p[1]]
    ty = f.sig_of(p[2])
    if "char" in ty and "*" in ty:
        return "the text given as parameter %s of %s" % (f.params[p[2]] if isinstance(f.params[p[2]], str) else p[2], f.src)
    return None
