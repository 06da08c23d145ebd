"""No state survives in hidden variables (P28)."""
import absint
from absint import C, C0, TOP, split, mkptr, isc
from roles import *

READ_TEXT = {"strlen": (0,), "strcmp": (0, 1), "strncmp": (0, 1), "strcpy": (1,), "strncpy": (1,), "strcat": (0, 1), "strncat": (0, 1), "strdup": (0,),
             "strchr": (0,), "strrchr": (0,), "strstr": (0, 1), "puts": (0,), "fputs": (0,), "printf": None, "getenv": (0,), "strspn": (0,), "strcspn": (0,),
             "atoi": (0,), "atof": (0,), "strtol": (0,), "strtod": (0,), "strtoll": (0,), "strcasecmp": (0, 1), "memcmp": (0, 1), "memcpy": (1,), "memmove": (1,),
             "fprintf": None, "snprintf": None, "sprintf": None, "strtok": (0,)}
SKIP = {"printf": 0, "fprintf": 1, "snprintf": 2, "sprintf": 1}
# library routines that remember something between calls
STATEFUL = {"strtok", "rand", "srand", "random", "srandom", "drand48", "setlocale", "getopt", "getopt_long", "strerror_r", "mblen", "mbtowc", "wctomb",
            "mbrlen", "asctime", "ctime", "localtime", "gmtime", "tmpnam", "getenv_s", "atexit", "on_exit", "signal", "sigaction"}
# what an application can call or put into a table
ENTRY = ("argus_", "_argus_", "_handler", "_validator", "format_", "free_", "default_free", "validate_", "parse_")
OUTSIDE = {"stdout", "stderr", "stdin", "environ"}


def globals_used(f):
    out = {}

    def walk(o, i):
        if isinstance(o, dict):
            if o.get("k") == "g":
                out.setdefault(o["n"], []).append(i)
            for v in o.values():
                walk(v, i)
        elif isinstance(o, list):
            for v in o:
                walk(v, i)
    for i in f.all_insts():
        walk(i.ops, i)
        if i.op == "getelementptr":
            walk(i.get("steps"), i)
        if i.op == "phi":
            walk(i.d, i)
    return out


class Hidden(App):
    """What a run of a function reads of a hidden variable before having written
    it itself, and whether such a part is back to what it was when it returns."""
    name = "hidden"
    cap = 40
    exit_cap = 200

    def __init__(self, mod, root, hid, users, direct=None):
        super().__init__(mod)
        self.root = root
        self.hid = hid          # name -> global
        self.direct = direct or {}
        self.users = users      # functions that use one, directly or not
        self.old = {}           # cells read before they were written: (base, path) -> (ty, where)
        self.n = {"read": 0, "write": 0}

    def inline(self, eng, st, fr, inst, f):
        def names(o):
            if isinstance(o, dict):
                return o.get("k") == "g" and o.get("n") in self.hid or any(names(v) for v in o.values())
            return isinstance(o, list) and any(names(v) for v in o)
        return f.name in self.users or straight(self.mod, f) or names(inst.ops)

    def round(self, name):
        """comes back to the function analysed, and touches its variables only there"""
        mine = self.direct.get(self.root)
        return name not in self.users and mine and {n for n, u in self.direct.items() if u & mine and n in self.mod.closure(name)} == {self.root}

    def start(self, st):
        for n, g in self.hid.items():
            k = g.get("init", {}).get("k")
            if k == "zero" and g["ty"].startswith("["):
                st.mem[(("g", n), ())] = ("zero",)
            # a number may be anything here: the function may be called while
            # another run of it is under way

    def first(self, st, ptr):
        """is the place still as it was at the start?"""
        b, p = split(ptr)
        if ptr == TOP or b[0] != "g" or b[1] not in self.hid:
            return False
        for n in range(len(p), -1, -1):
            e = st.mem.get((b, p[:n]))
            if e is not None:
                if e[0] == "rd":
                    continue
                return e == ("zero",) and n == 0
        return True

    def load(self, eng, st, fr, inst, ptr):
        b, p = split(ptr)
        if b[0] == "g" and b[1] in self.hid:
            self.n["read"] += 1
            if self.first(st, ptr):
                if any(s[0] == "i" and not isc(s[1]) for s in p):
                    self.report("fresh", where(inst.fn), "reads what an earlier call left in the hidden variable %s" % self.hid[b[1]]["src"], st)
                else:
                    self.old[(b, p)] = (inst.ty, where(inst.fn))

    def store(self, eng, st, fr, inst, ptr, val):
        b, p = split(ptr)
        if b[0] == "g" and b[1] in self.hid:
            self.n["write"] += 1

    def call(self, eng, st, fr, inst, name, args):
        if name in READ_TEXT:
            w = READ_TEXT[name]
            idx = range(SKIP[name], len(args)) if w is None else w
            for k in idx:
                if k < len(args) and self.first(st, args[k]):
                    self.report("fresh", where(inst.fn), "reads what an earlier call left in the hidden variable %s" % self.hid[split(args[k])[0][1]]["src"], st)
        f = self.mod.defined.get(name)
        if f is not None and (name in eng.stack and name in self.users or self.round(name)):
            # by induction it leaves the variable as it was
            mine = self.hid if name in self.users else self.direct[self.root]
            keep = {l: e for l, e in st.mem.items() if l[0][0] == "g" and l[0][1] in mine}
            v, s = eng.opaque(st, fr, inst.fn, inst, f, args)[0]
            for l in [l for l in s.mem if l[0][0] == "g" and l[0][1] in mine]:
                del s.mem[l]
            s.mem.update(keep)
            return [(v, s)]
        if f is not None and not self.inline(eng, st, fr, inst, f):
            for a in args:
                if self.first(st, a):
                    self.report("fresh", where(inst.fn), "hands out what an earlier call left in the hidden variable %s" % self.hid[split(a)[0][1]]["src"], st)
        return None

    def settle(self, eng, e, w):
        s = e.st
        if e.val is not None and e.val[0] == "p" and self.first(s, e.val):
            self.report("fresh", w, "returns what an earlier call left in the hidden variable %s" % self.hid[split(e.val)[0][1]]["src"], s)
        for (b, p), (ty, by) in self.old.items():
            g = self.hid[b[1]]
            want = ("s", "init", ("E0",), (b, p), ty)
            if g.get("init", {}).get("k") == "zero" and g["ty"].startswith("["):
                want = C0
            now = eng.read(s, mkptr(b, p), ty)
            if now != want and truth(eng, s, "eq", now, want) is not True:
                self.report("back", by, "reads the hidden variable %s, which %s may leave changed for later calls" % (g["src"], w.split(" ")[0]), s)


def run_hidden(ctx):
    mod = ctx.mod
    ctx.rule("enumerated", "every variable of the library that outlives a call and is not constant is one whose use was analysed")
    ctx.rule("fresh", "text kept in a hidden variable is written by the call that reads, returns or hands it out")
    ctx.rule("back", "a hidden variable that is read before it is written holds the same value again when the operation returns, on every path")
    ctx.rule("stateless", "no library routine is used that remembers something of earlier calls")
    ctx.rule("errno", "errno is read only where a call that reports through it has failed or it was cleared before")
    hid = {n: g for n, g in mod.globals.items() if not g["const"] and n not in OUTSIDE and not n.startswith("llvm.")}
    users = {}
    for n, f in mod.defined.items():
        u = {x for x in globals_used(f) if x in hid}
        if u:
            users[n] = u
    for r in ("enumerated", "fresh", "back"):
        ctx.inst(r, len(mod.globals))       # every variable was looked at, whether or not any qualifies
    for n, g in hid.items():
        ctx.inst("enumerated")
        if not g["internal"] and "init" not in g:
            ctx.violation("enumerated", n, "uses a variable of another library, %s, that may change between calls" % n)
    allu = {n for n in mod.defined if (mod.closure(n) | {n}) & set(users)}
    todo = [(mod.defined[n], 0) for n in sorted(users)]
    seen = set()
    while todo:
        f, up = todo.pop()
        if f.name in seen:
            continue
        seen.add(f.name)
        ana = Hidden(mod, f.name, hid, set(users) | (allu & reach(mod, f.name) if up else set()), users)
        eng = ctx.engine(ana)

        def setup(st):
            ana.start(st)
        exits = eng.run_root(f, setup, args={n: "nullable" for n in range(2, len(f.params))})
        for e in exits:
            ana.settle(eng, e, where(f))
        up_ = [g for g in mod.callers(f.name) if g.name != f.name]
        # what a function keeps to itself has to be right in that function
        own = f.name in users and all(hid[x].get("fn") for x in users[f.name])
        if ana.findings and up < 4 and up_ and not own and not (up and f.name.startswith("argus_")):
            todo += [(g, up + 1) for g in up_]
            continue
        if ana.findings and not up_ and not any(f.src.startswith(p) or f.src.endswith(p) for p in ENTRY):
            ctx.notes.append("%s keeps state in a variable and is not part of any operation" % f.src)
            continue
        ctx.absorb(ana)
        ctx.inst("fresh", ana.n["read"] + 1)
        ctx.inst("back", len(ana.old) + 1)
    # routines with a memory of their own
    for f in mod.defined.values():
        for i in f.all_insts():
            if i.op == "call":
                ctx.inst("stateless")
                n = i.callee_name()
                if n in STATEFUL:
                    ctx.violation("stateless", "%s, call of %s" % (where(f), n), "uses %s, whose result depends on earlier calls" % n)
    for f in mod.defined.values():
        if any(i.op == "call" and i.callee_name() == "__errno_location" for i in f.all_insts()):
            ana = Errno(mod)
            eng = ctx.engine(ana)
            eng.run_root(f)
            ctx.absorb(ana)
            ctx.inst("errno", ana.reads + 1)
    ctx.inst("errno", 0 if ctx.rules["errno"]["instances"] else 1)


class Errno(App):
    """errno is meaningful only after it was cleared or a call has failed"""
    name = "errno"
    cap = 40

    def __init__(self, mod):
        super().__init__(mod)
        self.reads = 0

    def inline(self, eng, st, fr, inst, f):
        return straight(self.mod, f)

    def store(self, eng, st, fr, inst, ptr, val):
        if ptr == ("s", "ext", "__errno_location"):
            ps(st, errno=("t", "set"))

    def failed(self, st):
        """does the path show that a system call has just failed?"""
        return any(l[-1] in ("read", "dup", "dup2", "pipe", "fcntl", "close") and st.fact(k)[1] < 0
                   for k in st.facts for l in absint.leaves(k) if l[1] == "call" and (k == l or k[0] == "op" and k[1].startswith("trunc") and k[2] == l))

    def branch(self, eng, st, fr, inst, cond, truth):
        if self.failed(st):
            ps(st, errno=("t", "set"))

    def load(self, eng, st, fr, inst, ptr):
        if ptr == ("s", "ext", "__errno_location"):
            self.reads += 1
            ok = st.ps.get("errno") == ("t", "set") or self.failed(st)
            if not ok:
                self.report("errno", where(inst.fn), "reads errno although nothing shows that this call set it", st)
