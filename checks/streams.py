"""Standard streams are handed back and descriptors closed on every path (P26)."""
import absint
from absint import C, C0, C1, TOP, split, mkptr, isc
from roles import *

OPENS = {"pipe", "pipe2", "dup", "dup3", "open"}
FDS = OPENS | {"dup2", "close"}
STD = (0, 1, 2)


class Streams(App):
    """The state of the process's descriptors along a path: what each standard
    stream refers to ("orig" or a file of our own) and which descriptors the
    library opened and has not closed.  A descriptor obtained by duplicating a
    standard stream refers to whatever that stream referred to at the time."""
    name = "streams"
    cap = 40
    exit_cap = 200
    unroll = 8

    def __init__(self, mod, root):
        super().__init__(mod)
        self.root = root
        self.n = {"open": 0, "close": 0, "redirect": 0, "say": 0}

    def inline(self, eng, st, fr, inst, f):
        return bool(FDS & self.mod.closure(f.name)) or straight(self.mod, f)

    def start(self, st):
        for n, g in self.mod.globals.items():
            if not g["const"] and g.get("init", {}).get("k") == "zero":
                st.mem[(("g", n), ())] = ("zero",)
        for k in STD:
            st.ps["std%d" % k] = ("t", "std%d" % k)

    def fd(self, eng, st, fr, inst, tag, refers):
        self.n["open"] += 1
        s = st.fresh(("s", "call", fr, inst.fn.name, inst.id, tag), eng)
        st.setfact(s, 3)
        st.ps = dict(st.ps)
        st.ps["open"] = ("set", st.ps.get("open", ("set", frozenset()))[1] | {(s, refers)})
        return s

    def refers(self, eng, st, v):
        k = st.const(v) if v != TOP else None
        if k in STD:
            return st.ps["std%d" % k]
        for s, r in st.ps.get("open", ("set", ()))[1]:
            if s == v:
                return r
        return None

    def call(self, eng, st, fr, inst, name, args):
        w = where(inst.fn)
        uid = (fr, inst.fn.name, inst.id)
        if name in ("pipe", "pipe2"):
            bad = st.copy()
            b, p = split(args[0])
            x = self.fd(eng, st, fr, inst, "pipe0", ("t", "pipe", x0(fr, inst)))
            y = self.fd(eng, st, fr, inst, "pipe1", ("t", "pipe", x0(fr, inst)))
            if args[0] == TOP:
                raise absint.Broken("a pipe is stored in an unknown place")
            eng.write(st, args[0], "i32", x, uid)
            eng.write(st, mkptr(b, p + (("i", C1, 4),)), "i32", y, uid)
            return [(C0, st), (C(-1), bad)]
        if name in ("dup", "open"):
            bad = st.copy()
            r = self.refers(eng, st, args[0]) if name == "dup" else None
            return [(self.fd(eng, st, fr, inst, name, r or ("t", "other")), st), (C(-1), bad)]
        if name in ("dup2", "dup3"):
            k = st.const(args[1]) if args[1] != TOP else None
            r = self.refers(eng, st, args[0])
            if k not in STD:
                self.report("restored", w, "puts a descriptor in the place of another that is not known to be a standard stream", st)
                return None
            self.n["redirect"] += 1
            if r is None:
                self.report("restored", w, "puts something else than a descriptor it holds in the place of a standard stream", st)
            bad = st.copy()
            ps(st, **{"std%d" % k: r or ("t", "other")})
            return [(C(k), st)] + ([] if r == ("t", "std%d" % k) else [(C(-1), bad)])
        if name == "close":
            self.n["close"] += 1
            op = st.ps.get("open", ("set", frozenset()))[1]
            gone = [o for o in op if o[0] == args[0]]
            if not gone:
                self.report("closed", w, "closes a descriptor it does not hold" if st.const(args[0]) not in STD else "closes a standard stream", st)
            st.ps = dict(st.ps)
            st.ps["open"] = ("set", op - set(gone))
            return [(C0, st)]
        if name in PRINTS and "open" in st.ps:
            k = CHANNEL.get(name) if name in CHANNEL else {"stderr": 2, "stdout": 1}.get(stream_of(args[TO.get(name, 0)]))
            self.n["say"] += 1
            if k is not None and st.ps["std%d" % k] != ("t", "std%d" % k):
                self.report("said", w, "reports something while the stream it writes to is redirected, so that it is lost", st)
        return None

    def settled(self, eng, st, w, what="when it returns"):
        for k in STD:
            if st.ps["std%d" % k] != ("t", "std%d" % k):
                self.report("restored", w, "may leave %s redirected %s" % (("standard input", "standard output", "standard error")[k], what), st)
        if st.ps.get("open", ("set", ()))[1]:
            self.report("closed", w, "may leave a descriptor it opened open %s" % what, st)


def x0(fr, inst):
    return ("s", "call", fr, inst.fn.name, inst.id, "pipe0")


def stream_of(v):
    """name of the C stream object a value was loaded from"""
    if v[0] == "s" and v[1] in ("init", "hv") and v[3][0][0] == "g":
        return v[3][0][1]
    return None


CHANNEL = {"puts": 1, "printf": 1, "putchar": 1, "vprintf": 1, "perror": 2}
TO = {"fputs": 1, "fputc": 1, "fwrite": 3}


def run_streams(ctx):
    mod = ctx.mod
    ctx.rule("restored", "on every path each standard stream that was redirected refers to its original target again when the function returns")
    ctx.rule("closed", "every descriptor obtained from pipe or dup is closed exactly once on every path, and no other descriptor is closed")
    ctx.rule("said", "the library itself reports nothing while the stream it writes to is redirected")
    # the definition check: every function that redirects around a validator,
    # judged on its own or, when it only does half of it, in its callers
    low = lowest(mod, lambda f: has(mod, f, "dup2", VALID))
    ctx.need(low, "no function redirects a stream around a validator")
    todo = [(f, 0) for f in low]
    seen = set()
    while todo:
        f, up = todo.pop()
        if f.name in seen:
            continue
        seen.add(f.name)
        ana = Streams(mod, f.name)
        eng = ctx.engine(ana)
        for e in eng.run_root(f, ana.start, args={n: "nullable" for n, p in enumerate(f.params) if p["ty"] == "ptr" and n > 1}):
            ana.settled(eng, e.st, where(f))
        up_ = mod.callers(f.name)
        if ana.findings and up < 3 and up_ and f.name not in ("validate_structure",):
            todo += [(g, up + 1) for g in up_]
            continue
        ctx.absorb(ana)
        ctx.inst("restored", ana.n["redirect"])
        ctx.inst("closed", ana.n["open"] + ana.n["close"])
        ctx.inst("said", ana.n["say"])
    # the stream utility: what one redirects another hands back, for every stream
    names = {n: mod.fn(n, required=False) for n in ("stream_redirect", "stream_restore", "stream_cleanup_all")}
    red = names["stream_redirect"]
    if red is None:
        return
    for ks, second in [((k,), g) for k in STD for g in ("stream_restore", "stream_cleanup_all")] + [(STD, "stream_cleanup_all")]:
        g = names[second]
        if g is None:
            continue
        ana = Streams(mod, red.name)
        eng = ctx.engine(ana)
        eng.ana.stats["roots"] += [red.src, g.src]
        st = absint.State()
        ana.start(st)
        sts = [st]
        for k in ks:
            nxt = []
            for s in sts:
                fr = (("first", k),)
                s.env = {(fr, "a", 0): C(k)}
                for e in eng.run(red, fr, [s]):
                    s = e.st
                    if zero(eng, s, e.val) is True:
                        if s.ps["std%d" % k] == ("t", "std%d" % k):
                            ana.report("restored", where(red), "reports success without redirecting the stream", s)
                        nxt.append(s)
                    elif len(ks) == 1:
                        ana.settled(eng, s, where(red), "although it reports a failure")
            sts = nxt
        for s in sts:
            s.env = {}
            fr = (("then", 0),)
            if second == "stream_restore":
                s.env[(fr, "a", 0)] = C(ks[0])
            for x in eng.run(g, fr, [s]):
                ana.settled(eng, x.st, where(g))
        ctx.absorb(ana)
        ctx.inst("restored", ana.n["redirect"])
        ctx.inst("closed", ana.n["open"] + ana.n["close"])
