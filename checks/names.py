"""The environment variable help names is the one that is read (P09)."""
import re
import absint
from absint import C, C0, TOP, split, mkptr, isc, subst, mentions
from roles import *
from tables import GETENV

FMT = ("snprintf", "sprintf")
COPY = {"strcpy": 0, "strncpy": 0, "strlcpy": 0, "stpcpy": 0}
APPEND = {"strcat": 1, "strncat": 1, "strlcat": 1}
CH = ("s", "ch")
CASE = ("toupper", "tolower")


def builders(mod):
    """functions that put together the name of an option's environment variable"""
    out = set()
    for n, f in mod.defined.items():
        r = reads(mod)[n]
        if f.ret == "ptr" and {OPT + "env_name", ARG + "env_prefix"} <= r and OPT + "help" not in r and not mod.closure(n) & set(GETENV) \
                and not mod.closure(n) & {"malloc", "calloc", "realloc", "strdup"} and not has(mod, f, HANDLER) and takes(f, "argus_option_t"):
            out.add(n)
    return {n for n in out if any(g.name not in out for g in mod.callers(n))}


def same_value(v):
    """without conversions that keep a character's value apart from its width"""
    while v[0] == "op" and len(v) == 3 and (v[1].startswith(("sext", "zext", "trunc")) or v[1].startswith("as:")):
        v = v[2]
    return v


class Names(App):
    name = "names"
    cap = 4000
    exit_cap = 4000

    def __init__(self, mod):
        super().__init__(mod)
        self.who = 0
        self.cases = {}
        self.other = {}

    def inline(self, eng, st, fr, inst, f):
        return True

    def piece(self, eng, st, a):
        b, p = split(a)
        if b[0] == "g" and not p:
            t = self.mod.string_at(b[1])
            if t is not None:
                return ("lit", t.decode("latin1"))
        if zero(eng, st, ("op", "call:strlen", a)) is True:
            return ("lit", "")
        return ("arg", a)

    def pieces(self, eng, st, fmt, args):
        out = []
        args = list(args)
        for lit, conv in re.findall(r"([^%]*)(%[^a-zA-Z%]*[a-zA-Z%]|$)", fmt):
            out.append(("lit", lit))
            if conv == "%%":
                out.append(("lit", "%"))
            elif conv:
                a = args.pop(0) if args else TOP
                out.append(self.piece(eng, st, a) if conv == "%s" else (conv, a))
        return out

    def norm(self, ps_):
        out = []
        for k, v in ps_:
            if k == "lit" and not v:
                continue
            if k == "lit" and out and out[-1][0] == "lit":
                out[-1] = ("lit", out[-1][1] + v)
            else:
                out.append((k, v))
        return tuple(out)

    def put(self, st, dest, pcs, size):
        old = st.ps.get("txt%d" % self.who)
        ps(st, **{"txt%d" % self.who: ("t", dest, pcs, size)})
        return old

    def call(self, eng, st, fr, inst, name, args):
        if name in CASE:
            return [(("op", "call:" + name, same_value(args[0])), st)]
        key = "txt%d" % self.who
        if name in FMT:
            k = 2 if name == "snprintf" else 1
            b, p = split(args[k])
            fmt = self.mod.string_at(b[1]) if b[0] == "g" and not p else None
            pcs = self.norm(self.pieces(eng, st, fmt.decode("latin1"), args[k + 1:])) if fmt is not None else (("?", args[k]),)
            ps(st, **{key: ("t", args[0], pcs, args[1] if k == 2 else TOP)})
            return None
        g = self.mod.defined.get(name)
        if name in COPY or name in APPEND or g is not None and (g.src in ("safe_strcpy", "safe_strncpy", "safe_strcat") or copier(self.mod, g)):
            texts = [a for a in args if a[0] in ("p", "s")]
            if len(texts) >= 2:
                app = "cat" in (g.src if g else name)
                old = st.ps.get(key)
                before = old[2] if app and old and old[1] == texts[0] else () if not app else (("?", TOP),)
                lim = [a for a in args if a not in texts[:2]]
                ps(st, **{key: ("t", texts[0], self.norm(before + (self.piece(eng, st, texts[1]),)), lim[0] if lim else TOP)})
                if g is not None:
                    return eng.opaque(st, fr, inst.fn, inst, g, args)
        return None

    # what the text is turned into, character by character
    def loaded(self, eng, st, fr, inst, ptr, val):
        if inst.ty == "i8":
            t = st.ps.get("txt%d" % self.who)
            if t and split(ptr)[0] in (split(t[1])[0],) or split(ptr)[0][:2] == ("s", "phi"):
                ps(st, chr=("t", ptr, val))

    def store(self, eng, st, fr, inst, ptr, val):
        t = st.ps.get("txt%d" % self.who)
        c = st.ps.get("chr")
        if t is None or c is None or c[1] != ptr:
            if t is not None and split(ptr)[0] == split(t[1])[0]:
                self.other.setdefault(self.who, set()).add((tuple(x[1] for x in split(ptr)[1] if x[0] == "i"), val))
            return
        memo = {}
        v = subst(same_value(val), c[2], CH, memo)
        conds = frozenset((subst(k, c[2], CH, {}), f) for k, f in st.facts.items() if mentions(k, c[2], {}))
        rels = frozenset()
        self.cases.setdefault(self.who, set()).add((v, conds))

    def outcome(self, eng, st, val):
        z = zero(eng, st, val)
        if z is True:
            return ("none",)
        t = st.ps.get("txt%d" % self.who)
        if t is not None and split(val)[0] == split(t[1])[0]:
            return ("text", t[2], t[3], self.walked(st))
        return ("given", self.piece(eng, st, val))

    def walked(self, st):
        return ("wk%d" % self.who) in st.ps

    def backedge(self, eng, st, fr, f, hdr):
        pass

    def loopexit(self, eng, st, fr, f, hdr):
        c = st.ps.get("chr")
        if c is not None and zero(eng, st, c[2]) is True:
            ps(st, **{"wk%d" % self.who: C(1)})


def copier(mod, g):
    return False


def ev(t, b):
    """value of a character expression for the byte b"""
    if t == CH:
        return b
    if t[0] == "c":
        return t[1]
    if t[0] == "op" and len(t) == 3:
        x = ev(t[2], b)
        if x is None:
            return None
        if t[1] == "call:toupper":
            return x - 32 if 97 <= x <= 122 else x
        if t[1] == "call:tolower":
            return x + 32 if 65 <= x <= 90 else x
        if t[1].startswith(("sext", "zext", "trunc", "as:")):
            return x
    if t[0] == "op" and len(t) == 4 and t[1] in ("add", "sub", "and", "or", "xor"):
        x, y = ev(t[2], b), ev(t[3], b)
        if x is None or y is None:
            return None
        return {"add": x + y, "sub": x - y, "and": x & y, "or": x | y, "xor": x ^ y}[t[1]]
    return None


def mapping(cases):
    """the character transformation as a table over plain characters, or None"""
    out = []
    for b in range(1, 128):
        vals = set()
        for v, conds in cases:
            ok = True
            for k, (lo, hi, ne) in conds:
                x = ev(k, b)
                if x is None:
                    continue
                if not lo <= x <= hi or x in ne:
                    ok = False
            if ok:
                vals.add(ev(v, b))
        if None in vals or len(vals) > 1:
            return None
        out.append(vals.pop() if vals else b)
    return tuple(out)


def run_names(ctx):
    mod = ctx.mod
    ctx.rule("agree", "on every combination of prefix, declared name and flags, the function help uses to name an option's environment variable gives the same pieces in the same order, the same size limit and the same treatment of each character as the one the parser uses")
    ctx.rule("through", "help shows an environment variable's name only as that function gives it")
    bs = builders(mod)
    ctx.need(bs, "no function names an option's environment variable")
    inenv = {n for n in mod.defined if mod.closure(n) & set(GETENV)}
    readers = sorted(n for n in bs if any(g.name in inenv for g in mod.callers(n)))
    shown = sorted(n for n in bs if any(g.name not in inenv and g.name not in bs for g in mod.callers(n)))
    ctx.need(readers, "no function names the environment variable that is read")
    ctx.need(shown, "no function names the environment variable for display")
    for r in readers:
        for s in shown:
            ctx.inst("agree")
            if r != s:
                product(ctx, mod, mod.defined[r], mod.defined[s])
    # the declared name used directly; a name that may be cut short on the way
    inside = set().union(*[reach(mod, b) for b in bs])
    for f in mod.defined.values():
        if f.name in inside or f.name in inenv:
            continue
        for i in f.all_insts():
            name = i.callee_name() if i.op == "call" else None
            if name in (None, "strcmp", "strncmp", "strlen"):
                continue
            src = [x for o in i.ops for x in origins(mod, f, o)]
            if "declared" in src:
                ctx.violation("through", "%s, call of %s" % (where(f), name), "uses the declared name of the environment variable as it is, without prefix and flags")
            if any(x in bs for x in src):
                ctx.inst("through")
                size = i.ops[1] if name == "snprintf" else i.ops[2] if name in ("strncpy", "strncat") else None
                if size is not None and size["k"] == "c" and size.get("v", 0) != 0:
                    ctx.violation("through", "%s, call of %s" % (where(f), name), "may show only the beginning of the variable's name")


def origins(mod, f, o, seen=None):
    """where a register's text comes from: 'declared' or the function that gave it"""
    seen = set() if seen is None else seen
    if o["k"] != "v" or o["n"] in seen:
        return
    seen.add(o["n"])
    x = f.insts.get(o["n"])
    if x is None:
        return
    if x.op == "load":
        if ("field", OPT + "env_name") in [tuple(y) for y in mod._ptrsteps(f, x.ops[0])]:
            yield "declared"
    elif x.op == "call":
        yield x.callee_name()
    elif x.op == "phi":
        for _, p in x.ops:
            yield from origins(mod, f, p, seen)
    elif x.op in ("select", "bitcast"):
        for p in x.ops:
            yield from origins(mod, f, p, seen)


def product(ctx, mod, r, s):
    ana = Names(mod)
    eng = ctx.engine(ana)
    ana.who = 0
    args = {n: "nullable" for n in range(0)}
    first = eng.run_root(r)
    ctx.need(first, "%s never returns" % r.src)
    ctx.absorb(ana)
    pairs = []
    fr = (("second", 0),)
    for e in first:
        ana.who = 0
        a = ana.outcome(eng, e.st, e.val)
        st = e.st.copy()
        st.ps = {k: v for k, v in st.ps.items() if k != "chr"}
        for n in range(len(s.params)):
            v = None
            for m in range(len(r.params)):
                if r.sig_of(m).replace("const ", "") == s.sig_of(n).replace("const ", ""):
                    v = st.env.get(((), "a", m), ("s", "arg", m))
            st.env[(fr, "a", n)] = v if v is not None else ("s", "arg", 50 + n)
        ana.who = 1
        for e2 in eng.run(s, fr, [st]):
            pairs.append((a, ana.outcome(eng, e2.st, e2.val), absint.path_of(e2.st)))
    tables = []
    for k in (0, 1):
        cs = ana.cases.get(k, set())
        tables.append(mapping(cs) or frozenset(cs))
    for a, b, tr in pairs:
        ctx.inst("agree")
        t = None
        if a[0] != b[0]:
            kind = {"none": "no variable", "given": "the declared name as it is", "text": "a name put together"}
            t = "shows %s where %s uses %s" % (kind[b[0]], r.src, kind[a[0]])
        elif a[0] == "given" and a[1] != b[1]:
            t = "shows another name than %s uses" % r.src
        elif a[0] == "text":
            if a[1] != b[1]:
                t = "puts the name together differently from %s" % r.src
            elif TOP not in (a[2], b[2]) and a[2] != b[2]:
                t = "cuts the name at another length than %s" % r.src
            elif a[3] != b[3]:
                t = "treats the characters of the name differently from %s" % r.src
            elif a[3] and (tables[0] != tables[1] or ana.other.get(0) != ana.other.get(1)):
                t = "changes other characters of the name than %s" % r.src
        if t:
            ctx.violation("agree", where(s), t, tr)
    ctx.count("paths_compared", len(pairs))
