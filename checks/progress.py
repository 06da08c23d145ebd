"""Every loop ends (P35)."""
from roles import *
from ir import operands
from places import gepfield

SEARCH = {"strchr", "strrchr", "strstr", "strpbrk", "memchr", "strcasestr", "strchrnul"}
CONSUME = {"read", "recv", "fread", "fgets", "getline", "getc", "fgetc", "getchar", "readdir", "strtok", "strtok_r", "strsep"}
CASTS = ("sext", "zext", "trunc", "bitcast", "freeze", "ptrtoint", "inttoptr")
INF = float("inf")
FLIP = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "eq": "eq", "ne": "ne"}
NEG = {"slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt", "eq": "ne", "ne": "eq"}


class Loop:
    def __init__(self, mod, f, h):
        self.mod, self.f, self.h = mod, f, h
        self.body = f.loops[h]
        self.latches = [t for t, x in f.back if x == h]
        self.phis = {i.id: i for i in f.blocks[h] if i.op == "phi"}
        self._ways, self.subs, self.motions, self.sets = None, {}, {}, {}
        self.rep = self.congruent()
        self.line = next((i.loc for b in [h] + sorted(self.body) for i in f.blocks[b] if i.loc and i.op != "dbg"), None)

    def every(self, b):
        """every way round passes block b"""
        if b == self.h:
            return True
        seen, w = set(), [self.h]
        while w:
            x = w.pop()
            for s in self.f.succ[x]:
                if s == self.h:
                    return False
                if s in self.body and s != b and s not in seen:
                    seen.add(s)
                    w.append(s)
        return True

    def tests(self):
        """(condition, value that leaves) of which one holds on every way round"""
        out = []
        for b in sorted(self.body):
            t = self.f.blocks[b][-1]
            ss = self.f.succ[b]
            if all(s in self.body for s in ss) or not self.every(b):
                continue
            if t.op == "br" and t.ops and len(ss) == 2:
                leave = ss[0] not in self.body
                self.conj(t.ops[0], leave, out, set())
            elif t.op == "switch":
                out.append((t.ops[0], None))
        return out

    def conj(self, o, leave, out, seen):
        """o == leave leaves the loop; add the tests that each suffice for it"""
        if o["k"] != "v" or o["n"] in seen:
            return
        seen.add(o["n"])
        x = self.f.insts[o["n"]]
        if x.op == "xor" and x.ops[1]["k"] == "c":
            return self.conj(x.ops[0], not leave, out, seen)
        if x.op in ("freeze", "zext", "trunc"):
            return self.conj(x.ops[0], leave, out, seen)
        if x.op == "phi" and x.id not in self.phis:
            for pb, v in x.ops:
                if v["k"] == "c":
                    if bool(int(v["v"]) & 1) == leave:
                        t = self.f.blocks[pb][-1]
                        ss = self.f.succ[pb]
                        if t.op == "br" and len(ss) == 2:
                            self.conj(t.ops[0], ss[0] == x.block, out, seen)
                else:
                    self.conj(v, leave, out, seen)
            return
        if x.op == ("or" if leave else "and"):
            for v in x.ops:
                self.conj(v, leave, out, seen)
            return
        if x.op == "select":
            # c ? a : b with a constant arm: and / or
            for k in (1, 2):
                v = x.ops[k]
                if v["k"] == "c" and bool(int(v["v"]) & 1) == leave:
                    self.conj(x.ops[0], k == 1, out, seen)
                    self.conj(x.ops[3 - k], leave, out, seen)
            return
        if x.op == "icmp" and x.ops[1]["k"] == "c" and x.ops[0]["k"] == "v" and int(x.ops[1]["v"]) == 0 and x.get("pred") in ("ne", "eq"):
            y = self.f.insts[x.ops[0]["n"]]
            if y.op == "zext" and y.get("from") == "i1":
                return self.conj(y.ops[0], leave if x.get("pred") == "ne" else not leave, out, seen)
        out.append((o, leave))


class Delta:
    """how far a loop variable is from its value at the head of the loop, on
    one way round: (variable, lowest, highest) or None"""

    def __init__(self, L, path):
        self.L, self.path = L, path
        self.pred = {b: a for a, b in zip(path, path[1:])}
        self.memo = {}

    def of(self, o, n=0):
        """set of (variable id, lo, hi) / ("list", id) / ("const", c) / None"""
        if n > 40:
            return {None}
        if o["k"] == "c":
            return {("set", None, int(o["v"]), 0) if "v" in o and o["v"] is not None else None}
        if o["k"] != "v":
            return {("set", (o["k"], o.get("n")), 0, 0)}
        x = self.L.f.insts[o["n"]]
        if x.block not in self.L.body:
            return {("set", ("v", x.id), 0, 0)}
        if x.id in self.memo:
            return self.memo[x.id]
        self.memo[x.id] = {None}
        r = self.calc(x, n)
        self.memo[x.id] = r
        return r

    def calc(self, x, n):
        L = self.L
        if x.op == "phi":
            if x.block == L.h:
                return {(L.rep[x.id], 0, 0)}
            if x.block in L.f.loops:                   # a loop inside this one: entered with .., then moved
                init, back = set(), set()
                for pb, v in x.ops:
                    if (pb, x.block) in L.f.back:
                        back.add((pb, v["n"] if v["k"] == "v" else None))
                    else:
                        init |= self.of(v, n + 1)
                inner = L.inner(x.block)
                out = set()
                for pb, vn in back:
                    if inner.bound(x.id, set()) is None:
                        return {None}
                for src, (lo, hi) in inner.bound(x.id, set()).items():
                    lo = 0 if lo == 0 else lo
                    at = init if src == x.id else set().union(*[self.of(v, n + 1) for pb, v in inner.phis[src].ops if (pb, x.block) not in L.f.back])
                    out |= {(d[0], d[1] + lo, d[2] + hi) if d and len(d) == 3 else None for d in at}
                return out
            if x.block in self.pred:
                v = next((v for pb, v in x.ops if pb == self.pred[x.block]), None)
                if v is not None:
                    return self.of(v, n + 1)
            return set().union(*[self.of(v, n + 1) for _, v in x.ops])
        if x.op == "select":
            return self.of(x.ops[1], n + 1) | self.of(x.ops[2], n + 1)
        if x.op in ("add", "sub"):
            a, b = x.ops
            if x.op == "add" and a["k"] == "c":
                a, b = b, a
            if b["k"] == "c":
                c = int(b["v"]) * (1 if x.op == "add" else -1)
                return {(d[0], d[1] + c, d[2] + c) if d and len(d) == 3 else (d[0], d[1], d[2] + c, 0) if d and len(d) == 4 else None for d in self.of(a, n + 1)}
            up = set()
            for p, q in ((a, b), (b, a)) if x.op == "add" else ((a, b),):
                ds = self.of(p, n + 1)
                if all(d and len(d) == 3 for d in ds) and ds:
                    s = L.sign(q)
                    lo, hi = (s if x.op == "add" else (-s[1], -s[0]))
                    return {(d[0], d[1] + lo, d[2] + hi) for d in ds}
            return {None}
        if x.op == "getelementptr":
            ds = self.of(x.ops[0], n + 1)
            if not all(d and len(d) == 3 for d in ds):
                return {None}
            lo = hi = 0
            if any("i" not in s for s in x.get("steps")):
                return {None}
            for o in (s["i"] for s in x.get("steps")):
                if o["k"] == "c":
                    lo += int(o["v"])
                    hi += int(o["v"])
                else:
                    s = L.sign(o)
                    lo, hi = lo + s[0], hi + s[1]
            return {(d[0], d[1] + lo, d[2] + hi) for d in ds}
        if x.op in ("sext", "zext", "trunc", "bitcast", "freeze"):
            return self.of(x.ops[0], n + 1)
        if x.op in ("mul", "shl"):
            ds = self.of(x.ops[0], n + 1)
            c = x.ops[1]
            if c["k"] == "c" and int(c["v"]) >= (2 if x.op == "mul" else 1):
                return {("scaled", d[0]) if d and len(d) == 3 and d[1] >= 0 else None for d in ds}
            return {None}
        if x.op == "load":
            r = L.through(x.ops[0])
            if len(r) == 1 and r <= set(L.phis):
                return {("list", L.rep[next(iter(r))])}
            return {None}
        if x.op == "call" and x.callee_name() in SEARCH and x.ops:
            return {(d[0], d[1], INF) if d and len(d) == 3 else None for d in self.of(x.ops[0], n + 1)}
        return {None}


def addr_roots(L, o, out, seen):
    """loop variables an address is computed from"""
    if o["k"] != "v" or o["n"] in seen:
        return
    seen.add(o["n"])
    x = L.f.insts[o["n"]]
    if x.block not in L.body:
        return
    if x.op == "phi":
        if x.block == L.h:
            out.add(x.id)
            return
        for _, v in x.ops:
            addr_roots(L, v, out, seen)
        return
    if x.op in ("icmp", "fcmp", "alloca"):
        return
    for v in operands(x):
        addr_roots(L, v, out, seen)


def _through(self, o):
    out = set()
    addr_roots(self, o, out, set())
    return out


def _congruent(self):
    """loop variables that always carry the same value"""
    rep = {i: 0 for i in self.phis}
    while True:
        key = {}
        for i, x in self.phis.items():
            key[i] = (rep[i], x.ty) + tuple(self.canon(v, rep) for _, v in sorted(x.ops, key=lambda t: t[0]))
        names = {}
        new = {i: names.setdefault(k, len(names)) for i, k in sorted(key.items())}
        if len(set(new.values())) == len(set(rep.values())):
            first = {}
            return {i: first.setdefault(c, i) for i, c in sorted(new.items())}
        rep = new


def _canon(self, o, rep):
    if o["k"] == "v" and o["n"] in rep:
        return ("phi", rep[o["n"]])
    return (o["k"], o.get("n"), o.get("v"))


def _sign(self, o, n=0):
    """bounds of a step"""
    if o["k"] == "c":
        return (int(o["v"]), int(o["v"]))
    if n < 12 and self.positive(o, n):
        return (1, INF)
    if o["k"] == "v":
        x = self.f.insts[o["n"]]
        if x.op in ("zext",) or x.op == "call" and x.callee_name() in ("strlen", "strspn", "strcspn", "strnlen"):
            return (0, INF)
        if x.op == "sub" and x.ops[0]["k"] == "c" and int(x.ops[0]["v"]) == 0:
            a, b = self.sign(x.ops[1], n + 1)
            return (-b, -a)
        if x.op in ("sext", "bitcast", "freeze"):
            return self.sign(x.ops[0], n + 1)
        if x.ty == "i64":
            return (0, INF) if nonneg(self.mod, self.f, o, 0) else (-INF, INF)
    return (-INF, INF)


def nonneg(mod, f, o, n):
    if o["k"] == "c":
        return int(o["v"]) >= 0
    if o["k"] != "v" or n > 8:
        return False
    x = f.insts[o["n"]]
    if x.op in ("zext", "lshr", "urem"):
        return True
    if x.op == "call":
        c = x.callee_name()
        if c in ("strlen", "strspn", "strcspn", "strnlen"):
            return True
        g = mod.defined.get(c)
        if g:
            return all(r.ops and nonneg(mod, g, r.ops[0], n + 1) for r in g.all_insts() if r.op == "ret")
        return False
    if x.op == "phi":
        if x.block in f.loops:
            return all(nonneg(mod, f, v, n + 1) or v["k"] == "v" and f.insts[v["n"]].op == "add" and f.insts[v["n"]].ops[1]["k"] == "c"
                       and int(f.insts[v["n"]].ops[1]["v"]) >= 0 for pb, v in x.ops)
        return all(nonneg(mod, f, v, n + 1) for _, v in x.ops)
    if x.op == "select":
        return nonneg(mod, f, x.ops[1], n + 1) and nonneg(mod, f, x.ops[2], n + 1)
    if x.op in ("add", "mul"):
        return all(nonneg(mod, f, v, n + 1) for v in x.ops)
    return False


def same(a, b):
    return a["k"] == b["k"] and a.get("n") == b.get("n") and a.get("v") == b.get("v")


def positive(mod, f, o, n=0, facts=(), unsigned=False):
    """the value is at least one"""
    if o["k"] == "c":
        return int(o["v"]) >= 1 or unsigned and int(o["v"]) < 0
    if o["k"] != "v" or n > 10:
        return False
    x = f.insts[o["n"]]
    if x.op == "sub":
        return holds(f, x.block, x.ops[0], x.ops[1], facts)
    if x.op == "phi" and x.block not in f.headers:
        return all(positive(mod, f, v, n + 1, edge_facts(f, pb, x.block) + list(facts), unsigned) for pb, v in x.ops)
    if x.op == "select":
        c = fact_of(f, x.ops[0])
        t = [c] if c else []
        e = [neg_fact(c)] if c else []
        return positive(mod, f, x.ops[1], n + 1, t + list(facts), unsigned) and positive(mod, f, x.ops[2], n + 1, e + list(facts), unsigned)
    if x.op in ("zext", "sext", "freeze"):
        return positive(mod, f, x.ops[0], n + 1, facts, unsigned)
    if x.op == "add":
        return any(positive(mod, f, a, n + 1, facts) and nonneg(mod, f, b, 0) for a, b in (x.ops, x.ops[::-1]))
    if x.op == "call":
        g = mod.defined.get(x.callee_name())
        if g:
            rs = [r for r in g.all_insts() if r.op == "ret"]
            return bool(rs) and all(r.ops and positive(mod, g, r.ops[0], n + 1, (), unsigned) for r in rs)
    return bounded(f, x.block, o, facts)


def fact_of(f, o):
    if o["k"] != "v":
        return None
    x = f.insts[o["n"]]
    if x.op == "icmp":
        return (x.get("pred"), x.ops[0], x.ops[1])
    return None


def neg_fact(c):
    return (NEG[c[0]], c[1], c[2])


def edge_facts(f, pb, b):
    """what a branch taken from pb to b establishes, with what dominates pb"""
    out = []
    t = f.blocks[pb][-1]
    ss = f.succ[pb]
    if t.op == "br" and len(ss) == 2 and ss[0] != ss[1]:
        c = fact_of(f, t.ops[0])
        if c:
            out.append(c if ss[0] == b else neg_fact(c))
    ps = f.pred[pb]
    if len(ps) == 1 and ps[0] != pb:
        out += edge_facts(f, ps[0], pb)
    return out


def linear(f, o, k=1, out=None, n=0):
    """coefficients of a value"""
    out = {} if out is None else out
    if o["k"] == "c":
        out[1] = out.get(1, 0) + k * int(o["v"])
        return out
    x = f.insts[o["n"]] if o["k"] == "v" else None
    if x is not None and n < 12 and x.op in ("add", "sub"):
        linear(f, x.ops[0], k, out, n + 1)
        linear(f, x.ops[1], k if x.op == "add" else -k, out, n + 1)
        return out
    key = (o["k"], o["n"])
    out[key] = out.get(key, 0) + k
    return out


def holds(f, b, p, q, facts):
    """p > q by a test that dominates (unsigned sums taken not to wrap, as the test itself takes them)"""
    want = linear(f, p)
    for key, v in linear(f, q).items():
        want[key] = want.get(key, 0) - v
    want = {a: v for a, v in want.items() if v}
    for pred, x, y in list(facts) + edge_facts_of(f, b):
        if pred in ("ult", "ule", "slt", "sle"):
            pred, x, y = FLIP[pred], y, x
        if pred not in ("ugt", "uge", "sgt", "sge"):
            continue
        have = linear(f, x)
        for key, v in linear(f, y).items():
            have[key] = have.get(key, 0) - v
        d = {a: want.get(a, 0) - have.get(a, 0) for a in set(want) | set(have)}
        rest = {a: v for a, v in d.items() if v and a != 1}
        if not rest and d.get(1, 0) + (1 if pred in ("ugt", "sgt") else 0) >= 1:
            return True
    return False


def edge_facts_of(f, b):
    ps = f.pred[b]
    return edge_facts(f, ps[0], b) if len(ps) == 1 else []


def bounded(f, b, o, facts):
    return holds(f, b, o, {"k": "c", "v": 0}, facts)


Loop.through, Loop.congruent, Loop.canon, Loop.sign = _through, _congruent, _canon, _sign
Loop.positive = lambda self, o, n=0: positive(self.mod, self.f, o, n)
PATHS = 2000


def _paths(self):
    """ways round; of a loop inside only the last time round is spelled out"""
    if self._ways is not None:
        return self._ways
    f, out = self.f, []
    work = [(self.h, (self.h,))]
    while work and len(out) <= PATHS:
        x, p = work.pop()
        for s in f.succ[x]:
            if s == self.h:
                out.append(p + (s,))
            elif s in self.body and s not in p:
                work.append((s, p + (s,)))
    self._ways = out
    return out


def _inner(self, h):
    if h not in self.subs:
        self.subs[h] = Loop(self.mod, self.f, h)
    return self.subs[h]


def _step(self, path):
    """per loop variable where it stands after this way round"""
    d = Delta(self, path[:-1])
    d.pred = {b: a for a, b in zip(path, path[1:-1])}
    last = path[-2]
    out = {}
    for i, x in self.phis.items():
        v = next(v for pb, v in x.ops if pb == last)
        out[i] = d.of(v)
    return d, out


def _moves(self, i):
    """(lowest, highest) one round moves variable i by, None when unknown"""
    lo, hi = INF, -INF
    for p in self.paths():
        d, out = self.step(p)
        for e in out[i]:
            if not e or len(e) != 3 or e[0] != self.rep[i]:
                return None
            lo, hi = min(lo, e[1]), max(hi, e[2])
    return (lo, hi)


def _bound(self, i, seen):
    """what variable i can be, any number of rounds on: {variable it started as: (lo, hi)}"""
    if i in seen:
        return {}
    seen.add(i)
    out = {i: (0, 0)}
    for p in self.paths():
        d, res = self.step(p)
        for e in res[i]:
            if not e or len(e) != 3 or e[0] not in self.phis:
                return None
            if e[0] == self.rep[i]:
                lo, hi = out[i]
                out[i] = (-INF if e[1] < 0 else lo, INF if e[2] > 0 else hi)
            else:
                r = self.bound(e[0], seen)
                if r is None:
                    return None
                for src, (lo, hi) in r.items():
                    o = out.get(src, (INF, -INF))
                    out[src] = (min(o[0], lo + e[1]), max(o[1], hi + e[2]))
    return out


Loop.bound = _bound
Loop.paths, Loop.inner, Loop.step, Loop.moves = _paths, _inner, _step, _moves


def impossible(L, path, d):
    """this way round, with every loop variable where it was, contradicts a test on it"""
    f = L.f

    def lin(o):
        out = {}
        for key, k in linear(f, o).items():
            if key == 1:
                out[1] = out.get(1, 0) + k
                continue
            o2 = {"k": key[0], "n": key[1]}
            ds = d.of(o2) if key[0] == "v" else set()
            if len(ds) == 1:
                e = next(iter(ds))
                if e and len(e) == 3 and e[1] <= 0 <= e[2]:
                    key = ("at", e[0])
            elif ds and all(e and len(e) == 3 and e[0] == next(iter(ds))[0] and e[1] <= 0 <= e[2] for e in ds):
                key = ("at", next(iter(ds))[0])
            out[key] = out.get(key, 0) + k
        return {a: v for a, v in out.items() if v}
    for a, b in zip(path, path[1:]):
        t = f.blocks[a][-1]
        ss = f.succ[a]
        if t.op != "br" or len(ss) != 2 or ss[0] == ss[1] or b not in ss:
            continue
        ci, truth, can = decided(L, d, t.ops[0], ss[0] == b)
        if not can:
            return True
        c = fact_of(f, {"k": "v", "n": ci.id}) if ci is not None else None
        if not c:
            continue
        pred, x, y = c if truth else neg_fact(c)
        if pred in ("ult", "ule", "slt", "sle"):
            pred, x, y = FLIP[pred], y, x
        if pred not in ("ugt", "uge", "sgt", "sge"):
            continue
        l = lin(x)
        for key, k in lin(y).items():
            l[key] = l.get(key, 0) - k
        l = {a2: v for a2, v in l.items() if v}
        c0 = l.pop(1, 0)
        if not l and (c0 < 0 or c0 == 0 and pred in ("ugt", "sgt")):
            return True
        # lin(x) is a constant below the least value of y
        lx = lin(x)
        cx = lx.pop(1, 0)
        if not lx and cx <= (0 if pred.endswith("ge") else 1) and positive(L.mod, f, y, 0, (), pred[0] == "u"):
            return True
    return False


def used(L, o, out, seen):
    """loop variables (and consuming calls) a condition depends on"""
    if o["k"] != "v" or o["n"] in seen:
        return
    seen.add(o["n"])
    x = L.f.insts[o["n"]]
    if x.block not in L.body:
        return
    if x.op == "phi" and x.block == L.h:
        out.add(x.id)
        return
    if x.op == "call":
        out.add(("call", x.id))
    if x.op == "load":
        out.add(("load", x.id))
    for v in ([v for _, v in x.ops] if x.op == "phi" else operands(x)):
        used(L, v, out, seen)


def pure(mod, c, seen=None):
    """looks at what it is given and changes nothing"""
    seen = set() if seen is None else seen
    if c in seen:
        return True
    seen.add(c)
    g = mod.defined.get(c)
    if g is None:
        return c in SEARCH or c in ("strlen", "strnlen", "strspn", "strcspn", "strcmp", "strncmp", "strcasecmp", "strncasecmp", "memcmp", "isspace", "isdigit", "isalpha", "isalnum",
                                    "isupper", "islower", "toupper", "tolower", "__ctype_b_loc", "abs") or (c or "").startswith("llvm.")
    for x in g.all_insts():
        if x.op == "store":
            o = x.ops[1]
            if not (o["k"] == "v" and g.insts[o["n"]].op == "alloca"):
                return False
        if x.op == "call" and not pure(mod, x.callee_name(), seen):
            return False
    return True


def strip(L, o, widened=None):
    """value without casts and constant offsets; the narrowest width it went through"""
    w = 64
    while o["k"] == "v":
        x = L.f.insts[o["n"]]
        if x.op in CASTS:
            fr = x.get("from") or ""
            if fr.startswith("i") and fr[1:].isdigit():
                w = min(w, int(fr[1:]))
            o = x.ops[0]
        elif x.op in ("add", "sub") and x.ops[1]["k"] == "c":
            o = x.ops[0]
        else:
            break
    return o, w


def width(L, o):
    if o["k"] == "v":
        t = L.f.insts[o["n"]].ty
        return int(t[1:]) if t.startswith("i") and t[1:].isdigit() else 64
    return int(o.get("w", 64))


def range_of(L, o, n=0):
    """bits a bound may use"""
    if o["k"] == "c":
        return max(1, int(o["v"]).bit_length())
    if o["k"] == "v" and n < 8:
        x = L.f.insts[o["n"]]
        if x.op in ("zext", "sext"):
            return int(x.get("from")[1:]) - (1 if x.op == "sext" else 0)
        if x.op in ("phi", "select"):
            vs = [v for _, v in x.ops] if x.op == "phi" else x.ops[1:]
            return max(range_of(L, v, n + 1) for v in vs) if x.op == "select" or x.block not in L.f.headers else width(L, o)
        if x.op == "lshr" and x.ops[1]["k"] == "c":
            return width(L, o) - int(x.ops[1]["v"])
        if x.op in ("udiv",) and x.ops[1]["k"] == "c" and int(x.ops[1]["v"]) >= 2:
            return width(L, o) - 1
        if x.op == "call" and x.callee_name() in ("strlen",):
            return 62
    return width(L, o)


def verdict(L, test):
    """("ends", rule) / ("bad", reason) / ("open", reason)"""
    o, leave = test
    x = L.f.insts[o["n"]]
    deps = set()
    used(L, o, deps, set())
    phis = {d for d in deps if not isinstance(d, tuple)}
    if x.op == "icmp" and leave is not None:
        pred, a, b = x.get("pred"), x.ops[0], x.ops[1]
        if leave:
            pred = NEG[pred]                      # goes on while pred
        av, aw = strip(L, a)
        bv, bw = strip(L, b)
        for sv, sw, ov, side in ((av, aw, b, 0), (bv, bw, a, 1)):
            p = pred if side == 0 else FLIP[pred]
            raw = a if side == 0 else b
            if sv["k"] != "v" or sv["n"] not in L.phis:
                continue
            oth = set()
            used(L, ov, oth, set())
            if any(not isinstance(t, tuple) and t != sv["n"] for t in oth):
                continue
            i = sv["n"]
            m = motion(L, i)
            name = L.f.name_of(i) if hasattr(L.f, "name_of") else "the counter"
            if m is None:
                continue
            kind, lo, hi = m
            if L.sets[i]:
                # put to a value: it must be one that ends the loop
                z = ov
                k = 0
                while z["k"] == "v" and L.f.insts[z["n"]].op in ("add", "sub") and L.f.insts[z["n"]].ops[1]["k"] == "c":
                    y = L.f.insts[z["n"]]
                    k += int(y.ops[1]["v"]) * (1 if y.op == "add" else -1)
                    z = y.ops[0]
                key = (z["k"], z["n"]) if z["k"] != "c" else None
                if z["k"] == "c":
                    k = int(z["v"])
                good = {"ult": lambda c: c >= k, "slt": lambda c: c >= k, "ne": lambda c: c == k, "ule": lambda c: c > k, "sle": lambda c: c > k,
                        "ugt": lambda c: c <= k, "sgt": lambda c: c <= k, "uge": lambda c: c < k, "sge": lambda c: c < k}.get(p, lambda c: False)
                if raw is not a and raw is not b or not all(kk == key and good(c) for kk, c in L.sets[i]) or not same(sv, raw):
                    continue
            if kind == "list":
                if p == "ne" and ov["k"] == "c":
                    return ("ends", "list")
                continue
            if kind == "scaled":
                if any(v["k"] == "c" and int(v["v"]) == 0 for v in entries(L, i)):
                    return ("bad", "it multiplies a counter that may be zero")
                if p in ("ult", "slt", "ule", "sle"):
                    return ("ends", "scaled")
                continue
            if lo <= 0 <= hi:
                return ("stays", i)
            up = lo > 0
            if p == "eq":
                return ("ends", "counter")
            if p == "ne":
                if ov["k"] == "c" and width(L, raw) == 64 and L.phis[i].ty.endswith("*"):
                    return ("ends", "search")
                if lo == hi and abs(lo) == 1:
                    return ("ends", "counter")
                if ov["k"] == "c":
                    continue
                return ("bad", "it counts by %s and stops only at an exact value" % lo)
            less = p in ("ult", "ule", "slt", "sle")
            if less != up:
                return ("bad", "it counts %s while it must come %s its bound" % (("up", "below") if up else ("down", "above")))
            w = int(L.phis[i].ty[1:]) if L.phis[i].ty[1:].isdigit() else 64
            if up and w < 32 and range_of(L, ov) > w:
                return ("bad", "its %d-bit counter cannot reach every value of its bound" % w)
            if p in ("ule", "sle") and up and ov["k"] != "c":
                if range_of(L, ov) >= width(L, ov) - (1 if p == "sle" and w == width(L, ov) and False else 0) and w <= width(L, ov):
                    return ("bad", "it goes on while the counter is at most a bound that may be the largest value")
            if not up and p == "uge" and ov["k"] == "c" and int(ov["v"]) == 0:
                return ("bad", "an unsigned counter is always at least zero")
            if not up and p in ("uge", "sge") and ov["k"] != "c":
                if range_of(L, ov) >= width(L, ov):
                    return ("bad", "it goes on while the counter is at least a bound that may be the smallest value")
            return ("ends", "counter")
    for t in sorted((t for t in deps if isinstance(t, tuple) and t[0] == "call"), key=str):
        c = L.f.insts[t[1]].callee_name() or ""
        if c in ("read", "recv") and x.op == "icmp":
            k = next((int(v["v"]) for v in x.ops if v["k"] == "c"), None)
            if k is None:
                return ("open", "read")
            pred = x.get("pred") if x.ops[1]["k"] == "c" else FLIP[x.get("pred")]
            if leave:
                pred = NEG[pred]
            on = {"sgt": lambda v: v > k, "sge": lambda v: v >= k, "ne": lambda v: v != k, "eq": lambda v: v == k, "slt": lambda v: v < k, "sle": lambda v: v <= k,
                  "ugt": lambda v: v % 2**64 > k, "uge": lambda v: v % 2**64 >= k, "ult": lambda v: v % 2**64 < k, "ule": lambda v: v % 2**64 <= k}[pred]
            if on(-1) or on(0):
                return ("bad", "it goes on when reading %s" % ("fails" if on(-1) else "is at the end"))
            return ("ends", "input")
        if c in CONSUME:
            return ("ends", "input")
    reads = [t for t in deps if isinstance(t, tuple)]
    if any(t[0] == "call" and not pure(L.mod, L.f.insts[t[1]].callee_name()) for t in reads):
        return ("open", "a call decides")
    for i in sorted(phis):
        m = motion(L, i)
        if L.sets[i]:
            continue
        if m and reads and (m[0] in ("list", "search") or m[0] == "step" and not m[1] <= 0 <= m[2]):
            return ("ends", "sentinel")
    for i in sorted(phis):
        m = motion(L, i)
        if m and not L.sets[i] and m[0] == "step" and m[1] <= 0 <= m[2]:
            return ("stays", i)
    return ("open", "no rule")


def entries(L, i):
    """values variable i enters the loop with"""
    out, w, seen = [], [v for pb, v in L.phis[i].ops if (pb, L.h) not in L.f.back], set()
    while w:
        v = w.pop()
        if v["k"] == "v":
            x = L.f.insts[v["n"]]
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op == "select" or x.op == "phi" and x.block not in L.f.headers:
                w += [u for _, u in x.ops] if x.op == "phi" else x.ops[1:]
                continue
        out.append(v)
    return out


def motion(L, i):
    """(kind, lo, hi) of variable i over all ways round, infeasible ones left out"""
    if i in L.motions:
        return L.motions[i]
    L.sets[i] = set()
    r = None
    kinds = set()
    lo, hi = INF, -INF
    for p in L.paths():
        d, out = L.step(p)
        es = out[i]
        for e in es:
            if not e:
                kinds.add(None)
            elif e[0] == "set":
                L.sets[i].add(e[1:3])
            elif e[0] == "list":
                kinds.add("list" if e[1] == L.rep[i] else None)
            elif e[0] == "scaled":
                kinds.add("scaled" if e[1] == L.rep[i] else None)
            elif len(e) == 3 and e[0] == L.rep[i]:
                if e[1] <= 0 <= e[2] and (impossible(L, p, d) or contradicts(L, p, d)):
                    e = (e[0], 1, e[2]) if e[1] == 0 else e
                kinds.add("step")
                lo, hi = min(lo, e[1]), max(hi, e[2])
            else:
                kinds.add(None)
    if kinds == set() and L.sets[i]:
        r = ("step", 1, 1)
    if kinds == {"list"} or kinds == {"scaled"}:
        r = (kinds.pop(), 1, 1)
    elif kinds == {"step"}:
        r = ("step", lo, hi)
    L.motions[i] = r
    return r


def cell_step(mod, f, blocks, ptr, seen):
    """least change of *ptr over these blocks taken one after the other (a callee may do any of its changes or none); None when unknown"""
    if (f.name, ptr) in seen:
        return 0
    seen = seen | {(f.name, ptr)}
    net = 0

    def is_ptr(o):
        return (o["k"], o.get("n")) == ptr
    for b in blocks:
        for x in f.blocks[b]:
            if x.op == "store" and is_ptr(x.ops[1]):
                v = x.ops[0]
                y = f.insts[v["n"]] if v["k"] == "v" else None
                if y is None or y.op not in ("add", "sub") or y.ops[1]["k"] != "c" or y.ops[0]["k"] != "v":
                    return None
                z = f.insts[y.ops[0]["n"]]
                if z.op != "load" or not is_ptr(z.ops[0]):
                    return None
                net += int(y.ops[1]["v"]) * (1 if y.op == "add" else -1)
            elif x.op == "store" and is_ptr(x.ops[0]):
                return None
            elif x.op == "call":
                for k, o in enumerate(x.ops):
                    if is_ptr(o):
                        g = mod.defined.get(x.callee_name())
                        if not g:
                            if (x.callee_name() or "").startswith("llvm."):
                                continue
                            return None
                        r = 0
                        for b2 in range(len(g.blocks)):
                            r2 = cell_step(mod, g, [b2], ("a", k), seen)
                            if r2 is None:
                                return None
                            r = min(r, r2)
                        net += r
            elif x.op not in ("load", "dbg") and any(is_ptr(o) for o in (operands(x) if x.op != "phi" else [v for _, v in x.ops])):
                return None
    return net


def by_cell(L, test):
    """the counter is kept in memory because its address is handed on"""
    o, leave = test
    x = L.f.insts[o["n"]]
    if x.op != "icmp":
        return None
    pred, a, b = x.get("pred"), x.ops[0], x.ops[1]
    if leave:
        pred = NEG[pred]
    for s, p in ((a, pred), (b, FLIP[pred])):
        v, _ = strip(L, s)
        y = L.f.insts[v["n"]] if v["k"] == "v" else None
        if y is None or y.op != "load" or y.ops[0]["k"] != "v" or L.f.insts[y.ops[0]["n"]].op != "alloca":
            continue
        ptr = ("v", y.ops[0]["n"])
        if p not in ("ult", "slt"):
            continue
        if any(h2 != L.h and h2 in L.body and any(z.op == "store" and (z.ops[1]["k"], z.ops[1].get("n")) == ptr for bl in L.f.loops[h2] for z in L.f.blocks[bl]) for h2 in L.f.loops
               if L.f.loops[h2] < L.body):
            return None
        steps = [cell_step(L.mod, L.f, q[:-1], ptr, frozenset()) for q in L.paths()]
        if not steps or None in steps:
            return None
        return ("ends", "counter") if min(steps) >= 1 else ("bad", "a way round leaves its counter no further on")
    return None


def effects(L, path):
    bs = set(path)
    for b in path[1:-1]:
        if b in L.f.loops:
            bs |= L.f.loops[b]
    return any(x.op == "store" or x.op == "call" and not quiet(x) for b in bs for x in L.f.blocks[b])


def decided(L, d, o, truth):
    """the test behind a condition on this way round: (instruction or None, truth, False when impossible)"""
    for _ in range(12):
        if o["k"] == "c":
            return None, truth, bool(int(o["v"]) & 1) == truth
        if o["k"] != "v":
            return None, truth, True
        x = L.f.insts[o["n"]]
        if x.op == "phi" and x.block in d.pred and x.block not in L.f.headers:
            o = next((v for pb, v in x.ops if pb == d.pred[x.block]), None)
            if o is None:
                return None, truth, True
        elif x.op == "xor" and x.ops[1]["k"] == "c":
            o, truth = x.ops[0], not truth
        else:
            return x, truth, True
    return None, truth, True


def canon(L, d, o, n=0):
    """expression over the loop variables, those that stay as they were counted as themselves"""
    if o["k"] != "v" or n > 14:
        return (o["k"], o.get("n"), o.get("v"))
    x = L.f.insts[o["n"]]
    ds = d.of(o)
    if len(ds) >= 1:
        vs = {e[0] if e and len(e) == 3 and e[1] <= 0 <= e[2] else None for e in ds}
        if len(vs) == 1 and None not in vs:
            return ("at", next(iter(vs)))
    if x.block not in L.body or x.op in ("phi", "alloca", "store"):
        return ("v", x.id)
    if x.op == "call" and x.callee_name() not in SEARCH | {"strlen", "strcmp", "strncmp", "isspace", "isdigit"}:
        return ("v", x.id)
    pred = x.get("pred")
    if x.op == "icmp" and pred in ("ne", "eq"):
        pred = "eq"
    return (x.op, x.ty, x.callee_name() if x.op == "call" else pred, tuple(canon(L, d, v, n + 1) for v in operands(x) if v["k"] != "f"))


def contradicts(L, path, d):
    """one test comes out both ways though nothing changed"""
    if effects(L, path):
        return False
    known = {}
    for a, b in zip(path, path[1:]):
        t = L.f.blocks[a][-1]
        ss = L.f.succ[a]
        if t.op == "br" and len(ss) == 2 and ss[0] != ss[1] and b in ss:
            x, truth, can = decided(L, d, t.ops[0], ss[0] == b)
            if not can:
                return True
            if x is None:
                continue
            if x.op == "icmp" and x.get("pred") == "ne":
                truth = not truth
            k = canon(L, d, {"k": "v", "n": x.id})
            if known.setdefault(k, truth) != truth:
                return True
    return False


def relevant(L):
    """loop variables that decide anything about how the loop goes on"""
    out, w = set(), []
    for bl in L.body:
        t = L.f.blocks[bl][-1]
        if t.op in ("br", "switch") and t.ops:
            w.append(t.ops[0])
    while w:
        got = set()
        used(L, w.pop(), got, set())
        for i in got:
            if not isinstance(i, tuple) and i not in out:
                out.add(i)
                w += [v for pb, v in L.phis[i].ops if (pb, L.h) in L.f.back]
    return out


def stuck(L, ts):
    """a way round on which nothing the loop depends on changes"""
    rel = relevant(L)
    fixed = False                       # a test of the loop variables alone keeps its outcome then
    for o, leave in ts:
        deps = set()
        used(L, o, deps, set())
        fixed = fixed or bool(deps) and not any(isinstance(t, tuple) and not steady(L, t) for t in deps)
    for p in L.paths():
        d, out = L.step(p)
        if not all(any(e and len(e) == 3 and e[0] == L.rep[i] and e[1] <= 0 <= e[2] for e in es) for i, es in out.items() if i in rel):
            continue
        if (impossible(L, p, d) or contradicts(L, p, d)):
            continue
        if effects(L, p) and not (fixed and plain(L, p)):
            continue
        return p
    return None


def steady(L, t):
    """a read of a field that nothing in the loop writes"""
    x = L.f.insts[t[1]]
    if t[0] != "load" or addr_of(L, x):
        return False
    a = x.ops[0]
    fld = gepfield(L.mod, L.f.insts[a["n"]]) if a["k"] == "v" and L.f.insts[a["n"]].op == "getelementptr" else None
    if not fld:
        return False
    todo, seen = [], set()

    def bad(f, i):
        if i.op == "store":
            p = i.ops[1]
            g = f.insts[p["n"]] if p["k"] == "v" else None
            return g is not None and g.op == "getelementptr" and gepfield(L.mod, g) == fld
        if i.op == "call":
            c = i.callee_name()
            if c in L.mod.defined:
                todo.append(c)
            elif c is None:
                return True
            elif c.startswith(("llvm.memcpy", "llvm.memset", "llvm.memmove")) or c in ("memcpy", "memset", "memmove"):
                return True
        return False
    for b in L.body:
        if any(bad(L.f, i) for i in L.f.blocks[b]):
            return False
    while todo:
        c = todo.pop()
        if c not in seen:
            seen.add(c)
            if any(bad(L.mod.defined[c], i) for i in L.mod.defined[c].all_insts()):
                return False
    return True


def addr_of(L, x):
    out = set()
    addr_roots(L, x.ops[0], out, set())
    return out


def plain(L, path):
    """which way round it goes depends on nothing but the loop variables"""
    for b in path[:-1]:
        t = L.f.blocks[b][-1]
        if t.op in ("br", "switch") and t.ops and sum(s in L.body for s in L.f.succ[b]) > 1:
            deps = set()
            used(L, t.ops[0], deps, set())
            if any(isinstance(x, tuple) and not steady(L, x) for x in deps):
                return False
        if any(x.op == "call" and x.callee_name() in CONSUME for x in L.f.blocks[b]):
            return False
    return True


def quiet(x):
    c = x.callee_name() or ""
    return c in PRINTS or c in ("strlen", "strcmp", "strncmp", "strchr", "putnchar", "isspace", "isdigit", "toupper", "tolower") or c.startswith("llvm.")


def decide(L):
    """("ends"|"bad"|"open", text)"""
    ts = L.tests()
    rs = [by_cell(L, t) or verdict(L, t) for t in ts]
    ok = next((r for r in rs if r[0] == "ends"), None)
    if ok:
        return ok
    bad = next((r for r in rs if r[0] == "bad"), None)
    if bad:
        return bad
    if len(L.paths()) <= PATHS and stuck(L, ts):
        return ("bad", "a way round leaves everything it depends on unchanged")
    if not ts:
        return ("open", "no test on every way round")
    return ("open", "; ".join("%s" % (r[1],) for r in rs))


def survey(mod):
    for n in sorted(mod.defined):
        f = mod.defined[n]
        for h in sorted(f.loops):
            yield Loop(mod, f, h)




def calls(mod):
    return {n: [i for i in f.all_insts() if i.op == "call" and i.callee_name() in mod.defined] for n, f in mod.defined.items()}


def within(mod, cs):
    """functions on a call cycle: {function: functions of its cycles}"""
    reach_ = {}
    for n in cs:
        seen, w = set(), [i.callee_name() for i in cs[n]]
        while w:
            x = w.pop()
            if x not in seen:
                seen.add(x)
                w += [i.callee_name() for i in cs[x]]
        reach_[n] = seen
    return {n: {m for m in reach_[n] if n in reach_[m]} for n in cs if n in reach_[n]}


def descends(mod, f, o, n=0, seen=None):
    """the table handed on is the one below an entry"""
    seen = set() if seen is None else seen
    if o["k"] != "v" or o["n"] in seen or n > 12:
        return False
    seen.add(o["n"])
    x = f.insts[o["n"]]
    if x.op == "load":
        a = x.ops[0]
        if a["k"] == "v" and f.insts[a["n"]].op == "getelementptr":
            if gepfield(mod, f.insts[a["n"]]) == OPT + "sub_options":
                return True
        return False
    if x.op in ("phi", "select"):
        vs = [v for _, v in x.ops] if x.op == "phi" else x.ops[1:]
        return bool(vs) and all(descends(mod, f, v, n + 1, seen) for v in vs)
    if x.op in CASTS:
        return descends(mod, f, x.ops[0], n + 1, seen)
    return False


def known_at(f, b):
    """tests every way to block b has passed"""
    dom = f.dominators()
    out = []
    for a in dom.get(b, ()):
        t = f.blocks[a][-1]
        ss = f.succ[a]
        if t.op != "br" or len(ss) != 2 or ss[0] == ss[1]:
            continue
        for k, s in enumerate(ss):
            if s in dom[b] and f.pred[s] == [a] or s == b and f.pred[s] == [a]:
                c = fact_of(f, t.ops[0])
                if c:
                    out.append(c if k == 0 else neg_fact(c))
    return out


def limited(f, b):
    """below a constant limit: a counter that is kept outside the call or handed down it"""
    for pred, x, y in known_at(f, b):
        if x["k"] == "c":
            pred, x, y = FLIP[pred], y, x
        if y["k"] != "c" or pred not in ("ult", "ule", "slt", "sle"):
            continue
        w = [x]
        seen = set()
        while w:
            o = w.pop()
            if o["k"] == "a":
                return True
            if o["k"] != "v" or o["n"] in seen:
                continue
            seen.add(o["n"])
            z = f.insts[o["n"]]
            if z.op == "load":
                if z.ops[0]["k"] == "g" or z.ops[0]["k"] == "a" or z.ops[0]["k"] == "v" and f.insts[z.ops[0]["n"]].op == "getelementptr":
                    return True
            elif z.op != "phi":
                w += z.ops
    return False


def run_progress(ctx):
    mod = ctx.mod
    for r, t in (("loop", "every loop ends: a test taken on every way round is decided by something that moves on towards it"),
                 ("recursion", "every call cycle goes down the tables of subcommands"),
                 ("depth", "checking the tables stops at the depth that may be nested")):
        ctx.rule(r, t)
    tally, names = {}, []
    for L in survey(mod):
        kind, why = decide(L)
        ctx.inst("loop")
        tally[why if kind == "ends" else kind] = tally.get(why if kind == "ends" else kind, 0) + 1
        if kind == "bad":
            ctx.violation("loop", where(L.f), "loop: %s" % why, str(L.line))
        elif kind == "open":
            names.append("%s (%s)" % (L.f.src, L.line))
    for k, v in sorted(tally.items()):
        ctx.setcount("loops: " + k, v)
    ctx.setcount("undecided loops", names)
    cs = calls(mod)
    cyc = within(mod, cs)
    # what remains of the cycles without the calls that go down a table
    flat = {}
    for n in cyc:
        for i in cs[n]:
            if i.callee_name() in cyc[n]:
                ctx.inst("recursion")
                if not any(descends(mod, mod.defined[n], o) for o in i.ops) and not limited(mod.defined[n], i.block):
                    flat.setdefault(n, []).append(i)
    for n in sorted(flat):
        seen, w = set(), [n]
        while w:
            for i in flat.get(w.pop(), ()):
                c = i.callee_name()
                if c not in seen:
                    seen.add(c)
                    w.append(c)
        if n in seen:
            ctx.violation("recursion", where(mod.defined[n]), "calls itself again without going down a table of subcommands", str(flat[n][0].loc))
    chk = [n for n in mod.closure("_argus_init_validate") if n in cyc] if "_argus_init_validate" in mod.defined else []
    if not chk:
        ctx.inst("depth")
    for n in chk:
        f = mod.defined[n]
        for i in cs[n]:
            if i.callee_name() in cyc[n]:
                ctx.inst("depth")
                if not any(limited(mod.defined[m], j.block) for m in cyc[n] for j in cs[m] if j.callee_name() in cyc[m]):
                    ctx.violation("depth", where(f), "goes on into tables nested deeper than any command line can use", str(i.loc))
