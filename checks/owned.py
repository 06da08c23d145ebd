"""What owns the blocks that are kept, and that letting go of an owner lets go of them (P17)."""
from blocks import *


def freed(S, f):
    """(call, operand) of everything the function releases itself or through a callee"""
    return [(i, i.ops[k]) for i, k, n in releases(S, f) if n not in ("realloc", "reallocarray")]


def sources(S, f, o, seen=None, n=0):
    """(function, load) a released value can come from"""
    seen = set() if seen is None else seen
    if (f.name, okey(o)) in seen or n > 6:
        return
    seen.add((f.name, okey(o)))
    if o["k"] == "a":
        for i in S.sites.get(f.name, ()):
            if o["n"] < len(i.ops):
                yield from sources(S, i.fn, i.ops[o["n"]], seen, n + 1)
    elif o["k"] == "v":
        x = f.insts[o["n"]]
        if x.op == "phi":
            for _, v in x.ops:
                yield from sources(S, f, v, seen, n)
        elif x.op == "select":
            for v in x.ops[1:]:
                yield from sources(S, f, v, seen, n)
        elif x.op in ("bitcast", "freeze"):
            yield from sources(S, f, x.ops[0], seen, n)
        elif x.op == "load":
            yield f, x


def lastfield(S, f, o, seen=None, n=0):
    """fields an address names, seen through the callers"""
    w = Walk(S, f, [])
    root, path = w.addr(o)
    fs = [s[1] for s in path if s[0] == "f"]
    if fs:
        return {fs[-1]} if isinstance(fs[-1], str) else set()
    out = set()
    if root[0] == "a" and n < 5:
        for i in S.sites.get(f.name, ()):
            if root[1] < len(i.ops):
                out |= lastfield(S, i.fn, i.ops[root[1]], None, n + 1)
    return out


def keeps(S):
    """field -> where a block is recorded in it"""
    out = {}
    for n, f in sorted(S.mod.defined.items()):
        for i in S.origins(f):
            w = S.walk(f, i)
            al = {okey({"k": "v", "n": i.id})}
            for s in f.all_insts():
                if s.op == "store" and s.get("vty") == "ptr" and s.ops[0]["k"] == "v" and okey(s.ops[0]) in al:
                    if w.addr(s.ops[1])[0][0] == "v" and f.insts[w.addr(s.ops[1])[0][1]].op == "alloca":
                        continue
                    for x in lastfield(S, f, s.ops[1]):
                        out.setdefault(x, (f, i))
    return out


def lists(ctx, S):
    own = keeps(S)
    rel = []
    for f in S.mod.defined.values():
        for i, o in freed(S, f):
            fs = set()
            for g, x in sources(S, f, o):
                fs |= lastfield(S, g, x.ops[0])
            rel.append(fs)
    links = chains(S)
    for x, (f, i) in sorted(own.items()):
        ctx.inst("owner")
        if not any(x in fs for fs in rel):
            ctx.violation("owner", where(f), "records a block in %s, which nothing releases" % x.split(".")[-1], x)
        for n in sorted(links.get(x, ())):
            if not any(x in fs and n in fs for fs in rel) and not popped(S, x, n):
                ctx.violation("owner", where(f), "records a list in %s, of which only the first block is released" % x.split(".")[-1], x)
    ctx.setcount("fields that own blocks", len(own))
    return own


def chains(S):
    """field that starts a list -> fields its blocks are linked by"""
    out = {}
    for f in S.mod.defined.values():
        w = Walk(S, f, [])
        for s in f.all_insts():
            if s.op != "store" or s.get("vty") != "ptr" or s.ops[0]["k"] != "v":
                continue
            v = f.insts[s.ops[0]["n"]]
            r = w.addr(s.ops[1])[0]
            if r[0] != "v":
                continue
            ns = lastfield(S, f, s.ops[1])
            if S.isorigin(v) and f.insts[r[1]].op == "phi":
                fs = set()
                for g, x in sources(S, f, {"k": "v", "n": r[1]}):
                    fs |= lastfield(S, g, x.ops[0])
                if ns <= fs:
                    for x in fs - ns:
                        out.setdefault(x, set()).update(ns)
            elif v.op == "load" and S.isorigin(f.insts[r[1]]):
                for x in lastfield(S, f, v.ops[0]) - ns:
                    out.setdefault(x, set()).update(ns)
    return out


def popped(S, x, n):
    """is the list emptied by moving its start on"""
    for f in S.mod.defined.values():
        for s in f.all_insts():
            if s.op == "store" and s.get("vty") == "ptr" and s.ops[0]["k"] == "v" and f.insts[s.ops[0]["n"]].op == "load" and \
                    x in lastfield(S, f, s.ops[1]) and n in lastfield(S, f, f.insts[s.ops[0]["n"]].ops[0]):
                return True
    return False


def through(S, g, k, own, what, memo, n=0):
    """does the function record (or release) blocks in what its parameter points to"""
    key = (g.name, k, what)
    if key in memo or n > 8:
        return memo.get(key, False)
    memo[key] = False
    w = Walk(S, g, [])
    if what == "fill":
        for s in g.all_insts():
            if s.op == "store" and s.get("vty") == "ptr" and s.ops[0]["k"] == "v" and S.isorigin(g.insts[s.ops[0]["n"]]) and based(w, s.ops[1]) == ("a", k):
                memo[key] = True
    else:
        for i, o in freed(S, g):
            if o["k"] == "v" and any(x.fn is g and based(w, x.ops[0]) == ("a", k) for _, x in sources(S, g, o)):
                memo[key] = True
    for i in g.all_insts():
        if memo[key]:
            break
        if i.op == "call" and i.callee_name() in S.mod.defined:
            for m, o in enumerate(i.ops):
                if o["k"] in ("v", "a") and based(w, o) == ("a", k) and w.addr(o)[0][0] == "a" and through(S, S.mod.defined[i.callee_name()], m, own, what, memo, n + 1):
                    memo[key] = True
    return memo[key]


def based(w, o):
    """the parameter, object or call an address starts from, through whatever is loaded on the way"""
    r = w.addr(o)[0]
    for _ in range(12):
        if r[0] == "ld":
            r = r[1]
        else:
            break
    return r


def filled(ctx, S, own):
    """a structure of a function's own that was filled is released before the function returns"""
    memo = {}
    for f in S.mod.defined.values():
        w = Walk(S, f, [])
        uses = {}
        for i in f.all_insts():
            if i.op == "call" and i.callee_name() in S.mod.defined:
                for m, o in enumerate(i.ops):
                    if o["k"] == "v":
                        r, p = w.addr(o)
                        if r[0] == "v" and f.insts[r[1]].op == "alloca" and m < len(S.mod.defined[i.callee_name()].params):
                            uses.setdefault(r, []).append((i, S.mod.defined[i.callee_name()], m))
        for r, us in uses.items():
            fill = [i for i, g, m in us if through(S, g, m, own, "fill", memo)]
            rel = {i.id for i, g, m in us if through(S, g, m, own, "free", memo)}
            for i in fill:
                ctx.inst("filled")
                if escapes(f, i, rel):
                    ctx.violation("filled", where(f), "returns without releasing the structure %s filled" % i.callee_name(), str(i.loc))


def escapes(f, i, stop):
    """can the function return after i without passing one of stop"""
    b = f.blocks[i.block]
    work = [(i.block, b.index(i) + 1)]
    seen = set()
    while work:
        n, at = work.pop()
        for x in f.blocks[n][at:]:
            if x.id in stop and x.op == "call":
                break
            if x.op == "ret":
                return True
            if x.op in ("br", "switch"):
                for s in f.succ[n]:
                    if s not in seen:
                        seen.add(s)
                        work.append((s, 0))
    return False


def every(ctx, S):
    """a loop that releases the elements of a list reaches each of them"""
    for f in S.mod.defined.values():
        w = Walk(S, f, [])
        for i, o in freed(S, f):
            if o["k"] != "v":
                continue
            x = f.insts[o["n"]]
            if x.op != "load":
                continue
            root, path = w.addr(x.ops[0])
            idx = [s[1] for s in path if s[0] == "i"]
            if not idx or not (isinstance(idx[-1], tuple) and idx[-1][0] == "v"):
                continue
            p = f.insts[idx[-1][1]]
            body = next((b for h, b in f.loops.items() if p.op == "phi" and h == p.block and i.block in b), None)
            if body is None:
                continue
            if not any(okey(v) == root or v["k"] == "v" and f.insts[v["n"]].op == "load" and ("ld",) + w.addr(f.insts[v["n"]].ops[0]) == root for _, v in freed(S, f)):
                continue        # the list itself lives on
            ctx.inst("every")
            init = [v for b, v in p.ops if b not in body]
            step = [f.insts[v["n"]] if v["k"] == "v" else None for b, v in p.ops if b in body]
            up = all(s is not None and s.op == "add" and okey(s.ops[0]) == ("v", p.id) and s.ops[1]["k"] == "c" and int(s.ops[1]["v"]) == 1 for s in step)
            tell = lambda t: ctx.violation("every", where(f), t, str(i.loc))
            if up and any(v["k"] == "c" and int(v["v"]) != 0 for v in init):
                tell("releases the elements of a list only from the one at %d on" % int(init[0]["v"]))
            exits = [(b, s) for b in body for s in f.succ[b] if s not in body]
            latches = [b for b, h in f.back if h == p.block]
            held = False
            for b in body:
                t = f.blocks[b][-1]
                if t.op != "br" or len(t.get("succ")) != 2 or t.ops[0]["k"] != "v":
                    continue
                c = f.insts[t.ops[0]["n"]]
                # the last element
                if b in [e[0] for e in exits] and up and c.op == "icmp" and b in f.dominators().get(i.block, ()):
                    (x0, d0), (y, d1) = shift(f, c.ops[0]), shift(f, c.ops[1])
                    if okey(x0) == ("v", p.id) and last(w, y) and d0 != d1:
                        tell("stops releasing the elements of a list before the last one")
            doms = f.dominators()
            for l in latches:
                if i.block not in doms[l] and not only(f, w, i, l, x, body, p.block):
                    held = True
            if held:
                tell("passes over elements of a list it releases")
            if len({b for b, _ in exits}) > 1:
                tell("can leave the release of a list before its last element")


def shift(f, o):
    """a value as another one plus a constant"""
    d = 0
    while o["k"] == "v" and f.insts[o["n"]].op in ("add", "sub") and f.insts[o["n"]].ops[1]["k"] == "c":
        x = f.insts[o["n"]]
        v = int(x.ops[1]["v"])
        d += v if x.op == "add" else -v
        o = x.ops[0]
    return o, d


def last(w, o):
    x = w.f.insts[o["n"]] if o["k"] == "v" else None
    return x is not None and x.op == "load" and (w.addr(x.ops[0])[1] or (0,))[-1] == ("f", CNT) or o["k"] == "a"


def only(f, w, i, latch, x, body, header):
    """is the release passed over only where there is nothing to release"""
    want = w.addr(x.ops[0])
    work, seen = [header], {header}
    while work:
        b = work.pop()
        if b == i.block:
            continue
        t = f.blocks[b][-1]
        succ = [s for s in f.succ[b] if s in body]
        if t.op == "br" and len(t.get("succ")) == 2 and t.ops[0]["k"] == "v":
            c = f.insts[t.ops[0]["n"]]
            if c.op == "icmp" and c.get("pred") in ("eq", "ne") and c.ops[1]["k"] == "c" and c.ops[0]["k"] == "v":
                y = f.insts[c.ops[0]["n"]]
                if y.op == "load" and w.addr(y.ops[0]) == want:
                    nz = t.get("succ")[0 if c.get("pred") == "ne" else 1]
                    succ = [nz] if nz in body else []
        for s in succ:
            if s == header:
                return False
            if s not in seen:
                seen.add(s)
                work.append(s)
    return True


class Dropped(Walk):
    """one element of a list that is being thinned out: kept, or released"""

    def __init__(self, S, f, header, ind, cell, facts):
        super().__init__(S, f, [State("n", facts=facts)])
        self.header, self.ind, self.cell = header, ind, cell
        self.body = f.loops[header]
        self.kept = {p.id for p in f.blocks[header] if p.op == "phi" and p.id != ind.id and p.ty != "ptr"}
        self.missing = set()

    def enter(self, pb, b, st):
        if b == self.header:
            if pb in self.body and st.b == "u":
                self.missing.add(pb)
            s = super().enter(pb, b, st)
            return s.to(b="u")
        s = super().enter(pb, b, st)
        if b not in self.body and s.b == "u":
            s = s.to(b="n")
        return s

    def step(self, i, st):
        if i.block in self.body and st.b == "u":
            if i.op == "add" and i.ops[0]["k"] == "v" and i.ops[0]["n"] in self.kept:
                st = st.to(b="d")
            elif i.op == "call":
                for k, o in enumerate(i.ops):
                    if o["k"] == "v" and (releaser(i.callee_name()) and k == 0 or i.callee_name() in self.mod.defined and k < len(self.mod.defined[i.callee_name()].params) and
                                          self.S.frees(self.mod.defined[i.callee_name()], k)):
                        x = self.f.insts[o["n"]]
                        if x.op == "load" and self.at(x.ops[0]):
                            st = st.to(b="d")
                        elif x.op == "load" and self.indirect(x, i):
                            st = st.to(b="d")
                    elif o["k"] == "v" and i.callee_name() in self.mod.defined and self.elem(o) and self.S.deepfree(self.mod.defined[i.callee_name()], k):
                        st = st.to(b="d")
        return super().step(i, st)

    def learn(self, st, o, truth, n=0):
        r = super().learn(st, o, truth, n)
        if r is not None and r.b == "u" and o["k"] == "v":
            x = self.f.insts[o["n"]]
            if x.op == "icmp" and x.get("pred") in ("eq", "ne") and x.ops[1]["k"] == "c" and int(x.ops[1]["v"]) == 0 and x.ops[0]["k"] == "v" and (x.get("pred") == "eq") == truth:
                y = self.f.insts[x.ops[0]["n"]]
                if y.op == "load" and self.at(y.ops[0]):
                    return r.to(b="d")      # nothing there
        return r

    def at(self, o):
        root, path = self.addr(o)
        return any(s == ("i", ("v", self.ind.id)) for s in path) and self.cell(path)

    def elem(self, o):
        root, path = self.addr(o)
        return any(s == ("i", ("v", self.ind.id)) for s in path)

    def indirect(self, x, i):
        return False


def dropped(ctx, S):
    mod = S.mod
    import collections_
    seen = set()
    E = mod.enum
    maps = lambda path: (path or (0,))[-1] == ("f", "argus_pair_s.key")
    vals = lambda path: (path or (0,))[-1] == ("f", "argus_pair_s.value") or (path or (0,))[-1][0] == "i" or (path or (0,))[-1] == ("f", "argus_value_u.as_string")
    for t, (h, m) in sorted(collections_.declared(mod).items()):
        ismap, string = "MAP" in t, t.endswith("STRING")
        if not ismap and not string:
            continue
        for d in collections_.dispatchers(mod, h):
            for n in sorted(reach(mod, d.name)):
                f = mod.defined[n]
                if not collections_.makesunique(mod, f) or not f.sig[1:] or ("argus_pair_t" in f.sig_of(0)) != ismap or (n, t) in seen:
                    continue
                args = [k for k in range(len(f.params)) if "valtype" in f.sig_of(k)]
                if not ismap and not args and "strcmp" not in mod.closure(n):
                    continue
                seen.add((n, t))
                for h2, body in f.loops.items():
                    if any(h2 in b and h2 != k for k, b in f.loops.items()):
                        continue
                    ind = next((p for p in f.blocks[h2] if p.op == "phi" and p.ty != "ptr" and
                                any(j.op == "add" and okey(j.ops[0]) == ("v", p.id) and j.block in body and
                                    all(("v", j.id) == okey(v) for b, v in p.ops if b in body) for j in f.all_insts())), None)
                    if ind is None:
                        continue
                    facts = {("a", k): E("VALUE_TYPE_" + t) for k in args}
                    cells = [("key", maps)] if ismap else []
                    if string:
                        cells.append(("string", vals))
                    for what, cell in cells:
                        ctx.inst("dropped")
                        w = Dropped(S, f, h2, ind, cell, dict(facts))
                        w.run()
                        if w.missing:
                            ctx.violation("dropped", where(f), "an element of %s is dropped without releasing its %s" % (t, what), "%s %s" % (t, what))


def replaced(ctx, S):
    """an element that is overwritten is released"""
    for f in S.mod.defined.values():
        for o in S.origins(f):
            w = S.walk(f, o)
            for s in f.all_insts():
                if s.op != "store" or s.get("vty") != "ptr" or okey(s.ops[0]) != ("v", o.id):
                    continue
                c = w.addr(s.ops[1])
                if not any(x[0] == "i" and w.single(x[1]) for x in c[1]):
                    continue
                ctx.inst("replaced")
                ok = False
                for i, v in freed(S, f):
                    x = f.insts[v["n"]] if v["k"] == "v" else None
                    if x is not None and x.op == "load" and w.addr(x.ops[0]) == c and before(f, x, s) and (before(f, i, s) or before(f, s, i)):
                        ok = True
                if not ok:
                    ctx.violation("replaced", where(f), "overwrites the block of an element without releasing it", str(s.loc))


def callbacks(ctx, S):
    """what a value handler allocates for an option, the option's release callback frees"""
    import macros
    lib = S.mod
    defs = macros.definitions()
    D = macros.Data(macros.compiled(defs))
    part = {"value": "the value", "elem": "the elements", "pair": "the values of pairs", "key": "the keys"}
    seen = set()
    for m, kind, t in defs:
        e = D.entry("w_" + m, 0)
        h, fr = D.fn(D.field(e, "handler")), D.fn(D.field(e, "free_handler"))
        if h not in lib.defined or (h, fr) in seen or fr is not None and fr not in lib.defined:
            continue
        seen.add((h, fr))
        got = macros.stored(macros.Places(lib, reach(lib, h)))
        own = {s for s, v in got.items() if any(x[1] for x in v)}
        ctx.inst("callback")
        rel = macros.freed(lib, macros.Places(lib, reach(lib, fr))) if fr else set()
        for s in sorted(own - rel):
            if not fr and s == "value":
                continue        # released without a callback
            ctx.violation("callback", "%s (%s)" % (lib.defined[fr or h].src, lib.defined[fr or h].loc), "%s of an option defined by %s are not released with it" % (part[s], m), s)
