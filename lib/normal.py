"""Rewrites of the intermediate representation that leave what it computes
unchanged and bring different ways of writing the same loop to one form:

 * a cursor that starts at a pointer and moves by one element a turn becomes
   that pointer indexed by a counter (only cursors over elements wider than a
   byte: a walk over text is kept as written);
 * a truth value passed through a wider variable, or through a choice between
   constants, is tested directly;
 * a loop that tests at the bottom behind a guard with the same test becomes a
   loop that tests at the top.
"""


def _c(v, w=64):
    return {"k": "c", "v": v, "w": w}


def _v(n):
    return {"k": "v", "n": n}


def _key(o):
    return (o.get("k"), o.get("n"), o.get("v"), str(o) if o.get("k") in ("gep", "ce") else None)


class Fn:
    def __init__(self, fd):
        self.fd = fd
        self.blocks = fd["blocks"]
        self.index()

    def index(self):
        self.at = {}
        for b, bl in enumerate(self.blocks):
            for i in bl:
                self.at[i["id"]] = (b, i)
        self.next = max(self.at) + 1 if self.at else 0
        self.succ = [self._succ(bl[-1]) for bl in self.blocks]
        self.pred = [[] for _ in self.blocks]
        for b, ss in enumerate(self.succ):
            for s in ss:
                self.pred[s].append(b)

    @staticmethod
    def _succ(t):
        if t["op"] == "br":
            return list(dict.fromkeys(t["succ"]))
        if t["op"] == "switch":
            return list(dict.fromkeys([c[1] for c in t["cases"]] + [t["default"]]))
        return []

    def doms(self):
        n = len(self.blocks)
        dom = {0: {0}}
        order, seen, todo = [], {0}, [(0, iter(self.succ[0]))]
        while todo:
            b, it = todo[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    todo.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                todo.pop()
        order.reverse()
        full = set(order)
        for b in order[1:]:
            dom[b] = set(full)
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [dom[p] for p in self.pred[b] if p in dom]
                d = set.intersection(*ps) | {b} if ps else {b}
                if d != dom[b]:
                    dom[b] = d
                    ch = True
        return dom

    def fresh(self, op, ty, ops, like, **kw):
        d = {"id": self.next, "op": op, "ty": ty, "ops": ops, "ln": like.get("ln", 0), "file": like.get("file", "")}
        d.update(kw)
        self.next += 1
        return d

    @staticmethod
    def operands(i):
        """every value operand an instruction holds, for reading and replacing"""
        if i["op"] == "phi":
            for x in i["ops"]:
                yield x[1]
        else:
            yield from i.get("ops", [])
        if isinstance(i.get("callee"), dict):
            yield i["callee"]
        for s in i.get("steps", []) or []:
            if isinstance(s.get("i"), dict):
                yield s["i"]

    def deep(self, o):
        yield o
        if o.get("k") in ("gep", "ce"):
            for x in o.get("ops", []) or []:
                if isinstance(x, dict):
                    yield from self.deep(x)

    def uses(self, n):
        return [(b, i) for b, bl in enumerate(self.blocks) for i in bl for o in self.operands(i) if o.get("k") == "v" and o.get("n") == n]

    def replace(self, n, new, skip=()):
        for bl in self.blocks:
            for i in bl:
                if i["id"] in skip:
                    continue
                for o in self.operands(i):
                    if o.get("k") == "v" and o.get("n") == n:
                        o.clear()
                        o.update(new)


def origin(F, base, sz):
    """the array a pointer to one of its elements was made from, and the index"""
    start, last = _c(0), None
    while base.get("k") == "v" and base["n"] in F.at:
        g = F.at[base["n"]][1]
        if g["op"] != "getelementptr" or g.get("cursor") or len(g["steps"]) != 1 or "i" not in g["steps"][0] or g["steps"][0]["sz"] != sz:
            break
        i = g["steps"][0]["i"]
        if i.get("k") == "c":
            i = _c(i["v"])
        elif i.get("k") != "v" or i["n"] not in F.at or F.at[i["n"]][1]["ty"] != "i64":
            break
        if g["ops"][0].get("k") not in ("a", "v", "g"):
            break
        last = last or g["id"]          # made last: every index of the chain is known there
        if start == _c(0):
            start = dict(i)
        elif i["k"] == "c" and start["k"] == "c":
            start = _c(i["v"] + start["v"])
        else:
            home, at = F.at[last]
            a = F.fresh("add", "i64", [dict(i), dict(start)], at)
            F.blocks[home].insert(F.blocks[home].index(at) + 1, a)
            F.at[a["id"]] = (home, a)
            start, last = _v(a["id"]), a["id"]
        base = g["ops"][0]
    return dict(base), start


def index_pointers(F):
    dom = F.doms()
    changed = False
    for h, bl in enumerate(F.blocks):
        if h not in dom:
            continue
        back = {p for p in F.pred[h] if p in dom and h in dom[p]}
        if not back:
            continue
        for p in [i for i in bl if i["op"] == "phi" and i["ty"] == "ptr"]:
            ent = {_key(o): o for b, o in p["ops"] if b not in back}
            if len(ent) != 1:
                continue
            base = next(iter(ent.values()))
            if base.get("k") not in ("a", "v", "g"):
                continue
            step = None
            for b, o in p["ops"]:
                if b not in back:
                    continue
                if o.get("k") != "v":
                    break
                g = F.at[o["n"]][1]
                if g["op"] != "getelementptr" or g["ops"][0] != _v(p["id"]) or len(g["steps"]) != 1:
                    break
                s = g["steps"][0]
                if "i" not in s or s["i"].get("k") != "c" or s["i"]["v"] not in (1, -1) or s["sz"] == 1:
                    break
                if step is not None and step != (s["i"]["v"], s["sz"], s.get("el")):
                    break
                step = (s["i"]["v"], s["sz"], s.get("el"))
            else:
                if step is None:
                    continue
                d, sz, el = step
                base, start = origin(F, base, sz)
                idx = F.fresh("phi", "i64", [], p)
                nxt = {}
                for b, o in p["ops"]:
                    if b in back:
                        gid = o["n"]
                        if gid not in nxt:
                            a = F.fresh("add", "i64", [_v(idx["id"]), _c(d)], F.at[gid][1])
                            gb = F.blocks[F.at[gid][0]]
                            gb.insert(gb.index(F.at[gid][1]), a)
                            F.at[a["id"]] = (F.at[gid][0], a)
                            nxt[gid] = a["id"]
                            g = F.at[gid][1]
                            g["ops"] = [dict(base)]
                            g["steps"] = [{"el": el, "i": _v(a["id"]), "sz": sz}]
                        idx["ops"].append([b, _v(nxt[gid])])
                    else:
                        idx["ops"].append([b, dict(start)])
                gep = F.fresh("getelementptr", "ptr", [dict(base)], p, cursor=True, steps=[{"el": el, "i": _v(idx["id"]), "sz": sz}])
                k = bl.index(p)
                bl[k] = idx
                n = next(x for x, i in enumerate(bl) if i["op"] != "phi")
                bl.insert(n, gep)
                F.replace(p["id"], _v(gep["id"]))
                F.index()
                changed = True
    return changed


def compare_indices(F):
    """a cursor compared with another place of the same array: the counters are"""
    def base(o):
        """the array; read twice in a row from one place it is the same one"""
        b, i = F.at.get(o.get("n"), (None, {})) if o.get("k") == "v" else (None, {})
        if i.get("op") != "load" or i["ops"][0].get("k") != "v" or i["ops"][0]["n"] not in F.at:
            return _key(o)
        g = F.at[i["ops"][0]["n"]][1]
        if g["op"] != "getelementptr":
            return _key(o)
        turn = 0
        for x in F.blocks[b]:
            if x is i:
                break
            turn += x["op"] in ("store", "call")
        return "load", b, turn, _key(g["ops"][0]), repr(g["steps"])
    def place(o):
        if o.get("k") != "v" or o["n"] not in F.at:
            return None
        g = F.at[o["n"]][1]
        if g["op"] != "getelementptr" or len(g["steps"]) != 1 or "i" not in g["steps"][0]:
            return None
        s = g["steps"][0]
        if s["i"].get("k") == "v" and F.at.get(s["i"]["n"], (0, {}))[1].get("ty") != "i64" or s["i"].get("k") not in ("v", "c"):
            return None
        return g, base(g["ops"][0]), s["sz"], dict(s["i"], w=64) if s["i"]["k"] == "c" else s["i"]
    for bl in F.blocks:
        for i in bl:
            if i["op"] != "icmp":
                continue
            a, b = map(place, i["ops"])
            if a and b and a[1:3] == b[1:3] and (a[0].get("cursor") or b[0].get("cursor")):
                i["ops"] = [dict(a[3]), dict(b[3])]


PURE = {"load", "getelementptr", "icmp", "fcmp", "sext", "zext", "trunc", "add", "sub", "and", "or", "xor", "shl", "lshr", "ashr", "mul",
        "bitcast", "ptrtoint", "inttoptr", "select", "call"}
READERS = ("strlen", "strcmp", "strncmp", "strchr", "strstr")


def empty(bl):
    return all(i["op"] in ("br", "dbg") for i in bl)


def thread(F):
    """a truth value settled on the way into a block that only branches on it
    picks the branch right there"""
    for j, bl in enumerate(F.blocks):
        t = bl[-1]
        core = [i for i in bl if i["op"] != "dbg"]
        if len(core) != 2 or core[0]["op"] != "phi" or t["op"] != "br" or len(set(t["succ"])) != 2 or t["ops"] != [_v(core[0]["id"])]:
            continue
        ph = core[0]
        if any(i is not t and i["op"] != "dbg" for _, i in F.uses(ph["id"])) or j in t["succ"] or len(ph["ops"]) < 2:
            continue
        for p, o in list(ph["ops"]):
            if o.get("k") != "c" or len(ph["ops"]) < 2:
                continue
            pt = F.blocks[p][-1]
            if pt["op"] != "br" or len(pt["succ"]) == 2 and pt["succ"][0] == pt["succ"][1]:
                continue
            to = t["succ"][0 if o["v"] & 1 else 1]
            if to in pt["succ"]:
                continue
            pt["succ"] = [to if x == j else x for x in pt["succ"]]
            ph["ops"] = [x for x in ph["ops"] if x[0] != p]
            for i in F.blocks[to]:
                if i["op"] != "phi":
                    break
                i["ops"].append([p, dict(next(x for q, x in i["ops"] if q == j))])
            F.index()
        if len(ph["ops"]) == 1:
            F.replace(ph["id"], dict(ph["ops"][0][1]))
            bl.remove(ph)
            F.index()
    # a block that follows another and has no other way in is part of it
    for j in range(len(F.blocks)):
        while True:
            ss = F.succ[j]
            t = F.blocks[j][-1]
            if t["op"] != "br" or len(ss) != 1 or ss[0] == j or ss[0] == 0 or F.pred[ss[0]] != [j] or len(t["succ"]) != 1:
                break
            k = ss[0]
            if any(i["op"] == "phi" for i in F.blocks[k]):
                break
            F.blocks[j] = F.blocks[j][:-1] + F.blocks[k]
            F.blocks[k] = [F.fresh("unreachable", "void", [], {})]
            for s in Fn._succ(F.blocks[j][-1]):
                for i in F.blocks[s]:
                    if i["op"] != "phi":
                        break
                    for x in i["ops"]:
                        if x[0] == k:
                            x[0] = j
            F.index()
    F.fd["blocks"] = F.blocks


def unrotate(F):
    for _ in range(40):
        if not _unrotate(F):
            return


def _unrotate(F):
    dom = F.doms()
    for b0 in range(len(F.blocks)):
        if b0 in dom and len(F.pred[b0]) == 2:
            back = [p for p in F.pred[b0] if p in dom and b0 in dom[p]]
            if len(back) == 1 and Rotated(F, dom, b0, back[0]).done:
                return True
    return False


def foldable(F, j, k, dom):
    """block j only chooses values that block k chooses from"""
    bl = F.blocks[j]
    if any(i["op"] not in ("phi", "dbg", "br") for i in bl) or j == k or j in dom and k in dom[j] or set(F.pred[j]) & set(F.pred[k]):
        return False
    if any(p in dom and j in dom[p] for p in F.pred[j]):
        return False
    inner = {i["id"] for i in F.blocks[k] if i["op"] == "phi"}
    return all(u["op"] == "dbg" or u["id"] in inner for i in bl if i["op"] == "phi" for _, u in F.uses(i["id"])) and len(F.pred[j]) > 1


def fold(F, j, k):
    was = {i["id"]: {p: o for p, o in i["ops"]} for i in F.blocks[j] if i["op"] == "phi"}
    for i in F.blocks[k]:
        if i["op"] == "phi":
            o = next(x for p, x in i["ops"] if p == j)
            i["ops"] = [x for x in i["ops"] if x[0] != j]
            for p in F.pred[j]:
                i["ops"].append([p, dict(was[o["n"]][p] if o.get("k") == "v" and o["n"] in was else o)])
        elif i["op"] == "dbg" and any(o.get("k") == "v" and o["n"] in was for o in i["ops"]):
            i["ops"] = [_c(0)]
    for p in F.pred[j]:
        t = F.blocks[p][-1]
        if t["op"] == "br":
            t["succ"] = [k if x == j else x for x in t["succ"]]
        else:
            t["cases"] = [[c[0], k if c[1] == j else c[1]] + list(c[2:]) for c in t["cases"]]
            t["default"] = k if t["default"] == j else t["default"]
    F.blocks[j] = [F.fresh("unreachable", "void", [], {})]
    F.index()


class Rotated:
    def __init__(self, F, dom, b0, lt):
        self.F, self.dom, self.b0 = F, dom, b0
        self.done = False
        pre = [p for p in F.pred[b0] if p != lt][0]
        g, entry = pre, b0
        while len(F.succ[g]) == 1 and len(F.pred[g]) == 1 and empty(F.blocks[g]):
            entry, g = g, F.pred[g][0]
        self.pair, self.m, self.order, self.lev = {}, {}, [], {}
        for i in F.blocks[b0]:
            if i["op"] != "phi":
                break
            d = {b: o for b, o in i["ops"]}
            if set(d) != {pre, lt}:
                return
            self.pair[i["id"]] = (d[pre], d[lt])
        self.phis = [i for i in F.blocks[b0] if i["op"] == "phi"]
        self.chain = []                         # (guard block, latch block, index of the way on), last test first
        in_g, in_l, e = entry, b0, None
        while True:
            if g == b0 or g == lt or (g, lt) in [c[:2] for c in self.chain]:
                break
            tg, tl = F.blocks[g][-1], F.blocks[lt][-1]
            if any(t["op"] != "br" or len(set(t["succ"])) != 2 for t in (tg, tl)) or in_g not in tg["succ"] or in_l not in tl["succ"]:
                break
            k = tl["succ"].index(in_l)
            if tg["succ"].index(in_g) != k:
                break
            xl, xg = tl["succ"][1 - k], tg["succ"][1 - k]
            if self.out(xl) != self.out(xg):
                for a, b in ((xl, xg), (xg, xl)):
                    j, k2 = self.out(a), self.out(b)
                    if F.succ[j] == [k2] and foldable(F, j, k2, dom):
                        fold(F, j, k2)
                        self.done = True
                        return
            if self.out(xl) != self.out(xg) or self.out(xl) == b0 or e not in (None, self.out(xl)):
                break
            self.chain.append((g, lt, k, xg, xl))
            e = self.out(xl)
            if len(F.pred[g]) != 1 or len(F.pred[lt]) != 1:
                break
            in_g, in_l = g, lt
            g, lt = F.pred[g][0], F.pred[lt][0]
        self.e = e
        while self.chain:
            if self.fits():
                self.apply(pre)
                self.done = True
                return
            self.chain.pop()

    def out(self, b):
        F = self.F
        while empty(F.blocks[b]) and len(F.succ[b]) == 1 and len(F.pred[b]) == 1:
            b = F.succ[b][0]
        return b

    def match(self, og, ol):
        """what the new header has for og of the guard and ol of the latch"""
        F = self.F
        for pid, (a, b) in self.pair.items():
            if _key(a) == _key(og) and _key(b) == _key(ol):
                return ("p", pid)
        if _key(og) == _key(ol) and og.get("k") != "v":
            return ("o", og)
        if og.get("k") != "v" or ol.get("k") != "v":
            return None
        if og["n"] == ol["n"]:
            return ("o", og) if F.at[og["n"]][0] in self.dom[self.top[0]] and F.at[og["n"]][0] != self.top[1] else None
        (bg, ig), (bl, il) = F.at[og["n"]], F.at[ol["n"]]
        if (og["n"], ol["n"]) in self.m:
            return ("s", ol["n"])
        lev = [n for n, c in enumerate(self.chain) if c[0] == bg and c[1] == bl]
        if not lev or ig["op"] != il["op"] or ig["op"] not in PURE:
            return None
        rest = lambda i: {k: v for k, v in i.items() if k not in ("id", "ops", "ln", "file", "steps", "dbg")}
        if rest(ig) != rest(il):
            return None
        if ig["op"] == "call" and (ig.get("callee") or {}).get("n") not in READERS:
            return None
        sg, sl = ig.get("steps") or [], il.get("steps") or []
        if len(sg) != len(sl) or len(ig["ops"]) != len(il["ops"]):
            return None
        for a, b in zip(sg, sl):
            if {k: v for k, v in a.items() if k != "i"} != {k: v for k, v in b.items() if k != "i"}:
                return None
        subs = []
        for a, b in list(zip(ig["ops"], il["ops"])) + [(a["i"], b["i"]) for a, b in zip(sg, sl) if "i" in a]:
            r = self.match(a, b)
            if r is None:
                return None
            subs.append(r)
        self.m[(og["n"], ol["n"])] = subs
        self.order.append((og["n"], ol["n"]))
        self.lev[(og["n"], ol["n"])] = lev[0]
        return ("s", ol["n"])

    def fits(self):
        F = self.F
        self.m, self.order, self.lev = {}, [], {}
        self.top = self.chain[-1]
        self.conds = []
        for g, l, *_ in reversed(self.chain):
            r = self.match(F.blocks[g][-1]["ops"][0], F.blocks[l][-1]["ops"][0])
            if r is None or r[0] == "o":
                return False
            self.conds.append(r)
        if not self.order:
            return False
        self.gs, self.ls = {a for a, _ in self.order}, {b for _, b in self.order}
        for n, (g, l, *_) in enumerate(self.chain):
            for b, slc in ((g, self.gs), (l, self.ls)):
                seen = False
                for i in F.blocks[b]:
                    if i["id"] in slc:
                        seen = seen or i["op"] in ("load", "call")
                    elif n < len(self.chain) - 1 and i["op"] != "dbg" and i is not F.blocks[b][-1]:
                        return False            # only the first test of a chain may follow other work
                    elif seen and i["op"] in ("store", "call"):
                        return False
        terms = [F.blocks[b][-1]["id"] for c in self.chain for b in c[:2]]
        for slc in (self.gs, self.ls):
            for a in slc:
                for b, i in F.uses(a):
                    if not (i["id"] in slc or i["id"] in terms or i["op"] == "dbg" or i["op"] == "phi" and b == self.b0):
                        return False
        # the values the exit takes
        self.exits = []
        for i in F.blocks[self.e]:
            if i["op"] != "phi":
                break
            d = {b: o for b, o in i["ops"]}
            vals = []
            for g, l, k, xg, xl in self.chain:
                vg, vl = d.get(self.through(xg, g)), d.get(self.through(xl, l))
                if vg is None or vl is None:
                    return False
                hit = [p for p, (a, b) in self.pair.items() if _key(a) == _key(vg) and _key(b) == _key(vl)]
                if hit:
                    vals.append(_v(hit[0]))
                elif _key(vg) == _key(vl) and (vl.get("k") != "v" or F.at[vl["n"]][0] in self.dom[self.top[0]] and vl["n"] not in self.gs):
                    vals.append(dict(vg))
                elif any(o.get("k") == "v" and (o["n"] in self.gs or o["n"] in self.ls) for o in (vg, vl)):
                    return False
                else:
                    vals.append((dict(vg), dict(vl)))
            self.exits.append((i, vals))
        return True

    def through(self, x, frm):
        while x != self.e:
            frm, x = x, self.F.succ[x][0]
        return frm

    def apply(self, pre):
        F, e, b0, n = self.F, self.e, self.b0, len(self.chain)
        gtop, ltop = self.top[0], self.top[1]
        heads = [len(F.blocks) + x for x in range(n)]       # heads[0] tests first
        head = lambda lev: heads[n - 1 - lev]
        twin = {l: g for g, l in self.order}
        dropped = [(i, self.pair[i["id"]][1]["n"]) for i in self.phis
                   if self.pair[i["id"]][1].get("k") == "v" and self.pair[i["id"]][0].get("k") == "v"
                   and twin.get(self.pair[i["id"]][1]["n"]) == self.pair[i["id"]][0]["n"]]
        gone = {i["id"]: l for i, l in dropped}
        new = {h: [] for h in heads}
        for i in self.phis:
            if i["id"] not in gone:
                i["ops"] = [[gtop, dict(self.pair[i["id"]][0])], [ltop, dict(self.pair[i["id"]][1])]]
                new[heads[0]].append(i)
        ends = []
        for i, vals in self.exits:
            old = {b for g, l, k, xg, xl in self.chain for b in (self.through(xg, g), self.through(xl, l))}
            ops = [x for x in i["ops"] if x[0] not in old]
            for lev, v in enumerate(vals):
                if isinstance(v, tuple):
                    ph = F.fresh("phi", i["ty"], [[gtop, v[0]], [ltop, v[1]]], i)
                    new[heads[0]].append(ph)
                    v = _v(ph["id"])
                ops.append([head(lev), v])
            i["ops"] = ops
        clones = {l: F.next + x for x, (_, l) in enumerate(self.order)}
        F.next += len(self.order)
        conv = lambda r: _v(clones[gone[r[1]]]) if r[0] == "p" and r[1] in gone else _v(r[1]) if r[0] == "p" else dict(r[1]) if r[0] == "o" else _v(clones[r[1]])
        for gl in self.order:
            il = F.at[gl[1]][1]
            c = dict(il)
            c["id"] = clones[gl[1]]
            subs = list(self.m[gl])
            c["ops"] = [conv(subs.pop(0)) for _ in il["ops"]]
            if il.get("steps"):
                c["steps"] = [dict(s, i=conv(subs.pop(0))) if "i" in s else dict(s) for s in il["steps"]]
            new[head(self.lev[gl])].append(c)
        for x, (g, l, k, xg, xl) in enumerate(reversed(self.chain)):
            br = dict(F.blocks[l][-1])
            br["id"] = F.next
            F.next += 1
            br["ops"] = [conv(self.conds[x])]
            on = heads[x + 1] if x + 1 < n else b0
            br["succ"] = [on, e] if k == 0 else [e, on]
            new[heads[x]].append(br)
        for b in (gtop, ltop):
            t = F.blocks[b][-1]
            slc = self.gs | self.ls
            F.blocks[b][:] = [i for i in F.blocks[b] if i["id"] not in slc and i is not t and not (b == b0 and i["op"] == "phi")] + \
                [{"id": F.next, "op": "br", "ty": "void", "ops": [], "succ": [heads[0]], "ln": t.get("ln", 0), "file": t.get("file", "")}]
            F.next += 1
        F.blocks[b0][:] = [i for i in F.blocks[b0] if i["op"] != "phi"]
        dead = [b for c in self.chain[:-1] for b in c[:2]]
        for g, l, k, xg, xl in self.chain:
            for x in (xg, xl):
                while x != e:
                    dead.append(x)
                    x = F.succ[x][0]
        x = pre
        while x != self.chain[0][0]:
            dead.append(x)
            x = F.pred[x][0]
        for b in dead:
            if b == b0:
                continue
            F.blocks[b][:] = [F.fresh("unreachable", "void", [], {})]
        for h in heads:
            F.blocks.append(new[h])
        for i, l in dropped:
            F.replace(i["id"], _v(clones[l]))
        back = {a: clones[l] for a, l in self.order}
        back.update({l: clones[l] for l in clones})
        for bl in F.blocks:
            for i in bl:
                for o in F.operands(i):
                    if o.get("k") == "v" and o["n"] in back:
                        m = back[o["n"]]
                        o.clear()
                        o.update(_v(m))
        for i in list(F.blocks[e]):
            if i["op"] == "phi" and len(i["ops"]) == 1:
                v = i["ops"][0][1]
                if not (v.get("k") == "v" and v["n"] == i["id"]):
                    F.blocks[e].remove(i)
                    F.replace(i["id"], dict(v))
        F.index()


def peel(F):
    """a truth value kept in a wider variable and tested later is that truth value"""
    for bl in F.blocks:
        for i in list(bl):
            o = i["ops"][0] if i["op"] in ("trunc", "icmp") and i.get("ops") else None
            if o is None or o.get("k") != "v":
                continue
            z = F.at[o["n"]][1]
            if z["op"] != "zext" or z.get("from") != "i1":
                continue
            if i["op"] == "trunc" and i["ty"] == "i1" or i["op"] == "icmp" and i.get("pred") == "ne" and i["ops"][1].get("k") == "c" and i["ops"][1]["v"] == 0:
                F.replace(i["id"], dict(z["ops"][0]))
                bl.remove(i)
    F.index()


def normalise(fd):
    if fd.get("decl") or not fd.get("blocks"):
        return
    F = Fn(fd)
    peel(F)
    thread(F)
    unrotate(F)
    if index_pointers(F):
        compare_indices(F)
