"""What becomes of every block of memory on every path (P16, P17, P18).

One block is followed at a time through one function: from the call that yields
it, along every path, with the tests on the way kept as facts about values.
What a callee does with a block it is given, and whether it hands one back, is
summarised by the same walk over the callee."""
import re

from ir import operands
from roles import *

FAMILY = {"malloc": "free", "calloc": "free", "realloc": "free", "reallocarray": "free", "aligned_alloc": "free", "strdup": "free", "strndup": "free",
          "realpath": "free", "getline": "free"}
PAIRS = {"pcre2_code_free": re.compile(r"^pcre2_(compile|code_copy\w*?)_\d+$"),
         "pcre2_match_data_free": re.compile(r"^pcre2_match_data_create\w*_\d+$")}
NEEDS = {   # arguments the C library reads or writes through
    "strlen": (0,), "strcmp": (0, 1), "strncmp": (0, 1), "strcasecmp": (0, 1), "strncasecmp": (0, 1), "strchr": (0,), "strrchr": (0,), "strstr": (0, 1), "strcpy": (0, 1),
    "strncpy": (0, 1), "strcat": (0, 1), "strncat": (0, 1), "memcpy": (0, 1), "memmove": (0, 1), "memset": (0,), "strdup": (0,), "strndup": (0,), "strtol": (0,),
    "strtoll": (0,), "strtod": (0,), "strtof": (0,), "strtoull": (0,), "strtoul": (0,), "atoi": (0,), "qsort": (0,), "snprintf": (0,), "sprintf": (0,), "fputs": (0,), "puts": (0,),
    "strspn": (0, 1), "strcspn": (0, 1), "strtok": (1,), "strnlen": (0,), "setenv": (0, 1), "getenv": (0,), "fopen": (0, 1)}
PRINTER = {"printf": 0, "fprintf": 1, "dprintf": 1, "sprintf": 1, "snprintf": 2}     # texts behind the format
VAL, CNT, CAP, ALL = OPT + "value", OPT + "value_count", OPT + "value_capacity", OPT + "is_allocated"
CAPSTATES = 6000


def family(name):
    """what releases the blocks this library function yields"""
    if name in FAMILY:
        return FAMILY[name]
    for k, r in PAIRS.items():
        if name and r.match(name):
            return k
    return None


def releaser(name):
    if name == "free":
        return "free"
    m = re.match(r"^(pcre2_(?:code|match_data)_free)_\d+$", name or "")
    return m.group(1) if m else None


def needs(name, k):
    if name is None:
        return False
    if name.startswith(("llvm.memcpy", "llvm.memmove")):
        return k in (0, 1)
    if name.startswith("llvm.memset"):
        return k == 0
    return k in NEEDS.get(name, ()) or name in PRINTER and k > PRINTER[name]


class State:
    __slots__ = ("b", "al", "facts", "flags")

    def __init__(self, b, al=frozenset(), facts=None, flags=frozenset()):
        self.b, self.al, self.facts, self.flags = b, al, facts or {}, flags

    def key(self):
        return self.b, self.al, frozenset(self.facts.items()), self.flags

    def to(self, **kw):
        s = State(self.b, self.al, dict(self.facts), self.flags)
        for k, v in kw.items():
            setattr(s, k, v)
        return s


def okey(o):
    return (o["k"], o.get("n"))


class Walk:
    """one block through one function"""

    start_at = None
    start_fail = "nz"
    sound = False             # every allocation but the one followed succeeds

    def __init__(self, S, f, start, origin=None, fail=None):
        self.S, self.f, self.mod = S, f, S.mod
        self.start, self.origin, self.failat = start, origin, fail
        self.out = set()          # (state, what the function returns)
        self.bad = {}             # (rule, instruction id) -> (instruction, what)
        self.full = False

    # -- addresses ----------------------------------------------------------------
    def addr(self, o, n=0):
        """(root, path) of an address"""
        path = []
        while True:
            if o["k"] != "v":
                return okey(o), tuple(path)
            x = self.f.insts[o["n"]]
            if n > 12:
                return ("v", x.id), tuple(path)
            if x.op == "getelementptr":
                p = []
                for s in x.get("steps"):
                    if "i" in s:
                        i = self.index(s["i"])
                        if i != 0:
                            p.append(("i", i))
                    else:
                        p.append(("f", self.mod.field(s["f"], s["off"]) or (s["f"], s["off"])))
                path = p + path
                o = x.ops[0]
            elif x.op in ("bitcast", "freeze"):
                o = x.ops[0]
            elif x.op == "load":
                r, q = self.addr(x.ops[0], n + 1)
                return ("ld", r, q), tuple(path)
            else:
                return ("v", x.id), tuple(path)
            n += 1

    def index(self, o, n=0):
        if o["k"] == "c":
            return int(o["v"])
        if o["k"] == "v" and n < 6:
            x = self.f.insts[o["n"]]
            if x.op in ("sext", "zext", "trunc", "freeze"):
                return self.index(x.ops[0], n + 1)
            if x.op == "load":
                return ("ld",) + self.addr(x.ops[0])
        return okey(o)

    # -- values -------------------------------------------------------------------
    def alias(self, st, o):
        while o["k"] == "v":
            if okey(o) in st.al:
                return True
            x = self.f.insts[o["n"]]
            if x.op == "getelementptr" and all("i" in s and s["i"]["k"] == "c" and int(s["i"]["v"]) == 0 for s in x.get("steps")) or x.op in ("bitcast", "freeze"):
                o = x.ops[0]
                continue
            return False
        return okey(o) in st.al

    def inside(self, st, o):
        """an address within the block"""
        n = 0
        while o["k"] == "v" and n < 20:
            if okey(o) in st.al:
                return True
            x = self.f.insts[o["n"]]
            if x.op in ("getelementptr", "bitcast", "freeze"):
                o = x.ops[0]
            else:
                return False
            n += 1
        return okey(o) in st.al

    def val(self, st, o, n=0):
        """an integer, 'nz' or None"""
        if o["k"] == "c":
            return int(o["v"])
        if o["k"] in ("g", "f", "gep"):
            return "nz"
        if self.alias(st, o):
            return 0 if st.b == "0" else "nz"
        if okey(o) in st.facts:
            return st.facts[okey(o)]
        if o["k"] != "v" or n > 8:
            return None
        x = self.f.insts[o["n"]]
        if x.op in ("zext", "sext", "freeze", "bitcast") or x.op == "trunc" and x.ty == "i1":
            v = self.val(st, x.ops[0], n + 1)
            return v if v != -1 or x.op != "zext" else 1
        if x.op == "getelementptr":
            v = self.val(st, x.ops[0], n + 1)
            return "nz" if v == "nz" else None
        if x.op == "alloca":
            return "nz"
        if x.op == "icmp":
            return self.cmp(st, x, n + 1)
        if x.op == "xor" and x.ty == "i1" and x.ops[1]["k"] == "c":
            v = self.val(st, x.ops[0], n + 1)
            return None if v is None else 1 - (1 if v == "nz" else v & 1)
        if x.op in ("and", "or") and x.ty == "i1":
            vs = [self.val(st, v, n + 1) for v in x.ops]
            vs = [v if v is None else 0 if v == 0 else 1 for v in vs]
            if x.op == "and":
                return 0 if 0 in vs else 1 if vs == [1, 1] else None
            return 1 if 1 in vs else 0 if vs == [0, 0] else None
        if x.op == "select":
            c = self.val(st, x.ops[0], n + 1)
            if c is not None:
                return self.val(st, x.ops[2 if c == 0 else 1], n + 1)
        return None

    def cmp(self, st, x, n=0):
        a, b = self.val(st, x.ops[0], n), self.val(st, x.ops[1], n)
        if a is None or b is None:
            if okey(x.ops[0]) == okey(x.ops[1]) and x.ops[0]["k"] == "v":
                return 1 if x.get("pred") in ("eq", "ule", "uge", "sle", "sge") else 0
            return None
        p = x.get("pred")
        if a == "nz" or b == "nz":
            if (a, b).count("nz") == 1 and 0 in (a, b) and p in ("eq", "ne"):
                return 1 if p == "ne" else 0
            if p == "ugt" and b == 0:
                return 1
            return None
        return int({"eq": a == b, "ne": a != b, "slt": a < b, "sle": a <= b, "sgt": a > b, "sge": a >= b}.get(p, (a & (1 << 64) - 1) < (b & (1 << 64) - 1) if p == "ult" else
                   (a & (1 << 64) - 1) > (b & (1 << 64) - 1) if p == "ugt" else a >= 0 and b >= 0 and (a <= b if p == "ule" else a >= b)))

    def learn(self, st, o, truth, n=0):
        """assume a condition; None when it cannot be"""
        v = self.val(st, o)
        if v is not None:
            return st if (v != 0) == truth else None
        if o["k"] != "v":
            if o["k"] == "a":
                st = st.to()
                st.facts[okey(o)] = "nz" if truth else 0
            return st
        st = st.to()
        st.facts[okey(o)] = 1 if truth and self.f.insts[o["n"]].ty == "i1" else ("nz" if truth else 0)
        x = self.f.insts[o["n"]]
        if n > 6:
            return st
        if x.op == "icmp" and x.get("pred") in ("eq", "ne"):
            a, b = x.ops
            va, vb = self.val(st, a), self.val(st, b)
            if va is not None and vb is None:
                a, b, va, vb = b, a, vb, va
            if vb is not None and vb != "nz" and a["k"] in ("v", "a"):
                if (x.get("pred") == "eq") == truth:
                    return self.fact(st, a, vb)
                if vb == 0:
                    return self.fact(st, a, "nz")
            return st
        if x.op in ("zext", "sext", "freeze") or x.op == "trunc" and x.ty == "i1":
            return self.learn(st, x.ops[0], truth, n + 1)
        if x.op == "xor" and x.ops[1]["k"] == "c":
            return self.learn(st, x.ops[0], not truth, n + 1)
        if x.op == ("and" if truth else "or") and x.ty == "i1":
            for v in x.ops:
                st = self.learn(st, v, truth, n + 1)
                if st is None:
                    return None
        return st

    def fact(self, st, o, v):
        old = self.val(st, o)
        if old is not None:
            if old == "nz" and v == 0 or v == "nz" and old == 0:
                return None
            return st
        st.facts[okey(o)] = v
        x = self.f.insts[o["n"]] if o["k"] == "v" else None
        if x is not None and (x.op in ("zext", "sext", "freeze", "bitcast") or x.op == "trunc" and x.ty == "i1"):
            return self.fact(st, x.ops[0], v)
        if x is not None and x.op in ("icmp", "xor", "and", "or") and v in (0, 1, "nz"):
            del st.facts[okey(o)]
            return self.learn(st, o, v != 0)
        return st

    # -- the walk -----------------------------------------------------------------
    def run(self):
        f = self.f
        work = [(0, s) for s in self.start]
        seen = set()
        while work:
            b, st = work.pop()
            k = (b, st.key())
            if k in seen:
                continue
            seen.add(k)
            if len(seen) > CAPSTATES:
                self.full = True
                break
            cur = [st]
            for i in f.blocks[b]:
                if i.op in ("phi", "dbg"):
                    continue
                if i.op in ("br", "switch", "ret", "unreachable"):
                    for s in cur:
                        work += self.leave(i, b, s)
                    break
                nxt = []
                for s in cur:
                    nxt += self.step(i, s)
                cur = nxt
                if not cur:
                    break
        return self

    def leave(self, i, b, st):
        f = self.f
        if i.op == "ret":
            self.ret(i, st)
            return []
        if i.op == "unreachable":
            return []
        out = []
        if i.op == "switch":
            v = self.val(st, i.ops[0])
            dest = []
            cases = self.cases(i)
            for c, t in cases:
                if v is None or v == c or v == "nz" and c != 0:
                    s = st.to()
                    s = self.fact(s, i.ops[0], c) if i.ops[0]["k"] == "v" else s
                    if s is not None:
                        dest.append((t, s))
            if v in (None, "nz") or v not in [c for c, _ in cases]:
                dest.append((i.get("default"), st))
        else:
            ss = i.get("succ")
            if len(ss) == 1:
                dest = [(ss[0], st)]
            else:
                dest = [(ss[k], s) for k, s in ((0, self.learn(st, i.ops[0], True)), (1, self.learn(st, i.ops[0], False))) if s is not None]
        for t, s in dest:
            out.append((t, self.enter(b, t, s)))
        return out

    def cases(self, i):
        return [(int(c), t) for c, t in i.get("cases")]

    def enter(self, pb, b, st):
        f = self.f
        new = []
        for p in f.blocks[b]:
            if p.op != "phi":
                continue
            o = next(v for q, v in p.ops if q == pb)
            new.append((p.id, self.alias(st, o), self.val(st, o)))
        al, facts = set(st.al), dict(st.facts)
        for n, a, v in new:
            al.discard(("v", n))
            facts.pop(("v", n), None)
            gone = {k for k in al if refers(k, ("v", n))}
            if st.b == "f" and any(k[0] == "m" and k[2] and k[2][-1] == ("f", VAL) for k in gone):
                self.report("after", f.insts[n], "goes on while an option still records a block that was released")
            al -= gone
            if a:
                al.add(("v", n))
            elif v is not None:
                facts[("v", n)] = v
        live = self.f.live_after_phi[b]
        deep = self.S.deep(f)
        facts = {k: v for k, v in facts.items() if k[0] != "v" or k[1] in live or deep.get(k[1], frozenset()) & live}
        al = {k for k in al if k[0] != "v" or k[1] in live or self.origin is not None and k[1] == self.origin.id}
        return State(st.b, frozenset(al), facts, st.flags)

    # -- instructions -------------------------------------------------------------
    def report(self, rule, i, what):
        self.bad.setdefault((rule, i.id, what), (i, what))

    def touch(self, i, st, o, what):
        """an access through the address o"""
        if st.b in ("0", "f") and self.inside(st, o):
            if st.b == "0":
                self.report("null", i, "%s a block that could not be allocated" % what)
            else:
                self.report("after", i, "%s a block that was released" % what)
            return True
        return False

    def step(self, i, st):
        if okey({"k": "v", "n": i.id}) in st.al or ("v", i.id) in st.facts:
            if not (self.origin is i):
                st = st.to(al=st.al - {("v", i.id)})
                st.facts.pop(("v", i.id), None)
        if i.ty != "void" and any(refers(k, ("v", i.id)) for k in st.al):
            st = st.to(al=frozenset(k for k in st.al if not refers(k, ("v", i.id))))
        if i.op == "load":
            self.touch(i, st, i.ops[0], "reads")
            a = ("m",) + self.addr(i.ops[0])
            if a in st.al and i.ty == "ptr":
                return [st.to(al=st.al | {("v", i.id)})]
            return [st]
        if i.op == "store":
            return self.store(i, st)
        if i.op == "select" and i.ty == "ptr":
            c = self.val(st, i.ops[0])
            outs = []
            for k, t in ((1, True), (2, False)):
                if c is not None and (c != 0) != t:
                    continue
                s = self.learn(st, i.ops[0], t)
                if s is None:
                    continue
                if self.alias(s, i.ops[k]):
                    s = s.to(al=s.al | {("v", i.id)})
                outs.append(s)
            return outs
        if i.op == "select" and self.val(st, i.ops[0]) is None and any(o["k"] == "c" for o in i.ops[1:]) and i.ty != "i1":
            outs = []
            for k, t in ((1, True), (2, False)):
                s = self.learn(st, i.ops[0], t)
                if s is not None:
                    v = self.val(s, i.ops[k])
                    s = s.to()
                    if v is not None:
                        s.facts[("v", i.id)] = v
                    outs.append(s)
            return outs
        if i.op == "call":
            return self.call(i, st)
        return [st]

    def store(self, i, st):
        v, p = i.ops
        if st.b != "n":
            self.touch(i, st, p, "writes to")
        root, path = self.addr(p)
        cellkey = ("m", root, path)
        field = path[-1][1] if path and path[-1][0] == "f" else None
        al = frozenset(k for k in st.al if not refers(k, ("ld", root, path)))
        if al != st.al:
            st = st.to(al=al)
        if field == ALL and st.b != "0":
            on = self.val(st, v)
            fl = st.flags - {"flag"} if on == 0 else st.flags | {"flag"}
            st = st.to(flags=fl)
            if st.b == "val" and on != 0:
                st = st.to(b="k")
        if field == CNT:
            st = st.to(b="k") if st.b == "slot" else st.to(flags=st.flags | {"cnt"})
        if self.alias(st, v) and i.get("vty") == "ptr":
            if root[0] == "v" and self.f.insts[root[1]].op == "alloca":
                return [st.to(al=st.al | {cellkey})]
            if st.b == "0":
                return [st.to(al=st.al | {cellkey}, flags=st.flags | {"lost"})]
            if st.b == "f":
                self.report("after", i, "records a block that was released")
                return [st.to(al=st.al | {cellkey})]
            if st.b != "h":
                return [st]
            if field == VAL and not any(s[0] == "i" for s in path):
                return [st.to(b="k" if "flag" in st.flags or self.moved(root, path) else "val", al=st.al | {cellkey})]
            if any(s[0] == "i" and fieldof(s[1]) == CNT for s in path):
                return [st.to(b="k" if "cnt" in st.flags else "slot")]
            if self.inside(st, p):
                return [st]
            if self.origin is not None and self.moved(root, path):
                return [st.to(b="k", al=st.al | {cellkey})]
            return [st.to(b="k")]
        if st.b == "h" and i.get("vty") == "ptr" and v["k"] == "v" and self.S.isorigin(self.f.insts[v["n"]]) and self.inside(st, p):
            st = st.to(flags=st.flags | {"holds"})
        if cellkey in st.al:
            if st.b == "h" and not any(k[0] != "m" for k in st.al - {cellkey}) and not any(k[0] == "m" for k in st.al - {cellkey}):
                self.report("leak", i, "overwrites the only pointer to a block")
            return [st.to(al=st.al - {cellkey})]
        return [st]

    def moved(self, root, path):
        """the block replaces the one that was there, enlarged"""
        o = self.origin
        if o is None or o.callee_name() not in ("realloc", "reallocarray") or o.ops[0]["k"] != "v":
            return False
        x = self.f.insts[o.ops[0]["n"]]
        return x.op == "load" and self.addr(x.ops[0]) == (root, path)

    def call(self, i, st):
        mod, S = self.mod, self.S
        name = i.callee_name()
        if "holds" in st.flags and releaser(name) and i.ops[0]["k"] == "v":
            x = self.f.insts[i.ops[0]["n"]]
            if x.op == "load" and self.inside(st, x.ops[0]):
                st = st.to(flags=st.flags - {"holds"})
        if self.failat is i:
            # the call whose failure is followed
            s = st.to(b="x")
            s.facts[("v", i.id)] = self.start_fail
            return [s]
        if self.origin is i:
            return self.start_at(i, st, name) if self.start_at else self.begin(i, st, name)
        if name and name.startswith(("llvm.memset", "llvm.memcpy", "llvm.memmove")):
            root, path = self.addr(i.ops[0])
            st = st.to(al=frozenset(k for k in st.al if not (k[0] == "m" and k[1] == root and k[2][:len(path)] == path)))
        hit = [k for k, o in enumerate(i.ops) if st.b != "n" and self.alias(st, o)]
        part = [k for k, o in enumerate(i.ops) if st.b in ("0", "f") and k not in hit and self.inside(st, o)]
        if st.b in ("n", "k", "x") or not hit and not part:
            return self.others(i, st, name)
        if name in mod.defined:
            outs = [st]
            for k in hit:
                nxt = []
                for s in outs:
                    nxt += self.hand(i, s, mod.defined[name], k)
                outs = nxt
            for k in part:
                self.report("null" if st.b == "0" else "after", i, "hands on %s" % ("a block that could not be allocated" if st.b == "0" else "a block that was released"))
            return outs
        if name is None:
            # through a pointer: borrowed, unless it could be any releasing function
            return [st]
        rel = releaser(name)
        if rel and 0 in hit:
            return self.freed(i, st, rel)
        if name in ("realloc", "reallocarray") and 0 in hit:
            if st.b == "0":
                return [st]
            if st.b == "f":
                self.report("after", i, "grows a block that was released")
                return [st]
            ok = st.to(b="f")
            ok.facts[("v", i.id)] = "nz"
            no = st.to()
            no.facts[("v", i.id)] = 0
            return [ok, no]
        for k in hit + part:
            if st.b == "f":
                self.report("after", i, "hands %s a block that was released" % name)
            elif st.b == "0" and needs(name, k):
                self.report("null", i, "hands %s a block that could not be allocated" % name)
        return [st]

    def others(self, i, st, name):
        """a call the block is not given to, which may still set what is watched"""
        if self.sound and self.S.isorigin(i):
            st = st.to()
            st.facts[("v", i.id)] = "nz"
        if st.b == "val" and name in self.mod.defined and ALL in self.mod.modset(name)["fields"]:
            return [st.to(b="k")]
        if st.b == "slot" and name in self.mod.defined and CNT in self.mod.modset(name)["fields"]:
            return [st.to(b="k")]
        if st.b == "f" and any(k[0] == "m" for k in st.al):
            return self.S.cells(self, i, st, name)
        return [st]

    def freed(self, i, st, rel):
        if st.b == "0":
            return [st]
        if st.b == "f":
            self.report("after", i, "releases a block a second time")
            return [st]
        if self.origin is not None and self.origin.op == "call" and st.b == "h":
            want = self.S.kind(self.origin)
            if (want == "list" or "holds" in st.flags) and rel == "free":
                self.report("leak", i, "releases a list without the blocks it holds")
            elif want not in (None, "list", rel):
                self.report("after", i, "releases a block with %s that needs %s" % (rel, want))
        return [st.to(b="f")]

    def begin(self, i, st, name):
        """the call that yields the block"""
        if st.b in ("h", "slot") and not any(k != ("v", i.id) for k in st.al):
            self.report("leak", i, "a block obtained in an earlier round is neither stored, handed out nor released")
        kept = None
        if st.b == "h" and name in ("realloc", "reallocarray") and self.alias(st, i.ops[0]):
            kept = st.to(al=st.al - {("v", i.id)})
            kept.facts[("v", i.id)] = 0
        base = st.to(b="h", al=frozenset({("v", i.id)}), flags=st.flags - {"cnt"})
        base.facts.pop(("v", i.id), None)
        outs = [kept] if kept else []
        if self.S.follow != "null":
            outs.append(base)
        if self.S.follow != "held" and self.S.mayfail(i):
            outs.append(base.to(b="0"))
        if name in self.mod.defined and self.S.maynull(name):
            outs.append(self.absent(i, st))
        return outs

    def absent(self, i, st):
        """nothing was handed back, for a reason other than memory"""
        s = st.to(b="n", al=frozenset())
        s.facts[("v", i.id)] = 0
        return s

    def hand(self, i, st, g, k):
        """the block is passed to a library function"""
        if k >= len(g.params):
            if st.b == "0":
                self.report("null", i, "hands %s a block that could not be allocated as text to print" % g.src)
            elif st.b == "f":
                self.report("after", i, "hands %s a block that was released" % g.src)
            return [st]
        sm = self.S.param(g, k, st.b if st.b in ("0", "f") else "h")
        for (rule, _, what), (j, w) in sorted(sm.bad.items(), key=str):
            if rule in ("after", "null"):
                self.report(rule, i, "hands %s a block %s, which %s it" % (g.src, "that could not be allocated" if st.b == "0" else "that was released" if st.b == "f" else "", w.split()[0]))
        if sm.full or not sm.out:
            return [st] if sm.out or sm.full else []
        outs, seen = [], set()
        for b, r, fl in sorted(sm.out, key=str):
            s = st.to()
            if st.b in ("h", "slot", "val"):
                if b in ("f",):
                    s.b = "f"
                    if self.origin is not None and st.b == "h" and (self.S.kind(self.origin) == "list" or "holds" in st.flags) and not self.S.deepfree(g, k):
                        self.report("leak", i, "releases a list without the blocks it holds")
                elif b in ("k", "val", "slot"):
                    s.b = b
            v = {"z": 0, "nz": "nz"}.get(r)
            if r == "alias":
                s.al = s.al | {("v", i.id)}
            elif v is not None:
                s.facts[("v", i.id)] = v
            if s.key() not in seen:
                seen.add(s.key())
                outs.append(s)
        return outs

    def single(self, x):
        """an index that names one element rather than every one in turn"""
        if isinstance(x, tuple) and x[0] == "v":
            j = self.f.insts[x[1]]
            return j.op == "call"
        return isinstance(x, tuple) and x[0] == "a"

    # -- the end --------------------------------------------------------------------

    def ret(self, i, st):
        r = "?"
        if i.ops:
            o = i.ops[0]
            if st.b not in ("n",) and self.alias(st, o):
                r = "alias" if st.b != "0" else "z"
                if st.b == "f":
                    self.report("after", i, "returns a block that was released")
            else:
                v = self.val(st, o)
                r = "?" if v is None else "z" if v == 0 else "nz"
        if st.b == "f" and any(k[0] == "m" and any(s[0] == "i" and self.single(s[1]) for s in k[2]) for k in st.al):
            self.report("after", i, "returns while an element still records a block that was released")
        if st.b == "f" and any(k[0] == "m" and k[1][0] == "v" and k[2] and k[2][-1] == ("f", VAL) for k in st.al):
            self.report("after", i, "returns while an option still records a block that was released")
        cells = frozenset(k for k in st.al if k[0] == "m" and (k[1][0] == "a" or k[1][0] == "g" or k[1][0] == "ld")) if st.b == "f" else frozenset()
        self.out.add((st.b, r, cells))
        self.ends = getattr(self, "ends", [])
        self.ends.append((i, st, r))


def refers(k, ref):
    """does a cell depend on a value"""
    if k == ref:
        return False
    w = [k]
    while w:
        x = w.pop()
        if isinstance(x, tuple):
            for y in x:
                if y == ref:
                    return True
                w.append(y)
    return False


def fieldof(x):
    """field an index was loaded from"""
    if isinstance(x, tuple) and x and x[0] == "ld" and x[2] and x[2][-1][0] == "f":
        return x[2][-1][1]
    return None


class Blocks:
    """summaries of all functions"""

    def __init__(self, mod):
        self.mod = mod
        self.follow = "both"
        self.memo, self._deep, self.open = {}, {}, set()
        self.owners, self.fallible, self.nullable = {}, set(), set()
        self.taken = {n for f in mod.defined.values() for i in f.all_insts() for o in (i.ops if i.op != "phi" else [v for _, v in i.ops])
                      if isinstance(o, dict) and o["k"] == "f" for n in [o["n"]]} | addressed(mod)
        self.sites = {}
        for f in mod.defined.values():
            for i in f.all_insts():
                if i.op == "call" and i.callee_name() in mod.defined:
                    self.sites.setdefault(i.callee_name(), []).append(i)
        self.settle()

    def deep(self, f):
        """value -> everything computed from it that a test or an access may go through"""
        d = self._deep.get(f.name)
        if d is None:
            users = {}
            for i in f.all_insts():
                if i.op in ("zext", "sext", "trunc", "freeze", "bitcast", "icmp", "xor", "and", "or", "select", "getelementptr"):
                    for o in i.ops:
                        if o["k"] == "v":
                            users.setdefault(o["n"], set()).add(i.id)
            d = {}
            for v in users:
                seen, w = set(), [v]
                while w:
                    for u in users.get(w.pop(), ()):
                        if u not in seen:
                            seen.add(u)
                            w.append(u)
                d[v] = frozenset(seen)
            self._deep[f.name] = d
        return d

    # -- which functions hand out blocks
    def isorigin(self, i):
        n = i.callee_name() if i.op == "call" else None
        if i.op == "call" and n is None:
            return self.mod.callee_field(i) == "validator_entry_s.formatter"
        return n is not None and (family(n) is not None if n not in self.mod.defined else n in self.owners)

    def origins(self, f):
        return [i for i in f.all_insts() if self.isorigin(i)]

    def kind(self, i):
        n = i.callee_name()
        return "free" if n is None else family(n) if n not in self.mod.defined else self.owners.get(n)

    def mayfail(self, i):
        n = i.callee_name()
        return n not in self.mod.defined or n in self.fallible

    def maynull(self, n):
        return n in self.nullable

    def settle(self):
        while True:
            before = len(self.owners), len(self.fallible)
            for n, f in sorted(self.mod.defined.items()):
                if f.ret != "ptr":
                    continue
                for i in self.origins(f):
                    w = self.walk(f, i)
                    if any(b == "h" and r == "alias" for b, r, _ in w.out):
                        k = self.kind(i)
                        if any(s.op == "store" and s.get("vty") == "ptr" and w.addr(s.ops[1])[0] == ("v", i.id) and
                               s.ops[0]["k"] == "v" and self.isorigin(f.insts[s.ops[0]["n"]]) for s in f.all_insts()):
                            k = "list"
                        self.owners[n] = k if self.owners.get(n) in (None, k) else "list" if "list" in (k, self.owners[n]) else self.owners[n]
                        if any(b == "0" and r == "z" for b, r, _ in w.out):
                            self.fallible.add(n)
            self.memo.clear()
            if (len(self.owners), len(self.fallible)) == before:
                break
        for n in self.owners:
            w = Walk(self, self.mod.defined[n], [State("n")])
            w.sound = True
            w.run()
            if any(r == "z" for _, r, _ in w.out):
                self.nullable.add(n)
        self.memo.clear()

    def walk(self, f, i):
        k = ("origin", f.name, i.id)
        if k not in self.memo:
            self.memo[k] = Walk(self, f, [State("n")], i).run()
        return self.memo[k]

    # -- what functions do with blocks
    def param(self, g, k, b):
        key = ("param", g.name, k, b)
        if key in self.memo:
            return self.memo[key]
        if key in self.open:
            w = Walk(self, g, [])
            w.full = True
            return w
        self.open.add(key)
        w = Walk(self, g, [State(b, frozenset({("a", k)}))]).run()
        self.open.discard(key)
        self.memo[key] = w
        return w

    def frees(self, g, k):
        return any(b == "f" for b, _, _ in self.param(g, k, "h").out)

    def deepfree(self, g, k):
        """does it release what it finds in the block as well"""
        for i in g.all_insts():
            if i.op != "call":
                continue
            rel = releaser(i.callee_name())
            if rel and i.ops[0]["k"] == "v":
                x = g.insts[i.ops[0]["n"]]
                if x.op == "load" and Walk(self, g, []).addr(x.ops[0])[0] == ("a", k):
                    return True
            if i.callee_name() in self.mod.defined and i.callee_name() != g.name:
                for n, o in enumerate(i.ops):
                    if okey(o) == ("a", k) and self.deepfree(self.mod.defined[i.callee_name()], n):
                        return True
        return False

    # -- what stays behind in memory
    def cells(self, w, i, st, name):
        """a call while a released block is still recorded somewhere"""
        targets = [self.mod.defined[name]] if name in self.mod.defined else self.targets(i) if name is None else []
        if not targets:
            return [st]
        outs, seen = [], set()
        for g in targets:
            here = {}
            for k in st.al:
                if k[0] == "m":
                    for n, o in enumerate(i.ops):
                        t = into(k, w.addr(o), n)
                        if t:
                            here[k] = t
                            break
            if not here:
                rs = [(st.al, "?")]
            else:
                sm = self.cellwalk(g, frozenset(here.values()))
                for (rule, _, what), (j, t) in sorted(sm.bad.items(), key=str):
                    if rule == "after":
                        w.report(rule, i, "goes on to %s, which uses a block that was released" % g.src)
                rs = [(frozenset(k for k in st.al if k not in here or here[k] in c), r) for b, r, c in sm.out] if not sm.full else [(st.al, "?")]
            for al, r in rs:
                s = st.to(al=al)
                v = {"z": 0, "nz": "nz"}.get(r)
                if v is not None:
                    s.facts[("v", i.id)] = v
                if s.key() not in seen:
                    seen.add(s.key())
                    outs.append(s)
        return outs

    def cellwalk(self, g, cells):
        key = ("cells", g.name, cells)
        if key in self.memo:
            return self.memo[key]
        if key in self.open or len(self.open) > 8:
            w = Walk(self, g, [])
            w.full = True
            return w
        self.open.add(key)
        w = Walk(self, g, [State("f", cells)]).run()
        self.open.discard(key)
        self.memo[key] = w
        return w

    def targets(self, i):
        fld = self.mod.callee_field(i)
        if fld != OPT + "free_handler":
            return []
        return [self.mod.defined[n] for n in sorted(self.taken | set(freehandlers(self.mod))) if n in self.mod.defined and self.mod.defined[n].ret == "i32" and
                len(self.mod.defined[n].params) == 1 and "argus_option_t" in self.mod.defined[n].sig_of(0)]


def addressed(mod):
    """functions whose address is taken outside function bodies"""
    out = set()

    def walk(x):
        if isinstance(x, dict):
            if x.get("k") == "f":
                out.add(x.get("n"))
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    for g in mod.d["globals"]:
        walk(g)
    return out


def freehandlers(mod):
    """functions the option macros may name: releasing an option's value"""
    return [n for n, f in mod.defined.items() if f.ret == "i32" and len(f.params) == 1 and "argus_option_t" in f.sig_of(0) and not f.d.get("internal")]


def into(k, place, n):
    """a cell of the caller as the callee sees it through its parameter"""
    r0, p0 = place

    def sub(r, q):
        if r == r0 and q[:len(p0)] == p0:
            return ("a", n), q[len(p0):]
        if not p0 and ("ld",) + (r, q) == r0:
            return None
        if r[0] == "ld":
            t = sub(r[1], r[2])
            if t:
                return ("ld",) + t, q
            if r == r0 and not p0:
                return ("a", n), q
        return None
    t = sub(k[1], k[2])
    return ("m",) + t if t else None


def outof(k, w, i):
    """a cell of a callee as the caller sees it"""
    def sub(r, q):
        if r[0] == "a":
            if r[1] >= len(i.ops):
                return None
            r0, p0 = w.addr(i.ops[r[1]])
            return r0, p0 + q
        if r[0] == "ld":
            t = sub(r[1], r[2])
            return (("ld",) + t, q) if t else None
        return (r, q) if r[0] == "g" else None
    if any(isinstance(x, tuple) and x[0] == "i" and not isinstance(x[1], int) for x in k[2]):
        return None
    t = sub(k[1], k[2])
    return ("m",) + t if t else None


def releases(S, f):
    """calls after which a block must not be used: (call, operand, how)"""
    out = []
    for i in f.all_insts():
        if i.op != "call":
            continue
        n = i.callee_name()
        if releaser(n) or n in ("realloc", "reallocarray"):
            out.append((i, 0, n))
        elif n in S.mod.defined:
            g = S.mod.defined[n]
            for k, o in enumerate(i.ops):
                if o["k"] in ("v", "a") and k < len(g.params) and S.frees(g, k):
                    out.append((i, k, n))
    return out


def before(f, x, y):
    """does x come first whenever y is reached"""
    if x.block == y.block:
        b = f.blocks[x.block]
        return b.index(x) < b.index(y)
    return x.block in f.dominators().get(y.block, ())


def afterwards(S, f, i, k, n):
    """the walk from a release on"""
    key = ("after", f.name, i.id, k)
    if key in S.memo:
        return S.memo[key]
    w = Walk(S, f, [State("n")], i)

    def start(j, st, name):
        o = i.ops[k]
        al = {okey(o)}
        while o["k"] == "v":
            x = f.insts[o["n"]]
            if x.op in ("bitcast", "freeze"):
                o = x.ops[0]
                al.add(okey(o))
                continue
            if x.op == "load":
                c = w.addr(x.ops[0])
                if not any(y.op == "store" and w.addr(y.ops[1]) == c and before(f, x, y) and before(f, y, i) for y in f.all_insts()):
                    al.add(("m",) + c)
                for y in f.all_insts():
                    if y.op == "load" and y.ty == "ptr" and w.addr(y.ops[0]) == c and (y.block != i.block or y.id < i.id):
                        if y.block in f.dominators().get(i.block, ()):
                            al.add(("v", y.id))
            break
        base = st.to(b="f", al=frozenset(al))
        if n in ("realloc", "reallocarray"):
            base.facts[("v", i.id)] = "nz"
            none = st.to(b="k", al=frozenset())
            none.facts[("v", i.id)] = 0
            return [base, none]
        if n in S.mod.defined:
            outs = []
            for b, r, c in S.param(S.mod.defined[n], k, "h").out:
                s = base.to() if b == "f" else st.to(b="k", al=frozenset())
                v = {"z": 0, "nz": "nz"}.get(r)
                if v is not None:
                    s.facts[("v", i.id)] = v
                outs.append(s)
            return outs
        return [base]
    w.start_at = start
    S.memo[key] = w.run()
    return w


def dangling(S):
    """functions that return with the address of a released block still recorded where their caller can see it"""
    left = {}           # function -> set of cells
    work = sorted(S.mod.defined)
    walks = []
    for rnd in range(6):
        changed = False
        for n in work:
            f = S.mod.defined[n]
            for i, k, c in releases(S, f):
                if rnd:
                    break
                w = afterwards(S, f, i, k, c)
                walks.append((f, i, w))
                for b, r, cs in w.out:
                    if b == "f" and cs - left.get(n, set()):
                        left.setdefault(n, set()).update(cs)
                        changed = True
            for i in f.all_insts():
                if i.op != "call":
                    continue
                ts = [i.callee_name()] if i.callee_name() in S.mod.defined else [g.name for g in S.targets(i)] if i.callee_name() is None else []
                cells = frozenset(o for t in ts for k in left.get(t, ()) for o in [outof(k, Walk(S, f, []), i)] if o)
                if not cells or (n, i.id, cells) in S.memo:
                    continue
                w = Walk(S, f, [State("n")], i)
                w.start_at = lambda j, st, name, cells=cells: [st.to(b="f", al=cells)]
                S.memo[(n, i.id, cells)] = w
                w.run()
                walks.append((f, i, w))
                for b, r, cs in w.out:
                    if b == "f" and cs - left.get(n, set()):
                        left.setdefault(n, set()).update(cs)
                        changed = True
        if not changed:
            break
    return left, walks


def short(mod, k):
    p = k[2]
    return next((s[1].split(".")[-1] for s in reversed(p) if s[0] == "f" and isinstance(s[1], str)), "memory")


def run_release(ctx):
    """P18"""
    mod = ctx.mod
    for r, t in (("after", "a block that was released is neither used, handed on nor released again"), ("left", "no function of the interface or callback returns while an option still records a released block")):
        ctx.rule(r, t)
    S = Blocks(mod)
    seen = set()

    def tell(rule, f, i, what):
        k = (f.src, i.loc, what)
        if k not in seen:
            seen.add(k)
            ctx.violation(rule, where(f), what, str(i.loc))
    full = 0
    for n, f in sorted(mod.defined.items()):
        for i in S.origins(f):
            w = S.walk(f, i)
            ctx.inst("after")
            full += w.full
            for (rule, _, what), (j, t) in sorted(w.bad.items(), key=str):
                if rule == "after":
                    tell("after", f, j, t)
    left, walks = dangling(S)
    for f, i, w in walks:
        ctx.inst("after")
        full += w.full
        for (rule, _, what), (j, t) in sorted(w.bad.items(), key=str):
            if rule == "after":
                tell("after", f, j, t)
    frees = {g.name for i in (i for f in mod.defined.values() for i in f.all_insts() if i.op == "call" and i.callee_name() is None) for g in S.targets(i)}
    for n, f in sorted(mod.defined.items()):
        top = not f.d.get("internal") and n not in frees and not S.sites.get(n) or n in S.taken and n not in frees
        if not top:
            continue
        ctx.inst("left")
        for k in sorted(left.get(n, ()), key=str):
            ctx.violation("left", where(f), "returns while %s still records a block that was released" % short(mod, k), short(mod, k))
    ctx.setcount("releases followed", len(walks))
    ctx.setcount("walks cut short", full)


def run_leaks(ctx):
    """P17"""
    mod = ctx.mod
    for r, t in (("kept", "a block obtained is stored, handed out or released on every path"), ("counted", "an element stored behind the last one is counted"),
                 ("found", "a block stored as an option's value is marked as allocated"), ("owner", "what records a block is released somewhere, with the block"),
                 ("filled", "a function's own structure that was filled with blocks is released before it returns"), ("every", "a loop releasing a list's elements reaches every one"),
                 ("callback", "what a value handler allocates, the release callback defined with it frees"),
                 ("dropped", "an element taken out of a collection is released"), ("replaced", "an element's block is released before another takes its place")):
        ctx.rule(r, t)
    S = Blocks(mod)
    import owned
    own = owned.lists(ctx, S)
    owned.filled(ctx, S, own)
    owned.every(ctx, S)
    owned.dropped(ctx, S)
    owned.replaced(ctx, S)
    owned.callbacks(ctx, S)
    full = 0
    seen = set()

    def tell(rule, f, i, what, key):
        k = (f.src, i.loc, what)
        if k not in seen:
            seen.add(k)
            ctx.violation(rule, where(f), what, str(key))
    vals = {}
    for n, f in sorted(mod.defined.items()):
        for i in S.origins(f):
            w = S.walk(f, i)
            full += w.full
            ctx.inst("kept")
            for (rule, _, what), (j, t) in sorted(w.bad.items(), key=str):
                if rule == "leak":
                    tell("kept", f, j, t, j.loc)
            for r, st, c in w.ends:
                if st.b == "h" and c != "alias":
                    tell("kept", f, i, "the block from %s is neither stored, handed out nor released on a path that returns" % i.callee_name(), i.loc)
                elif st.b == "slot":
                    tell("counted", f, i, "the block from %s is stored behind the last element without being counted" % i.callee_name(), i.loc)
                elif st.b == "val":
                    vals.setdefault(n, []).append((i, c))
            if any(s.op == "store" and any(x[0] == "i" and fieldof(x[1]) == CNT for x in w.addr(s.ops[1])[1]) for s in f.all_insts()):
                ctx.inst("counted")
            if any(s.op == "store" and okey(s.ops[0]) == ("v", i.id) and (w.addr(s.ops[1])[1] or (0,))[-1] == ("f", VAL) for s in f.all_insts()):
                ctx.inst("found")
    done = set()
    while vals:
        n, es = vals.popitem()
        if n in done:
            continue
        done.add(n)
        f = mod.defined[n]
        if not S.sites.get(n) or n in S.taken or not f.d.get("internal") and not S.sites.get(n):
            tell("found", f, es[0][0], "stores a block as an option's value without marking it as allocated", es[0][0].loc)
            continue
        for i in S.sites[n]:
            h = i.fn
            for r in {r for _, r in es}:
                w = Walk(S, h, [State("n")], i)

                def start(j, st, name, r=r):
                    s = st.to(b="k" if "flag" in st.flags else "val")
                    v = {"z": 0, "nz": "nz"}.get(r)
                    if v is not None:
                        s.facts[("v", j.id)] = v
                    return [s]
                w.start_at = start
                w.run()
                ctx.inst("found")
                for q, st, c in w.ends if hasattr(w, "ends") else ():
                    if st.b == "val":
                        vals.setdefault(h.name, []).append((i, c))
    ctx.setcount("blocks followed", sum(len(S.origins(f)) for f in mod.defined.values()))
    ctx.setcount("walks cut short", full)


def run_failures(ctx):
    """P16"""
    mod = ctx.mod
    for r, t in (("checked", "a block is used only where it is known that it could be allocated"), ("reported", "a function of parsing does not report success when it could not allocate a block"),
                 ("code", "storing a value that could not be allocated fails with the memory error"), ("passed on", "a failure for lack of memory is not turned into success")):
        ctx.rule(r, t)
    S = Blocks(mod)
    mem = mod.enum("ARGUS_ERROR_MEMORY")
    handlers = [n for n, f in mod.defined.items() if f.ret == "i32" and len(f.params) == 3 and "argus_t" in f.sig_of(0) and "argus_option_t" in f.sig_of(1) and
                "char" in f.sig_of(2) and not f.d.get("internal") and not has(mod, f, HANDLER) and any(i.op == "ret" for i in f.all_insts())]
    if not handlers:
        raise Broken("no functions that set an option's value found")
    below, w = set(), list(handlers)
    while w:
        n = w.pop()
        if n in mod.defined and n not in below:
            below.add(n)
            w += [i.callee_name() for i in mod.defined[n].all_insts() if i.op == "call" and i.callee_name()]
    parse = set(below)
    for n in mod.defined:
        if n in ("argus_parse", "_argus_init_validate") or mod.defined[n].ret == "i32" and len(mod.defined[n].params) == 3 and "validator_data_t" in " ".join(mod.defined[n].sig):
            parse |= reach(mod, n)
    seen = set()

    def tell(rule, f, i, what):
        k = (f.src, i.loc, rule, what)
        if k not in seen:
            seen.add(k)
            ctx.violation(rule, where(f), what, str(i.loc))
    fails = {}
    full = 0
    for n, f in sorted(mod.defined.items()):
        for i in S.origins(f):
            w = S.walk(f, i)
            full += w.full
            ctx.inst("checked")
            for (rule, _, what), (j, t) in sorted(w.bad.items(), key=str):
                if rule == "null":
                    tell("checked", f, j, t)
            for r, st, c in getattr(w, "ends", ()):
                if st.b == "0" and c == "nz" and f.ret == "ptr" and "lost" in st.flags:
                    tell("checked", f, i, "records a block that could not be allocated and goes on as if it could")
            if f.ret != "i32" or n not in parse:
                continue
            pure = i.callee_name() not in mod.defined or not S.maynull(i.callee_name())
            for r, st, c in w.ends:
                if st.b != "0":
                    continue
                if pure:
                    ctx.inst("reported")
                    if c == "z":
                        tell("reported", f, i, "returns success although %s could not allocate a block" % i.callee_name())
                if c == "nz":
                    v = w.val(st, r.ops[0])
                    if n in below and family(i.callee_name()) in ("free", None):
                        ctx.inst("code")
                        if isinstance(v, int) and v != mem:
                            tell("code", f, i, "fails with another error than the memory error when %s could not allocate a block" % i.callee_name())
                    fails[n] = mem if v == mem else "nz"
    done = set()
    while True:
        todo = [(n, i) for n in sorted(fails) for i in S.sites.get(n, ()) if (n, i.fn.name, i.id) not in done and i.fn.ret == "i32" and i.fn.name in parse]
        if not todo:
            break
        for n, i in todo:
            done.add((n, i.fn.name, i.id))
            f = i.fn
            w = Walk(S, f, [State("n")], None, i)
            w.start_fail = fails[n]
            w.run()
            ctx.inst("passed on")
            for r, st, c in getattr(w, "ends", ()):
                if st.b != "x":
                    continue
                if c == "z":
                    tell("passed on", f, i, "returns success although %s failed for lack of memory" % mod.defined[n].src)
                v = w.val(st, r.ops[0])
                if c == "nz" and f.name in below and isinstance(v, int) and fails[n] == mem and v != mem:
                    tell("code", f, i, "turns the memory error of %s into another" % mod.defined[n].src)
                if c != "z":
                    fails.setdefault(f.name, mem if v == mem else "nz")
    ctx.setcount("blocks followed", sum(len(S.origins(f)) for f in mod.defined.values()))
    ctx.setcount("functions that report lack of memory", len(fails))
    ctx.setcount("walks cut short", full)
