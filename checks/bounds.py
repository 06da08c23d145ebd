"""Writes into buffers of a known size (P14)."""
import os
import re
import shutil
import tempfile
import ir
from fractions import Fraction
from ir import operands
from progress import FLIP, NEG, CASTS, cell_step   # noqa: F401
from roles import *

ALLOC = {"malloc": 0, "realloc": 1, "calloc": None, "reallocarray": None}
DUP = {"strdup", "safe_strdup", "strndup"}
LIBC = {   # (buffer, how many bytes at most): ("n", arg) / ("len1", arg) / ("cat", arg) / ("fmt", arg)
    "snprintf": (0, ("n", 1)), "vsnprintf": (0, ("n", 1)), "strncpy": (0, ("n", 2)), "memcpy": (0, ("n", 2)), "memmove": (0, ("n", 2)), "memset": (0, ("n", 2)),
    "mempcpy": (0, ("n", 2)), "strcpy": (0, ("len1", 1)), "stpcpy": (0, ("len1", 1)), "strcat": (0, ("cat", 1)), "strncat": (0, ("catn", 2)), "sprintf": (0, ("fmt", 1)),
    "vsprintf": (0, ("fmt", 1)), "read": (1, ("n", 2)), "recv": (1, ("n", 2)), "fgets": (0, ("n", 1)), "gets": (0, ("any", 0)), "strlcpy": (0, ("n", 2)), "strlcat": (0, ("n", 2)),
    "fread": (0, ("mul", 1)), "getcwd": (0, ("n", 1)), "strftime": (0, ("n", 1)), "pcre2_get_error_message_8": (1, ("n", 2)), "bzero": (0, ("n", 1))}


class Lin(dict):
    def plus(self, o, k=1):
        r = Lin(self)
        for s, v in o.items():
            r[s] = r.get(s, 0) + k * v
            if r[s] == 0:
                del r[s]
        return r

    def key(self):
        return tuple(sorted(self.items(), key=str))


def const(n):
    return Lin({1: Fraction(n)} if n else {})


class Fn:
    """what is known inside one function"""

    def __init__(self, B, f):
        self.B, self.f, self.mod = B, f, B.mod
        self.dom = f.dominators()
        self.marks = [i for i in f.all_insts() if i.op == "store" and i.get("vty") == "i8"]
        self.writes = [i for i in f.all_insts() if i.op == "call" and i.callee_name() not in ("strlen",) and i.callee_name() not in PRINTS]
        self._reach = {}

    # -- values
    def lin(self, o, n=0):
        """a linear form; symbols are values as they are used in 64 bits"""
        if o["k"] == "c":
            return const(int(o["v"]))
        if o["k"] == "a":
            return Lin({("a", o["n"]): Fraction(1)})
        if o["k"] != "v" or n > 30:
            return Lin({("?", str(o)): Fraction(1)})
        x = self.f.insts[o["n"]]
        if x.op == "sub":
            d = self.apart(x)
            if d is not None:
                return d
        if x.op in ("add", "sub"):
            return self.lin(x.ops[0], n + 1).plus(self.lin(x.ops[1], n + 1), 1 if x.op == "add" else -1)
        if x.op == "mul" and any(c["k"] == "c" for c in x.ops):
            a, c = x.ops if x.ops[1]["k"] == "c" else x.ops[::-1]
            return const(0).plus(self.lin(a, n + 1), int(c["v"]))
        if x.op == "shl" and x.ops[1]["k"] == "c":
            return const(0).plus(self.lin(x.ops[0], n + 1), 1 << int(x.ops[1]["v"]))
        if x.op in ("sext", "freeze", "bitcast"):
            return self.lin(x.ops[0], n + 1)
        if x.op == "zext":
            l = self.lin(x.ops[0], n + 1)
            if self.unsigned(x.ops[0]):
                return l
            return Lin({("zx", x.ops[0].get("n"), x.ops[0]["k"], int((x.get("from") or "i64")[1:])): Fraction(1)})
        if x.op == "call" and x.callee_name() == "strlen":
            return Lin({("len", self.ptr(x.ops[0]), x.id): Fraction(1)})
        return Lin({("v", x.id): Fraction(1)})

    def apart(self, x):
        """how far one pointer is beyond another into the same object"""
        bs = []
        for v in x.ops:
            if v["k"] != "v" or self.f.insts[v["n"]].op != "ptrtoint":
                return None
            bs.append(self.base(self.f.insts[v["n"]].ops[0]))
        if None in bs or bs[0][0] != bs[1][0]:
            return None
        return bs[0][1].plus(bs[1][1], -1)

    def unsigned(self, o):
        """the value is not negative as a signed number either"""
        return o["k"] == "c" and int(o["v"]) >= 0

    def ptr(self, o):
        """name of a pointer value"""
        while o["k"] == "v" and self.f.insts[o["n"]].op in ("bitcast", "freeze"):
            o = self.f.insts[o["n"]].ops[0]
        if o["k"] == "v":
            x = self.f.insts[o["n"]]
            if x.op == "getelementptr" and all("i" in s and s["i"]["k"] == "c" and int(s["i"]["v"]) == 0 for s in x.get("steps")):
                return self.ptr(x.ops[0])
        return (o["k"], o.get("n"))

    # -- places
    def base(self, o, n=0):
        """(object, offset) a pointer points at, None when of unknown kind"""
        if o["k"] == "g":
            g = self.mod.globals.get(o["n"]) if hasattr(self.mod, "globals") else None
            return (("g", o["n"]), const(0))
        if o["k"] == "gep":
            return (("g", o["base"]["n"]), const(int(o.get("off", 0)))) if o["base"]["k"] == "g" else None
        if o["k"] == "a":
            return (("a", o["n"]), const(0))
        if o["k"] != "v" or n > 20:
            return None
        x = self.f.insts[o["n"]]
        if x.op == "getelementptr":
            b = self.base(x.ops[0], n + 1)
            if b is None:
                return None
            off = b[1]
            for s in x.get("steps"):
                if "i" in s:
                    off = off.plus(self.lin(s["i"]), s["sz"])
                else:
                    off = off.plus(const(s["off"]))
            return (b[0], off)
        if x.op in ("bitcast", "freeze"):
            return self.base(x.ops[0], n + 1)
        if x.op == "alloca":
            return (("o", x.id), const(0))
        if x.op == "call" or x.op in ("phi", "select"):
            return (("o", x.id), const(0))
        return None

    def size(self, obj):
        """how large an object is, as a linear form; None when that is not known here"""
        if obj[0] == "g":
            s = self.B.gsize.get(obj[1])
            return const(s) if s else None
        if obj[0] == "a":
            k = self.B.contract(self.f).get(obj[1])
            return Lin({("S", obj[1]) if k is None else ("a", k): Fraction(1)})
        x = self.f.insts[obj[1]]
        if x.op == "alloca":
            return const(x.get("size"))
        if x.op == "call":
            c = x.callee_name()
            if c == "calloc" or c == "reallocarray":
                a, b = x.ops[-2:]
                if a["k"] != "c":
                    a, b = b, a
                if a["k"] == "c":
                    return const(0).plus(self.lin(b), int(a["v"]))
                return None
            if c in ALLOC:
                return self.lin(x.ops[ALLOC[c]])
            if c in ("strdup", "safe_strdup"):
                return Lin({("len", self.ptr(x.ops[0]), None): Fraction(1)}).plus(const(1))
        if x.op == "phi":
            for q in self.f.blocks[x.block]:
                if q.op == "phi" and q.ty == "i64":
                    c = self.paired(x, q, frozenset())
                    if c is not None and c != "same":
                        return Lin({("v", q.id): Fraction(1)}).plus(const(c))
        return None

    def paired(self, p, q, assumed):
        """a pointer that always comes with the size of what it points at: how much more (or less) that size is at least"""
        if (p.id, q.id) in assumed:
            return "same"
        if p.block != q.block or len(assumed) > 8:
            return None
        assumed = assumed | {(p.id, q.id)}
        sizes = dict(q.ops)
        low = "same"
        for pb, v in p.ops:
            n = sizes.get(pb)
            if n is None:
                return None
            if v["k"] != "v":
                if v["k"] != "c" or n["k"] != "c":
                    return None
                d = -int(n["v"])
            else:
                x = self.f.insts[v["n"]]
                if x.op == "phi":
                    y = self.f.insts[n["n"]] if n["k"] == "v" else None
                    d = self.paired(x, y, assumed) if y is not None and y.op == "phi" else None
                else:
                    z = self.size(("o", x.id)) if x.op in ("call", "alloca") else None
                    d = z.plus(self.lin(n), -1) if z is not None else None
                    d = None if d is None or set(d) - {1} else d.get(1, 0)
            if d is None:
                return None
            if d != "same":
                low = d if low == "same" else min(low, d)
        return low

    # -- what is known
    def reaches(self, a, b):
        """can instruction a be followed by b"""
        if a.block == b.block:
            bl = self.f.blocks[a.block]
            if bl.index(a) < bl.index(b):
                return True
        if a.block not in self._reach:
            seen, w = set(), list(self.f.succ[a.block])
            while w:
                x = w.pop()
                if x not in seen:
                    seen.add(x)
                    w += self.f.succ[x]
            self._reach[a.block] = seen
        return b.block in self._reach[a.block]

    def now(self, p, at):
        """a length of the text at p taken before and still right at instruction `at`"""
        out = []
        for x in self.f.all_insts():
            if x.op == "call" and x.callee_name() == "strlen" and self.ptr(x.ops[0]) == p and x is not at:
                if x.block == at.block and self.f.blocks[x.block].index(x) > self.f.blocks[x.block].index(at) or x.block not in self.dom.get(at.block, ()):
                    continue
                if self.between(x, at, p):
                    continue
                out.append(("len", p, x.id))
        return out

    def between(self, x, at, p):
        """is the text at p written after x and before at"""
        return any(w is not at and w is not x and any(self.ptr(o) == p for o in w.ops) and self.reaches(x, w) and self.reaches(w, at) and self.mayset(w, p) for w in self.writes) or \
            any(w is not at and w is not x and self.reaches(x, w) and self.reaches(w, at) and self.textof(w.ops[1])[0] == p for w in self.marks)

    def written(self, p, at):
        """at most how long the text at p is, from what last wrote all of it"""
        out = []
        for w in self.f.all_insts():
            if w is at or w.block not in self.dom.get(at.block, ()) or w.block == at.block and self.f.blocks[w.block].index(w) > self.f.blocks[w.block].index(at):
                continue
            n = None
            if w.op == "store" and w.get("vty") == "i8":
                t, off = self.textof(w.ops[1])
                if t == p and w.ops[0]["k"] == "c" and int(w.ops[0]["v"]) == 0:
                    n = off
            elif w.op == "call":
                c = w.callee_name() or ""
                if c in ("strcpy", "stpcpy") and self.ptr(w.ops[0]) == p:
                    n = self.length(w.ops[1])
                elif c in ("strdup", "safe_strdup") and p == ("v", w.id):
                    n = self.length(w.ops[0])
                elif c in ("snprintf", "sprintf") and self.ptr(w.ops[0]) == p:
                    a = 2 if c == "snprintf" else 1
                    s = self.mod.string_at(w.ops[a]["n"]) if w.ops[a]["k"] == "g" else None
                    s = printed(s.split(b"\0")[0]) if s is not None else None
                    if s is not None:
                        n = const(s)
                    elif c == "snprintf":
                        n = self.lin(w.ops[1]).plus(const(-1))
                        if not w.ops[1]["k"] == "c" or int(w.ops[1]["v"]) == 0:
                            n = None
                elif c.startswith("llvm.memset") and self.ptr(w.ops[0]) == p and w.ops[1]["k"] == "c" and int(w.ops[1]["v"]) == 0:
                    n = const(0)
            if n is not None and not self.between(w, at, p):
                out.append(n)
        return out

    def length(self, o):
        s = self.mod.string_at(o["n"]) if o["k"] == "g" else None
        return const(len(s.split(b"\0")[0])) if s is not None else Lin({("len", self.ptr(o), None): Fraction(1)})

    def textof(self, p):
        """(text, offset) a pointer to a byte points into"""
        off = const(0)
        while p["k"] == "v":
            y = self.f.insts[p["n"]]
            if y.op == "getelementptr" and all("i" in s and (s["sz"] == 1 or s["i"]["k"] == "c" and int(s["i"]["v"]) == 0) for s in y.get("steps")):
                for s in y.get("steps"):
                    if s["sz"] == 1:
                        off = off.plus(self.lin(s["i"]))
                p = y.ops[0]
            elif y.op in ("bitcast", "freeze"):
                p = y.ops[0]
            else:
                break
        return self.ptr(p), off

    def mayset(self, w, p):
        c = w.callee_name()
        if c in LIBC:
            return self.ptr(w.ops[LIBC[c][0]]) == p
        return c not in ("strcmp", "strncmp", "strchr", "strstr", "free")

    def test(self, o, truth, depth=0):
        """facts (each a linear form <= 0) a condition gives"""
        if o["k"] != "v" or depth > 8:
            return []
        x = self.f.insts[o["n"]]
        if x.op == "icmp":
            return self.compare(x.get("pred") if truth else NEG[x.get("pred")], x.ops[0], x.ops[1], x)
        if x.op == "xor" and x.ops[1]["k"] == "c":
            return self.test(x.ops[0], not truth, depth + 1)
        if x.op in ("freeze", "zext", "trunc"):
            return self.test(x.ops[0], truth, depth + 1)
        if x.op == ("and" if truth else "or"):
            return [q for v in x.ops for q in self.test(v, truth, depth + 1)]
        if x.op == "select":
            for k in (1, 2):
                v = x.ops[k]
                if v["k"] == "c" and bool(int(v["v"]) & 1) != truth:
                    return self.test(x.ops[0], k != 1, depth + 1) + self.test(x.ops[3 - k], truth, depth + 1)
            return []
        if x.op == "phi":
            can = [(pb, v) for pb, v in x.ops if v["k"] != "c" or bool(int(v["v"]) & 1) == truth]
            if len(can) == 1:
                pb, v = can[0]
                return self.test(v, truth, depth + 1) + self.edge(pb, x.block, depth + 1) + self.at(pb, depth + 1)
        return []

    def byte(self, o, n=0):
        """(text, offset) a byte was read at"""
        if o["k"] != "v" or n > 6:
            return None
        x = self.f.insts[o["n"]]
        if x.op in ("sext", "zext", "freeze", "trunc"):
            return self.byte(x.ops[0], n + 1)
        if x.op != "load" or x.ty != "i8":
            return None
        return self.textof(x.ops[0])

    def compare(self, pred, a, b, x):
        if pred in ("eq", "ne") and b["k"] == "c" and (pred == "ne") == (int(b["v"]) == 0):
            t = self.byte(a)
            if t:
                # not the terminator, so before it
                return [("le", t[1].plus(const(1)).plus(Lin({("len", t[0], None): Fraction(1)}), -1), None)]
        la, lb = self.lin(a), self.lin(b)
        if pred in ("ugt", "uge", "sgt", "sge"):
            pred, la, lb, a, b = FLIP[pred], lb, la, b, a
        if pred == "eq":
            return [("le", la.plus(lb, -1), None), ("le", lb.plus(la, -1), None)]
        if pred == "ne":
            # a length or an unsigned number other than zero
            if lb == {} and len(la) == 1 and 1 not in la and list(la.values()) == [1]:
                return [("le", const(1).plus(la, -1), [la])]
            return []
        need = self.wraps(b) if pred[0] == "u" else []
        return [("le", la.plus(lb, -1).plus(const(1 if pred[1:] == "lt" else 0)), need or None)]

    def wraps(self, o, n=0):
        """subtractions inside an unsigned value that must not have wrapped"""
        if o["k"] != "v" or n > 10:
            return []
        x = self.f.insts[o["n"]]
        out = []
        if x.op == "sub":
            out.append(self.lin(o))
        if x.op == "sext" and n == 0:
            out.append(self.lin(o))
        if x.op in ("add", "sub", "mul", "shl", "zext", "freeze"):
            for v in x.ops:
                out += self.wraps(v, n + 1)
        if x.op == "add" and x.ops[1]["k"] == "c" and int(x.ops[1]["v"]) < 0:
            out.append(self.lin(o))
        return out

    def edge(self, pb, b, depth=0):
        t = self.f.blocks[pb][-1]
        ss = self.f.succ[pb]
        if t.op == "br" and len(ss) == 2 and ss[0] != ss[1]:
            return self.test(t.ops[0], ss[0] == b, depth)
        return []

    def at(self, b, depth=0):
        """facts at the start of block b"""
        out = []
        for a in self.dom.get(b, ()):
            for s in self.f.succ[a]:
                if s in self.dom[b] and self.f.pred[s] == [a]:
                    out += self.edge(a, s, depth)
        return out

    def implicit(self, s):
        """facts about one symbol"""
        if s[0] == "len":
            out = [("le", Lin({s: Fraction(-1)}), None)]
            p = s[1]
            b = self.base({"k": p[0], "n": p[1]}) if p[0] in ("v", "a", "g") else None
            if b:
                z = self.size(b[0])
                if z is not None:
                    # the terminator lies within the object
                    out.append(("le", Lin({s: Fraction(1)}).plus(b[1]).plus(const(1)).plus(z, -1), None))
            return out
        if s[0] == "zx":
            return [("le", Lin({s: Fraction(-1)}), None), ("le", Lin({s: Fraction(1)}).plus(const((1 << s[3]) - 1), -1), None)]
        if s[0] == "S":
            return [("le", Lin({s: Fraction(-1)}), None)]
        if s[0] == "a":
            return [("le", Lin({s: Fraction(-1)}), None)] if self.B.alone and self.f.sig_of(s[1]) == "size_t" else []
        if s[0] == "v":
            x = self.f.insts[s[1]]
            out = []
            if x.op == "call" and x.callee_name() in ("strspn", "strcspn", "strnlen", "fread"):
                out.append(("le", Lin({s: Fraction(-1)}), None))
            if x.op == "call" and x.callee_name() in ("strnlen",):
                out.append(("le", Lin({s: Fraction(1)}).plus(self.lin(x.ops[1]), -1), None))
            if x.op == "call" and x.callee_name() in ("snprintf", "sprintf"):
                o = x.ops[2 if x.callee_name() == "snprintf" else 1]
                t = self.mod.string_at(o["n"]) if o["k"] == "g" else None
                n = printed(t.split(b"\0")[0]) if t is not None else None
                if n is not None:
                    out += [("le", Lin({s: Fraction(-1)}), None), ("le", Lin({s: Fraction(1)}).plus(const(n), -1), None)]
            if x.op == "call" and x.callee_name() in ("read", "recv"):
                out.append(("le", Lin({s: Fraction(1)}).plus(self.lin(x.ops[2]), -1), None))
            if x.op == "trunc":
                y = x.ops[0]
                if y["k"] == "v" and self.f.insts[y["n"]].op == "call" and self.f.insts[y["n"]].callee_name() in ("read", "recv"):
                    return [("le", Lin({s: Fraction(1)}).plus(self.lin(self.f.insts[y["n"]].ops[2]), -1), None)]
            if x.op == "urem" and x.ops[1]["k"] == "c":
                out += [("le", Lin({s: Fraction(-1)}), None), ("le", Lin({s: Fraction(1)}).plus(const(int(x.ops[1]["v"]) - 1), -1), None)]
            if x.op == "and":
                c = next((int(v["v"]) for v in x.ops if v["k"] == "c"), None)
                if c is not None and c >= 0:
                    out += [("le", Lin({s: Fraction(-1)}), None), ("le", Lin({s: Fraction(1)}).plus(const(c), -1), None)]
            if x.op == "phi":
                if x.block in self.f.loops:
                    out += self.counter(x)
                top = self.most({"k": "v", "n": x.id})
                if top is not None:
                    out.append(("le", Lin({s: Fraction(1)}).plus(const(top), -1), None))
            if self.counted(s[1]):
                out.append(("le", Lin({s: Fraction(-1)}), None))
            return out
        return []

    def most(self, o, seen=()):
        """a number the value never exceeds, whichever way it came about"""
        if o["k"] == "c":
            return int(o["v"])
        if o["k"] != "v" or len(seen) > 6:
            return None
        x = self.f.insts[o["n"]]
        if x.op == "phi":
            vs = [self.most(v, seen + (x.id,)) for _, v in x.ops if not (v["k"] == "v" and v["n"] in seen + (x.id,))]
            return max(vs) if vs and None not in vs else None
        l = self.lin(o)
        if set(l) - {1}:
            if x.op in ("call", "trunc", "urem", "and"):
                s = ("v", x.id)
                for _, g, need in self.implicit(s) if l == Lin({s: Fraction(1)}) else ():
                    if not need and set(g) <= {s, 1} and g.get(s) == 1:
                        return int(-g.get(1, 0))
            return None
        return int(l.get(1, 0))

    def counted(self, n, seen=()):
        """a 64-bit number that is only ever counted up from zero, or handed over as a count"""
        x = self.f.insts[n]
        if n in seen:
            return True
        if x.ty != "i64" or len(seen) > 12:
            return False
        if x.op == "call":
            return x.callee_name() in self.mod.defined or x.callee_name() in ("strlen", "strspn", "strcspn", "strnlen", "fread")
        if x.op == "load":
            return True
        if x.op in ("phi", "add", "select", "mul", "and", "lshr", "udiv", "freeze"):
            vs = [v for _, v in x.ops] if x.op == "phi" else x.ops[1:] if x.op == "select" else x.ops
            return all(int(v["v"]) >= 0 if v["k"] == "c" else v["k"] == "v" and self.counted(v["n"], seen + (n,)) for v in vs)
        if x.op == "zext":
            return True
        return False

    def counter(self, x):
        """a loop counter: at least what it starts at; at most what the test before each step allows"""
        h = x.block
        init = [v for pb, v in x.ops if (pb, h) not in self.f.back]
        steps = []
        for pb, v in x.ops:
            if (pb, h) in self.f.back:
                d = self.lin(v).plus(Lin({("v", x.id): Fraction(1)}), -1)
                if ("v", x.id) in d:
                    return []
                if set(d) - {1}:
                    # a sum that may grow by other amounts
                    ok = all(k > 0 and self.nonneg_sym(s) for s, k in d.items() if s != 1)
                    steps.append((pb, None if ok and d.get(1, 0) >= 0 else "x", v))
                else:
                    steps.append((pb, d.get(1, 0), v))
        if any(s == "x" for _, s, _ in steps) or not steps or len(init) != 1:
            return []
        me = Lin({("v", x.id): Fraction(1)})
        i0 = self.lin(init[0])
        out = []
        if all(s is None or s >= 0 for _, s, _ in steps):
            out.append(("le", i0.plus(me, -1), None))
        if all(s is not None and s <= 0 for _, s, _ in steps):
            out.append(("le", me.plus(i0, -1), None))
        if all(s is not None and s >= 1 for _, s, _ in steps):
            # bounds that hold of it whenever it is stepped
            for pb, s, v in steps[:1]:
                for kind, g, need in self.edge(pb, h) + self.at(pb) + self.edge_into(pb):
                    if g.get(("v", x.id)) == 1 and not need:
                        rest = g.plus(me, -1)              # x + rest <= 0
                        if all(self.stable(q, h) for q in rest if q != 1) and all(s2 <= s for _, s2, _ in steps) and \
                           all(any(g2.key() == g.key() for _, g2, n2 in self.edge(p2, h) + self.at(p2)) for p2, _, _ in steps[1:]):
                            # stepped: x <= s - rest; or still what it started at
                            up = me.plus(rest).plus(const(s), -1)
                            start = i0.plus(rest).plus(const(s), -1)
                            out.append(("le", up, [const(0).plus(start, -1)]))
        return out

    def edge_into(self, pb):
        return []

    def nonneg_sym(self, s):
        return s[0] in ("len", "zx") or s[0] == "v" and any(g == Lin({s: Fraction(-1)}) for _, g, n in self.implicit(s) if not n)

    def stable(self, s, h):
        if s[0] in ("a", "S"):
            return True
        i = {"v": 1, "len": 2, "zx": 1}.get(s[0])
        if i is None or s[0] == "zx" and s[2] != "v":
            return i is not None
        x = self.f.insts.get(s[i])
        return x is None or x.block not in self.f.loops[h]


HELPERS = "includes/argus/internal/cross_platform.h"


def helpers():
    """the copying helpers of the library compiled on their own, used or not"""
    text = open(os.path.join(ir.REPO, HELPERS)).read()
    names = sorted(set(re.findall(r"static inline[^;{}()]*?\b([A-Za-z_]\w*)\(", text)))
    d = tempfile.mkdtemp(prefix="argus-helpers-")
    try:
        src = os.path.join(d, "probe.c")

        def write(ns):
            with open(src, "w") as o:
                o.write('#include "argus/internal/cross_platform.h"\n' + "".join("void *use_%s = (void *)%s;\n" % (n, n) for n in ns))
        pre = os.path.join(d, "pre.c")
        with open(pre, "w") as o:
            o.write('#include "argus/internal/cross_platform.h"\n')
        seen = ir._run([ir.CLANG, "-E", "-P", "-I" + os.path.join(ir.REPO, "includes"), pre]).decode()
        names = [n for n in names if re.search(r"static inline[^;{}()]*?\b%s\(" % n, seen)]
        if not names:
            raise Broken("%s defines no inline helper" % HELPERS)
        write(names)
        return ir.Module(ir.compile_module([src]))
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Bounds:
    def __init__(self, mod, alone=False):
        self.mod = mod
        self.alone = alone
        self.fns = {}
        self.gsize = {g["n"]: g.get("size") for g in mod.d["globals"]}
        self.sites = {}
        self.taken = set()
        for n, f in mod.defined.items():
            for i in f.all_insts():
                if i.op == "call" and i.callee_name() in mod.defined:
                    self.sites.setdefault(i.callee_name(), []).append(i)

    def contract(self, f):
        """parameters that are the size of the buffer before them (helpers looked at on their own)"""
        if not self.alone or f.file != HELPERS:
            return {}
        return {n: n + 1 for n in range(len(f.params) - 1) if re.fullmatch(r"char ?\*", f.sig_of(n)) and f.sig_of(n + 1) == "size_t"}

    def fn(self, f):
        if f.name not in self.fns:
            self.fns[f.name] = Fn(self, f)
        return self.fns[f.name]

    # -- the prover: goal <= 0
    def prove(self, F, at, goal, facts, depth=6, lift=0, budget=None):
        """at: instruction; facts: ("le", form, conditions)"""
        budget = budget if budget is not None else [4000, lift + 1] if lift < 2 else [4000]
        rest = []
        if self.search(F, at, goal, facts, depth, rest, budget, set()):
            return True
        # by the ways a value came about
        for s in sorted((s for s in goal if s != 1 and s[0] in ("v", "zx")), key=str):
            i = s[1]
            x = F.f.insts.get(i) if s[0] == "v" or s[2] == "v" else None
            if x is None or depth < 3:
                continue
            if x.op == "phi" and x.block not in F.f.loops:
                arms = [(v, F.edge(pb, x.block) + F.at(pb)) for pb, v in x.ops]
            elif x.op == "select":
                arms = [(x.ops[1], F.test(x.ops[0], True)), (x.ops[2], F.test(x.ops[0], False))]
            else:
                continue
            if s[0] == "zx" and not all(v["k"] == "c" for v, _ in arms):
                continue
            k = goal[s]
            if all(self.prove(F, at, goal.plus(Lin({s: k}), -1).plus(F.lin(v), k), facts + fs, depth - 1, lift, budget) for v, fs in arms):
                return True
        for h in {F.f.insts[s[1]].block for s in goal if s != 1 and s[0] == "v" and F.f.insts[s[1]].op == "phi"} & set(F.f.loops):
            if depth >= 3 and self.rounds(F, goal, facts, h, depth, budget):
                return True
        if lift < 3:
            seen = set()
            for r in sorted(rest, key=lambda r: len(r)):
                if r.key() in seen or len(seen) > 12:
                    continue
                seen.add(r.key())
                if self.lifted(F, r, lift):
                    return True
        return False

    def rounds(self, F, goal, facts, h, depth, budget):
        """it holds of what a loop starts with and of what every round leaves"""
        phis = {("v", i.id): dict(i.ops) for i in F.f.blocks[h] if i.op == "phi"}

        def of(l):
            return all(s == 1 or s in phis or F.stable(s, h) for s in l)
        if not of(goal):
            return False
        kept = [g for _, g, need in facts if of(g) and set(g) & set(phis) and
                (not need or all(self.prove(F, F.f.blocks[h][0], const(0).plus(w, -1), [], min(depth - 1, 4), 9, budget) for w in need))]
        for pb in F.f.pred[h]:
            def sub(l):
                r = Lin({s: k for s, k in l.items() if s not in phis})
                for s, k in l.items():
                    if s in phis:
                        r = r.plus(F.lin(phis[s][pb]), k)
                return r
            fs = F.edge(pb, h) + F.at(pb) + [("le", sub(g), None) for g in kept]
            if (pb, h) in F.f.back:
                fs.append(("le", goal, None))
            if any(not set(g) - {1} and g.get(1, 0) > 0 for _, g, n in fs):
                continue
            if not self.prove(F, F.f.blocks[pb][-1], sub(goal), fs, depth - 2, 9, budget):
                return False
        return True

    def passed(self, l):
        return all(s == 1 or s[0] in ("a", "S") or s[0] == "len" and s[1][0] == "a" for s in l)

    def search(self, F, at, goal, facts, depth, rest, budget, seen):
        budget[0] -= 1
        if budget[0] < 0:
            return False
        syms = [s for s in goal if s != 1]
        if not syms:
            return goal.get(1, 0) <= 0
        if goal.key() in seen:
            return False
        seen.add(goal.key())
        if all(s[0] in ("a", "S") or s[0] == "len" and s[1][0] == "a" for s in syms):
            rest.append(goal)
        if depth == 0:
            return False
        cand = list(facts)
        for s in syms:
            cand += F.implicit(s)
            if s[0] == "len":
                when = at if s[2] is None else F.f.insts[s[2]]
                cand += [("le", Lin({s: Fraction(1)}).plus(n, -1), None) for n in F.written(s[1], when)]
                for t in F.now(s[1], when):
                    cand += [("le", Lin({s: Fraction(1), t: Fraction(-1)}), None), ("le", Lin({t: Fraction(1), s: Fraction(-1)}), None)]
        for _, g, need in cand:
            for s in syms:
                k = goal[s]
                c = g.get(s)
                if c is None or (c > 0) != (k > 0):
                    continue
                if need and not all(self.search(F, at, const(0).plus(w, -1), [q for q in facts if q[1] is not g], min(depth - 1, 3), [], budget, set()) or
                                    self.passed(w) and len(budget) > 1 and self.lifted(F, const(0).plus(w, -1), budget[1]) for w in need):
                    continue
                if self.search(F, at, goal.plus(g, -k / c), facts, depth - 1, rest, budget, seen):
                    return True
        return False

    def lifted(self, F, goal, lift):
        """the same, of every call of this function"""
        f = F.f
        sites = self.sites.get(f.name, [])
        if not sites or f.name in self.mod_taken():
            return False
        for i in sites:
            C = self.fn(i.fn)
            g = const(0)
            extra = []
            for s, k in goal.items():
                if s == 1:
                    g = g.plus(const(1), k)
                elif s[0] == "a":
                    g = g.plus(C.lin(i.ops[s[1]]), k)
                    # an argument that must not have wrapped
                    if k < 0:
                        pass
                elif s[0] == "S":
                    b = C.base(i.ops[s[1]])
                    z = C.size(b[0]) if b else None
                    if z is None:
                        return False
                    g = g.plus(z.plus(b[1], -1), k)
                else:
                    g = g.plus(Lin({("len", C.ptr(i.ops[s[1][1]]), None): Fraction(1)}), k)
            for s in goal:
                if s != 1 and s[0] == "a" and goal[s] > 0:
                    extra += C.wraps(i.ops[s[1]])
            facts = C.at(i.block)
            for w in extra:
                if not self.prove(C, i, const(0).plus(w, -1), facts, 4, lift + 1):
                    return False
            if not self.prove(C, i, g, facts, 6, lift + 1):
                return False
        return True

    def mod_taken(self):
        if not self.taken:
            self.taken = {n for n in self.mod.defined if takes(self.mod, n)} | {None}
        return self.taken


def takes(mod, n):
    return n in mod.address_taken if hasattr(mod, "address_taken") else False


def sizes(F, i):
    """(pointer, bytes written, values that must not be negative)"""
    f = F.f
    if i.op == "store":
        return i.ops[1], const(i.get("size") or 1), []
    c = i.callee_name() or ""
    if c.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")):
        return i.ops[0], F.lin(i.ops[2]), F.wraps(i.ops[2])
    if c not in LIBC:
        return None
    k, (how, a) = LIBC[c]
    p = i.ops[k]
    if how == "n":
        return p, F.lin(i.ops[a]), F.wraps(i.ops[a])
    if how == "mul":
        m, n = i.ops[1], i.ops[2]
        if m["k"] == "c":
            return p, const(0).plus(F.lin(n), int(m["v"])), F.wraps(n)
        return p, Lin({("?", "product"): Fraction(1)}), []
    if how in ("len1", "cat"):
        o = i.ops[a]
        s = F.mod.string_at(o["n"]) if o["k"] == "g" else None
        l = const(len(s.split(b"\0")[0])) if s is not None else Lin({("len", F.ptr(o), None): Fraction(1)})
        n = l.plus(const(1))
        if how == "cat":
            n = n.plus(Lin({("len", F.ptr(p), None): Fraction(1)}))
        return p, n, []
    if how == "catn":
        return p, F.lin(i.ops[a]).plus(const(1)).plus(Lin({("len", F.ptr(p), None): Fraction(1)})), F.wraps(i.ops[a])
    if how == "fmt":
        o = i.ops[a]
        s = F.mod.string_at(o["n"]) if o["k"] == "g" else None
        n = printed(s.split(b"\0")[0]) if s is not None else None
        if n is not None:
            return p, const(n + 1), []
    return p, Lin({("?", "unbounded"): Fraction(1)}), []


def printed(s):
    """at most how many characters a format without texts and floating-point numbers comes to"""
    n = 0
    for t in re.split(rb"(%[-+ #]*\d*(?:hh|h|ll|l|z|j|t)?[dioxXuc%])", s):
        m = re.fullmatch(rb"%([-+ #]*)(\d*)(hh|h|ll|l|z|j|t)?([dioxXuc%])", t)
        if m is None:
            if b"%" in t:
                return None
            n += len(t)
        elif m[4] in b"%c":
            n += max(1, int(m[2] or 0))
        else:
            w = {b"o": 11, b"x": 8, b"X": 8, b"u": 10}.get(m[4], 10)
            w = w if m[3] in (None, b"h", b"hh") else {b"o": 22, b"x": 16, b"X": 16, b"u": 20}.get(m[4], 19)
            n += max(int(m[2] or 0), w + (1 if m[4] in b"di" or b"+" in m[1] or b" " in m[1] else 0) + (2 if b"#" in m[1] else 0))
    return n


def obligations(B, F):
    """writes into objects whose size is known: (instruction, object, size, offset, bytes, nonneg)"""
    f = F.f
    for i in f.all_insts():
        if i.op not in ("store", "call"):
            continue
        w = sizes(F, i)
        if w is None:
            continue
        p, n, pos = w
        for q, off, extra in ways(F, p):
            b = F.base(q)
            if b is None:
                continue
            z = F.size(b[0])
            if z is None or b[0][0] == "a" and not texts(F, i, q):
                continue
            yield i, b[0], z, b[1].plus(off), n, pos, extra


def texts(F, i, p):
    """a write into a caller's text, not into one of its records or cells"""
    if i.op == "store":
        if i.get("size", 8) != 1:
            return False
    elif (i.callee_name() or "").startswith("llvm.mem") and i.ops[2]["k"] == "c":
        return False
    while p["k"] == "v":
        x = F.f.insts[p["n"]]
        if x.op == "getelementptr":
            if any("i" not in s or s["sz"] != 1 for s in x.get("steps")):
                return False
        elif x.op not in ("bitcast", "freeze"):
            return False
        p = x.ops[0]
    return True


def ways(F, p, off=const(0), n=0):
    """a pointer by the ways it came about: (pointer, offset, facts)"""
    b = F.base(p)
    if b and b[0][0] == "o" and n < 4 and F.size(b[0]) is None:
        x = F.f.insts[b[0][1]]
        if x.op == "phi" and x.block not in F.f.loops:
            return [(q, o, F.edge(pb, x.block) + F.at(pb) + fs) for pb, v in x.ops if v["k"] != "c" for q, o, fs in ways(F, v, off.plus(b[1]), n + 1)]
        if x.op == "select":
            return [(q, o, F.test(x.ops[0], k == 1) + fs) for k in (1, 2) if x.ops[k]["k"] != "c" for q, o, fs in ways(F, x.ops[k], off.plus(b[1]), n + 1)]
    return [(p, off, [])]


def walked(F, i):
    """a byte written where one was read before"""
    if i.op != "store":
        return False
    p = i.ops[1]
    for x in F.f.all_insts():
        if x.op == "load" and (x.ops[0]["k"], x.ops[0].get("n")) == (p["k"], p.get("n")) and (x.get("size") or 1) >= (i.get("size") or 1):
            if x.block in F.dom.get(i.block, ()) and (x.block != i.block or F.f.blocks[i.block].index(x) < F.f.blocks[i.block].index(i)):
                return True
    return False


def decide(B, F, ob):
    i, obj, z, off, n, pos, extra = ob
    facts = F.at(i.block) + extra
    if walked(F, i):
        return None
    for w in pos:
        if not B.prove(F, i, const(0).plus(w, -1), facts, 5):
            return "size", "may be given a size that has wrapped around"
    if not B.prove(F, i, off.plus(n).plus(z, -1), facts):
        return "end", "may write past the end of its object"
    if set(off) - {1} or off.get(1, 0) < 0:
        if not B.prove(F, i, const(0).plus(off, -1), facts, 5):
            return "start", "may write before the start of its object"
    return None


def beyond(F, off, n, z):
    """arithmetic this argument does not cover"""
    for s in off.plus(n).plus(z, -1):
        if s == 1:
            continue
        if s[0] == "v":
            x = F.f.insts[s[1]]
            if x.op in ("mul", "udiv", "sdiv", "lshr", "ashr", "urem", "srem", "or", "xor", "shl", "ptrtoint"):
                return x.op
    return None


def sizecell(F, n):
    """the caller hands over the size of its text in a cell of its own (in and
    out): what that cell says of the text is known to the callers only"""
    for i in F.f.all_insts():
        if i.op == "load" and i.ops[0]["k"] == "a" and i.ops[0]["n"] != n and i.get("ty") in ("i32", "i64"):
            return "a size the caller keeps"
    return None


def run_bounds(ctx):
    mod = ctx.mod
    for r, t in (("end", "a write ends within the object it is made into"), ("start", "a write begins within the object it is made into"),
                 ("size", "the size a write is given has not wrapped around")):
        ctx.rule(r, t)
    alone = helpers()
    ctx.setcount("copying helpers decided for every buffer and size a caller may name", len(alone.defined))
    seen, fixed, moved, left = set(), 0, 0, []
    for mod, B in ((mod, Bounds(mod)), (alone, Bounds(alone, True))):
        f2, m2 = bounds_of(ctx, mod, B, seen, left)
        fixed, moved = fixed + f2, moved + m2
    ctx.setcount("into objects of a constant size", fixed)
    ctx.setcount("whose place or length varies", moved)
    ctx.setcount("not decided (arithmetic outside the argument)", left)


def bounds_of(ctx, mod, B, seen, left):
    fixed, moved = 0, 0
    for n in sorted(mod.defined):
        F = B.fn(mod.defined[n])
        for ob in obligations(B, F):
            i, obj, z, off, cnt, pos, extra = ob
            key = (F.f.src, i.loc, str(obj), off.key())
            fixed += not set(z) - {1}
            moved += bool(set(off.plus(cnt)) - {1})
            for r in ("end", "start") + (("size",) if pos else ()):
                ctx.inst(r)
            r = decide(B, F, ob)
            if r is None:
                continue
            why = beyond(F, off, cnt, z) or mod is ctx.mod and obj[0] == "a" and sizecell(F, obj[1])
            if why:
                left.append("%s (%s)" % (F.f.src, i.loc))
                continue
            if key in seen:
                continue
            seen.add(key)
            ctx.violation(r[0], where(F.f), "%s %s" % ((i.callee_name() or "the call") if i.op == "call" else "the store", r[1]), [str(i.loc)])
    return fixed, moved
