"""Loads the library's IR (built fresh from /repo's working tree) and offers
the resolved program: functions, blocks, instructions, struct fields by source
name, enum constants, call graph with indirect calls resolved to the struct
field they go through."""
import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("ARGUS_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = "clang-18"


import normal

class Broken(Exception):
    """The analysis cannot be carried out (vanished anchor, no build...)."""


def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if r.returncode != 0:
        raise Broken("command failed: %s\n%s" % (" ".join(cmd), r.stderr.decode(errors="replace")[-3000:]))
    return r.stdout


def ensure_irdump():
    d = os.path.join(VERIF, "build")
    exe = os.path.join(d, "irdump")
    src = os.path.join(VERIF, "tools", "irdump.cpp")
    os.makedirs(d, exist_ok=True)
    stamp = exe + ".sha"
    want = hashlib.sha256(open(src, "rb").read()).hexdigest()

    def ok():
        return os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == want
    if ok():
        return exe
    with open(os.path.join(d, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if ok():
            return exe
        flags = _run(["llvm-config-18", "--cxxflags"]).decode().split()
        libs = _run(["llvm-config-18", "--ldflags", "--libs", "core", "irreader", "support", "bitreader"]).decode().split()
        tmp = exe + ".%d" % os.getpid()
        cxx = "clang++-18" if shutil.which("clang++-18") else "g++"
        _run([cxx, "-O1"] + [f for f in flags if f != "-fno-exceptions"] + [src, "-o", tmp] + libs)
        os.replace(tmp, exe)
        open(stamp, "w").write(want)
    return exe


def sources():
    s = sorted(glob.glob(os.path.join(REPO, "source", "**", "*.c"), recursive=True))
    if len(s) < 20:
        raise Broken("only %d library sources found under %s/source" % (len(s), REPO))
    return s


def compile_module(srcs, defs=("ARGUS_REGEX",), passes="mem2reg"):
    """-O0 bitcode for every source, linked, registers promoted, as JSON."""
    exe = ensure_irdump()
    d = tempfile.mkdtemp(prefix="argus-ir-")
    try:
        def one(a):
            n, s = a
            o = os.path.join(d, "%d.bc" % n)
            _run([CLANG, "-std=gnu11", "-O0", "-g", "-Xclang", "-disable-O0-optnone", "-w",
                  "-I" + os.path.join(REPO, "includes")] + ["-D" + x for x in defs] +
                 ["-emit-llvm", "-c", s, "-o", o])
            return o
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(one, enumerate(srcs)))
        _run(["llvm-link-18"] + objs + ["-o", os.path.join(d, "all.bc")])
        _run(["opt-18", "-passes=" + passes, os.path.join(d, "all.bc"), "-o", os.path.join(d, "m.bc")])
        out = _run([exe, os.path.join(d, "m.bc")])
        return json.loads(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Inst:
    __slots__ = ("id", "op", "ty", "d", "ops", "ln", "file", "block", "fn")

    def __init__(self, d, block, fn):
        self.d = d
        self.id = d["id"]
        self.op = d["op"]
        self.ty = d["ty"]
        self.ops = d.get("ops", [])
        self.ln = d.get("ln", 0)
        self.file = d.get("file", "")
        self.block = block
        self.fn = fn

    def get(self, k, default=None):
        return self.d.get(k, default)

    @property
    def loc(self):
        return "%s:%d" % (rel(self.file), self.ln)

    def callee_name(self):
        c = self.d.get("callee")
        if c and c["k"] == "f":
            return c["n"]
        return None


def rel(p):
    if not p:
        return "?"
    p = os.path.normpath(p)
    for pre in (REPO + "/", "/repo/"):
        if p.startswith(pre):
            return p[len(pre):]
    m = re.search(r"(?:^|/)((?:includes|source)/.*)$", p)
    return m.group(1) if m else p


class Func:
    def __init__(self, d, mod):
        self.d = d
        self.mod = mod
        self.name = d["n"]
        self.decl = d["decl"]
        self.internal = d["internal"]
        self.src = d.get("src", re.sub(r"\.\d+$", "", d["n"]))
        self.file = rel(d.get("file", ""))
        self.line = d.get("line", 0)
        self.sig = d.get("sig") or ["?"] * (len(d["params"]) + 1)
        self.params = d["params"]
        self.ret = d["ret"]
        self.blocks = []
        self.insts = {}
        if not self.decl:
            for bi, b in enumerate(d["blocks"]):
                blk = [Inst(i, bi, self) for i in b]
                self.blocks.append(blk)
                for i in blk:
                    self.insts[i.id] = i
            self._cfg()

    def sig_of(self, n):
        """type of the n-th parameter as written in the source"""
        return self.sig[n + 1] if len(self.sig) == len(self.params) + 1 else ""

    def succ_of(self, b):
        t = self.blocks[b][-1]
        if t.op == "br":
            return list(dict.fromkeys(t.get("succ")))
        if t.op == "switch":
            return list(dict.fromkeys([c[1] for c in t.get("cases")] + [t.get("default")]))
        return []

    def _cfg(self):
        n = len(self.blocks)
        self.succ = [self.succ_of(b) for b in range(n)]
        self.pred = [[] for _ in range(n)]
        for b in range(n):
            for s in self.succ[b]:
                self.pred[s].append(b)
        # RPO, back edges
        seen, order, stack_on = set(), [], set()
        self.back = set()

        def dfs(b):
            st = [(b, iter(self.succ[b]))]
            seen.add(b)
            stack_on.add(b)
            while st:
                x, it = st[-1]
                for s in it:
                    if s in stack_on:
                        self.back.add((x, s))
                    elif s not in seen:
                        seen.add(s)
                        stack_on.add(s)
                        st.append((s, iter(self.succ[s])))
                        break
                else:
                    st.pop()
                    stack_on.discard(x)
                    order.append(x)
        dfs(0)
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        self.headers = {h for _, h in self.back}
        # natural loops
        self.loops = {}
        for t, h in self.back:
            body = self.loops.setdefault(h, {h})
            w = [t]
            while w:
                x = w.pop()
                if x in body:
                    continue
                body.add(x)
                w.extend(self.pred[x])
        self._liveness()
        self._inductive()

    def _liveness(self):
        use, dfn = [], []
        n = len(self.blocks)
        phi_use = [set() for _ in range(n)]
        for b in self.blocks:
            u, d = set(), set()
            for i in b:
                if i.op == "dbg":
                    continue
                if i.op == "phi":
                    for pb, o in i.ops:
                        if o["k"] == "v":
                            phi_use[pb].add(o["n"])
                    d.add(i.id)
                    continue
                for o in operands(i):
                    if o["k"] == "v" and o["n"] not in d:
                        u.add(o["n"])
                d.add(i.id)
            use.append(u)
            dfn.append(d)
        live_in = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                out = set(phi_use[b])
                for s in self.succ[b]:
                    out |= live_in[s]
                li = use[b] | (out - dfn[b])
                if li != live_in[b]:
                    live_in[b] = li
                    ch = True
        # live at block entry *after phis are assigned*: phi ids defined in b that are used
        self.live_in = live_in
        self.live_after_phi = []
        for b in range(n):
            s = set(live_in[b])
            for i in self.blocks[b]:
                if i.op == "phi":
                    s.add(i.id)
            self.live_after_phi.append(s)

    def _inductive(self):
        self.inductive = set()
        for h in self.headers:
            body = self.loops[h]
            for i in self.blocks[h]:
                if i.op != "phi":
                    continue
                for pb, o in i.ops:
                    if (pb, h) in self.back and o["k"] == "v":
                        if self._reaches(o["n"], i.id, body, set()):
                            self.inductive.add(i.id)

    def _reaches(self, src, target, body, seen, arith=False):
        # data-dependence path src -> ... -> target through >=1 arithmetic/gep/load
        st = [(src, arith)]
        while st:
            x, ar = st.pop()
            if x == target:
                if ar:
                    return True
                continue
            if (x, ar) in seen:
                continue
            seen.add((x, ar))
            ins = self.insts.get(x)
            if ins is None or ins.block not in body:
                continue
            if ins.op == "phi":
                for _, o in ins.ops:
                    if o["k"] == "v":
                        st.append((o["n"], ar))
            elif ins.op == "call" and ins.callee_name() in ("strchr", "strrchr", "strpbrk", "strstr", "memchr"):
                if ins.ops and ins.ops[0]["k"] == "v":
                    st.append((ins.ops[0]["n"], True))      # a later place in the same text
            elif ins.op in ("call", "alloca", "icmp", "fcmp"):
                continue
            else:
                na = ar or ins.op not in ("sext", "zext", "trunc", "bitcast", "select")
                for o in operands(ins):
                    if o["k"] == "v":
                        st.append((o["n"], na))
        return False

    def calls(self):
        for b in self.blocks:
            for i in b:
                if i.op == "call":
                    yield i

    def all_insts(self):
        for b in self.blocks:
            for i in b:
                yield i

    def dominators(self):
        n = len(self.blocks)
        order = sorted(self.rpo, key=lambda b: self.rpo[b])
        dom = {b: set(order) for b in order}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in order:
                if b == 0:
                    continue
                ps = [dom[p] for p in self.pred[b] if p in dom]
                d = set.intersection(*ps) | {b} if ps else {b}
                if d != dom[b]:
                    dom[b] = d
                    ch = True
        return dom

    @property
    def loc(self):
        return "%s:%d" % (self.file, self.line)


def operands(i):
    out = list(i.ops)
    if i.op == "call":
        out.append(i.d["callee"])
    if i.op == "getelementptr":
        for s in i.get("steps"):
            if "i" in s:
                out.append(s["i"])
    return out


class Module:
    def __init__(self, d):
        self.d = d
        for f in d["functions"]:
            normal.normalise(f)
        self.structs = d["structs"]
        self.di = {}
        for t in d["ditypes"]:
            if not t["union"]:
                self.di.setdefault(t["name"], t)
        self.diu = {t["name"]: t for t in d["ditypes"]}
        self.enums = {k: {e["n"]: e["v"] for e in v} for k, v in d["enums"].items()}
        self.globals = {g["n"]: g for g in d["globals"]}
        self.funcs = {f["n"]: Func(f, self) for f in d["functions"]}
        self.defined = {n: f for n, f in self.funcs.items() if not f.decl}
        self.by_src = {}
        for f in self.defined.values():
            self.by_src.setdefault(f.src, []).append(f)
        self._cg = None

    def enum(self, name):
        for e in self.enums.values():
            if name in e:
                return e[name]
        raise Broken("enum constant %s not found" % name)

    def field(self, llvm_struct, off):
        n = re.sub(r"^(struct|union)\.", "", llvm_struct)
        n = re.sub(r"\.\d+$", "", n)
        t = self.di.get(n)
        if t:
            for f in t["fields"]:
                if f["off"] == off:
                    return n + "." + f["n"]
        return "%s.@%d" % (n, off)

    def fn(self, src, required=True):
        l = self.by_src.get(src)
        if not l:
            if required:
                raise Broken("function %s not found in the library" % src)
            return None
        return l[0]

    def string_at(self, gname):
        g = self.globals.get(gname)
        if not g or not g["const"]:
            return None
        i = g.get("init")
        if not i:
            return None
        if i["k"] == "zero":
            return b""
        if i["k"] == "data" and i.get("isstr"):
            b = bytes(i["bytes"])
            z = b.find(b"\0")
            return b[:z] if z >= 0 else b
        return None

    # ---- call graph -------------------------------------------------------
    def callee_field(self, inst):
        """struct field an indirect call goes through, or None"""
        c = inst.d["callee"]
        f = inst.fn
        seen = set()
        work = [c]
        res = set()
        while work:
            o = work.pop()
            if o["k"] == "f" and o is not c:
                continue
            if o["k"] != "v":
                res.add(None)
                continue
            if o["n"] in seen:
                continue
            seen.add(o["n"])
            x = f.insts[o["n"]]
            if x.op == "phi":
                work.extend(v for _, v in x.ops)
            elif x.op == "select":
                work.extend(x.ops[1:])
            elif x.op == "load":
                p = x.ops[0]
                if p["k"] == "v" and f.insts[p["n"]].op == "getelementptr":
                    st = [s for s in f.insts[p["n"]].get("steps") if "f" in s]
                    res.add(self.field(st[-1]["f"], st[-1]["off"]) if st else None)
                elif p["k"] == "v" and f.insts[p["n"]].op == "load":
                    res.add("?deref")
                else:
                    # load through a pointer whose pointee's first field is read
                    res.add("@0")
            else:
                res.add(None)
        if len(res) == 1:
            return res.pop()
        return None

    def callgraph(self):
        if self._cg is None:
            self._cg = {}
            for n, f in self.defined.items():
                s = set()
                for c in f.calls():
                    k = c.d["callee"]["k"]
                    if k == "f":
                        s.add(c.callee_name())
                    elif k != "asm":
                        s.add("icall:" + str(self.callee_field(c)))
                # address-taken functions passed as data (e.g. qsort comparators)
                for i in f.all_insts():
                    for o in (i.ops if i.op != "phi" else [v for _, v in i.ops]):
                        if isinstance(o, dict) and o["k"] == "f":
                            s.add("&" + o["n"])
                self._cg[n] = s
        return self._cg

    def closure(self, name):
        """primitive callees (externals, icalls) transitively reachable"""
        cg = self.callgraph()
        seen, out, w = set(), set(), [name]
        while w:
            x = w.pop()
            if x in seen:
                continue
            seen.add(x)
            for c in cg.get(x, ()):
                if c.startswith("&"):
                    c2 = c[1:]
                    if c2 in cg:
                        w.append(c2)
                    continue
                if c in cg:
                    w.append(c)
                out.add(c)
        return out

    def reachable(self, names):
        cg = self.callgraph()
        seen, w = set(), list(names)
        while w:
            x = w.pop()
            if x in seen or x not in cg:
                continue
            seen.add(x)
            for c in cg[x]:
                w.append(c.lstrip("&"))
        return seen

    # ---- what a function may write ----------------------------------------
    CHARW = {"snprintf", "sprintf", "vsnprintf", "vsprintf", "strcpy", "strncpy", "strcat", "strncat", "stpcpy", "read", "memcpy", "memmove", "memset", "qsort", "pipe"}

    # frame assumption for application callbacks
    _VS = frozenset("argus_option_s." + x for x in ("value", "value_count", "value_capacity", "is_allocated"))
    FRAME = {"argus_option_s.handler": _VS | {"argus_s.error_code"}, "validator_entry_s.func": _VS | {"argus_s.error_code"},
             "argus_option_s.free_handler": _VS, "validator_entry_s.formatter": frozenset()}

    def modset(self, name):
        """fields, globals, raw cells and text a function (with its callees) may write;
        stores to its own locals are not counted. An indirect call makes it unknown
        unless the slot only ever holds comparators."""
        if not hasattr(self, "_mod"):
            self._mod = {}
            for n, f in self.defined.items():
                m = {"fields": set(), "globals": set(), "raw": False, "chars": False, "any": False, "outs": set()}
                for i in f.all_insts():
                    if i.op == "store":
                        self._modstore(f, i.ops[1], m, i.get("vty"))
                    elif i.op == "call":
                        c = i.callee_name()
                        if i.d["callee"]["k"] == "v" or i.d["callee"]["k"] == "a":
                            fr = self.FRAME.get(self.callee_field(i))
                            if fr is None:
                                m["any"] = True
                            else:
                                m["fields"] |= fr
                        elif c and c not in self.defined:
                            if c.startswith("llvm.mem") or c in self.CHARW:
                                self._modstore(f, i.ops[1] if c == "read" else i.ops[0], m, "i8")
                                if c.startswith("llvm.memcpy"):
                                    self._modagg(f, i.ops[0], m)
                            elif c in ("strtol", "strtoll", "strtod", "strtof", "strtoul", "strtoull"):
                                self._modstore(f, i.ops[1], m, "ptr")
                self._mod[n] = m
            ch = True
            cg = self.callgraph()
            while ch:
                ch = False
                for n, m in self._mod.items():
                    for c in cg[n]:
                        x = self._mod.get(c)
                        if x is None or x is m:
                            continue
                        b = (len(m["fields"]), len(m["globals"]), m["raw"], m["chars"], m["any"], len(m["outs"]))
                        for i in self.defined[n].calls():
                            if i.callee_name() == c:
                                for k, pos in list(x["outs"]):
                                    if pos == "*":
                                        m["outs"].add((k, "*"))
                                    elif pos < len(i.ops):
                                        self._modstore(self.defined[n], i.ops[pos], m, "i8" if k == "c" else "ptr")
                        m["fields"] |= x["fields"]
                        m["globals"] |= x["globals"]
                        m["any"] = m["any"] or x["any"]
                        if any(k == "r" and p_ == "*" for k, p_ in x["outs"]):
                            m["raw"] = True
                        if any(k == "c" and p_ == "*" for k, p_ in x["outs"]):
                            m["chars"] = True
                        if b != (len(m["fields"]), len(m["globals"]), m["raw"], m["chars"], m["any"], len(m["outs"])):
                            ch = True
        return self._mod[name]

    def _modagg(self, f, o, m):
        """aggregate copied as a whole: every field of the destination"""
        for s in self._ptrsteps(f, o):
            if s[0] == "alloca":
                return
        m["raw"] = True
        m["outs"].add(("r", "*"))

    def _ptrsteps(self, f, o, seen=None):
        seen = seen if seen is not None else set()
        if o["k"] == "g":
            return [("global", o["n"])]
        if o["k"] == "a":
            return [("arg", o["n"])]
        if o["k"] == "gep":
            return self._ptrsteps(f, o["base"], seen)
        if o["k"] != "v":
            return [("none",)]
        if o["n"] in seen:
            return []
        seen.add(o["n"])
        x = f.insts[o["n"]]
        if x.op == "alloca":
            return [("alloca",)]
        if x.op == "getelementptr":
            st = [s for s in x.get("steps") if "f" in s]
            r = self._ptrsteps(f, x.ops[0], seen)
            if st and not st[-1]["f"].startswith("union."):
                fld = self.field(st[-1]["f"], st[-1]["off"])
                return [y if y[0] == "alloca" else ("field", fld) for y in r]
            if st and len(st) > 1:
                fld = self.field(st[-2]["f"], st[-2]["off"])
                return [y if y[0] == "alloca" else ("field", fld) for y in r]
            return r
        if x.op in ("phi", "select"):
            out = []
            for y in ([v for _, v in x.ops] if x.op == "phi" else x.ops[1:]):
                out += self._ptrsteps(f, y, seen)
            return out
        if x.op in ("bitcast", "inttoptr", "ptrtoint"):
            return self._ptrsteps(f, x.ops[0], seen)
        return [("ptr",)]

    def _modstore(self, f, o, m, ty):
        for s in self._ptrsteps(f, o):
            if s[0] == "field":
                m["fields"].add(s[1])
            elif s[0] == "global":
                m["globals"].add(s[1])
            elif s[0] in ("arg", "ptr"):
                m["outs"].add(("c" if ty == "i8" else "r", s[1] if s[0] == "arg" else "*"))
                if ty == "i8":
                    m["chars"] = True
                else:
                    m["raw"] = True

    def counters(self):
        """{function: allocas and parameters that are pointers to a cell stepped by a constant}"""
        if not hasattr(self, "_cnt"):
            self._cnt = {n: set() for n in self.defined}
            for n, f in self.defined.items():
                for i in f.all_insts():
                    if i.op != "store" or i.ops[0].get("k") != "v":
                        continue
                    x = f.insts[i.ops[0]["n"]]
                    if x.op in ("add", "sub") and any(o.get("k") == "v" and f.insts[o["n"]].op == "load" and f.insts[o["n"]].ops[0] == i.ops[1] for o in x.ops):
                        o = i.ops[1]
                        if o["k"] == "a":
                            self._cnt[n].add(("arg", o["n"]))
                        elif o["k"] == "v" and f.insts[o["n"]].op == "alloca":
                            self._cnt[n].add(("al", o["n"]))
            ch = True
            while ch:
                ch = False
                for n, f in self.defined.items():
                    for i in f.calls():
                        for k, p in [x for x in self._cnt.get(i.callee_name(), ()) if x[0] == "arg"]:
                            if p >= len(i.ops):
                                continue
                            o = i.ops[p]
                            t = ("arg", o["n"]) if o["k"] == "a" else ("al", o["n"]) if o["k"] == "v" and f.insts[o["n"]].op == "alloca" else None
                            if t and t not in self._cnt[n]:
                                self._cnt[n].add(t)
                                ch = True
        return self._cnt

    def callers(self, name):
        return [f for f in self.defined.values() for c in [self.callgraph()[f.name]] if name in c]


_cache = {}


def library(defs=("ARGUS_REGEX",)):
    k = tuple(defs)
    if k not in _cache:
        _cache[k] = Module(compile_module(sources(), defs))
    return _cache[k]
