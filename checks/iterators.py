"""Iterators and command dispatch: outcome tables."""
import absint
from absint import C, C0, TOP, split, isc
from spec import *
from accessors import Acc, where
from roles import App


def run_iterators(ctx):
    mod = ctx.mod
    ctx.rule("it-create", "an iterator is empty unless the option was found and is of the right kind; then it covers exactly the stored elements from position 0")
    ctx.rule("it-next", "next yields element[position] and advances by one exactly while position < count; at the end it reports false and leaves the position")
    ctx.rule("it-reset", "reset puts the position back to 0 and touches nothing else")
    ARR = enummask(mod, ["VALUE_TYPE_ARRAY_STRING", "VALUE_TYPE_ARRAY_INT", "VALUE_TYPE_ARRAY_FLOAT", "VALUE_TYPE_VARIADIC_STRING",
                         "VALUE_TYPE_VARIADIC_INT", "VALUE_TYPE_VARIADIC_FLOAT"])
    MAP = enummask(mod, ["VALUE_TYPE_MAP_STRING", "VALUE_TYPE_MAP_INT", "VALUE_TYPE_MAP_FLOAT", "VALUE_TYPE_MAP_BOOL"])
    for kind, S, data, mask, size in (("array", "argus_array_iterator_s.", "_array", ARR, 8), ("map", "argus_map_iterator_s.", "_map", MAP, 16)):
        # ---- creation
        f = mod.fn("argus_%s_it" % kind)
        sret = f.params and f.params[0].get("sret")
        ctx.need(sret, "%s does not return its iterator through memory" % f.src)
        ana = Acc(mod)
        eng = ctx.engine(ana)
        for e in eng.run_root(f):
            st = e.st
            ctx.inst("it-create")
            it = ("s", "arg", 0)
            o = st.ps.get("lookup")
            tr = absint.path_of(st)
            if o is None:
                ctx.violation("it-create", where(f), "returns without looking the requested name up", tr)
                continue
            cnt = fval(eng, st, it, S + "_count", "i64")
            pos = fval(eng, st, it, S + "_position", "i64")
            arr = fval(eng, st, it, S + data, "ptr")
            if st.const(pos) != 0:
                ctx.violation("it-create", where(f), "iterator does not start at position 0", tr)
            n = zero(eng, st, o)
            b = None if n is not False else bits(eng, st, fval(eng, st, o, OPT + "value_type", "i32"), mask)
            if n is False and b is True:
                if cnt != fval(eng, st, o, OPT + "value_count", "i64"):
                    ctx.violation("it-create", where(f), "iterator over a matching option does not cover its value count", tr)
                if arr != fval(eng, st, o, OPT + "value", "ptr"):
                    ctx.violation("it-create", where(f), "iterator over a matching option does not refer to its values", tr)
            else:
                if st.const(cnt) != 0:
                    ctx.violation("it-create", where(f), "iterator is not empty although option presence and kind are not both established", tr)
                if n is True or b is False:
                    pass
                else:
                    ctx.violation("it-create", where(f), "gives up on an option without establishing that it is missing or of another kind", tr)
        ctx.absorb(ana)
        # ---- next
        f = mod.fn("argus_%s_next" % kind)
        ana = absint.Analysis(mod)
        eng = ctx.engine(ana)
        for e in eng.run_root(f, args={0: "nullable"}):
            st = e.st
            ctx.inst("it-next")
            it = ("s", "arg", 0)
            tr = absint.path_of(st)
            n = zero(eng, st, it)
            r = zero(eng, st, e.val)
            if r is None:
                ctx.violation("it-next", where(f), "result is neither plainly true nor false on this path", tr)
                continue
            if n is True:
                if r is False:
                    ctx.violation("it-next", where(f), "reports an element for a missing iterator", tr)
                continue
            p0 = ("s", "init", ("E0",), (it, (("f", S + "_position"),)), "i64")
            c0 = ("s", "init", ("E0",), (it, (("f", S + "_count"),)), "i64")
            a0 = ("s", "init", ("E0",), (it, (("f", S + data),)), "ptr")
            p1 = fval(eng, st, it, S + "_position", "i64")
            inb = truth(eng, st, "ult", p0, c0)
            if r is True:      # returned zero
                if inb is not False and n is not True:
                    ctx.violation("it-next", where(f), "ends although elements may remain", tr)
                if p1 != p0:
                    ctx.violation("it-next", where(f), "moves the position past the end", tr)
                continue
            if inb is not True:
                ctx.violation("it-next", where(f), "yields an element without position < count established", tr)
            if p1 != eng.binop(st, "add", p0, C(1), "i64"):
                ctx.violation("it-next", where(f), "does not advance by exactly one", tr)
            cell = (a0, (("i", p0, size),))
            def at(path, ty):
                return eng.read(st, absint.mkptr(cell[0], cell[1] + path), ty)
            v = fval(eng, st, it, S + "value", "i64")
            if kind == "array":
                if v != at((), "i64"):
                    ctx.violation("it-next", where(f), "the value yielded is not the element at the position", tr)
            else:
                if v not in (at((("f", "argus_pair_s.value"),), "i64"),):
                    ctx.violation("it-next", where(f), "the value yielded is not the pair's value at the position", tr)
                if fval(eng, st, it, S + "key", "ptr") != at((("f", "argus_pair_s.key"),), "ptr"):
                    ctx.violation("it-next", where(f), "the key yielded is not the pair's key at the position", tr)
            for fl, ty in ((data, "ptr"), ("_count", "i64")):
                if fval(eng, st, it, S + fl, ty) != ("s", "init", ("E0",), (it, (("f", S + fl),)), ty):
                    ctx.violation("it-next", where(f), "changes what the iterator ranges over", tr)
        ctx.absorb(ana)
        # ---- reset
        f = mod.fn("argus_%s_reset" % kind)
        ana = absint.Analysis(mod)
        eng = ctx.engine(ana)
        for e in eng.run_root(f, args={0: "nullable"}):
            st = e.st
            ctx.inst("it-reset")
            it = ("s", "arg", 0)
            if zero(eng, st, it) is True:
                continue
            if st.const(fval(eng, st, it, S + "_position", "i64")) != 0:
                ctx.violation("it-reset", where(f), "position is not 0 after reset", absint.path_of(st))
            for fl, ty in ((data, "ptr"), ("_count", "i64")):
                if fval(eng, st, it, S + fl, ty) != ("s", "init", ("E0",), (it, (("f", S + fl),)), ty):
                    ctx.violation("it-reset", where(f), "reset changes what the iterator ranges over", absint.path_of(st))
        ctx.absorb(ana)


class Exec(absint.Analysis):
    name = "exec"

    def inline(self, eng, st, fr, inst, f):
        return "icall:argus_option_s.action" in self.mod.closure(f.name) or not (self.mod.closure(f.name) & {"printf", "putchar", "fprintf"})

    def icall(self, eng, st, fr, inst, field, target, args):
        if field == OPT + "action":
            sym = st.fresh(("s", "call", fr, "ACTION", inst.id), eng)
            n = st.ps.get("n", C0)[1]
            st.ps = dict(st.ps, n=C(n + 1), res=sym, who=target, args=tuple(args))
            return [(sym, st)]
        return None


def run_exec(ctx):
    mod = ctx.mod
    ctx.rule("exec-dispatch", "argus_exec runs exactly the action of the deepest selected command, once, with the caller's data, and returns its status; without a command or action it runs nothing and returns the matching error")
    ctx.rule("exec-only", "no other public function runs a command action")
    ctx.rule("has-command", "argus_has_command is true exactly when a command was selected")
    f = mod.fn("argus_exec")
    ctx.need("icall:argus_option_s.action" in mod.closure(f.name), "argus_exec reaches no command action")
    ana = Exec(mod)
    eng = ctx.engine(ana)
    A = ("s", "arg", 0)
    depth = ("s", "init", ("E0",), (A, (("f", ARG + "subcommand_depth"),)), "i64")
    for e in eng.run_root(f, args={1: "nullable"}):
        st = e.st
        ctx.inst("exec-dispatch")
        tr = absint.path_of(st)
        n = st.ps.get("n", C0)[1]
        some = truth(eng, st, "ugt", depth, C0)
        top = ("s", "init", ("E0",), (A, (("f", ARG + "subcommand_stack"), ("i", eng.binop(st, "add", depth, C(-1), "i64"), 8))), "ptr")
        if n:
            if n != 1:
                ctx.violation("exec-dispatch", where(f), "runs more than one action", tr)
            if some is not True:
                ctx.violation("exec-dispatch", where(f), "runs an action without a selected command", tr)
            want = ("s", "init", ("E0",), (top, (("f", OPT + "action"),)), "ptr")
            if st.ps["who"] != want:
                ctx.violation("exec-dispatch", where(f), "the action run is not the deepest selected command's", tr)
            if zero(eng, st, st.ps["who"]) is not False:
                ctx.violation("exec-dispatch", where(f), "calls an action that may be missing", tr)
            if st.ps["args"] != (A, ("s", "arg", 1)):
                ctx.violation("exec-dispatch", where(f), "the action does not receive the parser and the caller's data", tr)
            if e.val != st.ps["res"]:
                ctx.violation("exec-dispatch", where(f), "the action's status is not what is returned", tr)
            continue
        r = st.const(e.val)
        none = some is False or zero(eng, st, top) is True
        if r == mod.enum("ARGUS_ERROR_NO_COMMAND"):
            if not none:
                ctx.violation("exec-dispatch", where(f), "reports NO_COMMAND although a command may be selected", tr)
        elif r == mod.enum("ARGUS_ERROR_INVALID_HANDLER"):
            act = ("s", "init", ("E0",), (top, (("f", OPT + "action"),)), "ptr")
            if zero(eng, st, act) is not True:
                ctx.violation("exec-dispatch", where(f), "reports a missing action without having established it", tr)
        else:
            ctx.violation("exec-dispatch", where(f), "returns %s without running the selected command" % r, tr)
    ctx.absorb(ana)
    # who may run actions
    for n, g in mod.defined.items():
        if g.internal:
            continue
        ctx.inst("exec-only")
        if "icall:argus_option_s.action" in mod.closure(n) and g.src != "argus_exec":
            # helpers of argus_exec that are visible across files are fine
            if not reach_only_from(mod, n, f.name):
                ctx.violation("exec-only", where(g), "can run a command action outside argus_exec")
    f = mod.fn("argus_has_command")
    ana = absint.Analysis(mod)
    eng = ctx.engine(ana)
    for e in eng.run_root(f):
        ctx.inst("has-command")
        st = e.st
        some = truth(eng, st, "ugt", depth, C0)
        if some is None:
            ok = e.val in (("op", "icmp", "ugt", depth, C0), ("op", "icmp", "ne", depth, C0))
        else:
            ok = zero(eng, st, e.val) is (not some)
        if not ok:
            ctx.violation("has-command", where(f), "answer differs from 'a command was selected'", absint.path_of(st))
    ctx.absorb(ana)


def reach_only_from(mod, n, root):
    cs = [g for g in mod.callers(n)]
    seen = set()
    while cs:
        g = cs.pop()
        if g.name == root or g.name in seen:
            continue
        seen.add(g.name)
        up = mod.callers(g.name)
        if not up:
            return False
        cs += up
    return bool(mod.callers(n))


def run_strerror(ctx):
    mod = ctx.mod
    ctx.rule("strerror", "every public error code has its own non-empty description, different from the fallback for unknown codes")
    f = mod.fn("argus_strerror")
    ana = App(mod)
    ana.inline = lambda eng, st, fr, inst, g: True
    ana.cap = 400
    ana.exit_cap = 400
    eng = ctx.engine(ana)
    exits = eng.run_root(f)
    ctx.absorb(ana)
    codes = None
    for k, e in mod.enums.items():
        if "ARGUS_ERROR_INVALID_ARGUMENT" in e:
            codes = e
    ctx.need(codes and len(codes) >= 25, "error code enumeration not found")
    text = {}
    arg = ("s", "arg", 0)
    unknown = max(codes.values()) + 1
    for name, v in list(codes.items()) + [("<unknown>", unknown)]:
        ctx.inst("strerror")
        res = set()
        for e in exits:
            s = e.st.copy()
            if eng.assume(s, ("op", "icmp", "eq", arg, C(v)), True):
                res.add(value_text(eng, mod, s, e.val))
        if None in res or not res:
            ctx.violation("strerror", "argus_strerror(%s)" % name, "no constant text is returned")
            continue
        if len(res) > 1:
            ctx.violation("strerror", "argus_strerror(%s)" % name, "the text is not determined by the code")
            continue
        t = res.pop()
        if not t:
            ctx.violation("strerror", "argus_strerror(%s)" % name, "the text is empty")
        text[name] = t
    fallback = text.get("<unknown>")
    seen = {}
    for name, t in text.items():
        if name == "<unknown>":
            continue
        if t == fallback:
            ctx.violation("strerror", "argus_strerror(%s)" % name, "described only by the fallback text")
        elif t in seen:
            ctx.violation("strerror", "argus_strerror(%s)" % name, "shares its text with %s" % seen[t])
        seen.setdefault(t, name)


def value_text(eng, mod, st, v):
    if v[0] == "p" and v[1][0] == "g" and not v[2]:
        s = mod.string_at(v[1][1])
        return s
    # table lookup: constant index into a constant table
    if v[0] == "s" and v[1] in ("init",):
        b, p = v[3]
        if b[0] == "g" and p and p[-1][0] == "i":
            c = st.const(p[-1][1])
            if c is not None:
                w = eng.ginit(b[1], p[:-1] + (("i", C(c), p[-1][2]),))
                if w and w[0] == "p":
                    return mod.string_at(w[1][1])
    return None
