"""The parsing pipeline: how one value is applied, the phases of argus_parse."""
import absint
from absint import C, C0, C1, TOP, split, mkptr, isc
from roles import *


# ---- how a value reaches an option ----------------------------------------------
class Apply(App):
    name = "apply"
    cap = 400
    exit_cap = 100

    def inline(self, eng, st, fr, inst, f):
        return bool(self.mod.closure(f.name) & {HANDLER, VALID}) or (not (self.mod.closure(f.name) & PRINTS))

    def callback(self, eng, st, fr, inst, tag, target, args, res):
        if tag == "VALIDATOR":
            ve, _ = cell(target)
            if ve is None:
                self.report("apply-pre", where(inst.fn), "calls a validator that cannot be traced to an attached entry", st)
                return
            order = eng.read(st, fieldptr(ve, "validator_entry_s.order"), "i32")
            if truth(eng, st, "eq", order, C(self.mod.enum("ORDER_PRE"))) is not True:
                self.report("apply-pre", where(inst.fn), "a validator that need not be a PRE validator is run on the raw string", st)
            if "v" in st.ps and st.ps["v"] != args[1]:
                self.report("apply-pre", where(inst.fn), "the validators do not all see the same string", st)
            if "hopt" in st.ps:
                self.report("apply-pre", where(inst.fn), "a PRE validator runs after the handler", st)
            if "vres" in st.ps and zero(eng, st, st.ps["vres"]) is not True:
                self.report("apply-pre", where(inst.fn), "a validator runs although an earlier one may have rejected the value", st)
            ps(st, v=args[1], vres=res, ve=ve)
            d = args[2] if len(args) > 2 else TOP
            if not self.samedata(eng, st, d, fieldptr(ve, "validator_entry_s.data")):
                self.report("apply-pre", where(inst.fn), "the validator is not given its own data", st)
        elif tag == "HANDLER":
            opt, _ = cell(target)
            if opt is None or opt != args[1]:
                self.report("apply-handler", where(inst.fn), "the handler called is not the one of the option it is given", st)
                return
            if "hopt" in st.ps:
                self.report("apply-handler", where(inst.fn), "the handler may run more than once for one value", st)
            if zero(eng, st, target) is not False:
                self.report("apply-handler", where(inst.fn), "calls a handler that may be missing", st)
            lst = fval(eng, st, opt, OPT + "validators", "ptr")
            if zero(eng, st, lst) is not True and not self.has(st, "done", ("ptr", lst)):
                self.report("apply-pre", where(inst.fn), "the handler is reached without every PRE validator of the option having run", st)
            if "vres" in st.ps and zero(eng, st, st.ps["vres"]) is not True:
                self.report("apply-pre", where(inst.fn), "the handler is reached although a validator may have rejected the value", st)
            if "v" in st.ps and st.ps["v"] != args[2]:
                self.report("apply-pre", where(inst.fn), "the handler receives another string than the one validated", st)
            ps(st, hopt=opt, hres=res, hval=args[2], v=args[2])

    def samedata(self, eng, st, d, want):
        if d == want or d == TOP:
            return True
        b, p = split(d)
        e = st.mem.get((b, p))
        return bool(e and e[0] == "copy" and mkptr(e[1], e[2]) == want)

    def element(self, eng, st, fr, f, hdr, kind, ptr, lst, regular):
        if kind != "ptr" or lst is None:
            return
        opt, fl = cell(lst)
        if fl != OPT + "validators":
            return
        if not regular:
            self.report("apply-pre", where(f), "the walk over the validators does not start at the first and advance by one", st)
        ve = eng.read(st, ptr, "ptr")
        order = eng.read(st, fieldptr(ve, "validator_entry_s.order"), "i32")
        if truth(eng, st, "eq", order, C(self.mod.enum("ORDER_PRE"))) is False:
            return
        if st.ps.get("ve") != ve:
            self.report("apply-pre", where(f), "moves past a PRE validator without running it", st)
        elif zero(eng, st, st.ps["vres"]) is not True:
            self.report("apply-pre", where(f), "moves past a PRE validator that may have rejected the value", st)

    def blank(self, eng, st, fr, f, hdr):
        if loop_reaches(self.mod, f, hdr, (VALID,)):
            self.report("apply-pre", where(f), "goes round the validator loop without looking at a validator", st)

    def store(self, eng, st, fr, inst, ptr, val):
        b, p = split(ptr)
        if p and p[-1] == ("f", OPT + "is_set") and zero(eng, st, val) is not True:
            opt = mkptr(b, p[:-1])
            if st.ps.get("hopt") != opt or zero(eng, st, st.ps["hres"]) is not True:
                self.report("apply-set", where(inst.fn), "marks an option set without its handler having succeeded", st)


def appliers(mod):
    r = lowest(mod, lambda f: has(mod, f, HANDLER, VALID))
    if not r:
        raise Broken("no function applies a value (validators then handler)")
    return r


def run_apply(ctx):
    mod = ctx.mod
    E = mod.enum
    ctx.rule("apply-pre", "before an option's handler runs, every PRE validator attached to it has run, in order, on the same string with its own data, and accepted")
    ctx.rule("apply-handler", "the option's own handler runs exactly once, and is never called when missing")
    ctx.rule("apply-set", "an option is marked set exactly when its handler succeeded; nothing else in the library marks options set")
    ctx.rule("apply-result", "the outcome is the rejecting validator's or handler's own status, SHOULD_EXIT for an accepted exit option, success otherwise")
    roots = appliers(mod)
    for f in roots:
        ana = Apply(mod)
        eng = ctx.engine(ana)
        exits = eng.run_root(f)
        for e in exits:
            for st, val in cases(eng, e, (0, E("ARGUS_SHOULD_EXIT"), E("ARGUS_ERROR_INVALID_HANDLER"))):
                tr = absint.path_of(st)
                ctx.inst("apply-result")
                c = st.const(val)
                h = "hopt" in st.ps
                hz = zero(eng, st, st.ps["hres"]) if h else None
                if h:
                    ctx.inst("apply-handler")
                    ctx.inst("apply-set")
                    o = st.ps["hopt"]
                    s = st.const(fval(eng, st, o, OPT + "is_set", "i8"))
                    fl = bits(eng, st, fval(eng, st, o, OPT + "flags", "i32"), E("FLAG_EXIT"))
                    if hz is True and s != 1:
                        ctx.violation("apply-set", where(f), "returns after a successful handler without the option being marked set", tr)
                    if hz is True and c == 0 and fl is not False:
                        ctx.violation("apply-result", where(f), "an accepted option that may carry the exit flag yields success", tr)
                    elif hz is True and c == E("ARGUS_SHOULD_EXIT") and fl is not True:
                        ctx.violation("apply-result", where(f), "asks to exit for an option without the exit flag", tr)
                    elif hz is True and c not in (0, E("ARGUS_SHOULD_EXIT")):
                        ctx.violation("apply-result", where(f), "reports failure after a successful handler", tr)
                    elif hz is not True and val != st.ps["hres"]:
                        ctx.violation("apply-result", where(f), "the handler's own status is not what is returned", tr)
                    continue
                if "vres" in st.ps and zero(eng, st, st.ps["vres"]) is not True:
                    ctx.inst("apply-pre")
                    if val != st.ps["vres"]:
                        ctx.violation("apply-result", where(f), "the rejecting validator's own status is not what is returned", tr)
                    continue
                opts = [("s", "arg", n) for n, p in enumerate(f.params) if p["ty"] == "ptr"]
                if c == E("ARGUS_ERROR_INVALID_HANDLER") and any(zero(eng, st, fval(eng, st, o, OPT + "handler", "ptr")) is True for o in opts):
                    continue
                ctx.violation("apply-result", where(f), "returns %s without the handler having run and without a rejection" % c, tr)
        ctx.absorb(ana)
    inner = set()
    for f in roots:
        inner |= reach(mod, f.name)
    sel = selectors(mod)
    for f in mod.defined.values():
        for i in f.all_insts():
            if i.op == "store" and ("field", OPT + "is_set") in mod._ptrsteps(f, i.ops[1]):
                ctx.inst("apply-set")
                o = i.ops[0]
                if (o["k"] == "c" and o["v"] == 0) or f.name in inner or f.name in sel or reloaded(mod, f, o, OPT + "is_set") or restored(mod, f, i, OPT + "is_set"):
                    continue
                ctx.violation("apply-set", where(f), "marks an option set outside the value protocol")
            if i.op == "call" and i.callee_name() is None and i.d["callee"]["k"] != "asm" and mod.callee_field(i) == OPT + "handler":
                ctx.inst("apply-handler")
                if f.name not in inner:
                    ctx.violation("apply-handler", where(f), "calls an option handler outside the value protocol")


def selectors(mod):
    """functions that record a selected subcommand (and their private helpers)"""
    s = {f.name for f in mod.defined.values() for i in f.all_insts()
         if i.op == "store" and ("field", ARG + "subcommand_stack") in mod._ptrsteps(f, i.ops[1])}
    for f in mod.defined.values():
        c = mod.callers(f.name)
        if c and all(g.name in s for g in c) and not has(mod, f, HANDLER):
            s.add(f.name)
    return s


def reloaded(mod, f, o, field, seen=None):
    """is o a value loaded from that field (through width changes)?"""
    seen = set() if seen is None else seen
    if o["k"] != "v" or o["n"] in seen:
        return False
    seen.add(o["n"])
    x = f.insts[o["n"]]
    if x.op in ("zext", "trunc", "sext", "bitcast", "and"):
        return reloaded(mod, f, x.ops[0], field, seen)
    if x.op == "phi":
        return all(reloaded(mod, f, v, field, set(seen)) for _, v in x.ops)
    return x.op == "load" and ("field", field) in mod._ptrsteps(f, x.ops[0])


def restored(mod, f, i, field):
    """is the store made only where that field was found set before?"""
    doms = f.dominators()
    for b in doms.get(i.block, ()):
        t = f.blocks[b][-1]
        if t.op == "br" and len(t.ops) == 1:
            c, yes = t.ops[0], t.d["succ"][0]
            x = f.insts[c["n"]] if c["k"] == "v" else None
            if x is not None and x.op == "icmp" and x.get("pred") in ("ne", "eq") and x.ops[1].get("v") == 0:
                c, yes = x.ops[0], t.d["succ"][0 if x.get("pred") == "ne" else 1]
            if len(set(t.d["succ"])) == 2 and yes in doms[i.block] and list(f.pred[yes]) == [b] and reloaded(mod, f, c, field):
                return True
    return False


def cases(eng, e, consts):
    """an exit, split over the constants its value may be when the path left it open"""
    st, v = e.st, e.val
    if v[0] == "op":
        out = []
        rest = [st]
        for c in consts:
            nx = []
            for s in rest:
                for t in eng.assume(s.copy(), eng.icmp(s, "eq", v, C(c)), True):
                    out.append((t, C(c)))
                nx += eng.assume(s.copy(), eng.icmp(s, "eq", v, C(c)), False)
            rest = nx
        return out + [(s, v) for s in rest]
    return [(st, v)]


# ---- phases of a parse --------------------------------------------------------------
def phase_roles(mod):
    def post(f):
        return has(mod, f, VALID) and not has(mod, f, HANDLER) and ARG + "options" in reads(mod)[f.name]

    def cli(f):
        return has(mod, f, HANDLER) and "char**" in f.sig[1:]
    roles = {}
    for n, f in mod.defined.items():
        r = [mod.defined[x] for x in reach(mod, n)]
        has_env = "getenv" in mod.closure(n) or "secure_getenv" in mod.closure(n)
        has_post = any(post(g) for g in r)
        has_cli = any(cli(g) for g in r)
        if has_cli and not has_env and not has_post:
            roles[n] = "cli"
        elif has_env and has(mod, f, HANDLER) and not has_cli and not has_post:
            roles[n] = "env"
        elif has_post and not has_cli and not has_env:
            roles[n] = "post"
    # a wrapper around the (recursive) command-line walk is not the walk itself
    def rec(n):
        return any(n in reach(mod, c.lstrip("&")) for c in mod.callgraph()[n] if c.lstrip("&") in mod.defined)
    walks = {n for n, k in roles.items() if k == "cli" and rec(n)}
    for n in [n for n, k in roles.items() if k == "cli" and n not in walks and reach(mod, n) & walks]:
        del roles[n]
    mod._walks = walks
    for k in ("cli", "env", "post"):
        if k not in roles.values():
            raise Broken("no function carries out the %s phase" % {"cli": "command-line", "env": "environment", "post": "validation"}[k])
    return roles


ORDER = ("cli", "env", "post")


class Phases(App):
    name = "phases"
    cap = 200
    exit_cap = 60

    def __init__(self, mod):
        super().__init__(mod)
        self.roles = phase_roles(mod)
        self.free = mod.fn("argus_free").name
        self.releasers = {n for n in reach(mod, self.free) if has(mod, mod.defined[n], FREEH) and ARG + "options" in reads(mod)[n]
                          and takes(mod.defined[n], "argus_t*")} | {self.free}

    def inline(self, eng, st, fr, inst, f):
        c = reach(self.mod, f.name)
        return bool(c & (set(self.roles) | self.releasers)) or bool(self.mod.closure(f.name) & absint.NORET)

    def call(self, eng, st, fr, inst, name, args):
        A = ("s", "arg", 0)
        if name in self.releasers and args and args[0] == A:
            ps(st, freed=C(1))
            eng.opaque(st, fr, inst.fn, inst, self.mod.defined[name], args)
            return [(TOP, st)]
        r = self.roles.get(name)
        if r is None:
            return None
        g = self.mod.defined[name]
        k = ORDER.index(r)
        last = st.ps.get("last")
        if last is not None:
            if zero(eng, st, last) is not True:
                self.report("phase-order", where(inst.fn), "the %s phase starts although an earlier phase may have failed" % r, st)
        n = st.ps.get("n", C0)[1]
        if n != k:
            self.report("phase-order", where(inst.fn), "the %s phase does not run at its place in command line, environment, validation" % r, st)
        if A not in args:
            self.report("phase-order", where(inst.fn), "the %s phase does not run on the parser being parsed into" % r, st)
        if r == "cli":
            for v in ("s", "arg", 1), ("s", "arg", 2):
                if not any(absint.mentions(a, v, {}) for a in args):
                    self.report("phase-order", where(inst.fn), "the command line handed over is not the caller's", st)
            if name in self.mod._walks:
                self.cargs = getattr(self, "cargs", 0) + 1
                want = {eng.binop(st, "add", ("s", "arg", 1), C(-1), "i32")}, {mkptr(("s", "arg", 2), (("i", C1, 8),))}
                if not all(w & set(args) for w in want):
                    self.report("cli-args", where(inst.fn), "the walk is not given every argument after the program name", st)
            lst = fval(eng, st, A, ARG + "options", "ptr")
            if takes(g, "argus_option_t*") and lst not in args:
                self.report("phase-order", where(inst.fn), "the command line is not parsed against the parser's own options", st)
        res, st = eng.opaque(st, fr, inst.fn, inst, g, args)[0]
        ps(st, last=res, n=C(k + 1), freed=C0)
        if n == k:
            ps(st, done=C(k + 1))
        return [(res, st)]

    def terminated(self, eng, st, fr, inst, name, args):
        last = st.ps.get("last")
        if last is None or truth(eng, st, "eq", last, C(self.mod.enum("ARGUS_SHOULD_EXIT"))) is not True:
            self.report("exit-when", where(inst.fn), "ends the program although no exit option has been accepted on this path", st)
        if st.ps.get("freed") != C1:
            self.report("exit-free", where(inst.fn), "ends the program without releasing the parser first", st)
        if name != "exit" or st.const(args[0]) != 0:
            self.report("exit-when", where(inst.fn), "an exit option ends the program with something other than exit status 0", st)
        self.exits = getattr(self, "exits", 0) + 1


def run_phases(ctx):
    mod = ctx.mod
    E = mod.enum
    f = mod.fn("argus_parse")
    ana = Phases(mod)
    eng = ctx.engine(ana)
    A = ("s", "arg", 0)
    for e in eng.run_root(f):
        for st, val in cases(eng, e, (0,)):
            tr = absint.path_of(st)
            last = st.ps.get("last")
            ctx.inst("phase-order")
            z = zero(eng, st, val)
            if z is None:
                for t in (True, False):
                    for s in eng.assume(st.copy(), eng.icmp(st, "eq", val, C0), t):
                        verdict_phase(ctx, eng, f, s, val, t, A)
            else:
                verdict_phase(ctx, eng, f, st, val, z, A)
    ctx.absorb(ana)
    ctx.inst("exit-when", getattr(ana, "exits", 0))
    ctx.inst("cli-args", getattr(ana, "cargs", 0))
    ctx.inst("exit-free", getattr(ana, "exits", 0))
    if "exit-who" in ctx.rules:
        inside = {n for n in reach(mod, f.name)}
        owner = {f.name: inside}
        ini = {n for n, g in mod.defined.items() if any(x in mod.closure(n) for x in absint.NORET) and structure_checker(mod, n)}
        for n, g in mod.defined.items():
            for c in g.calls():
                if c.callee_name() in absint.NORET:
                    ctx.inst("exit-who")
                    if n in ini or any(n in reach(mod, x) for x in ini):
                        continue
                    if n == f.name or only_via(mod, n, f.name):
                        continue
                    ctx.violation("exit-who", where(g), "can end the program outside exit-option handling and definition checking")
        run_init_exit(ctx, ini)


def only_via(mod, n, root):
    """every call chain into n starts at root, passing no role function"""
    seen, w = set(), [n]
    while w:
        x = w.pop()
        for g in mod.callers(x):
            if g.name == root or g.name in seen:
                continue
            seen.add(g.name)
            if not mod.callers(g.name):
                return False
            w.append(g.name)
    roles = phase_roles(mod)
    return bool(mod.callers(n)) and not (seen & set(roles))


def structure_checker(mod, n):
    return mod.defined[n].src == "_argus_init_validate"


class Init(absint.Analysis):
    def inline(self, eng, st, fr, inst, f):
        return bool(self.mod.closure(f.name) & absint.NORET)

    def call(self, eng, st, fr, inst, name, args):
        g = self.mod.defined.get(name)
        if g is not None and g.src == "validate_structure":
            res, st = eng.opaque(st, fr, inst.fn, inst, g, args)[0]
            ps(st, checked=res)
            return [(res, st)]
        return None

    def terminated(self, eng, st, fr, inst, name, args):
        self.n = getattr(self, "n", 0) + 1
        c = st.ps.get("checked")
        if c is None or zero(eng, st, c) is not False:
            self.report("exit-init", where(inst.fn), "ends the program although the definition check may have passed", st)
        if st.const(args[0]) == 0:
            self.report("exit-init", where(inst.fn), "a rejected definition ends the program with a success status", st)


def run_init_exit(ctx, ini):
    mod = ctx.mod
    f = mod.fn("_argus_init_validate")
    ana = Init(mod)
    eng = ctx.engine(ana)
    want = [n for n, s in enumerate(f.sig[1:]) if s in ("bool", "_Bool")]
    ctx.need(want, "the definition-check switch of _argus_init_validate is gone")
    off = len(f.params) - (len(f.sig) - 1)
    flag = ("s", "arg", want[0] + off)
    for e in eng.run_root(f):
        st = e.st
        ctx.inst("exit-init")
        c = st.ps.get("checked")
        on = [z for z in (zero(eng, st, flag),)][0]
        ons = [fct for k, fct in st.facts.items() if absint.mentions(k, flag, {})]
        if c is not None:
            if zero(eng, st, c) is not True:
                ctx.violation("exit-init", where(f), "hands out a parser whose definitions were rejected", absint.path_of(st))
        else:
            s2 = eng.assume(st.copy(), flag, True) if not eng.isbool(flag) else []
            off_known = boolval_arg(eng, st, flag) is False
            if not off_known:
                ctx.violation("exit-init", where(f), "hands out a parser without the requested definition check", absint.path_of(st))
    ctx.absorb(ana)
    ctx.inst("exit-init", getattr(ana, "n", 0))


def boolval_arg(eng, st, a):
    """value of a bool parameter through the widening/narrowing it goes through"""
    for k, fct in list(st.facts.items()):
        if absint.mentions(k, a, {}) and fct[0] == fct[1] == 0:
            return False
        if absint.mentions(k, a, {}) and (0 in fct[2] or fct[0] > 0):
            return True
    return None


def verdict_phase(ctx, eng, f, st, val, z, A):
    tr = absint.path_of(st)
    last = st.ps.get("last")
    done = st.ps.get("n", C0)[1]
    ec = fval(eng, st, A, ARG + "error_code", "i32")
    if z:
        if done != 3 or zero(eng, st, last) is not True:
            ctx.violation("phase-success", where(f), "reports success without command line, environment and validation all having succeeded", tr)
        ctx.inst("phase-success")
        if zero(eng, st, ec) is not True:
            ctx.violation("status-code", where(f), "success is returned while the parser's error code may still name an error", tr)
        if st.ps.get("freed") == C1:
            ctx.violation("fail-free", where(f), "a successful parse releases the values it reports", tr)
    else:
        ctx.inst("fail-free")
        ctx.inst("phase-status")
        if st.ps.get("freed") != C1:
            ctx.violation("fail-free", where(f), "a failing parse returns without releasing what it stored", tr)
        if last is None or val != last and not (st.const(val) is not None and st.const(val) == st.const(last)):
            ctx.violation("phase-status", where(f), "the failing phase's own status is not what is returned", tr)
        if ec != val and not (st.const(ec) is not None and st.const(ec) == st.const(val)):
            ctx.violation("status-code", where(f), "the parser's error code is not the status returned", tr)
        if last is not None and truth(eng, st, "eq", last, C(eng.mod.enum("ARGUS_SHOULD_EXIT"))) is True and done < 3:
            ctx.violation("exit-when", where(f), "an accepted exit option does not end the program", tr)
    ctx.inst("status-code")


def run_p01(ctx):
    ctx.rule("phase-order", "argus_parse runs the command line, the environment and the validation phase on the caller's input, in that order, each only after the previous one succeeded")
    ctx.rule("cli-args", "the command line walked is the caller's argument vector without the program name")
    ctx.rule("phase-success", "success is returned only when all three phases succeeded")
    run_phases(ctx)


def run_p02(ctx):
    ctx.rule("fail-free", "every failing return of argus_parse has released the parser after the last phase, and no successful one has")
    ctx.rule("exit-free", "the program is only ended after the parser was released")
    run_phases(ctx)


def run_p03(ctx):
    ctx.rule("exit-when", "argus_parse ends the program exactly when a phase reports an accepted exit option, with status 0")
    ctx.rule("exit-who", "no other library code can end the program, except the definition check")
    ctx.rule("exit-init", "the definition check ends the program only when it rejected, with a failure status, and never hands out rejected definitions")
    run_phases(ctx)


def run_p20(ctx):
    ctx.rule("phase-status", "a failing parse returns the failing phase's own status")
    ctx.rule("status-code", "after argus_parse the parser's error code equals the returned status")
    run_phases(ctx)
