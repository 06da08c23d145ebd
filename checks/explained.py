"""A failure is explained, a success is not reported as one (P36)."""
import absint
from absint import C, C0, C1, TOP, split, isc
from roles import *
from pipeline import phase_roles

STREAM = {"fprintf": 0, "vfprintf": 0, "fputs": 1, "fputc": 1, "putc": 1, "fwrite": 3, "dprintf": 0, "vdprintf": 0}
ALWAYS = {"perror", "psignal", "warn", "warnx", "vwarn", "vwarnx"}


def stderr(v):
    """is this stream the error stream?"""
    if v == C(2):
        return True
    while v[0] == "op" and v[1].startswith("as:"):
        v = v[2]
    return v[0] == "s" and v[1] in ("init", "hv") and v[3][0] == ("g", "stderr")


class Said(App):
    name = "explained"
    cap = 400
    exit_cap = 60

    def __init__(self, mod, steps, codes):
        super().__init__(mod)
        self.steps = steps
        self.codes = {C(x) for x in codes} | {C0}
        self.n = {"messages": 0, "callbacks": 0, "verdicts": 0}

    def inline(self, eng, st, fr, inst, f):
        c = self.mod.closure(f.name)
        return bool(c & (set(STREAM) | ALWAYS | {HANDLER, VALID})) or f.ret in ("i32", "i1", "i8") and (
            bool(c & set(absint.ALLOC)) or f.internal and len(f.sig) == 4 and "argus_t*" in f.sig[1])

    def joinps(self, st):
        """which way a status came about stays apart"""
        return super().joinps(st), frozenset((k, v) for k, v in st.env.items() if len(k) == 2 and v in self.codes)

    def said(self, st, inst):
        ps(st, said=C1)
        self.n["messages"] += 1

    def call(self, eng, st, fr, inst, name, args):
        if name in ALWAYS or name in STREAM and args[STREAM[name]] != TOP and stderr(args[STREAM[name]]):
            self.said(st, inst)
            return None
        g = self.mod.defined.get(name)
        if g is not None and (name in eng.stack or name in self.steps) and g.ret == "i32":
            # explained where it fails: it is looked at on its own
            res, st = eng.opaque(st, fr, inst.fn, inst, g, args)[0]
            return self.outcome(eng, st, res)
        return None

    def outcome(self, eng, st, res):
        out = []
        for t in (True, False):
            for s in eng.assume(st.copy(), eng.icmp(st, "eq", res, C0), t):
                if not t:
                    ps(s, said=C1)
                out.append((res, s))
        return out

    def icall(self, eng, st, fr, inst, field, target, args):
        r = super().icall(eng, st, fr, inst, field, target, args)
        if r is None or field not in (OPT + "handler", "validator_entry_s.func"):
            return r
        self.n["callbacks"] += 1
        return [x for v, s in r for x in self.outcome(eng, s, v)]


def steps_of(mod):
    """the functions whose status decides what a parse returns: its phases and the callbacks of the library"""
    roles = phase_roles(mod)
    cg = mod.callgraph()
    outer = {n for n in roles if any(n in {c.lstrip("&") for c in cg[m]} for m in mod.defined if m not in roles)}
    kinds = {}
    for n in outer:
        kinds[n] = roles[n]
    for f in mod.defined.values():
        if f.ret != "i32" or len(f.sig) != 4 or "argus_t*" not in f.sig[1]:
            continue
        last = f.sig[3].replace("const ", "").replace(" ", "")
        if last == "char*" and "argus_option_t*" in f.sig[2] and not (f.internal and mod.callers(f.name)):
            kinds[f.name] = "handler"
        elif "validator_data_t" in last and not (f.internal and mod.callers(f.name)):
            kinds[f.name] = "validator"
    return kinds


def run_explained(ctx):
    mod = ctx.mod
    ctx.rule("explained", "a step that fails for any reason but a lack of memory has written a message to the error stream")
    ctx.rule("quiet", "a step that succeeds has written none")
    kinds = steps_of(mod)
    ctx.need(list(kinds.values()).count("handler") >= 8 and list(kinds.values()).count("validator") >= 4, "fewer handlers or validators found than the library has")
    memory = mod.enum("ARGUS_ERROR_MEMORY")
    stop = mod.enum("ARGUS_SHOULD_EXIT")
    for n in sorted(kinds):
        f = mod.defined[n]
        ana = Said(mod, {m for m, k in kinds.items() if m != n}, (stop, memory))
        eng = ctx.engine(ana)
        bad = set()
        for e in eng.run_root(f, args={2: "nullable"} if kinds[n] == "handler" else None):
            v = e.val
            for t in (True, False):
                cond = eng.icmp(e.st, "eq", v, C0) if v != TOP else TOP
                for s in (eng.assume(e.st.copy(), cond, t) if cond != TOP else [e.st]):
                    said = s.ps.get("said") == C1
                    ana.n["verdicts"] += 1
                    if t:
                        ctx.inst("quiet")
                        if said and cond != TOP and "quiet" not in bad:
                            bad.add("quiet")
                            ctx.violation("quiet", where(f), "may report a failure and succeed all the same", absint.path_of(s))
                        continue
                    if cond != TOP and any(truth(eng, s, "eq", v, C(x)) is True for x in (stop, memory)):
                        continue
                    ctx.inst("explained")
                    if not said and "explained" not in bad:
                        bad.add("explained")
                        ctx.violation("explained", where(f), "may fail without a message on the error stream", absint.path_of(s))
        ctx.absorb(ana)
        for k, x in ana.n.items():
            ctx.count(k, x)
    ctx.setcount("steps", frozenset("%s (%s)" % (mod.defined[n].src, k) for n, k in kinds.items()))
