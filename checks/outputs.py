"""Which stream each output operation writes to (P34)."""
import macros
from places import Places
from roles import *

STREAMARG = {"fprintf": 0, "vfprintf": 0, "fputs": 1, "fputc": 1, "putc": 1, "fwrite": 3, "dprintf": 0, "write": 0}
PLAIN = {"printf": "stdout", "vprintf": "stdout", "puts": "stdout", "putchar": "stdout", "perror": "stderr", "psignal": "stderr", "warn": "stderr", "warnx": "stderr"}
REQUESTS = ("argus_print_help", "argus_print_usage", "argus_print_version", "argus_exec")


def called(mod, roots):
    """functions reached by calls, or handed on as the argument of a call"""
    seen, w = set(), list(roots)
    while w:
        n = w.pop()
        if n in seen or n not in mod.defined:
            continue
        seen.add(n)
        for i in mod.defined[n].all_insts():
            if i.op == "call":
                if i.callee_name():
                    w.append(i.callee_name())
                w += [o["n"] for o in i.ops if isinstance(o, dict) and o["k"] == "f"]
    return seen


def streams(mod, pl, f, i):
    """(function, stream) pairs an output call may write for"""
    c = i.callee_name()
    if c in PLAIN:
        return {(f.name, PLAIN[c])}
    return resolve(mod, pl, f, i.ops[STREAMARG[c]], ())


def resolve(mod, pl, f, o, stack):
    """a stream handed to a helper counts for the function that hands it over"""
    sites = pl.sites.get(f.name)
    if o["k"] == "a" and sites and f.name not in stack:
        return set().union(*[resolve(mod, pl, i.fn, i.ops[o["n"]], stack + (f.name,)) for i in sites])
    out = set()
    for r in pl.roots(f, o):
        if r[0] == "load":
            for p in r[1]:
                out.add(p[1] if p[0] == "global" else "?")
        elif r[0] == "const":
            out.add({1: "stdout", 2: "stderr"}.get(r[1], "?"))
        elif r[0] == "arg":
            out.add("given")
        elif r[0] == "ext":
            out.add("other")        # a stream the library opened itself
        else:
            out.add("?")
    return {(f.name, x) for x in out}


def literals(mod, pl, f, i):
    out = []
    for o in i.ops:
        g = o["base"] if o["k"] == "gep" else o
        t = mod.string_at(g["n"]) if g["k"] == "g" else None
        if t:
            out.append(t)
    return out


def run_outputs(ctx):
    mod = ctx.mod
    for r, t in (("request", "help, usage, version and command listings are written to standard output"),
                 ("diagnostic", "everything else the library writes goes to standard error"),
                 ("error", "a text announcing an error is never written to standard output"),
                 ("given", "a function given a stream writes to that stream")):
        ctx.rule(r, t)
    # the handlers help and version options name
    hs = macros.special_handlers(mod)
    req = called(mod, [r for r in REQUESTS if r in mod.defined] + hs)
    ctx.need(len([r for r in REQUESTS if r in mod.defined]) == len(REQUESTS), "an entry point that prints vanished")
    pl = Places(mod, mod.defined)
    n = 0
    for name in sorted(mod.defined):
        f = mod.defined[name]
        for i in f.all_insts():
            if i.op != "call":
                continue
            c = i.callee_name()
            if c not in PLAIN and c not in STREAMARG:
                continue
            n += 1
            err = any(t.lstrip().lower().startswith((b"error", b"warning", b"fatal")) for t in literals(mod, pl, f, i))
            for who, s in sorted(streams(mod, pl, f, i)):
                if s == "given":
                    ctx.inst("given")
                    continue
                if s == "?":
                    ctx.notes.append("stream of %s at %s not resolved" % (c, i.loc))
                at = where(mod.defined[who])
                if err:
                    ctx.inst("error")
                    if s == "stdout":
                        ctx.violation("error", at, "writes an error text to standard output", str(i.loc))
                elif who in req:
                    ctx.inst("request")
                    if s == "stderr":
                        ctx.violation("request", at, "writes part of a requested text to standard error", str(i.loc))
                else:
                    ctx.inst("diagnostic")
                    if s == "stdout":
                        ctx.violation("diagnostic", at, "writes a diagnostic to standard output", str(i.loc))
    ctx.inst("error")
    ctx.setcount("output_calls", n)
