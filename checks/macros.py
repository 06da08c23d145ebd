"""What the definition macros expand to: kind, value type, handler and release
callback of every entry belong together (P24)."""
import os
import re
import shutil
import tempfile

import ir
from ir import Broken, Module, REPO
from places import Places
from roles import *

H = "includes/argus/options.h"
MEMBER = {"INT": "i64", "FLOAT": "double", "STRING": "ptr", "BOOL": "i8", "FLAG": "i8"}
PAIRK, PAIRV = "argus_pair_s.key", "argus_pair_s.value"
VALIDATORS = {  # macro use: (validator, order, {data field: value}) by the library's public names
    "V_RANGE(3, 9)": ("range_validator", "format_range_validator", "ORDER_POST", {0: 3, 8: 9}),
    "V_LENGTH(3, 9)": ("length_validator", "format_length_validator", "ORDER_POST", {0: 3, 8: 9}),
    "V_COUNT(3, 9)": ("count_validator", "format_count_validator", "ORDER_POST", {0: 3, 8: 9}),
    "V_REGEX(w_re)": ("regex_validator", "format_regex_validator", "ORDER_PRE", {0: b"p", 8: b"h"}),
    'V_CHOICE_STR("a", "bc", "d")': ("choices_string_validator", "format_choices_validator", "ORDER_POST", {0: [b"a", b"bc", b"d"], 8: 3, 16: "STRING"}),
    "V_CHOICE_INT(5, 6)": ("choices_int_validator", "format_choices_validator", "ORDER_POST", {0: [5, 6], 8: 2, 16: "INT"}),
    "V_CHOICE_FLOAT(0.5, 1.5, 2.5)": ("choices_float_validator", "format_choices_validator", "ORDER_POST", {0: ["0.5", "1.5", "2.5"], 8: 3, 16: "FLOAT"}),
    "MAKE_VALIDATOR(w_validator, NULL, _V_DATA_CUSTOM_(77), ORDER_PRE)": ("w_validator", None, "ORDER_PRE", {0: 77}),
}


def definitions():
    """macros of the header that define options: (macro, kind, value type)"""
    text = open(os.path.join(REPO, H)).read()
    out = []
    for m in re.findall(r"^#\s*define\s+((?:OPTION|POSITIONAL)_[A-Z_0-9]+)\s*\(", text, re.M):
        if m in ("OPTION_BASE", "POSITIONAL_BASE", "OPTION_END"):
            continue
        if m.startswith("OPTION_"):
            out.append((m, "TYPE_OPTION", m[7:]))
        elif m.startswith("POSITIONAL_MANY_"):
            out.append((m, "TYPE_POSITIONAL", "VARIADIC_" + m[16:]))
        else:
            out.append((m, "TYPE_POSITIONAL", m[11:]))
    return out


def witness(defs):
    o = ["#include <argus.h>", "#include <argus/regex.h>" if os.path.exists(os.path.join(REPO, "includes/argus/regex.h")) else "",
         "int w_handler(argus_t *a, argus_option_t *o, char *v) { return 0; }", "int w_free(argus_option_t *o) { return 0; }",
         "int w_action(argus_t *a, void *d) { return 0; }", "int w_validator(argus_t *a, void *o, validator_data_t d) { return 0; }",
         "#undef w_re", '#define w_re ((regex_data_t){ .pattern = "p", .hint = "h" })']
    for m, kind, t in defs:
        n = "'x', \"long\"" if kind == "TYPE_OPTION" else '"pos"'
        o.append("argus_option_t w_%s[] = { %s(%s, HELP(\"h\"))," % (m, m, n))
        o.append(" %s(%s, HELP(\"h\"), HANDLER(w_handler), FREE_HANDLER(w_free), FLAGS(FLAG_HIDDEN), HINT(\"hint\"), ENV_VAR(\"env\"),"
                 " REQUIRE(\"r1\", \"r2\"), CONFLICT(\"c1\"))," % (m, n))
        if kind == "TYPE_OPTION":
            o.append(" %s('y', NULL, HELP(\"h\"))," % m)
        base = t
        if base in MEMBER:
            for d in {"INT": ["7"], "FLOAT": ["0.5", "3"], "STRING": ['"d"'], "BOOL": ["true"]}.get(base, []):
                o.append(" %s(%s, HELP(\"h\"), DEFAULT(%s))," % (m, n, d))
        o.append(" OPTION_END() };")
    o.append("argus_option_t w_common[] = { HELP_OPTION(), VERSION_OPTION(), GROUP_START(\"g\", HELP(\"d\"), FLAGS(FLAG_EXCLUSIVE)), GROUP_END(),"
             " SUBCOMMAND(\"sub\", w_sub, HELP(\"h\"), ACTION(w_action)), OPTION_END() };".replace("w_sub", "w_" + defs[0][0]))
    for k, v in enumerate(VALIDATORS):
        o.append("argus_option_t w_val%d[] = { OPTION_STRING('x', \"long\", HELP(\"h\"), VALIDATOR(%s)), OPTION_END() };" % (k, v))
    o.append("ARGUS_OPTIONS(w_table, OPTION_FLAG('x', \"long\", HELP(\"h\")),)")
    return "\n".join(o) + "\n"


def compiled(defs):
    d = tempfile.mkdtemp(prefix="argus-w-")
    src = os.path.join(d, "witness.c")
    open(src, "w").write(witness(defs))
    try:
        return Module(ir.compile_module([src], passes="mem2reg"))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def special_handlers(lib):
    """handlers of the help and version options, by their macros"""
    D = Data(compiled(definitions()))
    out = [D.fn(D.field(D.entry("w_common", n), "handler")) for n in (0, 1)]
    return [h for h in out if h in lib.defined]


class Data:
    """constants of the witness tables"""

    def __init__(self, mod):
        self.mod = mod
        self.fo = {}
        for t in mod.diu.values():
            for f in t["fields"]:
                self.fo[t["name"] + "." + f["n"]] = f["off"]

    def at(self, c, off):
        while True:
            if c["k"] == "agg":
                offs = c.get("offs")
                if not offs:
                    n = len(c["elems"])
                    return None if not n else self.at(c["elems"][off // self.esz(c)], off % self.esz(c))
                best = [(o, e) for o, e in zip(offs, c["elems"]) if o <= off][-1]
                c, off = best[1], off - best[0]
            elif c["k"] == "zero":
                return {"k": "c", "v": 0}
            elif c["k"] == "data" and not c.get("isstr"):
                w = c["elems"][0].get("w", 64) // 8
                return c["elems"][off // w] if off // w < len(c["elems"]) else None
            else:
                return c if off == 0 else None

    def esz(self, c):
        return 8

    def entry(self, table, n):
        g = self.mod.globals.get(table)
        if g is None:
            raise Broken("witness table %s vanished" % table)
        e = g["init"]["elems"]
        return e[n]

    def field(self, e, name):
        return self.at(e, self.fo[OPT + name])

    def num(self, e, name):
        c = self.field(e, name)
        return c["v"] if c and c["k"] == "c" else None

    def text(self, c):
        while c and c["k"] == "ce" and c["op"] in ("ptrtoint", "inttoptr", "bitcast", "addrspacecast"):
            c = c["ops"][0]
        if c and c["k"] == "gep" and not c.get("off"):
            c = c["base"]
        if not c or c["k"] != "g":
            return None
        i = self.mod.globals[c["n"]].get("init")
        if i and i["k"] == "data" and i.get("isstr"):
            return bytes(i["bytes"]).split(b"\0")[0]
        return None

    def fn(self, c):
        return c["n"] if c and c["k"] == "f" else None

    def obj(self, c):
        return self.mod.globals[c["n"]].get("init") if c and c["k"] == "g" else None

    def list(self, c):
        i = self.obj(c)
        return [] if i is None else i["elems"] if i["k"] in ("agg", "data") else []


def collection(t):
    m = re.match(r"(ARRAY|VARIADIC|MAP)_(\w+)$", t)
    return (m.group(1), m.group(2)) if m else (None, t)


def slot(p):
    """the part of an option's value an address denotes"""
    if p == ("f", OPT + "value"):
        return "value"
    if p == ("f", PAIRK):
        return "key"
    if p == ("f", PAIRV):
        return "pair"
    if p[0] == "elem" and ("f", OPT + "value") in p[2]:
        return "elem"
    return None


def stored(pl):
    """{part: {(type stored, owned?)}} of what the functions put into option values"""
    out = {}
    local = {}
    items = list(pl.stores())
    for f, i, p, ty, o in items:
        if p[0] == "alloca" and ty != "copy":
            local.setdefault(p[1:], []).append((ty, f, o))
    for f, i, p, ty, o in items:
        s = slot(p)
        if s is None and p[0] == "fresh" and p[1] and "argus_value_u" in str(p[1]):
            s = "elem"
        if s is None:
            continue
        if ty == "copy":
            src = pl.roots(f, o)
            for r in src:
                if r[0] == "alloca":
                    for t, g, v in local.get(r[1:], []):
                        out.setdefault(s, set()).add((t, any(x[0] == "alloc" for x in pl.roots(g, v)), i.loc))
            continue
        rs = pl.roots(f, o)
        if rs and all(r[0] == "load" and any(slot(x) == s for x in r[1]) for r in rs):
            continue        # an element moved within its own list
        out.setdefault(s, set()).add((ty, any(x[0] == "alloc" for x in rs), i.loc))
    return out


def freed(mod, pl):
    out = set()
    for n in pl.scope:
        f = mod.defined[n]
        for i in f.all_insts():
            if i.op == "call" and i.callee_name() == "free":
                for r in pl.roots(f, i.ops[0]):
                    if r[0] == "load":
                        out |= {slot(p) for p in r[1]} - {None}
    return out


def run_macros(ctx):
    lib = ctx.mod
    for r, t in (("kind", "every definition macro yields an entry of its kind and value type"),
                 ("handler", "an entry's handler stores the entry's element type, where values of that type are kept"),
                 ("release", "an entry's release callback frees exactly what its handler allocates"),
                 ("given", "what a definition gives explicitly replaces what the macro provides"),
                 ("default", "a default is stored as the type of the option"),
                 ("validator", "a validator macro pairs function, order, description and data"),
                 ("special", "help and version options are exit flags with their own handlers")):
        ctx.rule(r, t)
    defs = definitions()
    ctx.need(len(defs) >= 10, "only %d definition macros found in %s" % (len(defs), H))
    w = compiled(defs)
    D = Data(w)
    E = w.enum
    pairs = {}
    for m, kind, t in defs:
        at = "%s (%s)" % (m, H)
        col, base = collection(t)
        if "VALUE_TYPE_" + t not in {n for e in w.enums.values() for n in e} or base not in MEMBER:
            ctx.notes.append("macro %s not understood" % m)
            continue
        e = D.entry("w_" + m, 0)
        ctx.inst("kind")
        if D.num(e, "type") != E(kind):
            ctx.violation("kind", at, "does not define a %s" % kind[5:].lower())
        if D.num(e, "value_type") != E("VALUE_TYPE_" + t):
            ctx.violation("kind", at, "does not declare its value type")
        opt = kind == "TYPE_OPTION"
        ctx.inst("given")
        if D.text(D.field(e, "name")) != (b"long" if opt else b"pos") or D.text(D.field(e, "help")) != b"h" or \
                (opt and (D.num(e, "sname") != ord("x") or D.text(D.field(e, "lname")) != b"long")):
            ctx.violation("given", at, "does not keep the names or help text given")
        want = 0 if opt else E("FLAG_REQUIRED")
        if D.num(e, "flags") != want or D.num(e, "is_set") or D.num(e, "have_default") or D.num(e, "is_allocated") or D.num(e, "value_count") or D.num(e, "value_capacity"):
            ctx.violation("given", at, "starts in a state other than unset, without flags and without value")
        g = D.entry("w_" + m, 1)
        if D.fn(D.field(g, "handler")) != "w_handler" or D.fn(D.field(g, "free_handler")) != "w_free" or D.num(g, "flags") != E("FLAG_HIDDEN") or \
                D.text(D.field(g, "hint")) != b"hint" or D.text(D.field(g, "env_name")) != b"env":
            ctx.violation("given", at, "what is given explicitly is not what is used")
        for fld, names in (("require", [b"r1", b"r2"]), ("conflict", [b"c1"])):
            l = D.list(D.field(g, fld))
            if [D.text(x) for x in l[:-1]] != names or not (l and l[-1]["k"] == "c" and l[-1]["v"] == 0):
                ctx.violation("given", at, "the list of %s names is not what is given, ended by NULL" % fld)
        if opt:
            s = D.entry("w_" + m, 2)
            if D.text(D.field(s, "name")) != b"y":
                ctx.violation("given", at, "without a long name the entry is not named by its short one")
        h, fr = D.fn(D.field(e, "handler")), D.fn(D.field(e, "free_handler"))
        pairs.setdefault((h, fr, t), at)
        n = 3 if opt else 2
        for dv, wantv in {"INT": [("7", 7)], "FLOAT": [("0.5", "0.5"), ("3", "3.0")], "STRING": [('"d"', b"d")], "BOOL": [("true", 1)]}.get(t, []):
            x = D.entry("w_" + m, n)
            n += 1
            for fld in ("value", "default_value"):
                ctx.inst("default")
                c = D.field(x, fld)
                v = D.text(c) if isinstance(wantv, bytes) else (c["v"] if c and c["k"] == "c" else float(c["v"]) if c and c["k"] == "fp" else None)
                ok = v == wantv if not isinstance(wantv, str) else c is not None and c["k"] == "fp" and float(c["v"]) == float(wantv)
                if not ok:
                    ctx.violation("default", "DEFAULT for %s options (%s)" % (t, H), "DEFAULT(%s) does not store that value as a %s" % (dv, t.lower()))
            if not D.num(x, "is_set") or not D.num(x, "have_default"):
                ctx.violation("default", at, "an option with a default does not count as set by default")
    # handler and release callback against the library's code
    cols = {}
    for (h, fr, t), at in sorted(pairs.items(), key=str):
        col, base = collection(t)
        ctx.inst("handler")
        if h not in lib.defined:
            ctx.violation("handler", at, "has no handler of the library")
            continue
        pl = Places(lib, reach(lib, h))
        got = stored(pl)
        ctx.count("stores_classified", sum(len(v) for v in got.values()))
        want = {None: {"value": MEMBER[base]}, "ARRAY": {"elem": MEMBER[base]}, "VARIADIC": {"elem": MEMBER[base]}, "MAP": {"pair": MEMBER[base], "key": "ptr"}}[col]
        part = {"value": "the value", "elem": "the elements", "pair": "the values of pairs", "key": "the keys"}
        for s, ty in want.items():
            tys = {x[0] for x in got.get(s, ())}
            if not tys:
                ctx.violation("handler", at, "its handler %s never stores %s" % (h, part[s]))
            for x in sorted(tys - {ty}):
                ctx.violation("handler", at, "its handler %s stores %s as %s" % (h, part[s], x))
        for s in got:
            if s not in want and not (col and s == "value" and all(x[0] == "ptr" for x in got[s])):
                ctx.violation("handler", at, "its handler %s stores %s of another kind of value" % (h, part[s]))
        owned = {s for s, v in got.items() if any(x[1] for x in v)}
        ctx.inst("release")
        if fr is None:
            if owned:
                ctx.violation("release", at, "has no release callback although its handler allocates")
            continue
        if fr not in lib.defined:
            ctx.violation("release", at, "its release callback is not the library's")
            continue
        rel = freed(lib, Places(lib, reach(lib, fr)))
        for s in sorted(owned - rel):
            ctx.violation("release", at, "its release callback %s does not free %s its handler allocates" % (fr, part[s]))
        if col:
            for s in sorted(rel - owned):
                ctx.violation("release", at, "its release callback %s frees %s, which its handler does not allocate" % (fr, part[s]))
    # help and version
    hs = []
    for n, api in ((0, "argus_print_help"), (1, "argus_print_version")):
        e = D.entry("w_common", n)
        ctx.inst("special")
        at = "%s (%s)" % (("HELP_OPTION", "VERSION_OPTION")[n], H)
        h = D.fn(D.field(e, "handler"))
        hs.append(h)
        if D.num(e, "value_type") != E("VALUE_TYPE_FLAG") or not (D.num(e, "flags") or 0) & E("FLAG_EXIT") or D.num(e, "type") != E("TYPE_OPTION"):
            ctx.violation("special", at, "is not a flag that ends the program")
        if h not in lib.defined or not lib.closure(h) & PRINTS:
            ctx.violation("special", at, "its handler prints nothing")
        if D.text(D.field(e, "name")) != (b"help", b"version")[n]:
            ctx.violation("special", at, "is not named %s" % ("help", "version")[n])
    if hs[0] == hs[1]:
        ctx.violation("special", "HELP_OPTION (%s)" % H, "help and version run the same handler")
    for n, (kind, name) in enumerate((("TYPE_GROUP", b"g"), ("TYPE_GROUP", None), ("TYPE_SUBCOMMAND", b"sub"))):
        e = D.entry("w_common", n + 2)
        ctx.inst("kind")
        at = "%s (%s)" % (("GROUP_START", "GROUP_END", "SUBCOMMAND")[n], H)
        if D.num(e, "type") != E(kind) or D.text(D.field(e, "name")) != name:
            ctx.violation("kind", at, "does not define the entry it names")
        if n == 0 and D.num(e, "flags") != E("FLAG_EXCLUSIVE"):
            ctx.violation("given", at, "loses the flags given")
        if n == 2 and (D.fn(D.field(e, "action")) != "w_action" or (D.field(e, "sub_options") or {}).get("n") != "w_" + defs[0][0]
                       or D.fn(D.field(e, "handler")) or D.num(e, "flags")):
            ctx.violation("given", at, "loses the table or action given")
    end = D.entry("w_table", 1)
    ctx.inst("kind")
    if D.num(end, "type") != E("TYPE_NONE") or len(w.globals["w_table"]["init"]["elems"]) != 2:
        ctx.violation("kind", "ARGUS_OPTIONS (%s)" % H, "does not end the table with the end marker")
    for k, (use, (fn, fmt, order, data)) in enumerate(VALIDATORS.items()):
        ctx.inst("validator")
        at = "%s (%s)" % (use.split("(")[0], H)
        e = D.entry("w_val%d" % k, 0)
        l = D.list(D.field(e, "validators"))
        v = D.obj(l[0]) if len(l) == 2 else None
        if v is None or not (l[1]["k"] == "c" and l[1]["v"] == 0):
            ctx.violation("validator", at, "VALIDATOR does not make a list ended by NULL")
            continue
        get = lambda f: D.at(v, D.fo["validator_entry_s." + f])
        if D.fn(get("func")) != fn or (fmt and D.fn(get("formatter")) != fmt):
            ctx.violation("validator", at, "pairs other functions")
        c = get("order")
        if not c or c.get("v") != E(order):
            ctx.violation("validator", at, "runs at the wrong time")
        base = D.fo["validator_entry_s.data"]
        for off, wantv in data.items():
            c = D.at(v, base + off)
            if isinstance(wantv, bytes):
                ok = D.text(c) == wantv
            elif isinstance(wantv, list):
                i = D.obj(c)
                got = [D.text(x) if x["k"] in ("g", "gep") else x["v"] if x["k"] == "c" else str(float(x["v"])) for x in (i["elems"] if i else [])]
                ok = got == wantv
            elif isinstance(wantv, str):
                ok = c is not None and c.get("v") == E("VALUE_TYPE_" + wantv)
            else:
                ok = c is not None and c.get("v") == wantv
            if not ok:
                ctx.violation("validator", at, "does not pass on the data given (offset %d)" % off)
    ctx.setcount("macros", len(defs) + 5 + len(VALIDATORS))
    ctx.notes.append("macros expanded in a witness translation unit compiled (never run) against the current headers")
