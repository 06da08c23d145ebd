"""Loop-scan monitor: which list a loop walks, whether it starts at the first
element, advances by one and is left only at the list's end, and what was
established for each element before moving on."""
import absint
from absint import C, C0, TOP, split, mkptr, isc, subst, mentions
from spec import *

ELEM = {OPT + "type": "opt"}


class Scan(absint.Analysis):
    """Kinds of list elements recognised:
      opt  element of an option table (its .type is read; ends at type NONE)
      ptr  element of a NULL-terminated pointer list
      stk  element of the active-subcommand stack (ends at the depth)
      pair element of a map / val element of an array (ends at value_count)
    """

    def note(self, st, kind, ptr, idxstep=None):
        b, p = split(ptr)
        # innermost loop variable used to reach the element
        sym = None
        if p and p[-1][0] == "i":
            x = p[-1][1]
            while x[0] == "op" and x[1] == "add" and isc(x[3]):
                x = x[2]
            if x[0] == "s" and x[1] == "phi":
                sym = x
        if sym is None and b[0] == "s" and b[1] == "phi" and not [s for s in p if s[0] == "i"]:
            sym = b
        if sym is None:
            return
        k = (sym[2], "acc:" + kind, sym[4])
        cur = st.env.get(k)
        s = (cur[1] if cur and cur[0] == "set" else frozenset()) | frozenset([ptr])
        st.env[k] = ("set", s)

    def loaded(self, eng, st, fr, inst, ptr, val):
        b, p = split(ptr)
        if ptr == TOP:
            return
        if p and p[-1][0] == "f":
            fl = p[-1][1]
            if fl == OPT + "type":
                self.note(st, "opt", mkptr(b, p[:-1]))
            elif fl in ("argus_pair_s.key", "argus_pair_s.value"):
                self.note(st, "pair", mkptr(b, p[:-1]))
        elif inst.ty == "ptr":
            fs = [s for s in p if s[0] == "f"]
            if fs and fs[-1][1] == ARG + "subcommand_stack":
                self.note(st, "stk", ptr)
            else:
                self.note(st, "ptr", ptr)

    def accessed(self, st, fr, f, hdr):
        """(kind, element pointer, loop variable) touched in this iteration"""
        out = []
        for i in f.blocks[hdr]:
            if i.op != "phi":
                break
            for kind in ("opt", "ptr", "stk", "pair"):
                v = st.env.get((fr, "acc:" + kind, i.id))
                if v and v[0] == "set":
                    for p in v[1]:
                        out.append((kind, p, ("s", "phi", fr, f.name, i.id)))
        return out

    def clear(self, st, fr, f, hdr):
        for i in f.blocks[hdr]:
            if i.op != "phi":
                break
            for kind in ("opt", "ptr", "stk", "pair"):
                st.env.pop((fr, "acc:" + kind, i.id), None)

    def listof(self, eng, st, ptr, sym):
        """(list start, regular?) of the list the element belongs to"""
        c = eng.cursor(st, sym)
        if c is None:
            return None, False
        org, step = c
        b, p = split(ptr)
        if b == sym:
            return org, step == 1
        if not p:
            return None, False
        lst = mkptr(b, p[:-1])
        if p[-1][1] == ("op", "add", sym, C(-1)):
            return lst, step == -1          # downward scan, element sym-1
        x = p[-1][1]
        k = 0 if x == sym else x[3][1] if x[:3] == ("op", "add", sym) and isc(x[3]) else None
        if k is None or not isc(org):
            return lst, False
        return lst, step == 1 and org[1] + k == 0

    def ended(self, eng, st, kind, ptr, sym):
        """True when the facts say ptr is the end-of-list marker"""
        if kind == "opt":
            return zero(eng, st, eng.read(st, fieldptr(ptr, OPT + "type"), "i32")) is True
        if kind == "ptr":
            return zero(eng, st, eng.read(st, ptr, "ptr")) is True
        return False

    def backedge(self, eng, st, fr, f, hdr):
        acc = self.accessed(st, fr, f, hdr)
        for kind, ptr, sym in acc:
            lst, reg = self.listof(eng, st, ptr, sym)
            self.element(eng, st, fr, f, hdr, kind, ptr, lst, reg)
        if not acc:
            self.blank(eng, st, fr, f, hdr)
        self.clear(st, fr, f, hdr)

    def loopexit(self, eng, st, fr, f, hdr):
        acc = self.accessed(st, fr, f, hdr)
        for kind, ptr, sym in acc:
            lst, reg = self.listof(eng, st, ptr, sym)
            if lst is not None and reg and self.ended(eng, st, kind, ptr, sym):
                self.complete(eng, st, fr, f, hdr, kind, lst)
            else:
                self.left(eng, st, fr, f, hdr, kind, ptr, lst)
        self.exitloop(eng, st, fr, f, hdr)

    # property hooks
    def element(self, eng, st, fr, f, hdr, kind, ptr, lst, regular):
        pass

    def blank(self, eng, st, fr, f, hdr):
        pass

    def complete(self, eng, st, fr, f, hdr, kind, lst):
        self.latch(st, "done", (kind, lst))

    def left(self, eng, st, fr, f, hdr, kind, ptr, lst):
        pass

    def exitloop(self, eng, st, fr, f, hdr):
        pass

    def latch(self, st, key, item):
        cur = st.ps.get(key, ("set", frozenset()))
        st.ps = dict(st.ps)
        st.ps[key] = ("set", cur[1] | frozenset([item]))

    def has(self, st, key, item):
        cur = st.ps.get(key)
        return bool(cur) and item in cur[1]

    def retiring(self, st, sym):
        memo = {}
        for k, v in list(st.ps.items()):
            if v[0] == "set" and any(mentions(x, sym, memo) for x in v[1]):
                st.ps = dict(st.ps)
                st.ps[k] = ("set", frozenset(x for x in v[1] if not mentions(x, sym, memo)))


_lr = {}


def loop_reaches(mod, f, hdr, prims):
    """does the loop's body (with callees) contain one of the primitives?"""
    key = (id(mod), f.name, hdr, frozenset(prims))
    if key not in _lr:
        r = False
        for b in f.loops[hdr]:
            for i in f.blocks[b]:
                if i.op != "call":
                    continue
                c = i.callee_name()
                if c is None:
                    n = "icall:" + str(mod.callee_field(i)) if i.d["callee"]["k"] != "asm" else ""
                    if n in prims:
                        r = True
                elif c in prims or (c in mod.defined and (mod.closure(c) & set(prims))):
                    r = True
        _lr[key] = r
    return _lr[key]
