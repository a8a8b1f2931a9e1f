"""Layout of structures and enums from the debug information of the emitted IR."""
import re
from dom import *

class Dwarf:
    def __init__(s, mod):
        s.l = {}
        for l in mod.meta:
            m = re.match(r"(!\d+) = ", l)
            if m: s.l[m.group(1)] = l
        s.byname = {}
        for i, l in s.l.items():
            m = re.search(r'DW_TAG_(structure|enumeration)_type, name: "([^"]*)"', l)
            if m and "elements:" in l: s.byname.setdefault(m.group(2), []).append(i)
    def at(s, i, k):
        m = re.search(r"[(,] ?%s: ([^,)]*)" % k, s.l[i])
        return m.group(1) if m else None
    def elems(s, i):
        e = s.at(i, "elements")
        if e is None: return []
        return re.findall(r"!\d+", s.l[e].split("=", 1)[1])
    def find(s, name):
        c = [i for i in s.byname.get(name, []) if s.elems(i)]
        if not c: raise Unsupported("no layout for " + name)
        return c[0]
    def off(s, i): return int(s.at(i, "offset") or 0) // 8
    def name(s, i):
        m = re.search(r'name: "([^"]*)"', s.l[i])
        return m.group(1) if m else None
    def members(s, i):
        """field name -> (offset, type id)"""
        return {s.name(e): (s.off(e), s.at(e, "baseType")) for e in s.elems(i)}
    def enum(s, i):
        """(disc offset, disc size, {variant: (value or None, {field: (offset, type)})})"""
        el = s.elems(i)
        if not el or "DW_TAG_variant_part" not in s.l[el[0]]: raise Unsupported("not an enum " + s.l[i][:80])
        vp = el[0]
        d = s.at(vp, "discriminator")
        do, ds = s.off(d), int(s.at(d, "size")) // 8
        vs = {}
        for e in s.elems(vp):
            m = re.search(r"extraData: i\d+ (-?\d+)", s.l[e])
            vs[s.name(e)] = (int(m.group(1)) % (1 << (8 * ds)) if m else None, s.members(s.at(e, "baseType")))
        return do, ds, vs
    def read_enum(s, it, ptr, i):
        """variant name and its fields at ptr"""
        do, ds, vs = s.enum(i)
        v = it.mem.read(ptr.obj, ptr.off + do, ds)
        v = it.ctx.force(v)
        df = None
        for n, (val, f) in vs.items():
            if val == v: return n, f
            if val is None: df = (n, f)
        if df is None: raise Unsupported("no variant for discriminant %d" % v)
        return df
    def write_enum(s, it, ptr, i, variant):
        do, ds, vs = s.enum(i)
        val, f = vs[variant]
        if val is not None: it.mem.write(ptr.obj, ptr.off + do, ds, val)
        return f
