"""Symbolic executor for the emitted LLVM IR.

One Interp runs one path (decisions are replayed through the Ctx); `explore` enumerates all paths.
"""
import re, sys, time
from dom import *
import ir

DEADLINE = [None]
def overtime(): return DEADLINE[0] is not None and time.time() > DEADLINE[0]

sys.setrecursionlimit(20000)

class Panic(Exception):
    """a panic edge was reached on the current path"""
    def __init__(s, what, where): s.what = what; s.where = where
    def __str__(s): return "%s in %s" % (s.what, s.where)

class MemFault(Exception):
    """out-of-bounds or undefined access on the current path"""
    def __init__(s, what): s.what = what
    def __str__(s): return s.what

class PathDone(Exception):
    """the path ended at a loop cut point after its obligations were recorded"""

class Obj:
    __slots__ = ("name", "size", "cells", "own", "ro", "kind", "d")
    def __init__(s, name, size, ro=False, kind=None, d=None):
        s.name = name; s.size = size; s.cells = {}; s.own = {}; s.ro = ro; s.kind = kind; s.d = d
    def __repr__(s): return "<%s %s>" % (s.name, s.size)

def width_split(ctx, v, n, o, m):
    """bytes [o, o+m) of an n-byte value"""
    if v is UNDEF: return UNDEF
    if isinstance(v, int): return (v >> (8 * o)) & ((1 << (8 * m)) - 1)
    if isinstance(v, Ptr): raise Unsupported("partial pointer read")
    x = ctx.lshr(v, 8 * o, 8 * n) if o else v
    return ctx.cast("trunc", x, 8 * n, 8 * m)

class Mem:
    def __init__(s, ctx): s.ctx = ctx
    def read(s, obj, off, n):
        c = obj.cells.get(off)
        if c is not None and c[1] == n: return c[0]
        if obj.kind == "lazy": 
            r = obj.d(s, obj, off, n)
            if r is not None: return r
        if off < 0 or (isinstance(obj.size, int) and off + n > obj.size): raise MemFault("read out of bounds of %s at %d+%d" % (obj.name, off, n))
        if n == 0: return 0
        # collect pieces
        parts = []; b = off
        while b < off + n:
            st = obj.own.get(b)
            if st is None:
                e = b + 1
                while e < off + n and obj.own.get(e) is None: e += 1
                parts.append((b - off, e - b, UNDEF)); b = e; continue
            v, m = obj.cells[st]
            e = min(off + n, st + m)
            parts.append((b - off, e - b, v if (b == st and e == st + m) else width_split(s.ctx, v, m, b - st, e - b)))
            b = e
        if len(parts) == 1: return parts[0][2]
        r = 0
        if any(p[2] is UNDEF for p in parts) and (n > 8 or all(p[2] is UNDEF for p in parts) or any(isinstance(p[2], Ptr) for p in parts)): return UNDEF
        for o, m, v in parts:
            if v is UNDEF: v = s.ctx.fresh("undef", 8 * m)       # padding: any value
            if isinstance(v, Ptr): raise Unsupported("pointer in composed read")
            if not isinstance(v, int): v = s.ctx.cast("zext", v, 8 * m, 8 * n)
            r = s.ctx.add(r, s.ctx.shl(v, 8 * o, 8 * n) if o else v, 8 * n)
        return r
    def clear(s, obj, off, n):
        own = obj.own
        for b in range(off, off + n):
            st = own.get(b)
            if st is None: continue
            v, m = obj.cells.pop(st)
            for x in range(st, st + m): del own[x]
            # keep the parts outside
            if st < off: s._put(obj, st, off - st, width_split(s.ctx, v, m, 0, off - st))
            if st + m > off + n: s._put(obj, off + n, st + m - off - n, width_split(s.ctx, v, m, off + n - st, st + m - off - n))
    def _put(s, obj, off, n, v):
        if v is UNDEF: return
        obj.cells[off] = (v, n)
        own = obj.own
        for x in range(off, off + n): own[x] = off
    def write(s, obj, off, n, v):
        c = obj.cells.get(off)
        if obj.ro: raise MemFault("write to read-only " + obj.name)
        if c is not None and c[1] == n and v is not UNDEF:
            obj.cells[off] = (v, n); return
        if off < 0 or (isinstance(obj.size, int) and off + n > obj.size): raise MemFault("write out of bounds of %s at %d+%d" % (obj.name, off, n))
        s.clear(obj, off, n)
        if n: s._put(obj, off, n, v)
    def pieces(s, obj, off, n):
        """[(rel, m, value)] covering the defined part of the range"""
        if off < 0 or (isinstance(obj.size, int) and off + n > obj.size): raise MemFault("copy out of bounds of %s at %d+%d" % (obj.name, off, n))
        out = []; b = off
        if obj.kind == "mutg": return [(i, 1, s.ctx.fresh("static " + obj.name[-20:], 8)) for i in range(n)]
        if obj.kind == "lazy":
            return obj.d(s, obj, off, n, True)
        while b < off + n:
            st = obj.own.get(b)
            if st is None: b += 1; continue
            v, m = obj.cells[st]
            e = min(off + n, st + m)
            out.append((b - off, e - b, v if (b == st and e == st + m) else width_split(s.ctx, v, m, b - st, e - b)))
            b = e
        return out

PANIC = re.compile(r"core::panicking::|slice_index_fail|slice_start_index|slice_end_index|len_mismatch_fail|unwrap_failed|expect_failed|handle_error|handle_alloc_error|alloc::raw_vec::capacity_overflow|process::abort|copy_from_slice_impl::len_mismatch|slice_error_fail")

class Interp:
    LIMIT = 30_000_000
    def __init__(s, mod, ctx, contracts=None, models=None):
        s.mod = mod; s.ctx = ctx; s.mem = Mem(ctx)
        s.contracts = contracts or {}; s.models = models or []
        s.globs = {}
        s.n = 0; s.depth = 0
        s.stack = []; s.frames = []
        s.obls = []           # (name, ok, detail)
        s.used = {}           # contracts used at call sites
        s.ghost = {}
    # ------------------------------------------------------------ obligations
    def oblige(s, name, ok, detail=""):
        s.obls.append((name, bool(ok), detail))
        return ok
    # ------------------------------------------------------------ memory helpers
    def new(s, name, size): return Obj(name, size)
    def glob(s, name):
        o = s.globs.get(name)
        if o is None:
            cache = s.mod.__dict__.setdefault("gcache", {})
            o = cache.get(name)
            if o is None:
                if name not in s.mod.globals:
                    if name in s.mod.fns or name in s.mod.decls: 
                        o = Obj(name, 0, True, "fn", name)
                    else: raise Unsupported("global " + name)
                else:
                    l = s.mod.globals[name]
                    if re.search(r" thread_local| external ", l.split("{")[0]): raise Unsupported("external global " + name)
                    if " constant " not in l:
                        # mutable static: any value at any time (histories and other threads are not modelled)
                        o = Obj(name, s.mod.init_bytes(name)[0], False, "mutg")
                        cache[name] = s.globs[name] = o
                        return o
                    size, init = s.mod.init_bytes(name)
                    o = Obj(name, size, True)
                    o.d = init
                    for off, n, v in init:
                        if n == 0: continue
                        if isinstance(v, tuple): v = ("lazyg", v)
                        o.cells[off] = (v, n)
                        for x in range(off, off + n): o.own[x] = off
                cache[name] = o
            s.globs[name] = o
            if o.kind != "fn" and any(isinstance(c[0], tuple) for c in o.cells.values()):
                # per-run copy with resolved pointers
                o2 = Obj(o.name, o.size, True); o2.own = o.own; o2.cells = {}
                s.globs[name] = o2
                for off, (v, n) in o.cells.items():
                    if isinstance(v, tuple): v = Ptr(s.glob(v[1][1]), v[1][2])
                    o2.cells[off] = (v, n)
                o = o2
        return o
    def load(s, ty, p):
        if ty.k == "s" or ty.k == "S":
            return [s.load(f, s.padd(p, ir.field_off(ty, i))) for i, f in enumerate(ty.fs)]
        if ty.k == "a":
            z = ir.sizeof(ty.el)
            return [s.load(ty.el, s.padd(p, i * z)) for i in range(ty.n)]
        n = ir.sizeof(ty)
        if isinstance(p, T):
            w = ty.n if ty.k == "i" else 0
            p = s.ctx.refresh(p)
            if isinstance(p, T):
                return s.ctx.tmap(lambda q: s.load(ty, q), w, p)
        if not isinstance(p, Ptr): raise MemFault("load through non-pointer %r" % (p,))
        off = p.off
        if p.obj.kind == "ctl": v = p.obj.d.load(s, off, n)
        elif p.obj.kind in ("rope", "msg"):
            import rope
            sq = rope.seq_of(s, p, n)
            bs = []
            for g in sq: bs += g[1] if g[0] == "b" else rope.seg_bytes(s.ctx, g)
            if len(bs) != n: raise Unsupported("load from a symbolic block")
            t = Obj("t", n)
            for i, b in enumerate(bs): s.mem.write(t, i, 1, b)
            v = s.mem.read(t, 0, n)
        elif p.obj.kind == "mutg":
            s.ghost["mutg"] = True
            if ty.k != "i": raise Unsupported("pointer in a mutable static")
            v = s.ctx.fresh("static " + p.obj.name[-20:], 8 * n)
        elif not isinstance(off, int):
            if p.obj.kind == "lazy": v = p.obj.d(s.mem, p.obj, off, n)
            else: raise Unsupported("symbolic offset load")
        else: v = s.mem.read(p.obj, off, n)
        if ty.k == "i" and ty.n % 8:
            if isinstance(v, int): v &= (1 << ty.n) - 1
            elif v is not UNDEF: v = s.ctx.cast("trunc", v, 8 * n, ty.n)
        elif isinstance(v, Sym) and ty.k == "i" and v.w != ty.n: v = Sym(v.p, ty.n, v.lo, v.hi)
        return v
    def store(s, ty, v, p):
        if ty.k in ("s", "S"):
            for i, f in enumerate(ty.fs): s.store(f, v[i], s.padd(p, ir.field_off(ty, i)))
            return
        if ty.k == "a":
            z = ir.sizeof(ty.el)
            for i in range(ty.n): s.store(ty.el, v[i], s.padd(p, i * z))
            return
        n = ir.sizeof(ty)
        if isinstance(p, T): p = s.ctx.force(p)
        if not isinstance(p, Ptr): raise MemFault("store through non-pointer %r" % (p,))
        if p.obj.kind == "ctl": p.obj.d.store(s, p.off, n, v); return
        if p.obj.kind == "mutg": s.ghost["mutg"] = True; return
        if p.obj.kind == "rope":
            import rope
            t = Obj("t", n); s.mem.write(t, 0, n, v)
            rope.rope_put(s, p.obj, rope.PU(s.ctx, p.off), [("b", [s.mem.read(t, i, 1) for i in range(n)])]); return
        if not isinstance(p.off, int): raise Unsupported("symbolic offset store")
        if isinstance(v, Sym) and ty.k == "i" and ty.n == 1: v = s.ctx.cast("zext", v, 1, 8)
        s.mem.write(p.obj, p.off, n, v)
    def padd(s, p, o):
        if isinstance(p, T) or isinstance(o, T):
            return s.ctx.tmap(lambda a, b: s.padd(a, b), 0, p, o)
        if isinstance(p, int): 
            return s.ctx.add(p, o, 64)
        if p is UNDEF: raise MemFault("arithmetic on undefined pointer")
        if isinstance(o, int):
            if o >> 63: o -= 1 << 64
            if isinstance(p.off, int): return Ptr(p.obj, p.off + o)
        return Ptr(p.obj, s.ctx.add(p.off, o if not isinstance(o, int) else o & ((1 << 64) - 1), 64))
    def memcpy(s, d, q, n):
        n = s.ctx.refresh(n) if not isinstance(n, int) else n
        if isinstance(n, int):
            if n == 0: return
            if isinstance(d, T): d = s.ctx.force(d)
            if isinstance(q, T):
                q = s.ctx.refresh(q)
            if isinstance(q, T):
                lay = None; cols = {}
                for k, qq in q.tab.items():
                    pc = s.mem.pieces(qq.obj, qq.off, n)
                    # split to words
                    cols[k] = pc
                W = 4 if n % 4 == 0 else 1
                for o in range(0, n, W):
                    v = s.ctx.tmap(lambda x: s.mem.read(x.obj, x.off + o, W), 8 * W, q)
                    s.mem.write(d.obj, d.off + o, W, v)
                return
            if not isinstance(d, Ptr) or not isinstance(q, Ptr): raise MemFault("memcpy through non-pointer")
            if d.obj.kind == "ctl" or q.obj.kind == "ctl":
                if n % 8: raise Unsupported("copy of control bytes")
                vs = [s.load(ir.I(64), s.padd(q, o)) for o in range(0, n, 8)]
                for o, v in zip(range(0, n, 8), vs): s.store(ir.I(64), v, s.padd(d, o))
                return
            if isinstance(d.off, int) and isinstance(q.off, int) and q.obj.kind not in ("rope", "msg") and d.obj.kind != "rope":
                pc = s.mem.pieces(q.obj, q.off, n)
                if isinstance(d.obj.size, int) and (d.off < 0 or d.off + n > d.obj.size): raise MemFault("copy out of bounds")
                if d.obj.ro: raise MemFault("write to read-only " + d.obj.name)
                c = d.obj.cells.get(d.off)
                s.mem.clear(d.obj, d.off, n)
                for o, m, v in pc: s.mem._put(d.obj, d.off + o, m, v)
                return
        s.ropecpy(d, q, n)
    def ropecpy(s, d, q, n):
        import rope
        seq = rope.seq_of(s, q, n)
        if not seq: return
        if isinstance(d, T): d = s.ctx.force(d)
        if not isinstance(d, Ptr): raise MemFault("memcpy through non-pointer")
        if d.obj.kind == "rope": rope.rope_put(s, d.obj, rope.PU(s.ctx, d.off), seq); return
        if all(x[0] == "b" for x in seq) and isinstance(d.off, int):
            o = d.off
            for x in seq:
                for b in x[1]: s.mem.write(d.obj, o, 1, b); o += 1
            return
        if d.obj.name == "heap" and rope.to_rope(s, d.obj): rope.rope_put(s, d.obj, rope.PU(s.ctx, d.off), seq); return
        raise Unsupported("symbolic-length copy into a fixed object")
    # ------------------------------------------------------------ operands
    def op(s, v, env):
        k = v[0]
        if k == "l": return env[v[1]]
        if k == "c": return v[1]
        if k == "g": return Ptr(s.glob(v[1]), 0)
        if k == "undef": return UNDEF
        if k == "zero":
            return s.zero(v[1])
        if k == "agg": return [s.op(e, env) for t, e in v[1]]
        if k == "gep":
            p = s.op(v[2], env)
            return s.gep(v[1], p, v[3], env)
        if k == "cast": return s.op(v[3], env)
        raise Unsupported("operand " + k)
    def zero(s, t):
        if t.k in ("s", "S"): return [s.zero(f) for f in t.fs]
        if t.k == "a": return [s.zero(t.el)] * t.n
        return 0
    def gep(s, bt, p, idx, env):
        t = bt; first = True
        for ity, ix in idx:
            i = s.op(ix, env)
            if first:
                z = ir.sizeof(t); first = False
            elif t.k == "a": t = t.el; z = ir.sizeof(t)
            else:
                o = ir.field_off(t, i); t = t.fs[i]
                p = s.padd(p, o); continue
            if isinstance(i, int):
                if i >> (ity.n - 1): i -= 1 << ity.n
                p = s.padd(p, (i * z) & ((1 << 64) - 1))
            else:
                i = s.ctx.refresh(i)
                if isinstance(i, int): p = s.padd(p, i * z); continue
                x = s.ctx.toT(i) if isinstance(i, Sym) else s.ctx.flat(i)
                if x is None or (isinstance(p, Ptr) and p.obj.kind in ("lazy", "rope", "ctl")):
                    p = s.padd(p, s.ctx.mul(s.ctx.U(i), z, 64))
                else:
                    p = s.ctx.tmap(lambda a, b: s.padd(a, (b * z) & ((1 << 64) - 1)), 0, p, x)
        return p
    # ------------------------------------------------------------ calls
    def callfn(s, name, args, dem=None, instr=None):
        f = s.mod.fns.get(name)
        d = f.dem if f is not None else (s.mod.decls.get(name) or dem or name)
        c = s.contracts.get(d)
        if c is not None:
            try: r = c(s, args, d, f)
            except (Unsupported, MemFault, KeyError, IndexError, TypeError, ValueError, AttributeError, AssertionError):
                s.mod.__dict__.setdefault("badapply", set()).add(d); raise
            if r is not NotImplemented: return r
        for rx, m in s.models:
            if rx.match(d):
                r = m(s, args, d, f)
                if r is not NotImplemented: return r
        if PANIC.search(d):
            raise Panic(d, s.where())
        if f is None: raise Unsupported("external " + d)
        return s.run(name, args)
    def where(s):
        return " <- ".join(reversed(s.stack[-4:]))
    def intrinsic(s, name, args, instr):
        n = name[1:]
        c = s.ctx
        if n.startswith("llvm.memcpy") or n.startswith("llvm.memmove"):
            s.memcpy(args[0], args[1], args[2]); return None
        if n.startswith("llvm.memset"):
            k = s.ctx.force(args[2]) if not isinstance(args[2], int) else args[2]
            if k == 0: return None
            d = args[0]; v = args[1]
            if isinstance(d, T): d = c.force(d)
            if not isinstance(d, Ptr): raise MemFault("memset through non-pointer")
            if not isinstance(v, int): raise Unsupported("symbolic memset")
            s.mem.write(d.obj, d.off, k, int.from_bytes(bytes([v]) * k, "little")); return None
        m = re.match(r"llvm\.([us])(add|sub|mul)\.with\.overflow\.i(\d+)", n)
        if m:
            v, f = c.overflow(m.group(1) + m.group(2), args[0], args[1], int(m.group(3)))
            return [v, f]
        m = re.match(r"llvm\.([us])(add|sub)\.sat\.i(\d+)", n)
        if m:
            w = int(m.group(3))
            v, f = c.overflow(m.group(1) + m.group(2), args[0], args[1], w)
            if m.group(1) != "u": raise Unsupported(n)
            if not c.truth(f): return v
            return 0 if m.group(2) == "sub" else (1 << w) - 1
        m = re.match(r"llvm\.([us])(max|min)\.i(\d+)", n)
        if m:
            w = int(m.group(3))
            f = c.icmp(m.group(1) + "lt", args[0], args[1], w)
            lt = c.truth(f)
            return args[1] if lt == (m.group(2) == "max") else args[0]
        if n.startswith("llvm.assume") or n.startswith("llvm.lifetime") or n.startswith("llvm.dbg") or n.startswith("llvm.experimental.noalias"): return None
        if n.startswith("llvm.expect"): return args[0]
        m = re.match(r"llvm\.(ctpop|ctlz|cttz|bswap|bitreverse|abs)\.i(\d+)", n)
        if m:
            w = int(m.group(2)); o = m.group(1)
            def fn(x):
                x = x & ((1 << w) - 1)
                if o == "ctpop": return bin(x).count("1")
                if o == "ctlz": return w - x.bit_length()
                if o == "cttz": return v2(x) if x else w
                if o == "bswap": return int.from_bytes(x.to_bytes(w // 8, "little"), "big")
                if o == "bitreverse": return int(bin(x)[2:].zfill(w)[::-1], 2)
                if o == "abs": return x if not x >> (w - 1) else (-x) & ((1 << w) - 1)
            x = args[0]
            if isinstance(x, int): return fn(x)
            t = c.toT(c.refresh(x)) if isinstance(x, Sym) else x
            if isinstance(t, T): return c.tmap(fn, w, t)
            if o == "cttz": return s.cttz(x, w)
            raise Unsupported(n)
        m = re.match(r"llvm\.fsh([lr])\.i(\d+)", n)
        if m:
            w = int(m.group(2)); k = c.force(args[2]) % w
            if m.group(1) == "r": k = (w - k) % w
            if k == 0: return args[0] if m.group(1) == "l" else args[1]
            return c.or_(c.shl(args[0], k, w), c.lshr(args[1], w - k, w), w)
        if n.startswith("llvm.is.constant"): return 0
        if n.startswith("llvm.trap"): raise Panic("trap", s.where())
        if n == "memcmp" or n == "bcmp": return s.memcmp(args[0], args[1], args[2])
        return NotImplemented
    def cttz(s, x, w):
        """fork on the number of trailing zeros"""
        k = 0
        v = x
        while k < w:
            b = s.ctx.lowbits(v, 1, w)
            if s.ctx.truth(s.ctx.icmp("ne", b, 0, w)): return k
            v = s.ctx.lshr(v, 1, w); k += 1
        return w
    def memcmp(s, a, b, n):
        """only the zero/non-zero outcome is modelled precisely: returns 0 iff all bytes are equal"""
        n = s.ctx.force(n)
        if n == 0: return 0
        d = 0; acc = None
        c = s.ctx
        xs = []
        for i in range(n):
            x = s.load(ir.I(8), s.padd(a, i)); y = s.load(ir.I(8), s.padd(b, i))
            if isinstance(x, int) and isinstance(y, int):
                if x != y and acc is None and not xs: return 1 if x > y else 0xffffffff
                if x != y: xs.append(1)
                continue
            xs.append((x, y))
        if not xs: return 0
        return s.bytes_neq(xs)
    def bytes_neq(s, xs):
        c = s.ctx
        if any(x == 1 for x in xs if not isinstance(x, tuple)): return 1
        parts = []
        for x, y in xs:
            if y == 0: parts.append(x)
            elif x == 0: parts.append(y)
            else: parts.append(c.xor_(x, y, 8))
        r = 0
        for p in parts: r = c.or_(r, p, 8)
        if isinstance(r, int): return 1 if r else 0
        return c.cast("zext", c.icmp("ne", r, 0, 8), 1, 32)
    # ------------------------------------------------------------ execution
    def run(s, name, args):
        f = s.mod.fn(name)
        if f is None or not f.blocks: raise Unsupported("no body for " + name)
        s.depth += 1
        if s.depth > 200: raise Unsupported("call depth")
        s.stack.append(f.dem or name)
        env = {}
        if len(args) != len(f.params): raise Unsupported("arity of " + f.dem)
        for (ty, nm, sret), a in zip(f.params, args): env[nm] = a
        ctx = s.ctx
        s.frames.append((f, env))
        lab = f.entry; prev = None
        blocks = f.blocks
        r = None
        hooks = s.ghost.get("loop", {}).get(f.dem)
        while True:
            if hooks is not None:
                h = hooks.get(lab)
                if h is not None:
                    lab2 = h(s, f, env, lab)
                    if lab2 is not None: lab = lab2
            nxt = None
            for ins in blocks[lab]:
                s.n += 1
                if not s.n & 0x3ff and (s.n > s.LIMIT or overtime()): raise Unsupported("time or instruction limit")
                k = ins[0]
                if k == "load": env[ins[1]] = s.load(ins[2], s.op(ins[3], env))
                elif k == "store": s.store(ins[2], s.op(ins[3], env), s.op(ins[4], env))
                elif k == "atomicrmw":
                    a = s.op(ins[4], env); v = s.op(ins[5], env); old = s.load(ins[3], a); env[ins[1]] = old; ao = ins[2]
                    if ao == "xchg": new = v
                    elif ao in ("add", "sub", "and", "or", "xor"): new = s.binop(ao, ins[3].n, old, v)
                    else: raise Unsupported("atomicrmw " + ao)
                    s.store(ins[3], new, a)
                elif k == "cmpxchg":
                    a = s.op(ins[3], env); old = s.load(ins[2], a)
                    ok = s.ctx.icmp("eq", old, s.op(ins[4], env), ins[2].n if ins[2].k == "i" else 64)
                    if s.ctx.truth(ok): s.store(ins[2], s.op(ins[5], env), a); ok = 1
                    else: ok = 0
                    env[ins[1]] = [old, ok]
                elif k == "gep": env[ins[1]] = s.gep(ins[2], s.op(ins[3], env), ins[4], env)
                elif k == "bin": env[ins[1]] = s.binop(ins[2], ins[3].n, s.op(ins[4], env), s.op(ins[5], env))
                elif k == "alloca": env[ins[1]] = Ptr(Obj(f.dem + ins[1], ins[2]), 0)
                elif k == "cast": env[ins[1]] = s.cast(ins[2], ins[3], s.op(ins[4], env), ins[5])
                elif k == "icmp":
                    env[ins[1]] = ctx.icmp(ins[2], s.op(ins[4], env), s.op(ins[5], env), ins[3].n if ins[3].k == "i" else 64)
                elif k == "br": nxt = ins[2]; break
                elif k == "cbr":
                    c = s.op(ins[2], env)
                    nxt = ins[3] if ctx.truth(c) else ins[4]; break
                elif k == "call":
                    args2 = [s.op(a[1], env) for a in ins[4]]
                    cal = ins[3]
                    if cal[0] == "g":
                        nm = cal[1]
                        rv = NotImplemented
                        if nm.startswith("@llvm.") or nm in ("@memcmp", "@bcmp"): rv = s.intrinsic(nm, args2, ins)
                        if rv is NotImplemented: rv = s.callfn(nm, args2, ins[5], ins)
                    else:
                        t = s.op(cal, env)
                        if isinstance(t, Ptr) and t.obj.kind == "fn": rv = s.callfn(t.obj.d, args2, None, ins)
                        else: raise Unsupported("indirect call")
                    if ins[1] is not None: env[ins[1]] = rv
                    if ins[6] is not None: nxt = ins[6]; break
                elif k == "extract":
                    v = s.op(ins[2], env)
                    for i in ins[3]: v = v[i] if v is not UNDEF else UNDEF
                    env[ins[1]] = v
                elif k == "insert":
                    v = s.op(ins[3], env)
                    env[ins[1]] = s.insert(ins[2], v, ins[5], s.op(ins[4], env))
                elif k == "select":
                    c = s.op(ins[2], env)
                    env[ins[1]] = s.select(c, s.op(ins[4], env), s.op(ins[5], env), ins[3])
                elif k == "switch":
                    v = ctx.force(s.op(ins[3], env))
                    nxt = ins[4]
                    for cv, lb in ins[5]:
                        if cv == v: nxt = lb; break
                    break
                elif k == "ret":
                    r = s.op(ins[3], env) if ins[2] is not None else None
                    s.stack.pop(); s.depth -= 1; s.frames.pop()
                    return r
                elif k == "phi":
                    for v, lb in ins[3]:
                        if lb == prev: env[ins[1]] = s.op(v, env); break
                elif k == "unreachable": raise Panic("unreachable reached", s.where())
                else: raise Unsupported("instruction " + str(ins))
            if nxt is None: raise Unsupported("fell off block")
            prev = lab; lab = nxt
    def insert(s, ty, v, ix, e):
        if not isinstance(v, list):
            fs = ty.fs if ty.k in ("s", "S") else [ty.el] * ty.n
            v = [UNDEF] * len(fs)
        v = list(v)
        if len(ix) == 1: v[ix[0]] = e
        else:
            t = ty.fs[ix[0]] if ty.k in ("s", "S") else ty.el
            v[ix[0]] = s.insert(t, v[ix[0]], ix[1:], e)
        return v
    def select(s, c, a, b, ty):
        ctx = s.ctx
        if not isinstance(c, int): c = ctx.refresh(c) if c is not UNDEF else c
        if isinstance(c, int): return a if c & 1 else b
        if ty.k == "i" and isinstance(a, (int, Sym)) and isinstance(b, (int, Sym)) and isinstance(c, Sym):
            # c in {0,1}: b + c*(a-b)
            A, B = ctx.U(a), ctx.U(b)
            A, B = ctx.tosym(A, ty.n), ctx.tosym(B, ty.n)
            p = padd(B.p, pmul(c.p, padd(A.p, B.p, -1)))
            return ctx.mk(p, ty.n, min(A.lo, B.lo), max(A.hi, B.hi))
        return a if ctx.truth(c) else b
    def cast(s, op, ty, v, dt):
        if op in ("ptrtoint", "inttoptr", "bitcast", "freeze"): return v
        if isinstance(v, Ptr):
            if op in ("zext", "trunc") and dt.k == "i" and dt.n == ty.n: return v
            raise Unsupported("pointer cast")
        return s.ctx.cast(op, v, ty.n, dt.n)
    def binop(s, op, w, a, b):
        c = s.ctx
        if op in ("shl", "lshr", "ashr") and not isinstance(b, int): b = c.refresh(b)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj: return c.sub(a.off, b.off, 64)
            if op == "add": return s.padd(a, b) if isinstance(a, Ptr) else s.padd(b, a)
            if op == "sub" and isinstance(a, Ptr): return s.padd(a, c.sub(0, b, 64))
            if op == "and" and isinstance(b, int): return 0 if b < 16 else a   # alignment tests
            if op == "urem" and isinstance(b, int): return 0
            raise Unsupported("pointer arithmetic " + op)
        if op == "add": return c.add(a, b, w)
        if op == "sub": return c.sub(a, b, w)
        if op == "mul": return c.mul(a, b, w)
        if op == "and": return c.and_(a, b, w)
        if op == "or": return c.or_(a, b, w)
        if op == "xor": return c.xor_(a, b, w)
        if op == "shl": return c.shl(a, b, w)
        if op == "lshr": return c.lshr(a, b, w)
        if op == "ashr": return c.lshr(a, b, w, True)
        if op == "udiv": return c.udivrem(a, b, w, False)
        if op == "urem": return c.udivrem(a, b, w, True)
        if op in ("sdiv", "srem"):
            if isinstance(a, int) and isinstance(b, int):
                x = a - (1 << w) if a >> (w - 1) else a; y = b - (1 << w) if b >> (w - 1) else b
                q = abs(x) // abs(y); q = -q if (x < 0) != (y < 0) else q
                return (q if op == "sdiv" else x - q * y) & ((1 << w) - 1)
            x = c.Sv(a, w)
            if x.lo >= 0 and isinstance(b, int) and not b >> (w - 1): return c.udivrem(a, b, w, op == "srem")
            raise Unsupported(op)
        raise Unsupported(op)

class Result:
    def __init__(s): s.obls = []; s.paths = 0; s.infeasible = 0; s.unsupported = []; s.used = {}; s.instrs = 0

def explore(mod, setup, contracts=None, models=None, max_paths=4000, cls=Interp, prune=True):
    """run setup(interp) -> None on every path; setup performs the execution and records obligations"""
    res = Result()
    work = [()]
    while work:
        if overtime(): res.unsupported.append(("time limit", "")); break
        dec = work.pop()
        ctx = Ctx(dec); ctx.prune = prune
        it = cls(mod, ctx, contracts, models)
        try:
            try:
                setup(it)
                res.paths += 1
            except PathDone: res.paths += 1
            except (Panic, MemFault) as e:
                if it.ghost.get("mutg") and (isinstance(e, MemFault) or re.search("sync|once|lazy|cell", it.where(), re.I)): raise Unsupported("mutable static: %s" % e)
                if ctx.feasible():
                    it.oblige("no-panic", False, str(e))
                    res.paths += 1
                else: res.infeasible += 1
            except Infeasible:
                res.infeasible += 1
            for o in it.obls:
                res.obls.append(o + (list(ctx.trace), ctx if not o[1] else None))
        except NeedFork as e:
            for v in reversed(e.values): work.append(tuple(dec) + (v,))
            continue
        except Unsupported as e:
            res.unsupported.append((str(e), it.where()))
        except (KeyError, IndexError, TypeError, ValueError, AttributeError, AssertionError, RecursionError, ZeroDivisionError) as e:
            import traceback
            res.unsupported.append(("engine: %r %s" % (e, traceback.format_exc()[-300:]), it.where()))
        finally:
            res.instrs += it.n
            for k, v in it.used.items(): res.used[k] = res.used.get(k, 0) + v
        if res.paths + len(work) > max_paths:
            res.unsupported.append(("too many paths", "")); break
    return res
