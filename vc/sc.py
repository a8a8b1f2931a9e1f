"""Contracts for the scalar (scalar.rs) functions.

A scalar is 14 little-endian u32 words (an integer below 2^448).  Residues are integer atoms in [0, q-1]; a residue
atom defined as a polynomial modulo q is memoised on its normal form, so equal residues are the same atom and have
the same words and bytes.
"""
from dom import *
import cex
from interp import *
import ir
from fe import PP, QQ

SQ = "libgoldilocks::scalar::"

def word_val(ctx, ws):
    """exact integer polynomial of a word vector"""
    p = {}
    for i, x in enumerate(ws): p = padd(p, pscale(ctx.P(ctx.U(x)), 1 << (32 * i)))
    return p

def sc_canon(ctx, p):
    """canonical residue modulo q of an integer polynomial: an int or a polynomial (single atom)"""
    e = ctx.nf(p, QQ)
    if pisconst(e): return pcval(e) % QQ
    if len(e) == 1:
        (m, c), = e.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            a = ctx.atoms[m[0][0]]
            if a.lo >= 0 and a.hi < QQ: return pvar(a.id)
    memo = ctx.__dict__.setdefault("scm", {})
    k = pkey(e)
    i = memo.get(k)
    if i is None:
        a = ctx.atom("sc", 0, QQ - 1, "sc", e); i = a.id; memo[k] = i
        ctx.pmdefs.setdefault(QQ, {})[i] = e
    return pvar(i)

def slices(ctx, p, w, n, top):
    """n slices of w bits of the integer polynomial p (int or single atom in [0, top])"""
    if isinstance(p, int): return [(p >> (w * i)) & ((1 << w) - 1) for i in range(n)]
    memo = ctx.__dict__.setdefault("slm", {})
    k = (pkey(p), w, n)
    if k in memo: return memo[k]
    W = w * n
    x = Sym(p, W, 0, top); out = []
    for i in range(n):
        v = ctx.lshr(x, w * i, W) if i else x
        if isinstance(v, Sym): v = ctx.lowbits(v, w, W)
        else: v &= (1 << w) - 1
        out.append(Sym(v.p, w, v.lo, v.hi) if isinstance(v, Sym) else v)
    memo[k] = out
    return out

def sc_words(ctx, p): return slices(ctx, p, 32, 14, QQ - 1)

def rd_words(it, p, n=14):
    if isinstance(p, T): p = it.ctx.force(p)
    if not isinstance(p, Ptr): raise MemFault("scalar through non-pointer")
    out = []
    for i in range(n):
        v = it.mem.read(p.obj, p.off + 4 * i, 4)
        if v is UNDEF: raise MemFault("undefined word")
        if isinstance(v, T): v = it.ctx.force(v)
        out.append(it.ctx.U(it.ctx.refresh(v)))
    return out

def wr_words(it, p, ws):
    for i, v in enumerate(ws): it.mem.write(p.obj, p.off + 4 * i, 4, v)

def rd_bytes(it, p, n):
    out = []
    for i in range(n):
        v = it.load(ir.I(8), it.padd(p, i))
        if v is UNDEF: raise MemFault("undefined byte")
        out.append(it.ctx.U(v) if not isinstance(v, T) else v)
    return out

def hi_of(it, p):
    """proved upper bound of an integer polynomial"""
    lo, hi = it.ctx.bounds(p)
    return hi

class ScC:
    """params: S pointer to words, C pointer to carry word, B byte slice (ptr,len).
    pre(ctx, vals): list of polynomials that must be >= 0 ; spec(vals): integer polynomial whose residue mod q is returned"""
    def __init__(s, name, params, spec, pre, facts=None):
        s.dem = SQ + name; s.params = params; s.spec = spec; s.pre = pre; s.facts = facts
        s.nparams = 1 + sum(2 if c in "BH" else 1 for c in params)
        s.perm = None; s.inplace = False
    def adapt(s, fn, mod):
        """fit the contract to the parameter passing of the function as it is now; False if it does not fit"""
        ps = list(fn.params); sret = bool(ps) and ps[0][2] is not None
        if sret: ps = ps[1:]
        elif fn.ret.k == "void" or str(fn.ret) == "void": s.inplace = True
        else: return False
        new = ""; n = 0
        for p in s.params:
            if n >= len(ps): return False
            ty = ps[n][0]; n += 1
            if p == "C": new += "C" if ty.k == "p" else "c"; continue
            if ty.k != "p": return False
            if p in "BH":
                if n >= len(ps) or ps[n][0].k != "i" or ps[n][0].n != 64: return False
                n += 1
            new += p
        if n != len(ps): return False
        if s.inplace and "S" not in new: return False
        s.params = new; s.nparams = len(fn.params)
        if s.params.lower() == "ssc" and not s.inplace and trial(s, fn, mod, False) is False and trial(s, fn, mod, True): s.perm = True
        return True
    def order(s, vals): return [vals[1], vals[0]] + vals[2:] if s.perm else vals
    def apply(s, V):
        def call(it, args, dem, fn):
            if fn is not None and len(it.mod.fn(fn.name).params) != s.nparams: return NotImplemented
            ctx = it.ctx
            a = list(args); sret = a[0] if s.inplace else a.pop(0)
            if s.inplace and isinstance(sret, T): sret = ctx.force(sret)
            vals = []; ks = []
            for p in s.params:
                x = a.pop(0)
                if p == "c": vals.append(ctx.P(ctx.U(x))); continue
                if p == "S": vals.append(word_val(ctx, rd_words(it, x)))
                elif p == "C":
                    v = ctx.U(it.load(ir.I(32), x)); vals.append(ctx.P(v))
                elif p in "BH":
                    n = ctx.force(a.pop(0)); ks.append(n)
                    if p == "H" and n < 56: raise Panic("decode of fewer than 56 bytes", it.where())
                    vals.append(byte_val(ctx, rd_bytes(it, x, n if p == "B" else 56)))
            vals = s.order(vals)
            it.used[dem] = it.used.get(dem, 0) + 1
            inst = V.sc_inst(s, tuple(ks))
            if not inst.ok: V.bad_use(it, inst, dem)
            for nm, q in s.pre(ctx, vals, ks):
                if not V.ge0(it, q):
                    it.oblige("pre:%s: %s" % (dem, nm), False, ctx.show(q)); 
                    # the postcondition is unavailable: execute the body instead
                    it.obls.pop(); return NotImplemented
                it.oblige("pre:%s: %s" % (dem, nm), True)
            sp = s.spec(vals, ks)
            wr_words(it, sret, sc_words(ctx, sc_canon(ctx, sp)))
            return None
        return call
    def verify(s, V, ks):
        fns = V.mod.bydem.get(s.dem)
        if not fns: raise Unsupported("lost anchor " + s.dem)
        fn = V.mod.fn(fns[0].name)
        if len(fn.params) != s.nparams: raise Unsupported("signature of " + s.dem)
        ps = fn.params
        def setup(it):
            ctx = it.ctx
            so = Obj("out", 56); args = [] if s.inplace else [Ptr(so, 0)]; vals = []; kk = list(ks); keep = []
            n = 0
            for p in s.params:
                o = Obj("arg", 56); n += 1
                if p == "S":
                    ws = []
                    for i in range(14):
                        ws.append(ctx.fresh("%s%d" % ("xyz"[n - 1], i), 32)); it.mem.write(o, 4 * i, 4, ws[-1])
                    vals.append(word_val(ctx, ws)); args.append(Ptr(o, 0)); cex.note(ctx, "words", "xyz"[n - 1], ws)
                    if s.inplace and n == 1: so = o
                    else: keep.append((o, ws, 4))
                elif p == "c":
                    c = ctx.fresh("carry", ps[n - 1 + (0 if s.inplace else 1)][0].n, 0, 1); vals.append(ctx.P(c)); args.append(c)
                elif p == "C":
                    c = ctx.fresh("carry", 32, 0, 1); it.mem.write(o, 0, 4, c); vals.append(ctx.P(c)); args.append(Ptr(o, 0))
                elif p in "BH":
                    k = kk.pop(0); o = Obj("bytes", k); bs = []
                    for i in range(k):
                        bs.append(ctx.fresh("b%d" % i, 8)); it.mem.write(o, i, 1, bs[-1])
                    cex.note(ctx, "bytes", "b", bs)
                    vals.append(byte_val(ctx, bs if p == "B" else bs[:56])); args += [Ptr(o, 0), k]; keep.append((o, bs, 1))
            vals = s.order(vals)
            for nm, q in s.pre(ctx, vals, ks): ctx.facts.append(q)
            if s.facts: ctx.facts += s.facts(vals)
            it.run(fn.name, args)
            ws = rd_words(it, Ptr(so, 0))
            V.prove_sc(it, s.dem, ws, s.spec(vals, ks))
            if s.dem.endswith("halve"): return
            for o, ws, z in keep:
                for i, w in enumerate(ws):
                    c = it.mem.read(o, z * i, z)
                    if not (isinstance(c, Sym) and isinstance(w, Sym) and c.p == w.p): it.oblige("%s: argument not modified" % s.dem, False)
        return setup

def trial(c, fn, mod, perm):
    """does the function compute 7 - 3 on concrete arguments (in this order)?  Only selects the order to verify."""
    it = Interp(mod, Ctx()); so = Obj("out", 56); args = [Ptr(so, 0)]
    for v in ((3, 7) if perm else (7, 3)):
        o = Obj("a", 56)
        for i in range(14): it.mem.write(o, 4 * i, 4, v if i == 0 else 0)
        args.append(Ptr(o, 0))
    if c.params[-1] == "c": args.append(0)
    else:
        o = Obj("c", 4); it.mem.write(o, 0, 4, 0); args.append(Ptr(o, 0))
    try:
        it.run(fn.name, args)
        return [it.mem.read(so, 4 * i, 4) for i in range(14)] == [4] + [0] * 13
    except Exception: return None

def byte_val(ctx, bs):
    p = {}
    for i, x in enumerate(bs):
        if isinstance(x, T): raise Unsupported("T byte")
        p = padd(p, pscale(ctx.P(x), 1 << (8 * i)))
    return p

def le(p, c): return padd(pconst(c), p, -1)
I2 = pow(2, -1, QQ)
IR = pow(2, -448, QQ)
R = 1 << 448

def pmulpre(ctx, v, ks):
    # sufficient: product of the proved upper bounds
    return [("x*y < q*2^448", le(pmul(v[0], v[1]), QQ * R - 1))]

def sc_contracts():
    L = []
    def C(*a): L.append(ScC(*a))
    D = lambda v: padd(padd(v[0], pscale(v[2], R)), v[1], -1)
    C("sub_extra", "SSC", lambda v, k: D(v), lambda c, v, k: [("difference >= -q", padd(D(v), pconst(QQ))), ("difference < q", le(D(v), QQ - 1))])
    C("add", "SS", lambda v, k: padd(v[0], v[1]), lambda c, v, k: [("sum < 2q", le(padd(v[0], v[1]), 2 * QQ - 1))])
    d = lambda v: padd(v[0], v[1], -1)
    C("sub", "SS", lambda v, k: d(v), lambda c, v, k: [("difference >= -q", padd(d(v), pconst(QQ))), ("difference < q", le(d(v), QQ - 1))])
    C("halve", "S", lambda v, k: pscale(v[0], I2), lambda c, v, k: [("s < q", le(v[0], QQ - 1))])
    C("montgomery_multiply", "SS", lambda v, k: pscale(pmul(v[0], v[1]), IR), pmulpre)
    C("mul", "SS", lambda v, k: pmul(v[0], v[1]), pmulpre)
    C("decode", "H", lambda v, k: v[0], lambda c, v, k: [])
    C("decode_long", "B", lambda v, k: v[0], lambda c, v, k: [])
    return {c.dem: c for c in L}
