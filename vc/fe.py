"""Contracts for the field (bignumber.rs) functions.

A field element in memory is 16 u32 limbs; its value is sum(2^(28 i) limb_i) modulo p.  Field atoms (kind "field")
denote canonical residues in [0, p-1].  Contracts are parametric in the limb bounds of the arguments: an instance
(function, bounds) is verified on demand against the function's IR and its output limb bounds are recorded.
"""
from dom import *
import cex
from interp import *
import ir

PP = 2**448 - 2**224 - 1
QQ = 2**446 - 13818066809895115352007386748515426880336692474882178609894547503885
DD = -39081           # untwisted d
DT = -39082           # twisted d

def grid(h):
    """limb-bound classes"""
    g = 1 << 24
    return ((h // g) + 1) * g - 1

# ------------------------------------------------------------------ field terms
class Field:
    """per-context field term manager (attached to ctx as ctx.F)"""
    def __init__(s, ctx):
        s.ctx = ctx
        s.defs = {}        # field atom id -> defining polynomial mod p
        s.exp = {}         # expanded forms
        s.canonm = {}      # expanded key -> atom id
        s.nonzero = []     # polynomials known nonzero
        s.relz = []        # polynomials known zero (path assumptions)
        s.reduce = None    # optional reduction (curve relations)
        s.isrm = {}; s.invm = {}; s.oddm = {}
    def atom(s, name, d=None):
        a = s.ctx.atom(name, 0, PP - 1, "field", d)
        return a.id
    def limb0(s):
        return s.ctx.pmdefs.setdefault(PP, {})
    def val(s, limbs):
        """field value (polynomial mod p) of 16 limbs, contract-output limbs folded to their field atom"""
        c = s.ctx
        p = {}
        for i, x in enumerate(limbs): p = padd(p, pscale(c.P(x), 1 << (28 * i)))
        if s.keepsmall:
            A = c.atoms
            st = {i for i in patoms(p) if i in c.alias and A[i].const is None and A[i].kind != "limb" and A[i].hi - A[i].lo < 32}
            return c.nf(p, PP, st)
        p = c.nf(p, PP)
        if s.named: p = s.named.get(pkey(p), p)
        return p
    named = None        # values of the inputs that are represented by one field atom: key of the value -> polynomial
    zhook = None        # optional decision procedure: is the polynomial zero (True / False / None unknown)
    keepsmall = False   # keep small-domain atoms as they are (group-level instances enumerate them)
    def ex(s, p):
        """fully expanded form (definitions of field atoms unfolded)"""
        r = {}
        simple = {}
        for m, k in p.items():
            if any(i in s.defs for i, e in m):
                t = {tuple(x for x in m if x[0] not in s.defs): k}
                for i, e in m:
                    if i in s.defs:
                        d = s.exa(i)
                        t = s.pmulmod(t, s.ppow(d, e))
                r = padd(r, t)
            else: simple[m] = simple.get(m, 0) + k
        r = padd(r, simple)
        r = pmod(s.norm(r), PP)
        return r
    def exa(s, i):
        if i not in s.exp: s.exp[i] = s.ex(s.defs[i])
        return s.exp[i]
    def pmulmod(s, a, b):
        return pmod(pmul(a, b), PP)
    def ppow(s, p, e):
        if len(p) == 1:
            (m, k), = p.items()
            if e > 4: return {tuple((i, rexp(x * e)) for i, x in m): pow(k, e, PP)}
        if e > 64: raise Unsupported("power of a sum")
        r = pconst(1)
        for _ in range(e): r = s.pmulmod(r, p)
        return r
    def norm(s, p):
        """exponent reduction of booleans, assumed constants, curve relations"""
        A = s.ctx.atoms
        ch = False
        for m in p:
            for i, e in m:
                a = A[i]
                if a.const is not None or (e > 1 and a.kind != "field" and 0 <= a.lo and a.hi <= 1) or e >= PP: ch = True
        if ch:
            r = {}
            for m, c in p.items():
                mm = []
                for i, e in m:
                    a = A[i]
                    if a.const is not None: c = c * pow(a.const, e, PP) % PP; continue
                    if e > 1 and a.kind != "field" and 0 <= a.lo and a.hi <= 1: e = 1
                    if e >= PP: e = rexp(e)
                    mm.append((i, e))
                mm = tuple(mm)
                v = (r.get(mm, 0) + c) % PP
                if v: r[mm] = v
                else: r.pop(mm, None)
            p = r
        if s.reduce: p = s.reduce(p)
        return p
    def canon(s, p):
        """field atom (canonical residue) or constant equal to p"""
        p = pmod(p, PP)
        if pisconst(p): return pcval(p) % PP
        if len(p) == 1:
            (m, c), = p.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and s.ctx.atoms[m[0][0]].kind == "field" and m[0][0] not in s.defs:
                return m[0][0], None
        e = s.ex(p)
        if pisconst(e): return pcval(e) % PP
        k = pkey(e)
        if len(e) == 1:
            (m, c), = e.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and s.ctx.atoms[m[0][0]].kind == "field": return m[0][0], None
        i = s.canonm.get(k)
        if i is None:
            i = s.atom("c"); s.defs[i] = p; s.exp[i] = e; s.canonm[k] = i
        return i, None
    def zero(s, p):
        e = s.ex(p)
        if not e: return True
        for z in s.relz:
            if s.propto(e, s.ex(z)): return True
        return False
    def propto(s, a, b):
        """a == k*b for a constant k"""
        if len(a) != len(b) or not b: return False
        k = None
        for m, c in a.items():
            if m not in b: return False
            r = c * pow(b[m], -1, PP) % PP
            if k is None: k = r
            elif k != r: return False
        return True
    def isr(s, p):
        e = s.ex(p)
        if len(e) == 1:
            (m, c), = e.items()
            return {tuple((i, rexp(x * ((PP - 3) // 4))) for i, x in m): pow(c, (PP - 3) // 4, PP)}
        if not e: return {}
        k = pkey(e)
        if k not in s.isrm: s.isrm[k] = s.atom("isr", p)
        return pvar(s.isrm[k])
    def inv(s, p):
        e = s.ex(p)
        if not e: return {}
        if len(e) == 1:
            (m, c), = e.items()
            return {tuple((i, rexp(x * (PP - 2))) for i, x in m): pow(c, PP - 2, PP)}
        # normalise by leading coefficient
        lm = max(e); lc = e[lm]
        li = pow(lc, -1, PP)
        n = pmod(pscale(e, li), PP)
        k = pkey(n)
        if k not in s.invm: s.invm[k] = s.atom("inv", n)
        return pscale(pvar(s.invm[k]), li)

def rexp(e):
    """exponent modulo p-1, keeping positive exponents positive (x^p = x for every residue)"""
    return e if e < PP else (e - 1) % (PP - 1) + 1

def F(ctx):
    f = getattr(ctx, "F", None)
    if f is None: f = ctx.F = Field(ctx)
    return f

def fe_limbs(ctx, poly, bounds, name="o"):
    """16 fresh limbs of a field element with value poly and the given upper bounds"""
    f = F(ctx)
    if len(poly) == 1 and next(iter(poly.values())) == 1 and len(next(iter(poly))) == 1 and next(iter(poly))[0][1] == 1 and ctx.atoms[next(iter(poly))[0][0]].kind == "field":
        fi = next(iter(poly))[0][0]
    else:
        fi = f.atom("f"); f.defs[fi] = poly
    out = []
    rest = {}
    first = None
    for i in range(16):
        a = ctx.atom(name, 0, bounds[i], "limb")
        if i == 0: first = a
        else: rest[((a.id, 1),)] = -(1 << (28 * i))
        out.append(Sym(pvar(a.id), 32, 0, bounds[i]) if bounds[i] else 0)
    d = dict(rest); d[((fi, 1),)] = 1
    f.limb0()[first.id] = pmod(d, PP)
    return out

def fe_canon_limbs(ctx, fi):
    """16 fresh limbs < 2^28 whose integer value is exactly the canonical residue atom fi"""
    out = []; d = pvar(fi) if not isinstance(fi, tuple) else fi
    memo = ctx.__dict__.setdefault("canonl", {})
    k = pkey(d)
    if k in memo: return memo[k]
    h = (1 << 28) - 1
    ids = []
    x = Sym(d, 448, 0, PP - 1)
    for i in range(16):
        # limb i = floor(f / 2^(28 i)) mod 2^28
        v = ctx.lshr(x, 28 * i, 448) if i else x
        v = ctx.lowbits(v, 28, 448)
        out.append(Sym(v.p, 32, v.lo, v.hi) if isinstance(v, Sym) else v)
    memo[k] = out
    return out

def fe_write(it, ptr, limbs):
    for i, v in enumerate(limbs): it.mem.write(ptr.obj, ptr.off + 4 * i, 4, v)

def fe_read(it, ptr):
    """limbs as unsigned-normal values"""
    if isinstance(ptr, T):
        ptr = it.ctx.refresh(ptr)
    if isinstance(ptr, T):
        r = [it.ctx.tmap(lambda q: it.mem.read(q.obj, q.off + 4 * i, 4), 32, ptr) for i in range(16)]
    else:
        r = [it.mem.read(ptr.obj, ptr.off + 4 * i, 4) for i in range(16)]
    out = []
    for v in r:
        if v is UNDEF: raise MemFault("undefined limb")
        out.append(v)
    return out

def has_T(vs): return any(isinstance(v, T) for v in vs)

def pointwise(ctx, vals, core, nout, w=32):
    """apply core (list of values -> list of nout values) pointwise over T arguments"""
    at = []
    for v in vals:
        if isinstance(v, T):
            for i in v.at:
                if i not in at and ctx.atoms[i].const is None: at.append(i)
    if not at: return core([ctx.refresh(v) for v in vals])
    import itertools
    at.sort()
    n = 1
    for i in at: n *= ctx.atoms[i].hi - ctx.atoms[i].lo + 1
    if n > 1024: raise Unsupported("finite domain too large")
    tabs = [dict() for _ in range(nout)]
    for k in itertools.product(*[ctx.dom(i) for i in at]):
        env = dict(zip(at, k))
        env2 = dict(env)
        for v in vals:
            if isinstance(v, T):
                for i in v.at:
                    if ctx.atoms[i].const is not None: env2[i] = ctx.atoms[i].const
        r = core([ctx.vsubst(v, env2) for v in vals])
        for j in range(nout): tabs[j][k] = r[j]
    return [ctx.tnorm(T(tuple(at), t, w)) for t in tabs]

def mask01(ctx, v):
    """0/1 polynomial of a word that is 0 or all-ones; None if it is not known to be such a word"""
    if isinstance(v, int):
        return pconst(0) if v == 0 else pconst(1) if v == 0xffffffff else None
    if isinstance(v, Sym):
        if v.lo >= -1 and v.hi <= 0: return pscale(v.p, -1)
        at = ctx.small(v.p)
        if at is not None:
            t = ctx.tpoly(at, lambda env: {0: 0, 0xffffffff: 1}.get(ctx.peval(v.p, env) & 0xffffffff, 7))
            if t is not None and t[1] >= 0 and t[2] <= 1: return t[0]
        # lazily reduced: multiples of 2^32 dropped
        p = {}
        for m, c in v.p.items():
            c %= 1 << 32
            if c > 1 << 31: c -= 1 << 32
            if c: p[m] = c
        lo, hi = ctx.bounds(p)
        if lo >= -1 and hi <= 0: return pscale(p, -1)
        if lo >= 0 and hi <= 1 and False: return p
    return None

# ------------------------------------------------------------------ contracts
class Inst:
    __slots__ = ("key", "ok", "out", "obls", "unsupported", "fails", "paths", "time", "used", "instrs", "extra")

class FeC:
    """one field-function contract.
    params: string per IR parameter after sret: F (pointer to limbs), W (pointer to mask word), w (mask word by value),
            K (pointer to a constant word), D (pointer to a 64-bit constant), N (usize by value), X (pointer, in/out limbs)
    out: 'F' sret element, 'C' canonical element, 'm' mask word returned, '' nothing
    spec(f, vals, ks) -> list of output polynomials
    """
    def __init__(s, dem, params, out, spec, pre=None, maskout=None):
        s.dem = dem; s.params = params; s.out = out; s.spec = spec; s.pre = pre; s.canon = out == "C"

    def adapt(s, fn):
        """fit the contract to the parameter passing of the function as it is now; False if it does not fit"""
        ps = list(fn.params); sret = bool(ps) and ps[0][2] is not None
        rest = ps[1:] if sret else ps
        if len(rest) != len(s.params): return False
        new = ""
        for p, (ty, nm, _) in zip(s.params, rest):
            k = "p" if ty.k == "p" else ty.n if ty.k == "i" else None
            if p in "FX": q = p if k == "p" else None
            elif p in "Ww": q = {"p": "W", 32: "w", 1: "o"}.get(k)
            elif p == "K": q = {"p": "K", 32: "N", 64: "N"}.get(k)
            elif p == "D": q = {"p": "D", 64: "N"}.get(k)
            else: q = p if k == 64 else "N" if k == 32 else None
            if q is None: return False
            new += q
        if s.out in ("F", "C"):
            if not sret:
                if "X" in new or "F" not in new: return False
                new = new.replace("F", "X", 1); s.out = ""
        else:
            if sret: return False
            if s.out == "m":
                s.out = {32: "m", 1: "b"}.get(fn.ret.n if fn.ret.k == "i" else None)
                if s.out is None: return False
        s.params = new
        return True

    def apply(s, V):
        def call(it, args, dem, fn):
            ctx = it.ctx; f = F(ctx)
            it.used[dem] = it.used.get(dem, 0) + 1
            a = list(args)
            sret = a.pop(0) if s.out in "FC" and s.out else None
            vals = []; lay = []
            ks = []
            for p, x in zip(s.params, a):
                if p in "FX":
                    if p == "X" and isinstance(x, T): x = ctx.force(x)
                    l = fe_read(it, x); lay.append((p, len(vals), 16, x)); vals += l
                elif p == "W":
                    lay.append((p, len(vals), 1, x)); vals.append(it.load(ir.I(32), x))
                elif p == "w":
                    lay.append((p, len(vals), 1, x)); vals.append(x)
                elif p == "o":
                    lay.append((p, len(vals), 1, x)); vals.append(ctx.sub(0, ctx.cast("zext", x, 1, 32), 32))
                elif p == "K": ks.append(ctx.force(it.load(ir.I(32), x)))
                elif p == "D": ks.append(ctx.force(it.load(ir.I(64), x)))
                elif p == "N": ks.append(ctx.force(x))
            nX = s.params.count("X")
            nout = 16 * nX + (16 if sret is not None else 0) + (1 if s.out in ("m", "b") else 0)
            def core(vs):
                fv = []; bs = []; ms = []
                for p, o, n, x in lay:
                    if n == 16:
                        l = [ctx.U(v) for v in vs[o:o + 16]]
                        bs.append(grid(max(v if isinstance(v, int) else v.hi for v in l)))
                        fv.append(f.val(l))
                    else:
                        m = mask01(ctx, vs[o])
                        if m is None:
                            it.oblige("pre:%s mask argument is 0 or all ones" % dem, False, repr(vs[o]))
                            raise Infeasible()
                        ms.append(m)
                inst = V.fe_inst(s, tuple(bs), tuple(ks))
                if not inst.ok:
                    V.bad_use(it, inst, dem)
                outs = s.spec(f, fv, ks, ms)
                res = []
                k = 0
                for o in outs:
                    if s.out == "m": res.append(ctx.mk(pscale(o, -1), 32, -1, 0) if not isinstance(o, int) else (-o) & 0xffffffff)
                    elif s.out == "b": res.append(ctx.mk(o, 1, 0, 1) if not isinstance(o, int) else o & 1)
                    elif s.canon:
                        c = f.canon(o)
                        if isinstance(c, int): res += [(c >> (28 * i)) & ((1 << 28) - 1) for i in range(16)]
                        else: res += fe_canon_limbs(ctx, c[0])
                    else:
                        if pisconst(o) and inst.extra == "exact-const": pass
                        res += fe_limbs(ctx, o, inst.out[k])
                    k += 1
                return res
            r = pointwise(ctx, vals, core, nout)
            j = 0
            for p, o, n, x in lay:
                if p == "X":
                    fe_write(it, x, r[j:j + 16]); j += 16
            if sret is not None: fe_write(it, sret, r[j:j + 16])
            if s.out in ("m", "b"): return r[j]
            return None
        return call

    def verify(s, V, bs, ks):
        """generate and discharge the obligations of the instance"""
        fns = V.mod.bydem.get(s.dem)
        if not fns: raise Unsupported("lost anchor " + s.dem)
        fn = fns[0]
        outb = []
        def setup(it):
            ctx = it.ctx; f = F(ctx)
            args = []; fv = []; ms = []; outs = []; kk = list(ks); bb = list(bs)
            keep = []
            if s.out in ("F", "C"):
                so = Obj("out", 64); args.append(Ptr(so, 0))
            for p in s.params:
                if p in "FX":
                    o = Obj("arg", 64); b = bb.pop(0)
                    a = f.atom("x"); l = fe_limbs(ctx, pvar(a), [b] * 16, "x")
                    fe_write(it, Ptr(o, 0), l); args.append(Ptr(o, 0)); fv.append(pvar(a)); cex.note(ctx, "words", "f%d" % len(fv), l)
                    if p == "X": outs.append(o)
                    else: keep.append((o, l))
                elif p == "o":
                    a = ctx.atom("mask", 0, 1); ms.append(pvar(a.id)); args.append(Sym(pvar(a.id), 1, 0, 1))
                elif p in "Ww":
                    a = ctx.atom("mask", 0, 1)
                    v = Sym(pscale(pvar(a.id), -1), 32, -1, 0); ms.append(pvar(a.id))
                    if p == "w": args.append(v)
                    else:
                        o = Obj("m", 4); it.mem.write(o, 0, 4, v); args.append(Ptr(o, 0))
                elif p == "K":
                    o = Obj("k", 4); it.mem.write(o, 0, 4, kk.pop(0)); args.append(Ptr(o, 0))
                elif p == "D":
                    o = Obj("k", 8); it.mem.write(o, 0, 8, kk.pop(0)); args.append(Ptr(o, 0))
                elif p == "N": args.append(kk.pop(0))
            r = it.run(fn.name, args)
            if s.out in ("F", "C"): outs.append(so)
            spec = s.spec(f, fv, list(ks), ms)
            if s.out in ("m", "b"):
                if s.out == "b": r = ctx.sub(0, ctx.cast("zext", r, 1, 32), 32) if not isinstance(r, int) else (-(r & 1)) & 0xffffffff
                check_mask(it, s.dem, r, spec[0], fv)
                return
            for k, o in enumerate(outs):
                l = [ctx.U(v) for v in fe_read(it, Ptr(o, 0))]
                b = [v if isinstance(v, int) else v.hi for v in l]
                while len(outb) <= k: outb.append([0] * 16)
                outb[k] = [max(x, y) for x, y in zip(outb[k], b)]
                V.prove_fe(it, "%s: value is exact modulo p" % s.dem, l, spec[k])
                if s.canon and k == len(outs) - 1:
                    V.prove_canon(it, s.dem, l)
            # frame: read-only arguments unchanged
            for o, l in keep:
                if o in [x for x in outs]: continue
                for i in range(16):
                    c = it.mem.read(o, 4 * i, 4)
                    if not (c is l[i] or (isinstance(c, Sym) and isinstance(l[i], Sym) and c.p == l[i].p) or c == l[i]):
                        if s.byval: continue
                        it.oblige("%s: argument not modified" % s.dem, False)
        return setup, outb
    byval = False

def check_mask(it, dem, r, spec, fv):
    """r must be all-ones exactly when spec (an int 0/1, or a 0/1 polynomial / ('feq', poly) / ('odd', poly)) holds"""
    ctx = it.ctx; f = F(ctx)
    m = mask01(ctx, r)
    if m is None:
        ctx.force(r)
        r = ctx.refresh(r); m = mask01(ctx, r)
        if m is None:
            it.oblige("%s: result is 0 or all ones" % dem, False, repr(r)); return
    # case split on the mask
    v = ctx.refresh(ctx.mk(m, 1, 0, 1))
    if not isinstance(v, int): v = ctx.force(v)
    it.ghost["mask"] = v
    at = ctx.atoms[next(iter(patoms(spec)))] if not pisconst(spec) else None
    if at is not None and at.kind == "feq" and spec == pvar(at.id):
        # spec atom: F == 0
        F0 = f.canon(at.d)
        if isinstance(F0, int): it.oblige("%s: equality mask" % dem, v == (F0 == 0)); return
        x = pvar(F0[0])
        # F0 is the canonical residue: equality to zero as integers
        if v == 1: ok = ctx.prove_ge0(pscale(x, -1))
        else: ok = ctx.prove_ge0(padd(x, pconst(-1)))
        it.oblige("%s: mask is set exactly when the operands are equal" % dem, ok, "mask=%d" % v)
        return
    d = padd(spec, pconst(-v))
    ok = ctx.prove_zero(d)
    if not ok:
        e = ctx.nf(d)
        for i in sorted(patoms(e)):
            a = ctx.atoms[i]
            if a.const is None and a.hi - a.lo <= 1: ctx.decide(i, list(ctx.dom(i)))
        ok = ctx.prove_zero(d)
    it.oblige("%s: result mask matches its specification" % dem, ok, ctx.show(ctx.nf(d)))

def feq_atom(f, p):
    """0/1 polynomial of [p == 0 mod p]"""
    ctx = f.ctx
    e = f.ex(p)
    if pisconst(e): return pconst(1 if not e else 0)
    if f.zhook:
        r = f.zhook(e)
        if r is not None: return pconst(1 if r else 0)
    g = getattr(ctx, "G", None)
    if g is not None and g.nz:
        e2 = g.strip(e)
        if e2 is not e: e = p = e2
    for z in f.relz:
        if f.propto(e, f.ex(z)): return pconst(1)
    for z in f.nonzero:
        if f.propto(e, f.ex(z)): return pconst(0)
    lm = max(e); n = pmod(pscale(e, pow(e[lm], -1, PP)), PP)
    k = ("feq", pkey(n))
    i = ctx.eqmemo.get(k)
    if i is None:
        a = ctx.atom("feq", 0, 1, "feq", p); i = a.id; ctx.eqmemo[k] = i
        def on(a):
            if a.const == 1: f.relz.append(a.d)
            else: f.nonzero.append(a.d)
            h = getattr(f, "on_eq", None)
            if h: h(a)
        ctx.on_assume["feq"] = on
    return ctx.apoly(ctx.atoms[i])

def odd_poly(f, p):
    c = f.canon(p)
    if isinstance(c, int): return pconst(c & 1)
    if f.zhook:
        # p - v has the other parity when v is not zero
        n = f.canonm.get(pkey(f.ex(pscale(p, -1))))
        if n is not None and n in f.oddm and f.zhook(f.ex(p)) is False: return padd(pconst(1), f.oddm[n], -1)
        q, r = f.ctx.split(pvar(c[0]), 1)
        f.oddm[c[0]] = r[0]
        return r[0]
    q, r = f.ctx.split(pvar(c[0]), 1)
    return r[0]

def sel(m, x, y):
    """m ? x : y"""
    return padd(y, pmul(m, padd(x, y, -1)))

def sgn64(k): return k - (1 << 64) if k >> 63 else k

BN = "libgoldilocks::bignumber::"
def fe_contracts():
    L = []
    def C(n, params, out, spec): L.append(FeC(BN + n, params, out, spec))
    C("add", "FF", "F", lambda f, v, k, m: [padd(v[0], v[1])])
    C("sub", "FF", "F", lambda f, v, k, m: [padd(v[0], v[1], -1)])
    C("neg", "F", "F", lambda f, v, k, m: [pscale(v[0], -1)])
    C("sub_x_bias", "FFK", "F", lambda f, v, k, m: [padd(v[0], v[1], -1)])
    C("mul", "FF", "F", lambda f, v, k, m: [f.pmulmod(v[0], v[1])])
    C("square", "F", "F", lambda f, v, k, m: [f.pmulmod(v[0], v[0])])
    C("square_n", "FN", "F", lambda f, v, k, m: [f.ppow(v[0], 1 << k[0]) if len(v[0]) == 1 else f.ppow(f.ex(v[0]), 1 << k[0])])
    C("mul_w", "FD", "F", lambda f, v, k, m: [pmod(pscale(v[0], k[0]), PP)])
    C("mul_with_signed_curve_constant", "FD", "F", lambda f, v, k, m: [pmod(pscale(v[0], sgn64(k[0])), PP)])
    C("isr", "F", "F", lambda f, v, k, m: [f.isr(v[0])])
    C("invert", "F", "F", lambda f, v, k, m: [f.inv(v[0])])
    C("weak_reduce", "F", "F", lambda f, v, k, m: [v[0]]); L[-1].byval = True
    C("strong_reduce", "F", "C", lambda f, v, k, m: [v[0]]); L[-1].byval = True
    C("decaf_equal", "FF", "m", lambda f, v, k, m: [feq_atom(f, padd(v[0], v[1], -1))])
    C("low_bit", "F", "m", lambda f, v, k, m: [odd_poly(f, v[0])])
    C("constant_time_select", "FFW", "F", lambda f, v, k, m: [sel(m[0], v[0], v[1])])
    C("conditional_negate", "FW", "F", lambda f, v, k, m: [sel(m[0], pscale(v[0], -1), v[0])])
    C("decaf_const_time_select", "FFW", "F", lambda f, v, k, m: [sel(m[0], v[1], v[0])])
    C("decaf_cond_negate", "FW", "F", lambda f, v, k, m: [sel(m[0], pscale(v[0], -1), v[0])])
    C("conditional_swap", "XXW", "", lambda f, v, k, m: [sel(m[0], v[1], v[0]), sel(m[0], v[0], v[1])])
    return {c.dem: c for c in L}
