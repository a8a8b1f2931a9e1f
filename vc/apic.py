"""Contracts of the encoding/verification layer and the RFC 8032 specification terms."""
import re
from dom import *
from interp import *
from fe import *
import sc, pt, ref, ir, rope, dwarf
from pt import GE, EP, TE

SC = "libgoldilocks::scalar::"
ED = "libgoldilocks::eddsa::"
I4Q = pow(4, -1, QQ)

# ------------------------------------------------------------------ specification terms
def bval(ctx, bs):
    p = {}
    for i, x in enumerate(bs): p = padd(p, pscale(ctx.P(ctx.U(x) if not isinstance(x, int) else x), 1 << (8 * i)))
    return p
def gkey(ctx, g):
    """normalised coefficients of an element of the group modulo T2"""
    c = {}
    for n, p in g.c.items():
        p = ctx.nf(p, QQ)
        if p: c[n] = p
    return c
def enc_bytes(ctx, g):
    """RFC 8032 encoding of phi(g): 57 byte values"""
    c = gkey(ctx, g)
    if not c: return [1] + [0] * 56
    if list(c) == ["B"] and pisconst(c["B"]): return list(ref.enc(ref.mul(4 * pcval(c["B"]) % QQ, ref.B)))
    memo = ctx.__dict__.setdefault("encm", {}); by = ctx.__dict__.setdefault("encby", {})
    k = tuple(sorted((n, pkey(p)) for n, p in c.items()))
    if k not in memo:
        y = ctx.atom("encY", 1, PP - 1); s = ctx.atom("encS", 0, 1)
        bs = sc.slices(ctx, pvar(y.id), 8, 56, PP - 1)
        memo[k] = bs + [Sym(pscale(pvar(s.id), 128), 8, 0, 128)]
        by[y.id] = (s.id, GE(c))
    return memo[k]
def dec_bytes(it, bs):
    """(GE of the projection of the RFC-decoded point) or None; forks on validity"""
    ctx = it.ctx
    v = ctx.nf(bval(ctx, bs))
    if pisconst(v):
        A = ref.dec(pcval(v).to_bytes(57, "little"))
        if A is None: return None
        for c, p in (("B", ref.B),):
            if A == p: return GE({"B": pconst(I4Q)})
        nm = "D%x" % pcval(v)
        # torsion points project to the identity
        if ref.aff(ref.mul3(4, A + (1,))) == (0, 1): return GE({})
        return GE({nm: pconst(1)})
    by = ctx.__dict__.setdefault("encby", {})
    for i in patoms(v):
        if i in by and v.get(((i, 1),)) == 1:
            s, g = by[i]
            a = ctx.atoms[s]
            w = padd(pvar(i), pscale(ctx.apoly(a), 1 << 455))
            if not ctx.nf(padd(v, w, -1)): return g
    memo = ctx.__dict__.setdefault("decm", {})
    k = pkey(v)
    if k not in memo:
        a = ctx.atom("rfcvalid", 0, 1, "valid", v); memo[k] = (a.id, "D%d" % a.id)
    i, nm = memo[k]
    if ctx.atoms[i].const is None: ctx.decide(i, [1, 0])
    return GE({nm: pconst(1)}) if ctx.atoms[i].const else None
def geq(it, d):
    """python bool: is the element d trivial (modulo T2)?  forks on an uninterpreted boolean when not determined"""
    ctx = it.ctx
    c = gkey(ctx, d)
    if not c: return True
    if len(c) == 1 and pisconst(next(iter(c.values()))) and next(iter(c)) in ("B",): return False
    b = min(c); m = min(c[b]); k = pow(c[b][m], -1, QQ)
    key = tuple(sorted((n, pkey(pmod(pscale(p, k), QQ))) for n, p in c.items()))
    memo = ctx.__dict__.setdefault("geqm", {})
    if key not in memo: memo[key] = ctx.atom("geq", 0, 1).id
    i = memo[key]
    if ctx.atoms[i].const is None: ctx.decide(i, [1, 0])
    return bool(ctx.atoms[i].const)
def dom4(): return [("b", list(b"SigEd448\x00\x00"))]
def s_clamp(ctx, bs):
    bs = list(bs)
    bs[0] = ctx.and_(bs[0], 0xfc, 8); bs[55] = ctx.or_(bs[55], 0x80, 8); bs[56] = 0
    return bs
def s_scalar(ctx, bs):
    r = sc.sc_canon(ctx, bval(ctx, bs))
    return pconst(r) if isinstance(r, int) else r
def s_enc_scalar(ctx, p):
    p = sc.sc_canon(ctx, p)
    return sc.slices(ctx, p, 8, 56, QQ - 1) + [0]
def s_mulB(ctx, p): return enc_bytes(ctx, GE({"B": pmod(pscale(p, I4Q), QQ)}))
def s_sign_raw(ctx, s, pub, prefix, msg):
    """RFC 8032 5.2.6 steps 2-6 with secret scalar s, public key bytes, 57-byte prefix and message sequence"""
    r = s_scalar(ctx, rope.shake_bytes(ctx, dom4() + [("b", prefix)] + msg, 0, 114))
    R = s_mulB(ctx, r)
    k = s_scalar(ctx, rope.shake_bytes(ctx, dom4() + [("b", R), ("b", pub)] + msg, 0, 114))
    S = padd(r, pmul(k, s))
    return R + s_enc_scalar(ctx, S)
def s_pub_of_secret(ctx, sec):
    return s_mulB(ctx, s_scalar(ctx, s_clamp(ctx, sec)))
def topbit(it, pk):
    return it.ctx.truth(it.ctx.icmp("ne", it.ctx.and_(pk[56], 0x80, 8), 0, 8))
def s_pub(it, pk):
    if topbit(it, pk): return s_pub_of_secret(it.ctx, pk)
    return s_pub_of_secret(it.ctx, rope.shake_bytes(it.ctx, [("b", pk)], 0, 57))
def s_sign_std(ctx, pk, msg):
    h = rope.shake_bytes(ctx, [("b", pk)], 0, 114)
    a = s_clamp(ctx, h[:57]); s = s_scalar(ctx, a)
    return s_sign_raw(ctx, s, s_mulB(ctx, s), h[57:], msg)
def s_sign_sn(ctx, sec, nonce, msg):
    s = s_scalar(ctx, s_clamp(ctx, sec))
    return s_sign_raw(ctx, s, s_mulB(ctx, s), nonce, msg)
def s_sign(it, pk, msg):
    if topbit(it, pk):
        c = s_clamp(it.ctx, pk)
        return s_sign_sn(it.ctx, c, c, msg)
    return s_sign_std(it.ctx, pk, msg)
def zero_bytes(it, bs):
    ctx = it.ctx; v = ctx.nf(bval(ctx, bs))
    if pisconst(v): return not v
    lo, hi = ctx.bounds(v)
    return ctx.truth(ctx.eq0(v, lo, hi))
def below_q(it, bs):
    ctx = it.ctx; v = ctx.nf(bval(ctx, bs))
    if pisconst(v): return pcval(v) < QQ
    if ctx.prove_ge0(padd(pconst(QQ - 1), v, -1)): return True
    d = padd(v, pconst(-QQ)); lo, hi = ctx.bounds(d)
    return ctx.truth(ctx.lt0(d, lo, hi))
def s_verify(it, pub, sig, msg):
    """set of acceptable outcomes; pub / sig are byte lists or None when their length is wrong"""
    ctx = it.ctx; errs = set()
    if pub is None: errs.add("InvalidPubkeyLengthError")
    elif zero_bytes(it, pub): errs.add("InvalidSignatureError")
    if sig is None: errs.add("InvalidSignatureLengthError")
    elif zero_bytes(it, sig): errs.add("InvalidSignatureError")
    A = R = None
    if pub is not None:
        A = dec_bytes(it, pub)
        if A is None: errs.add("DecodePubkeyError")
    if sig is not None:
        R = dec_bytes(it, sig[:57])
        if R is None or not below_q(it, sig[57:]): errs.add("DecodeSignatureError")
    if errs: return errs
    k = s_scalar(ctx, rope.shake_bytes(ctx, dom4() + [("b", sig[:57]), ("b", pub)] + msg, 0, 114))
    S = s_scalar(ctx, sig[57:])
    d = pt.gadd(GE({"B": pmod(pscale(S, I4Q), QQ)}), R, -1)
    d = pt.gadd(d, GE({n: pmod(pmul(c, k), QQ) for n, c in A.c.items()}), -1)
    return {"true"} if geq(it, d) else {"false"}

def bytes_same(ctx, a, b):
    """all bytes equal: per byte, or as integers (both sides are digit strings in base 256)"""
    if len(a) != len(b): return False
    if any(x is UNDEF for x in a): return False
    bad = [i for i, (x, y) in enumerate(zip(a, b)) if rope.bkey(ctx, x) != rope.bkey(ctx, y)]
    if not bad: return True
    for x in list(a) + list(b):
        if not isinstance(x, int) and not (x.lo >= 0 and x.hi <= 255): return False
    # runs of differing bytes, compared as integers
    i, j = bad[0], bad[-1] + 1
    return not ctx.nf(padd(bval(ctx, a[i:j]), bval(ctx, b[i:j]), -1)) or (lambda d: ctx.prove_ge0(d) and ctx.prove_ge0(pscale(d, -1)))(padd(bval(ctx, a[i:j]), bval(ctx, b[i:j]), -1))

# ------------------------------------------------------------------ byte comparison with arithmetic meaning
def memcmp(it, a, b, n):
    """memcmp/bcmp over fixed-length byte strings: 0 iff the integers are equal (only the zero outcome is meaningful)"""
    ctx = it.ctx
    n = ctx.force(n)
    if n == 0: return 0
    xs = [it.load(ir.I(8), it.padd(a, i)) for i in range(n)]; ys = [it.load(ir.I(8), it.padd(b, i)) for i in range(n)]
    if all(isinstance(x, int) for x in xs + ys): return 0 if xs == ys else 1
    if any(isinstance(x, T) or x is UNDEF for x in xs + ys): raise Unsupported("comparison of T bytes")
    A, B = ctx.nf(bval(ctx, xs)), ctx.nf(bval(ctx, ys))
    d = padd(A, B, -1)
    if not d: return 0
    for X, Y in ((A, B), (B, A)):
        if not ctx.nf(d, QQ) and len(X) == 1 and ctx.bounds(X)[1] < QQ and ctx.bounds(X)[0] >= 0 and not pisconst(X):
            # X is the residue of Y: equal iff Y < q
            if ctx.bounds(Y)[0] < 0: break
            e = padd(Y, pconst(-QQ)); lo, hi = ctx.bounds(e)
            return ctx.cast("zext", ctx.not1(ctx.lt0(e, lo, hi)), 1, 32)
    lo, hi = ctx.bounds(d)
    return ctx.cast("zext", ctx.not1(ctx.eq0(d, lo, hi)), 1, 32)

def elim(f, g, p):
    """numerator of p after eliminating inverses of provably nonzero polynomials; (polynomial, reason)"""
    p = f.ex(p)
    for _ in range(6):
        iv = {i: k for k, i in f.invm.items()}
        at = [i for i in patoms(p) if i in iv]
        if not at: return p, None
        i = max(at); D = dict(iv[i])
        if not g.nonzero(D): return None, "inverse of a possibly zero value"
        n = max(dict(m).get(i, 0) for m in p)
        if n > 8: return None, "high power of an inverse"
        pw = [pconst(1)]
        for _k in range(n): pw.append(f.ex(pmul(pw[-1], D)))
        r = {}
        for m, c in p.items():
            d = dict(m); e = d.pop(i, 0)
            r = padd(r, pmul({tuple(sorted(d.items())): c}, pw[n - e]))
        p = f.ex(r)
    return None, "too many inverses"

# ------------------------------------------------------------------ contracts
class Base:
    def fn(s, V):
        f = V.mod.bydem.get(s.dem)
        if not f: raise Unsupported("lost anchor " + s.dem)
        f = V.mod.fn(f[0].name)
        if len(f.params) != s.nparams: raise Unsupported("signature of " + s.dem)
        return f
    def arity(s, it, fn): return fn is None or len(it.mod.fn(fn.name).params) == s.nparams

class EncC(Base):
    dem = TE + "eddsa_like_encode"; nparams = 2
    def apply(s, V):
        def call(it, args, dem, fn):
            if not s.arity(it, fn): return NotImplemented
            r = pt.recognise(it, args[1], "e", V.layout.E)
            if r.g is None: return NotImplemented
            V.use(it, s, dem, (r.bounds,))
            for i, b in enumerate(enc_bytes(it.ctx, r.g)): it.mem.write(args[0].obj, args[0].off + i, 1, b)
            return None
        return call
    def verify(s, V, bs, flag):
        """bytes 0..55 are the canonical y-coordinate of phi(P), bit 455 is the parity of its x-coordinate, the rest is zero"""
        fn = s.fn(V)
        def setup(it):
            ctx = it.ctx; f = F(ctx); g = pt.G(ctx)
            so = Obj("out", 57); a = Obj("P", 256); ge = pt.gbase("P")
            pt.pt_fresh(it, V, Ptr(a, 0), "e", ge, bs[0]); x, y = g.aff(ge); cells = dict(a.cells)
            it.run(fn.name, [Ptr(so, 0), Ptr(a, 0)])
            out = sc.rd_bytes(it, Ptr(so, 0), 57)
            x2, y2 = pmul(x, x), pmul(y, y); u = padd(x2, y2); z = padd(y2, x2, -1); t = padd(pconst(2), z, -1)
            rng = all(isinstance(b, int) and 0 <= b < 256 or isinstance(b, Sym) and b.lo >= 0 and b.hi < 256 for b in out)
            it.oblige("%s: bytes in range" % s.dem, rng)
            v = ctx.nf(bval(ctx, out[:56])); lo, hi = ctx.bounds(v)
            it.oblige("%s: encoded y is canonical" % s.dem, lo >= 0 and hi < PP, ctx.show(v))
            k, why = elim(f, g, padd(f.pmulmod(f.ex(v), t), z, -1))
            it.oblige("%s: encoded y is the y-coordinate of phi(P)" % s.dem, k is not None and not k, why or ctx.show(k))
            b56 = ctx.nf(bval(ctx, out[56:])); ok = False
            for c in list(f.canonm.values()):
                if not ctx.nf(padd(b56, pscale(odd_poly(f, pvar(c)), 128), -1)):
                    k, why = elim(f, g, padd(f.pmulmod(f.exa(c), u), pscale(pmul(x, y), 2)))
                    if k is not None and not k: ok = True
            it.oblige("%s: bit 455 is the parity of the x-coordinate of phi(P), the other bits of byte 56 are zero" % s.dem, ok, ctx.show(b56))
            it.oblige("%s: operand not modified" % s.dem, all(a.cells.get(k) is w or a.cells.get(k) == w for k, w in cells.items()))
        return setup, None
class DecC(Base):
    dem = EP + "eddsa_like_decode"; nparams = 3
    RT = "Result<libgoldilocks::extended_point::TwistedExtendedPoint, libgoldilocks::errors::LibgoldilockErrors>"
    def apply(s, V):
        def call(it, args, dem, fn):
            if not s.arity(it, fn): return NotImplemented
            ctx = it.ctx; D = V.dwarf; rt = D.find(s.RT)
            sret, p, n = args
            n = ctx.refresh(n)
            ok = ctx.truth(ctx.icmp("eq", n, 57, 64))
            inst = V.use(it, s, dem, ())
            def err(name):
                f = D.write_enum(it, sret, rt, "Err"); o, ty = f["__0"]
                D.write_enum(it, Ptr(sret.obj, sret.off + o), ty, name)
            if not ok: err("InvalidLengthError"); return None
            bs = sc.rd_bytes(it, p, 57)
            g = dec_bytes(it, bs)
            if g is None: err("DecodeError"); return None
            f = D.write_enum(it, sret, rt, "Ok")
            pt.pt_write(it, V, Ptr(sret.obj, sret.off + f["__0"][0]), "E", g, getattr(inst, "out", None) or [[0x10ffffff] * 16] * 4)
            return None
        return call
    CASES = ["short", "long", 1, PP - 1, PP + 1, "generic"]
    def verify(s, V, bs, flag):
        """RFC 8032 5.2.3: accepts exactly the canonical encodings of curve points and returns [1/4]phihat(A)"""
        fn = s.fn(V)
        outb = [[0] * 16 for _ in range(4)]
        def setup(it):
            ctx = it.ctx; f = F(ctx); g = pt.G(ctx); D = V.dwarf; rt = D.find(s.RT)
            so = Obj("res", 512)
            k = ctx.atom("case", 0, len(s.CASES) - 1); ctx.decide(k.id, list(range(len(s.CASES))))
            case = s.CASES[ctx.atoms[k.id].const]
            def outcome(p, n):
                it.run(fn.name, [Ptr(so, 0), p, n])
                v, fl = D.read_enum(it, Ptr(so, 0), rt)
                if v == "Ok": return "Ok", fl["__0"][0]
                o, ty = fl["__0"]
                return "Err", D.read_enum(it, Ptr(so, o), ty)[0]
            def point(off):
                r = pt.recognise(it, Ptr(so, off), "E", V.layout.E)
                if r.g is not None:
                    for j in range(4): outb[j] = [max(x, r.bounds[j]) for x in outb[j]]
                return r
            if case in ("short", "long"):
                n = ctx.fresh("len", 64, 0, 56) if case == "short" else ctx.fresh("len", 64, 58, 1 << 62)
                r = outcome(Ptr(Obj("src", n, True, "msg"), 0), n)
                it.oblige("%s: length other than 57 is InvalidLengthError" % s.dem, r == ("Err", "InvalidLengthError"), str(r)); return
            o = Obj("src", 57); l = ctx.atom("sign", 0, 1); r0 = ctx.atom("rest", 0, 1)
            ctx.decide(l.id, [0, 1]); l = ctx.atoms[l.id].const
            ctx.decide(r0.id, [0, 1]); r0 = not ctx.atoms[r0.id].const
            r7 = 0 if r0 else ctx.fresh("r", 8, 1, 127)
            it.mem.write(o, 56, 1, ctx.add(r7, 128 * l, 8))
            if case == "generic": bs = [ctx.fresh("b%d" % i, 8) for i in range(56)]
            else: bs = [case >> (8 * i) & 255 for i in range(56)]
            for i, b in enumerate(bs): it.mem.write(o, i, 1, b)
            o.ro = True
            val = bval(ctx, bs)
            if case == "generic":
                Y = pvar(f.atom("Y")); f.named = {pkey(ctx.nf(val, PP)): Y}
                hk = YRing(f, Y)
                x = f.ex(pmul(pvar(hk.I), hk.z))
                q = odd_poly(f, x); b = next(iter(patoms(q)))
                ctx.decide(b, [0, 1]); b = ctx.atoms[b].const
                xA = x if b == l else f.ex(pscale(x, -1))
                x2, y2 = f.ex(pmul(xA, xA)), pmul(Y, Y)
                if hk.eps == 1:
                    g.extra.append((GE({"D": pconst(4)}), f.ex(pscale(pmul(xA, Y), -2)), f.ex(padd(y2, x2, -1)), f.ex(padd(x2, y2)), f.ex(padd(pconst(2), padd(x2, y2), -1))))
            r = outcome(Ptr(o, 0), 57)
            if case == "generic":
                if r[0] == "Ok":
                    it.oblige("%s: accepted only with bits 448..454 zero" % s.dem, r0)
                    it.oblige("%s: accepted only when y < p" % s.dem, ctx.prove_ge0(padd(pconst(PP - 1), val, -1)))
                    it.oblige("%s: accepted only when x^2 exists" % s.dem, hk.eps == 1)
                    p = point(r[1])
                    d = None if p.g is None else pt.gsame(ctx, p.g, GE({"D": pconst(1)}))
                    it.oblige("%s: the result is [1/4]phihat(A)" % s.dem, d is not None and not d, str(p.why))
                else:
                    ok = r[1] == "DecodeError" and (not r0 or hk.eps == -1 or ctx.prove_ge0(padd(val, pconst(-PP))))
                    it.oblige("%s: DecodeError only for an encoding RFC 8032 rejects" % s.dem, ok, "%s eps=%d" % (r[1], hk.eps))
            else:
                good = case < PP and r0 and l == 0
                if r[0] == "Ok":
                    p = point(r[1])
                    it.oblige("%s: y = +-1 decodes only with sign bit 0, to the identity" % s.dem, good and p.g is not None and not p.g.c, str(p.why))
                else: it.oblige("%s: y = +-1 is rejected only with a bad sign or stray bits" % s.dem, not good and r[1] == "DecodeError", r[1])
        return setup, outb

ZMEMO = {}
class YRing:
    """F_p(Y)[I] with w = (1-Y^2)(1-dY^2) nonzero and I^2 w = eps: the situation after I = isr(w)"""
    def __init__(s, f, Y):
        ctx = f.ctx; s.f = f
        s.Y = next(iter(patoms(Y)))
        y2 = pmul(Y, Y); s.z = padd(pconst(1), y2, -1); s.w = pmod(pmul(s.z, padd(pconst(1), pscale(y2, -DD))), PP)
        i = f.isr(s.w); s.I = next(iter(patoms(i)))
        a = ctx.atom("eps", 0, 1); ctx.decide(a.id, [1, 0]); s.eps = 1 if ctx.atoms[a.id].const else -1
        s.wu = [1, 0, -(1 + DD) % PP, 0, DD % PP]
        old = f.reduce
        f.reduce = lambda p: s.reduce(old(p) if old else p)
        f.zhook = s.zero
        f.exp.clear()
    def reduce(s, p):
        """I^2 Y^4 -> (eps - I^2 (1 - (1+d) Y^2)) / d"""
        iv = pow(DD, -1, PP)
        while True:
            hit = [m for m in p if dict(m).get(s.I, 0) >= 2 and dict(m).get(s.Y, 0) >= 4]
            if not hit: return p
            r = dict(p)
            for m in hit:
                c = r.pop(m, 0) * iv % PP
                if not c: continue
                d = dict(m); d[s.Y] -= 4
                def put(dd, k):
                    mm = tuple(sorted((i, e) for i, e in dd.items() if e))
                    v = (r.get(mm, 0) + k) % PP
                    if v: r[mm] = v
                    else: r.pop(mm, None)
                d2 = dict(d); d2[s.Y] += 2; put(d2, c * (1 + DD)); put(d, -c)
                d2 = dict(d); d2[s.I] -= 2; put(d2, c * s.eps)
            p = r
    def zero(s, e):
        """True / False when e is zero / nonzero for every admissible Y, None when unknown"""
        if not e: return True
        if not patoms(e) <= {s.Y, s.I}: return None
        e = {(dict(m).get(s.I, 0), dict(m).get(s.Y, 0)): c for m, c in e.items()}
        k = (s.eps, tuple(sorted(e.items())))
        if k not in ZMEMO: ZMEMO[k] = s.zero_(e)
        return ZMEMO[k]
    def zero_(s, e):
        n = max(m[0] for m in e); h = n // 2
        part = [[0], [0]]
        for (i, j), c in e.items():
            u = [0] * j + [c * s.eps ** (i // 2) % PP]
            for _ in range(h - i // 2): u = umul(u, s.wu)
            part[i & 1] = uadd(part[i & 1], u)
        A, B = part
        if not utrim(A) and not utrim(B): return True
        # A + I B = 0 implies A^2 w = eps B^2
        N = A if not utrim(B) else B if not utrim(A) else uadd(umul(umul(A, A), s.wu), [-s.eps * x % PP for x in umul(B, B)])
        for y in uroots(N):
            w = sum(c * pow(y, i, PP) for i, c in enumerate(s.wu)) % PP
            if w and pow(w, (PP - 1) // 2, PP) == s.eps % PP: return None
        return False

# univariate polynomials over F_p (coefficient lists)
def utrim(a):
    while a and a[-1] % PP == 0: a.pop()
    return a
def uadd(a, b):
    r = [0] * max(len(a), len(b))
    for i, x in enumerate(a): r[i] = x
    for i, x in enumerate(b): r[i] = (r[i] + x) % PP
    return r
def umul(a, b):
    if not a or not b: return []
    r = [0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b): r[i + j] += x * y
    return [x % PP for x in r]
def urem(a, m):
    a = list(a); iv = pow(m[-1], -1, PP); n = len(m) - 1
    for i in range(len(a) - 1, n - 1, -1):
        c = a[i] * iv % PP
        if c:
            for j in range(n): a[i - n + j] = (a[i - n + j] - c * m[j]) % PP
        a[i] = 0
    return utrim(a[:n])
def ugcd(a, b):
    a, b = utrim(list(a)), utrim(list(b))
    while b: a, b = b, urem(a, b)
    return a
def upow(a, e, m):
    r = [1]
    a = urem(a, m)
    for bit in bin(e)[2:]:
        r = urem(umul(r, r), m)
        if bit == "1": r = urem(umul(r, a), m)
    return r
def uroots(n):
    """roots in F_p"""
    n = utrim(list(n))
    if len(n) <= 1: return []
    out = []
    if n[0] % PP == 0:
        out.append(0)
        while n[0] % PP == 0: n = n[1:]
        if len(n) <= 1: return out
    g = ugcd(n, uadd(upow([0, 1], PP, n), [0, PP - 1]))
    st = [g]; k = 1
    while st:
        h = st.pop()
        if len(h) <= 1: continue
        if len(h) == 2: out.append(-h[0] * pow(h[1], -1, PP) % PP); continue
        while True:
            t = ugcd(h, uadd(upow([k, 1], (PP - 1) // 2, h), [PP - 1])); k += 1
            if 1 < len(t) < len(h): break
        st.append(t)
        # quotient
        q = []; a = list(h); iv = pow(t[-1], -1, PP)
        for i in range(len(a) - len(t), -1, -1):
            c = a[i + len(t) - 1] * iv % PP; q.append(c)
            for j in range(len(t)): a[i + j] = (a[i + j] - c * t[j]) % PP
        st.append(q[::-1])
    return out
class ModEqC(Base):
    dem = TE + "mod_equal"; nparams = 2
    def apply(s, V):
        def call(it, args, dem, fn):
            if not s.arity(it, fn): return NotImplemented
            a = pt.recognise(it, args[0], "e", V.layout.E); b = pt.recognise(it, args[1], "e", V.layout.E)
            if a.g is None or b.g is None: return NotImplemented
            V.use(it, s, dem, (a.bounds, b.bounds))
            return 1 if geq(it, pt.gadd(a.g, b.g, -1)) else 0
        return call
    def verify(s, V, bs, flag):
        """true exactly when x1*y2 = x2*y1, i.e. P - Q is the identity or T2"""
        fn = s.fn(V)
        def setup(it):
            ctx = it.ctx; f = F(ctx); g = pt.G(ctx)
            co = []; args = []
            for k, b in zip("PQ", bs):
                o = Obj(k, 256); ge = pt.gbase(k); pt.pt_fresh(it, V, Ptr(o, 0), "e", ge, b); args.append(Ptr(o, 0)); co.append(g.aff(ge))
            r = it.run(fn.name, args)
            r = ctx.truth(r if isinstance(r, int) else ctx.icmp("ne", r, 0, 1))
            (x1, y1), (x2, y2) = co
            q = feq_atom(f, padd(pmul(x1, y2), pmul(x2, y1), -1))
            q = ctx.nf(q)
            it.oblige("%s: true exactly when the points are equal modulo the 2-torsion" % s.dem, pisconst(q) and pcval(q) == int(r), "returned %s" % r)
        return setup, None
class DblC(Base):
    dem = TE + "point_double_scalamul_non_secret"; nparams = 4
    def apply(s, V):
        def call(it, args, dem, fn):
            if not s.arity(it, fn): return NotImplemented
            ctx = it.ctx
            r = pt.recognise(it, args[1], "E", V.layout.E)
            if r.g is None: return NotImplemented
            vs = [sc.word_val(ctx, sc.rd_words(it, x)) for x in args[2:4]]
            for v in vs:
                if not V.ge0(it, sc.le(v, QQ - 1)): return NotImplemented
            inst = V.use(it, s, dem, (r.bounds,), r.g.eps)
            vs = [ctx.nf(v, QQ) for v in vs]
            eps = 0
            if inst is not None and inst.ok:
                # the 2-torsion component of the result is not part of the contract
                if len(inst.eset) == 1: eps = next(iter(inst.eset))
                else:
                    e = ctx.atom("dbl.eps", 0, 1); ctx.decide(e.id, [0, 1]); eps = e.const
            g = pt.gadd(GE({"B": vs[0]}), GE({n: pmod(pmul(c, vs[1]), QQ) for n, c in r.g.c.items()}))
            g = GE(g.c, eps)
            pt.pt_write(it, V, args[0], "E", g, inst.out if inst is not None and inst.ok else [[0x10ffffff] * 16] * 4)
            return None
        return call
    def run(s, V, bs, flag):
        import wnaf
        return wnaf.run_dbl(s, V, bs, flag)
class ScEncC(Base):
    dem = SC + "encode"; nparams = 2
    def apply(s, V):
        def call(it, args, dem, fn):
            if not s.arity(it, fn): return NotImplemented
            ctx = it.ctx
            v = ctx.nf(sc.word_val(ctx, sc.rd_words(it, args[1])))
            if not (pisconst(v) or (len(v) == 1 and next(iter(v.values())) == 1)): return NotImplemented
            V.use(it, s, dem, ())
            for i, b in enumerate(sc.slices(ctx, pcval(v) if pisconst(v) else v, 8, 56, (1 << 448) - 1) + [0]): it.mem.write(args[0].obj, args[0].off + i, 1, b)
            return None
        return call
    def verify(s, V, bs, flag):
        fn = s.fn(V)
        def setup(it):
            ctx = it.ctx; so = Obj("out", 57); a = Obj("s", 56); ws = []
            for i in range(14): ws.append(ctx.fresh("s%d" % i, 32)); it.mem.write(a, 4 * i, 4, ws[-1])
            it.run(fn.name, [Ptr(so, 0), Ptr(a, 0)])
            out = sc.rd_bytes(it, Ptr(so, 0), 57)
            it.oblige("%s: bytes in range" % s.dem, all(isinstance(b, int) and 0 <= b < 256 or isinstance(b, Sym) and b.lo >= 0 and b.hi < 256 for b in out))
            d = ctx.nf(padd(bval(ctx, out), sc.word_val(ctx, ws), -1))
            it.oblige("%s: bytes are the little-endian value" % s.dem, not d, ctx.show(d))
            it.oblige("%s: byte 56 is zero" % s.dem, not ctx.nf(ctx.P(out[56])))
        return setup, None

def api_contracts():
    return {c.dem: c for c in (EncC(), DecC(), ModEqC(), DblC(), ScEncC())}

class ApiInterp(Interp):
    def memcmp(s, a, b, n): return memcmp(s, a, b, n)
