"""Byte sequences of symbolic length, and the trusted model of SHAKE256.

A sequence is a list of segments ("b", [byte values]) or ("m", name, start poly, len poly) (part of an input slice).
Objects of kind "msg" are read-only input slices; objects of kind "rope" are heap blocks of symbolic size that are
filled by appending.  Anything else the code does to them is Unsupported (undecided), never guessed.
"""
import re
from dom import *
from interp import *

def PU(ctx, v):
    v = ctx.U(v) if not isinstance(v, int) else v
    return ctx.P(v)
def same(ctx, a, b): return not ctx.nf(padd(a, b, -1))
def slen(seq):
    p = {}
    for s in seq: p = padd(p, pconst(len(s[1])) if s[0] == "b" else s[3])
    return p

def known(ctx, p):
    """concrete value of a polynomial under the assumptions, or None"""
    e = ctx.nf(p)
    if pisconst(e): return pcval(e)
    lo, hi = ctx.bounds(e)
    if lo == hi: return lo
    if sum(1 for m in e if m) == 1 and ctx.prove_ge0(padd(pconst(lo), e, -1)): return lo
    return None

def seq_of(it, p, n):
    """the n bytes at p"""
    ctx = it.ctx
    n = ctx.refresh(n) if not isinstance(n, int) else n
    if not isinstance(n, int):
        k = known(ctx, PU(ctx, n))
        if k is not None: n = k
    if isinstance(n, int) and n == 0: return []
    if isinstance(p, T): p = ctx.force(p)
    if not isinstance(p, Ptr): raise MemFault("read through non-pointer")
    o = p.obj; off = p.off
    if not isinstance(off, int):
        k = known(ctx, PU(ctx, off))
        if k is not None: off = k
    if o.kind == "msg":
        off = PU(ctx, off); ln = PU(ctx, n)
        end = padd(off, ln)
        if not ctx.prove_ge0(padd(PU(ctx, o.size), end, -1)): raise Unsupported("read beyond input slice not excluded")
        return [("m", o.name, ctx.nf(off), ctx.nf(ln))]
    if o.kind == "rope": return rope_get(it, o, PU(ctx, off), PU(ctx, n))
    if not isinstance(n, int) or not isinstance(off, int): raise Unsupported("symbolic range of a fixed object")
    out = []
    for i in range(n):
        v = it.mem.read(o, off + i, 1)
        if v is UNDEF: raise MemFault("read of undefined byte")
        out.append(v)
    return [("b", out)]

def seg_bytes(ctx, g):
    """bytes of a part of an input slice of known length, named by their offset"""
    n = known(ctx, g[3])
    if n is None or n > 64: raise Unsupported("bytes of a symbolic range")
    memo = ctx.__dict__.setdefault("msgb", {}); out = []
    for i in range(n):
        off = ctx.nf(padd(g[2], pconst(i))); k = (g[1], pkey(off))
        if k not in memo:
            v = ctx.fresh("%s[%s]" % (g[1], pcval(off) if pisconst(off) else ctx.show(off)), 8); memo[k] = v
            if isinstance(v, Sym): ctx.__dict__.setdefault("msga", {})[pkey(v.p)] = (g[1], off)
        out.append(memo[k])
    return out

def to_rope(it, o):
    """view a fixed heap block that holds a defined prefix as a symbolic block"""
    bs = []
    for i in range(o.size):
        v = it.mem.read(o, i, 1)
        if v is UNDEF: break
        bs.append(v)
    if any(x >= len(bs) for x in o.own): return False
    o.kind = "rope"; o.d = [("b", bs)] if bs else []; o.cells = {}; o.own = {}
    return True

def segs_len(ctx, s): return pconst(len(s[1])) if s[0] == "b" else s[3]
def ge(ctx, a, b):
    """a >= b on this path (both cases are followed if it is open)"""
    e = ctx.nf(padd(a, b, -1))
    if pisconst(e): return pcval(e) >= 0
    if ctx.prove_ge0(e): return True
    if ctx.prove_ge0(padd(pconst(-1), e, -1)): return False
    lo, hi = ctx.bounds(e)
    return not ctx.truth(ctx.lt0(e, lo, hi))

def cut(it, segs, pos, fork=True):
    """segments with a boundary at pos; -> (segments, index of the boundary), index None beyond the end"""
    ctx = it.ctx; st = {}
    for i, s in enumerate(segs):
        if same(ctx, st, pos): return segs, i
        L = segs_len(ctx, s); en = padd(st, L)
        if same(ctx, en, pos): return segs, i + 1
        if not fork:
            if ctx.prove_ge0(padd(pos, en, -1)): st = en; continue
            if not ctx.prove_ge0(padd(padd(en, pos, -1), pconst(-1))): return segs, None
        elif ge(ctx, pos, en): st = en; continue
        k = ctx.nf(padd(pos, st, -1))
        n = known(ctx, k)
        if n == 0: return segs, i
        if s[0] == "b":
            if n is None:
                if not fork: return segs, None
                lo, hi = ctx.bounds(k)
                if len(s[1]) > 16: raise Unsupported("open position in a symbolic block")
                n = 0
                for j in range(len(s[1]) - 1, 0, -1):
                    if ge(ctx, k, pconst(j)): n = j; break
                if n == 0: return segs, i
            if n < 0: raise MemFault("negative offset")
            return segs[:i] + [("b", list(s[1][:n])), ("b", list(s[1][n:]))] + segs[i + 1:], i + 1
        if n is not None: k = pconst(n)
        return segs[:i] + [("m", s[1], s[2], k), ("m", s[1], ctx.nf(padd(s[2], k)), ctx.nf(padd(L, k, -1)))] + segs[i + 1:], i + 1
    if same(ctx, st, pos) or ctx.prove_ge0(padd(st, pos, -1)): return segs, len(segs)
    return segs, None

def rope_get(it, o, off, ln):
    ctx = it.ctx
    if known(ctx, ln) == 0: return []
    sg, i = cut(it, o.d, off)
    if i is None: raise Unsupported("range of a symbolic block")
    sg, j = cut(it, sg[i:], ln)
    if j is None: raise Unsupported("end of a symbolic block %s in %s" % (ctx.show(ln), ctx.show(slen(o.d))))
    out = sg[:j]
    for s in out:
        if s[0] == "b" and any(x is UNDEF for x in s[1]): raise MemFault("read of undefined byte")
    return norm(ctx, out)

def rope_put(it, o, off, seq):
    """write seq at off (the block may be longer: the rest is kept)"""
    ctx = it.ctx
    L = slen(seq); end = padd(off, L)
    if known(ctx, L) == 0: return
    if not ctx.prove_ge0(padd(PU(ctx, o.size), end, -1)): raise Unsupported("write inside symbolic block not proved in bounds")
    seq = norm(ctx, seq)
    sg, i = cut(it, o.d, off)
    if i is None:
        tot = slen(o.d); g = known(ctx, padd(off, tot, -1))
        if g is None or not 0 < g <= 256: raise Unsupported("non-contiguous write in symbolic block")
        sg = sg + [("b", [UNDEF] * g)]; i = len(sg)
    head, rest = sg[:i], sg[i:]
    if rest:
        r, j = cut(it, rest, L, False)      # where the old content is not determined it counts as undefined
        rest = [] if j is None else r[j:]
    o.d = norm(ctx, head + seq + rest)

def norm(ctx, seq):
    out = []
    for s in seq:
        if s[0] == "b":
            if not s[1]: continue
            if out and out[-1][0] == "b": out[-1] = ("b", out[-1][1] + list(s[1])); continue
            out.append(("b", list(s[1])))
        else:
            if same(ctx, s[3], {}) or known(ctx, s[3]) == 0: continue
            if out and out[-1][0] == "m" and out[-1][1] == s[1] and same(ctx, padd(out[-1][2], out[-1][3]), s[2]):
                p = out[-1]; out[-1] = ("m", p[1], p[2], ctx.nf(padd(p[3], s[3]))); continue
            out.append(s)
    return out

def bkey(ctx, v):
    if isinstance(v, int): return v
    if isinstance(v, Sym):
        e = ctx.nf(v.p)
        return pcval(e) if pisconst(e) else pkey(e)
    if isinstance(v, T): raise Unsupported("T byte")
    raise Unsupported("byte %r" % (v,))
def seqkey(ctx, seq):
    """identity of a sequence: numbers of equal runs are compared through their integer value (base-256 digits are unique)"""
    out = []; ma = ctx.__dict__.get("msga")
    if ma:
        # bytes read one by one from an input slice are parts of that slice
        q = []
        for s in seq:
            if s[0] == "m": q.append(s); continue
            for v in s[1]:
                g = ma.get(pkey(v.p)) if isinstance(v, Sym) else None
                q.append(("b", [v]) if g is None else ("m", g[0], g[1], pconst(1)))
        seq = q
    for s in norm(ctx, seq):
        if s[0] == "m": out.append(("m", s[1], pkey(ctx.nf(s[2])), pkey(ctx.nf(s[3])))); continue
        for v in s[1]: out.append(bkey(ctx, v))
    return tuple(out)

# ------------------------------------------------------------------ SHAKE256
class Tok:
    """hash state: absorbed sequence, squeezed position (None while absorbing)"""
    def __init__(s, seq, pos=None): s.seq = seq; s.pos = pos
    def __repr__(s): return "Tok"

def shake_bytes(ctx, seq, a, n):
    """bytes [a, a+n) of SHAKE256(seq)"""
    memo = ctx.__dict__.setdefault("shake", {})
    k = seqkey(ctx, seq)
    if all(isinstance(x, int) for x in k):
        import hashlib
        return list(hashlib.shake_256(bytes(k)).digest(a + n)[a:])
    st = memo.setdefault(k, [])
    while len(st) < a + n: st.append(ctx.fresh("h%d" % len(memo), 8))
    return st[a:a + n]

def tok_get(it, p):
    if not isinstance(p, Ptr) or not isinstance(p.off, int): raise Unsupported("hash state pointer")
    c = p.obj.cells.get(p.off)
    if c is None or not isinstance(c[0], Tok): raise Unsupported("hash state not modelled")
    return c[0]
def tok_put(it, p, t): it.mem.write(p.obj, p.off, 1, t)

def m_default(it, args, dem, fn):
    tok_put(it, args[0], Tok([])); return None
def m_update(it, args, dem, fn):
    t = tok_get(it, args[0])
    if t.pos is not None: raise Unsupported("update after finalize")
    tok_put(it, args[0], Tok(norm(it.ctx, t.seq + seq_of(it, args[1], args[2])))); return None
def m_chain(it, args, dem, fn):
    t = tok_get(it, args[1])
    tok_put(it, args[0], Tok(norm(it.ctx, t.seq + seq_of(it, args[2], args[3])))); return None
def m_final(it, args, dem, fn):
    t = tok_get(it, args[1])
    tok_put(it, args[0], Tok(t.seq, 0)); return None
def m_read(it, args, dem, fn):
    t = tok_get(it, args[0])
    if t.pos is None: raise Unsupported("read before finalize")
    n = it.ctx.force(args[2]); d = args[1]
    bs = shake_bytes(it.ctx, t.seq, t.pos, n)
    for i, b in enumerate(bs): it.mem.write(d.obj, d.off + i, 1, b)
    tok_put(it, args[0], Tok(t.seq, t.pos + n)); return None

W = r"<digest::core_api::wrapper::CoreWrapper<sha3::Shake256Core> as "
MODELS = [(re.compile(re.escape(W) + r"core::default::Default>::default$"), m_default),
          (re.compile(re.escape(W) + r"digest::Update>::update$"), m_update),
          (re.compile(re.escape(W) + r"digest::Update>::chain"), m_chain),
          (re.compile(re.escape(W) + r"digest::ExtendableOutput>::finalize_xof$"), m_final),
          (re.compile(r"<digest::core_api::xof_reader::XofReaderCoreWrapper<sha3::Shake256ReaderCore> as digest::XofReader>::read$"), m_read)]
