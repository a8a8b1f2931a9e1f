"""Contracts for the point layer (extended_point.rs).

Internal points live on the twisted curve y^2 - x^2 = 1 + d' x^2 y^2 (d' = -39082) in the subgroup of order 2q generated by the
prime-order subgroup and T2 = (0,-1).  A group element is a linear combination of named base elements with coefficients that
are polynomials modulo q, plus eps*T2.  A memory representation (X:Y:Z:T) of an element G satisfies X = x_G Z, Y = y_G Z,
T = x_G y_G Z with Z nonzero; Niels forms (a,b,c[,z]) are treated as X = b-a, Y = b+a, Z = z (or 1), T = c/d'.

Trusted mathematics (DESIGN.md): group law of the curve, completeness (1 +- d' x1 x2 y1 y2 nonzero) on this subgroup.
"""
import re, itertools
from dom import *
from interp import *
import ir, ref
from fe import *
import sc

EP = "libgoldilocks::extended_point::"
TE = "<" + EP + "TwistedExtendedPoint>::"
TN = "<" + EP + "TwistedNiels>::"
TP = "<" + EP + "TwistedProjectedNiels>::"

# ------------------------------------------------------------------ group elements
class GE:
    __slots__ = ("c", "eps")
    def __init__(s, c, eps=0): s.c = {b: p for b, p in c.items() if p}; s.eps = eps & 1
    def __repr__(s): return "GE(%s,%d)" % ({b: (len(p), p.get(()) if pisconst(p) else "..") for b, p in s.c.items()}, s.eps)
    def key(s): return tuple(sorted((b, pkey(p)) for b, p in s.c.items()))
def gadd(a, b, k=1):
    r = dict(a.c)
    for n, p in b.c.items(): r[n] = pmod(padd(r.get(n, {}), p, k), QQ)
    return GE(r, a.eps + b.eps)
def gneg(a): return GE({n: pmod(pscale(p, -1), QQ) for n, p in a.c.items()}, a.eps)
def gscale(a, p):
    """[p]a for an integer polynomial p; eps is lost unless p is constant"""
    e = a.eps * pcval(p) if pisconst(p) else (a.eps if False else 0)
    return GE({n: pmod(pmul(c, p), QQ) for n, c in a.c.items()}, e)
def gbase(n): return GE({n: pconst(1)})
IDENT = GE({})

def sum_aff(a, b):
    """(xn, xd, yn, yd) of the sum of two affine polynomial pairs"""
    x1, y1 = a; x2, y2 = b
    d = pscale(pmul(pmul(x1, x2), pmul(y1, y2)), DT)
    return (padd(pmul(x1, y2), pmul(x2, y1)), padd(pconst(1), d), padd(pmul(y1, y2), pmul(x1, x2)), padd(pconst(1), d, -1))

_dict = None
def table_dict():
    """affine point -> (coefficient of the table base, eps) for the multiples the algorithms assume"""
    global _dict
    if _dict is None:
        _dict = {}
        pw = {}
        def put(c, p):
            _dict[p] = (c % QQ, 0)
            _dict[((-p[0]) % PP, (-p[1]) % PP)] = (c % QQ, 1)
            n = ref.tneg(p)
            _dict[n] = (-c % QQ, 0)
            _dict[((-n[0]) % PP, (-n[1]) % PP)] = (-c % QQ, 1)
        b2 = ref.tadd(ref.B4, ref.B4); p = ref.B4
        for i in range(32):
            put(2 * i + 1, p); p = ref.tadd(p, b2)
        tw = []
        p = ref.B4
        for k in range(25):
            tw.append(p)
            if k < 24:
                for _ in range(18): p = ref.tadd(p, p)
        for j in range(5):
            for t in range(16):
                c = 1 << (18 * (4 + 5 * j)); p = tw[4 + 5 * j]
                for k in range(4):
                    if t >> k & 1: c += 1 << (18 * (k + 5 * j)); p = ref.tadd(p, tw[k + 5 * j])
                    else: c -= 1 << (18 * (k + 5 * j)); p = ref.tadd(p, ref.tneg(tw[k + 5 * j]))
                put(c, p)
    return _dict

class Grp:
    def __init__(s, ctx):
        s.ctx = ctx; s.f = F(ctx)
        s.memo = {}         # canonical key -> (x atom, y atom, GE)
        s.by = {}           # atom -> key
        s.pairs = {}        # x atom -> y atom
        s.extra = []        # (GE, xn, xd, yn, yd): rational forms of further elements
        s.nz = set()        # atoms known nonzero
        s.f.reduce = s.reduce
        s.facs = []
    def aff(s, g):
        """affine polynomials of a group element"""
        if not g.c: return {}, pconst(-1 if g.eps else 1)
        k1, n = g.key(), gneg(g)
        k2 = n.key(); neg = k2 < k1
        k = k2 if neg else k1
        if k not in s.memo:
            x = s.f.atom("xG"); y = s.f.atom("yG")
            s.memo[k] = (x, y, GE((n if neg else g).c, 0)); s.by[x] = k; s.by[y] = k; s.pairs[x] = y
        x, y, _ = s.memo[k]
        x, y = pvar(x), pvar(y)
        if neg: x = pscale(x, -1)
        if g.eps: x, y = pscale(x, -1), pscale(y, -1)
        return x, y
    def reduce(s, p):
        """normal form modulo the curve equations: d' x^2 y^2 -> y^2 - x^2 - 1"""
        if not s.pairs: return p
        inv = pow(DT, -1, PP)
        for x, y in s.pairs.items():
            while True:
                hit = None
                for m in p:
                    ex = ey = 0
                    for i, e in m:
                        if i == x: ex = e
                        elif i == y: ey = e
                    if ex >= 2 and ey >= 2: hit = m; break
                if hit is None: break
                r = {}
                for m, c in p.items():
                    d = dict(m)
                    if d.get(x, 0) >= 2 and d.get(y, 0) >= 2:
                        d[x] -= 2; d[y] -= 2
                        b = tuple(sorted((i, e) for i, e in d.items() if e))
                        c = c * inv % PP
                        for mm, k in ((((y, 2),), 1), (((x, 2),), -1), ((), -1)):
                            z = mmul(b, mm); v = (r.get(z, 0) + c * k) % PP
                            if v: r[z] = v
                            else: r.pop(z, None)
                    else:
                        v = (r.get(m, 0) + c) % PP
                        if v: r[m] = v
                        else: r.pop(m, None)
                p = r
        return p
    def eq(s, a, b):
        return not s.f.ex(padd(a, b, -1))
    def common(s, z):
        """common monomial of atoms known to be nonzero"""
        com = None
        for m in z:
            d = {i: e for i, e in m if i in s.nz}
            com = d if com is None else {i: min(e, d.get(i, 0)) for i, e in com.items() if i in d}
            if not com: return ()
        return tuple(sorted((i, e) for i, e in (com or {}).items() if e))
    def strip(s, z):
        com = dict(s.common(z))
        if not com: return z
        return {tuple((i, e - com.get(i, 0)) for i, e in m if e - com.get(i, 0)): c for m, c in z.items()}
    def nonzero(s, z):
        z = s.f.ex(z)
        if pisconst(z): return bool(z)
        if len(z) == 1:
            (m, c), = z.items()
            if all(i in s.nz for i, e in m): return True
        if s.f.zhook and s.f.zhook(z) is False: return True
        for n in s.f.nonzero:
            if s.f.propto(z, s.f.ex(n)): return True
        # monomial in nonzero atoms times (1+d)^a (1-d)^b for pairs of known elements
        at = [k for k in {s.by[i] for i in patoms(z) if i in s.by}]
        gs = [s.memo[k] for k in sorted(at)]
        com = s.common(z)
        for g1 in gs:
            for g2 in gs:
                _, xd, _, yd = sum_aff((pvar(g1[0]), pvar(g1[1])), (pvar(g2[0]), pvar(g2[1])))
                for a, b in ((1, 1), (1, 0), (0, 1), (2, 2), (2, 1), (1, 2), (2, 0), (0, 2)):
                    t = {com: 1}
                    for _ in range(a): t = s.f.ex(pmul(t, xd))
                    for _ in range(b): t = s.f.ex(pmul(t, yd))
                    if s.f.propto(z, t): return True
        # with a factor x^2 + y^2, nonzero because -1 is not a square and (0,0) is not on the curve
        for g1 in gs:
            x, y = pvar(g1[0]), pvar(g1[1])
            _, xd, _, yd = sum_aff((x, y), (x, y)); u = padd(pmul(x, x), pmul(y, y))
            for n in (1, 2):
                for a, b in ((0, 0), (0, 1), (1, 0), (1, 1)):
                    t = {com: 1}
                    for _ in range(n): t = s.f.ex(pmul(t, u))
                    for _ in range(a): t = s.f.ex(pmul(t, xd))
                    for _ in range(b): t = s.f.ex(pmul(t, yd))
                    if s.f.propto(z, t): return True
        return False
    def recog(s, X, Y, Z, T=None):
        """group element represented by (X:Y:Z[:T]) or (None, reason)"""
        f = s.f
        X, Y, Z = f.ex(X), f.ex(Y), f.ex(Z)
        if T is not None: T = f.ex(T)
        if not s.nonzero(Z): return None, "Z is not known to be nonzero"
        if T is not None and not s.eq(f.pmulmod(T, Z), f.pmulmod(X, Y)): return None, "T*Z differs from X*Y"
        if pisconst(X) and pisconst(Y) and pisconst(Z):
            z = pow(pcval(Z), -1, PP)
            x, y = pcval(X) * z % PP, pcval(Y) * z % PP
            if x == 0 and y in (1, PP - 1): return GE({}, 0 if y == 1 else 1), None
            d = table_dict().get((x, y))
            if d is not None: return GE({"B": pconst(d[0])}, d[1]), None
            if (y * y - x * x - 1 - DT * x * x % PP * y * y) % PP: return None, "constant is not on the curve"
            t = s.order2q(x, y)
            if t is None: return None, "constant point is not in the subgroup"
            nm = "K%x" % (min(t[0], PP - t[0]) % (1 << 64))
            sg = 1 if t[0] <= PP - t[0] else -1
            return GE({nm: pconst(sg)}, t[1]), None
        if not X:
            if s.eq(Y, Z): return GE({}, 0), None
            if s.eq(Y, pscale(Z, -1)): return GE({}, 1), None
        ks = sorted({s.by[i] for i in (patoms(X) | patoms(Y)) if i in s.by})
        for k in ks:
            x, y, g = s.memo[k]
            x, y = pvar(x), pvar(y)
            xz, yz = f.pmulmod(x, Z), f.pmulmod(y, Z)
            for eps in (0, 1):
                if s.eq(Y, pscale(yz, 1 - 2 * eps)):
                    for sg in (1, -1):
                        if s.eq(X, pscale(xz, sg * (1 - 2 * eps))):
                            return GE((g if sg == 1 else gneg(g)).c, eps), None
        for g, xn, xd, yn, yd in s.extra:
            for eps in (0, 1):
                if s.eq(f.pmulmod(X, xd), pscale(f.pmulmod(Z, xn), 1 - 2 * eps)) and s.eq(f.pmulmod(Y, yd), pscale(f.pmulmod(Z, yn), 1 - 2 * eps)):
                    return GE(g.c, g.eps + eps), None
        if len(ks) <= 3:
            for k1, k2 in itertools.combinations_with_replacement(ks, 2):
                a = s.memo[k1]; b = s.memo[k2]
                for s1 in (1, -1):
                    for s2 in (1, -1):
                        if k1 == k2 and s1 != s2: continue
                        xn, xd, yn, yd = sum_aff((pscale(pvar(a[0]), s1), pvar(a[1])), (pscale(pvar(b[0]), s2), pvar(b[1])))
                        for eps in (0, 1):
                            if s.eq(f.pmulmod(X, xd), pscale(f.pmulmod(Z, xn), 1 - 2 * eps)) and s.eq(f.pmulmod(Y, yd), pscale(f.pmulmod(Z, yn), 1 - 2 * eps)):
                                return GE(gadd(a[2] if s1 == 1 else gneg(a[2]), b[2] if s2 == 1 else gneg(b[2])).c, eps), None
        return None, "coordinates do not represent a known group element"
    def order2q(s, x, y):
        p = ref.tmul(QQ - 1, (x, y))
        q = ref.tadd(p, (x, y))
        if q == (0, 1): return x, 0
        if q == (0, PP - 1): return (-x) % PP, 1
        return None
    def out(s, g, bounds, withT=True):
        """coordinate polynomials of a fresh representation of g"""
        z = s.f.atom("Z"); s.nz.add(z)
        x, y = s.aff(g)
        zp = pvar(z)
        r = [pmul(x, zp), pmul(y, zp), zp, pmul(pmul(x, y), zp) if withT else pvar(s.f.atom("tjunk"))]
        return r

def G(ctx):
    g = getattr(ctx, "G", None)
    if g is None: g = ctx.G = Grp(ctx)
    return g

def interp_modq(ctx, at, tab):
    """polynomial modulo q over the atoms at with the given table of residues"""
    doms = [list(ctx.dom(i)) for i in at]
    k0 = tuple(d[0] for d in doms)
    v0 = tab[k0]
    p = pconst(v0); st = []
    for j, d in enumerate(doms):
        if len(d) > 1:
            k = k0[:j] + (d[1],) + k0[j + 1:]
            st.append((tab[k] - v0) % QQ)
        else: st.append(0)
    if all((v0 + sum(a * (x - y) for a, x, y in zip(st, k, k0)) - v) % QQ == 0 for k, v in tab.items()):
        for j, i in enumerate(at):
            if st[j]: p = padd(p, pscale(padd(pvar(i), pconst(-k0[j])), sym(st[j])))
        return pmod(p, QQ)
    if all(len(d) <= 2 for d in doms):
        c = dict(tab); n = len(at)
        for j in range(n):
            if len(doms[j]) < 2: continue
            for k in list(c):
                if k[j] == doms[j][1]:
                    kk = k[:j] + (doms[j][0],) + k[j + 1:]
                    c[k] = (c[k] - c[kk]) % QQ
        p = {}
        for k, v in c.items():
            if v:
                q = pconst(v)
                for j in range(n):
                    if len(doms[j]) == 2 and k[j] == doms[j][1]: q = pmul(q, padd(pvar(at[j]), pconst(-doms[j][0])))
                p = padd(p, q)
        return pmod(p, QQ)
    # any finite function: multilinear in the binary digits of the atoms
    bits = []; sl = []
    for j, i in enumerate(at):
        d = doms[j]
        if d[0] < 0: break
        rest = (pvar(i), d[0], d[-1]); n = max(1, d[-1].bit_length())
        for b in range(n):
            if b == n - 1: bits.append(rest[0]); sl.append((j, b)); continue
            q, r = ctx.split(rest[0], 1, rest[1], rest[2])
            bits.append(r[0]); sl.append((j, b)); rest = q
    else:
        n = len(bits)
        if n <= 10:
            full = {}
            for k, v in tab.items(): full[tuple(k[j] >> b & 1 for j, b in sl)] = v
            p = {}
            co = {}
            # Moebius from low to high; unreachable corners get coefficient zero
            for k in sorted(itertools.product((0, 1), repeat=n), key=sum):
                one = [j for j in range(n) if k[j]]
                acc = 0
                for r_ in range(len(one)):
                    for sub in itertools.combinations(one, r_):
                        acc += co.get(sub, 0)
                if k in full:
                    c = (full[k] - acc) % QQ
                    if c: co[tuple(one)] = sym(c)
            for one, c in co.items():
                q = pconst(c)
                for j in one: q = pmul(q, bits[j])
                p = padd(p, q)
            return pmod(p, QQ)
    # an opaque coefficient
    a = ctx.atom("coef", 0, QQ - 1, "in")
    return pvar(a.id)

def sym(v): return v if v < QQ // 2 else v - QQ

# ------------------------------------------------------------------ memory layout
class Layout:
    def __init__(s, mod):
        s.off = {"TwistedExtendedPoint": {}, "TwistedNiels": {}, "TwistedProjectedNiels": {}, "SmvtControl": {}}
        ids = {}
        for l in mod.meta:
            m = re.match(r'(!\d+) = (?:distinct )?!DICompositeType\(tag: DW_TAG_structure_type, name: "(\w+)"', l)
            if m and m.group(2) in s.off: ids[m.group(1)] = m.group(2)
        for l in mod.meta:
            m = re.match(r'!\d+ = !DIDerivedType\(tag: DW_TAG_member, name: "(\w+)", scope: (!\d+),', l)
            if m and m.group(2) in ids:
                o = re.search(r"offset: (\d+)", l)
                s.off[ids[m.group(2)]][m.group(1)] = int(o.group(1)) // 8 if o else 0
        try:
            e = s.off["TwistedExtendedPoint"]; s.E = [e["x"], e["y"], e["z"], e["t"]]
            n = s.off["TwistedNiels"]; s.N = [n["a"], n["b"], n["c"]]
            q = s.off["TwistedProjectedNiels"]; s.Q = [q["n"] + n["a"], q["n"] + n["b"], q["n"] + n["c"], q["z"]]
        except KeyError as x: raise Unsupported("layout of " + str(x))

def offs(L, kind): return {"E": L.E, "N": L.N, "Q": L.Q}[kind[0]]

def rd_point(it, ptr, o):
    """coordinate limb lists"""
    ctx = it.ctx
    if isinstance(ptr, T): ptr = ctx.refresh(ptr)
    out = []
    for k in o: out.append(fe_read(it, it.padd(ptr, k)))
    return out

def to_ext(vals, kind):
    """(X,Y,Z,T) of coordinate polynomials of the given kind"""
    if kind == "E": return vals
    if kind == "e": return vals[:3] + [None]
    a, b, c = vals[:3]
    z = vals[3] if kind == "Q" else pconst(1)
    return [padd(b, a, -1), padd(b, a), z, pscale(c, pow(DT, -1, PP))]

class Rec:
    """result of recognising one argument"""
    __slots__ = ("g", "bounds", "why")

def atom_value(ctx, i, env):
    """value of an atom determined by the assignment env, or None"""
    if i in env: return env[i]
    a = ctx.atoms[i]
    if a.const is not None: return a.const
    if a.kind == "q": p, k = a.d
    elif i in ctx.alias: p, k = ctx.alias[i], 0
    else: return None
    r = 0
    for m, c in p.items():
        for j, e in m:
            v = atom_value(ctx, j, env)
            if v is None: return None
            c *= v ** e
        r += c
    return r >> k
def independent(ctx, at):
    """(independent atoms, atoms determined by them)"""
    at = sorted(set(at)); ind = list(at); det = []
    for i in reversed(at):
        rest = {j: 0 for j in ind if j != i}
        if atom_value(ctx, i, rest) is not None: ind.remove(i); det.append(i)
    return ind, det[::-1]
def det_values(ctx, det, env):
    for i in det:
        v = atom_value(ctx, i, env)
        if v < ctx.atoms[i].lo or v > ctx.atoms[i].hi: return False
        env[i] = v
    return True

def recognise(it, ptr, kind, o):
    """group element at ptr (over all T cases), limb bounds per coordinate"""
    ctx = it.ctx; f = F(ctx); g = G(ctx)
    r = Rec(); r.why = None; r.g = None
    try: lim = rd_point(it, ptr, o if kind != "e" else o[:3])
    except MemFault as e:
        r.why = str(e); return r
    n = len(lim)
    at = []
    for l in lim:
        for v in l:
            if isinstance(v, T):
                for i in v.at:
                    if i not in at and ctx.atoms[i].const is None: at.append(i)
            elif isinstance(v, Sym):
                for i in patoms(v.p):
                    x = ctx.atoms[i]
                    if i not in at and x.const is None and x.kind not in ("field", "limb") and x.hi - x.lo < 32: at.append(i)
    at.sort()
    bounds = [0] * n
    tab = {}
    N = 1
    for i in at: N *= ctx.atoms[i].hi - ctx.atoms[i].lo + 1
    if N > 256: raise Unsupported("point over too large a domain")
    fixed = [None if has_T(l) else None for l in lim]
    cases = {}
    extra = []
    at0 = at; at, det = independent(ctx, at)
    for k in itertools.product(*[ctx.dom(i) for i in at]):
        env = dict(zip(at, k))
        if not det_values(ctx, det, env): continue
        vals = []
        for j, l in enumerate(lim):
            if at:
                e2 = dict(env)
                for v in l:
                    if isinstance(v, T):
                        for i in v.at:
                            if ctx.atoms[i].const is not None: e2[i] = ctx.atoms[i].const
                ll = [ctx.U(ctx.vsubst(v, e2)) for v in l]
            else: ll = [ctx.U(ctx.refresh(v)) for v in l]
            b = max(v if isinstance(v, int) else v.hi for v in ll)
            bounds[j] = max(bounds[j], b)
            vals.append(f.ex(f.val(ll)))
        cases[k] = vals
        for v in vals:
            for i in patoms(v):
                a = ctx.atoms[i]
                if a.kind != "field" and a.const is None and i not in at and i not in extra:
                    if a.hi - a.lo > 31: r.why = "coordinate depends on a wide value"; return r
                    extra.append(i)
    x2, det = independent(ctx, at + extra)
    extra = [i for i in extra if i in x2]
    det = [i for i in det if i not in at]
    for i in extra: N *= ctx.atoms[i].hi - ctx.atoms[i].lo + 1
    if N > 256: raise Unsupported("point over too large a domain")
    for k, vals in cases.items():
        for k2 in itertools.product(*[ctx.dom(i) for i in extra]):
            env = dict(zip(at, k)); env.update(zip(extra, k2))
            if not det_values(ctx, det, env): continue
            vs = [pmod(ctx.psubst(v, env), PP) for v in vals] if env else vals
            X, Y, Z, Tt = to_ext(vs, kind)
            ge, why = g.recog(X, Y, Z, Tt)
            if ge is None:
                r.why = why + (" (case %s)" % (env,) if env else ""); return r
            tab[k + k2] = ge
    at = at + extra
    r.bounds = tuple(grid(b) for b in bounds)
    if not at: r.g = tab[()]; return r
    bases = sorted({b for ge in tab.values() for b in ge.c})
    eps = {ge.eps for ge in tab.values()}
    if len(eps) > 1: raise Unsupported("torsion component varies")
    c = {}
    for b in bases:
        t = {}
        for k, ge in tab.items():
            p = ge.c.get(b, {})
            if not pisconst(p): raise Unsupported("nested symbolic coefficient")
            t[k] = pcval(p) % QQ
        c[b] = interp_modq(ctx, at, t)
    r.g = GE(c, eps.pop())
    return r

# ------------------------------------------------------------------ contracts
class PtC:
    """args: list of kinds per IR parameter: 'E' ext in (with T), 'e' ext in (T not needed), 'M' ext in/out, 'm' in/out T not needed,
    'N','Q' niels/projected niels in, 'b' bool flag before_double; out: 'E','Q' via sret, or None (in/out).
    spec(gs) -> GE"""
    def __init__(s, dem, args, out, spec):
        s.dem = dem; s.args = args; s.out = out; s.spec = spec
        s.nparams = len(args) + (1 if out else 0)
    def apply(s, V):
        def call(it, args, dem, fn):
            if fn is not None and len(it.mod.fn(fn.name).params) != s.nparams: return NotImplemented
            ctx = it.ctx; L = V.layout
            a = list(args); sret = a.pop(0) if s.out else None
            gs = []; bs = []; flag = 0; dst = None
            for k, x in zip(s.args, a):
                if k == "b": flag = ctx.force(x) & 1; continue
                kk = {"M": "E", "m": "e"}.get(k, k)
                if k in "Mm":
                    if isinstance(x, T): x = ctx.force(x)
                    dst = x
                r = recognise(it, x, kk, offs(L, "E" if kk in "Ee" else kk))
                if r.g is None:
                    if V.debug: print("UNREC", dem, k, r.why, it.where())
                    it.ghost.setdefault("unrec", []).append((dem, r.why))
                    return NotImplemented
                gs.append(r.g); bs.append(r.bounds)
                if k == "m":
                    # the bound of the stale T coordinate is irrelevant
                    pass
            inst = V.pt_inst(s, tuple(bs), flag)
            it.used[dem] = it.used.get(dem, 0) + 1
            if not inst.ok: V.bad_use(it, inst, dem)
            g = s.spec(gs)
            kind = s.out or "E"
            pt_write(it, V, sret if s.out else dst, kind, g, inst.out, not flag)
            return None
        return call
    def verify(s, V, bs, flag):
        fns = V.mod.bydem.get(s.dem)
        if not fns: raise Unsupported("lost anchor " + s.dem)
        fn = V.mod.fn(fns[0].name)
        if len(fn.params) != s.nparams: raise Unsupported("signature of " + s.dem)
        kind = s.out or "E"
        L = V.layout
        outb = [[0] * 16 for _ in offs(L, kind)]
        def setup(it):
            ctx = it.ctx; f = F(ctx); g = G(ctx)
            args = []; gs = []; dst = None; bb = list(bs); keep = []
            if s.out: so = Obj("out", 256); args.append(Ptr(so, 0)); dst = so
            n = 0
            for k in s.args:
                if k == "b": args.append(flag); continue
                ge = gbase("PQR"[n]); n += 1
                kk = {"M": "E", "m": "e"}.get(k, k)
                b = bb.pop(0); o = Obj("arg", 256)
                pt_fresh(it, V, Ptr(o, 0), kk, ge, b)
                gs.append(ge); args.append(Ptr(o, 0))
                if k in "Mm": dst = o
                else: keep.append((o, dict(o.cells)))
            it.run(fn.name, args)
            lim = rd_point(it, Ptr(dst, 0), offs(L, kind))
            vals = []
            for j, l in enumerate(lim):
                ll = [ctx.U(v) for v in l]
                for i, v in enumerate(ll): outb[j][i] = max(outb[j][i], v if isinstance(v, int) else v.hi)
                vals.append(f.val(ll))
            kk = "e" if (kind == "E" and flag) else kind
            X, Y, Z, Tt = to_ext(vals, kk)
            r, why = g.recog(X, Y, Z, Tt)
            want = s.spec(gs)
            ok = r is not None and not gsame(ctx, r, want)
            it.oblige("%s: result represents the specified group element" % s.dem, ok, "" if ok else str(why or r))
            for o, cells in keep:
                same = all(o.cells.get(k) is v or o.cells.get(k) == v for k, v in cells.items())
                if not same: it.oblige("%s: operand not modified" % s.dem, False)
        return setup, outb

def gsame(ctx, a, b, eps=False):
    """difference of two elements: empty dict when equal (up to T2)"""
    d = {}
    for n in set(a.c) | set(b.c):
        p = ctx.nf(padd(a.c.get(n, {}), b.c.get(n, {}), -1), QQ)
        if p: d[n] = p
    return d

def pt_fresh(it, V, ptr, kind, ge, bounds):
    """a fresh representation of ge written at ptr with the given per-coordinate limb bounds"""
    ctx = it.ctx; g = G(ctx)
    L = V.layout
    x, y = g.aff(ge)
    z = g.f.atom("Z"); g.nz.add(z); zp = pvar(z)
    if kind in "Ee":
        co = [pmul(x, zp), pmul(y, zp), zp, pmul(pmul(x, y), zp) if kind == "E" else pvar(g.f.atom("stale"))]
        o = L.E; bounds = list(bounds) + [0xffffffff] * (4 - len(bounds))
    else:
        h = pow(2, -1, PP)
        lam = pscale(zp, h) if kind == "Q" else pconst(h)
        co = [pmul(lam, padd(y, x, -1)), pmul(lam, padd(y, x)), pscale(pmul(lam, pmul(x, y)), 2 * DT)]
        if kind == "Q": co.append(zp)
        o = offs(L, kind)
    for c, off, b in zip(co, o, bounds):
        fe_write(it, Ptr(ptr.obj, ptr.off + off), fe_limbs(ctx, pmod(c, PP), b if isinstance(b, list) else [b] * 16))

def pt_write(it, V, ptr, kind, ge, bounds, withT=True):
    if isinstance(ptr, T): ptr = it.ctx.force(ptr)
    pt_fresh(it, V, ptr, kind if not (kind == "E" and not withT) else "e", ge, bounds)

def pt_contracts():
    L = []
    def C(*a): L.append(PtC(*a))
    C(TE + "double_internal", "mb", None, lambda g: gadd(g[0], g[0]))
    C(TE + "add_niels_to_extended", "MNb", None, lambda g: gadd(g[0], g[1]))
    C(TE + "sub_niels_from_extended_point", "MNb", None, lambda g: gadd(g[0], g[1], -1))
    C(TE + "add_projected_niels_to_extended", "MQb", None, lambda g: gadd(g[0], g[1]))
    C(TE + "sub_projected_niels_from_extended_point", "MQb", None, lambda g: gadd(g[0], g[1], -1))
    C(TE + "to_projected_niels", "E", "Q", lambda g: g[0])
    C(TN + "to_extended", "N", "E", lambda g: g[0])
    C(TP + "to_extended_point", "Q", "E", lambda g: g[0])
    return {c.dem: c for c in L}
