"""Symbolic domain: integer polynomials over bounded atoms, exact machine arithmetic modulo 2^w.

A value is a python int (concrete), a Sym (polynomial, congruent to the machine value modulo 2^w, with an
integer interval for the polynomial), a T (finite function of a few small-domain atoms), a Ptr, or UNDEF.

Truncations and shifts split v = 2^k*q + r; q is a fresh atom "floor(v/2^k)" (memoised), r is an alias atom.
Everything is exact: no approximation is made by the domain itself.
"""
from fractions import Fraction

class Unsupported(Exception):
    """the engine cannot interpret something: undecided (never a violation by itself)"""

STATS = {"z3_queries": 0, "z3_seconds": 0.0, "polynomial_identities": 0, "interval": 0}

class NeedFork(Exception):
    def __init__(s, atom, values, name=""): s.atom = atom; s.values = values; s.name = name

class Infeasible(Exception):
    """the current path contradicts its own assumptions"""

UNDEF = type("Undef", (), {"__repr__": lambda s: "UNDEF"})()

# ------------------------------------------------------------------ polynomials
_mm = {}
def mmul(a, b):
    if not a: return b
    if not b: return a
    r = _mm.get((a, b))
    if r is None:
        d = dict(a)
        for i, e in b: d[i] = d.get(i, 0) + e
        r = tuple(sorted(d.items()))
        if len(_mm) > 400000: _mm.clear()
        _mm[(a, b)] = r
    return r

def pconst(c): return {(): c} if c else {}
def pvar(i): return {((i, 1),): 1}
def padd(a, b, k=1):
    if len(a) < len(b) and k == 1: a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c * k
        if v: r[m] = v
        else: r.pop(m, None)
    return r
def pscale(a, k):
    if k == 0: return {}
    return {m: c * k for m, c in a.items()}
def pmul(a, b):
    if len(a) == 1 and () in a: return pscale(b, a[()])
    if len(b) == 1 and () in b: return pscale(a, b[()])
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v: r[m] = v
            else: r.pop(m, None)
    return r
def pmod(a, M):
    r = {}
    for m, c in a.items():
        c %= M
        if c: r[m] = c
    return r
def pisconst(a): return not a or (len(a) == 1 and () in a)
def pcval(a): return a.get((), 0)
def pkey(a): return tuple(sorted(a.items()))
def patoms(a):
    s = set()
    for m in a:
        for i, e in m: s.add(i)
    return s
def v2(c):
    return (c & -c).bit_length() - 1

class Sym:
    __slots__ = ("p", "w", "lo", "hi")
    def __init__(s, p, w, lo, hi): s.p = p; s.w = w; s.lo = lo; s.hi = hi
    def __repr__(s): return "Sym<%d>[%d,%d]%d terms" % (s.w, s.lo, s.hi, len(s.p))

class T:
    """finite function: tab maps tuples of atom values (in order of .at) to values"""
    __slots__ = ("at", "tab", "w")
    def __init__(s, at, tab, w): s.at = at; s.tab = tab; s.w = w
    def __repr__(s): return "T%s%s" % (s.at, s.w)

class Ptr:
    __slots__ = ("obj", "off")
    def __init__(s, obj, off): s.obj = obj; s.off = off
    def __repr__(s): return "Ptr(%s+%s)" % (s.obj, s.off)
    def __eq__(s, o): return isinstance(o, Ptr) and s.obj is o.obj and s.off == o.off
    def __hash__(s): return hash((id(s.obj), s.off if isinstance(s.off, int) else 0))

TDOM = 128

class Atom:
    __slots__ = ("id", "name", "lo", "hi", "kind", "d", "const")
    def __init__(s, id, name, lo, hi, kind, d):
        s.id = id; s.name = name; s.lo = lo; s.hi = hi; s.kind = kind; s.d = d; s.const = None

def zcheck(sol):
    import time
    t = time.time(); r = sol.check()
    STATS["z3_queries"] += 1; STATS["z3_seconds"] += time.time() - t
    return r

class Ctx:
    def __init__(s, decisions=()):
        s.atoms = []
        s.decisions = list(decisions)       # values chosen at successive forks (replayed)
        s.dk = 0
        s.qmemo = {}; s.rmemo = {}; s.eqmemo = {}; s.ormemo = {}
        s.alias = {}                        # r atom id -> poly
        s.rel = {}                          # q atom id -> (poly l, const c, k): 2^k q = l - c
        s.facts = []                        # polys known >= 0
        s.neq = []
        s.pmdefs = {}                       # modulus -> {atom id: poly}   (definitions valid only modulo)
        s.trace = []                        # decisions made (atom, value)
        s.fork_limit = 64
        s.bmemo = {}
        s.on_assume = {}
        s.prune = True
        s.zeros = []
        s.lenatoms = set(); s.lendec = 0    # lengths of input slices, decisions on them
    # -------------------------------------------------------------- atoms
    def atom(s, name, lo, hi, kind="in", d=None):
        i = len(s.atoms)
        a = Atom(i, name, lo, hi, kind, d)
        s.atoms.append(a)
        if lo == hi: a.const = lo
        return a
    def decide(s, i, values):
        """fork on the value of atom i: replays a recorded decision or raises NeedFork"""
        if s.dk >= len(s.decisions): raise NeedFork(i, list(values), s.atoms[i].name)
        v = s.decisions[s.dk]; s.dk += 1
        if s.lenatoms:
            a = s.atoms[i]; u = a.d if a.kind == "eq0" else a.d[0] if a.kind == "q" else pvar(i)
            if patoms(u) & s.lenatoms:
                s.lendec += 1
                if s.lendec > 24: raise Unsupported("loop over an input of unbounded length")
        s.assume(i, v)
    def assume(s, i, v):
        a = s.atoms[i]
        lo, hi = v if isinstance(v, tuple) else (v, v)
        if hi < a.lo or lo > a.hi: raise Infeasible()
        a.lo = max(a.lo, lo); a.hi = min(a.hi, hi)
        s.bmemo.clear()
        s.trace.append((i, a.name, v))
        if a.kind == "q":
            u, k = a.d
            s.facts.append(padd(u, pconst(-(a.lo << k))))
            s.facts.append(padd(pconst(((a.hi + 1) << k) - 1), u, -1))
            c0 = u.get((), 0); v = {m: c for m, c in u.items() if m}
            if len(v) == 1:
                (m, c), = v.items()
                if c == 1 and len(m) == 1 and m[0][1] == 1 and s.atoms[m[0][0]].kind == "or":
                    if ((a.hi + 1) << k) - 1 - c0 <= 0: s.on_zero(v)
                    if (a.lo << k) - c0 >= 1:
                        t = pconst(-1)
                        for x in s.atoms[m[0][0]].d: t = padd(t, x)
                        s.facts.append(t)
        elif i in s.alias:
            p = s.alias[i]
            s.facts.append(padd(p, pconst(-a.lo))); s.facts.append(padd(pconst(a.hi), p, -1))
        if a.lo == a.hi:
            a.const = a.lo
            if a.kind == "r":
                rd = a.d
                if len(rd[2]) == 1:
                    (m, c), = rd[2].items()
                    if c == 1 and len(m) == 1 and m[0][1] == 1: s.rel.setdefault(m[0][0], (rd[0], a.const, rd[1]))
            if i not in s.alias: s.alias[i] = pconst(a.const)
            elif a.kind != "r": s.alias[i] = pconst(a.const)
            if a.kind == "eq0": s.eq0_known(a)
            if a.kind in s.on_assume: s.on_assume[a.kind](a)
        for f in s.facts:
            if s.bounds(f)[1] < 0: raise Infeasible()
        if s.prune and not s.feasible(): raise Infeasible()
    def eq0_known(s, a):
        p = a.d
        if a.const == 1:
            s.facts.append(p); s.facts.append(pscale(p, -1))
            s.on_zero(p)
            v = [m for m in p if m]
            if len(v) == 1 and len(v[0]) == 1 and v[0][0][1] == 1 and p.get((), 0) % p[v[0]] == 0:
                i = v[0][0][0]; b = s.atoms[i]; x = -p.get((), 0) // p[v[0]]
                if b.kind == "in" and b.const is None and i not in s.alias:
                    if not b.lo <= x <= b.hi: raise Infeasible()
                    b.lo = b.hi = b.const = x; s.alias[i] = pconst(x); s.bmemo.clear()
            return
        s.neq.append(p)
        if len(p) == 1:
            (m, c), = p.items()
            if len(m) == 1 and s.atoms[m[0][0]].kind == "or" and m[0][1] == 1:
                t = pconst(-1)
                for x in s.atoms[m[0][0]].d: t = padd(t, x)
                s.facts.append(t)
        v = [m for m in p if m]
        if len(v) == 1 and len(v[0]) == 1 and v[0][0][1] == 1 and p.get((), 0) % p[v[0]] == 0:
            b = s.atoms[v[0][0][0]]; x = -p.get((), 0) // p[v[0]]
            if b.kind == "in" and b.const is None and b.id not in s.alias:
                if x == b.lo and b.lo + 1 < b.hi: b.lo += 1; s.bmemo.clear()
                elif x == b.hi and b.lo + 1 < b.hi: b.hi -= 1; s.bmemo.clear()
        lo, hi = s.bounds(p)
        if lo == 0: s.facts.append(padd(p, pconst(-1)))
        if hi == 0: s.facts.append(padd(pscale(p, -1), pconst(-1)))
    def apoly(s, a):
        return pconst(a.const) if a.const is not None else pvar(a.id)
    def fresh(s, name, w, lo=0, hi=None):
        if hi is None: hi = (1 << w) - 1
        a = s.atom(name, lo, hi)
        if a.const is not None: return a.const & ((1 << w) - 1)
        return Sym(pvar(a.id), w, a.lo, a.hi)
    # -------------------------------------------------------------- intervals
    def mbound(s, m):
        lo, hi = 1, 1
        for i, e in m:
            a = s.atoms[i]
            al, ah = a.lo, a.hi
            if e > 1:
                if al >= 0: al, ah = al ** e, ah ** e
                else:
                    v = [al ** e, ah ** e] + ([0] if ah >= 0 else [])
                    al, ah = min(v), max(v)
            if lo >= 0 and al >= 0: lo, hi = lo * al, hi * ah
            else:
                c = (lo * al, lo * ah, hi * al, hi * ah)
                lo, hi = min(c), max(c)
        return lo, hi
    def bounds(s, p):
        lo = hi = 0
        bm = s.bmemo
        for m, c in p.items():
            if not m: lo += c; hi += c; continue
            b = bm.get(m)
            if b is None:
                b = s.mbound(m)
                if len(m) > 1: bm[m] = b
            if c > 0: lo += c * b[0]; hi += c * b[1]
            else: lo += c * b[1]; hi += c * b[0]
        return lo, hi
    def mk(s, p, w, lo=None, hi=None):
        if pisconst(p): return pcval(p) & ((1 << w) - 1)
        l, h = s.bounds(p)
        if lo is not None and lo > l: l = lo
        if hi is not None and hi < h: h = hi
        if l == h: return l & ((1 << w) - 1)
        return Sym(p, w, l, h)
    def tosym(s, v, w):
        if isinstance(v, int): return Sym(pconst(v), w, v, v)
        return v
    def P(s, v):
        return pconst(v) if isinstance(v, int) else v.p
    # -------------------------------------------------------------- T helpers
    def dom(s, i):
        a = s.atoms[i]
        return range(a.lo, a.hi + 1)
    def tmake(s, at, fn, w):
        import itertools
        tab = {}
        n = 1
        for i in at: n *= s.atoms[i].hi - s.atoms[i].lo + 1
        if n > TDOM * 8: raise Unsupported("finite domain too large")
        for k in itertools.product(*[s.dom(i) for i in at]):
            tab[k] = fn(dict(zip(at, k)))
        return s.tnorm(T(tuple(at), tab, w))
    def tnorm(s, t):
        vals = list(t.tab.values())
        v0 = vals[0]
        if not isinstance(v0, (Sym, T)) and all((not isinstance(v, (Sym, T))) and v == v0 for v in vals): return v0
        if isinstance(v0, Sym) and all(isinstance(v, Sym) and v.p == v0.p for v in vals): return v0
        if all(isinstance(v, int) for v in vals) and t.w:
            # signed-aware affine / multilinear recognition
            p = s.t2poly(t)
            if p is not None:
                # bounds are the exact value range
                return s.mk_exact(p, t.w, t)
        return t
    def mk_exact(s, p, w, t):
        if pisconst(p): return pcval(p) & ((1 << w) - 1)
        l, h = s.bounds(p)
        vs = []
        for k, v in t.tab.items():
            vs.append(s.peval(p, dict(zip(t.at, k))))
        return Sym(p, w, min(vs), max(vs))
    def t2poly(s, t):
        """exact polynomial of an int table: affine in one atom, or multilinear in booleans; else None"""
        M = 1 << t.w
        def sg(v): return v - M if v >= M - 4096 and M > 4096 else v
        if len(t.at) == 1:
            i = t.at[0]; d = list(s.dom(i))
            if len(d) == 1: return pconst(t.tab[(d[0],)])
            v0 = sg(t.tab[(d[0],)]); st = sg(t.tab[(d[1],)]) - v0
            for n, x in enumerate(d):
                if sg(t.tab[(x,)]) != v0 + st * n: return None
            return padd(pscale(pvar(i), st), pconst(v0 - st * d[0]))
        if all(s.atoms[i].hi - s.atoms[i].lo == 1 for i in t.at):
            n = len(t.at)
            # moebius over indicator x_i = a_i - lo_i
            import itertools
            los = [s.atoms[i].lo for i in t.at]
            c = {}
            for k in itertools.product((0, 1), repeat=n):
                c[k] = sg(t.tab[tuple(l + x for l, x in zip(los, k))])
            for j in range(n):
                for k in list(c):
                    if k[j]:
                        kk = k[:j] + (0,) + k[j + 1:]
                        c[k] -= c[kk]
            p = {}
            for k, v in c.items():
                if v:
                    q = pconst(v)
                    for j in range(n):
                        if k[j]: q = pmul(q, padd(pvar(t.at[j]), pconst(-los[j])))
                    p = padd(p, q)
            return p
        return None
    def peval(s, p, env):
        r = 0
        for m, c in p.items():
            v = c
            for i, e in m:
                v *= env[i] ** e
            r += v
        return r
    def psubst(s, p, env):
        r = {}
        for m, c in p.items():
            mm = []
            for i, e in m:
                if i in env: c = c * env[i] ** e
                else: mm.append((i, e))
            mm = tuple(mm)
            v = r.get(mm, 0) + c
            if v: r[mm] = v
            else: r.pop(mm, None)
        return r
    def small(s, p, limit=TDOM):
        """atoms of p if their joint domain is small"""
        at = sorted(patoms(p)); n = 1
        for i in at:
            a = s.atoms[i]
            if a.kind == "field": return None
            n *= a.hi - a.lo + 1
            if n > limit: return None
        return at
    def vsubst(s, v, env):
        if isinstance(v, Sym):
            return s.mk(s.psubst(v.p, env), v.w, None if any(i in env for i in patoms(v.p)) else v.lo, None if any(i in env for i in patoms(v.p)) else v.hi)
        if isinstance(v, T):
            if not any(i in env for i in v.at): return v
            rest = [i for i in v.at if i not in env]
            if not rest:
                x = v.tab.get(tuple(env[i] for i in v.at))
                if x is None: raise Infeasible()
                return x
            tab = {}
            for k, x in v.tab.items():
                if all(env.get(i, kv) == kv for i, kv in zip(v.at, k)):
                    tab[tuple(kv for i, kv in zip(v.at, k) if i not in env)] = x
            if not rest: return next(iter(tab.values()))
            return s.tnorm(T(tuple(rest), tab, v.w))
        return v
    def tmap(s, fn, w, *vs):
        """apply fn pointwise over T arguments (and Syms over the same atoms)"""
        at = []
        for v in vs:
            if isinstance(v, T):
                for i in v.at:
                    if i not in at: at.append(i)
        def one(env):
            return fn(*[s.vsubst(v, env) for v in vs])
        return s.tmake(at, one, w)
    def flat(s, t):
        """T whose entries are Syms over small atoms, as a T with concrete entries"""
        if not any(isinstance(v, (Sym, T)) for v in t.tab.values()): return t
        at = list(t.at)
        for v in t.tab.values():
            x = v.at if isinstance(v, T) else patoms(v.p) if isinstance(v, Sym) else ()
            for i in x:
                if i not in at: at.append(i)
        n = 1
        for i in at: n *= s.atoms[i].hi - s.atoms[i].lo + 1
        if n > TDOM * 8: raise Unsupported("finite domain too large")
        import itertools
        tab = {}
        for k in itertools.product(*[s.dom(i) for i in at]):
            env = dict(zip(at, k)); v = t
            while isinstance(v, T): v = s.vsubst(v, env)
            if isinstance(v, Sym): v = s.peval(v.p, env) & ((1 << v.w) - 1)
            tab[k] = v
        return T(tuple(at), tab, t.w)
    def toT(s, v):
        if isinstance(v, Sym):
            at = s.small(v.p)
            if at is None: return None
            M = (1 << v.w) - 1
            import itertools
            tab = {}
            for k in itertools.product(*[s.dom(i) for i in at]):
                tab[k] = s.peval(v.p, dict(zip(at, k))) & M
            return T(tuple(at), tab, v.w)
        return v if isinstance(v, T) else None
    # -------------------------------------------------------------- splitting
    def split(s, p, k, lo=None, hi=None):
        """(q, r) with p = 2^k q + r, 0 <= r < 2^k; returned as (poly, lo, hi) pairs"""
        M = 1 << k
        l0, h0 = s.bounds(p)
        if lo is None or lo < l0: lo = l0
        if hi is None or hi > h0: hi = h0
        if k == 0: return (p, lo, hi), ({}, 0, 0)
        if lo >> k == hi >> k:
            c = lo >> k
            return (pconst(c), c, c), (padd(p, pconst(-c * M)), lo - c * M, hi - c * M)
        # part divisible by 2^k
        h = {}; l = {}
        for m, c in p.items():
            if c % M == 0: h[m] = c // M
            else: l[m] = c
        if h:
            if not l: return (h, lo >> k, hi >> k), ({}, 0, 0)
            hb = s.bounds(h)
            q, r = s.split(l, k)
            return (padd(h, q[0]), lo >> k, hi >> k), r
        # common power of two
        j = min(v2(c) for c in l.values())
        if j > 0:
            y = {m: c >> j for m, c in l.items()}
            q, r = s.split(y, k - j, -((-lo) >> j), hi >> j)
            return q, (pscale(r[0], 1 << j), r[1] << j, r[2] << j)
        # reduce coefficients into a small symmetric-free form: constants to [0,2^k)
        # disjoint low part
        vals = sorted({v2(c) for m, c in l.items()})
        for j in reversed(vals):
            if j == 0 or j > k: continue
            L = {m: c for m, c in l.items() if v2(c) < j}
            b = s.bounds(L)
            if b[0] >= 0 and b[1] < (1 << j):
                H = {m: c >> j for m, c in l.items() if v2(c) >= j}
                q, r = s.split(H, k - j)
                return q, (padd(pscale(r[0], 1 << j), L), (r[1] << j) + b[0], (r[2] << j) + b[1])
        # tiny joint domain: exact finite function
        at = s.small(l)
        if at is not None:
            qs = s.tpoly(at, lambda env: s.peval(l, env) >> k)
            rs = s.tpoly(at, lambda env: s.peval(l, env) & (M - 1))
            if qs is not None and rs is not None: return qs, rs
        # single atoms with structure
        if len(l) == 1:
            (m, c), = l.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                a = s.atoms[m[0][0]]
                if a.kind == "q":
                    u, kk = a.d
                    return s._mkq(u, kk + k, l, k)
                if a.kind == "r":
                    u, kk, qp = a.d
                    if k < kk:
                        q, r = s.split(u, k)
                        # q - 2^(kk-k) * q_kk(u)
                        qq = padd(q[0], pscale(qp, -(1 << (kk - k))))
                        return s._name(qq, a.lo >> k, a.hi >> k), r
                if a.kind in ("n", "r") and m[0][0] in s.alias and len(s.alias[m[0][0]]) == 2:
                    u = s.alias[m[0][0]]
                    cs = sorted(u.items(), key=lambda x: abs(x[1]))
                    if cs[0][1] == 1 and cs[1][1] % M == 0 and len(cs[0][0]) == 1 and cs[0][0][0][1] == 1 and cs[0][0][0][0] < m[0][0]:
                        q, r = s.split({cs[0][0]: 1}, k)
                        return s._name(padd(q[0], {cs[1][0]: cs[1][1] >> k}), a.lo >> k, a.hi >> k), r
        # remainder is constant modulo 2^k ?
        e = s.expand2(l, k)
        if e is not None:
            c = e
            qa = s._q(l, k, lo, hi)
            if qa[0] != "c":
                i = qa[1]
                if i not in s.rel: s.rel[i] = (l, c, k)
                a = s.atoms[i]
                return (pvar(i), a.lo, a.hi), (pconst(c), c, c)
        return s._mkq(l, k, l, k, lo, hi)
    def tpoly(s, at, fn):
        import itertools
        tab = {}
        for key in itertools.product(*[s.dom(i) for i in at]):
            tab[key] = fn(dict(zip(at, key)))
        vs = list(tab.values())
        if all(v == vs[0] for v in vs): return (pconst(vs[0]), vs[0], vs[0])
        p = s.t2poly(T(tuple(at), tab, 4096))
        if p is None: return None
        return (p, min(vs), max(vs))
    def expand2(s, l, k):
        """if l is constant modulo 2^k after expanding alias atoms, that constant; else None"""
        cur = l
        for _ in range(3):
            cur = pmod(cur, 1 << k)
            if pisconst(cur): return pcval(cur)
            if len(cur) > 12: return None
            nxt = {}
            ch = False
            kr = {}
            for l0, c0, k0 in s.rel.values():
                if k0 >= k and len(l0) == 1:
                    (m0, x0), = l0.items()
                    if x0 == 1 and len(m0) == 1 and m0[0][1] == 1: kr[m0[0][0]] = c0
            for m, c in cur.items():
                t = pconst(c)
                for i, e in m:
                    a = s.atoms[i]
                    if i in kr: b = pconst(kr[i]); ch = True
                    elif a.kind == "r" and a.d[1] >= k and len(a.d[0]) <= 6:
                        b = pmod(a.d[0], 1 << k); ch = True
                    else: b = pvar(i)
                    for _e in range(e): t = pmul(t, b)
                nxt = padd(nxt, t)
            if not ch: return None
            cur = nxt
        return None
    def _q(s, u, k, lo=None, hi=None):
        key = (pkey(s.fullexpand(u)), k)
        i = s.qmemo.get(key)
        if i is None:
            b = s.bounds(u)
            lo = b[0] if lo is None else max(lo, b[0]); hi = b[1] if hi is None else min(hi, b[1])
            a = s.atom("q", lo >> k, hi >> k, "q", (u, k))
            i = a.id; s.qmemo[key] = i
        a = s.atoms[i]
        if a.const is not None: return ("c", a.const, i)
        return ("a", i)
    def _mkq(s, u, k, l, kl, lo=None, hi=None):
        """quotient atom floor(u/2^k); remainder l - 2^kl*q as alias"""
        qa = s._q(u, k, lo, hi)
        if qa[0] == "c": qp = (pconst(qa[1]), qa[1], qa[1])
        else:
            a = s.atoms[qa[1]]; qp = (pvar(a.id), a.lo, a.hi)
        rp = padd(l, pscale(qp[0], -(1 << kl)))
        lb = s.bounds(l)
        if lo is not None: lb = (max(lb[0], lo), min(lb[1], hi))
        if qa[0] == "c":
            # l within [c*2^kl, ...]
            b = (max(0, lb[0] - (qa[1] << kl)), min((1 << kl) - 1, lb[1] - (qa[1] << kl)))
            return qp, s._name(rp, b[0], b[1], (l, kl, qp[0]))
        return qp, s._name(rp, 0, (1 << kl) - 1, (l, kl, qp[0]))
    def _name(s, p, lo, hi, rd=None):
        """alias atom for polynomial p with a sharper known interval"""
        if pisconst(p): return (p, pcval(p), pcval(p))
        b = s.bounds(p)
        if b[0] >= lo and b[1] <= hi: return (p, b[0], b[1])
        key = pkey(s.fullexpand(p))
        i = s.rmemo.get(key)
        if i is None:
            a = s.atom("r", lo, hi, "r" if rd else "n", rd)
            i = a.id; s.rmemo[key] = i
            s.alias[i] = p
        else:
            a = s.atoms[i]
            if lo > a.lo: a.lo = lo
            if hi < a.hi: a.hi = hi
        a = s.atoms[i]
        if a.const is not None: return (pconst(a.const), a.const, a.const)
        return (pvar(i), a.lo, a.hi)
    def fullexpand(s, p):
        """replace alias atoms by their definitions"""
        while True:
            t = None
            for m in p:
                for i, e in m:
                    if i in s.alias and (t is None or i > t): t = i
            if t is None: return p
            p = s.sub1(p, t, s.alias[t])
    def sub1(s, p, i, d):
        r = {}
        add = []
        for m, c in p.items():
            e = 0
            for j, ee in m:
                if j == i: e = ee; break
            if not e:
                v = r.get(m, 0) + c
                if v: r[m] = v
                else: r.pop(m, None)
            else:
                rest = tuple(x for x in m if x[0] != i)
                add.append((rest, c, e))
        pw = {1: d}
        for rest, c, e in add:
            if e not in pw:
                x = d
                for _ in range(e - 1): x = pmul(x, d)
                pw[e] = x
            for m2, c2 in pw[e].items():
                m = mmul(rest, m2)
                v = r.get(m, 0) + c * c2
                if v: r[m] = v
                else: r.pop(m, None)
        return r
    # -------------------------------------------------------------- normal forms / proving
    def nf(s, p, M=None, stop=None):
        """normal form: expand aliases and constant-remainder quotients (exact over Q, or modulo M)"""
        md = s.pmdefs.get(M, {}) if M else {}
        if M: p = pmod(p, M)
        n = 0
        stop = stop or ()
        while True:
            t = None
            for m in p:
                for i, e in m:
                    if i not in stop and (i in s.alias or i in s.rel or i in md) and (t is None or i > t): t = i
            if t is None: break
            if t in md: d = md[t]
            elif t in s.alias: d = s.alias[t]
            else:
                l, c, k = s.rel[t]
                d = padd(l, pconst(-c))
                if M: d = pscale(d, pow(1 << k, -1, M))
                else: d = {m: Fraction(x, 1 << k) for m, x in d.items()}
            p = s.sub1(p, t, d)
            if M: p = pmod(p, M)
            n += 1
            if len(p) > 60000: raise Unsupported("polynomial too large")
        return p
    def prove_zero_mod(s, p, M):
        return not s.nf(p, M)
    def prove_zero(s, p):
        p = s.nf(p)
        return not p
    def lin_solver(s, extra=()):
        import z3
        sol = z3.SolverFor("QF_LRA")
        sol.set("timeout", 20000)
        var = {}
        todo = []
        def mv(m):
            if m not in var:
                x = z3.Real("m%d" % len(var)); var[m] = x
                todo.append(m)
            return var[m]
        def lin(p):
            return z3.Sum([z3.RealVal(0)] + [(z3.RealVal(str(c)) * mv(m) if m else z3.RealVal(str(c))) for m, c in p.items()])
        for f in list(s.facts) + list(extra): sol.add(lin(f) >= 0)
        done = set()
        while todo:
            m = todo.pop()
            x = var[m]
            lo, hi = s.mbound(m)
            sol.add(x >= z3.RealVal(str(lo)), x <= z3.RealVal(str(hi)))
            if len(m) == 1 and m[0][1] == 1:
                i = m[0][0]
                if i in s.alias: sol.add(x == lin(s.alias[i]))
                if i in s.rel:
                    l, c, k = s.rel[i]
                    sol.add(x * (1 << k) == lin(l) - c)
                a = s.atoms[i]
                if a.kind == "q":
                    u, k = a.d
                    lu = lin(u)
                    sol.add(lu - x * (1 << k) >= 0, lu - x * (1 << k) <= (1 << k) - 1)
                    if a.const is None and a.hi - a.lo == 1:
                        # two-valued quotient: convex hull of the two cases
                        b = s.bounds(u); t = (a.lo + 1) << k
                        if b[0] < t <= b[1]:
                            y = x - a.lo
                            sol.add(lu >= z3.RealVal(str(b[0])) + (t - b[0]) * y, lu <= z3.RealVal(str(t - 1)) + (b[1] - t + 1) * y)
        return sol, lin
    def feasible(s, extra=()):
        if not s.facts and not extra: return True
        import z3
        for f in s.facts:
            if s.bounds(f)[1] < 0: return False
        sol, lin = s.lin_solver(extra)
        r = zcheck(sol)
        return r != z3.unsat
    def fact_cancel(s, q):
        """q - lam*f has a lower bound above -1 for one known fact f >= 0 (q is integer valued)"""
        if not q: return True
        mm = max((m for m in q if m), key=lambda m: (sum(e for i, e in m), abs(q[m])), default=None)
        if mm is None: return False
        for f in s.facts:
            f = s.nf(f)
            if mm in f and (q[mm] > 0) == (f[mm] > 0):
                lam = Fraction(q[mm]) / f[mm]
                if s.bounds(padd(q, f, -lam))[0] > -1: return True
        return False
    def prove_ge0(s, p):
        if s.bounds(p)[0] >= 0: return True
        q = s.nf(p)
        if s.bounds(q)[0] >= 0: return True
        if s.bounds(q)[0] > -1: return True
        if s.fact_cancel(q): return True
        stop = set()
        for l, c, k in s.rel.values():
            for m, c in l.items():
                if len(m) == 1 and m[0][1] == 1 and abs(c) & (abs(c) - 1) and s.atoms[m[0][0]].kind == "r": stop.add(m[0][0])
        if stop:
            q2 = s.nf(p, None, stop)
            if s.bounds(q2)[0] > -1 or s.fact_cancel(q2): return True
        # integrality: negation is p <= -1
        return not s.feasible([padd(pconst(-1), p, -1)]) or not s.feasible([padd(pconst(-1), q, -1)])
    # -------------------------------------------------------------- machine ops
    def U(s, v):
        """unsigned normal form: a Sym/int whose polynomial lies in [0,2^w)"""
        if isinstance(v, int): return v
        w = v.w
        if v.lo >= 0 and v.hi < (1 << w): return v
        if v.lo >> w == v.hi >> w:
            c = (v.lo >> w) << w
            return Sym(padd(v.p, pconst(-c)), w, v.lo - c, v.hi - c)
        q, r = s.split(v.p, w, v.lo, v.hi)
        return s.mk(r[0], w, r[1], r[2])
    def S(s, v):
        """signed normal form; ints become python signed ints"""
        if isinstance(v, int): raise Unsupported("S int")
        w = v.w; h = 1 << (w - 1)
        if v.lo >= -h and v.hi < h: return v
        if (v.lo + h) >> w == (v.hi + h) >> w:
            c = ((v.lo + h) >> w) << w
            return Sym(padd(v.p, pconst(-c)), w, v.lo - c, v.hi - c)
        q, r = s.split(padd(v.p, pconst(h)), w, v.lo + h, v.hi + h)
        p = padd(r[0], pconst(-h))
        if pisconst(p): return Sym(p, w, pcval(p), pcval(p))
        return Sym(p, w, r[1] - h, r[2] - h)
    def Sv(s, v, w):
        if isinstance(v, int):
            v = v - (1 << w) if v >> (w - 1) else v
            return Sym(pconst(v), w, v, v)
        return s.S(v)
    def out(s, q, w):
        return s.mk(q[0], w, q[1], q[2])
    def small_vals(s, v):
        return isinstance(v, T)
    def add(s, a, b, w):
        return s._lin(a, b, w, 1)
    def sub(s, a, b, w):
        return s._lin(a, b, w, -1)
    def _lin(s, a, b, w, k):
        if isinstance(a, int) and isinstance(b, int): return (a + k * b) & ((1 << w) - 1)
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, T) or isinstance(b, T): return s.tmap(lambda x, y: s._lin(x, y, w, k), w, a, b)
        if isinstance(a, Ptr) or isinstance(b, Ptr): raise Unsupported("pointer arithmetic")
        a = s.tosym(s.sgn(a, w), w); b = s.tosym(s.sgn(b, w), w)
        lo, hi = (a.lo + b.lo, a.hi + b.hi) if k == 1 else (a.lo - b.hi, a.hi - b.lo)
        return s.mk(padd(a.p, b.p, k), w, lo, hi)
    def sgn(s, v, w):
        """large constants are treated as small negatives (keeps intervals tight)"""
        if isinstance(v, int) and w >= 8 and v >> (w - 1) and (1 << w) - v <= (1 << (w // 2)): return v - (1 << w)
        return v
    def mul(s, a, b, w):
        if isinstance(a, int) and isinstance(b, int): return (a * b) & ((1 << w) - 1)
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, T) or isinstance(b, T): return s.tmap(lambda x, y: s.mul(x, y, w), w, a, b)
        a = s.tosym(s.sgn(a, w), w); b = s.tosym(s.sgn(b, w), w)
        c = (a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi)
        return s.mk(pmul(a.p, b.p), w, min(c), max(c))
    def shl(s, a, k, w):
        if isinstance(a, T) or isinstance(k, T): return s.tmap(lambda x, y: s.shl(x, y, w), w, a, k)
        if not isinstance(k, int):
            t = s.toT(k)
            if t is None: raise Unsupported("symbolic shift")
            return s.tmap(lambda x, y: s.shl(x, y, w), w, a, t)
        if k >= w: raise Unsupported("oversized shift")
        return s.mul(a, 1 << k, w) if not isinstance(a, int) else (a << k) & ((1 << w) - 1)
    def lshr(s, a, k, w, arith=False):
        if a is UNDEF: return UNDEF
        if isinstance(a, T) or isinstance(k, T): return s.tmap(lambda x, y: s.lshr(x, y, w, arith), w, a, k)
        if not isinstance(k, int):
            t = s.toT(k)
            if t is None: raise Unsupported("symbolic shift")
            return s.tmap(lambda x, y: s.lshr(x, y, w, arith), w, a, t)
        if k >= w: raise Unsupported("oversized shift")
        if isinstance(a, int):
            if arith:
                v = a - (1 << w) if a >> (w - 1) else a
                return (v >> k) & ((1 << w) - 1)
            return a >> k
        v = s.S(a) if arith else s.U(a)
        if isinstance(v, int): return s.lshr(v, k, w, arith)
        t = s.trysmall(v, lambda x: (x >> k))
        if t is not None: return t
        q, r = s.split(v.p, k, v.lo, v.hi)
        return s.out(q, w)
    def trysmall(s, v, fn):
        """single atom with small non-boolean domain: finite function (T)"""
        at = patoms(v.p)
        if len(at) == 1:
            i = next(iter(at)); a = s.atoms[i]
            n = a.hi - a.lo + 1
            if 2 < n <= TDOM:
                M = (1 << v.w) - 1
                return s.tnorm(T((i,), {(x,): fn(s.peval(v.p, {i: x})) & M for x in s.dom(i)}, v.w))
        return None
    def lowbits(s, a, k, w):
        """a mod 2^k (k <= w)"""
        if isinstance(a, int): return a & ((1 << k) - 1)
        t = s.trysmall(a, lambda x: x & ((1 << k) - 1)) if k > 1 else None
        if t is not None: return t
        if len(a.p) < 40:
            M = (1 << k) - 1
            pr = {m: c for m, c in a.p.items() if c & M}
            while len(pr) == 1:
                (m, c), = pr.items()
                x = s.atoms[m[0][0]] if len(m) == 1 and m[0][1] == 1 else None
                if x is not None and x.kind == "r" and x.d[1] >= k and v2(c) + k <= x.d[1] + v2(c): pr = {m2: c2 * c for m2, c2 in x.d[0].items() if (c2 * c) & M}
                else: break
            if any(sum(e for i, e in m) > 1 for m in pr):
                at = s.small(pr)
                if at is not None:
                    tp = s.tpoly(at, lambda env: s.peval(pr, env) & M)
                    if tp is not None: return s.mk(tp[0], w, tp[1], tp[2])
                    return s.tmake(at, lambda env: s.peval(pr, env) & M, w)
        q, r = s.split(a.p, k, a.lo, a.hi)
        return s.out(r, w)
    def and_(s, a, b, w):
        if isinstance(a, int) and isinstance(b, int): return a & b
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, T) or isinstance(b, T): return s.tmap(lambda x, y: s.and_(x, y, w), w, a, b)
        if isinstance(a, int): a, b = b, a
        if isinstance(b, int):
            if b == 0: return 0
            if b == (1 << w) - 1: return a
            t = s.trysmall(a, lambda x: x & b) if b > 1 else None
            if t is not None: return t
            at = s.small(a.p)
            if at is not None:
                M = (1 << w) - 1
                tp = s.tpoly(at, lambda env: (s.peval(a.p, env) & M) & b)
                if tp is not None: return s.mk(tp[0], w, tp[1], tp[2])
                if any(sum(e for i, e in m) > 1 for m in a.p) and b & (b + 1): return s.tmake(at, lambda env: (s.peval(a.p, env) & M) & b, w)
            # runs of ones
            res = 0; i = 0
            while i < w:
                if b >> i & 1:
                    j = i
                    while j < w and b >> j & 1: j += 1
                    x = a
                    if i == 0: part = s.lowbits(a, j, w) if j < w else a
                    else:
                        q, _ = s.split(a.p, i, a.lo, a.hi)
                        hi = s.out(q, w)
                        if isinstance(hi, int): part = (hi & ((1 << (j - i)) - 1)) << i
                        else:
                            part = s.lowbits(hi, j - i, w)
                            part = s.mul(part, 1 << i, w)
                    res = s.add(res, part, w)
                    i = j
                else: i += 1
            return res
        for x, m in ((a, b), (b, a)):
            if m.lo >= -1 and m.hi <= 0:      # all-zeros / all-ones mask
                if w == 1: return s.mul(a, b, w)
                return s.mul(x, s.mul(m, (1 << w) - 1, w), w)
            if m.lo >= 0 and m.hi <= 1 and w > 1:
                return s.mul(s.lowbits(x, 1, w), m, w)
        if w == 1: return s.mul(s.lowbits(a, 1, 1), s.lowbits(b, 1, 1), 1)
        if a.p == b.p: return a
        ta, tb = s.toT(a), s.toT(b)
        if ta is not None and tb is not None: return s.tmap(lambda x, y: s.and_(x, y, w), w, ta, tb)
        raise Unsupported("and of two symbolic words")
    def disjoint(s, a, b):
        """b has only bits >= j, a < 2^j (both unsigned-normal)"""
        if not b.p: return True
        j = min(v2(c) for c in b.p.values())
        return a.lo >= 0 and a.hi < (1 << j)
    def boolfactor(s, a, b):
        """a = m*P, b = (1-m)*Q for a 0/1 atom m  => bitwise disjoint"""
        for i in patoms(a.p) & patoms(b.p):
            t = s.atoms[i]
            if t.lo >= 0 and t.hi <= 1 or t.lo >= -1 and t.hi <= 0:
                other = 1 if t.hi == 1 else -1
                for va in (0, other):
                    vb = other if va == 0 else 0
                    if not s.psubst(a.p, {i: va}) and not s.psubst(b.p, {i: vb}): return True
        return False
    def or_(s, a, b, w):
        if isinstance(a, int) and isinstance(b, int): return a | b
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, T) or isinstance(b, T): return s.tmap(lambda x, y: s.or_(x, y, w), w, a, b)
        if isinstance(a, int): a, b = b, a
        if isinstance(b, int):
            if b == 0: return a
            return s.sub(s.add(a, b, w), s.and_(a, b, w), w)
        if w == 1:
            a = s.lowbits(a, 1, 1); b = s.lowbits(b, 1, 1)
            if isinstance(a, int) or isinstance(b, int): return s.or_(a, b, w)
            p = padd(padd(a.p, b.p), pmul(a.p, b.p), -1)
            return s.bred(p, 1)
        if s.boolfactor(a, b): return s.add(a, b, w)
        a, b = s.U(a), s.U(b)
        if isinstance(a, int) or isinstance(b, int): return s.or_(a, b, w)
        if a.p == b.p: return a
        if s.disjoint(a, b) or s.disjoint(b, a): return s.add(a, b, w)
        ta, tb = s.toT(a), s.toT(b)
        if ta is not None and tb is not None:
            try: return s.tmap(lambda x, y: s.or_(x, y, w), w, ta, tb)
            except Unsupported: pass
        return s.node("or", a, b, w)
    def bred(s, p, w):
        """polynomial over 0/1 atoms: reduce exponents"""
        r = {}
        for m, c in p.items():
            mm = tuple((i, 1 if (s.atoms[i].lo >= 0 and s.atoms[i].hi <= 1) else e) for i, e in m)
            v = r.get(mm, 0) + c
            if v: r[mm] = v
            else: r.pop(mm, None)
        if pisconst(r): return pcval(r) & ((1 << w) - 1)
        at = s.small(r)
        if at is not None:
            t = s.tpoly(at, lambda env: s.peval(r, env))
            if t is not None: return s.mk(t[0], w, t[1], t[2])
        return s.mk(r, w, 0, 1)
    def node(s, op, a, b, w):
        parts = []
        for x in (a, b):
            # flatten nested or-nodes
            if op == "or" and len(x.p) == 1:
                (m, c), = x.p.items()
                if c == 1 and len(m) == 1 and s.atoms[m[0][0]].kind == "or":
                    parts += s.atoms[m[0][0]].d; continue
            parts.append(x.p)
        key = (op, tuple(sorted(pkey(x) for x in parts)))
        i = s.ormemo.get(key)
        if i is None:
            hi = max(a.hi, b.hi); n = max(1, hi.bit_length())
            lo = max(a.lo, b.lo) if op == "or" else 0
            at = s.atom(op, lo, (1 << n) - 1, op, parts)
            i = at.id; s.ormemo[key] = i
        at = s.atoms[i]
        if at.const is not None: return at.const
        return Sym(pvar(i), w, at.lo, at.hi)
    def xor_(s, a, b, w):
        if isinstance(a, int) and isinstance(b, int): return a ^ b
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, T) or isinstance(b, T): return s.tmap(lambda x, y: s.xor_(x, y, w), w, a, b)
        if isinstance(a, int): a, b = b, a
        if isinstance(b, int):
            if b == 0: return a
            if b == (1 << w) - 1: return s.sub(-1 & ((1 << w) - 1), a, w) if w > 1 else s.sub(1, s.lowbits(a, 1, 1), 1)
            return s.sub(s.add(a, b, w), s.mul(s.and_(a, b, w), 2, w), w)
        if a.p == b.p: return 0
        if w == 1:
            a = s.lowbits(a, 1, 1); b = s.lowbits(b, 1, 1)
            if isinstance(a, int) or isinstance(b, int): return s.xor_(a, b, w)
            return s.bred(padd(padd(a.p, b.p), pmul(a.p, b.p), -2), 1)
        for x, m in ((a, b), (b, a)):
            if m.lo >= -1 and m.hi <= 0:
                r = s.mk(padd(x.p, pmul(m.p, padd(pscale(x.p, 2), pconst(1)))), w)
                if isinstance(r, Sym):
                    x2 = s.S(x) if x.lo < 0 else x
                    if x2 is x:
                        r.lo = max(r.lo, min(x.lo, -1 - x.hi)); r.hi = min(r.hi, max(x.hi, -1 - x.lo))
                return r
        # x ^ ((x^n) * m) with m a 0/1 atom
        for x, y in ((a, b), (b, a)):
            r = s.xorsel(x, y, w)
            if r is not None: return r
        if s.boolfactor(a, b): return s.add(a, b, w)
        a, b = s.U(a), s.U(b)
        if isinstance(a, int) or isinstance(b, int): return s.xor_(a, b, w)
        if s.disjoint(a, b) or s.disjoint(b, a): return s.add(a, b, w)
        ta, tb = s.toT(a), s.toT(b)
        if ta is not None and tb is not None:
            try: return s.tmap(lambda x, y: s.xor_(x, y, w), w, ta, tb)
            except Unsupported: pass
        return s.node("xor", a, b, w)
    def xorsel(s, x, y, w):
        """y = c * t * (bools...) where t is an xor node containing x"""
        ts = [i for i in patoms(y.p) if s.atoms[i].kind == "xor"]
        if len(ts) != 1: return None
        t = s.atoms[ts[0]]
        # y must be t * B with B polynomial in 0/1 or -1/0 atoms taking values 0/1
        B = {}
        for m, c in y.p.items():
            e = [ee for i, ee in m if i == t.id]
            if e != [1]: return None
            B[tuple(z for z in m if z[0] != t.id)] = c
        if pisconst(B):
            if pcval(B) != 1: return None
        else:
            at = s.small(B)
            if at is None: return None
            tp = s.tpoly(at, lambda env: s.peval(B, env))
            if tp is None or tp[1] < 0 or tp[2] > 1: return None
        if x.p == t.d[0]: o = t.d[1]
        elif x.p == t.d[1]: o = t.d[0]
        else: return None
        lo, hi = s.bounds(o)
        return s.mk(padd(x.p, pmul(B, padd(o, x.p, -1))), w, min(x.lo, lo), max(x.hi, hi))
    def udivrem(s, a, b, w, rem):
        if isinstance(a, int) and isinstance(b, int):
            return a % b if rem else a // b
        if isinstance(a, T) or isinstance(b, T): return s.tmap(lambda x, y: s.udivrem(x, y, w, rem), w, a, b)
        if isinstance(b, int) and b & (b - 1) == 0 and b:
            k = v2(b)
            return s.lowbits(a, k, w) if rem else s.lshr(a, k, w)
        ta = s.toT(a)
        if ta is not None: return s.tmap(lambda x, y: s.udivrem(x, y, w, rem), w, ta, b)
        if isinstance(b, int) and b:
            v = s.U(a)
            if isinstance(v, int): return s.udivrem(v, b, w, rem)
            if v.hi // b == v.lo // b:
                c = v.lo // b
                return s.sub(v, c * b, w) if rem else c
            key = ("div", pkey(v.p), b)
            i = s.ormemo.get(key)
            if i is None:
                at = s.atom("div", v.lo // b, v.hi // b, "div", (v.p, b)); i = at.id; s.ormemo[key] = i
            at = s.atoms[i]
            q = s.apoly(at)
            if not rem: return s.mk(q, w, at.lo, at.hi)
            r = s._name(padd(v.p, pscale(q, -b)), 0, b - 1)
            return s.out(r, w)
        raise Unsupported("division")
    def cast(s, op, v, w1, w2):
        if v is UNDEF: return UNDEF
        if isinstance(v, T): return s.tmap(lambda x: s.cast(op, x, w1, w2), w2, v)
        if isinstance(v, int):
            if op == "trunc": return v & ((1 << w2) - 1)
            if op == "sext": return (v - (1 << w1) if v >> (w1 - 1) else v) & ((1 << w2) - 1)
            return v
        if op == "trunc":
            if w2 == 1: return s.lowbits(v, 1, 1) if not (v.lo >= 0 and v.hi <= 1) else Sym(v.p, 1, v.lo, v.hi)
            if v.hi - v.lo >= (1 << w2) - 1: return s.shrink(v, w2)
            return Sym(v.p, w2, v.lo, v.hi)
        if op == "zext":
            v = s.U(v)
            return v if isinstance(v, int) else Sym(v.p, w2, v.lo, v.hi)
        if op == "sext":
            v = s.S(v)
            if v.lo == v.hi: return v.lo & ((1 << w2) - 1)
            return Sym(v.p, w2, v.lo, v.hi)
        raise Unsupported(op)
    def shrink(s, v, w):
        """truncation of a wide value: unfold names and drop multiples of 2^w when that narrows the interval"""
        if len(v.p) <= 4:
            p = v.p
            for i in sorted(patoms(p), reverse=True):
                if s.atoms[i].kind == "n" and len(s.alias[i]) <= 6: p = s.sub1(p, i, s.alias[i])
            if p is not v.p:
                r = {}
                for m, c in p.items():
                    c %= 1 << w
                    if c >> (w - 1): c -= 1 << w
                    if c: r[m] = c
                lo, hi = s.bounds(r)
                if hi - lo < (1 << w) - 1: return s.mk(r, w)
        return Sym(v.p, w, v.lo, v.hi)
    def lt0(s, p, lo, hi):
        """boolean [p < 0] as value of width 1"""
        if hi < 0: return 1
        if lo >= 0: return 0
        at = s.small(p)
        if at is not None:
            t = s.tpoly(at, lambda env: 1 if s.peval(p, env) < 0 else 0)
            if t is not None: return s.mk(t[0], 1, t[1], t[2])
            return s.tmake(at, lambda env: 1 if s.peval(p, env) < 0 else 0, 1)
        k = max(1, (max(-lo, hi + 1) - 1).bit_length())
        k = (k + 31) // 32 * 32
        q, r = s.split(p, k, lo, hi)      # q in {-1,0}
        x = s.mk(pscale(q[0], -1), 1, max(0, -q[2]), min(1, -q[1]))
        return x
    def eq0(s, p, lo, hi):
        if lo > 0 or hi < 0: return 0
        if pisconst(p): return 1 if pcval(p) == 0 else 0
        e = s.nf(p)
        if not e: return 1
        if pisconst(e): return 0
        at = s.small(p)
        if at is not None:
            t = s.tpoly(at, lambda env: 1 if s.peval(p, env) == 0 else 0)
            if t is not None: return s.mk(t[0], 1, t[1], t[2])
            return s.tmake(at, lambda env: 1 if s.peval(p, env) == 0 else 0, 1)
        # parity
        if pkey(p)[0][1] < 0: p = pscale(p, -1)
        key = pkey(s.fullexpand(p))
        i = s.eqmemo.get(key)
        if i is None:
            a = s.atom("eq0", 0, 1, "eq0", p); i = a.id; s.eqmemo[key] = i
        a = s.atoms[i]
        if a.const is not None: return a.const
        return Sym(pvar(i), 1, 0, 1)
    def on_zero(s, p):
        """p = 0 assumed: decompose or/xor nodes"""
        if len(p) == 1:
            (m, c), = p.items()
            if len(m) == 1 and m[0][1] == 1:
                a = s.atoms[m[0][0]]
                if a.kind == "or":
                    for x in a.d:
                        s.facts.append(x); s.facts.append(pscale(x, -1)); s.zeros.append(x)
                        s.on_zero(x)
                elif a.kind == "xor":
                    d = padd(a.d[0], a.d[1], -1)
                    s.facts.append(d); s.facts.append(pscale(d, -1))
    def icmp(s, pred, a, b, w):
        if a is UNDEF or b is UNDEF: raise Unsupported("compare undef")
        if isinstance(a, Ptr) or isinstance(b, Ptr): return s.ptrcmp(pred, a, b)
        if isinstance(a, T) or isinstance(b, T):
            if isinstance(a, T) and any(isinstance(x, Ptr) for x in a.tab.values()): raise Unsupported("T ptr cmp")
            return s.tmap(lambda x, y: s.icmp(pred, x, y, w), 1, a, b)
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == "s":
                a = a - (1 << w) if a >> (w - 1) else a
                b = b - (1 << w) if b >> (w - 1) else b
                pred = pred[1:]
            elif pred[0] == "u": pred = pred[1:]
            return int({"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b, "eq": a == b, "ne": a != b}[pred])
        if pred in ("eq", "ne"):
            d = s.sub(a, b, w)
            if isinstance(d, int): r = 1 if d == 0 else 0
            elif isinstance(d, T): return s.tmap(lambda x: s.icmp(pred, x, 0, w), 1, d)
            else:
                # a value in (-2^w, 2^w) is zero mod 2^w iff zero
                if not (d.lo > -(1 << w) and d.hi < (1 << w)):
                    ua, ub = s.U(a), s.U(b)
                    d = s.tosym(s.sub(ua, ub, w + 2), w)
                r = s.eq0(d.p, d.lo, d.hi)
            return r if pred == "eq" else s.not1(r)
        N = s.Sv if pred[0] == "s" else (lambda v, w: s.tosym(s.U(v), w))
        x, y = N(a, w), N(b, w)
        pr = pred[1:]
        if pr in ("gt", "le"): x, y = y, x
        d = padd(x.p, y.p, -1)
        b0 = s.bounds(d)
        lo, hi = max(b0[0], x.lo - y.hi), min(b0[1], x.hi - y.lo)
        r = s.lt0(d, lo, hi)
        return r if pr in ("lt", "gt") else s.not1(r)
    def not1(s, r):
        if isinstance(r, int): return 1 - r
        if isinstance(r, T): return s.tmap(lambda x: s.not1(x), 1, r)
        return s.mk(padd(pconst(1), r.p, -1), 1, 1 - r.hi, 1 - r.lo)
    def ptrcmp(s, pred, a, b):
        if isinstance(a, int) or isinstance(b, int):
            # null comparison
            z = a if isinstance(a, int) else b
            if z == 0 or True:
                if pred == "eq": return 0
                if pred == "ne": return 1
                if pred in ("ult", "ule") : return 1 if isinstance(a, int) else 0
                if pred in ("ugt", "uge") : return 0 if isinstance(a, int) else 1
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj is b.obj: return s.icmp(pred, a.off if isinstance(a.off, int) else a.off, b.off, 64)
            if pred == "eq": return 0
            if pred == "ne": return 1
        raise Unsupported("pointer comparison")
    def overflow(s, kind, a, b, w):
        """llvm.*.with.overflow -> (value, flag)"""
        if isinstance(a, T) or isinstance(b, T):
            v = s.tmap(lambda x, y: s.overflow(kind, x, y, w)[0], w, a, b)
            f = s.tmap(lambda x, y: s.overflow(kind, x, y, w)[1], 1, a, b)
            return v, f
        if a is UNDEF or b is UNDEF: return UNDEF, UNDEF
        sg = kind[0] == "s"
        x = s.Sv(a, w) if sg else s.tosym(s.U(a), w)
        y = s.Sv(b, w) if sg else s.tosym(s.U(b), w)
        op = kind[1:]
        if op == "add": p = padd(x.p, y.p); lo, hi = x.lo + y.lo, x.hi + y.hi
        elif op == "sub": p = padd(x.p, y.p, -1); lo, hi = x.lo - y.hi, x.hi - y.lo
        else:
            p = pmul(x.p, y.p); c = (x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi); lo, hi = min(c), max(c)
        b0 = s.bounds(p); lo = max(lo, b0[0]); hi = min(hi, b0[1])
        mn, mx = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
        if lo >= mn and hi <= mx: f = 0
        elif hi < mn or lo > mx: f = 1
        else:
            f1 = s.lt0(padd(p, pconst(-mn)), lo - mn, hi - mn)
            f2 = s.lt0(padd(pconst(mx), p, -1), mx - hi, mx - lo)
            f = s.or_(f1, f2, 1)
        v = s.mk(p, w, lo, hi)
        return v, f
    # -------------------------------------------------------------- forking
    def refresh(s, v):
        """re-evaluate under the assumptions made so far"""
        if isinstance(v, Sym):
            l, h = s.bounds(v.p)
            l = max(l, v.lo); h = min(h, v.hi)
            if l == h: return l & ((1 << v.w) - 1)
            if l > h: raise Infeasible()
            return Sym(v.p, v.w, l, h) if (l, h) != (v.lo, v.hi) else v
        if isinstance(v, T):
            if all(s.atoms[i].hi - s.atoms[i].lo == 0 for i in v.at):
                return s.refresh(v.tab[tuple(s.atoms[i].lo for i in v.at)])
            if any(s.atoms[i].const is not None for i in v.at):
                return s.vsubst(v, {i: s.atoms[i].lo for i in v.at if s.atoms[i].const is not None})
        return v
    def force(s, v, w=64):
        """concrete value of v, forking over its atoms if necessary"""
        n0 = 0
        while True:
            v = s.refresh(v)
            if isinstance(v, (int, Ptr)): return v
            n0 += 1
            if n0 > 40: raise Unsupported("force does not converge")
            if isinstance(v, T):
                i = [i for i in v.at if s.atoms[i].const is None][0]
                s.decide(i, list(s.dom(i))); continue
            if isinstance(v, Sym):
                ats = [i for i in sorted(patoms(v.p), key=lambda i: (s.atoms[i].hi - s.atoms[i].lo, i)) if s.atoms[i].const is None]
                if not ats: return s.peval(v.p, {i: s.atoms[i].const for i in patoms(v.p)}) & ((1 << v.w) - 1)
                i = ats[0]; a = s.atoms[i]
                n = a.hi - a.lo + 1
                if n > s.fork_limit: raise Unsupported("branch on wide value " + s.show(v.p))
                s.decide(i, list(range(a.lo, a.hi + 1))); continue
            raise Unsupported("branch on %r" % (v,))
    def show(s, p, n=6):
        out = []
        for m, c in list(p.items())[:n]:
            out.append("%d*%s" % (c, "*".join("%s#%d^%d" % (s.atoms[i].name, i, e) for i, e in m) or "1"))
        return " + ".join(out) + (" ..(%d)" % len(p) if len(p) > n else "")
    def truth(s, v):
        """python bool of an i1"""
        if isinstance(v, int): return bool(v & 1)
        if v is UNDEF: raise Unsupported("branch on undef")
        return bool(s.force(v, 1) & 1)
