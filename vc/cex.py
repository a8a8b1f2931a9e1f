"""Concrete inputs from the path of a failed obligation: the path facts over the input atoms are solved with z3, the
remaining inputs are drawn at random, and the resulting inputs are replayed on the compiled crate (a wrong model only
wastes a replay)."""
import time
from dom import *

def note(ctx, kind, name, vals): ctx.__dict__.setdefault("inp", []).append((kind, name, vals))

class Enc:
    def __init__(s, ctx):
        import z3
        s.z3 = z3; s.ctx = ctx; s.var = {}; s.todo = []; s.cons = []
    def v(s, i):
        if i not in s.var:
            x = s.z3.Int("a%d" % i); s.var[i] = x; a = s.ctx.atoms[i]
            s.cons += [x >= a.lo, x <= a.hi]; s.todo.append(i)
        return s.var[i]
    def lin(s, p):
        z3 = s.z3; d = 1
        for c in p.values(): d = d * getattr(c, "denominator", 1)
        t = [z3.IntVal(0)]
        for m, c in p.items():
            e = z3.IntVal(int(c * d))
            for i, k in m:
                for _ in range(k): e = e * s.v(i)
            t.append(e)
        return z3.Sum(t)
    def close(s):
        z3 = s.z3; ctx = s.ctx; n = 0
        while s.todo:
            i = s.todo.pop(); a = ctx.atoms[i]; x = s.var[i]; n += 1
            if n > 4000: raise Unsupported("too large")
            if i in ctx.alias: s.cons.append(x == s.lin(ctx.alias[i]))
            if i in ctx.rel:
                l, c, k = ctx.rel[i]; s.cons.append(x * (1 << k) == s.lin(l) - c)
            if a.kind == "q":
                u, k = a.d; lu = s.lin(u); s.cons += [lu - x * (1 << k) >= 0, lu - x * (1 << k) <= (1 << k) - 1]
            elif a.kind == "div":
                u, b = a.d; lu = s.lin(u); s.cons += [lu - x * b >= 0, lu - x * b < b]
            elif a.kind == "eq0":
                e = s.lin(a.d); s.cons.append((x == 1) == (e == 0))
            elif a.kind == "or":
                ps = [s.lin(y) for y in a.d]; s.cons += [x >= y for y in ps] + [x <= z3.Sum(ps)]
            elif a.kind == "xor":
                p, q = [s.lin(y) for y in a.d]; s.cons += [(x == 0) == (p == q), x <= p + q, x >= p - q, x >= q - p]

def models(ctx, rng, n, until):
    """dicts atom id -> value satisfying (the linear part of) the path facts"""
    import z3
    E = Enc(ctx); goals = []
    for f in ctx.facts: E.cons.append(E.lin(f) >= 0)
    for f in ctx.neq: E.cons.append(E.lin(f) != 0)
    for i, nm, v in ctx.trace:
        lo, hi = v if isinstance(v, tuple) else (v, v)
        x = E.v(i); E.cons += [x >= lo, x <= hi]
    res = ctx.__dict__.get("resid")
    if res:
        for i in sorted(patoms(res)):
            a = ctx.atoms[i]
            if a.kind != "field" and a.const is None and len(goals) < 24: goals += [E.v(i) != 0, E.v(i) == a.hi, E.v(i) == a.lo]
    try: E.close()
    except Unsupported: return
    sol = z3.Solver(); sol.set("timeout", 4000); sol.set("random_seed", rng.randrange(1 << 20))
    sol.add(*E.cons)
    if sol.check() == z3.unsat: return
    ins = [i for k, nm, vs in ctx.__dict__.get("inp", []) for v in vs if isinstance(v, Sym) for i in patoms(v.p) if i in E.var and ctx.atoms[i].const is None]
    for t in range(n):
        if time.time() > until: return
        sol.push()
        if goals:
            g = goals[t % len(goals)] if t < len(goals) else rng.choice(goals)
            sol.add(g)
        # diversity: try to fix some inputs at random values
        base = sol.check() == z3.sat
        if base:
            m = sol.model()
            for i in rng.sample(ins, min(len(ins), 3)):
                a = ctx.atoms[i]; sol.push(); sol.add(E.var[i] == rng.choice((a.lo, a.hi, rng.randint(a.lo, a.hi))))
                if sol.check() == z3.sat: m = sol.model()
                else: sol.pop()
            yield {i: m.eval(x, model_completion=True).as_long() for i, x in E.var.items()}
        while sol.num_scopes(): sol.pop()

CAP = 1 << 21
def inputs(ctx, mdl, rng):
    """name -> bytes / list of ints / message"""
    out = {}; env = {}
    def val(i):
        if i in env: return env[i]
        a = ctx.atoms[i]
        if a.const is not None: r = a.const
        elif i in mdl: r = mdl[i]
        elif a.hi - a.lo < 256: r = rng.choice((a.lo, a.hi, rng.randint(a.lo, a.hi), rng.randint(a.lo, a.hi)))
        else: r = rng.choice((a.lo, a.hi, rng.randint(a.lo, a.hi), rng.randint(a.lo, min(a.hi, a.lo + 300))))
        env[i] = r; return r
    def ev(v):
        if isinstance(v, int): return v
        return ctx.peval(v.p, {i: val(i) for i in patoms(v.p)}) & ((1 << v.w) - 1)
    msgb = ctx.__dict__.get("msgb", {})
    for kind, nm, vs in ctx.__dict__.get("inp", []):
        if kind == "msg":
            v = vs[0]
            i = None if isinstance(v, int) else next(iter(patoms(v.p)))
            if i is not None and i not in mdl and ctx.atoms[i].const is None: n = rng.choice([l for l in (0, 1, 2, 64, 200, 1000) if ctx.atoms[i].lo <= l <= ctx.atoms[i].hi] or [ctx.atoms[i].lo]); env[i] = n
            else: n = ev(v)
            if n > CAP: return None
            b = bytearray(rng.randrange(256) for _ in range(n)) if n < 5000 else bytearray(rng.randbytes(n))
            for (mn, off), x in msgb.items():
                if mn != nm: continue
                o = ctx.peval(dict(off), {j: val(j) for j in patoms(dict(off))})
                if 0 <= o < n: b[int(o)] = ev(x)
            out[nm] = bytes(b)
        elif kind == "bytes": out[nm] = bytes(ev(x) & 255 for x in vs)
        else: out[nm] = [ev(x) for x in vs]
    return out

def search(prop, key, ctx, rng, n, until):
    """cases for a failed obligation"""
    import api, probe
    out = []
    for m in models(ctx, rng, n, until):
        try: d = inputs(ctx, m, rng)
        except (KeyError, IndexError, TypeError): continue
        if d is None: continue
        out += cases(prop, key, d, rng)
    return out

def cases(prop, key, d, rng):
    import api, probe, ref
    dem = key[0]; nm = dem.split("::")[-1]
    if "bignumber" in dem:
        fs = [v for k, v in d.items() if k[0] == "f"]
        return probe.fe_cases(nm, (), key[2] if len(key) > 2 else (), rng, 1, [fs]) if fs and all(len(v) == 16 for v in fs) else []
    if "::scalar::" in dem:
        fs = [v for k, v in d.items() if k[0] in "xy"]; b = d.get("b")
        return probe.sc_cases(nm, (), rng, 1, ops=[fs] if b is None else None, bts=None if b is None else [b])
    if "pub" in d or "sig" in d:
        m = d.get("M", b""); out = []
        k = bytes(rng.randrange(256) for _ in range(57)); p, s = ref.derive(k), ref.sign(k, m)
        pub, sig = d.get("pub", p), d.get("sig", s)
        for a, b in ((pub, sig), (p, sig), (pub, s), (p, s)): out += api.vcase2(a, b, m)
        return out
    if "text" in d: return api.textcases(prop, d["text"])
    if "k" in d: return api.kcases(prop, d["k"], d.get("n", d["k"][::-1]), d.get("M", b""))
    return []
