"""Contracts for the scalar multiplications of extended_point.rs."""
from dom import *
from interp import *
from fe import *
import sc, pt
from pt import GE, EP, TE

class MulC:
    """result = [s]P (point_scalar_mul) or [s]B4 (precomputed_scalar_mul) for every scalar s < q and every P of the subgroup"""
    def __init__(s, dem, var):
        s.dem = dem; s.var = var
        s.nparams = 3 if var else 2
    def apply(s, V):
        def call(it, args, dem, fn):
            if fn is not None and len(it.mod.fn(fn.name).params) != s.nparams: return NotImplemented
            ctx = it.ctx
            a = list(args); out = a.pop(0); g = None; b = ()
            if s.var:
                r = pt.recognise(it, a.pop(0), "E", V.layout.E)
                if r.g is None:
                    it.ghost.setdefault("unrec", []).append((dem, r.why)); return NotImplemented
                g = r.g; b = (r.bounds,)
            v = sc.word_val(ctx, sc.rd_words(it, a.pop(0)))
            if not V.ge0(it, sc.le(v, QQ - 1)): return NotImplemented
            it.oblige("pre:%s: scalar < q" % dem, True)
            inst = V.pt_inst(s, b, g.eps if g else 0)
            it.used[dem] = it.used.get(dem, 0) + 1
            if not inst.ok: V.bad_use(it, inst, dem)
            v = ctx.nf(v, QQ)
            if s.var: w = GE({n: pmod(pmul(c, v), QQ) for n, c in g.c.items()}, inst.oeps)
            else: w = GE({"B": v}, inst.oeps)
            pt.pt_write(it, V, out, "E", w, inst.out)
            return None
        return call
    def verify(s, V, bs, eps):
        fns = V.mod.bydem.get(s.dem)
        if not fns: raise Unsupported("lost anchor " + s.dem)
        fn = V.mod.fn(fns[0].name)
        if len(fn.params) != s.nparams: raise Unsupported("signature of " + s.dem)
        outb = [[0] * 16 for _ in range(4)]
        s.oeps = None
        def setup(it):
            ctx = it.ctx; g = pt.G(ctx); g.f.keepsmall = True
            so = Obj("out", 256); so2 = Obj("s", 56); args = [Ptr(so, 0)]
            if s.var:
                a = Obj("P", 256); ge = GE({"P": pconst(1)}, eps)
                pt.pt_fresh(it, V, Ptr(a, 0), "E", ge, bs[0]); args.append(Ptr(a, 0)); cells = dict(a.cells)
            ws = []
            for i in range(14):
                ws.append(ctx.fresh("s%d" % i, 32)); it.mem.write(so2, 4 * i, 4, ws[-1])
            v = sc.word_val(ctx, ws); ctx.facts.append(sc.le(v, QQ - 1))
            args.append(Ptr(so2, 0))
            it.run(fn.name, args)
            r = pt.recognise(it, Ptr(so, 0), "E", V.layout.E)
            if r.g is None:
                it.oblige("%s: result represents the multiple" % s.dem, False, "%s %s" % (r.why, it.ghost.get("unrec", [])[:1])); return
            d = pt.gsame(ctx, r.g, GE({"P" if s.var else "B": v}))
            it.oblige("%s: result is the exact multiple for every scalar below q" % s.dem, not d, "; ".join(ctx.show(x) for x in d.values())[:300])
            for j in range(4):
                outb[j] = [max(x, r.bounds[j]) for x in outb[j]]
            if s.oeps is not None and s.oeps != r.g.eps: raise Unsupported("torsion component varies between paths")
            s.oeps = r.g.eps
            if s.var:
                same = all(a.cells.get(k) is x or a.cells.get(k) == x for k, x in cells.items())
                it.oblige("%s: operand not modified" % s.dem, same)
        return setup, outb

def mul_contracts():
    L = [MulC(TE + "point_scalar_mul", True), MulC(EP + "precomputed_scalar_mul", False)]
    return {c.dem: c for c in L}
