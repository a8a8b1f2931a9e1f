"""Instance management and obligation discharge."""
import time
from dom import *
from interp import *
import fe, ir, sc, pt, mulc, heap, rope, apic, dwarf, hexm, wnaf
from fe import PP, QQ, F

class Verifier:
    def __init__(s, mod, log=None, disabled=()):
        s.mod = mod; s.disabled = set(disabled); mod.badapply = set()
        s.insts = {}
        s.stack = []
        s.fe = fe.fe_contracts()
        s.models = list(heap.MODELS) + list(rope.MODELS) + list(hexm.MODELS)
        s.assumed = {}
        s.contracts = {}
        s.unfit = []
        def fits(d, *a):
            if d not in mod.bydem: return False
            if len(mod.bydem[d]) != 1 or not a[0].adapt(mod.fn(mod.bydem[d][0].name), *a[1:]): s.unfit.append(d); return False
            return True
        for d, c in list(s.fe.items()):
            if fits(d, c): s.contracts[d] = c.apply(s)
        s.sc = sc.sc_contracts()
        for d, c in s.sc.items():
            if fits(d, c, mod): s.contracts[d] = c.apply(s)
        s.pt = pt.pt_contracts()
        try:
            s.layout = pt.Layout(mod)
            for d, c in s.pt.items():
                if d in mod.bydem: s.contracts[d] = c.apply(s)
            s.mul = mulc.mul_contracts()
            for d, c in s.mul.items():
                if d in mod.bydem: s.contracts[d] = c.apply(s)
            s.dwarf = mod.__dict__.get("dwarf") or mod.__dict__.setdefault("dwarf", dwarf.Dwarf(mod))
            s.api = apic.api_contracts()
            for d, c in s.api.items():
                if d in mod.bydem: s.contracts[d] = c.apply(s)
            s.rec = wnaf.RecC()
            if s.rec.dem in mod.bydem: s.contracts[s.rec.dem] = s.rec.apply(s)
        except Unsupported as e: s.layout = None
        s.log = log; s.debug = False
        for d in s.disabled: s.contracts.pop(d, None)
    def scope(s, excl):
        """contracts usable inside the body of excl"""
        return {d: c for d, c in s.contracts.items() if d != excl}
    # ------------------------------------------------------------ instances
    def fe_inst(s, c, bs, ks):
        key = (c.dem, bs, ks)
        i = s.insts.get(key)
        if i is None:
            if key in s.stack: raise Unsupported("recursive contract")
            s.stack.append(key)
            t = time.time()
            setup, outb = c.verify(s, bs, ks)
            r = explore(s.mod, setup, s.scope(c.dem), s.models)
            i = s.record(key, r, t); i.out = outb
            s.stack.pop()
        return i
    def pt_inst(s, c, bs, flag):
        key = (c.dem, bs, flag)
        i = s.insts.get(key)
        if i is None:
            if key in s.stack: raise Unsupported("recursive contract")
            s.stack.append(key)
            t = time.time()
            try:
                setup, outb = c.verify(s, bs, flag)
                r = explore(s.mod, setup, s.scope(c.dem), s.models)
            finally: s.stack.pop()
            i = s.record(key, r, t); i.out = outb
            i.oeps = getattr(c, "oeps", 0) or 0
        return i
    def run_inst(s, key, th):
        """instance of a contract proved by several explorations; th() -> (Result, output bounds, torsion components)"""
        i = s.insts.get(key)
        if i is None:
            if key in s.stack: raise Unsupported("recursive contract")
            s.stack.append(key); t = time.time()
            try: r, out, es = th()
            except Unsupported as e:
                r = Result(); r.unsupported.append((str(e), "")); out = None; es = {0}
            finally: s.stack.pop()
            i = s.record(key, r, t); i.out = out; i.eset = es
        return i
    def rec_inst(s, c, tb, n): return s.run_inst((c.dem, (), (tb, n)), lambda: (c.run(s, tb, n), None, None))
    def use(s, it, c, dem, bs, flag=0):
        """use of a contract at a call site: its instance is verified, or it is recorded as assumed"""
        it.used[dem] = it.used.get(dem, 0) + 1
        if hasattr(c, "run"):
            inst = s.run_inst((c.dem, tuple(bs), flag), lambda: c.run(s, tuple(bs), flag))
            if inst.unsupported: s.assumed[dem] = s.assumed.get(dem, 0) + 1
            elif not inst.ok: s.bad_use(it, inst, dem)
            return inst
        if not hasattr(c, "verify"):
            s.assumed[dem] = s.assumed.get(dem, 0) + 1; return None
        inst = s.pt_inst(c, tuple(bs), 0)
        if not inst.ok: s.bad_use(it, inst, dem)
        return inst
    def scenario(s, key, setup, cls=None):
        i = s.insts.get(key)
        if i is None:
            t = time.time()
            r = explore(s.mod, setup, s.scope(key[0]), s.models, cls=cls or apic.ApiInterp)
            i = s.record(key, r, t)
        return i
    def sc_inst(s, c, ks):
        key = (c.dem, ks)
        i = s.insts.get(key)
        if i is None:
            if key in s.stack: raise Unsupported("recursive contract")
            s.stack.append(key)
            t = time.time()
            try: r = explore(s.mod, c.verify(s, ks), s.scope(c.dem), s.models)
            finally: s.stack.pop()
            i = s.record(key, r, t)
        return i
    def ge0(s, it, p):
        ctx = it.ctx
        if ctx.prove_ge0(p): return True
        # products: bound each factor over its own atoms
        return False
    def prove_sc(s, it, name, ws, spec):
        ctx = it.ctx
        def res():
            return ctx.nf(padd(sc.word_val(ctx, ws), spec, -1), QQ)
        ok = s.splitprove(it, lambda: not res(), res)
        if not ok: ctx.resid = res()
        it.oblige(name + ": value is exact modulo q", ok, "" if ok else "residue " + ctx.show(res()))
        v = sc.word_val(ctx, ws)
        test = lambda: ctx.prove_ge0(padd(pconst(QQ - 1), v, -1))
        ok2 = s.splitprove(it, test, lambda: ctx.nf(v))
        it.oblige(name + ": result is below q", ok2, "")
    def record(s, key, r, t):
        i = Inst_()
        i.key = key; i.obls = [(o[0], o[1], o[2]) for o in r.obls]
        i.fails = [o for o in r.obls if not o[1]]
        i.unsupported = r.unsupported; i.paths = r.paths; i.time = time.time() - t; i.used = r.used; i.instrs = r.instrs
        i.ok = not i.fails and not r.unsupported and r.paths > 0 and len(i.obls) > 0
        i.extra = None
        s.insts[key] = i
        if s.log: s.log("%-60s %s obl=%d paths=%d %.2fs %s" % (str(key)[:110], "ok" if i.ok else "FAILED", len(i.obls), i.paths, i.time, [(x[0], x[2]) for x in i.fails][:2] + i.unsupported[:2]))
        return i
    def bad_use(s, it, inst, dem):
        it.ghost.setdefault("baduse", []).append(inst.key)
    # ------------------------------------------------------------ proving
    def splitprove(s, it, test, residue, limit=8):
        """prove by case analysis on small atoms occurring in the residue"""
        ctx = it.ctx
        for _ in range(limit):
            if test(): return True
            e = residue()
            c = [i for i in sorted(patoms(e)) if ctx.atoms[i].const is None and ctx.atoms[i].kind != "field" and ctx.atoms[i].hi - ctx.atoms[i].lo <= 3]
            if not c: return False
            ctx.decide(c[-1], list(ctx.dom(c[-1])))
        return test()
    def prove_fe(s, it, name, limbs, spec):
        ctx = it.ctx; f = F(ctx)
        def res():
            p = {}
            for i, x in enumerate(limbs): p = padd(p, pscale(ctx.P(x), 1 << (28 * i)))
            return f.norm(ctx.nf(padd(f.ex(f.norm(ctx.nf(p, PP))), f.ex(spec), -1), PP))
        ok = s.splitprove(it, lambda: not res(), res)
        if not ok: ctx.resid = res()
        it.oblige(name, ok, "" if ok else "residue " + ctx.show(res()))
        return ok
    def prove_canon(s, it, name, limbs):
        ctx = it.ctx
        V = {}
        for i, x in enumerate(limbs):
            V = padd(V, pscale(ctx.P(x), 1 << (28 * i)))
            if not isinstance(x, int) and not (x.lo >= 0 and x.hi < 1 << 28): it.oblige(name + ": limb range", False, "%d" % i)
        it.oblige(name + ": result is below p", ctx.prove_ge0(padd(pconst(PP - 1), V, -1)), "")

class Inst_: pass
