"""Contracts of recode_wnaf and point_double_scalamul_non_secret: loop cuts with inductive invariants.

A loop is cut at its header block.  The cells that carry the invariant (the roles) are found by running the code once on concrete
data and comparing the trace of every cell with the trace of the ghost variables; then the invariant is proved inductive on the IR:
at the header the roles get fresh symbolic values, every other cell that may have changed is made undefined, one iteration is
executed on all paths and the invariant is checked where the path meets the header again."""
import random
from dom import *
from interp import *
from fe import *
import sc, pt
from pt import GE, EP, TE

def loops(f):
    """natural loop headers of f: label -> set of blocks"""
    succ = {}
    for l, b in f.blocks.items():
        o = []
        for ins in b:
            if ins[0] == "br": o.append(ins[2])
            elif ins[0] == "cbr": o += [ins[3], ins[4]]
            elif ins[0] == "switch": o += [ins[4]] + [x[1] for x in ins[5]]
            elif ins[0] == "call" and ins[6] is not None: o.append(ins[6])
        succ[l] = [x for x in o if x in f.blocks]
    pred = {l: [] for l in succ}
    for l, o in succ.items():
        for x in o: pred[x].append(l)
    heads = {}; state = {}
    st = [(f.entry, iter(succ[f.entry]))]; state[f.entry] = 1
    while st:
        l, itr = st[-1]
        for x in itr:
            if state.get(x) == 1:
                body = {x, l}; w = [l]
                while w:
                    y = w.pop()
                    if y == x: continue
                    for z in pred[y]:
                        if z not in body: body.add(z); w.append(z)
                heads.setdefault(x, set()).update(body)
            elif x not in state:
                state[x] = 1; st.append((x, iter(succ[x]))); break
        else:
            state[l] = 2; st.pop()
    return heads

def regs(it):
    """{(frame, register): (frame function, env)} of the active frames"""
    return {("%%%d:%s" % (d, f.dem), k): (f, env) for d, (f, env) in enumerate(it.frames) for k in env}
def reach(it):
    """writable objects reachable from the registers of the active frames, in a deterministic order, with stable names"""
    out = {}; seen = set(); n = 0
    w = [v for f, env in it.frames for k, v in sorted(env.items()) if isinstance(v, Ptr)]
    i = 0
    while i < len(w):
        o = w[i].obj; i += 1
        if id(o) in seen or o.ro: continue
        seen.add(id(o))
        nm = o.name if o.name != "heap" else "heap#%d" % n
        n += 1
        while nm in out: nm += "'"
        out[nm] = o
        if o.kind is None:
            for off in sorted(o.cells):
                v = o.cells[off][0]
                if isinstance(v, Ptr): w.append(v)
    return out
def regw(f, reg):
    """byte width of an integer register, or None"""
    d = getattr(f, "regw", None)
    if d is None:
        d = {}
        for b in f.blocks.values():
            for i in b:
                t = {"load": 2, "bin": 3, "cast": 5}.get(i[0])
                if t is not None and getattr(i[t], "k", None) == "i" and i[t].n in (32, 64): d[i[1]] = i[t].n // 8
        f.regw = d
    return d.get(reg)
def snapshot(it):
    r = {k: (env[k[1]], regw(f, k[1])) for k, (f, env) in regs(it).items()}
    r.update(cells(it)); return r
def cells(it):
    return {(nm, off): c + (id(o),) for nm, o in reach(it).items() if o.kind is None for off, c in o.cells.items()}
def same(a, b):
    if a is b: return True
    if a[1] != b[1]: return False
    x, y = a[0], b[0]
    if x is y: return True
    if isinstance(x, Sym) and isinstance(y, Sym): return x.p == y.p
    if isinstance(x, (Sym, T)) or isinstance(y, (Sym, T)): return x is y
    return type(x) == type(y) and x == y

class Cut:
    """shared state of the phases of one function: poisoned cells grow until stable"""
    def __init__(s): s.poison = set(); s.grown = False
    def havoc(s, it, base, roles):
        """undefine every cell that is not known to have its value of the snapshot base; set the roles; returns the kept cells"""
        kept = {}
        for k, (f, env) in regs(it).items():
            if k in roles: continue
            if k not in base or not same(base[k], (env[k[1]], base[k][1])): env[k[1]] = UNDEF
        objs = reach(it)
        for nm, o in objs.items():
            if o.kind is not None: continue
            for off in sorted(o.cells):
                c = o.cells.get(off)
                if c is None: continue
                k = (nm, off)
                if k in roles: continue
                if k in s.poison or k not in base or base[k][2] != id(o) or not same(base[k], c):
                    del o.cells[off]
                    for x in range(off, off + c[1]): o.own.pop(x, None)
                else: kept[k] = (o, c)
        return kept
    def check(s, it, kept):
        for k, (o, c) in kept.items():
            d = o.cells.get(k[1])
            if d is None or not same(c, d):
                if k not in s.poison: s.poison.add(k); s.grown = True

def merge(rs):
    r = Result()
    for x in rs:
        r.obls += x.obls; r.paths += x.paths; r.infeasible += x.infeasible; r.unsupported += x.unsupported; r.instrs += x.instrs
        for k, v in x.used.items(): r.used[k] = r.used.get(k, 0) + v
    return r

def sval(v, n):
    """signed value of a concrete cell"""
    return v - (1 << (8 * n)) if v >> (8 * n - 1) else v

class Ctl:
    """a control array: modes rec (events are recorded), trial (concrete digits), abs (the contract of recode_wnaf)"""
    def __init__(s, V, name, tb, mode, digits=None):
        s.offs = V.layout.off["SmvtControl"]; s.name = name; s.tb = tb; s.mode = mode; s.digits = digits
        s.ev = []; s.memo = {}; s.touch = None; s.imax = None
        if sorted(s.offs.values()) != [0, 8]: raise Unsupported("layout of SmvtControl")
    def idx(s, it, off, n):
        ctx = it.ctx
        if n != 8: raise Unsupported("partial control access")
        p = ctx.nf(ctx.P(ctx.U(off) if not isinstance(off, int) else off))
        r = pcval(p) % 16
        fld = next((k for k, o in s.offs.items() if o == r), None)
        p = padd(p, pconst(-r))
        if fld is None or any(c % 16 for c in p.values()): raise Unsupported("control access at an odd offset")
        return {m: c // 16 for m, c in p.items()}, fld
    def load(s, it, off, n):
        k, f = s.idx(it, off, n)
        if s.touch: s.touch(it)
        if s.mode == "rec":
            for e in reversed(s.ev):
                if e[0] == "w" and e[2] == f:
                    d = it.ctx.nf(padd(e[1], k, -1))
                    if not d: return e[3]
                    if not pisconst(d): break
            v = s.memo.setdefault((pkey(k), f), it.ctx.fresh("%s[%s]" % (s.name, f), 64))
            s.ev.append(("r", k, f, v)); return v
        if s.mode == "trial":
            if not pisconst(k): raise Unsupported("symbolic index in the trial run")
            d = s.digits
            if pcval(k) >= len(d): return 0
            return d[pcval(k)][f == "addend"] & (2**64 - 1)
        return s.entry(it, k, f)
    def store(s, it, off, n, v):
        if s.mode != "rec": raise Unsupported("store into a recoded control array")
        k, f = s.idx(it, off, n)
        s.ev.append(("w", k, f, v))
    def entry(s, it, k, f):
        ctx = it.ctx; kk = pkey(k); e = s.memo.get(kk)
        if e is None:
            e = {}; s.memo[kk] = e
            if not k:
                # the first entry: terminator exactly when the scalar is zero, otherwise its addend is positive
                a = ctx.atom(s.name + ".zero", 0, 1); ctx.decide(a.id, [0, 1])
                if a.const: e["p"] = -1
                else: e["p"] = ctx.fresh(s.name + ".power", 64, 0, 446); e["top"] = True
            else:
                hi = 446
                e["p"] = ctx.fresh(s.name + ".power", 64, -1, hi)
                if s.imax is not None: ctx.facts.append(padd(ctx.P(s.imax), ctx.P(e["p"]), -1))
        if f == "power": return e["p"] & (2**64 - 1) if isinstance(e["p"], int) else e["p"]
        if "a" not in e:
            p = e["p"]
            if not isinstance(p, int):
                i = next(iter(patoms(p.p)))
                if ctx.atoms[i].lo < 0 and not ctx.prove_ge0(p.p): ctx.decide(i, [(-1, -1), (0, 446)])
                p = ctx.atoms[i].const if ctx.atoms[i].const is not None else p
            if p == -1: e["a"] = 0
            else:
                sg = 1
                if not e.get("top"):
                    a = ctx.atom(s.name + ".neg", 0, 1); ctx.decide(a.id, [0, 1]); sg = -1 if a.const else 1
                h = ctx.fresh(s.name + ".half", 64, 0, (1 << s.tb) - 1)
                e["a"] = ctx.mk(pscale(padd(pscale(ctx.P(h), 2), pconst(1)), sg), 64)
        return e["a"]

def refsim(s, tb, W=29):
    """ghost run of the recoding: outer states (w, current, count), inner states (w, current, count), digits in order of emission"""
    cur = s & 0xffff; out = []; inn = []; dig = []
    for w in range(1, W + 1):
        out.append((w, cur, len(dig)))
        if w < 28: cur += ((s >> (16 * w)) & 0xffff) << 16
        while True:
            inn.append((w, cur, len(dig)))
            if not cur & 0xffff: break
            pos = v2(cur); odd = cur >> pos; d = odd & ((1 << (tb + 1)) - 1)
            if odd >> (tb + 1) & 1: d -= 1 << (tb + 1)
            cur -= d << pos; dig.append((pos + 16 * (w - 1), d))
        cur >>= 16
    out.append((W + 1, cur, len(dig)))
    return out, inn, dig

class Roles(dict): pass
def fit(traces, exp):
    """cells whose trace is +-x + constant for one of the ghost variables; traces: [snapshot], exp: [tuple]; {cell: (var, sign, const)}"""
    roles = Roles(); roles.w = {}
    keys = set(traces[0])
    for t in traces[1:]: keys &= set(t)
    for k in keys:
        vs = [t[k] for t in traces]
        if any(not isinstance(v[0], int) or v[1] not in (4, 8) for v in vs): continue
        n = vs[0][1]; xs = [sval(v[0], n) for v in vs]
        if len(set(xs)) == 1: continue
        for j in range(len(exp[0])):
            es = [e[j] for e in exp]
            for sg in (1, -1):
                c = {x - sg * e for x, e in zip(xs, es)}
                if len(c) == 1: roles[k] = (j, sg, c.pop()); roles.w[k] = n; break
            if k in roles: break
    return roles
def setroles(it, roles, vals):
    objs = reach(it); ctx = it.ctx; rg = regs(it)
    for (nm, off), (j, sg, c) in roles.items():
        if nm[0] == "%":
            rg[(nm, off)][1][off] = ctx.mk(padd(pscale(ctx.P(vals[j]), sg), pconst(c)), 8 * roles.w[(nm, off)]); continue
        o = objs[nm]; n = o.cells[off][1]
        v = ctx.mk(padd(pscale(ctx.P(vals[j]), sg), pconst(c)), 8 * n)
        it.mem.write(o, off, n, v)
def getroles(it, roles, nv):
    """values of the ghost variables at a header as polynomials; None when the cells disagree"""
    objs = reach(it); ctx = it.ctx; r = [None] * nv; rg = regs(it)
    for (nm, off), (j, sg, c) in sorted(roles.items()):
        if nm[0] == "%": cell = (rg[(nm, off)][1][off], roles.w[(nm, off)]) if (nm, off) in rg else None
        else:
            o = objs.get(nm); cell = o.cells.get(off) if o is not None else None
        if cell is None or isinstance(cell[0], Ptr): return None
        v = cell[0]; n = cell[1]
        if isinstance(v, T): v = ctx.force(v)
        v = ctx.Sv(v, 8 * n)
        p = ctx.nf(pscale(padd(v.p, pconst(-c)), sg))
        if r[j] is None: r[j] = p
        elif ctx.nf(padd(r[j], p, -1)): return None
    return r

class RecC:
    """recode_wnaf(control, s, tb): the first n entries of control are (power, addend) pairs with strictly decreasing powers (gaps of at
    least tb+2), odd addends below 2^(tb+1) in absolute value, the first one positive, followed by the terminator (-1, 0); the sum of
    addend * 2^power is s."""
    dem = EP + "recode_wnaf"; nparams = 4
    def apply(s, V):
        def call(it, args, dem, fn):
            st = it.ghost.get("wnaf")
            if st is None or fn is None or len(it.mod.fn(fn.name).params) != 4: return NotImplemented
            ctx = it.ctx; c, n, sp, tb = args
            if not isinstance(c, Ptr) or c.off != 0 or not isinstance(n, int) or not isinstance(tb, int): raise Unsupported("recode_wnaf arguments")
            v = ctx.nf(sc.word_val(ctx, sc.rd_words(it, sp)))
            nm = next((k for k, x in st["scalars"].items() if not ctx.nf(padd(x, v, -1))), None)
            if nm is None or nm in st["ctl"]: raise Unsupported("recoding of an unexpected scalar")
            inst = V.rec_inst(s, tb, n)
            it.used[dem] = it.used.get(dem, 0) + 1
            if not inst.ok:
                if inst.unsupported or not inst.fails: raise Unsupported("recode_wnaf is undecided")
                V.bad_use(it, inst, dem)
            o = c.obj; o.kind = "ctl"; o.cells = {}; o.own = {}
            o.d = Ctl(V, nm, tb, st["mode"], st["digits"][nm]); o.d.touch = st["touch"]
            st["ctl"][nm] = o.d; st["len"][nm] = n
            return ctx.fresh("nrec", 32)
        return call
    def run(s, V, tb, L):
        fns = V.mod.bydem.get(s.dem)
        if not fns: raise Unsupported("lost anchor " + s.dem)
        f = V.mod.fn(fns[0].name)
        if len(f.params) != 4: raise Unsupported("signature of " + s.dem)
        hs = loops(f)
        nest = [(a, b) for a in hs for b in hs if a != b and hs[b] < hs[a]]
        if len(nest) != 1: raise Unsupported("loop structure of recode_wnaf")
        O, I = nest[0]; rest = [h for h in hs if h not in (O, I)]
        if len(rest) > 1: raise Unsupported("loop structure of recode_wnaf")
        C = rest[0] if rest else None
        CC = V.scope(s.dem)
        def start(it, words, hooks):
            a = Obj("s", 56); a.ro = False
            for i, w in enumerate(words): it.mem.write(a, 4 * i, 4, w)
            c = Obj("control", 16 * L, kind="ctl"); c.d = Ctl(V, "c", tb, "rec")
            it.ghost["loop"] = {s.dem: hooks}
            it.ghost["c"] = c.d
            r = it.run(f.name, [Ptr(c, 0), L, Ptr(a, 0), tb])
            return c.d, r
        # ---- trial run: find the role cells
        rng = random.Random(7)
        s0 = sum(rng.getrandbits(16) << (16 * i) for i in range(27)) | 0x2bcd << 432
        out, inn, dig = refsim(s0, tb)
        tr = {O: [], I: [], C: []}
        def rec(l):
            def h(it, f_, env, lab): tr[l].append(snapshot(it))
            return h
        ok = []
        def trial(it):
            c, r = start(it, [s0 >> (32 * i) & 0xffffffff for i in range(14)], {l: rec(l) for l in tr if l})
            ok.append(c)
            it.oblige("trial", True)
        rt = explore(V.mod, trial, CC, V.models)
        W = len(tr[O]) - 1
        if not 1 <= W <= 40: raise Unsupported("recode_wnaf: the trial run does not follow the recoding loop")
        out, inn, dig = refsim(s0, tb, W)
        if not ok or rt.unsupported or len(tr[O]) != len(out) or len(tr[I]) != len(inn): raise Unsupported("recode_wnaf: the trial run does not follow the recoding loop %s" % (rt.unsupported[:1],))
        RO = fit(tr[O], out); RI = fit(tr[I], inn)
        for R in (RO, RI):
            if {r[0] for r in R.values()} != {0, 1, 2}: raise Unsupported("recode_wnaf: loop state not identified")
        RC = None
        if C is not None:
            n = len(dig) + 1
            if len(tr[C]) != n + 1: raise Unsupported("recode_wnaf: copy loop not identified")
            RC = fit(tr[C], [(i,) for i in range(n + 1)])
            if not RC: raise Unsupported("recode_wnaf: copy loop not identified")
        # index of the terminator, from the trial
        term = [e for e in ok[0].ev if e[0] == "w" and e[2] == "power"]
        if not term or not pisconst(term[0][1]): raise Unsupported("recode_wnaf: terminator")
        p1 = pcval(term[0][1]); p0 = p1 - 1
        cut = Cut()
        MX = lambda w, m: max(0, (16 * (w - 1) + m) // (tb + 2))
        bad = lambda it, what, d="": it.oblige("%s: %s" % (s.dem, what), False, d)
        good = lambda it, what: it.oblige("%s: %s" % (s.dem, what), True)
        def words(it):
            ctx = it.ctx; h = [ctx.fresh("s.%d" % i, 16, 0, (1 << 14) - 1 if i == 27 else 65535) for i in range(28)]
            return h, [ctx.mk(padd(h[2 * i].p, pscale(h[2 * i + 1].p, 65536)), 32) for i in range(14)]
        def evs(it): return [e for e in it.ghost["c"].ev if e[0] == "w"]
        def pw(it, idx):
            """pending writes as {index key: {field: value}}"""
            r = {}
            for e in evs(it): r.setdefault(pkey(e[1]), (e[1], {}))[1][e[2]] = e[3]
            return list(r.values())
        # ---- phases
        def phase(kind, w=None, m=0, K=None, pos=None):
            def setup(it):
                ctx = it.ctx; h, ws = words(it); st = {"n": 0, "base": None}
                def at_outer(it, f_, env, lab):
                    st["n"] += 1
                    if st["base"] is None: st["base"] = snapshot(it)
                    if kind == "E":
                        g = getroles(it, RO, 3)
                        if g is None: bad(it, "loop state at entry is consistent"); raise PathDone()
                        okk = g[0] == pconst(1) and not ctx.nf(padd(g[1], ctx.P(h[0]), -1)) and not g[2]
                        it.oblige("%s: invariant holds on entry" % s.dem, okk, str([ctx.show(x) for x in g]))
                        W = pw(it, None)
                        okk = len(W) == 1 and W[0][0] == pconst(p1) and W[0][1].get("power") == 2**64 - 1 and W[0][1].get("addend") == 0 and p1 < L
                        it.oblige("%s: terminator written" % s.dem, okk)
                        raise PathDone()
                    if st["n"] == 1 and kind in ("O", "F"):
                        it.ghost["c"].ev.clear()
                        st["kept"] = cut.havoc(it, st["base"], RO)
                        cnt = ctx.fresh("cnt", 64, 0, MX(w, m))
                        cur = 0
                        if K is not None and K >= 0: cur = ctx.mk(pscale(ctx.P(ctx.fresh("cur", 64, 0, (1 << K) >> m)), 1 << m), 64)
                        st["v"] = [w, cur, cnt]
                        setroles(it, RO, st["v"]); return
                    if st["n"] == 1 and kind == "I": return
                    if kind == "I" and pos is None and st.get("v"):
                        g = getroles(it, RO, 3)
                        if g is None: bad(it, "loop state is consistent at the next word"); raise PathDone()
                        v = [ctx.P(x) for x in st["v"]]
                        okk = not ctx.nf(padd(padd(g[0], v[0], -1), pconst(-1))) and not ctx.nf(padd(pscale(g[1], 65536), v[1], -1)) and not ctx.nf(padd(g[2], v[2], -1)) and not evs(it)
                        it.oblige("%s: next word keeps the value and the digits" % s.dem, okk, str([ctx.show(x) for x in g]))
                        cut.check(it, st["kept"])
                        raise PathDone()
                    bad(it, "unexpected return to the outer loop", "phase %s w=%s m=%s pos=%s" % (kind, w, m, pos)); raise PathDone()
                def at_inner(it, f_, env, lab):
                    if kind == "I" and not st.get("v"):
                        it.ghost["c"].ev.clear()
                        st["kept"] = cut.havoc(it, st["base"], RI)
                        W = ctx.fresh("w", 64, 1, 26) if w is None else w
                        wm = 26 if w is None else w
                        cnt = ctx.fresh("cnt", 64, 0, MX(wm, m))
                        if pos is None:
                            # low 16 bits are zero
                            e = max(16, m); top = (1 << K) >> e if K >= 0 else 0
                            cur = ctx.mk(pscale(ctx.P(ctx.fresh("hi", 64, 0, top)), 1 << e), 64)
                        else:
                            l = ctx.fresh("l", 64, 0, (1 << tb) - 1); b = ctx.fresh("b", 64, 0, int((1 << pos) + (1 << (pos + tb + 1)) <= 1 << K))
                            e = pos + tb + 2
                            hi = ctx.fresh("hi", 64, 0, max(0, ((1 << K) - (1 << pos)) >> e))
                            p = padd(padd(pconst(1 << pos), pscale(l.p, 2 << pos)), padd(pscale(ctx.P(b), 1 << (pos + tb + 1)), pscale(ctx.P(hi), 1 << e)))
                            ctx.facts.append(padd(pconst(1 << K), p, -1))
                            if ctx.bounds(p)[0] > 1 << K or not ctx.feasible(): raise Infeasible()
                            cur = ctx.mk(p, 64, None, 1 << K)
                            st["hb"] = (ctx.P(hi), ctx.P(b))
                        st["v"] = [W, cur, cnt]
                        setroles(it, RI, st["v"]); return
                    g = getroles(it, RI, 3)
                    if g is None: bad(it, "loop state is consistent at the inner loop"); raise PathDone()
                    v = [ctx.P(x) for x in st["v"]]
                    if kind == "O":
                        add = pscale(ctx.P(h[w]), 65536) if w < 28 else {}
                        okk = g[0] == pconst(w) and not ctx.nf(padd(padd(g[1], v[1], -1), add, -1)) and not ctx.nf(padd(g[2], v[2], -1)) and not evs(it)
                        it.oblige("%s: the next 16 bits of the scalar are added" % s.dem, okk, "w=%d %s" % (w, [ctx.show(x) for x in g]))
                        cut.check(it, st["kept"]); raise PathDone()
                    if kind == "I" and pos is not None:
                        W = pw(it, None)
                        okk = len(W) == 1 and set(W[0][1]) == {"power", "addend"} and not ctx.nf(padd(padd(W[0][0], v[2]), pconst(-p0)))
                        it.oblige("%s: exactly one entry is written, below the previous one" % s.dem, okk, str([ctx.show(x[0]) for x in W]))
                        if okk:
                            pwr = ctx.Sv(W[0][1]["power"], 64).p; a = ctx.Sv(W[0][1]["addend"], 64).p
                            okk = not ctx.nf(padd(padd(pwr, pconst(16 - pos)), pscale(v[0], 16), -1))
                            it.oblige("%s: power is the weight of the lowest set bit" % s.dem, okk, ctx.show(ctx.nf(pwr)))
                            d = ctx.nf(padd(padd(g[1], pscale(a, 1 << pos)), v[1], -1))
                            it.oblige("%s: the remaining value drops by the digit" % s.dem, not d, ctx.show(d))
                            d = ctx.nf(padd(g[1], pscale(padd(st["hb"][0], st["hb"][1]), 1 << (pos + tb + 2)), -1))
                            it.oblige("%s: the remaining value is a multiple of 2^(pos+tb+2)" % s.dem, not d, ctx.show(d))
                            okk = ctx.prove_ge0(padd(pconst(1 << K), g[1], -1)) and ctx.prove_ge0(g[1])
                            it.oblige("%s: the remaining value stays in range" % s.dem, okk, "pos=%d K=%d" % (pos, K))
                            okk = ctx.prove_ge0(padd(pconst((1 << (tb + 1)) - 1), a, -1)) and ctx.prove_ge0(padd(pconst((1 << (tb + 1)) - 1), a))
                            it.oblige("%s: addend below 2^(tb+1)" % s.dem, okk, ctx.show(a))
                        okk = not ctx.nf(padd(g[0], v[0], -1)) and not ctx.nf(padd(padd(g[2], v[2], -1), pconst(-1)))
                        it.oblige("%s: one digit is counted" % s.dem, okk)
                        cut.check(it, st["kept"]); raise PathDone()
                    bad(it, "unexpected arrival at the inner loop", "phase %s w=%s m=%s pos=%s" % (kind, w, m, pos)); raise PathDone()
                def at_copy(it, f_, env, lab):
                    if kind != "F": bad(it, "copy reached early"); raise PathDone()
                    st["k"] = st.get("k", 0) + 1
                    v = [ctx.P(x) for x in st["v"]]
                    c = it.ghost["c"]
                    if st["k"] == 1:
                        g = getroles(it, RC, 1)
                        if g is None or g[0] or evs(it): bad(it, "copy starts at the first entry"); raise PathDone()
                        if pos == "body":
                            st["base2"] = snapshot(it)
                            st["kept2"] = cut.havoc(it, st["base2"], RC)
                            i = ctx.fresh("i", 64, 0, MX(w, m)); st["i"] = i
                            ctx.facts.append(padd(v[2], i.p, -1))
                            setroles(it, RC, [i]); return
                        # exit: i = n
                        st["base2"] = snapshot(it)
                        st["kept2"] = cut.havoc(it, st["base2"], RC)
                        setroles(it, RC, [ctx.mk(padd(v[2], pconst(1)), 64)])
                        return
                    if pos != "body": bad(it, "the copy ends after the last entry"); raise PathDone()
                    g = getroles(it, RC, 1); i = st["i"].p
                    okk = g is not None and not ctx.nf(padd(padd(g[0], i, -1), pconst(-1)))
                    W = pw(it, None)
                    okk = okk and len(W) == 1 and set(W[0][1]) == {"power", "addend"} and not ctx.nf(padd(W[0][0], i, -1))
                    if okk:
                        src = padd(padd(i, pconst(p1)), v[2], -1)
                        for fl in ("power", "addend"):
                            x = W[0][1][fl]; e = c.memo.get((pkey(ctx.nf(src)), fl))
                            if e is None or x is not e: okk = False
                    it.oblige("%s: the entries move down in order" % s.dem, okk)
                    cut.check(it, st["kept2"]); raise PathDone()
                hooks = {O: at_outer, I: at_inner}
                if C is not None: hooks[C] = at_copy
                c, r = start(it, ws, hooks)
                if kind == "F" and (C is None or pos == "exit"):
                    if C is None: raise Unsupported("recode_wnaf without a copy loop")
                    good(it, "returns after the copy")
                else: bad(it, "returned early", "phase %s w=%s m=%s pos=%s" % (kind, w, m, pos))
            return setup
        for _ in range(6):
            cut.grown = False; rs = []
            def go(*a, **k): rs.append(explore(V.mod, phase(*a, **k), CC, V.models))
            go("E")
            for w in range(1, W + 1):
                for m in range(0, tb + 2):
                    if w == 1 and m: continue
                    go("O", w, m, 16 if w < 28 else 14 if w == 28 else -1)
            if W < 28: rs.append(explore(V.mod, lambda it: bad(it, "all words of the scalar are recoded", "%d words" % W)))
            for w, K in ((None, 32), (27, 30)) + ((28, 14),) + tuple((w, -1) for w in range(29, W + 1)):
                if w is not None and w > W: continue
                for m in range(0, 16 + tb + 2):
                    if 0 < m < tb + 2 and False: continue
                    go("I", w, m, K, None)
                    if K >= 0:
                        for pos in range(m, min(16, K + 1)): go("I", w, m, K, pos)
            if C is not None:
                for k in ("body", "exit"): go("F", W + 1, tb + 1, -1, k)
            if not cut.grown: break
        else: raise Unsupported("loop state does not stabilise")
        r = merge(rs)
        return r

TRIAL = {"B": [(90, 7), (57, -9), (12, 3), (2, -1), (-1, 0)], "P": [(100, 5), (57, -3), (40, 1), (2, 7), (-1, 0)]}
def trial_states():
    """ghost states (i, index into P's digits, index into B's digits) and coefficients at the loop header"""
    c = {"P": 0, "B": 0}; k = {"P": 0, "B": 0}; out = []
    for i in range(100, -2, -1):
        if i < 100: out.append(((i, k["P"], k["B"]), dict(c)))
        if i < 0: break
        for b in c:
            c[b] *= 2
            if TRIAL[b][k[b]][0] == i: c[b] += TRIAL[b][k[b]][1]; k[b] += 1
    return out

def run_dbl(s, V, bs, peps=0):
    """point_double_scalamul_non_secret(self = P, a, b) = [a]B + [b]P"""
    fn = s.fn(V)
    CC = V.scope(s.dem)
    dbl = TE + "double_internal"
    # the loop over the digits: the only loop (here or in a helper) that doubles
    cand = []; seen = set(); w = [fn.name]
    while w:
        n = w.pop()
        if n in seen: continue
        seen.add(n)
        f = V.mod.fn(n)
        if f is None or not f.blocks: continue
        callsites = {}
        for l, b in f.blocks.items():
            for ins in b:
                if ins[0] == "call" and ins[3][0] == "g":
                    g = V.mod.fns.get(ins[3][1])
                    if g is None: continue
                    callsites.setdefault(l, set()).add(g.dem)
                    if g.dem not in CC and g.dem.startswith("libgoldilocks"): w.append(ins[3][1])
        hs = loops(f)
        hit = [h for h in hs if any(dbl in callsites.get(l, ()) for l in hs[h])]
        hit = [h for h in hit if not any(h != g and hs[h] < hs[g] for g in hit)]
        cand += [(f, h) for h in hit]
    if len(cand) != 1: raise Unsupported("digit loop of the double multiplication not identified")
    F_, H = cand[0]
    L = V.layout
    cut = Cut(); states = trial_states()
    outb = [[0] * 16 for _ in range(4)]; HB = 0x10ffffff
    eset = set()
    def start(it, mode, hook):
        ctx = it.ctx; g = pt.G(ctx)
        so = Obj("out", 256); a = Obj("P", 256)
        pt.pt_fresh(it, V, Ptr(a, 0), "E", GE({"P": pconst(1)}, peps), bs[0]); cells0 = dict(a.cells)
        sc_ = {}; args = [Ptr(so, 0), Ptr(a, 0)]
        for nm in ("B", "P"):
            o = Obj("s" + nm, 56); ws = []
            for i in range(14):
                ws.append(ctx.fresh("%s%d" % (nm, i), 32)); it.mem.write(o, 4 * i, 4, ws[-1])
            v = sc.word_val(ctx, ws); ctx.facts.append(sc.le(v, QQ - 1)); sc_[nm] = v; args.append(Ptr(o, 0))
            o.ro = True
        st = {"mode": mode, "scalars": sc_, "ctl": {}, "len": {}, "digits": TRIAL, "base": None}
        def touch(it):
            if st["base"] is None: st["base"] = snapshot(it)
        st["touch"] = touch
        it.ghost["wnaf"] = st
        it.ghost["loop"] = {F_.dem: {H: hook}}
        it.run(fn.name, args)
        return so, a, cells0, st
    def points(it, env, kind, want):
        """cells (objects) holding the element want"""
        r = []
        for nm, o in reach(it).items():
            if o.kind is None and isinstance(o.size, int) and o.size >= 256 and o.name.startswith(F_.dem) or (o.kind is None and o.size == 256):
                try: x = pt.recognise(it, Ptr(o, 0), kind, L.E)
                except (Unsupported, TypeError, KeyError): continue
                if x.g is not None and not pt.gsame(it.ctx, x.g, want): r.append(nm)
        return r
    # ---- trial
    tr = []; outs = []
    def hook_trial(it, f_, env, lab):
        k = len(tr)
        tr.append(snapshot(it))
        if k < len(states) and (k < 5 or states[k][0][0] in (57, 56, 40, 39, 12, 1)):
            outs.append(set(points(it, env, "e", GE({b: pconst(c) for b, c in states[k][1].items() if c}))))
    def trial(it):
        start(it, "trial", hook_trial); it.oblige("trial", True)
    rt = explore(V.mod, trial, CC, V.models)
    if rt.unsupported or len(tr) != len(states) or any(not o[1] for o in rt.obls): raise Unsupported("double multiplication: the trial run does not follow the digit loop (%d of %d states) %s %s" % (len(tr), len(states), rt.unsupported[:1], [o[:3] for o in rt.obls if not o[1]][:1]))
    R = fit(tr, [x[0] for x in states])
    ro = set.intersection(*outs)
    if {r[0] for r in R.values()} != {0, 1, 2} or not ro: raise Unsupported("double multiplication: loop state not identified")
    NM = ("P", "B")
    def ctlof(it, nm):
        st = it.ghost["wnaf"]
        if set(st["ctl"]) != {"P", "B"}: raise Unsupported("both scalars must be recoded")
        return st["ctl"][nm]
    def le(it, a, b):
        ctx = it.ctx; d = ctx.nf(padd(b, a, -1))
        if ctx.prove_ge0(d): return True
        e = padd(d, pconst(1))      # d >= -1 and d != -1
        return ctx.prove_ge0(e) and any(not ctx.nf(padd(n, e, k)) for n in ctx.neq for k in (1, -1))
    def chk(it, what, ok, d=""): it.oblige("%s: %s" % (s.dem, what), ok, d)
    def rdout(it, env, kind):
        objs = reach(it); r = None
        for nm in sorted(ro):
            if nm not in objs: continue
            x = pt.recognise(it, Ptr(objs[nm], 0), kind, L.E)
            if x.g is None: return x
            if r is not None and pt.gsame(it.ctx, r.g, x.g): return None
            r = x
        return r
    def meet(it, env, what, prev):
        """invariant at the header: prev = None on entry, else (i, indices, coefficients) before the iteration"""
        ctx = it.ctx
        g = getroles(it, R, 3)
        if g is None: chk(it, what + ": loop state is consistent", False); return
        i = g[0]
        last = not ctx.nf(padd(i, pconst(1)))
        if not last and not le(it, {}, i):
            last = ctx.truth(ctx.icmp("eq", ctx.mk(i, 64), 2**64 - 1, 64))
        x = rdout(it, env, "E" if last else "e")
        if x is None or x.g is None: chk(it, what + ": the accumulator is a group element", False, str(x and x.why)); return
        eset.add(x.g.eps) if last else None
        want = {}
        for j, nm in enumerate(NM):
            c = ctlof(it, nm); k = g[1 + j]
            if prev is None:
                e = c.memo.get(()) ; co = {}
                if not k:
                    ok = e is not None and le(it, ctx.Sv(e["p"], 64).p if not isinstance(e["p"], int) else pconst(e["p"]), i)
                    chk(it, what + ": digits of %s not yet used have smaller weight" % nm, ok)
                else:
                    ok = k == pconst(1) and e is not None and not isinstance(e["p"], int)
                    ok = ok and le(it, e["p"].p, padd(i, pconst(1))) and le(it, padd(i, pconst(1)), e["p"].p) and "a" in e
                    chk(it, what + ": first digit of %s has the weight of the loop" % nm, ok)
                    co = ctx.P(e["a"]) if ok else {}
            else:
                i0, k0, c0 = prev[0], prev[1 + j], prev[3 + j]
                chk(it, what + ": the loop moves to the next lower weight", not ctx.nf(padd(padd(i, i0, -1), pconst(1))))
                d = ctx.nf(padd(k, k0, -1)); e = c.memo.get(pkey(ctx.nf(k0)))
                co = pscale(c0, 2)
                if not d:
                    ok = e is not None and le(it, ctx.P(e["p"]), padd(i0, pconst(-1)))
                    chk(it, what + ": no digit of %s of this weight is skipped" % nm, ok)
                else:
                    ok = d == pconst(1) and e is not None and le(it, i0, ctx.P(e["p"])) and le(it, ctx.P(e["p"]), i0) and "a" in e
                    chk(it, what + ": the digit of %s of this weight is consumed" % nm, ok)
                    if ok: co = padd(co, ctx.P(e["a"]))
            if co: want[nm] = co
        d = pt.gsame(ctx, x.g, GE(want))
        chk(it, what + ": the accumulator is the combination of the digits consumed", not d, "; ".join("%s: %s" % (n, ctx.show(p)) for n, p in d.items())[:300])
        chk(it, what + ": limbs in range", all(b <= HB for b in x.bounds))
    def finish(it, so, a, cells0, want):
        r = pt.recognise(it, Ptr(so, 0), "E", L.E)
        if r.g is None: chk(it, "result is a group element", False, str(r.why)); return
        d = pt.gsame(it.ctx, r.g, want)
        chk(it, "result is the combination for every pair of scalars", not d, "; ".join(it.ctx.show(p) for p in d.values())[:300])
        for j in range(4): outb[j] = [max(x, r.bounds[j]) for x in outb[j]]
        eset.add(r.g.eps)
        chk(it, "operand not modified", all(a.cells.get(k) is x or a.cells.get(k) == x for k, x in cells0.items()))
    def entry(it):
        def hook(it, f_, env, lab):
            meet(it, env, "entry", None); raise PathDone()
        so, a, c0, st = start(it, "abs", hook)
        for nm in NM:
            e = ctlof(it, nm).memo.get(())
            chk(it, "early return only when both scalars are zero", e is not None and e["p"] == -1)
        finish(it, so, a, c0, GE({}))
    def body(eps, exitph):
        def setup(it):
            q = {}
            def hook(it, f_, env, lab):
                ctx = it.ctx; st = it.ghost["wnaf"]
                if not q:
                    if st["base"] is None: raise Unsupported("control arrays not read before the loop")
                    rr = Roles(R); rr.w = R.w
                    objs = reach(it)
                    kept = cut.havoc(it, st["base"], rr)
                    for nm in ro:
                        if nm in objs: objs[nm].cells = {}; objs[nm].own = {}
                    kept = {k: v for k, v in kept.items() if k[0] not in ro}
                    i = ctx.fresh("i", 64, 0, 445) if not exitph else 2**64 - 1
                    ks = [ctx.fresh("k" + nm, 64, 0, st["len"][nm] - 1) for nm in NM]
                    cs = [pvar(ctx.atom("c" + nm, 0, QQ - 1).id) for nm in NM]
                    setroles(it, R, [i if not exitph else -1] + ks)
                    for nm in ro:
                        if nm in objs: pt.pt_fresh(it, V, Ptr(objs[nm], 0), "E" if exitph else "e", GE(dict(zip(NM, cs)), eps), [HB] * (4 if exitph else 3))
                    for nm in NM:
                        c = st["ctl"][nm]; c.mode = "abs"; c.memo = {}; c.imax = i if not exitph else None
                    q["prev"] = [ctx.P(i) if not exitph else pconst(-1)] + [ctx.P(k) for k in ks] + cs; q["kept"] = kept
                    return
                if exitph: chk(it, "the loop ends after weight 0", False); raise PathDone()
                meet(it, env, "iteration", q["prev"]); cut.check(it, q["kept"]); raise PathDone()
            so, a, c0, st = start(it, "trial", hook)
            if not exitph: chk(it, "the loop runs down to weight 0", False); return
            finish(it, so, a, c0, GE(dict(zip(NM, q["prev"][3:]))))
        return setup
    for _ in range(6):
        cut.grown = False
        rs = [explore(V.mod, entry, CC, V.models)]
        for eps in (0, 1):
            for ex in (False, True): rs.append(explore(V.mod, body(eps, ex), CC, V.models))
        if not cut.grown: break
    else: raise Unsupported("loop state does not stabilise")
    return merge(rs), outb, eset
