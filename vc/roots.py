"""Proof roots per property."""
import re, time, traceback
import ir, dom
from dom import Unsupported
from verifier import Verifier
import probe, fe, sc, pt, scen

TRUSTED = ["rustc 1.99 front end up to LLVM IR (opt-level 0, overflow checks on)", "vc/ (IR parser, symbolic executor, polynomial normaliser)", "z3 (linear arithmetic fallback, path feasibility)", "Python integers"]
ASSUME = ["group law and completeness of the internal twisted Edwards curve on its subgroup of order 2q (mathematics, not code)",
          "LLVM code generation from the analysed IR (release and dev builds compute the same values when no overflow check can fire)"]
B = 0x10ffffff

def fe_roots(V):
    for d, c in V.fe.items():
        nF = sum(c.params.count(x) for x in "FX")
        n = d.split("::")[-1]
        kss = {"mul_w": [(39082,)], "mul_with_signed_curve_constant": [((-78164) % 2**64,), ((-39081) % 2**64,), (39081,)], "square_n": [(1,), (2,), (9,), (18,), (37,), (111,), (222,), (223,)], "sub_x_bias": [(2,), (3,), (4,)]}.get(n, [()])
        for ks in kss: yield (d, (B,) * nF, ks), lambda c=c, ks=ks, nF=nF: V.fe_inst(c, (B,) * nF, ks)
def sc_roots(V):
    for d, c in V.sc.items():
        n = d.split("::")[-1]
        for ks in {"decode": [(56,), (57,)], "decode_long": [(56,), (57,), (114,)]}.get(n, [()]): yield (d, (), ks), lambda c=c, ks=ks: V.sc_inst(c, ks)
def pt_roots(V):
    for d, c in V.pt.items():
        for fl in ((0, 1) if "b" in c.args else (0,)):
            bs = tuple((B,) * {"E": 4, "M": 4, "m": 3, "e": 3, "N": 3, "Q": 4}[k] for k in c.args if k != "b")
            yield (d, bs, fl), lambda c=c, bs=bs, fl=fl: V.pt_inst(c, bs, fl)
def mul_roots(V):
    for d, c in V.mul.items():
        bs = ((B,) * 4,) if c.var else ()
        for eps in ((0, 1) if c.var else (0,)): yield (d, bs, eps), lambda c=c, bs=bs, eps=eps: V.pt_inst(c, bs, eps)
def dbl_roots(V):
    import apic
    c = V.api.get(apic.DblC.dem)
    if c.dem not in V.mod.bydem: return
    for eps in (0, 1):
        bs = ((B,) * 4,); k = (c.dem, bs, eps); yield k, lambda bs=bs, eps=eps, k=k: V.run_inst(k, lambda: c.run(V, bs, eps))

D, S, SN, R, VF = scen.derive_roots, scen.sign_roots, scen.signsn_roots, scen.round_roots, scen.verify_roots
ROOTS = {"C01": [R], "C02": [D, S, scen.twostep_roots], "C03": [D, S, SN], "C04": [VF], "C05": [VF], "C06": [VF], "C14": [D, S, SN], "C07": [scen.key_roots], "C08": [scen.serde_roots], "C09": [scen.prehash_roots], "C10": [fe_roots, pt_roots], "C11": [sc_roots, scen.scenc_roots], "C12": [pt_roots, mul_roots, dbl_roots], "C13": [scen.codec_roots]}

MONO = {"C07", "C08", "C09"}

def root_functions(prop, V):
    """functions the property itself speaks about: their contracts are never given up"""
    if prop == "C10": return {d for d in V.fe if d.split("::")[-1] not in ("sub_x_bias", "weak_reduce", "decaf_const_time_select", "decaf_cond_negate", "constant_time_select", "conditional_negate", "conditional_swap")}
    if prop == "C11": return set(V.sc) - {d for d in V.sc if d.endswith("::sub_extra") or d.endswith("::montgomery_multiply")}
    if prop == "C12": return set(V.mul) | {d for d in V.api if "double_scalamul" in d}
    if prop == "C13": return set(V.api)
    return set()

def attempt(prop, m, log, disabled=()):
    V = Verifier(m, log, disabled); und = []
    rts = list(ROOTS.get(prop, [])); keep = root_functions(prop, V)
    if prop == "C10" and V.disabled & set(V.pt): rts += [mul_roots, dbl_roots]
    for rs in rts:
        for key, th in rs(V):
            if key[0] in V.disabled: continue
            if key[0] in V.unfit:
                if key[0] in keep: und.append((key, "signature changed beyond what the contract adapts to"))
                continue
            try: th()
            except Unsupported as e:
                V.stack.clear(); und.append((key, str(e)))
            except Exception as e:
                V.stack.clear(); und.append((key, traceback.format_exc()[-800:]))
    return V, und

def open_keys(V, und):
    fails = [i.key for i in V.insts.values() if i.fails]
    opn = [i.key for i in V.insts.values() if i.unsupported or not i.fails and not i.ok]
    return fails, opn + [k for k, m in und]

def run(prop, irp, rep, tier, log):
    import interp
    m = ir.Module()
    for f in irp: m.load(f)
    t0 = time.time()
    V, und = attempt(prop, m, log)
    disabled = set(); end = interp.DEADLINE[0]
    for rnd in range(4):
        fails, opn = open_keys(V, und)
        if not fails and not opn: break
        if interp.overtime(): break
        keep = root_functions(prop, V)
        # contracts of internal helpers that do not hold or do not fit any more: verify their bodies inside the callers instead
        cul = {k[0] for k in fails + opn if k[0] in V.contracts} | {d for d in m.badapply if d in V.contracts}
        if cul & keep and all(k[0] in keep for k in fails) and fails: break
        cul -= keep
        if not cul: break
        disabled |= cul
        if log: log("inlining", sorted(disabled))
        interp.DEADLINE[0] = min(end, time.time() + max(120, 2 * (time.time() - t0)))
        try: V2, und2 = attempt(prop, m, log, disabled)
        finally: late = interp.overtime(); interp.DEADLINE[0] = end
        f2, o2 = open_keys(V2, und2)
        if not f2 and o2 and fails:        # nothing decided: keep the first verdict
            if late: break
            continue
        if late and not f2: break
        if f2 or len(o2) <= len(opn): V, und = V2, und2; rep.inlined = sorted(disabled)
    rep.undecided += und
    for i in V.insts.values():
        rep.insts.append(i.key); rep.functions[i.key[0]] = rep.functions.get(i.key[0], 0) + 1
        rep.nobl += len(i.obls); rep.nok += sum(1 for o in i.obls if o[1]); rep.paths += i.paths; rep.instrs += i.instrs
        for o in i.fails: rep.fails.append((i.key, o[0], str(o[2]))); rep.failctx.append((i.key, o[4] if len(o) > 4 else None))
        for u in i.unsupported: rep.undecided.append((i.key, "%s (%s)" % u))
        if not i.fails and not i.unsupported and not i.ok: rep.undecided.append((i.key, "vacuous: no feasible path or no obligation"))
    for d, n in sorted(V.assumed.items()):
        rep.assumed.append(d); rep.assumptions.append("contract of %s assumed at %d call sites (its body is checked only by a bounded stand-in)" % (d, n))
    for d in rep.inlined: rep.assumptions.append("contract of %s given up on this tree: its body is verified inside every caller" % d)
    rep.backends = dict(dom.STATS); rep.solver_s = dom.STATS.get("z3_seconds", 0)

def fn_cases(dem, bs, ks, rng, n):
    """concrete cases for the function of an instance key"""
    nm = dem.split("::")[-1]
    try:
        if "bignumber" in dem: return probe.fe_cases(nm, bs, ks, rng, n)
        if "::scalar::" in dem: return probe.sc_cases(nm, bs if nm in ("decode", "decode_long") and bs else (), rng, n)
        if "extended_point" in dem: return probe.pt_cases(nm, rng, min(n, 300))
    except Exception: pass
    return []
