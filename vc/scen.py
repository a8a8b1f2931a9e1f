"""API-level contracts: every public operation against its specification, for all inputs."""
from dom import *
from interp import *
from fe import PP, QQ
import sc, pt, ref, ir, rope, apic, hexm, cex
from apic import *

GO = "libgoldilocks::goldilocks::"
MAXLEN = 1 << 62

def fnname(V, dem):
    f = V.mod.bydem.get(dem)
    if not f: raise Unsupported("lost anchor " + dem)
    return f[0].name
def call(V, it, dem, args):
    n = fnname(V, dem)
    if len(V.mod.fn(n).params) != len(args): raise Unsupported("signature of " + dem)
    return it.callfn(n, args)
def key57(it, name):
    o = Obj(name, 57); bs = []
    for i in range(57):
        bs.append(it.ctx.fresh("%s%d" % (name, i), 8)); it.mem.write(o, i, 1, bs[-1])
    o.ro = True; cex.note(it.ctx, "bytes", name, bs)
    return Ptr(o, 0), bs
def fixed(it, name, n):
    o = Obj(name, n); bs = []
    for i in range(n):
        bs.append(it.ctx.fresh("%s%d" % (name, i), 8)); it.mem.write(o, i, 1, bs[-1])
    o.ro = True; cex.note(it.ctx, "bytes", name, bs)
    return Ptr(o, 0), bs
def bytesobj(it, name, bs):
    o = Obj(name, len(bs))
    for i, b in enumerate(bs): it.mem.write(o, i, 1, b)
    o.ro = True
    return Ptr(o, 0)
def message(it, name="M", lo=0, hi=MAXLEN):
    n = it.ctx.fresh("len" + name, 64, lo, hi)
    if isinstance(n, Sym): it.ctx.lenatoms |= patoms(n.p)
    o = Obj(name, n, True, "msg"); cex.note(it.ctx, "msg", name, [n])
    return Ptr(o, 0), n, ([("m", name, {}, it.ctx.P(n))] if not isinstance(n, int) or n else [])
def outbytes(it, o, n):
    r = []
    for i in range(n):
        v = it.mem.read(o, i, 1)
        r.append(it.ctx.U(it.ctx.refresh(v)) if isinstance(v, Sym) else v)
    return r
def oblige_bytes(it, name, got, want):
    ok = bytes_same(it.ctx, got, want)
    det = ""
    if not ok:
        bad = [i for i, (x, y) in enumerate(zip(got, want)) if x is UNDEF or rope.bkey(it.ctx, x) != rope.bkey(it.ctx, y)]
        det = "bytes differ at %s" % bad[:8]
    it.oblige(name, ok, det)

def ret_bytes(V, it, dem, args, n):
    so = Obj("out", n)
    call(V, it, dem, [Ptr(so, 0)] + args)
    return outbytes(it, so, n)
def result(V, it, ty, ptr):
    """('Ok', off) or ('Err', variant name)"""
    D = V.dwarf; t = D.find(ty)
    n, f = D.read_enum(it, ptr, t)
    if n == "Ok": return "Ok", (ptr.off + f["__0"][0] if "__0" in f else None)
    o, et = f["__0"]
    e, ef = D.read_enum(it, Ptr(ptr.obj, ptr.off + o), et)
    return "Err", e

RB = "Result<bool, libgoldilocks::errors::LibgoldilockErrors>"
RU = "Result<(), libgoldilocks::errors::LibgoldilockErrors>"

def do_verify(V, it, dem, pub, npub, sig, nsig, m, n):
    """outcome string of ed448_verify / ed448_verify_with_error / dsa_verify"""
    ctx = it.ctx
    fn = V.mod.fn(fnname(V, dem))
    so = Obj("res", 16)
    args = [pub, npub, sig, nsig, m, n]
    ty = RU if dem.endswith("with_error") else RB
    if len(fn.params) == 7: it.callfn(fn.name, [Ptr(so, 0)] + args)
    elif len(fn.params) == 6:
        r = it.callfn(fn.name, args)
        if not isinstance(r, list) or len(r) != 2: raise Unsupported("return of " + dem)
        for k in (0, 1):
            if r[k] is not UNDEF: it.mem.write(so, 8 * k, 8, r[k])
    else: raise Unsupported("signature of " + dem)
    k, v = result(V, it, ty, Ptr(so, 0))
    if k == "Err": return v
    if ty == RU: return "true"
    b = ctx.force(it.mem.read(so, v, 1))
    return "true" if b & 1 else "false"

# ------------------------------------------------------------------ scenarios
def sc_derive(V, dem):
    def setup(it):
        p, bs = key57(it, "k")
        it.oblige_base = 0
        got = ret_bytes(V, it, dem, [p], 57)
        n = dem.split("::")[-1]
        if n == "ed448_derive_public": want = s_pub(it, bs)
        elif n == "private_to_public": want = s_pub_of_secret(it.ctx, rope.shake_bytes(it.ctx, [("b", bs)], 0, 57))
        else: want = s_pub_of_secret(it.ctx, bs)
        oblige_bytes(it, "%s: public key is the RFC 8032 one" % dem, got, want)
    return setup
def sc_sign(V, dem):
    def setup(it):
        p, bs = key57(it, "k"); m, n, seq = message(it)
        got = ret_bytes(V, it, dem, [p, m, n], 114)
        want = s_sign(it, bs, seq) if dem.endswith("ed448_sign") else s_sign_std(it.ctx, bs, seq)
        oblige_bytes(it, "%s: signature equals the specified one" % dem, got, want)
    return setup
def sc_sign_sn(V, dem):
    def setup(it):
        p, bs = key57(it, "k"); q, ns = key57(it, "n"); m, n, seq = message(it)
        got = ret_bytes(V, it, dem, [p, q, m, n], 114)
        oblige_bytes(it, "%s: signature equals the specified one" % dem, got, s_sign_sn(it.ctx, bs, ns, seq))
    return setup
def sc_roundtrip(V, sign, derive, vdem):
    def setup(it):
        p, bs = key57(it, "k"); m, n, seq = message(it)
        pub = ret_bytes(V, it, derive, [p], 57)
        if sign.endswith("and_nonce"):
            q, ns = key57(it, "n"); sig = ret_bytes(V, it, sign, [p, q, m, n], 114)
        else: sig = ret_bytes(V, it, sign, [p, m, n], 114)
        r = do_verify(V, it, vdem, bytesobj(it, "pub", pub), 57, bytesobj(it, "sig", sig), 114, m, n)
        it.oblige("%s(%s(k), %s(k, m), m) accepts" % (vdem, derive, sign), r == "true", "outcome " + r)
    return setup
def slice_of(it, name, n, case):
    """(ptr, len, bytes or None)"""
    if case == "=": p, b = fixed(it, name, n); return p, n, b
    lo, hi = (0, n - 1) if case == "<" else (n + 1, MAXLEN)
    p, l, s = message(it, name, lo, hi)
    return p, l, None
def sc_verify(V, dem, pc, scase):
    def setup(it):
        p, np_, pb = slice_of(it, "pub", 57, pc); s, ns, sb = slice_of(it, "sig", 114, scase)
        m, n, seq = message(it)
        got = do_verify(V, it, dem, p, np_, s, ns, m, n)
        want = s_verify(it, pb, sb, seq)
        if dem.endswith("with_error") and want == {"false"}: want = {"InvalidSignatureError"}
        if dem.endswith("dsa_verify"): pass
        it.oblige("%s: outcome is the specified one (public key length %s 57, signature length %s 114)" % (dem, pc, scase), got in want, "got %s, specified %s" % (got, sorted(want)))
    return setup

def verify_roots(V):
    for d in ("ed448_verify", "ed448_verify_with_error"):
        for pc in "=<>":
            for s in "=<>":
                k = (GO + d, pc + s, "verify"); yield k, lambda k=k, d=d, pc=pc, s=s: V.scenario(k, sc_verify(V, GO + d, pc, s))
def derive_roots(V):
    for d in ("ed448_derive_public", "private_to_public", "secret_to_public"):
        k = (GO + d, "derive"); yield k, lambda k=k, d=d: V.scenario(k, sc_derive(V, GO + d))
def sign_roots(V):
    for d in ("ed448_sign", "sign_by_private"):
        k = (GO + d, "sign"); yield k, lambda k=k, d=d: V.scenario(k, sc_sign(V, GO + d))
def signsn_roots(V):
    k = (GO + "sign_with_secret_and_nonce", "sign"); yield k, lambda: V.scenario(k, sc_sign_sn(V, k[0]))
def round_roots(V):
    for s, d in (("ed448_sign", "ed448_derive_public"), ("sign_by_private", "private_to_public"), ("sign_with_secret_and_nonce", "secret_to_public")):
        for v in ("ed448_verify", "ed448_verify_with_error"):
            k = (GO + s, v, "roundtrip"); yield k, lambda k=k, s=s, d=d, v=v: V.scenario(k, sc_roundtrip(V, GO + s, GO + d, GO + v))

def sc_twostep(V):
    def setup(it):
        p, bs = key57(it, "k")
        sec = ret_bytes(V, it, GO + "private_to_secret", [p], 57)
        got = ret_bytes(V, it, GO + "secret_to_public", [bytesobj(it, "sec", sec)], 57)
        oblige_bytes(it, "secret_to_public(private_to_secret(k)): public key is the RFC 8032 one", got, s_pub_of_secret(it.ctx, rope.shake_bytes(it.ctx, [("b", bs)], 0, 57)))
    return setup
def twostep_roots(V):
    k = (GO + "private_to_secret", "twostep"); yield k, lambda: V.scenario(k, sc_twostep(V))
def sc_codec(V):
    def setup(it):
        L = V.layout.E; ge = pt.gbase("P"); rt = V.dwarf.find(DecC.RT); bs = []
        for n in "12":
            a = Obj("P" + n, 256); o = Obj("enc" + n, 57); pt.pt_fresh(it, V, Ptr(a, 0), "E", ge, [0x10ffffff] * 4)
            it.callfn(fnname(V, EncC.dem), [Ptr(o, 0), Ptr(a, 0)]); bs.append(outbytes(it, o, 57))
        it.oblige("two representations of the same element encode to the same bytes", bytes_same(it.ctx, bs[0], bs[1]))
        so = Obj("res", 512)
        it.callfn(fnname(V, DecC.dem), [Ptr(so, 0), Ptr(o, 0), 57])
        n, f = V.dwarf.read_enum(it, Ptr(so, 0), rt)
        it.oblige("the encoding of every group element decodes", n == "Ok", n)
        if n == "Ok":
            r = pt.recognise(it, Ptr(so, f["__0"][0]), "E", L)
            it.oblige("decoding an encoding gives back the element", r.g is not None and not pt.gsame(it.ctx, r.g, ge), str(r.why))
    return setup
def codec_roots(V):
    B = 0x10ffffff
    for c, bs in ((EncC(), ((B,) * 3,)), (DecC(), ()), (ModEqC(), ((B,) * 3,) * 2)):
        k = (c.dem, bs, 0); yield k, lambda c=c, bs=bs: V.pt_inst(c, bs, 0)
    k = ("encode then decode", "codec"); yield k, lambda: V.scenario(k, sc_codec(V))
def scenc_roots(V):
    c = ScEncC(); k = (c.dem, (), 0); yield k, lambda: V.pt_inst(c, (), 0)

# ------------------------------------------------------------------ key objects (crate vmono)
MO = "vmono::"
def outobj(it):
    """an Out { buf: [u8; 171], n: usize }"""
    return Ptr(Obj("out", 184), 0)
def out_bytes(V, it, o):
    mem = V.dwarf.members(V.dwarf.find("Out"))
    n = it.ctx.force(it.mem.read(o.obj, mem["n"][0], 8))
    return [it.ctx.U(it.ctx.refresh(v)) if isinstance(v, Sym) else v for v in (it.mem.read(o.obj, mem["buf"][0] + i, 1) for i in range(n))]
def flag(it, v): return bool(it.ctx.force(v) & 1)
def text(it, case):
    """(pointer, length, 114 text bytes or None)"""
    return slice_of(it, "text", 114, case)
def sc_key(V, n):
    def setup(it):
        p, bs = key57(it, "k"); o = outobj(it)
        r = call(V, it, MO + n, [p, o])
        if n in ("m_k_parts",): it.oblige(n + ": the secret key accessor gives the stored key", flag(it, r), "")
        oblige_bytes(it, n + ": secret is the given 57 bytes and the public key is the derived one", out_bytes(V, it, o), bs + s_pub(it, bs))
    return setup
def sc_key_bytes(V, case):
    def setup(it):
        p, n, bs = slice_of(it, "k", 57, case); o = outobj(it)
        r = it.ctx.refresh(call(V, it, MO + "m_k_bytes", [p, n, o]))
        if bs is None:
            it.oblige("SigningKey::from_bytes: length error names the received length", not it.ctx.nf(padd(it.ctx.P(it.ctx.U(r)), it.ctx.P(n), -1)), str(r))
        else:
            it.oblige("SigningKey::from_bytes accepts 57 bytes", r == (1 << 64) - 1, str(r))
            oblige_bytes(it, "SigningKey::from_bytes: secret is the given 57 bytes and the public key is the derived one", out_bytes(V, it, o), bs + s_pub(it, bs))
    return setup
def sc_vbytes(V):
    def setup(it):
        p, bs = key57(it, "k"); o = outobj(it)
        call(V, it, MO + "m_v_bytes", [p, o])
        oblige_bytes(it, "VerifyingKey::from_bytes keeps the 57 bytes", out_bytes(V, it, o), bs)
    return setup
def sc_str(V, n):
    def setup(it):
        p, l, t = text(it, "="); o = outobj(it)
        bs = hexm.dec(it, t, assume=True)
        call(V, it, MO + n, [p, l, o])
        oblige_bytes(it, n + ": hex text gives its 57 bytes and the derived public key", out_bytes(V, it, o), bs + (s_pub(it, bs) if n != "m_v_str" else []))
    return setup
def sc_de(V, n, case):
    def setup(it):
        p, l, t = text(it, case); o = outobj(it)
        r = flag(it, call(V, it, MO + n, [p, l, o]))
        bs = hexm.dec(it, t) if t is not None else None
        it.oblige(n + ": deserialising succeeds exactly on 114 hex digits (length %s 114)" % case, r == (bs is not None), "returned %s" % r)
        if r and bs is not None:
            oblige_bytes(it, n + ": deserialised key", out_bytes(V, it, o), bs + (s_pub(it, bs) if n != "m_de_v" else []))
    return setup
def sc_ser(V, n):
    def setup(it):
        p, bs = key57(it, "k"); o = outobj(it)
        r = flag(it, call(V, it, MO + n, [p, o]))
        it.oblige(n + ": serialising succeeds", r, "")
        t = out_bytes(V, it, o)
        oblige_bytes(it, n + ": serialised text is the lower-case hex of the key", t, hexm.enc(it.ctx, bs))
        o2 = outobj(it)
        r = flag(it, call(V, it, MO + n.replace("ser", "de"), [bytesobj(it, "t", t), len(t), o2]))
        it.oblige(n + ": the serialised text deserialises", r, "")
        oblige_bytes(it, n + ": round trip gives back the key", out_bytes(V, it, o2), bs + (s_pub(it, bs) if n != "m_ser_v" else []))
    return setup
def sc_prehash(V):
    def setup(it):
        p, bs = key57(it, "k"); m, n, seq = message(it); o = outobj(it)
        r = flag(it, call(V, it, MO + "m_prehash", [p, m, n, o]))
        it.oblige("sign_prehash succeeds", r, "")
        got = out_bytes(V, it, o)
        oblige_bytes(it, "sign_prehash: signature followed by public key", got, s_sign(it, bs, seq) + s_pub(it, bs))
        for d in ("ed448_verify", "ed448_verify_with_error"):
            v = do_verify(V, it, GO + d, bytesobj(it, "pub", got[114:]), 57, bytesobj(it, "sig", got[:114]), 114, m, n)
            it.oblige("%s accepts the first 114 bytes under the last 57" % d, v == "true", v)
    return setup
def sc_genkey(V):
    def setup(it):
        got = ret_bytes(V, it, GO + "ed448_generate_key", [], 57)
        r = it.ctx.__dict__.get("rnd", [])
        it.oblige("ed448_generate_key: every byte comes from the random generator, each used once", len({rope.bkey(it.ctx, b) for b in got}) == 57 and {rope.bkey(it.ctx, b) for b in got} <= {rope.bkey(it.ctx, b) for b in r}, "")
    return setup
def key_roots(V):
    def k(n, th, *x):
        key = (MO + n if n[:2] == "m_" else n,) + x
        return key, lambda: V.scenario(key, th)
    for n in ("m_k_slice", "m_k_secret", "m_k_random", "m_k_parts"): yield k(n, sc_key(V, n), "key")
    for c in "=<>": yield k("m_k_bytes", sc_key_bytes(V, c), c)
    for n in ("m_k_str", "m_s_str", "m_v_str"): yield k(n, sc_str(V, n), "str")
    for n in ("m_de_k", "m_de_s", "m_de_v"): yield k(n, sc_de(V, n, "="), "=")
    yield k("m_v_bytes", sc_vbytes(V), "key")
    yield k(GO + "ed448_generate_key", sc_genkey(V), "gen")
def serde_roots(V):
    def k(n, th, *x):
        key = (MO + n,) + x
        return key, lambda: V.scenario(key, th)
    for n in ("m_ser_k", "m_ser_s", "m_ser_v"): yield k(n, sc_ser(V, n), "ser")
    for n in ("m_de_k", "m_de_s", "m_de_v"):
        for c in "=<>": yield k(n, sc_de(V, n, c), c)
def prehash_roots(V):
    key = (MO + "m_prehash", "prehash"); yield key, lambda: V.scenario(key, sc_prehash(V))
