"""API-level concrete cases per property (directed and random), with ref.py as oracle."""
import json, ref
from ref import P, L
from probe import *

def keys(rng, n, ext=None):
    out = []
    base = [bytes(57), b"\xff" * 57, bytes(range(57)), b"\x01" * 57, bytes(56) + b"\x80", b"\xff" * 56 + b"\x7f", b"\x55" * 57, b"\xaa" * 57,
            bytes([3]) + bytes(54) + bytes([0x7f, 0x80]), b"\xff" * 55 + b"\x00\x80", bytes(55) + b"\x01\x80", b"\xff" * 56 + b"\x80", bytes(56) + b"\x7f", bytes(56) + b"\x01"]
    # secrets that clamp to boundary scalars
    for v in (2**447, 2**447 + 4, 2**448 - 4, 2 * L + 4 - (2 * L) % 4, 3 * L - (3 * L) % 4, 2 * L - (2 * L) % 4):
        if 2**447 <= v < 2**448: base.append(v.to_bytes(56, "little") + b"\x80")
    for k in base:
        if ext is None or bool(k[56] & 0x80) == ext: out.append(k)
    while len(out) < n:
        k = bytearray(rng.randrange(256) for _ in range(57))
        if ext is not None: k[56] = (k[56] | 0x80) if ext else (k[56] & 0x7f)
        out.append(bytes(k))
    return out[:n]

MSGLEN = [0, 1, 2, 7, 11, 12, 13, 31, 32, 57, 63, 64, 68, 69, 70, 114, 115, 135, 136, 137, 147, 148, 149, 200, 204, 205, 206, 255, 256, 257, 272, 273, 283, 284, 285, 500, 1000, 1023, 1024, 4096, 5000]
def msgs(rng, n):
    out = [b"", b"\0", b"abc", bytes(136)] 
    ln = list(MSGLEN); rng.shuffle(ln)
    for l in ln: out.append(bytes(rng.randrange(256) for _ in range(l)))
    while len(out) < n: out.append(bytes(rng.randrange(256) for _ in range(rng.randrange(300))))
    return out[:n]

def sign_cases(rng, n, ext):
    out = []
    ks = keys(rng, n, ext); ms = msgs(rng, n)
    for k, m in zip(ks, ms):
        out.append(eqc("derive " + hx(k), "ok " + ref.derive(k).hex()))
        out.append(eqc("sign %s %s" % (hx(k), hx(m)), "ok " + ref.sign(k, m).hex()))
    # many messages for one key: scalars with unusual top bits
    k = ks[-1]
    return out

def c02(rng, n):
    out = sign_cases(rng, n, False)
    for k in keys(rng, 6, False):
        s = bytearray(ref.shake(k, 57)); s[56] |= 0x80
        out.append(eqc("p2s " + hx(k), "ok " + bytes(s).hex()))
        out.append(eqc("p2p " + hx(k), "ok " + ref.derive(k).hex()))
        out.append(eqc("s2p " + bytes(s).hex(), "ok " + ref.derive(k).hex()))
        out.append(eqc("signp %s 616263" % hx(k), "ok " + ref.sign_std(k, b"abc").hex()))
    return out

def c03(rng, n):
    out = sign_cases(rng, n, True)
    for s, t, m in zip(keys(rng, n // 2 + 2), reversed(keys(rng, n // 2 + 2)), msgs(rng, n // 2 + 2)):
        out.append(eqc("signsn %s %s %s" % (hx(s), hx(t), hx(m)), "ok " + ref.sign_sn(s, t, m).hex()))
        out.append(eqc("s2p " + hx(s), "ok " + ref.pub_of_secret(s).hex()))
    return out

def vcase2(pub, sig, m):
    e = ref.verify(pub, sig, m)
    a = "%s %s %s" % (hx(pub), hx(sig), hx(m))
    e2 = {"ok"} if e == {"ok true"} else {"err InvalidSignatureError"} if e == {"ok false"} else e
    return [eqc("verify " + a, e), eqc("verifye " + a, e2)]

def c01(rng, n):
    out = []
    for k, m in zip(keys(rng, n), msgs(rng, n)):
        p = ref.derive(k); out += [Case("verify %s %s %s" % (p.hex(), ref.sign(k, m).hex(), hx(m)), lambda a: a == "ok true", "ok true")]
        out.append(eqc("sign %s %s" % (hx(k), hx(m)), "ok " + ref.sign(k, m).hex()))
        out.append(eqc("derive " + hx(k), "ok " + p.hex()))
    return out

def chal(R, pub, m): return ref.le(ref.shake(ref.dom() + R + pub + m, 114)) % L

def torsion_sigs(rng):
    """signatures with torsion components in A or R, and small-order keys"""
    out = []
    T = torsion()
    for i in range(4):
        for j in range(4):
            s = rng.randrange(L); r = rng.randrange(L); m = bytes([i, j])
            A = ref.enc(ref.add(ref.mul(s, ref.B), T[i])); R = ref.enc(ref.add(ref.mul(r, ref.B), T[j]))
            k = chal(R, A, m)
            out.append((A, R + ((r + k * s) % L).to_bytes(57, "little"), m))
            # small-order key
            A = ref.enc(T[i]); out.append((A, R + r.to_bytes(57, "little"), m))
            R0 = ref.enc(T[j]); out.append((A, R0 + bytes(57), m)); out.append((A, R0 + (1).to_bytes(57, "little"), m))
            k = chal(R0, ref.enc(ref.mul(s, ref.B)), m); out.append((ref.enc(ref.mul(s, ref.B)), R0 + (k * s % L).to_bytes(57, "little"), m))
    return out

def c04(rng, n):
    out = []
    for t in torsion_sigs(rng): out += vcase2(*t)
    for k, m in zip(keys(rng, n // 3 + 2), msgs(rng, n // 3 + 2)):
        pub, sig = ref.derive(k), ref.sign(k, m)
        out += vcase2(pub, sig, m)
        for _ in range(2):
            b = bytearray(sig); i = rng.randrange(114); b[i] ^= 1 << rng.randrange(8); out += vcase2(pub, bytes(b), m)
        b = bytearray(pub); i = rng.randrange(57); b[i] ^= 1 << rng.randrange(8); out += vcase2(bytes(b), sig, m)
        if m:
            b = bytearray(m); b[rng.randrange(len(m))] ^= 1 << rng.randrange(8); out += vcase2(pub, sig, bytes(b))
            out += vcase2(pub, sig, m[:-1])
        out += vcase2(pub, sig, m + b"\0")
        b = bytearray(pub); b[56] ^= 0x80; out += vcase2(bytes(b), sig, m)
        b = bytearray(sig); b[56] ^= 0x80; out += vcase2(pub, bytes(b), m)
        S = ref.le(sig[57:]); out += vcase2(pub, sig[:57] + ((-S) % L).to_bytes(57, "little"), m)
        out += vcase2(pub, sig[:57] + ((S + 1) % L).to_bytes(57, "little"), m)
    return out

def crafted(rng, m, S=None, kneg=None):
    """valid signature with a chosen response S under a random key: R = [S]B - [k]A needs k first, so choose the key last"""
    return None

def c05(rng, n):
    out = []
    k = keys(rng, 20, False)[-1]; m = b"msg"
    pub, sig = ref.derive(k), ref.sign(k, m)
    for b in enc_variants(rng):
        out += vcase2(b, sig, m)[:1]
        out += vcase2(pub, b + sig[57:], m)[:1]
    S = ref.le(sig[57:])
    for s in (L, L + 1, S + L, S + 2 * L, S + 3 * L, 2**446, 2**447, 2**448 - 1, 2**448, S + (1 << 448), S + (1 << 455), S + (0x7f << 448), L - 1, 0, 1, 2**456 - 1):
        if s < 2**456: out += vcase2(pub, sig[:57] + s.to_bytes(57, "little"), m)
    # identity key with S arbitrary: [S]B = R is a valid signature; non-canonical S must be refused
    I = ref.enc((0, 1))
    for s in [0, 1, L - 1, rng.randrange(L)]:
        R = ref.enc(ref.mul(s, ref.B))
        for t in (s, s + L, s + 2 * L, s + 3 * L): out += vcase2(I, R + t.to_bytes(57, "little"), m)
    for i in range(448, 456):
        out += vcase2(pub, sig[:57] + (S | 1 << i).to_bytes(57, "little"), m)[:1]
        v = int.from_bytes(pub, "little") ^ (1 << i); out += vcase2(v.to_bytes(57, "little"), sig, m)[:1]
        v = int.from_bytes(sig[:57], "little") ^ (1 << i); out += vcase2(pub, v.to_bytes(57, "little") + sig[57:], m)[:1]
    # aliases of small y on the curve, both signs
    c = 0; y = 2
    while c < 6:
        for s in (0, 0x80):
            b = y.to_bytes(56, "little") + bytes([s])
            if ref.dec(b) is not None:
                c += 1
                R = (y + P).to_bytes(56, "little") + bytes([s])
                out += vcase2(R, sig, m)[:1]; out += vcase2(b, sig, m)[:1]; out += vcase2(pub, R + sig[57:], m)[:1]
        y += 1
    for _ in range(n): 
        b = bytes(rng.randrange(256) for _ in range(56)) + bytes([rng.choice((0, 0x80))])
        out += vcase2(b, sig, m)[:1]
    return out

def c06(rng, n):
    out = []
    k = keys(rng, 20, False)[-1]; m = b"msg"
    pub, sig = ref.derive(k), ref.sign(k, m)
    for l in list(range(0, 60)) + [113, 114, 115, 171, 300]:
        p = (pub * 8)[:l]
        out += vcase2(p, sig, m)
    for l in list(range(0, 118)) + [171, 228, 300]:
        s = (sig * 4)[:l]; out += vcase2(pub, s, m)
    for lp, ls in ((0, 0), (1, 1), (56, 113), (58, 115), (57, 0), (0, 114), (114, 57)): out += vcase2((pub * 3)[:lp], (sig * 3)[:ls], m)
    out += vcase2(bytes(57), sig, m) + vcase2(pub, bytes(114), m) + vcase2(bytes(57), bytes(114), b"") + vcase2(pub, sig + b"\0", m) + vcase2(pub + b"\0", sig, m)
    for t in torsion_sigs(rng)[:20]: out += vcase2(*t)
    out += vcase2(bytes(56), bytes(113), b"") + vcase2(bytes(58), bytes(115), b"")
    for _ in range(n):
        p = bytes(rng.randrange(256) for _ in range(rng.choice((57, 57, rng.randrange(130))))); s = bytes(rng.randrange(256) for _ in range(rng.choice((114, 114, rng.randrange(200)))))
        out += vcase2(p, s, bytes(rng.randrange(256) for _ in range(rng.randrange(40))))
    for i in range(114):
        b = bytearray(sig); b[i] ^= 1 << rng.randrange(8); out += vcase2(pub, bytes(b), m)[:1]
    return out

def c07keys(ks):
    out = []
    for k in ks:
        e = "ok %s %s" % (k.hex(), ref.derive(k).hex())
        out += [eqc("k_bytes " + hx(k), e), eqc("k_slice " + hx(k), e), eqc("k_str " + k.hex().encode().hex(), e), eqc("k_secret " + hx(k), e),
                eqc("k_secretstr " + k.hex().encode().hex(), e), eqc("k_random " + hx(k), e), eqc("de_k " + json.dumps(k.hex()).encode().hex(), e),
                eqc("k_parts " + hx(k), "ok true"), eqc("v_bytes " + hx(k), "ok " + k.hex()), eqc("v_str " + k.hex().encode().hex(), "ok " + k.hex()),
                eqc("k_str " + k.hex().upper().encode().hex(), e), eqc("hexpk " + k.hex().encode().hex(), "ok " + k.hex()),
                eqc("de_v " + json.dumps(k.hex()).encode().hex(), "ok " + k.hex())]
    return out
def c07(rng, n):
    out = c07keys(keys(rng, n))
    for l in list(range(0, 57)) + list(range(58, 130)) + [171, 500]:
        out.append(eqc("k_bytes " + hx(b"\x5a" * l), "err InvalidPrivKeyLengthErrro(%d) Invalid PrivateKey Length, expected: 57 bytes, got: %d bytes" % (l, l)))
    out.append(Case("gen", lambda a: a.startswith("ok ") and len(a) == 3 + 114 and len(set(a[3:])) > 8, "57 random bytes"))
    return out

def c08keys(ks):
    out = []
    for k in ks:
        j = json.dumps(k.hex())
        for c in "ksv": out.append(eqc("ser_%s %s" % (c, hx(k)), "ok " + j.encode().hex()))
        e = "ok %s %s" % (k.hex(), ref.derive(k).hex())
        out += [eqc("de_k " + j.encode().hex(), e), eqc("de_s " + j.encode().hex(), e + " " + j.encode().hex()), eqc("de_v " + j.encode().hex(), "ok " + k.hex())]
    return out
def c08(rng, n):
    out = c08keys(keys(rng, n))
    k = keys(rng, 20)[-1].hex()
    bad = ["", "0", "00", k[:-1], k[:-2], k + "0", k + "00", k + k, "g" + k[1:], k[:-1] + "g", k[:50] + "zz" + k[52:], "0x" + k[2:], " " + k[1:], k[:-1] + " ", k[:60] + "\u00e9" + k[61:], k[:60] + "\u00e9" + k[62:], "G" * 114, "/" * 114, ":" * 114, "@" * 114, "`" * 114, k + "\n", "-" + k[1:], "\u0000" * 114]
    for s in bad:
        j = json.dumps(s, ensure_ascii=False).encode()
        for c in "ksv": out.append(eqc("de_%s %s" % (c, j.hex()), "err"))
    for j in ("null", "1", "[]", "{}", "true", '"', "", json.dumps(list(bytes.fromhex(k))), json.dumps([k])):
        for c in "ksv": out.append(eqc("de_%s %s" % (c, j.encode().hex() or "-"), "err"))
    for x in range(1, 256):
        if chr(x) in "0123456789abcdefABCDEF": continue
        i = rng.randrange(114); s = k[:i] + chr(x) + k[i + 1:]
        if x < 128: out.append(eqc("de_%s %s" % ("ksv"[x % 3], json.dumps(s, ensure_ascii=False).encode().hex()), "err"))
    for l in range(0, 130):
        if l != 114: out.append(eqc("de_%s %s" % ("ksv"[l % 3], json.dumps((k + k)[:l]).encode().hex()), "err"))
    return out

def c09(rng, n):
    out = []
    for k, m in zip(keys(rng, n), msgs(rng, n)):
        out.append(eqc("prehash %s %s" % (hx(k), hx(m)), "ok " + (ref.sign(k, m) + ref.derive(k)).hex()))
        out += vcase2(ref.derive(k), ref.sign(k, m), m)[:1]
    return out

FE = ["add", "sub", "neg", "sub_x_bias", "mul", "square", "square_n", "mul_w", "mul_with_signed_curve_constant", "isr", "invert", "weak_reduce", "strong_reduce", "decaf_equal", "low_bit",
      "constant_time_select", "conditional_negate", "decaf_const_time_select", "decaf_cond_negate", "conditional_swap", "dsa_like_serialize", "dsa_like_deserialize"]
SC = ["add", "sub", "halve", "montgomery_multiply", "mul", "decode", "decode_long", "encode"]
def c10(rng, n):
    out = []
    for f in FE: out += fe_cases(f, (0x10ffffff, 0x10ffffff), (), rng, 4 * n)
    return out
def c11(rng, n):
    out = []
    for f in SC: out += sc_cases(f, (), rng, 4 * n)
    return out
def c12(rng, n):
    out = table_cases()
    for f in ("point_scalar_mul", "precomputed_scalar_mul", "point_double_scalamul_non_secret", "recode_wnaf"): out += pt_cases(f, rng, n)
    p = ref.tmul(5, ref.B1)
    for s in SQ[:12]:
        out.append(ptc("h_p_smul %s %s" % (extpt(rng, p), shex(s)), ref.tmul(s, p), True, True))
        out.append(ptc("h_p_bmul " + shex(s), ref.tmul(s, ref.B4), True, True))
        for t in SQ[:8]: out.append(ptc("h_p_dsmul %s %s %s" % (extpt(rng, p), shex(s), shex(t)), ref.tadd(ref.tmul(s, ref.B4), ref.tmul(t, p)), True, True))
        for tb in (3, 5): out.append(wnafc(s, tb))
    return out
def c13(rng, n):
    out = pt_cases("eddsa_like_encode", rng, n) + dec_cases(rng, n)
    for q in ((0, 1), (0, P - 1)):
        for _ in range(4): out.append(eqc("h_p_encode " + extpt(rng, q), "ok " + ref.enc((0, 1)).hex()))
    for b in enc_variants(rng):
        A = ref.dec(b)
        out.append(ptc("h_p_decode " + hx(b), ref.to_internal(A), True, False) if A is not None else eqc("h_p_decode " + hx(b), "ok err DecodeError"))
    for _ in range(n):
        out += pt_cases("mod_equal", rng, 1) + pt_cases("is_on_curve", rng, 1)
    return out
def c14(rng, n):
    out = []
    ok = lambda a: a.startswith("ok ")
    for k, m in zip(keys(rng, n), msgs(rng, n)):
        d = "ok " + ref.derive(k).hex(); s = "ok " + ref.sign(k, m).hex()
        out += [eqc("derive " + hx(k), d), eqc("sign %s %s" % (hx(k), hx(m)), s), eqc("sign %s %s" % (hx(k), hx(m)), s)]
        out.append(eqc("signsn %s %s %s" % (hx(k), hx(k[::-1]), hx(m)), "ok " + ref.sign_sn(k, k[::-1], m).hex()))
        out.append(eqc("derive " + hx(k), d))
    return out

def kcases(prop, k, n, m):
    """the operations of a property on one key, nonce and message"""
    out = []
    if prop in ("C01", "C02", "C03", "C14"):
        out += [eqc("derive " + hx(k), "ok " + ref.derive(k).hex()), eqc("sign %s %s" % (hx(k), hx(m)), "ok " + ref.sign(k, m).hex())]
    if prop in ("C02", "C14", "C03"):
        s = bytearray(ref.shake(k, 57)); s[56] |= 0x80
        out += [eqc("p2p " + hx(k), "ok " + ref.pub_of_secret(bytes(s)).hex()), eqc("s2p " + hx(k), "ok " + ref.pub_of_secret(k).hex()), eqc("signp %s %s" % (hx(k), hx(m)), "ok " + ref.sign_std(k, m).hex())]
    if prop in ("C03", "C14"): out.append(eqc("signsn %s %s %s" % (hx(k), hx(n), hx(m)), "ok " + ref.sign_sn(k, n, m).hex()))
    if prop == "C01": out += [Case("verify%s %s %s %s" % (e, ref.derive(k).hex(), ref.sign(k, m).hex(), hx(m)), lambda a: a in ("ok true", "ok"), "accepted") for e in ("", "e")]
    if prop == "C07": out += c07keys([k])
    if prop == "C08": out += c08keys([k])
    if prop == "C09": out += [eqc("prehash %s %s" % (hx(k), hx(m)), "ok " + (ref.sign(k, m) + ref.derive(k)).hex())] + vcase2(ref.derive(k), ref.sign(k, m), m)
    return out
def textcases(prop, t):
    out = []
    try: s = t.decode()
    except UnicodeDecodeError: return out
    j = json.dumps(s, ensure_ascii=False).encode().hex()
    good = len(s) == 114 and all(c in "0123456789abcdefABCDEF" for c in s)
    for c in "ksv":
        if good:
            k = bytes.fromhex(s); e = "ok %s %s" % (k.hex(), ref.derive(k).hex())
            out.append(eqc("de_%s %s" % (c, j), {"k": e, "s": e + " " + json.dumps(k.hex()).encode().hex(), "v": "ok " + k.hex()}[c]))
        else: out.append(eqc("de_%s %s" % (c, j), "err"))
    return out

CASES = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14}

ROUND = {"C01", "C02", "C03", "C04", "C05", "C06", "C09", "C14"}
