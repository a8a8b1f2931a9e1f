"""Concrete side: replay of obligations and search for failing inputs, against the compiled crate (harness) and the
integer reference (ref.py).  A mismatch found here is a concrete counterexample on the real code."""
import os, random, subprocess, ref
from ref import P, L

class Harness:
    def __init__(s, exe): s.exe = exe; s.n = 0
    def run(s, lines, timeout=600):
        """answers to a batch of command lines ('crash' if the process died on it)"""
        out = []
        todo = list(lines)
        while todo:
            try: r = subprocess.run([s.exe], input=("\n".join(todo) + "\n").encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout).stdout.decode().splitlines()
            except subprocess.TimeoutExpired as e:
                r = (e.stdout or b"").decode().splitlines()
                out += r[:len(todo)]; todo = todo[len(r):]
                if todo: out.append("hang"); todo = todo[1:]
                continue
            r = r[:len(todo)]
            out += r; todo = todo[len(r):]
            if todo: out.append("crash"); todo = todo[1:]
        s.n += len(lines)
        return out

class Case:
    """one concrete check: command, predicate on the answer, description of the expectation"""
    __slots__ = ("cmd", "ok", "exp")
    def __init__(s, cmd, ok, exp=""): s.cmd = cmd; s.ok = ok; s.exp = exp

def eqc(cmd, exp):
    if isinstance(exp, set): return Case(cmd, lambda a: a in exp, "one of " + " | ".join(sorted(exp)))
    return Case(cmd, lambda a: a == exp, exp)

def sweep(h, cases, stop=1):
    """failing cases"""
    bad = []
    an = h.run([c.cmd for c in cases])
    for c, a in zip(cases, an):
        if a == "nocmd": continue
        if not c.ok(a):
            bad.append((c.cmd, c.exp, a))
            if len(bad) >= stop: break
    return bad

hx = lambda b: b.hex() if b else "-"

# ------------------------------------------------------------------ limb-level generators
def limbs_of(v): return [(v >> (28 * i)) & 0xfffffff for i in range(15)] + [v >> 420]
def fval(l): return sum(x << (28 * i) for i, x in enumerate(l)) % P
def fhex(l): return b"".join(x.to_bytes(4, "little") for x in l).hex()
def fparse(s):
    b = bytes.fromhex(s); return [int.from_bytes(b[i:i + 4], "little") for i in range(0, len(b), 4)]

SPECIALV = [0, 1, 2, 3, P - 1, P - 2, P, P + 1, 2**224, 2**224 - 1, 2**224 + 1, 2**448 - 1, 2**447, 2**28 - 1, 2**420, P - 2**224, (P + 1) // 2, (P - 1) // 2, 39081, 39082, P - 39081]
def genlimbs(rng, B, n):
    B = min(B, 0xffffffff)
    out = []
    for v in SPECIALV:
        l = limbs_of(v)
        if max(l) <= B: out.append(l)
    b28 = min(B, 0xfffffff)
    pl = limbs_of(P)
    pats = [[B] * 16, [b28] * 16, [B] * 8 + [0] * 8, [0] * 8 + [B] * 8, [B, 0] * 8, [0, B] * 8, [0] * 15 + [B], [B] + [0] * 15]
    if B >= 0x10000000: pats += [[0x10000000] * 16, [0x10000000] + [b28] * 15, [b28] * 15 + [0x10000000], [0x10000000] + [0xfffffff] * 7 + [0xffffffe] + [0xfffffff] * 7,
                                 [0xfffffff] * 8 + [0x10000000] + [0xfffffff] * 7, [0] * 8 + [0x10000000] + [0] * 7]
    # multiples of p in unreduced form
    for k in range(1, 5):
        l = [x * k for x in pl]
        if max(l) <= B: pats.append(l)
        for d in (-1, 1):
            m = list(l); m[0] += d
            if max(m) <= B and min(m) >= 0: pats.append(m)
    out += pats
    for i in range(16):
        l = [0] * 16; l[i] = B; out.append(l)
        l = [B] * 16; l[i] = 0; out.append(l)
        l = list(pl); l[i] = min(B, l[i] + 1); out.append(l)
        l = list(pl); l[i] -= 1; out.append(l)
        l = [b28] * 16; l[i] = max(0, b28 - 1); out.append(l)
    while len(out) < n:
        c = rng.random()
        if c < .4: l = [rng.randrange(B + 1) for _ in range(16)]
        elif c < .7: l = [rng.choice((0, 1, b28, b28 - 1 if b28 else 0, B, B - 1 if B else 0, rng.randrange(B + 1))) for _ in range(16)]
        elif c < .85:
            l = list(pl)
            for _ in range(rng.randrange(1, 4)):
                i = rng.randrange(16); l[i] = min(B, max(0, l[i] + rng.choice((-1, 1, 0x10000000, -2))))
        else: l = limbs_of(rng.choice(SPECIALV) % 2**448 ^ (1 << rng.randrange(448))); l = [min(x, B) for x in l]
        out.append(l)
    return out[:max(n, 0)] if n else out

def pairs(rng, xs, ys, n):
    r = [(x, y) for x in xs[:24] for y in ys[:24]]
    while len(r) < n: r.append((rng.choice(xs), rng.choice(ys)))
    rng.shuffle(r)
    return r[:n]

def is_canon(l): return max(l) < 1 << 28 and sum(x << (28 * i) for i, x in enumerate(l)) < P

def vcase(cmd, want, canon=False):
    def ok(a):
        if not a.startswith("ok "): return False
        l = fparse(a.split()[1])
        if canon and not is_canon(l): return False
        return fval(l) == want % P
    return Case(cmd, ok, "value %d%s" % (want % P, " canonical" if canon else ""))

def fe_cases(name, bs, ks, rng, n, ops=None):
    """concrete cases for one field function"""
    B = list(bs)
    G = lambda i: genlimbs(rng, B[i] if i < len(B) else 0x10ffffff, n)
    pairs = globals()["pairs"]
    if ops is not None:
        n = 4; G = lambda i: [o[i] for o in ops if len(o) > i]; pairs = lambda rng, x, y, n: list(zip(x, y))
    out = []
    un = {"neg": lambda x: -x, "square": lambda x: x * x, "isr": lambda x: pow(x, (P - 3) // 4, P), "invert": lambda x: pow(x, P - 2, P), "weak_reduce": lambda x: x}
    bi = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y}
    if name in un:
        for x in G(0): out.append(vcase("h_%s %s" % (name, fhex(x)), un[name](fval(x))))
    elif name == "strong_reduce":
        for x in G(0): out.append(vcase("h_strong_reduce " + fhex(x), fval(x), True))
    elif name in bi:
        for x, y in pairs(rng, G(0), G(1), n): out.append(vcase("h_%s %s %s" % (name, fhex(x), fhex(y)), bi[name](fval(x), fval(y))))
    elif name == "sub_x_bias":
        for x, y in pairs(rng, G(0), G(1), n): out.append(vcase("h_sub_x_bias %s %s %d" % (fhex(x), fhex(y), ks[0] if ks else 2), fval(x) - fval(y)))
    elif name == "square_n":
        for x in G(0)[:n // 4]: out.append(vcase("h_square_n %s %d" % (fhex(x), ks[0] if ks else 9), pow(fval(x), 1 << (ks[0] if ks else 9), P)))
    elif name in ("mul_w", "mul_with_signed_curve_constant"):
        k = ks[0] if ks else 39081
        if name != "mul_w" and k >> 63: k -= 1 << 64
        for x in G(0): out.append(vcase("h_%s %s %d" % (name, fhex(x), k), fval(x) * k))
    elif name == "decaf_equal":
        for x, y in pairs(rng, G(0), G(1), n):
            e = 0xffffffff if fval(x) == fval(y) else 0
            out.append(eqc("h_decaf_equal %s %s" % (fhex(x), fhex(y)), "ok %d" % e))
        for x in G(0)[:n // 2]:
            i = rng.randrange(16); y = list(limbs_of(fval(x)))
            out.append(eqc("h_decaf_equal %s %s" % (fhex(x), fhex(y)), "ok 4294967295"))
            for i in range(16):
                z = list(y); z[i] ^= 1 << rng.randrange(28)
                out.append(eqc("h_decaf_equal %s %s" % (fhex(x), fhex(z)), "ok %d" % (0xffffffff if fval(x) == fval(z) else 0)))
        out = out[:2 * n]
    elif name == "low_bit":
        for x in G(0): out.append(eqc("h_low_bit " + fhex(x), "ok %d" % (0xffffffff if fval(x) & 1 else 0)))
    elif name in ("constant_time_select", "decaf_const_time_select", "conditional_swap"):
        for x, y in pairs(rng, G(0), G(1), n):
            for m in (0, 0xffffffff):
                c = "h_%s %s %s %d" % (name, fhex(x), fhex(y), m)
                if name == "conditional_swap":
                    w = (fval(y), fval(x)) if m else (fval(x), fval(y))
                    out.append(Case(c, lambda a, w=w: a.startswith("ok") and (fval(fparse(a.split()[1])), fval(fparse(a.split()[2]))) == w, str(w)))
                else:
                    out.append(vcase(c, fval(x if bool(m) == (name == "constant_time_select") else y)))
    elif name in ("conditional_negate", "decaf_cond_negate"):
        for x in G(0):
            for m in (0, 0xffffffff): out.append(vcase("h_%s %s %d" % (name, fhex(x), m), -fval(x) if m else fval(x)))
    elif name == "dsa_like_serialize":
        for x in G(0): out.append(eqc("h_dsa_like_serialize " + fhex(x), "ok " + fval(x).to_bytes(56, "little").hex()))
    elif name == "dsa_like_deserialize":
        for v in [v for v in SPECIALV if v < 2**448] + [rng.randrange(2**448) for _ in range(n // 4)] + [P + rng.randrange(2**224) for _ in range(n // 8)] + [P ^ (1 << i) for i in range(448)]:
            m = 0xffffffff if v < P else 0
            def ok(a, v=v, m=m):
                t = a.split(); return t[0] == "ok" and int(t[2]) == m and (not m or fval(fparse(t[1])) == v)
            out.append(Case("h_dsa_like_deserialize %s 0" % (v.to_bytes(56, "little") + b"\0").hex(), ok, "value %d mask %d" % (v, m)))
    return out

# ------------------------------------------------------------------ scalars
def shex(v): return v.to_bytes(56, "little").hex()
SQ = [0, 1, 2, 3, 4, 5, L - 1, L - 2, L - 3, (L + 1) // 2, (L - 1) // 2, 2**445, 2**445 - 1, 2**446 - 2**445 - 1, 2**32 - 1, 2**32, 2**224, 2**222, 2**223 - 1, pow(4, -1, L), pow(2, -1, L), int("55" * 55, 16), int("2a" * 55, 16), int("ff" * 27, 16), int("01" * 55, 16)]
def genscal(rng, n, hi=L):
    out = [v for v in SQ if v < hi]
    out += [1 << k for k in range(0, 446, 5)] + [(1 << k) - 1 for k in range(1, 446, 7)] + [L - 1 - (1 << k) for k in range(0, 445, 9)] + [L - 1 - rng.randrange(1 << 20) for _ in range(8)]
    if hi > L: out += [L, L + 1, 2 * L - 1, 2 * L, 3 * L, hi - 1, hi - 2]
    out = [v for v in out if 0 <= v < hi]
    rng.shuffle(out)
    out = [v for v in SQ if v < hi] + out
    while len(out) < n:
        c = rng.random()
        if c < .5: v = rng.randrange(hi)
        elif c < .75: v = sum((rng.choice((0, 0xffffffff, 1, 0x80000000, rng.randrange(1 << 32)))) << (32 * i) for i in range(14)) % hi
        else: v = sum(rng.choice((0, 0xffff, 1, 0x8000, 0x7fff, 0xfff8)) << (16 * i) for i in range(28)) % hi
        out.append(v)
    return out[:n]

def sc_cases(name, ks, rng, n, ops=None, bts=None):
    out = []; pairs = globals()["pairs"]; genscal = globals()["genscal"]
    val = lambda w: sum(x << (32 * i) for i, x in enumerate(w))
    if bts is not None:
        for b in bts:
            v = int.from_bytes(b[:56] if name == "decode" else b, "little")
            if name in ("decode", "decode_long"): out.append(eqc("h_s_%s %s" % (name, b.hex() or "-"), "ok " + shex(v % L)))
        return out
    if ops is not None:
        ops = [[val(x) for x in o] for o in ops]; n = 4
        genscal = lambda rng, n, hi=L: [o[0] for o in ops]; pairs = lambda rng, x, y, n: [tuple(o[:2]) for o in ops if len(o) > 1]
    if name in ("add", "sub", "mul", "montgomery_multiply"):
        f = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y, "montgomery_multiply": lambda x, y: x * y * pow(2, -448, L)}[name]
        for x, y in pairs(rng, genscal(rng, n // 2), genscal(rng, n // 2), n):
            out.append(eqc("h_s_%s %s %s" % (name, shex(x), shex(y)), "ok " + shex(f(x, y) % L)))
    elif name == "sub_extra":
        for x, y in pairs(rng, genscal(rng, n // 2, 2**446), genscal(rng, n // 2), n):
            if -L <= x - y < L: out.append(eqc("h_s_sub_extra %s %s 0" % (shex(x), shex(y)), "ok " + shex((x - y) % L)))
    elif name == "halve":
        for x in genscal(rng, n): out.append(eqc("h_s_halve " + shex(x), "ok " + shex(x * pow(2, -1, L) % L)))
    elif name == "encode":
        for x in genscal(rng, n): out.append(eqc("h_s_encode " + shex(x), "ok " + x.to_bytes(57, "little").hex()))
    elif name == "decode":
        for x in genscal(rng, n, 2**448): out.append(eqc("h_s_decode " + x.to_bytes(56, "little").hex(), "ok " + shex(x % L)))
    elif name == "decode_long":
        for k in (ks if ks else (56, 57, 114)):
            for x in genscal(rng, n // 2, 2**448):
                if k >= 56: b = x.to_bytes(56, "little") + bytes(rng.choice((0, 255, rng.randrange(256))) for _ in range(k - 56))
                else: b = x.to_bytes(56, "little")[:k]
                out.append(eqc("h_s_decode_long " + (b.hex() or "-"), "ok " + shex(int.from_bytes(b, "little") % L)))
            for _ in range(n // 4):
                b = bytes(rng.choice((0, 255, 127, 128, rng.randrange(256))) for _ in range(k))
                out.append(eqc("h_s_decode_long " + (b.hex() or "-"), "ok " + shex(int.from_bytes(b, "little") % L)))
    return out

# ------------------------------------------------------------------ points
def rndpt(rng):
    return ref.tmul(rng.choice((0, 1, 2, L - 1, rng.randrange(L), rng.randrange(L), rng.randrange(L))), ref.B1)
def relimb(rng, v, B=0x10ffffff):
    """some limb representation of v with limbs <= B"""
    v %= P
    k = rng.random()
    l = limbs_of(v)
    if k < .3 and v + P < 2**448: l = limbs_of(v + P)
    elif k < .5:
        i = rng.randrange(15)
        if l[i + 1] > 0 and l[i] + (1 << 28) <= B: l[i + 1] -= 1; l[i] += 1 << 28
    return l
def extpt(rng, a):
    z = rng.choice((1, P - 1, rng.randrange(1, P)))
    return ",".join(fhex(relimb(rng, c * z)) for c in (a[0], a[1], 1, a[0] * a[1]))
def nielspt(rng, a):
    h = pow(2, -1, P)
    return ",".join(fhex(relimb(rng, c)) for c in ((a[1] - a[0]) * h, (a[1] + a[0]) * h, ref.DT * a[0] * a[1]))
def pnielspt(rng, a):
    z = rng.choice((1, rng.randrange(1, P)))
    return ",".join(fhex(relimb(rng, c * z)) for c in (a[1] - a[0], a[1] + a[0], 2 * ref.DT * a[0] * a[1], 2))
def ptc(cmd, want, T=True, tors=False):
    """answer must represent want (up to T2 when tors)"""
    def ok(a):
        if not a.startswith("ok "): return False
        X, Y, Z, Tt = [fval(fparse(x)) for x in a[3:].split(",")]
        if Z == 0: return False
        zi = ref.inv(Z); x, y = X * zi % P, Y * zi % P
        if T and Tt * Z % P != X * Y % P: return False
        if (x, y) == want: return True
        return tors and ((-x) % P, (-y) % P) == want
    return Case(cmd, ok, "point %d,%d" % want)

def pt_cases(name, rng, n):
    out = []
    for _ in range(n):
        p = rndpt(rng); q = rng.choice((rndpt(rng), p, ref.tneg(p), rndpt(rng)))
        f = rng.randrange(2)
        if name == "double_internal": out.append(ptc("h_p_double %s %d" % (extpt(rng, p), f), ref.tadd(p, p), not f))
        elif name == "add_niels_to_extended": out.append(ptc("h_p_add_niels %s %s %d" % (extpt(rng, p), nielspt(rng, q), f), ref.tadd(p, q), not f))
        elif name == "sub_niels_from_extended_point": out.append(ptc("h_p_sub_niels %s %s %d" % (extpt(rng, p), nielspt(rng, q), f), ref.tadd(p, ref.tneg(q)), not f))
        elif name == "add_projected_niels_to_extended": out.append(ptc("h_p_add_pniels %s %s %d" % (extpt(rng, p), pnielspt(rng, q), f), ref.tadd(p, q), not f))
        elif name == "sub_projected_niels_from_extended_point": out.append(ptc("h_p_sub_pniels %s %s %d" % (extpt(rng, p), pnielspt(rng, q), f), ref.tadd(p, ref.tneg(q)), not f))
        elif name == "to_projected_niels":
            def ok(a, p=p):
                if not a.startswith("ok "): return False
                A, B, C, Z = [fval(fparse(x)) for x in a[3:].split(",")]
                if Z == 0: return False
                zi = ref.inv(Z)
                return (B - A) * zi % P == p[0] and (B + A) * zi % P == p[1] and C * zi % P == ref.DT * p[0] * p[1] % P
            out.append(Case("h_p_to_pniels " + extpt(rng, p), ok, "niels form of %d,%d" % p))
        elif name == "eddsa_like_encode": out.append(eqc("h_p_encode " + extpt(rng, p), "ok " + ref.enc(ref.phi(p)).hex()))
        elif name == "is_on_curve":
            out.append(eqc("h_p_on_curve " + extpt(rng, p), "ok true"))
        elif name == "mod_equal":
            out.append(eqc("h_p_equal %s %s" % (extpt(rng, p), extpt(rng, q)), "ok " + ("true" if p == q or p == ((-q[0]) % P, (-q[1]) % P) else "false")))
        elif name == "point_scalar_mul":
            s = genscal(rng, 40)[rng.randrange(40)]; out.append(ptc("h_p_smul %s %s" % (extpt(rng, p), shex(s)), ref.tmul(s, p), True, True))
        elif name == "precomputed_scalar_mul":
            s = genscal(rng, 40)[rng.randrange(40)]; out.append(ptc("h_p_bmul " + shex(s), ref.tmul(s, ref.B4), True, True))
        elif name == "point_double_scalamul_non_secret":
            s, t = rng.choice(SC2(rng)), rng.choice(SC2(rng))
            out.append(ptc("h_p_dsmul %s %s %s" % (extpt(rng, p), shex(s), shex(t)), ref.tadd(ref.tmul(s, ref.B4), ref.tmul(t, p)), True, True))
        elif name == "recode_wnaf":
            tb = rng.choice((3, 5)); s = genscal(rng, 60)[rng.randrange(60)]
            out.append(wnafc(s, tb))
        elif name == "eddsa_like_decode":
            out += dec_cases(rng, 1)
    return out
def SC2(rng): return genscal(rng, 60)
def wnafc(s, tb):
    def ok(a):
        t = a.split()
        if t[0] != "ok": return False
        n = int(t[1]); ds = [tuple(map(int, x.split(":"))) for x in t[2].split(",")][:n + 1]
        if ds[-1] != (-1, 0): return False
        prev = 10**9
        for p, d in ds[:-1]:
            if p >= prev or p < 0 or d % 2 == 0 or abs(d) >= 1 << (tb + 1): return False
            prev = p
        return sum(d << p for p, d in ds[:-1]) == s
    return Case("h_wnaf %s %d" % (shex(s), tb), ok, "signed digits summing to %d" % s)

def table_cases():
    out = []
    import pt
    inv2 = pow(2, -1, P)
    def chk(a, c):
        if not a.startswith("ok "): return False
        A, B, C = [fval(fparse(x)) for x in a[3:].split(",")]
        x, y = (B - A) % P, (B + A) % P
        want = ref.tmul(c, ref.B4)
        return (x, y) in (want, ((-want[0]) % P, (-want[1]) % P)) and C == ref.DT * x * y % P
    for i in range(32): out.append(Case("h_t_wnaf %d" % i, lambda a, i=i: chk(a, 2 * i + 1), "niels form of [%d]B" % (2 * i + 1)))
    for j in range(5):
        for t in range(16):
            c = (1 << (18 * (4 + 5 * j))) + sum((2 * (t >> k & 1) - 1) << (18 * (k + 5 * j)) for k in range(4))
            out.append(Case("h_t_comb %d" % (16 * j + t), lambda a, c=c: chk(a, c), "niels form of [%d]B" % c))
    return out

def torsion():
    """the four rational 4-torsion points of Ed448"""
    return [(0, 1), (0, P - 1), (1, 0), (P - 1, 0)]

def enc_variants(rng):
    """(bytes, is canonical point) candidates"""
    out = []
    ys = list(range(0, 12)) + [P - i for i in range(1, 12)] + [P + i for i in range(0, 12)] + [2**448 - 1, 2**448 - 2, 2**224, 2**447]
    for y in ys:
        if 0 <= y < 2**448:
            for top in (0, 0x80, 1, 0x40, 0x81, 0x7f, 0xff): out.append(y.to_bytes(56, "little") + bytes([top]))
    return out

def dec_cases(rng, n):
    out = []
    def case(b):
        A = ref.dec(b)
        if A is None: return eqc("h_p_decode " + hx(b), "ok err " + ("DecodeError" if len(b) == 57 else "InvalidLengthError"))
        return ptc("h_p_decode " + hx(b), ref.to_internal(A), True, False)
    for _ in range(n):
        k = rng.random()
        if k < .4: out.append(case(ref.enc(ref.mul(rng.randrange(L), ref.B))))
        elif k < .7: out.append(case(bytes(rng.randrange(256) for _ in range(56)) + bytes([rng.choice((0, 0x80))])))
        elif k < .8: out.append(case(ref.enc(ref.add(ref.mul(rng.randrange(L), ref.B), rng.choice(torsion())))))
        else:
            v = enc_variants(rng); out.append(case(rng.choice(v)))
    return out
