#!/usr/bin/env python3
"""Behaviour-preserving edits of /repo used to test that the checks stay quiet.
usage: refactors.py [-j N] [name[:prop,prop] ...]   each edit is applied to a scratch copy (VC_REPO / VC_BUILD), never to /repo"""
import os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.environ.get("VC_HOME") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/vref"
BN, SC, EP, ED, GO, LB, K, KS = ["src/%s.rs" % n for n in ("bignumber", "scalar", "extended_point", "eddsa", "goldilocks", "lib", "karatsuba_32", "karatsuba_square_32")]
def rx(f, a, b, n=1): return ("rx", f, a, b, n)
R = {}
def ref(name, props, *ed): R[name] = (props.split(), ed)

ref("bn-addraw-loop", "C10 C12", rx(BN, r"(pub fn add_raw[^{]*\{\n    let mut n = create_zero_bignumber\(\);\n)(?:    n\[\d+\] = [^\n]*\n)+", r"\1    for i in 0..N_LIMBS {\n        n[i] = x[i].wrapping_add(y[i]);\n    }\n"))
ref("bn-subraw-iter", "C10", rx(BN, r"(pub fn sub_raw[^{]*\{\n    let mut n = create_zero_bignumber\(\);\n)(?:    n\[\d+\] = [^\n]*\n)+", r"\1    n.iter_mut().zip(x.iter().zip(y.iter())).for_each(|(o, (p, q))| *o = p.wrapping_sub(*q));\n"))
ref("bn-bias-loop", "C10", rx(BN, r"    n\[0\] = u32::wrapping_add\(n\[0\], co1\);\n.*?(?=    n\n\})", "    for (i, l) in n.iter_mut().enumerate() {\n        *l = l.wrapping_add(if i == N_LIMBS / 2 { co2 } else { co1 });\n    }\n"))
ref("bn-weak-loop", "C10 C13", rx(BN, r"    n\[15\] = u32::wrapping_add\(n\[15\] & RADIX_MASK, n\[14\] >> RADIX\);\n.*?(?=    n\[0\] = u32::wrapping_add\(n\[0\] & RADIX_MASK, tmp\))", "    for i in (1..N_LIMBS).rev() {\n        n[i] = u32::wrapping_add(n[i] & RADIX_MASK, n[i - 1] >> RADIX);\n    }\n"))
ref("bn-strong-loop", "C10 C13 C04", rx(BN, r"(pub fn strong_reduce.*?let mut scarry = 0 as Sdword;\n).*?(    n\n\}\n\npub fn decaf_equal)", r"""\1    for i in 0..N_LIMBS {
        scarry += n[i] as Sdword - MODULUS[i] as Sdword;
        n[i] = scarry as Word & RADIX_MASK;
        scarry >>= RADIX;
    }
    let m = (scarry as Word) as Dword & RADIX_MASK as Dword;
    let mut carry = 0 as Dword;
    for i in 0..N_LIMBS {
        carry += n[i] as Dword + (m & MODULUS[i] as Dword);
        n[i] = carry as Word & RADIX_MASK;
        carry >>= RADIX;
    }
\2"""))
ref("bn-equal-fold", "C10 C04", rx(BN, r"    let mut ret: Word = 0;\n\n    ret \|= y\[0\];.*?(?=    is_zero_mask\(ret\))", "    let ret = y.iter().fold(0, |acc, limb| acc | limb);\n"))
ref("bn-equal-array", "C10 C05", rx(BN, r"    let mut ret: Word = 0;\n\n    ret \|= y\[0\];.*?    is_zero_mask\(ret\)", "    if y == BIG_ZERO {\n        LMASK\n    } else {\n        0\n    }"))
ref("bn-iszero", "C10 C05", rx(BN, r"    let mut nn = n as Dword;\n    nn = u64::wrapping_sub\(nn, 1\);\n    \(nn >> WORD_BITS\) as Word", "    if n == 0 {\n        LMASK\n    } else {\n        0\n    }"))
ref("bn-select-loop", "C10 C02", rx(BN, r"    n\[0\] = \(x\[0\] & !neg\) \| \(y\[0\] & neg\);\n.*?(?=\n    n\n\})", "    for i in 0..N_LIMBS {\n        n[i] = x[i] ^ (neg & (x[i] ^ y[i]));\n    }\n"))
ref("bn-swap-if", "C10 C12", rx(BN, r"    for i in 0\.\.N_LIMBS \{\n        let s = \(x\[i\] \^ n\[i\]\) & swap;\n        x\[i\] \^= s;\n        n\[i\] \^= s;\n    \}", "    for (a, b) in n.iter_mut().zip(x.iter_mut()) {\n        let d = (*a ^ *b) & *swap;\n        *a ^= d;\n        *b ^= d;\n    }"))
ref("bn-lowbit", "C10 C13", rx(BN, r"    let mut y = \*x;\n    y = strong_reduce\(y\);\n\n    u32::wrapping_sub\(0, y\[0\] & 1\)", "    let canonical = strong_reduce(*x);\n    if canonical[0] & 1 == 1 { LMASK } else { 0 }"))
ref("bn-isr-helper", "C10 C13", rx(BN, r"    l1 = square_n\(&l2, 3\);\n    let mut l0 = mul\(&l2, &l1\);\n    l1 = square_n\(&l0, 3\);\n    l0 = mul\(&l2, &l1\);", "    let mut l0 = pow2k_mul(&l2, 3, &l2);\n    l0 = pow2k_mul(&l0, 3, &l2);"), rx(BN, r"pub fn square_n\(", "fn pow2k_mul(x: &BigNumber, k: usize, m: &BigNumber) -> BigNumber {\n    mul(&square_n(x, k), m)\n}\n\npub fn square_n("))
ref("bn-squaren-for", "C10", rx(BN, r"pub fn square_n\(x: &BigNumber, mut y: usize\).*?\n\}\n", "pub fn square_n(x: &BigNumber, y: usize) -> BigNumber {\n    let mut n = square(x);\n    for _ in 1..y {\n        n = square(&n);\n    }\n    n\n}\n"))
ref("bn-ser-rewrite", "C10 C13 C02", rx(BN, r"(pub fn dsa_like_serialize[^{]*\{\n).*?\n\}\n", r"""\1    let x = strong_reduce(*n);
    let mut res: [u8; FIELD_BYTES] = [0; FIELD_BYTES];
    for i in 0..N_LIMBS / 2 {
        let pair = (x[2 * i] as Dword) | ((x[2 * i + 1] as Dword) << RADIX);
        for j in 0..7 {
            res[7 * i + j] = (pair >> (8 * j)) as u8;
        }
    }
    res
}
"""))
ref("bn-deser-rewrite", "C05 C13", rx(BN, r"        scarry = \(scarry \+ n\[i\] as Sdword - MODULUS\[i\] as Sdword\) >> WORD_BITS;", "        let diff = scarry + n[i] as Sdword - MODULUS[i] as Sdword;\n        scarry = if diff < 0 { -1 } else { 0 };"))
ref("k-reorder", "C10 C12", rx(K, r"(    z2 = u64::wrapping_add\(z2, u64::wrapping_mul\(aa\[7\], bb\[1\]\)\);\n)(    z2 = u64::wrapping_add\(z2, u64::wrapping_mul\(aa\[6\], bb\[2\]\)\);\n)", r"\2\1"))
ref("sc-subextra-helper", "C11 C02", rx(SC, r"    let mut r = create_zero_scalar\(\);\n    let mut chain: Sdword = 0;\n    for i in 0\.\.SCALAR_WORDS \{\n        chain \+= minuend\[i\] as Sdword - subtrahend\[i\] as Sdword;\n        r\[i\] = chain as Word;\n        chain >>= WORD_BITS;\n    \}\n\n    let borrow = chain \+ \*carry as Sdword;\n    chain = 0;\n", "    let (mut r, under) = raw_sub(minuend, subtrahend);\n    let borrow = under + *carry as Sdword;\n    let mut chain: Sdword = 0;\n"), rx(SC, r"pub fn sub_extra", "fn raw_sub(a: &Scalar, b: &Scalar) -> (Scalar, Sdword) {\n    let mut r = create_zero_scalar();\n    let mut chain: Sdword = 0;\n    for i in 0..SCALAR_WORDS {\n        chain += a[i] as Sdword - b[i] as Sdword;\n        r[i] = chain as Word;\n        chain >>= WORD_BITS;\n    }\n    (r, chain)\n}\n\npub fn sub_extra"))
ref("sc-sub-cond", "C11", rx(SC, r"        chain \+= r\[i\] as Sdword \+ \(\(SCALAR_Q\[i\] as Sdword\) & borrow\);", "        let addend = if borrow != 0 { SCALAR_Q[i] as Sdword } else { 0 };\n        chain += r[i] as Sdword + addend;"))
ref("sc-halve-if", "C11 C12", rx(SC, r"pub fn halve\(mut s: Scalar\) -> Scalar \{.*?\n\}\n", """pub fn halve(s: Scalar) -> Scalar {
    let mut sum = s;
    let mut carry: Dword = 0;
    if s[0] & 1 == 1 {
        for (w, q) in sum.iter_mut().zip(SCALAR_Q.iter()) {
            carry += *w as Dword + *q as Dword;
            *w = carry as Word;
            carry >>= WORD_BITS;
        }
    }
    let mut out = create_zero_scalar();
    for i in 0..SCALAR_WORDS {
        let above = if i + 1 < SCALAR_WORDS { sum[i + 1] } else { carry as Word };
        out[i] = (sum[i] >> 1) | (above << 31);
    }
    out
}
"""))
ref("sc-mont-helper", "C11", rx(SC, r"            chain = u64::wrapping_add\(\n                u64::wrapping_add\(\n                    u64::wrapping_mul\(x\[i\] as Dword, y\[j\] as Dword\),\n                    out\[j\] as Dword,\n                \),\n                chain,\n            \);", "            chain = mac(x[i], y[j], out[j], chain);"), rx(SC, r"#\[allow\(clippy::needless_range_loop\)\]\npub fn montgomery_multiply", "#[inline]\nfn mac(a: Word, b: Word, c: Word, carry: Dword) -> Dword {\n    (a as Dword) * (b as Dword) + c as Dword + carry\n}\n\n#[allow(clippy::needless_range_loop)]\npub fn montgomery_multiply"))
ref("sc-encode-bytes", "C11 C02 C05", rx(SC, r"    let word_bytes = WORD_BITS / 8;\n    let mut dst: \[u8; 57\] = \[0; 57\];\n    let mut k: usize = 0;\n.*?\n\n    dst", "    let mut dst: [u8; 57] = [0; 57];\n    for (chunk, w) in dst.chunks_exact_mut(4).zip(s.iter()) {\n        chunk.copy_from_slice(&w.to_le_bytes());\n    }\n\n    dst"))
ref("sc-decshort", "C11 C02", rx(SC, r"            if k >= size \{\n                break;\n            \}\n            out \|= \(b\[k\] as Word\) << \(8 \* j\);\n            k \+= 1;", "            if k < size {\n                out |= (b[k] as Word) << (8 * j);\n                k += 1;\n            }"))
ref("sc-declong-match", "C11 C03", rx(SC, r"    if b_len == SCALAR_SER_BYTES \{\n        res = mul\(", "    if size == 0 && b_len == SCALAR_SER_BYTES {\n        res = mul("))
ref("ep-double-order", "C10 C12", rx(EP, r"        let c = square\(&self.x\);\n        let mut a = square\(&self.y\);\n        // println!\(\"Debug: \{:\?\}\", a\);\n        let d = add_raw\(&c, &a\);\n        self.t = add_raw\(&self.x, &self.y\);\n        let mut b = square\(&self.t\);", "        let sum = add_raw(&self.x, &self.y);\n        let mut a = square(&self.y);\n        let c = square(&self.x);\n        let d = add_raw(&c, &a);\n        let mut b = square(&sum);"))
ref("ep-addniels-locals", "C12 C10", rx(EP, r"    pub fn add_niels_to_extended\(&mut self, np: &TwistedNiels, before_double: bool\) \{.*?\n    \}\n", """    pub fn add_niels_to_extended(&mut self, np: &TwistedNiels, before_double: bool) {
        let ym = mul(&np.a, &sub(&self.y, &self.x));
        let yp = mul(&np.b, &add(&self.x, &self.y));
        let cc = mul(&np.c, &self.t);
        let h = add(&ym, &yp);
        let e = sub(&yp, &ym);
        let f = sub(&self.z, &cc);
        let g = add(&self.z, &cc);
        self.z = mul(&f, &g);
        self.x = mul(&e, &f);
        self.y = mul(&g, &h);
        if !before_double {
            self.t = mul(&e, &h);
        }
    }
"""))
ref("ep-dedupe-sub", "C12", rx(EP, r"    pub fn sub_niels_from_extended_point\(&mut self, np: &TwistedNiels, before_double: bool\) \{.*?\n    \}\n", """    pub fn sub_niels_from_extended_point(&mut self, np: &TwistedNiels, before_double: bool) {
        let negated = TwistedNiels {
            a: np.b,
            b: np.a,
            c: crate::bignumber::neg(&np.c),
        };
        self.add_niels_to_extended(&negated, before_double);
    }
"""))
ref("ep-modeq-sub", "C04 C13", rx(EP, r"        let a = mul\(&self.y, &p2.x\);\n        let b = mul\(&self.x, &p2.y\);\n        let valid = decaf_equal\(&a, &b\);\n\n        valid == DECAF_TRUE", "        let cross = sub(&mul(&self.x, &p2.y), &mul(&p2.x, &self.y));\n        decaf_equal(&cross, &BIG_ZERO) != 0"))
ref("ep-encode-locals", "C13 C02", rx(EP, r"    pub fn eddsa_like_encode\(&self\) -> \[u8; 57\] \{.*?(?=        let mut res: \[u8; 57\])", """    pub fn eddsa_like_encode(&self) -> [u8; 57] {
        let xx = square(&self.x);
        let yy = square(&self.y);
        let u = add(&xx, &yy);
        let w = sub(&yy, &xx);
        let zz = square(&self.z);
        let v = sub(&add(&zz, &zz), &w);
        let xy = mul(&self.x, &self.y);
        let num = sub(&BIG_ZERO, &add(&xy, &xy));
        let t = mul(&num, &invert(&u));
        let x = mul(&w, &invert(&v));

"""))
ref("ep-decode-early", "C05 C13 C06", rx(EP, r"    let ok = p.is_on_curve\(\);\n    if !ok \|\| succ == DECAF_FALSE \{\n        return Err\(LibgoldilockErrors::DecodeError\);\n    \}", "    if succ != DECAF_TRUE {\n        return Err(LibgoldilockErrors::DecodeError);\n    }\n    if !p.is_on_curve() {\n        return Err(LibgoldilockErrors::DecodeError);\n    }"))
ref("ep-decode-arr", "C05 C13", rx(EP, r"    let mut src: \[u8; 57\] = \[0; 57\];\n    src.copy_from_slice\(src_org\);\n    let cofactor_mask = ZERO_MASK;\n    let low = !is_zero_mask\(ZERO_MASK & \(src\[FIELD_BYTES\] as Word\)\);\n    src\[FIELD_BYTES\] &= \(!cofactor_mask\) as u8;\n", "    let mut src: [u8; 57] = src_org.try_into().unwrap();\n    let sign = src[56] >> 7;\n    src[56] &= 0x7f;\n    let low = (sign as Word).wrapping_neg();\n"))
ref("ep-wnaf-tz", "C12 C04", rx(EP, r"    if n == 0 \{\n        return 32;\n    \};\n    let mut r: u32 = 0;\n    while n % 2 == 0 \{\n        r \+= 1;\n        n /= 2;\n    \}\n    r", "    n.trailing_zeros()"), rx(EP, r"pub fn trailing_zeroes_32\(mut n", "pub fn trailing_zeroes_32(n"))
ref("ep-smul-for", "C12", rx(EP, r"                for _j in 0\.\.\(window - 1\) \{\n                    out.double_internal\(true\);\n                \}\n                out.double_internal\(false\);", "                for j in 0..window {\n                    out.double_internal(j + 1 != window);\n                }"))
ref("ep-fixwin-iter", "C12", rx(EP, r"        let mut out = Vec::new\(\);\n        out.push\(p_original.to_projected_niels\(\)\);\n        for _i in 1\.\.n_table \{", "        let mut out = Vec::with_capacity(n_table);\n        out.push(p_original.to_projected_niels());\n        while out.len() < n_table {"))
ref("ep-comb-helper", "C12 C02", rx(EP, r"            let mut tab: Word = 0;\n            for k in 0\.\.DECAF_COMB_TEETH \{\n.*?\n            \}\n\n", "            let mut tab = comb_teeth(&scalar2, i, j);\n\n"), rx(EP, r"pub fn precomputed_scalar_mul", """fn comb_teeth(s: &Scalar, i: usize, j: usize) -> Word {
    let mut tab: Word = 0;
    for k in 0..DECAF_COMB_TEETH {
        let bit = i + DECAF_COMB_SPACING * (k + j * DECAF_COMB_TEETH);
        if bit < SCALAR_BITS {
            tab |= ((s[bit / WORD_BITS] >> (bit % WORD_BITS)) & 1) << k;
        }
    }
    tab
}

pub fn precomputed_scalar_mul"""))
ref("ep-dbl-refactor", "C12 C04 C01", rx(EP, r"        let mut control_var = Vec::new\(\);\n        for _i in 0\.\.115 \{\n            control_var.push\(SmvtControl::new\(\)\);\n        \}\n", "        let mut control_var: Vec<SmvtControl> = (0..115).map(|_| SmvtControl::new()).collect();\n"))
ref("ed-verify-question", "C04 C05 C06", rx(ED, r"    let p: TwistedExtendedPoint;\n    match eddsa_like_decode\(pubkey\) \{.*?\n    \}\n(?=    let scalar_zero)", """    let p = eddsa_like_decode(pubkey).map_err(|err| match err {
        LibgoldilockErrors::InvalidLengthError => LibgoldilockErrors::InvalidPubkeyLengthError,
        _ => LibgoldilockErrors::DecodePubkeyError,
    })?;
"""))
ref("ed-verify-reorder", "C04 C05 C06", rx(ED, r"    let responce_scalar = decode_long\(&sig2\);\n    if encode\(&responce_scalar\) != sig2 \{\n        return Err\(LibgoldilockErrors::DecodeSignatureError\);\n    \}\n\n", ""), rx(ED, r"    let mut r_point: TwistedExtendedPoint;\n", "    let responce_scalar = decode_long(&sig2);\n    if encode(&responce_scalar) != sig2 {\n        return Err(LibgoldilockErrors::DecodeSignatureError);\n    }\n\n    let mut r_point: TwistedExtendedPoint;\n"))
ref("ed-hash-multi", "C02 C03 C04", rx(ED, r"    let mut sig = b\"SigEd448\".to_vec\(\);\n    sig.push\(0\);\n    sig.push\(0\);\n    sig.append\(input\);\n    let mut hasher = Shake256::default\(\);\n    hasher.update\(&sig\);", "    let mut hasher = Shake256::default();\n    hasher.update(b\"SigEd448\\x00\\x00\");\n    hasher.update(input);\n    input.clear();"))
ref("ed-clamp-order", "C02 C03 C14", rx(ED, r"    pk\[0\] &= 0xfc;\n    pk\[56\] = 0;\n    pk\[55\] \|= 0x80;", "    pk[55] |= 0x80;\n    pk[56] = 0x00;\n    pk[0] &= !3;"))
SIGN = r"    let mut nonce: \[u8; 114\] = \[0; 114\];\n    let mut v1: Vec<u8> = n.to_vec\(\);.*?\n    result\n\}\n"
ref("go-sign-shared", "C01 C02 C03 C14", rx(GO, r"    let point = point_by_secret\(&sk\);\n\n    let mut nonce: .*?\n    result\n\}\n", "    sign_inner(&sec, &point_by_secret(&sk), &seed, message)\n}\n"), rx(GO, r"(    let pub_point = point_by_secret\(secret\);\n\n)" + SIGN, r"""\1    sign_inner(&sec, &pub_point, n, message)
}

fn sign_inner(sec: &scalar::Scalar, public: &TwistedExtendedPoint, prefix: &[u8; 57], message: &[u8]) -> [u8; 114] {
    let mut nonce: [u8; 114] = [0; 114];
    let mut v1: Vec<u8> = Vec::with_capacity(57 + message.len());
    v1.extend_from_slice(prefix);
    v1.extend_from_slice(message);
    hash_with_dom(&mut v1, &mut nonce);
    let r = decode_long(&nonce);
    let big_r = precomputed_scalar_mul(halve(halve(r))).eddsa_like_encode();

    let mut challenge: [u8; 114] = [0; 114];
    let mut h: Vec<u8> = Vec::new();
    h.extend_from_slice(&big_r);
    h.extend_from_slice(&public.eddsa_like_encode());
    h.extend_from_slice(message);
    hash_with_dom(&mut h, &mut challenge);
    let k = decode_long(&challenge);
    let s = scalar::add(&scalar::mul(&k, sec), &r);

    let mut out = [0u8; 114];
    out[..57].copy_from_slice(&big_r);
    out[57..].copy_from_slice(&encode(&s));
    out
}
"""))
ref("go-topbit", "C02 C03 C14", rx(GO, r"    if pk\[57 - 1\] & 0x80 == 0x00 \{\n        private_to_public\(pk\)\n    \} else \{\n        secret_to_public\(pk\)\n    \}", "    match pk[56] >> 7 {\n        0 => private_to_public(pk),\n        _ => secret_to_public(pk),\n    }"))
ref("go-iszero-helper", "C06 C05", rx(GO, r"    let zero_public_key: \[u8; 57\] = \[0; 57\];\n    let zero_signature: \[u8; 114\] = \[0; 114\];\n    if pubkey == &zero_public_key \|\| sig == &zero_signature \{", "    if is_all_zero(pubkey, 57) || is_all_zero(sig, 114) {", 2), rx(GO, r"pub fn ed448_verify\(", "fn is_all_zero(b: &[u8], n: usize) -> bool {\n    b.len() == n && b.iter().all(|x| *x == 0)\n}\n\npub fn ed448_verify("))
ref("go-verify-delegate", "C06 C04", rx(GO, r"(pub fn ed448_verify_with_error.*?-> Result<\(\), LibgoldilockErrors> \{\n).*?\n\}\n", r"""\1    match ed448_verify(pubkey, sig, message) {
        Ok(true) => Ok(()),
        Ok(false) => Err(LibgoldilockErrors::InvalidSignatureError),
        Err(e) => Err(e),
    }
}
"""))
ref("lb-key-helper", "C07 C08 C09", rx(LB, r"        let mut private_key: \[u8; 57\] = \[0; 57\];\n        private_key.copy_from_slice\(s\);\n        let public_key = ed448_derive_public\(&private_key\);\n        let secret_key = SecretKey \{ key: private_key \};\n        let verifying_key = VerifyingKey \{ key: public_key \};\n\n        Self \{\n            secret_key,\n            verifying_key,\n        \}\n    \}\n\n    pub fn from_bytes\(s: &\[u8\]\) -> Result<Self, LibgoldilockErrors> \{.*?\n    \}\n", """        let mut private_key: [u8; 57] = [0; 57];
        private_key.copy_from_slice(s);
        Self::build(private_key)
    }

    fn build(key: [u8; 57]) -> Self {
        Self {
            verifying_key: VerifyingKey { key: ed448_derive_public(&key) },
            secret_key: SecretKey { key },
        }
    }

    pub fn from_bytes(s: &[u8]) -> Result<Self, LibgoldilockErrors> {
        let key: [u8; 57] = s.try_into().map_err(|_| LibgoldilockErrors::InvalidPrivKeyLengthErrro(s.len()))?;
        Ok(Self::build(key))
    }
"""))
ref("lb-prehash-vec", "C09", rx(LB, r"        sig_with_private_key\[0\.\.114\].copy_from_slice\(&sig\);\n        sig_with_private_key\[114\.\.171\].copy_from_slice\(&self.verifying_key.key\);", "        let (head, tail) = sig_with_private_key.split_at_mut(114);\n        head.copy_from_slice(&sig);\n        tail.copy_from_slice(&self.verifying_key.key);"))

# ---- helpers whose signature or own meaning changes (the callers follow)
ref("hp-subextra-order", "C11 C02", rx(SC, r"pub fn sub_extra\(minuend: &Scalar, subtrahend: &Scalar, carry: &Word\)", "pub fn sub_extra(subtrahend: &Scalar, minuend: &Scalar, carry: &Word)"),
    rx(SC, r"sub_extra\(&r, &SCALAR_Q, ", "sub_extra(&SCALAR_Q, &r, "), rx(SC, r"sub_extra\(a, b, ", "sub_extra(b, a, "), rx(SC, r"sub_extra\(&out, &SCALAR_Q, ", "sub_extra(&SCALAR_Q, &out, "))
ref("hp-subextra-val", "C11 C05", rx(SC, r"pub fn sub_extra\(minuend: &Scalar, subtrahend: &Scalar, carry: &Word\)", "pub fn sub_extra(minuend: &Scalar, subtrahend: &Scalar, carry: Word)"), rx(SC, r"\*carry as Sdword", "carry as Sdword"),
    rx(SC, r"&SCALAR_Q, &\(chain as Word\)\)", "&SCALAR_Q, chain as Word)"), rx(SC, r"b, &no_extra\)", "b, no_extra)"), rx(SC, r"&SCALAR_Q, &carry\)", "&SCALAR_Q, carry)"))
ref("hp-weak-mut", "C10 C13", rx(BN, r"pub fn weak_reduce\(mut n: BigNumber\) -> BigNumber \{(.*?)\n    n\n\}\n", r"pub fn weak_reduce(n: &mut BigNumber) {\1\n}\nfn weakly(mut n: BigNumber) -> BigNumber {\n    weak_reduce(&mut n);\n    n\n}\n"),
    rx(BN, r"    weak_reduce\(bias\(neg_raw", "    weakly(bias(neg_raw"), rx(BN, r"    weak_reduce\(add_raw", "    weakly(add_raw"), rx(BN, r"    weak_reduce\(bias\(sub_raw", "    weakly(bias(sub_raw", 2), rx(BN, r"n = weak_reduce\(n\)", "weak_reduce(&mut n)"))
ref("hp-addsub-merge", "C12 C04", rx(EP, r"    pub fn sub_niels_from_extended_point\(&mut self, np: &TwistedNiels, before_double: bool\) \{.*?\n    \}\n", """    pub fn sub_niels_from_extended_point(&mut self, np: &TwistedNiels, before_double: bool) {
        let flipped = TwistedNiels { a: np.b, b: np.a, c: neg(&np.c) };
        self.add_niels_to_extended(&flipped, before_double);
    }
"""))
ref("hp-encode-iso", "C13 C02", rx(EP, r"    pub fn eddsa_like_encode\(&self\) -> \[u8; 57\] \{.*?(?=        // must zero out)", """    fn isogeny(&self) -> (BigNumber, BigNumber, BigNumber) {
        let xx = square(&self.x);
        let yy = square(&self.y);
        let sum = add(&xx, &yy);
        let cross = sub(&sum, &square(&add(&self.y, &self.x)));
        let diff = sub(&yy, &xx);
        let zz = square(&self.z);
        let den = sub(&add(&zz, &zz), &diff);
        (mul(&den, &cross), mul(&diff, &sum), mul(&sum, &den))
    }

    pub fn eddsa_like_encode(&self) -> [u8; 57] {
        let (mut x, y, mut z) = self.isogeny();
        let t;
"""))
ref("hp-hash-slices", "C02 C03 C04 C14", rx(ED, r"pub fn hash_with_dom\(input: &mut Vec<u8>, output: &mut \[u8\]\) \{.*?\n\}\n", """pub fn hash_with_dom(input: &[&[u8]], output: &mut [u8]) {
    let mut hasher = Shake256::default();
    hasher.update(b"SigEd448");
    hasher.update(&[0u8, 0u8]);
    for part in input {
        hasher.update(part);
    }
    let mut reader = hasher.finalize_xof();
    reader.read(output);
}
"""), rx(ED, r"    let mut h = sig1.to_vec\(\);\n    h.append\(&mut pubkey.to_vec\(\)\);\n    h.append\(&mut message.to_vec\(\)\);\n    hash_with_dom\(&mut h, ", "    hash_with_dom(&[&sig1, pubkey, message], "),
    rx(GO, r"    let mut v1: Vec<u8> = seed.to_vec\(\);\n    v1.append\(&mut message.to_vec\(\)\);\n(.*?)hash_with_dom\(&mut v1, ", r"\1hash_with_dom(&[&seed[..], message], "),
    rx(GO, r"    let mut h = nonce_point.to_vec\(\);\n    h.append\(&mut point.eddsa_like_encode\(\).to_vec\(\)\);\n    h.append\(&mut message.to_vec\(\)\);\n(.*?)hash_with_dom\(&mut h, ", r"\1hash_with_dom(&[&nonce_point[..], &point.eddsa_like_encode()[..], message], ", 1),
    rx(GO, r"    let mut v1: Vec<u8> = n.to_vec\(\);\n    v1.append\(&mut message.to_vec\(\)\);\n(.*?)hash_with_dom\(&mut v1, ", r"\1hash_with_dom(&[&n[..], message], "),
    rx(GO, r"    let mut h = nonce_point.to_vec\(\);\n    h.append\(&mut pub_point.eddsa_like_encode\(\).to_vec\(\)\);\n    h.append\(&mut message.to_vec\(\)\);\n(.*?)hash_with_dom\(&mut h, ", r"\1hash_with_dom(&[&nonce_point[..], &pub_point.eddsa_like_encode()[..], message], ", 1))
ref("hp-concat", "C02 C04 C14", rx(GO, r"    let mut v1: Vec<u8> = seed.to_vec\(\);\n    v1.append\(&mut message.to_vec\(\)\);", "    let mut v1: Vec<u8> = [&seed[..], message].concat();"), rx(ED, r"    let mut h = sig1.to_vec\(\);\n    h.append\(&mut pubkey.to_vec\(\)\);\n    h.append\(&mut message.to_vec\(\)\);", "    let mut h = [&sig1[..], pubkey, message].concat();"))
ref("hp-extend", "C02 C04", rx(GO, r"    let mut v1: Vec<u8> = seed.to_vec\(\);\n    v1.append\(&mut message.to_vec\(\)\);", "    let mut v1: Vec<u8> = Vec::with_capacity(57 + message.len());\n    v1.extend_from_slice(&seed);\n    v1.extend_from_slice(message);"), rx(ED, r"    let mut h = sig1.to_vec\(\);\n    h.append\(&mut pubkey.to_vec\(\)\);\n    h.append\(&mut message.to_vec\(\)\);", "    let mut h = Vec::new();\n    h.extend_from_slice(&sig1);\n    h.extend(pubkey.iter());\n    h.extend(message);"))
ref("hp-smul-step", "C12 C05", rx(EP, r"        let mut i = \(SCALAR_BITS - \(\(SCALAR_BITS - 1\) % window\) - 1\) as i32;\n        while i >= 0 \{\n            let i1 = i as usize;", "        let top = SCALAR_BITS - ((SCALAR_BITS - 1) % window) - 1;\n        for i1 in (0..=top).rev().step_by(window) {"), rx(EP, r"\n            i -= window as i32;\n        \}\n        out", "\n        }\n        out"))
ref("hp-recode-digit", "C12 C04", rx(EP, r"            let odd: u32 = \(current as u32\) >> pos;\n            let mut delta: i32 = \(odd & mask\) as i32;\n            if odd & \(1 << \(table_bits \+ 1\)\) != 0 \{\n                delta -= 1 << \(table_bits \+ 1\);\n            \}", "            let delta = signed_digit((current as u32) >> pos, mask, table_bits);"), rx(EP, r"pub fn recode_wnaf", "fn signed_digit(odd: u32, mask: u32, table_bits: usize) -> i32 {\n    let low = (odd & mask) as i32;\n    if odd & (1 << (table_bits + 1)) == 0 {\n        low\n    } else {\n        low - (1 << (table_bits + 1))\n    }\n}\n\npub fn recode_wnaf"))
ref("hp-recode-param", "C12 C04", rx(EP, r"pub fn recode_wnaf\(control: &mut \[SmvtControl\], s: &Scalar, table_bits: usize\) -> Word", "pub fn recode_wnaf(s: &Scalar, table_bits: usize, control: &mut [SmvtControl]) -> Word"), rx(EP, r"recode_wnaf\(&mut control_pre, scalar_pre, table_bits_pre\)", "recode_wnaf(scalar_pre, table_bits_pre, &mut control_pre)"), rx(EP, r"recode_wnaf\(&mut control_var, scalar_var, table_bits_var\)", "recode_wnaf(scalar_var, table_bits_var, &mut control_var)"))
ref("hp-dbl-rev", "C12 C04", rx(EP, r"        i -= 1;\n        while i >= 0 \{\n            let cv", "        for i in (0..i).rev() {\n            let cv"), rx(EP, r"                contp \+= 1;\n            \}\n\n            i -= 1;\n        \}", "                contp += 1;\n            }\n        }"))
ref("hp-dbl-signed", "C12 C04", rx(EP, r"                if control_var\[contv\].addend > 0 \{.*?\n                \}\n                contv \+= 1;", "                out.add_signed(&precmp_var, control_var[contv].addend, i != 0 && !cp);\n                contv += 1;"), rx(EP, r"    pub fn point_double_scalamul_non_secret\(", """    fn add_signed(&mut self, table: &[TwistedProjectedNiels], digit: i64, before_double: bool) {
        let entry = &table[(digit.unsigned_abs() as usize) >> 1];
        if digit > 0 {
            self.add_projected_niels_to_extended(entry, before_double);
        } else {
            self.sub_projected_niels_from_extended_point(entry, before_double);
        }
    }

    pub fn point_double_scalamul_non_secret("""))
ref("hp-dbl-vecmac", "C12 C04", rx(EP, r"        let mut control_var = Vec::new\(\);\n        for _i in 0\.\.115 \{\n            control_var.push\(SmvtControl::new\(\)\);\n        \}", "        let mut control_var: Vec<SmvtControl> = (0..115).map(|_| SmvtControl::new()).collect();"), rx(EP, r"        let mut precmp_var = Vec::new\(\);\n        for _i in 0\.\.8 \{\n            precmp_var.push\(TwistedProjectedNiels::new\(\)\);\n        \}", "        let mut precmp_var = vec![TwistedProjectedNiels::new(); 8];"))
ref("hp-prep-loop", "C12 C04", rx(EP, r"    dst.iter_mut\(\).take\(1 << table_size\).skip\(2\).for_each\(\|x\| \{\n        p.add_projected_niels_to_extended\(&tw_op, false\);\n        \*x = p.to_projected_niels\(\);\n    \}\);", "    for x in dst[2..1 << table_size].iter_mut() {\n        p.add_projected_niels_to_extended(&tw_op, false);\n        *x = p.to_projected_niels();\n    }"))
ref("hp-declong-chunks", "C11 C02", rx(SC, r"    while size > 0 \{\n        size -= SCALAR_SER_BYTES;\n        res = montgomery_multiply\(&res, &SCALAR_R2\);\n        y = decode\(&b\[size\.\.b_len\]\);\n        res = add\(&res, &y\);\n    \}", "    for block in b[..size].chunks(SCALAR_SER_BYTES).rev() {\n        y = decode(block);\n        res = add(&montgomery_multiply(&res, &SCALAR_R2), &y);\n    }"))
ref("hp-mont-iter", "C11", rx(SC, r"    for i in 0\.\.SCALAR_WORDS \{\n        let mut chain = 0 as Dword;\n        for j in 0\.\.SCALAR_WORDS \{(.*?)x\[i\] as Dword", r"    for xi in x.iter() {\n        let mut chain = 0 as Dword;\n        for j in 0..SCALAR_WORDS {\1*xi as Dword"))
ref("hp-decode-helper", "C05 C13 C06", rx(EP, r"    let c = square\(&p.x\);\n    let mut a = square\(&p.y\);\n    let d = add\(&c, &a\);.*?    p.t = mul\(&b, &d\);\n\n    let ok", "    p = dual_isogeny(&p);\n\n    let ok"), rx(EP, r"#\[allow\(unused_variables\)\]\n#\[allow\(unused_assignments\)\]\npub fn eddsa_like_decode", """fn dual_isogeny(p: &TwistedExtendedPoint) -> TwistedExtendedPoint {
    let xx = square(&p.x);
    let yy = square(&p.y);
    let sum = add(&xx, &yy);
    let cross = sub(&square(&add(&p.y, &p.x)), &sum);
    let diff = sub(&yy, &xx);
    let zz = square(&p.z);
    let den = sub(&add(&zz, &zz), &sum);
    TwistedExtendedPoint {
        x: mul(&den, &cross),
        y: mul(&diff, &sum),
        z: mul(&diff, &den),
        t: mul(&cross, &sum),
    }
}

#[allow(unused_variables)]
#[allow(unused_assignments)]
pub fn eddsa_like_decode"""))
ref("hp-verify-split", "C04 C05 C06", rx(ED, r"    sig1\[\.\.57\].copy_from_slice\(&sig\[\.\.57\]\);\n    sig2\[\.\.57\].copy_from_slice\(&sig\[57\.\.\(57 \+ 57\)\]\);", "    let (r_half, s_half) = sig.split_at(57);\n    sig1.copy_from_slice(r_half);\n    sig2.copy_from_slice(s_half);"))
ref("hp-comb-bit", "C12 C02", rx(EP, r"                if bit < SCALAR_BITS \{\n                    tab \|= \(scalar2\[bit / WORD_BITS\] >> \(bit % WORD_BITS\) & 1\) << k;\n                \}", "                let value = if bit < SCALAR_BITS { scalar2[bit / WORD_BITS] >> (bit % WORD_BITS) & 1 } else { 0 };\n                tab += value << k;"))
ref("hp-point-secret", "C02 C03 C14 C01", rx(GO, r"pub fn private_to_public\(pk: &PrivateKey\) -> PublicKey \{\n.*?\n\}", "pub fn private_to_public(pk: &PrivateKey) -> PublicKey {\n    let secret = private_to_secret(pk);\n    secret_to_public(&secret)\n}"))

def one(spec):
    name, _, ps = spec.partition(":")
    props, ed = R[name]
    if ps: props = ps.split(",")
    d = "%s/%s" % (S, name); shutil.rmtree(d, ignore_errors=True); os.makedirs(S, exist_ok=True)
    subprocess.check_call(["cp", "-a", "/repo", d])
    for _, f, a, b, n in ed:
        t = open(d + "/" + f).read()
        t2, k = re.subn(a, b if "\\1" in b or "\\2" in b else (lambda m: b), t, count=n, flags=re.S)
        if k != n: return name, [("EDIT", "%s: %d matches" % (a[:60], k))]
        open(d + "/" + f, "w").write(t2)
    bd = d + "-build"; shutil.rmtree(bd, ignore_errors=True)
    subprocess.call(["cp", "-a", V + "/.build", bd])
    out = []
    r = subprocess.run(["cargo", "test", "--offline", "--lib", "-q", "--target-dir", bd + "/t"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode: out.append(("TEST", r.stdout.decode()[-900:]))
    else:
        for p in props:
            t = time.time()
            try: r = subprocess.run(["python3", V + "/check.py", p], cwd=V, env=dict(os.environ, VC_REPO=d, VC_BUILD=bd, VC_EVIDENCE=bd + "/ev"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=890); rc = r.returncode; o = r.stdout.decode()
            except subprocess.TimeoutExpired as e: rc = "TIMEOUT"; o = (e.stdout or b"").decode()
            und = o.count("undecided:")
            out.append((p, rc, "%.0fs" % (time.time() - t), "" if rc == 0 and not und else o[-1500:]))
    shutil.rmtree(d, ignore_errors=True); shutil.rmtree(bd, ignore_errors=True)
    return name, out
if __name__ == "__main__":
    a = sys.argv[1:]; j = 4
    if a and a[0] == "-j": j = int(a[1]); a = a[2:]
    with ThreadPoolExecutor(j) as ex:
        for name, out in ex.map(one, a or list(R)):
            for o in out: print(name, *o, flush=True)
