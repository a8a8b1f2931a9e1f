//! Concrete replay harness: one command per line on stdin, one result line per command on stdout.
use libgoldilocks::goldilocks::*;
use libgoldilocks::{PrehashSigner, SecretKey, SigningKey, VerifyingKey};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[cfg(verif_hooks)]
mod hooks;

fn b(s: &str) -> Vec<u8> {
    if s == "-" { Vec::new() } else { hex::decode(s).unwrap() }
}
fn k57(s: &str) -> [u8; 57] {
    let v = b(s);
    let mut k = [0u8; 57];
    k.copy_from_slice(&v);
    k
}
fn h(x: &[u8]) -> String {
    if x.is_empty() { "-".into() } else { hex::encode(x) }
}

struct FixedRng(Vec<u8>, usize);
impl rand::RngCore for FixedRng {
    fn next_u32(&mut self) -> u32 { let mut x = [0; 4]; self.fill_bytes(&mut x); u32::from_le_bytes(x) }
    fn next_u64(&mut self) -> u64 { let mut x = [0; 8]; self.fill_bytes(&mut x); u64::from_le_bytes(x) }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for x in d { *x = self.0[self.1 % self.0.len()]; self.1 += 1; }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) }
}
impl rand::CryptoRng for FixedRng {}

fn sk(k: &SigningKey) -> String {
    format!("ok {} {}", h(&k.to_bytes()), h(k.verifying_key().as_bytes()))
}
fn text(s: &str) -> String { String::from_utf8_lossy(&b(s)).into_owned() }

/// sign, verify and key derivation on n pseudo-random keys and messages; the first disagreement is reported
fn roundtrips(seed: u64, n: u64) -> String {
    let mut st = seed.wrapping_mul(0x9e3779b97f4a7c15) | 1;
    let mut next = || { st ^= st << 13; st ^= st >> 7; st ^= st << 17; st };
    for i in 0..n {
        let mut k = [0u8; 57];
        for x in k.iter_mut() { *x = next() as u8; }
        let mut nn = [0u8; 57];
        for x in nn.iter_mut() { *x = next() as u8; }
        let m: Vec<u8> = (0..next() % 40).map(|_| next() as u8).collect();
        let r = catch_unwind(AssertUnwindSafe(|| {
            if i % 4 == 3 {
                let p = secret_to_public(&k);
                let s = sign_with_secret_and_nonce(&k, &nn, &m);
                ed448_verify(&p, &s, &m) == Ok(true)
            } else {
                let p = ed448_derive_public(&k);
                let s = ed448_sign(&k, &m);
                ed448_verify(&p, &s, &m) == Ok(true) && (k[56] & 0x80 != 0 || secret_to_public(&private_to_secret(&k)) == p)
            }
        }));
        match r {
            Ok(true) => {}
            _ => return format!("bad {} key {} nonce {} message {}", if i % 4 == 3 { "secret+nonce" } else { "private key" }, h(&k), h(&nn), h(&m)),
        }
    }
    "ok".into()
}

fn run(a: &[&str]) -> String {
    match a[0] {
        "derive" => format!("ok {}", h(&ed448_derive_public(&k57(a[1])))),
        "sign" => format!("ok {}", h(&ed448_sign(&k57(a[1]), &b(a[2])))),
        "signp" => format!("ok {}", h(&sign_by_private(&k57(a[1]), &b(a[2])))),
        "signsn" => format!("ok {}", h(&sign_with_secret_and_nonce(&k57(a[1]), &k57(a[2]), &b(a[3])))),
        "p2s" => format!("ok {}", h(&private_to_secret(&k57(a[1])))),
        "s2p" => format!("ok {}", h(&secret_to_public(&k57(a[1])))),
        "p2p" => format!("ok {}", h(&private_to_public(&k57(a[1])))),
        "verify" => match ed448_verify(&b(a[1]), &b(a[2]), &b(a[3])) {
            Ok(v) => format!("ok {}", v),
            Err(e) => format!("err {:?}", e),
        },
        "verifye" => match ed448_verify_with_error(&b(a[1]), &b(a[2]), &b(a[3])) {
            Ok(()) => "ok".into(),
            Err(e) => format!("err {:?}", e),
        },
        "gen" => format!("ok {}", h(&ed448_generate_key())),
        "k_bytes" => match SigningKey::from_bytes(&b(a[1])) {
            Ok(k) => sk(&k),
            Err(e) => format!("err {:?} {}", e, e),
        },
        "k_slice" => sk(&SigningKey::from_slice(&b(a[1]))),
        "k_str" => sk(&SigningKey::from_str(&text(a[1]))),
        "k_secret" => sk(&SigningKey::from(SecretKey::from_bytes(&b(a[1])))),
        "k_secretstr" => sk(&SigningKey::from(SecretKey::from_str(&text(a[1])))),
        "k_random" => sk(&SigningKey::random(&mut FixedRng(b(a[1]), 0))),
        "k_parts" => {
            let k = SigningKey::from_slice(&b(a[1]));
            let s = *k.secret_key();
            format!("ok {}", s == SecretKey::from_bytes(&b(a[1])))
        }
        "v_bytes" => format!("ok {}", h(VerifyingKey::from_bytes(&b(a[1])).as_bytes())),
        "v_str" => format!("ok {}", h(VerifyingKey::from_str(&text(a[1])).as_bytes())),
        "hexpk" => format!("ok {}", h(&hex_to_private_key(&text(a[1])))),
        "hexsig" => format!("ok {}", h(&hex_to_signature(&text(a[1])))),
        "hexmsg" => format!("ok {}", h(&hex_to_message_hash(&text(a[1])))),
        "prehash" => {
            let k = SigningKey::from_slice(&b(a[1]));
            match k.sign_prehash(&b(a[2])) {
                Ok(s) => format!("ok {}", h(s.as_slice())),
                Err(e) => format!("err {:?}", e),
            }
        }
        "ser_k" => format!("ok {}", h(serde_json::to_string(&SigningKey::from_slice(&b(a[1]))).unwrap().as_bytes())),
        "ser_s" => format!("ok {}", h(serde_json::to_string(&SecretKey::from_bytes(&b(a[1]))).unwrap().as_bytes())),
        "ser_v" => format!("ok {}", h(serde_json::to_string(&VerifyingKey::from_bytes(&b(a[1]))).unwrap().as_bytes())),
        "de_k" => match serde_json::from_str::<SigningKey>(&text(a[1])) {
            Ok(k) => sk(&k),
            Err(_) => "err".into(),
        },
        "de_s" => match serde_json::from_str::<SecretKey>(&text(a[1])) {
            Ok(k) => format!("{} {}", sk(&SigningKey::from(k)), h(serde_json::to_string(&k).unwrap().as_bytes())),
            Err(_) => "err".into(),
        },
        "de_v" => match serde_json::from_str::<VerifyingKey>(&text(a[1])) {
            Ok(k) => format!("ok {}", h(k.as_bytes())),
            Err(_) => "err".into(),
        },
        "rt" => roundtrips(a[1].parse().unwrap(), a[2].parse().unwrap()),
        #[cfg(verif_hooks)]
        x if x.starts_with("h_") => hooks::run(a),
        _ => "nocmd".into(),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let i = std::io::stdin();
    let mut o = std::io::BufWriter::new(std::io::stdout());
    for l in i.lock().lines() {
        let l = l.unwrap();
        let a: Vec<&str> = l.split_whitespace().collect();
        if a.is_empty() { continue; }
        let r = match catch_unwind(AssertUnwindSafe(|| run(&a))) {
            Ok(s) => s,
            Err(e) => format!("panic {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default().replace('\n', " ")),
        };
        writeln!(o, "{}", r).unwrap();
        o.flush().unwrap();
    }
}
