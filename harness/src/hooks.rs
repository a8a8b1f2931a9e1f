//! Function-level commands (private items re-exported under cfg(verif_hooks)).
use libgoldilocks::verif::{bignumber as f, eddsa as e, extended_point as p, scalar as s, tables as t};

fn words<const N: usize>(x: &str) -> [u32; N] {
    let v = hex::decode(x).unwrap();
    let mut o = [0u32; N];
    for i in 0..N { o[i] = u32::from_le_bytes([v[4 * i], v[4 * i + 1], v[4 * i + 2], v[4 * i + 3]]); }
    o
}
fn out(x: &[u32]) -> String {
    let mut v = Vec::new();
    for w in x { v.extend_from_slice(&w.to_le_bytes()); }
    hex::encode(v)
}
fn num(x: &str) -> i128 { x.parse().unwrap() }
fn pt(x: &str) -> p::TwistedExtendedPoint {
    let v: Vec<&str> = x.split(',').collect();
    p::TwistedExtendedPoint::verif_from_parts(words(v[0]), words(v[1]), words(v[2]), words(v[3]))
}
fn ptout(x: &p::TwistedExtendedPoint) -> String {
    x.verif_parts().iter().map(|c| out(c)).collect::<Vec<_>>().join(",")
}
fn ni(x: &str) -> p::TwistedNiels {
    let v: Vec<&str> = x.split(',').collect();
    p::TwistedNiels { a: words(v[0]), b: words(v[1]), c: words(v[2]) }
}
fn pn(x: &str) -> p::TwistedProjectedNiels {
    let v: Vec<&str> = x.split(',').collect();
    p::TwistedProjectedNiels { n: ni(x), z: words(v[3]) }
}
fn niout(x: &p::TwistedNiels) -> String { [out(&x.a), out(&x.b), out(&x.c)].join(",") }

pub fn run(a: &[&str]) -> String {
    let w = |i: usize| words::<16>(a[i]);
    let q = |i: usize| words::<14>(a[i]);
    let m = |i: usize| num(a[i]) as u32;
    let r = match a[0] {
        "h_add" => out(&f::add(&w(1), &w(2))),
        "h_sub" => out(&f::sub(&w(1), &w(2))),
        "h_neg" => out(&f::neg(&w(1))),
        "h_sub_x_bias" => out(&f::sub_x_bias(&w(1), &w(2), &m(3))),
        "h_mul" => out(&f::mul(&w(1), &w(2))),
        "h_square" => out(&f::square(&w(1))),
        "h_square_n" => out(&f::square_n(&w(1), num(a[2]) as usize)),
        "h_mul_w" => out(&f::mul_w(&w(1), &(num(a[2]) as u64))),
        "h_mul_with_signed_curve_constant" => out(&f::mul_with_signed_curve_constant(&w(1), &(num(a[2]) as i64))),
        "h_isr" => out(&f::isr(&w(1))),
        "h_invert" => out(&f::invert(&w(1))),
        "h_weak_reduce" => out(&f::weak_reduce(w(1))),
        "h_strong_reduce" => out(&f::strong_reduce(w(1))),
        "h_decaf_equal" => format!("{}", f::decaf_equal(&w(1), &w(2))),
        "h_low_bit" => format!("{}", f::low_bit(&w(1))),
        "h_constant_time_select" => out(&f::constant_time_select(&w(1), &w(2), &m(3))),
        "h_conditional_negate" => out(&f::conditional_negate(&w(1), &m(2))),
        "h_decaf_const_time_select" => out(&f::decaf_const_time_select(&w(1), &w(2), &m(3))),
        "h_decaf_cond_negate" => out(&f::decaf_cond_negate(&w(1), &m(2))),
        "h_conditional_swap" => {
            let (mut x, mut y) = (w(1), w(2));
            f::conditional_swap(&mut x, &mut y, &m(3));
            format!("{} {}", out(&x), out(&y))
        }
        "h_dsa_like_serialize" => hex::encode(f::dsa_like_serialize(&w(1))),
        "h_dsa_like_deserialize" => {
            let (n, k) = f::dsa_like_deserialize(&hex::decode(a[1]).unwrap(), num(a[2]) as usize);
            format!("{} {}", out(&n), k)
        }
        "h_s_add" => out(&s::add(&q(1), &q(2))),
        "h_s_sub" => out(&s::sub(&q(1), &q(2))),
        "h_s_sub_extra" => out(&s::sub_extra(&q(1), &q(2), &m(3))),
        "h_s_halve" => out(&s::halve(q(1))),
        "h_s_montgomery_multiply" => out(&s::montgomery_multiply(&q(1), &q(2))),
        "h_s_mul" => out(&s::mul(&q(1), &q(2))),
        "h_s_decode" => out(&s::decode(&hex::decode(a[1]).unwrap())),
        "h_s_decode_long" => out(&s::decode_long(&hex::decode(a[1]).unwrap())),
        "h_s_encode" => hex::encode(s::encode(&q(1))),
        "h_p_double" => { let mut x = pt(a[1]); x.double_internal(m(2) != 0); ptout(&x) }
        "h_p_add_niels" => { let mut x = pt(a[1]); x.add_niels_to_extended(&ni(a[2]), m(3) != 0); ptout(&x) }
        "h_p_sub_niels" => { let mut x = pt(a[1]); x.sub_niels_from_extended_point(&ni(a[2]), m(3) != 0); ptout(&x) }
        "h_p_add_pniels" => { let mut x = pt(a[1]); x.add_projected_niels_to_extended(&pn(a[2]), m(3) != 0); ptout(&x) }
        "h_p_sub_pniels" => { let mut x = pt(a[1]); x.sub_projected_niels_from_extended_point(&pn(a[2]), m(3) != 0); ptout(&x) }
        "h_p_to_pniels" => { let n = pt(a[1]).to_projected_niels(); format!("{},{}", niout(&n.n), out(&n.z)) }
        "h_p_equal" => format!("{}", pt(a[1]).mod_equal(&pt(a[2]))),
        "h_p_encode" => hex::encode(pt(a[1]).eddsa_like_encode()),
        "h_p_on_curve" => format!("{}", pt(a[1]).is_on_curve()),
        "h_p_decode" => match p::eddsa_like_decode(&if a[1] == "-" { vec![] } else { hex::decode(a[1]).unwrap() }) {
            Ok(x) => ptout(&x),
            Err(e) => format!("err {:?}", e),
        },
        "h_p_smul" => ptout(&pt(a[1]).point_scalar_mul(&q(2))),
        "h_p_dsmul" => ptout(&pt(a[1]).point_double_scalamul_non_secret(&q(2), &q(3))),
        "h_p_bmul" => ptout(&p::precomputed_scalar_mul(q(1))),
        "h_wnaf" => {
            let n = num(a[2]) as usize;
            let mut c: Vec<p::SmvtControl> = (0..446 / (n + 1) + 3).map(|_| p::SmvtControl::new()).collect();
            let k = p::recode_wnaf(&mut c, &q(1), n);
            let v: Vec<String> = c.iter().map(|x| { let y = x.verif_parts(); format!("{}:{}", y.0, y.1) }).collect();
            format!("{} {}", k, v.join(","))
        }
        "h_t_comb" => niout(&t::DECAF_PRECOMP_TABLE.lookup(num(a[1]) as usize)),
        "h_t_wnaf" => niout(&t::DECAF_WNAF_TABLE[num(a[1]) as usize]),
        "h_clamp" => { let mut v = hex::decode(a[1]).unwrap(); e::clamp(&mut v); hex::encode(v) }
        _ => return "nocmd".into(),
    };
    format!("ok {}", r)
}
