//! Monomorphic entry points of the generic and trait-based API, so that their bodies appear in the emitted IR.
//! The serializer records the string it is given; the deserializer hands one string to the visitor.
use libgoldilocks::{PrehashSigner, SecretKey, SigningKey, VerifyingKey};
use serdect::serde::de::{self, Deserialize, Deserializer, Visitor};
use serdect::serde::ser::{self, Serialize, Serializer};
use std::fmt;

pub struct Out { pub buf: [u8; 171], pub n: usize }
impl Out {
    fn put(&mut self, b: &[u8]) { self.n = b.len(); self.buf[..b.len()].copy_from_slice(b); }
}

#[derive(Debug)]
pub struct E;
impl fmt::Display for E { fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result { Ok(()) } }
impl std::error::Error for E {}
impl ser::Error for E { fn custom<T: fmt::Display>(_: T) -> E { E } }
impl de::Error for E { fn custom<T: fmt::Display>(_: T) -> E { E } }

pub struct S<'a>(&'a mut Out);
macro_rules! refuse { ($($n:ident($($t:ty),*)),*) => { $(fn $n(self, $(_: $t),*) -> Result<(), E> { Err(E) })* } }
impl<'a> Serializer for S<'a> {
    type Ok = ();
    type Error = E;
    type SerializeSeq = ser::Impossible<(), E>;
    type SerializeTuple = ser::Impossible<(), E>;
    type SerializeTupleStruct = ser::Impossible<(), E>;
    type SerializeTupleVariant = ser::Impossible<(), E>;
    type SerializeMap = ser::Impossible<(), E>;
    type SerializeStruct = ser::Impossible<(), E>;
    type SerializeStructVariant = ser::Impossible<(), E>;
    fn serialize_str(self, v: &str) -> Result<(), E> { self.0.put(v.as_bytes()); Ok(()) }
    refuse!(serialize_bool(bool), serialize_i8(i8), serialize_i16(i16), serialize_i32(i32), serialize_i64(i64), serialize_u8(u8), serialize_u16(u16), serialize_u32(u32), serialize_u64(u64),
        serialize_f32(f32), serialize_f64(f64), serialize_char(char), serialize_bytes(&[u8]), serialize_none(), serialize_unit(), serialize_unit_struct(&'static str), serialize_unit_variant(&'static str, u32, &'static str));
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<(), E> { Err(E) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<(), E> { Err(E) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), E> { Err(E) }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, E> { Err(E) }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, E> { Err(E) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, E> { Err(E) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, E> { Err(E) }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, E> { Err(E) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, E> { Err(E) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, E> { Err(E) }
}

pub struct D<'a>(&'a str);
macro_rules! strs { ($($n:ident),*) => { $(fn $n<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { v.visit_str(self.0) })* } }
macro_rules! nope { ($($n:ident($($t:ty),*)),*) => { $(fn $n<V: Visitor<'de>>(self, $(_: $t,)* _v: V) -> Result<V::Value, E> { Err(E) })* } }
impl<'de, 'a> Deserializer<'de> for D<'a> {
    type Error = E;
    strs!(deserialize_any, deserialize_str, deserialize_string);
    nope!(deserialize_bool(), deserialize_i8(), deserialize_i16(), deserialize_i32(), deserialize_i64(), deserialize_u8(), deserialize_u16(), deserialize_u32(), deserialize_u64(), deserialize_f32(), deserialize_f64(),
        deserialize_char(), deserialize_bytes(), deserialize_byte_buf(), deserialize_option(), deserialize_unit(), deserialize_unit_struct(&'static str), deserialize_newtype_struct(&'static str), deserialize_seq(),
        deserialize_tuple(usize), deserialize_tuple_struct(&'static str, usize), deserialize_map(), deserialize_struct(&'static str, &'static [&'static str]), deserialize_enum(&'static str, &'static [&'static str]),
        deserialize_identifier(), deserialize_ignored_any());
}

pub struct R<'a>(&'a [u8; 57], usize);
impl<'a> rand::RngCore for R<'a> {
    fn next_u32(&mut self) -> u32 { let mut x = [0; 4]; self.fill_bytes(&mut x); u32::from_le_bytes(x) }
    fn next_u64(&mut self) -> u64 { let mut x = [0; 8]; self.fill_bytes(&mut x); u64::from_le_bytes(x) }
    fn fill_bytes(&mut self, d: &mut [u8]) { let n = self.1 + d.len(); d.copy_from_slice(&self.0[self.1..n]); self.1 = n; }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) }
}
impl<'a> rand::CryptoRng for R<'a> {}

fn sk(k: &SigningKey, o: &mut Out) {
    let s = k.to_bytes();
    o.n = 114;
    o.buf[..57].copy_from_slice(&s);
    o.buf[57..114].copy_from_slice(k.verifying_key().as_bytes());
}

pub fn m_ser_k(b: &[u8; 57], o: &mut Out) -> bool { SigningKey::from_slice(b).serialize(S(o)).is_ok() }
pub fn m_ser_s(b: &[u8; 57], o: &mut Out) -> bool { SecretKey::from_bytes(b).serialize(S(o)).is_ok() }
pub fn m_ser_v(b: &[u8; 57], o: &mut Out) -> bool { VerifyingKey::from_bytes(b).serialize(S(o)).is_ok() }
pub fn m_de_k(t: &str, o: &mut Out) -> bool { match SigningKey::deserialize(D(t)) { Ok(k) => { sk(&k, o); true } Err(_) => false } }
pub fn m_de_s(t: &str, o: &mut Out) -> bool { match SecretKey::deserialize(D(t)) { Ok(k) => { sk(&SigningKey::from(k), o); true } Err(_) => false } }
pub fn m_de_v(t: &str, o: &mut Out) -> bool { match VerifyingKey::deserialize(D(t)) { Ok(k) => { o.put(k.as_bytes()); true } Err(_) => false } }
pub fn m_k_bytes(b: &[u8], o: &mut Out) -> usize {
    match SigningKey::from_bytes(b) {
        Ok(k) => { sk(&k, o); usize::MAX }
        Err(libgoldilocks::errors::LibgoldilockErrors::InvalidPrivKeyLengthErrro(n)) => n,
        Err(_) => usize::MAX - 1,
    }
}
pub fn m_k_slice(b: &[u8; 57], o: &mut Out) { sk(&SigningKey::from_slice(b), o) }
pub fn m_k_secret(b: &[u8; 57], o: &mut Out) { sk(&SigningKey::from(SecretKey::from_bytes(b)), o) }
pub fn m_k_parts(b: &[u8; 57], o: &mut Out) -> bool { let k = SigningKey::from_slice(b); sk(&SigningKey::from(*k.secret_key()), o); *k.secret_key() == SecretKey::from_bytes(b) }
pub fn m_k_random(b: &[u8; 57], o: &mut Out) { sk(&SigningKey::random(&mut R(b, 0)), o) }
pub fn m_k_str(t: &str, o: &mut Out) { sk(&SigningKey::from_str(t), o) }
pub fn m_s_str(t: &str, o: &mut Out) { sk(&SigningKey::from(SecretKey::from_str(t)), o) }
pub fn m_v_str(t: &str, o: &mut Out) { o.put(VerifyingKey::from_str(t).as_bytes()) }
pub fn m_v_bytes(b: &[u8; 57], o: &mut Out) { o.put(VerifyingKey::from_bytes(b).as_bytes()) }
pub fn m_prehash(b: &[u8; 57], m: &[u8], o: &mut Out) -> bool {
    match SigningKey::from_slice(b).sign_prehash(m) { Ok(s) => { o.put(s.as_slice()); true } Err(_) => false }
}
