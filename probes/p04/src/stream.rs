//! A serializer that lists what it is given, and a deserializer that gives out a list.
use serde::de::{self, DeserializeSeed, MapAccess, SeqAccess, Visitor};
use serde::ser::{self, Serialize};

pub const K: usize = 80;
/// one item of a stream: its kind and its number
pub type Tok = (u8, f64);
pub const NUM: u8 = 1;
pub const SEQ: u8 = 2;
pub const TUP: u8 = 3;
pub const STRUCT: u8 = 4;
pub const NIL: u8 = 5;
pub const END_: u8 = 6;
pub const BAD_: u8 = 7;
pub const END: Tok = (END_, 0.0);
pub const BAD: Tok = (BAD_, 0.0);
pub const UNIT: Tok = (NIL, 0.0);
pub const fn seq(n: f64) -> Tok { (SEQ, n) }
pub const fn tup(n: f64) -> Tok { (TUP, n) }
pub const fn st(n: f64) -> Tok { (STRUCT, n) }
pub const fn num(n: f64) -> Tok { (NUM, n) }
pub type Log = ([u8; K], [f64; K]);

#[derive(Debug, Clone, Copy)]
pub struct E;
impl core::fmt::Display for E {
    fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) }
}
impl std::error::Error for E {}
impl ser::Error for E { fn custom<T: core::fmt::Display>(_: T) -> E { E } }
impl de::Error for E {
    fn custom<T: core::fmt::Display>(_: T) -> E { E }
    fn invalid_length(_: usize, _: &dyn de::Expected) -> E { E }
    fn invalid_type(_: de::Unexpected, _: &dyn de::Expected) -> E { E }
    fn invalid_value(_: de::Unexpected, _: &dyn de::Expected) -> E { E }
    fn missing_field(_: &'static str) -> E { E }
    fn duplicate_field(_: &'static str) -> E { E }
    fn unknown_field(_: &str, _: &'static [&'static str]) -> E { E }
}

pub struct Rec { pub k: [u8; K], pub d: [f64; K], pub n: usize }
impl Rec {
    #[inline(always)]
    fn put(&mut self, x: Tok) -> Result<(), E> { if self.n < K { self.k[self.n] = x.0; self.d[self.n] = x.1; self.n += 1; Ok(()) } else { Err(E) } }
}
#[inline(always)]
pub fn written<T: Serialize>(v: &T) -> Log {
    let mut r = Rec { k: [0; K], d: [0.0; K], n: 0 };
    match v.serialize(&mut r) { Ok(()) => (r.k, r.d), Err(_) => ([0; K], [-1.0; K]) }
}
#[inline(always)]
pub fn log(x: &[Tok]) -> Log { let mut k = [0; K]; let mut d = [0.0; K]; let mut i = 0; while i < x.len() { k[i] = x[i].0; d[i] = x[i].1; i += 1; } (k, d) }

macro_rules! no { ($($f:ident($t:ty)),*) => { $(#[inline(always)] fn $f(self, _: $t) -> Result<(), E> { Err(E) })* } }
impl<'a> ser::Serializer for &'a mut Rec {
    type Ok = ();
    type Error = E;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Self;
    type SerializeTupleVariant = Self;
    type SerializeMap = Self;
    type SerializeStruct = Self;
    type SerializeStructVariant = Self;
    no!(serialize_bool(bool), serialize_i8(i8), serialize_i16(i16), serialize_i32(i32), serialize_i64(i64), serialize_u8(u8), serialize_u16(u16), serialize_u32(u32), serialize_u64(u64), serialize_char(char), serialize_str(&str), serialize_bytes(&[u8]));
    #[inline(always)] fn serialize_f32(self, v: f32) -> Result<(), E> { self.put(num(v as f64)) }
    #[inline(always)] fn serialize_f64(self, v: f64) -> Result<(), E> { self.put(num(v)) }
    fn serialize_none(self) -> Result<(), E> { Err(E) }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<(), E> { Err(E) }
    fn serialize_unit(self) -> Result<(), E> { self.put(UNIT) }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), E> { self.put(UNIT) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<(), E> { Err(E) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), E> { v.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), E> { Err(E) }
    #[inline(always)] fn serialize_seq(self, n: Option<usize>) -> Result<Self, E> { match n { Some(n) => { self.put(seq(n as f64))?; Ok(self) } None => Err(E) } }
    #[inline(always)] fn serialize_tuple(self, n: usize) -> Result<Self, E> { self.put(tup(n as f64))?; Ok(self) }
    fn serialize_tuple_struct(self, _: &'static str, n: usize) -> Result<Self, E> { Err(E) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self, E> { Err(E) }
    fn serialize_map(self, _: Option<usize>) -> Result<Self, E> { Err(E) }
    #[inline(always)] fn serialize_struct(self, _: &'static str, n: usize) -> Result<Self, E> { self.put(st(n as f64))?; Ok(self) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self, E> { Err(E) }
    fn collect_str<T: ?Sized + core::fmt::Display>(self, _: &T) -> Result<(), E> { Err(E) }
    fn is_human_readable(&self) -> bool { true }
}
macro_rules! items { ($($tr:ident $f:ident),*) => { $(impl<'a> ser::$tr for &'a mut Rec { type Ok = (); type Error = E;
    #[inline(always)] fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> { v.serialize(&mut **self) }
    #[inline(always)] fn end(self) -> Result<(), E> { self.put(END) } })* } }
items!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field);
impl<'a> ser::SerializeTupleVariant for &'a mut Rec { type Ok = (); type Error = E; fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &T) -> Result<(), E> { Err(E) } fn end(self) -> Result<(), E> { Err(E) } }
impl<'a> ser::SerializeMap for &'a mut Rec { type Ok = (); type Error = E; fn serialize_key<T: ?Sized + Serialize>(&mut self, _: &T) -> Result<(), E> { Err(E) } fn serialize_value<T: ?Sized + Serialize>(&mut self, _: &T) -> Result<(), E> { Err(E) } fn end(self) -> Result<(), E> { Err(E) } }
impl<'a> ser::SerializeStruct for &'a mut Rec { type Ok = (); type Error = E;
    #[inline(always)] fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, v: &T) -> Result<(), E> { v.serialize(&mut **self) }
    #[inline(always)] fn end(self) -> Result<(), E> { self.put(END) } }
impl<'a> ser::SerializeStructVariant for &'a mut Rec { type Ok = (); type Error = E; fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, _: &T) -> Result<(), E> { Err(E) } fn end(self) -> Result<(), E> { Err(E) } }

/// gives out a stream
/// (`lax`: surplus items of a group are passed over in silence; `hint`: what it says about how many items are left)
pub struct Play<'a> { pub t: &'a [Tok], pub n: usize, pub lax: bool, pub hint: Option<usize> }
impl<'a> Play<'a> {
    #[inline(always)]
    fn next(&mut self) -> Result<Tok, E> { if self.n < self.t.len() { self.n += 1; Ok(self.t[self.n - 1]) } else { Err(E) } }
    #[inline(always)]
    fn peek(&self) -> u8 { if self.n < self.t.len() { self.t[self.n].0 } else { 0 } }
    #[inline(always)]
    fn group<'de, V: Visitor<'de>>(&mut self, kind: u8, v: V) -> Result<V::Value, E> {
        if self.next()?.0 != kind { return Err(E); }
        let r = v.visit_seq(Items(self))?;
        if self.lax { while self.peek() != END_ { self.skip()?; } }
        if self.next()?.0 != END_ { return Err(E); }
        Ok(r)
    }
    #[inline(always)]
    fn skip(&mut self) -> Result<(), E> {
        let mut depth = 0;
        loop {
            match self.next()?.0 { BAD_ => return Err(E), END_ => depth -= 1, SEQ | TUP | STRUCT => depth += 1, _ => {} }
            if depth <= 0 { return Ok(()); }
        }
    }
}
pub struct Items<'b, 'a>(&'b mut Play<'a>);
impl<'b, 'a, 'de> SeqAccess<'de> for Items<'b, 'a> {
    type Error = E;
    #[inline(always)]
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        if self.0.peek() == END_ { return Ok(None); }
        s.deserialize(&mut *self.0).map(Some)
    }
    #[inline(always)]
    fn size_hint(&self) -> Option<usize> { self.0.hint }
}
macro_rules! nope { ($($f:ident),*) => { $(fn $f<V: Visitor<'de>>(self, _: V) -> Result<V::Value, E> { Err(E) })* } }
impl<'b, 'a, 'de> de::Deserializer<'de> for &'b mut Play<'a> {
    type Error = E;
    nope!(deserialize_any, deserialize_bool, deserialize_i8, deserialize_i16, deserialize_i32, deserialize_i64, deserialize_u8, deserialize_u16, deserialize_u32, deserialize_u64, deserialize_char, deserialize_str, deserialize_string, deserialize_bytes, deserialize_byte_buf, deserialize_option, deserialize_map, deserialize_identifier);
    #[inline(always)] fn deserialize_f32<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { let t = self.next()?; if t.0 == NUM { v.visit_f32(t.1 as f32) } else { Err(E) } }
    #[inline(always)] fn deserialize_f64<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { let t = self.next()?; if t.0 == NUM { v.visit_f64(t.1) } else { Err(E) } }
    #[inline(always)] fn deserialize_unit<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { if self.next()?.0 == NIL { v.visit_unit() } else { Err(E) } }
    #[inline(always)] fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> { if self.next()?.0 == NIL { v.visit_unit() } else { Err(E) } }
    #[inline(always)] fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> { v.visit_newtype_struct(self) }
    #[inline(always)] fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { self.group(SEQ, v) }
    #[inline(always)] fn deserialize_tuple<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, E> { self.group(TUP, v) }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, _: usize, _: V) -> Result<V::Value, E> { Err(E) }
    #[inline(always)] fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, E> { self.group(STRUCT, v) }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], _: V) -> Result<V::Value, E> { Err(E) }
    #[inline(always)] fn deserialize_ignored_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { self.skip()?; v.visit_unit() }
}
#[inline(always)]
pub fn read<'de, T: de::Deserialize<'de>>(t: &[Tok]) -> Option<T> { read_as(t, false, None) }
#[inline(always)]
pub fn read_as<'de, T: de::Deserialize<'de>>(t: &[Tok], lax: bool, hint: Option<usize>) -> Option<T> { let mut p = Play { t, n: 0, lax, hint }; match T::deserialize(&mut p) { Ok(v) if p.n == t.len() => Some(v), _ => None } }

/// an element that counts how often it was made and dropped
pub static mut LIVE: [i32; 8] = [0; 8];
pub struct Count(pub f64, pub usize);
impl Count { #[inline(always)] fn new(v: f64, i: usize) -> Count { unsafe { LIVE[i] += 1; } Count(v, i) } }
impl Drop for Count { #[inline(always)] fn drop(&mut self) { unsafe { LIVE[self.1] -= 1; } } }
impl<'de> de::Deserialize<'de> for Count {
    #[inline(always)]
    fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Count, D::Error> { let v = f64::deserialize(d)?; Ok(Count::new(v, v as usize)) }
}
