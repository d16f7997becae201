//! A self-describing Serde format that keeps values in memory: lets harnesses read (and rewrite) the contents of the
//! crate's data structures through their public Serialize/Deserialize implementations.
use serde::de::{self, DeserializeSeed, IntoDeserializer, MapAccess, SeqAccess, Visitor};
use serde::ser::{self, Serialize};
use std::fmt;

#[derive(Clone, Debug)]
pub enum V { U(u64), B(bool), Unit, Str(String), Seq(Vec<V>), Rec(Vec<(&'static str, V)>) }

#[derive(Debug)]
pub struct Err0;
impl fmt::Display for Err0 { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("capture") } }
impl std::error::Error for Err0 {}
impl ser::Error for Err0 { fn custom<T: fmt::Display>(_: T) -> Self { Err0 } }
impl de::Error for Err0 { fn custom<T: fmt::Display>(_: T) -> Self { Err0 } }

pub fn capture<T: Serialize>(t: &T) -> V { t.serialize(S).unwrap() }
pub fn restore<'a, T: de::Deserialize<'a>>(v: &'a V) -> Result<T, Err0> { T::deserialize(D(v)) }

impl V {
    pub fn u(&self) -> usize { match self { V::U(x) => *x as usize, _ => panic!("capture: not a number") } }
    pub fn seq(&self) -> &Vec<V> { match self { V::Seq(x) => x, _ => panic!("capture: not a sequence") } }
    /// field by name; by position if it was renamed
    pub fn f(&self, name: &str, pos: usize) -> &V {
        match self {
            V::Rec(x) => { for (n, v) in x { if *n == name { return v; } } &x[pos].1 }
            V::Seq(x) => &x[pos],
            _ => panic!("capture: not a struct"),
        }
    }
    pub fn f_mut(&mut self, name: &str, pos: usize) -> &mut V {
        match self {
            V::Rec(x) => { let i = x.iter().position(|f| f.0 == name).unwrap_or(pos); &mut x[i].1 }
            V::Seq(x) => &mut x[pos],
            _ => panic!("capture: not a struct"),
        }
    }
    /// all numbers in order, list lengths included
    pub fn flat(&self, out: &mut Vec<usize>) {
        match self {
            V::U(x) => out.push(*x as usize),
            V::B(b) => out.push(*b as usize),
            V::Unit => {}
            V::Str(s) => { out.push(s.len()); for b in s.bytes() { out.push(b as usize); } }
            V::Seq(x) => { out.push(x.len()); for v in x { v.flat(out); } }
            V::Rec(x) => for (_, v) in x { v.flat(out); },
        }
    }
}

pub struct S;
pub struct SeqS(Vec<V>);
pub struct RecS(Vec<(&'static str, V)>);
macro_rules! num { ($($m:ident $t:ty),*) => { $(fn $m(self, v: $t) -> Result<V, Err0> { Ok(V::U(v as u64)) })* } }
impl ser::Serializer for S {
    type Ok = V; type Error = Err0;
    type SerializeSeq = SeqS; type SerializeTuple = SeqS; type SerializeTupleStruct = SeqS; type SerializeTupleVariant = SeqS;
    type SerializeMap = SeqS; type SerializeStruct = RecS; type SerializeStructVariant = RecS;
    fn serialize_bool(self, v: bool) -> Result<V, Err0> { Ok(V::B(v)) }
    num!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_char char);
    fn serialize_f32(self, v: f32) -> Result<V, Err0> { Ok(V::U(v.to_bits() as u64)) }
    fn serialize_f64(self, v: f64) -> Result<V, Err0> { Ok(V::U(v.to_bits())) }
    fn serialize_str(self, v: &str) -> Result<V, Err0> { Ok(V::Str(v.to_string())) }
    fn serialize_bytes(self, v: &[u8]) -> Result<V, Err0> { Ok(V::Seq(v.iter().map(|b| V::U(*b as u64)).collect())) }
    fn serialize_none(self) -> Result<V, Err0> { Ok(V::Seq(vec![])) }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<V, Err0> { Ok(V::Seq(vec![v.serialize(S)?])) }
    fn serialize_unit(self) -> Result<V, Err0> { Ok(V::Unit) }
    fn serialize_unit_struct(self, _: &'static str) -> Result<V, Err0> { Ok(V::Unit) }
    fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> Result<V, Err0> { Ok(V::U(i as u64)) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<V, Err0> { v.serialize(S) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, v: &T) -> Result<V, Err0> { v.serialize(S) }
    fn serialize_seq(self, _: Option<usize>) -> Result<SeqS, Err0> { Ok(SeqS(vec![])) }
    fn serialize_tuple(self, _: usize) -> Result<SeqS, Err0> { Ok(SeqS(vec![])) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<SeqS, Err0> { Ok(SeqS(vec![])) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<SeqS, Err0> { Ok(SeqS(vec![])) }
    fn serialize_map(self, _: Option<usize>) -> Result<SeqS, Err0> { Ok(SeqS(vec![])) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<RecS, Err0> { Ok(RecS(vec![])) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<RecS, Err0> { Ok(RecS(vec![])) }
}
impl ser::SerializeSeq for SeqS { type Ok = V; type Error = Err0;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Err0> { self.0.push(v.serialize(S)?); Ok(()) }
    fn end(self) -> Result<V, Err0> { Ok(V::Seq(self.0)) } }
impl ser::SerializeTuple for SeqS { type Ok = V; type Error = Err0;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Err0> { self.0.push(v.serialize(S)?); Ok(()) }
    fn end(self) -> Result<V, Err0> { Ok(V::Seq(self.0)) } }
impl ser::SerializeTupleStruct for SeqS { type Ok = V; type Error = Err0;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Err0> { self.0.push(v.serialize(S)?); Ok(()) }
    fn end(self) -> Result<V, Err0> { Ok(V::Seq(self.0)) } }
impl ser::SerializeTupleVariant for SeqS { type Ok = V; type Error = Err0;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Err0> { self.0.push(v.serialize(S)?); Ok(()) }
    fn end(self) -> Result<V, Err0> { Ok(V::Seq(self.0)) } }
impl ser::SerializeMap for SeqS { type Ok = V; type Error = Err0;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Err0> { self.0.push(v.serialize(S)?); Ok(()) }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Err0> { self.0.push(v.serialize(S)?); Ok(()) }
    fn end(self) -> Result<V, Err0> { Ok(V::Seq(self.0)) } }
impl ser::SerializeStruct for RecS { type Ok = V; type Error = Err0;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, n: &'static str, v: &T) -> Result<(), Err0> { self.0.push((n, v.serialize(S)?)); Ok(()) }
    fn end(self) -> Result<V, Err0> { Ok(V::Rec(self.0)) } }
impl ser::SerializeStructVariant for RecS { type Ok = V; type Error = Err0;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, n: &'static str, v: &T) -> Result<(), Err0> { self.0.push((n, v.serialize(S)?)); Ok(()) }
    fn end(self) -> Result<V, Err0> { Ok(V::Rec(self.0)) } }

struct D<'a>(&'a V);
struct SeqD<'a>(std::slice::Iter<'a, V>);
struct MapD<'a>(std::slice::Iter<'a, (&'static str, V)>, Option<&'a V>);
impl<'a> SeqAccess<'a> for SeqD<'a> { type Error = Err0;
    fn next_element_seed<T: DeserializeSeed<'a>>(&mut self, s: T) -> Result<Option<T::Value>, Err0> {
        match self.0.next() { None => Ok(None), Some(v) => s.deserialize(D(v)).map(Some) } }
    fn size_hint(&self) -> Option<usize> { Some(self.0.len()) } }
impl<'a> MapAccess<'a> for MapD<'a> { type Error = Err0;
    fn next_key_seed<K: DeserializeSeed<'a>>(&mut self, s: K) -> Result<Option<K::Value>, Err0> {
        match self.0.next() { None => Ok(None), Some((k, v)) => { self.1 = Some(v); s.deserialize((*k).into_deserializer()).map(Some) } } }
    fn next_value_seed<T: DeserializeSeed<'a>>(&mut self, s: T) -> Result<T::Value, Err0> { s.deserialize(D(self.1.take().unwrap())) } }
impl<'de> de::Deserializer<'de> for D<'de> {
    type Error = Err0;
    fn deserialize_any<W: Visitor<'de>>(self, w: W) -> Result<W::Value, Err0> {
        match self.0 {
            V::U(x) => w.visit_u64(*x), V::B(b) => w.visit_bool(*b), V::Unit => w.visit_unit(), V::Str(s) => w.visit_str(s),
            V::Seq(x) => w.visit_seq(SeqD(x.iter())), V::Rec(x) => w.visit_map(MapD(x.iter(), None)),
        }
    }
    fn deserialize_option<W: Visitor<'de>>(self, w: W) -> Result<W::Value, Err0> {
        match self.0 { V::Seq(x) if x.is_empty() => w.visit_none(), V::Seq(x) => w.visit_some(D(&x[0])), _ => w.visit_some(self) } }
    fn deserialize_newtype_struct<W: Visitor<'de>>(self, _: &'static str, w: W) -> Result<W::Value, Err0> { w.visit_newtype_struct(self) }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 u8 u16 u32 u64 i128 u128 f32 f64 char str string bytes byte_buf unit unit_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
