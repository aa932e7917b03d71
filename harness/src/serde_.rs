//! Serialization (C45).  The serializer records what it is given, the deserializer replays a recording; both may fail at any point.
use crate::env::*;
use futures_signals::signal::Mutable;
use futures_signals::signal_map::MutableBTreeMap;
use futures_signals::signal_vec::MutableVec;
use serde::de::{self, DeserializeSeed, Deserializer, MapAccess, SeqAccess, Visitor};
use serde::ser::{self, Impossible, Serialize, Serializer};
use serde::Deserialize;
use std::cell::Cell;
use std::fmt;

pub struct E;
impl fmt::Debug for E { fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result { Ok(()) } }
impl fmt::Display for E { fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result { Ok(()) } }
impl std::error::Error for E {}
impl ser::Error for E { fn custom<T: fmt::Display>(_: T) -> E { E } }
impl de::Error for E { fn custom<T: fmt::Display>(_: T) -> E { E } }

pub enum Out { Key(u8), Leaf(u64), Seq(Vec<u64>), Map(Vec<(u8, u64)>), Other }
/// 0: never fails, 1: may fail, 2: has failed
pub type Fail<'a> = &'a Cell<u8>;
fn fails(f: Fail) -> bool { if f.get() == 1 && nondet() { f.set(2); true } else { false } }
#[derive(Clone, Copy)]
pub struct Rec<'a>(Fail<'a>);
pub struct SeqRec<'a>(Vec<u64>, Rec<'a>);
pub struct MapRec<'a>(Vec<(u8, u64)>, Option<u8>, Rec<'a>);

macro_rules! other { ($($f:ident($($t:ty),*)),*) => { $(fn $f(self, $(_: $t),*) -> Result<Out, E> { Ok(Out::Other) })* } }
impl<'a> Serializer for Rec<'a> {
    type Ok = Out; type Error = E;
    type SerializeSeq = SeqRec<'a>; type SerializeMap = MapRec<'a>;
    type SerializeTuple = Impossible<Out, E>; type SerializeTupleStruct = Impossible<Out, E>; type SerializeTupleVariant = Impossible<Out, E>;
    type SerializeStruct = Impossible<Out, E>; type SerializeStructVariant = Impossible<Out, E>;
    other! { serialize_bool(bool), serialize_i8(i8), serialize_i16(i16), serialize_i32(i32), serialize_i64(i64), serialize_u16(u16), serialize_u32(u32),
        serialize_f32(f32), serialize_f64(f64), serialize_char(char), serialize_str(&str), serialize_bytes(&[u8]), serialize_none(), serialize_unit(),
        serialize_unit_struct(&'static str), serialize_unit_variant(&'static str, u32, &'static str) }
    fn serialize_u8(self, v: u8) -> Result<Out, E> { if fails(self.0) { Err(E) } else { Ok(Out::Key(v)) } }
    fn serialize_u64(self, v: u64) -> Result<Out, E> { if fails(self.0) { Err(E) } else { Ok(Out::Leaf(v)) } }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<Out, E> { Ok(Out::Other) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<Out, E> { Ok(Out::Other) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Out, E> { Ok(Out::Other) }
    fn serialize_seq(self, _: Option<usize>) -> Result<SeqRec<'a>, E> { if fails(self.0) { Err(E) } else { Ok(SeqRec(Vec::new(), self)) } }
    fn serialize_map(self, _: Option<usize>) -> Result<MapRec<'a>, E> { if fails(self.0) { Err(E) } else { Ok(MapRec(Vec::new(), None, self)) } }
    fn serialize_tuple(self, _: usize) -> Result<Impossible<Out, E>, E> { Err(E) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Impossible<Out, E>, E> { Err(E) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Impossible<Out, E>, E> { Err(E) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Impossible<Out, E>, E> { Err(E) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Impossible<Out, E>, E> { Err(E) }
    fn collect_seq<I>(self, iter: I) -> Result<Out, E> where I: IntoIterator, I::Item: Serialize {
        let mut s = self.serialize_seq(None)?;
        for x in iter { ser::SerializeSeq::serialize_element(&mut s, &x)?; }
        ser::SerializeSeq::end(s)
    }
    fn collect_map<K: Serialize, V: Serialize, I: IntoIterator<Item = (K, V)>>(self, iter: I) -> Result<Out, E> {
        let mut s = self.serialize_map(None)?;
        for (k, v) in iter { ser::SerializeMap::serialize_entry(&mut s, &k, &v)?; }
        ser::SerializeMap::end(s)
    }
}
fn leaf(o: Out) -> u64 { match o { Out::Leaf(v) => v, _ => { must(45, 10, false); 0 } } }
fn key(o: Out) -> u8 { match o { Out::Key(v) => v, _ => { must(45, 11, false); 0 } } }
impl<'a> ser::SerializeSeq for SeqRec<'a> {
    type Ok = Out; type Error = E;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> { let v = leaf(v.serialize(self.1)?); self.0.push(v); Ok(()) }
    fn end(self) -> Result<Out, E> { if fails(self.1.0) { Err(E) } else { Ok(Out::Seq(self.0)) } }
}
impl<'a> ser::SerializeMap for MapRec<'a> {
    type Ok = Out; type Error = E;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<(), E> { self.1 = Some(key(k.serialize(self.2)?)); Ok(()) }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        let v = leaf(v.serialize(self.2)?);
        match self.1.take() { Some(k) => self.0.push((k, v)), None => must(45, 12, false) }
        Ok(())
    }
    fn end(self) -> Result<Out, E> { if fails(self.2.0) { Err(E) } else { Ok(Out::Map(self.0)) } }
}

pub enum Src { Key(u8), Leaf(u64), Seq(Vec<u64>), Map(Vec<(u8, u64)>) }
pub struct Play<'a> { src: Src, f: Fail<'a> }
macro_rules! play { ($($f:ident),*) => { $(fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { self.deserialize_any(v) })* } }
impl<'de, 'a> Deserializer<'de> for Play<'a> {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        if fails(self.f) { return Err(E) }
        match self.src {
            Src::Key(k) => v.visit_u8(k),
            Src::Leaf(x) => v.visit_u64(x),
            Src::Seq(l) => v.visit_seq(PlaySeq(l, self.f)),
            Src::Map(l) => v.visit_map(PlayMap(l, None, self.f)),
        }
    }
    play! { deserialize_bool, deserialize_i8, deserialize_i16, deserialize_i32, deserialize_i64, deserialize_u8, deserialize_u16, deserialize_u32, deserialize_u64, deserialize_f32, deserialize_f64,
        deserialize_char, deserialize_str, deserialize_string, deserialize_bytes, deserialize_byte_buf, deserialize_option, deserialize_unit, deserialize_seq, deserialize_map, deserialize_identifier, deserialize_ignored_any }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> { self.deserialize_any(v) }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> { self.deserialize_any(v) }
    fn deserialize_tuple<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, E> { self.deserialize_any(v) }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, _: usize, v: V) -> Result<V::Value, E> { self.deserialize_any(v) }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, E> { self.deserialize_any(v) }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, E> { self.deserialize_any(v) }
}
pub struct PlaySeq<'a>(Vec<u64>, Fail<'a>);
impl<'de, 'a> SeqAccess<'de> for PlaySeq<'a> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, E> {
        if self.0.is_empty() { return Ok(None) }
        Ok(Some(seed.deserialize(Play { src: Src::Leaf(self.0.remove(0)), f: self.1 })?))
    }
    fn size_hint(&self) -> Option<usize> { None }
}
pub struct PlayMap<'a>(Vec<(u8, u64)>, Option<u64>, Fail<'a>);
impl<'de, 'a> MapAccess<'de> for PlayMap<'a> {
    type Error = E;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, E> {
        if self.0.is_empty() { return Ok(None) }
        let (k, v) = self.0.remove(0);
        self.1 = Some(v);
        Ok(Some(seed.deserialize(Play { src: Src::Key(k), f: self.2 })?))
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<T::Value, E> {
        match self.1.take() { Some(v) => seed.deserialize(Play { src: Src::Leaf(v), f: self.2 }), None => Err(E) }
    }
    fn size_hint(&self) -> Option<usize> { None }
}

/// Fails exactly if the format fails.
fn run<T, F: FnOnce(Fail) -> Result<T, E>>(f: F) -> Option<T> {
    let c = Cell::new(nondet() as u8);
    let r = f(&c);
    must(45, 5, r.is_err() == (c.get() == 2));
    r.ok()
}

pub fn case_serde_ser_mutable() {
    let v: u64 = input(0);
    let m = Mutable::new(v);
    if nondet() { let v2: u64 = input(1); m.set(v2); check_mutable(&m, v2) } else { check_mutable(&m, v) }
}
fn check_mutable(m: &Mutable<u64>, v: u64) {
    match run(|f| m.serialize(Rec(f))) { Some(Out::Leaf(x)) => must_eq(45, 1, &x, &v), Some(_) => must(45, 2, false), None => {} }
    must_eq(45, 3, &m.get(), &v);
}
pub fn case_serde_ser_vec() {
    let init: Vec<u64> = input(100);
    let mut ghost = init.clone();
    let m = MutableVec::new_with_values(init);
    if nondet() { let x: u64 = input(0); m.lock_mut().push(x); ghost.push(x); }
    match run(|f| m.serialize(Rec(f))) { Some(Out::Seq(x)) => must_eql(45, 1, &x, &ghost), Some(_) => must(45, 2, false), None => {} }
    must_eql(45, 3, &m.lock_ref()[..], &ghost[..]);
}
pub fn case_serde_ser_map() {
    let m: MutableBTreeMap<u8, u64> = MutableBTreeMap::new();
    let mut ghost: Vec<(u8, u64)> = Vec::new();
    if nondet() { let x: u64 = input(0); m.lock_mut().insert(1, x); ghost.push((1, x)); }
    if nondet() { let x: u64 = input(1); m.lock_mut().insert(2, x); ghost.push((2, x)); }
    match run(|f| m.serialize(Rec(f))) { Some(Out::Map(x)) => must_eql(45, 1, &x, &ghost), Some(_) => must(45, 2, false), None => {} }
}
pub fn case_serde_de_mutable() {
    let v: u64 = input(0);
    match run(|f| Mutable::<u64>::deserialize(Play { src: Src::Leaf(v), f })) { Some(m) => must_eq(45, 4, &m.get(), &v), None => {} }
}
pub fn case_serde_de_vec() {
    let l: Vec<u64> = input(100);
    match run(|f| MutableVec::<u64>::deserialize(Play { src: Src::Seq(l.clone()), f })) { Some(m) => must_eql(45, 4, &m.lock_ref()[..], &l[..]), None => {} }
}
pub fn case_serde_de_map() {
    let mut l: Vec<(u8, u64)> = Vec::new();
    if nondet() { let x: u64 = input(0); l.push((1, x)); }
    if nondet() { let x: u64 = input(1); l.push((2, x)); }
    match run(|f| MutableBTreeMap::<u8, u64>::deserialize(Play { src: Src::Map(l.clone()), f })) {
        Some(m) => { let lock = m.lock_ref(); let got: Vec<(u8, u64)> = lock.iter().map(|(k, v)| (*k, *v)).collect(); must_eql(45, 4, &got, &l) }
        None => {}
    }
}
