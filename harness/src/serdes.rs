//! serde: sequence of 64-bit words, least significant first; sign beside it
use crate::vf::*;
use core::fmt;
use ibig::{IBig, UBig};
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, IntoDeserializer, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Impossible, Serialize, SerializeSeq, SerializeStruct, SerializeTuple, SerializeTupleStruct, Serializer};
use serde::Deserialize;

/// flat record of what was serialized
pub const SEQ: u64 = 1;
pub const TUP: u64 = 2;
pub const END: u64 = 3;
pub const VAL: u64 = 4;
pub const BOOL: u64 = 5;
pub const VARIANT: u64 = 6;
pub const STRUCT: u64 = 7;

pub struct Rec {
    pub tag: [u64; 40],
    pub val: [u64; 40],
    pub n: usize,
}
impl Rec {
    pub fn new() -> Rec {
        Rec { tag: [0; 40], val: [0; 40], n: 0 }
    }
    fn put(&mut self, t: u64, v: u64) {
        if self.n < 40 {
            self.tag[self.n] = t;
            self.val[self.n] = v;
        }
        self.n += 1;
    }
}
#[derive(Debug)]
pub struct E;
impl fmt::Display for E {
    fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result {
        Ok(())
    }
}
impl ser::StdError for E {}
impl ser::Error for E {
    fn custom<T: fmt::Display>(_: T) -> E {
        E
    }
}
impl de::Error for E {
    fn custom<T: fmt::Display>(_: T) -> E {
        E
    }
}
struct S<'a>(&'a mut Rec);
macro_rules! no {
    ($($f:ident $t:ty,)*) => { $( fn $f(self, _: $t) -> Result<(), E> { Err(E) } )* };
}
impl<'a> Serializer for S<'a> {
    type Ok = ();
    type Error = E;
    type SerializeSeq = S<'a>;
    type SerializeTuple = S<'a>;
    type SerializeTupleStruct = S<'a>;
    type SerializeTupleVariant = Impossible<(), E>;
    type SerializeMap = Impossible<(), E>;
    type SerializeStruct = S<'a>;
    type SerializeStructVariant = Impossible<(), E>;
    no! { serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16,
    serialize_u32 u32, serialize_f32 f32, serialize_f64 f64, serialize_char char, serialize_str &str, serialize_bytes &[u8], }
    fn serialize_bool(self, v: bool) -> Result<(), E> {
        self.0.put(BOOL, v as u64);
        Ok(())
    }
    fn serialize_u64(self, v: u64) -> Result<(), E> {
        self.0.put(VAL, v);
        Ok(())
    }
    fn serialize_none(self) -> Result<(), E> {
        Err(E)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<(), E> {
        Err(E)
    }
    fn serialize_unit(self) -> Result<(), E> {
        Err(E)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), E> {
        Err(E)
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, name: &'static str) -> Result<(), E> {
        self.0.put(VARIANT, i as u64 | (name.as_bytes()[0] as u64) << 32);
        Ok(())
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), E> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), E> {
        Err(E)
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<S<'a>, E> {
        self.0.put(SEQ, match len { Some(n) => n as u64, None => u64::MAX });
        Ok(self)
    }
    fn serialize_tuple(self, len: usize) -> Result<S<'a>, E> {
        self.0.put(TUP, len as u64);
        Ok(self)
    }
    fn serialize_tuple_struct(self, _: &'static str, len: usize) -> Result<S<'a>, E> {
        self.0.put(TUP, len as u64);
        Ok(self)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Impossible<(), E>, E> {
        Err(E)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Impossible<(), E>, E> {
        Err(E)
    }
    fn serialize_struct(self, _: &'static str, n: usize) -> Result<S<'a>, E> {
        self.0.put(STRUCT, n as u64);
        Ok(self)
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Impossible<(), E>, E> {
        Err(E)
    }
}
impl<'a> SerializeSeq for S<'a> {
    type Ok = ();
    type Error = E;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        v.serialize(S(self.0))
    }
    fn end(self) -> Result<(), E> {
        self.0.put(END, 0);
        Ok(())
    }
}
impl<'a> SerializeTuple for S<'a> {
    type Ok = ();
    type Error = E;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        v.serialize(S(self.0))
    }
    fn end(self) -> Result<(), E> {
        self.0.put(END, 0);
        Ok(())
    }
}
impl<'a> SerializeTupleStruct for S<'a> {
    type Ok = ();
    type Error = E;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        v.serialize(S(self.0))
    }
    fn end(self) -> Result<(), E> {
        self.0.put(END, 0);
        Ok(())
    }
}
impl<'a> SerializeStruct for S<'a> {
    type Ok = ();
    type Error = E;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, v: &T) -> Result<(), E> {
        v.serialize(S(self.0))
    }
    fn end(self) -> Result<(), E> {
        self.0.put(END, 0);
        Ok(())
    }
}

/// replays a record, with or without a length hint
struct D<'a> {
    r: &'a Rec,
    at: &'a mut usize,
    hint: u64,
}
impl<'a> D<'a> {
    fn next(&mut self) -> (u64, u64) {
        let k = *self.at;
        if k >= self.r.n || k >= 40 {
            return (END, 0);
        }
        *self.at = k + 1;
        (self.r.tag[k], self.r.val[k])
    }
}
struct Acc<'a> {
    r: &'a Rec,
    at: &'a mut usize,
    hint: u64,
}
impl<'de, 'a> SeqAccess<'de> for Acc<'a> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, E> {
        let k = *self.at;
        if k >= self.r.n || k >= 40 || self.r.tag[k] == END {
            return Ok(None);
        }
        seed.deserialize(D { r: self.r, at: self.at, hint: self.hint }).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        if self.hint == 0 {
            return None;
        }
        let mut n = 0;
        let mut k = *self.at;
        while k < self.r.n && k < 40 && self.r.tag[k] != END {
            n += 1;
            k += 1;
        }
        Some(n)
    }
}
impl<'de, 'a> Deserializer<'de> for D<'a> {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(mut self, v: V) -> Result<V::Value, E> {
        let hint = self.hint;
        match self.next() {
            (BOOL, x) => v.visit_bool(x != 0),
            (VAL, x) => v.visit_u64(x),
            (SEQ, _) | (TUP, _) | (STRUCT, _) => {
                let r = self.r;
                let at = &mut *self.at;
                let x = v.visit_seq(Acc { r, at: &mut *at, hint })?;
                if *at < r.n && *at < 40 && r.tag[*at] == END {
                    *at += 1;
                    Ok(x)
                } else {
                    Err(E)
                }
            }
            _ => Err(E),
        }
    }
    fn deserialize_enum<V: Visitor<'de>>(mut self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, E> {
        match self.next() {
            (VARIANT, x) => v.visit_enum(En(x as u32)),
            _ => Err(E),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct seq tuple tuple_struct map struct identifier ignored_any
    }
}
struct En(u32);
impl<'de> EnumAccess<'de> for En {
    type Error = E;
    type Variant = En;
    fn variant_seed<V: DeserializeSeed<'de>>(self, seed: V) -> Result<(V::Value, En), E> {
        let d: de::value::U32Deserializer<E> = self.0.into_deserializer();
        Ok((seed.deserialize(d)?, self))
    }
}
impl<'de> VariantAccess<'de> for En {
    type Error = E;
    fn unit_variant(self) -> Result<(), E> {
        Ok(())
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, _: T) -> Result<T::Value, E> {
        Err(E)
    }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, _: V) -> Result<V::Value, E> {
        Err(E)
    }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], _: V) -> Result<V::Value, E> {
        Err(E)
    }
}
/// words of x as 64-bit words
fn w64(x: &UBig, k: usize) -> u64 {
    let per = 64 / WBU;
    let mut r = 0u64;
    for j in 0..per {
        r |= (wk(x, k * per + j) as u64) << (j * WBU % 64);
    }
    r
}
fn len64(x: &UBig) -> usize {
    let per = 64 / WBU;
    (ubig_len(x) + per - 1) / per
}
fn check_seq(r: &Rec, at: usize, x: &UBig, id: u32) -> usize {
    let n = len64(x);
    check(r.tag[at] == SEQ, id);
    check(r.val[at] == n as u64 || r.val[at] == u64::MAX, id + 1);
    for k in 0..n {
        check(r.tag[at + 1 + k] == VAL, id + 2);
        check(r.val[at + 1 + k] == w64(x, k), id + 3);
    }
    check(r.tag[at + 1 + n] == END, id + 4);
    at + n + 2
}
fn roundtrip_u(n: usize, hint: u64) {
    let a = snum(n);
    reach(1);
    let mut r = Rec::new();
    match a.serialize(S(&mut r)) {
        Ok(()) => (),
        Err(_) => check(false, 1),
    }
    let e = check_seq(&r, 0, &a, 10);
    check(e == r.n, 2);
    let mut at = 0;
    match UBig::deserialize(D { r: &r, at: &mut at, hint }) {
        Ok(b) => {
            canon(&b, 3);
            same(&b, &a, 4);
        }
        Err(_) => check(false, 5),
    }
}
fn roundtrip_i(n: usize, hint: u64) {
    let neg = sgn(n);
    let a = sint(n, neg);
    reach(1);
    let mut r = Rec::new();
    match a.serialize(S(&mut r)) {
        Ok(()) => (),
        Err(_) => check(false, 1),
    }
    check(r.tag[0] == TUP || r.tag[0] == STRUCT, 6);
    check(r.val[0] == 2, 6);
    check(r.tag[1] == VARIANT, 7);
    check(r.val[1] == if neg { 1 | (b'N' as u64) << 32 } else { (b'P' as u64) << 32 }, 8);
    let e = check_seq(&r, 2, imag(&a), 10);
    check(e + 1 == r.n, 2);
    let mut at = 0;
    match IBig::deserialize(D { r: &r, at: &mut at, hint }) {
        Ok(b) => {
            icanon(&b, 3);
            isame(&b, &a, 4);
        }
        Err(_) => check(false, 5),
    }
}
/// any word sequence, with leading zeros
fn any_words(n: usize, hint: u64) {
    let mut r = Rec::new();
    r.put(SEQ, n as u64);
    let mut v = Int::u(0);
    for k in 0..n {
        let x = su64();
        r.put(VAL, x);
        v = v + Int::u(x).shl(64 * k as u64);
    }
    r.put(END, 0);
    reach(1);
    let mut at = 0;
    match UBig::deserialize(D { r: &r, at: &mut at, hint }) {
        Ok(b) => is(&b, v, 1),
        Err(_) => check(false, 2),
    }
}
h! {
    h_serde_u { let h = choose(2); let n = choose(5) as usize; roundtrip_u(n, h) }
    h_serde_i { let h = choose(2); let n = choose(5) as usize; roundtrip_i(n, h) }
    h_serde_u_long { roundtrip_u(9, 1) }
    h_serde_any { let h = choose(2); let n = choose(6) as usize; any_words(n, h) }
    h_serde_neg_zero {
        // a record claiming a negative zero still gives the one zero
        let n = choose(3) as usize;
        let mut r = Rec::new();
        r.put(TUP, 2);
        r.put(VARIANT, choose(2));
        r.put(SEQ, n as u64);
        for _ in 0..n {
            r.put(VAL, 0);
        }
        r.put(END, 0);
        r.put(END, 0);
        reach(1);
        let mut at = 0;
        match IBig::deserialize(D { r: &r, at: &mut at, hint: 1 }) {
            Ok(b) => iis(&b, Int::u(0), 1),
            Err(_) => (),
        }
    }
}
