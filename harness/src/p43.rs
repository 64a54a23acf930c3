//! A byte string handed to a serde serializer is one byte string: exactly its bytes, and the serializer's own outcome.
#![cfg(feature = "ser")]
use crate::util::*;
use crate::{harnesses, sym, want};
use serde::ser::{Impossible, Serialize, Serializer};
use tedium::{Bytes, FixedBytes};

#[derive(Debug)]
struct Fail(u32);
impl std::fmt::Display for Fail {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for Fail {}
impl serde::ser::Error for Fail {
    fn custom<T: std::fmt::Display>(_: T) -> Self {
        Fail(2)
    }
}
/// Takes byte strings only; keeps them, answers with a token, or fails with one.
struct Rec<'a> {
    got: &'a mut Vec<u8>,
    token: u32,
    fail: bool,
}
impl<'a> Serializer for Rec<'a> {
    type Ok = u32;
    type Error = Fail;
    type SerializeSeq = Impossible<u32, Fail>;
    type SerializeTuple = Impossible<u32, Fail>;
    type SerializeTupleStruct = Impossible<u32, Fail>;
    type SerializeTupleVariant = Impossible<u32, Fail>;
    type SerializeMap = Impossible<u32, Fail>;
    type SerializeStruct = Impossible<u32, Fail>;
    type SerializeStructVariant = Impossible<u32, Fail>;
    fn serialize_bytes(self, v: &[u8]) -> Result<u32, Fail> {
        self.got.extend_from_slice(v);
        if self.fail {
            Err(Fail(self.token))
        } else {
            Ok(self.token)
        }
    }
    fn serialize_bool(self, _: bool) -> Result<Self::Ok, Fail> { Err(Fail(1)) }
    fn serialize_i8(self, _: i8) -> Result<Self::Ok, Fail> { Err(Fail(1)) }
    fn serialize_i16(self, _: i16) -> Result<Self::Ok, Fail> { Err(Fail(1)) }
    fn serialize_i32(self, _: i32) -> Result<Self::Ok, Fail> { Err(Fail(1)) }
    fn serialize_i64(self, _: i64) -> Result<Self::Ok, Fail> { Err(Fail(1)) }
    fn serialize_u8(self, _: u8) -> Result<Self::Ok, Fail> { Err(Fail(1)) }
    fn serialize_u16(self, _: u16) -> Result<Self::Ok, Fail> { Err(Fail(1)) }
    fn serialize_u32(self, _: u32) -> Result<Self::Ok, Fail> { Err(Fail(1)) }
    fn serialize_u64(self, _: u64) -> Result<Self::Ok, Fail> { Err(Fail(1)) }
    fn serialize_f32(self, _: f32) -> Result<Self::Ok, Fail> { Err(Fail(1)) }
    fn serialize_f64(self, _: f64) -> Result<Self::Ok, Fail> { Err(Fail(1)) }
    fn serialize_char(self, _: char) -> Result<Self::Ok, Fail> { Err(Fail(1)) }
    fn serialize_str(self, _: &str) -> Result<Self::Ok, Fail> { Err(Fail(1)) }
    fn serialize_none(self) -> Result<Self::Ok, Fail> { Err(Fail(1)) }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<Self::Ok, Fail> { Err(Fail(1)) }
    fn serialize_unit(self) -> Result<Self::Ok, Fail> { Err(Fail(1)) }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Self::Ok, Fail> { Err(Fail(1)) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<Self::Ok, Fail> { Err(Fail(1)) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<Self::Ok, Fail> { Err(Fail(1)) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Self::Ok, Fail> { Err(Fail(1)) }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, Fail> { Err(Fail(1)) }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, Fail> { Err(Fail(1)) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Fail> { Err(Fail(1)) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Fail> { Err(Fail(1)) }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Fail> { Err(Fail(1)) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Fail> { Err(Fail(1)) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Fail> { Err(Fail(1)) }
}
fn faithful<T: Serialize>(x: &T, v: &[u8]) {
    let mut got = Vec::with_capacity(v.len());
    let token = sym::u32();
    let fail = sym::u8();
    let r = x.serialize(Rec { got: &mut got, token, fail: fail >= 128 });
    sym::check(same(&got, v), "the serializer did not receive exactly the bytes");
    match r {
        Ok(t) => {
            sym::cover("taken");
            sym::check(fail < 128 && t == token, "the serializer's answer was replaced");
        }
        Err(Fail(t)) => {
            sym::cover("refused");
            sym::check(fail >= 128 && t == token, "the serializer's error was replaced");
        }
    }
}
fn array<const K: usize>() {
    want!("taken", "refused");
    let mut a = [0x5au8; K];
    for i in 0..K {
        if K <= 8 || i < 2 || i + 2 >= K || i == K / 2 {
            a[i] = sym::u8();
        }
    }
    faithful(&FixedBytes::from_array(a), &a)
}
harnesses! {
    fn p43_bytes__ser() { want!("taken", "refused"); let v = sym::vec(sym::upto(5)); faithful(&Bytes::from_vec(v.clone()), &v) }
    fn p43_long__ser() { want!("taken", "refused"); let v = ends(long()); faithful(&Bytes::from_vec(v.clone()), &v) }
    fn p43_fixed0__ser() { array::<0>() }
    fn p43_fixed1__ser() { array::<1>() }
    fn p43_fixed4__ser() { array::<4>() }
    fn p43_fixed20__ser() { array::<20>() }
    fn p43_fixed32__ser() { array::<32>() }
    fn p43_fixed65__ser() { array::<65>() }
    fn p43_fixed300__ser() { array::<300>() }
    fn p43_nested__ser() { want!("taken", "refused"); let v = sym::vec(sym::upto(3)); faithful(&&Box::new(Bytes::from_vec(v.clone())), &v) }
}
