//! A serde format which is not for people (`is_human_readable` is false) and holds one string.
use serde::de::{Deserializer, Visitor};
use serde::ser::{Impossible, Serialize, Serializer};
use std::fmt::{Display, Formatter};

#[derive(Debug)]
pub struct Bad;
impl Display for Bad {
    fn fmt(&self, f: &mut Formatter) -> std::fmt::Result {
        write!(f, "bad")
    }
}
impl std::error::Error for Bad {}
impl serde::ser::Error for Bad {
    fn custom<T: Display>(_: T) -> Self {
        Bad
    }
}
impl serde::de::Error for Bad {
    fn custom<T: Display>(_: T) -> Self {
        Bad
    }
}

pub struct Out;
type I = Impossible<String, Bad>;
type Res = Result<String, Bad>;
macro_rules! no {
    ($($f:ident $t:ty),*) => { $(fn $f(self, _: $t) -> Res { Err(Bad) })* };
}
impl Serializer for Out {
    type Ok = String;
    type Error = Bad;
    type SerializeSeq = I;
    type SerializeTuple = I;
    type SerializeTupleStruct = I;
    type SerializeTupleVariant = I;
    type SerializeMap = I;
    type SerializeStruct = I;
    type SerializeStructVariant = I;
    no!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64,
        serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_f32 f32,
        serialize_f64 f64, serialize_char char, serialize_bytes &[u8]);
    fn serialize_str(self, s: &str) -> Res {
        Ok(s.into())
    }
    fn is_human_readable(&self) -> bool {
        false
    }
    fn serialize_none(self) -> Res {
        Err(Bad)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Res {
        Err(Bad)
    }
    fn serialize_unit(self) -> Res {
        Err(Bad)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Res {
        Err(Bad)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Res {
        Err(Bad)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, x: &T) -> Res {
        // as most formats do: what is inside
        x.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(
        self,
        _: &'static str,
        _: u32,
        _: &'static str,
        _: &T,
    ) -> Res {
        Err(Bad)
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<I, Bad> {
        Err(Bad)
    }
    fn serialize_tuple(self, _: usize) -> Result<I, Bad> {
        Err(Bad)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<I, Bad> {
        Err(Bad)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<I, Bad> {
        Err(Bad)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<I, Bad> {
        Err(Bad)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<I, Bad> {
        Err(Bad)
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<I, Bad> {
        Err(Bad)
    }
}

/// The string, and how it is handed over: 0 borrowed from the input, 1 owned, 2 for the call only.
/// Whatever is asked for, there is a string.
pub struct In<'a>(pub &'a str, pub u8);
impl<'de> Deserializer<'de> for In<'de> {
    type Error = Bad;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
        match self.1 {
            0 => v.visit_borrowed_str(self.0),
            1 => v.visit_string(self.0.to_string()),
            _ => v.visit_str(&self.0.to_string()),
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Bad> {
        v.visit_newtype_struct(self)
    }
    fn is_human_readable(&self) -> bool {
        false
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
