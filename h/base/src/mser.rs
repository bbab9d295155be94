//! A minimal self-describing serde format (values as a tree), enough for expression trees.
use serde::de::{self, DeserializeSeed, EnumAccess, IntoDeserializer, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Impossible, SerializeSeq, SerializeTuple};
use serde::{Deserialize, Serialize};
#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    U(u64),
    Bytes(Vec<u8>),
    Str(String),
    Seq(Vec<Val>),
    Variant(u32, &'static str, Option<Box<Val>>),
}
pub type E = de::value::Error;
fn unsup<T>(w: &str) -> Result<T, E> {
    Err(de::Error::custom(format!("unsupported {w}")))
}
pub struct Ser;
pub struct SeqSer(Vec<Val>);
impl SerializeSeq for SeqSer {
    type Ok = Val;
    type Error = E;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        self.0.push(v.serialize(Ser)?);
        Ok(())
    }
    fn end(self) -> Result<Val, E> {
        Ok(Val::Seq(self.0))
    }
}
impl SerializeTuple for SeqSer {
    type Ok = Val;
    type Error = E;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        self.0.push(v.serialize(Ser)?);
        Ok(())
    }
    fn end(self) -> Result<Val, E> {
        Ok(Val::Seq(self.0))
    }
}
macro_rules! uns { ($($f:ident: $t:ty),*) => { $(fn $f(self, v: $t) -> Result<Val, E> { Ok(Val::U(v as u64)) })* } }
macro_rules! nos { ($($f:ident: $t:ty),*) => { $(fn $f(self, _v: $t) -> Result<Val, E> { unsup(stringify!($f)) })* } }
impl ser::Serializer for Ser {
    type Ok = Val;
    type Error = E;
    type SerializeSeq = SeqSer;
    type SerializeTuple = SeqSer;
    type SerializeTupleStruct = Impossible<Val, E>;
    type SerializeTupleVariant = Impossible<Val, E>;
    type SerializeMap = Impossible<Val, E>;
    type SerializeStruct = Impossible<Val, E>;
    type SerializeStructVariant = Impossible<Val, E>;
    uns!(serialize_u8: u8, serialize_u16: u16, serialize_u32: u32, serialize_u64: u64);
    nos!(serialize_bool: bool, serialize_i8: i8, serialize_i16: i16, serialize_i32: i32, serialize_i64: i64, serialize_f32: f32, serialize_f64: f64, serialize_char: char, serialize_unit_struct: &'static str);
    fn serialize_str(self, v: &str) -> Result<Val, E> {
        Ok(Val::Str(v.into()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<Val, E> {
        Ok(Val::Bytes(v.into()))
    }
    fn serialize_none(self) -> Result<Val, E> {
        unsup("none")
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<Val, E> {
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<Val, E> {
        unsup("unit")
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, n: &'static str) -> Result<Val, E> {
        Ok(Val::Variant(i, n, None))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<Val, E> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, i: u32, n: &'static str, v: &T) -> Result<Val, E> {
        Ok(Val::Variant(i, n, Some(Box::new(v.serialize(Ser)?))))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<SeqSer, E> {
        Ok(SeqSer(vec![]))
    }
    fn serialize_tuple(self, _: usize) -> Result<SeqSer, E> {
        Ok(SeqSer(vec![]))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, E> {
        unsup("tuple struct")
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, E> {
        unsup("tuple variant")
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, E> {
        unsup("map")
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, E> {
        unsup("struct")
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, E> {
        unsup("struct variant")
    }
}
/// Reads a tree back; variants are identified by index or by name.
pub struct De(pub Val, pub bool);
struct Seq(std::vec::IntoIter<Val>, bool);
impl<'de> SeqAccess<'de> for Seq {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        self.0.next().map(|v| s.deserialize(De(v, self.1))).transpose()
    }
}
pub struct Var(Option<Box<Val>>, bool);
impl<'de> VariantAccess<'de> for Var {
    type Error = E;
    fn unit_variant(self) -> Result<(), E> {
        Ok(())
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<T::Value, E> {
        match self.0 {
            Some(v) => s.deserialize(De(*v, self.1)),
            None => unsup("missing"),
        }
    }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, _: V) -> Result<V::Value, E> {
        unsup("tuple variant")
    }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], _: V) -> Result<V::Value, E> {
        unsup("struct variant")
    }
}
impl<'de> EnumAccess<'de> for De {
    type Error = E;
    type Variant = Var;
    fn variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<(T::Value, Var), E> {
        match self.0 {
            Val::Variant(i, n, v) => {
                let id = if self.1 {
                    s.deserialize(IntoDeserializer::<E>::into_deserializer(n))?
                } else {
                    s.deserialize(IntoDeserializer::<E>::into_deserializer(i))?
                };
                Ok((id, Var(v, self.1)))
            }
            _ => unsup("not a variant"),
        }
    }
}
impl<'de> de::Deserializer<'de> for De {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        match self.0 {
            Val::U(u) => v.visit_u64(u),
            Val::Bytes(b) => v.visit_byte_buf(b),
            Val::Str(s) => v.visit_string(s),
            Val::Seq(s) => v.visit_seq(Seq(s.into_iter(), self.1)),
            Val::Variant(..) => v.visit_enum(self),
        }
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
pub fn to<T: Serialize>(v: &T) -> Result<Val, String> {
    v.serialize(Ser).map_err(|e| e.to_string())
}
pub fn from<T: for<'a> Deserialize<'a>>(v: Val, by_name: bool) -> Option<T> {
    T::deserialize(De(v, by_name)).ok()
}
