//! Stand-in for serde_json: values and their text, no parsing.
use serde::ser::*;
use std::fmt;
#[derive(Clone, Debug, PartialEq)]
pub enum Value {
    Null,
    Bool(bool),
    Number(i128),
    String(String),
    Array(Vec<Value>),
    Object(Vec<(String, Value)>),
}
#[derive(Debug)]
pub struct Error(String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl serde::ser::Error for Error {
    fn custom<T: fmt::Display>(t: T) -> Error {
        Error(t.to_string())
    }
}
fn text(s: &str, f: &mut fmt::Formatter) -> fmt::Result {
    f.write_str("\"")?;
    for c in s.chars() {
        match c {
            '"' => f.write_str("\\\"")?,
            '\\' => f.write_str("\\\\")?,
            '\n' => f.write_str("\\n")?,
            '\r' => f.write_str("\\r")?,
            '\t' => f.write_str("\\t")?,
            '\u{8}' => f.write_str("\\b")?,
            '\u{c}' => f.write_str("\\f")?,
            c if c < ' ' => write!(f, "\\u{:04x}", c as u32)?,
            c => write!(f, "{c}")?,
        }
    }
    f.write_str("\"")
}
impl fmt::Display for Value {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            Value::Null => f.write_str("null"),
            Value::Bool(b) => write!(f, "{b}"),
            Value::Number(n) => write!(f, "{n}"),
            Value::String(s) => text(s, f),
            Value::Array(v) => {
                f.write_str("[")?;
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        f.write_str(",")?
                    }
                    write!(f, "{x}")?
                }
                f.write_str("]")
            }
            Value::Object(v) => {
                f.write_str("{")?;
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        f.write_str(",")?
                    }
                    text(k, f)?;
                    write!(f, ":{x}")?
                }
                f.write_str("}")
            }
        }
    }
}
impl Serialize for Value {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            Value::Null => s.serialize_unit(),
            Value::Bool(b) => s.serialize_bool(*b),
            Value::Number(n) => s.serialize_i128(*n),
            Value::String(t) => s.serialize_str(t),
            Value::Array(v) => s.collect_seq(v),
            Value::Object(v) => s.collect_map(v.iter().map(|(k, v)| (k, v))),
        }
    }
}
pub fn to_value<T: Serialize>(t: T) -> Result<Value, Error> {
    t.serialize(S)
}
struct S;
struct Seq(Vec<Value>, Option<&'static str>);
struct Map(Vec<(String, Value)>, Option<String>, Option<&'static str>);
fn wrap(n: Option<&'static str>, v: Value) -> Value {
    match n {
        Some(n) => Value::Object(vec![(n.into(), v)]),
        None => v,
    }
}
macro_rules! num { ($($f:ident $t:ty),*) => { $(fn $f(self, v: $t) -> Result<Value, Error> { Ok(Value::Number(v as i128)) })* } }
impl Serializer for S {
    type Ok = Value;
    type Error = Error;
    type SerializeSeq = Seq;
    type SerializeTuple = Seq;
    type SerializeTupleStruct = Seq;
    type SerializeTupleVariant = Seq;
    type SerializeMap = Map;
    type SerializeStruct = Map;
    type SerializeStructVariant = Map;
    num!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_i128 i128, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64);
    fn serialize_f32(self, _: f32) -> Result<Value, Error> {
        Err(Error("float".into()))
    }
    fn serialize_f64(self, _: f64) -> Result<Value, Error> {
        Err(Error("float".into()))
    }
    fn serialize_bool(self, v: bool) -> Result<Value, Error> {
        Ok(Value::Bool(v))
    }
    fn serialize_char(self, v: char) -> Result<Value, Error> {
        Ok(Value::String(v.into()))
    }
    fn serialize_str(self, v: &str) -> Result<Value, Error> {
        Ok(Value::String(v.into()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<Value, Error> {
        Ok(Value::Array(v.iter().map(|b| Value::Number(*b as i128)).collect()))
    }
    fn serialize_none(self) -> Result<Value, Error> {
        Ok(Value::Null)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<Value, Error> {
        v.serialize(S)
    }
    fn serialize_unit(self) -> Result<Value, Error> {
        Ok(Value::Null)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Value, Error> {
        Ok(Value::Null)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<Value, Error> {
        Ok(Value::String(v.into()))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<Value, Error> {
        v.serialize(S)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> Result<Value, Error> {
        Ok(wrap(Some(n), v.serialize(S)?))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Seq, Error> {
        Ok(Seq(vec![], None))
    }
    fn serialize_tuple(self, _: usize) -> Result<Seq, Error> {
        Ok(Seq(vec![], None))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Seq, Error> {
        Ok(Seq(vec![], None))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Seq, Error> {
        Ok(Seq(vec![], Some(n)))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Map, Error> {
        Ok(Map(vec![], None, None))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Map, Error> {
        Ok(Map(vec![], None, None))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Map, Error> {
        Ok(Map(vec![], None, Some(n)))
    }
}
macro_rules! seq { ($($t:ident $f:ident),*) => { $(impl $t for Seq {
    type Ok = Value;
    type Error = Error;
    fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> { self.0.push(v.serialize(S)?); Ok(()) }
    fn end(self) -> Result<Value, Error> { Ok(wrap(self.1, Value::Array(self.0))) }
})* } }
seq!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
impl SerializeMap for Map {
    type Ok = Value;
    type Error = Error;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<(), Error> {
        self.1 = Some(match k.serialize(S)? {
            Value::String(s) => s,
            v => v.to_string(),
        });
        Ok(())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> {
        let k = self.1.take().ok_or(Error("no key".into()))?;
        self.0.push((k, v.serialize(S)?));
        Ok(())
    }
    fn end(self) -> Result<Value, Error> {
        Ok(Value::Object(self.0))
    }
}
macro_rules! map { ($($t:ident),*) => { $(impl $t for Map {
    type Ok = Value;
    type Error = Error;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), Error> { self.0.push((k.into(), v.serialize(S)?)); Ok(()) }
    fn end(self) -> Result<Value, Error> { Ok(wrap(self.2, Value::Object(self.0))) }
})* } }
map!(SerializeStruct, SerializeStructVariant);
pub mod value { pub use super::Value; }
