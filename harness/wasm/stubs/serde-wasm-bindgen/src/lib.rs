//! Conversion between Rust and the stand-in JavaScript values, following serde-wasm-bindgen 0.6:
//! numbers are doubles, 64-bit integers must be safe integers, None and unit are undefined, missing
//! and null both read as None.
use serde::de::value::{MapDeserializer, SeqDeserializer};
use serde::de::{self, IntoDeserializer, Visitor};
use serde::ser::{self, Serialize};
use wasm_bindgen::JsValue;

const SAFE: f64 = 9007199254740991.0;

#[derive(Debug, Clone)]
pub struct Error(String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl de::Error for Error {
    fn custom<T: std::fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}
impl ser::Error for Error {
    fn custom<T: std::fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}
impl From<Error> for JsValue {
    fn from(e: Error) -> JsValue {
        JsValue::Text(e.0)
    }
}
pub type Result<T = JsValue> = core::result::Result<T, Error>;

pub fn to_value<T: Serialize + ?Sized>(v: &T) -> Result {
    v.serialize(S)
}
pub fn from_value<T: de::DeserializeOwned>(v: JsValue) -> Result<T> {
    T::deserialize(D(v))
}

// ---------------------------------------------------------------- out

struct S;
struct Seq(Vec<JsValue>, Option<&'static str>);
struct Map(Vec<(String, JsValue)>, Option<String>, Option<&'static str>);

fn wrap(name: Option<&'static str>, v: JsValue) -> JsValue {
    match name {
        Some(n) => JsValue::Object(vec![(n.to_string(), v)]),
        None => v,
    }
}

macro_rules! num {
    ($($f:ident $t:ty),*) => {$(fn $f(self, v: $t) -> Result { Ok(JsValue::Number(v as f64)) })*};
}
macro_rules! big {
    ($($f:ident $t:ty),*) => {$(fn $f(self, v: $t) -> Result {
        if (v as f64).abs() <= SAFE { Ok(JsValue::Number(v as f64)) } else { Err(Error(format!("{v} can't be represented as a JavaScript number"))) }
    })*};
}

impl ser::Serializer for S {
    type Ok = JsValue;
    type Error = Error;
    type SerializeSeq = Seq;
    type SerializeTuple = Seq;
    type SerializeTupleStruct = Seq;
    type SerializeTupleVariant = Seq;
    type SerializeMap = Map;
    type SerializeStruct = Map;
    type SerializeStructVariant = Map;
    num!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_f32 f32, serialize_f64 f64);
    big!(serialize_i64 i64, serialize_u64 u64);
    fn serialize_bool(self, v: bool) -> Result {
        Ok(JsValue::Bool(v))
    }
    fn serialize_char(self, v: char) -> Result {
        Ok(JsValue::Text(v.to_string()))
    }
    fn serialize_str(self, v: &str) -> Result {
        Ok(JsValue::Text(v.to_string()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result {
        Ok(JsValue::Array(v.iter().map(|b| JsValue::Number(*b as f64)).collect()))
    }
    fn serialize_none(self) -> Result {
        Ok(JsValue::Undefined)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result {
        v.serialize(S)
    }
    fn serialize_unit(self) -> Result {
        Ok(JsValue::Undefined)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result {
        Ok(JsValue::Undefined)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result {
        Ok(JsValue::Text(v.to_string()))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result {
        v.serialize(S)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> Result {
        Ok(wrap(Some(n), v.serialize(S)?))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Seq> {
        Ok(Seq(vec![], None))
    }
    fn serialize_tuple(self, _: usize) -> Result<Seq> {
        Ok(Seq(vec![], None))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Seq> {
        Ok(Seq(vec![], None))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Seq> {
        Ok(Seq(vec![], Some(n)))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Map> {
        Ok(Map(vec![], None, None))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Map> {
        Ok(Map(vec![], None, None))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Map> {
        Ok(Map(vec![], None, Some(n)))
    }
}
impl Seq {
    fn push<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<()> {
        self.0.push(v.serialize(S)?);
        Ok(())
    }
    fn done(self) -> Result {
        Ok(wrap(self.1, JsValue::Array(self.0)))
    }
}
impl ser::SerializeSeq for Seq {
    type Ok = JsValue;
    type Error = Error;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<()> {
        self.push(v)
    }
    fn end(self) -> Result {
        self.done()
    }
}
impl ser::SerializeTuple for Seq {
    type Ok = JsValue;
    type Error = Error;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<()> {
        self.push(v)
    }
    fn end(self) -> Result {
        self.done()
    }
}
impl ser::SerializeTupleStruct for Seq {
    type Ok = JsValue;
    type Error = Error;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<()> {
        self.push(v)
    }
    fn end(self) -> Result {
        self.done()
    }
}
impl ser::SerializeTupleVariant for Seq {
    type Ok = JsValue;
    type Error = Error;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<()> {
        self.push(v)
    }
    fn end(self) -> Result {
        self.done()
    }
}
impl ser::SerializeMap for Map {
    type Ok = JsValue;
    type Error = Error;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<()> {
        match k.serialize(S)? {
            JsValue::Text(s) => self.1 = Some(s),
            k => return Err(Error(format!("map key {k:?} is not a string"))),
        }
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<()> {
        let k = self.1.take().expect("key first");
        self.0.push((k, v.serialize(S)?));
        Ok(())
    }
    fn end(self) -> Result {
        Ok(JsValue::Object(self.0))
    }
}
impl ser::SerializeStruct for Map {
    type Ok = JsValue;
    type Error = Error;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<()> {
        self.0.push((k.to_string(), v.serialize(S)?));
        Ok(())
    }
    fn end(self) -> Result {
        Ok(JsValue::Object(self.0))
    }
}
impl ser::SerializeStructVariant for Map {
    type Ok = JsValue;
    type Error = Error;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<()> {
        self.0.push((k.to_string(), v.serialize(S)?));
        Ok(())
    }
    fn end(self) -> Result {
        Ok(wrap(self.2, JsValue::Object(self.0)))
    }
}

// ---------------------------------------------------------------- in

struct D(JsValue);
impl<'de> IntoDeserializer<'de, Error> for D {
    type Deserializer = D;
    fn into_deserializer(self) -> D {
        self
    }
}
impl D {
    fn bad<'de, V: Visitor<'de>>(self, v: V) -> Result<V::Value> {
        let s;
        let u = match &self.0 {
            JsValue::Undefined | JsValue::Null => de::Unexpected::Unit,
            JsValue::Bool(b) => de::Unexpected::Bool(*b),
            JsValue::Number(x) => de::Unexpected::Float(*x),
            JsValue::Text(t) => de::Unexpected::Str(t),
            o => {
                s = format!("{o:?}");
                de::Unexpected::Other(&s)
            }
        };
        Err(de::Error::invalid_type(u, &v))
    }
    fn safe(&self) -> Option<i64> {
        match self.0 {
            JsValue::Number(v) if v.fract() == 0.0 && v.abs() <= SAFE => Some(v as i64),
            _ => None,
        }
    }
}
macro_rules! signed {
    ($($f:ident)*) => {$(fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value> {
        match self.safe() { Some(i) => v.visit_i64(i), None => self.bad(v) }
    })*};
}
macro_rules! unsigned {
    ($($f:ident)*) => {$(fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value> {
        match self.safe() { Some(i) if i >= 0 => v.visit_u64(i as u64), _ => self.bad(v) }
    })*};
}
impl<'de> de::Deserializer<'de> for D {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value> {
        match self.0 {
            JsValue::Undefined | JsValue::Null => v.visit_unit(),
            JsValue::Bool(b) => v.visit_bool(b),
            JsValue::Number(x) => match self.safe() {
                Some(i) => v.visit_i64(i),
                None => v.visit_f64(x),
            },
            JsValue::Text(t) => v.visit_string(t),
            JsValue::Array(_) => self.deserialize_seq(v),
            JsValue::Object(_) => self.deserialize_map(v),
        }
    }
    signed!(deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64);
    unsigned!(deserialize_u8 deserialize_u16 deserialize_u32 deserialize_u64);
    fn deserialize_unit<V: Visitor<'de>>(self, v: V) -> Result<V::Value> {
        match self.0 {
            JsValue::Undefined | JsValue::Null => v.visit_unit(),
            _ => self.bad(v),
        }
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value> {
        self.deserialize_unit(v)
    }
    fn deserialize_bool<V: Visitor<'de>>(self, v: V) -> Result<V::Value> {
        match self.0 {
            JsValue::Bool(b) => v.visit_bool(b),
            _ => self.bad(v),
        }
    }
    fn deserialize_f32<V: Visitor<'de>>(self, v: V) -> Result<V::Value> {
        self.deserialize_f64(v)
    }
    fn deserialize_f64<V: Visitor<'de>>(self, v: V) -> Result<V::Value> {
        match self.0 {
            JsValue::Number(x) => v.visit_f64(x),
            _ => self.bad(v),
        }
    }
    fn deserialize_char<V: Visitor<'de>>(self, v: V) -> Result<V::Value> {
        match &self.0 {
            JsValue::Text(t) if t.chars().count() == 1 => v.visit_char(t.chars().next().unwrap()),
            _ => self.bad(v),
        }
    }
    fn deserialize_identifier<V: Visitor<'de>>(self, v: V) -> Result<V::Value> {
        self.deserialize_string(v)
    }
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Result<V::Value> {
        self.deserialize_string(v)
    }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Result<V::Value> {
        match self.0 {
            JsValue::Text(t) => v.visit_string(t),
            _ => self.bad(v),
        }
    }
    fn deserialize_bytes<V: Visitor<'de>>(self, v: V) -> Result<V::Value> {
        self.bad(v)
    }
    fn deserialize_byte_buf<V: Visitor<'de>>(self, v: V) -> Result<V::Value> {
        self.bad(v)
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value> {
        match self.0 {
            JsValue::Undefined | JsValue::Null => v.visit_none(),
            _ => v.visit_some(self),
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value> {
        match self.0 {
            JsValue::Array(a) => v.visit_seq(SeqDeserializer::new(a.into_iter().map(D))),
            _ => self.bad(v),
        }
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value> {
        self.deserialize_seq(v)
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, _: usize, v: V) -> Result<V::Value> {
        self.deserialize_seq(v)
    }
    fn deserialize_map<V: Visitor<'de>>(self, v: V) -> Result<V::Value> {
        match self.0 {
            JsValue::Object(a) => v.visit_map(MapDeserializer::new(a.into_iter().map(|(k, x)| (k, D(x))))),
            _ => self.bad(v),
        }
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value> {
        self.deserialize_map(v)
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value> {
        match self.0 {
            JsValue::Text(t) => v.visit_enum(IntoDeserializer::<Error>::into_deserializer(t)),
            JsValue::Object(a) if a.len() == 1 => v.visit_enum(de::value::MapAccessDeserializer::new(MapDeserializer::new(a.into_iter().map(|(k, x)| (k, D(x)))))),
            _ => self.bad(v),
        }
    }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value> {
        v.visit_unit()
    }
}
