//! Stand-in for neon-serde (not in the offline cache): serde over JavaScript values.
//! Contract: whole numbers are read as integers and others as floating point, undefined and null as nothing,
//! every number is written as a JavaScript number, structures as objects in the order of their fields.
pub mod errors {
    use std::fmt;
    #[derive(Debug)]
    pub enum Error {
        Js(neon::result::Throw),
        Msg(String),
    }
    pub type Result<T> = std::result::Result<T, Error>;
    impl fmt::Display for Error {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            match self {
                Error::Js(t) => f.write_str(&t.0),
                Error::Msg(s) => f.write_str(s),
            }
        }
    }
    impl std::error::Error for Error {}
    impl From<neon::result::Throw> for Error {
        fn from(t: neon::result::Throw) -> Self {
            Error::Js(t)
        }
    }
    impl serde::de::Error for Error {
        #[inline(never)]
        fn custom<T: fmt::Display>(_: T) -> Self {
            Error::Msg("not of the expected form".to_owned())
        }
        #[inline(never)]
        fn invalid_type(_: serde::de::Unexpected, _: &dyn serde::de::Expected) -> Self {
            Error::Msg("invalid type".to_owned())
        }
        #[inline(never)]
        fn invalid_value(_: serde::de::Unexpected, _: &dyn serde::de::Expected) -> Self {
            Error::Msg("invalid value".to_owned())
        }
        #[inline(never)]
        fn invalid_length(_: usize, _: &dyn serde::de::Expected) -> Self {
            Error::Msg("invalid length".to_owned())
        }
        #[inline(never)]
        fn unknown_variant(_: &str, _: &'static [&'static str]) -> Self {
            Error::Msg("unknown variant".to_owned())
        }
        #[inline(never)]
        fn unknown_field(_: &str, _: &'static [&'static str]) -> Self {
            Error::Msg("unknown field".to_owned())
        }
        #[inline(never)]
        fn missing_field(_: &'static str) -> Self {
            Error::Msg("missing field".to_owned())
        }
        #[inline(never)]
        fn duplicate_field(_: &'static str) -> Self {
            Error::Msg("duplicate field".to_owned())
        }
    }
    impl serde::ser::Error for Error {
        #[inline(never)]
        fn custom<T: fmt::Display>(_: T) -> Self {
            Error::Msg("cannot be written".to_owned())
        }
    }
}
use errors::{Error, Result};
use neon::prelude::*;
use neon::{val, JsType, Kind, V};
use serde::de::{self, DeserializeOwned, DeserializeSeed, Visitor};
use serde::ser::{self, Serialize};

pub fn from_value<'j, C: Context<'j>, T: DeserializeOwned + ?Sized>(_: &mut C, v: Handle<'j, JsValue>) -> Result<T> {
    T::deserialize(De(v.raw()))
}
pub fn from_value_opt<'j, C: Context<'j>, T: DeserializeOwned + ?Sized>(_: &mut C, v: Option<Handle<'j, JsValue>>) -> Result<T> {
    match v {
        Some(v) => T::deserialize(De(v.raw())),
        None => T::deserialize(De(val(Kind::Undefined))),
    }
}
pub fn to_value<'j, C: Context<'j>, T: Serialize + ?Sized>(_: &mut C, t: &T) -> Result<Handle<'j, JsValue>> {
    Ok(Handle::of(t.serialize(Ser)?))
}

struct De(V);
impl<'de> de::Deserializer<'de> for De {
    type Error = Error;
    fn deserialize_any<W: Visitor<'de>>(self, w: W) -> Result<W::Value> {
        match &*self.0.kind.borrow() {
            Kind::Undefined | Kind::Null => w.visit_unit(),
            Kind::Boolean(b) => w.visit_bool(*b),
            Kind::Str(s) => w.visit_string(s.clone()),
            Kind::Number(x) => {
                let x = *x;
                if x.trunc() == x {
                    w.visit_i64(x as i64)
                } else {
                    w.visit_f64(x)
                }
            }
            Kind::Array(a) => w.visit_seq(Seq(a, 0)),
            Kind::Object(o) => w.visit_map(Map(o, 0)),
            Kind::Instance(_) => w.visit_map(Map(&[], 0)),
            Kind::Buffer(..) | Kind::Callback(_) | Kind::Function(_) | Kind::Constructor(_) => {
                Err(Error::Msg("not implemented".to_owned()))
            }
        }
    }
    fn deserialize_option<W: Visitor<'de>>(self, w: W) -> Result<W::Value> {
        let none = match &*self.0.kind.borrow() {
            Kind::Undefined | Kind::Null => true,
            _ => false,
        };
        if none {
            w.visit_none()
        } else {
            w.visit_some(self)
        }
    }
    fn deserialize_newtype_struct<W: Visitor<'de>>(self, _: &'static str, w: W) -> Result<W::Value> {
        w.visit_newtype_struct(self)
    }
    fn deserialize_enum<W: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], w: W) -> Result<W::Value> {
        match &*self.0.kind.borrow() {
            Kind::Str(s) => w.visit_enum(Enum(s.clone(), None)),
            Kind::Object(o) if o.len() == 1 => w.visit_enum(Enum(o[0].0.clone(), Some(o[0].1))),
            _ => Err(Error::Msg("not a variant".to_owned())),
        }
    }
    fn deserialize_bytes<W: Visitor<'de>>(self, _: W) -> Result<W::Value> {
        Err(Error::Msg("not implemented".to_owned()))
    }
    fn deserialize_byte_buf<W: Visitor<'de>>(self, _: W) -> Result<W::Value> {
        Err(Error::Msg("not implemented".to_owned()))
    }
    fn deserialize_ignored_any<W: Visitor<'de>>(self, w: W) -> Result<W::Value> {
        w.visit_unit()
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string unit unit_struct seq tuple tuple_struct map struct
        identifier
    }
}

struct Seq<'s>(&'s [V], usize);
impl<'de, 's> de::SeqAccess<'de> for Seq<'s> {
    type Error = Error;
    fn next_element_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>> {
        if self.1 >= self.0.len() {
            return Ok(None);
        }
        let v = self.0[self.1];
        self.1 += 1;
        s.deserialize(De(v)).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.0.len() - self.1)
    }
}
struct Map<'s>(&'s [(String, V)], usize);
impl<'de, 's> de::MapAccess<'de> for Map<'s> {
    type Error = Error;
    fn next_key_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>> {
        if self.1 >= self.0.len() {
            return Ok(None);
        }
        let k = de::value::StrDeserializer::<Error>::new(&self.0[self.1].0);
        s.deserialize(k).map(Some)
    }
    fn next_value_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<S::Value> {
        let v = self.0[self.1].1;
        self.1 += 1;
        s.deserialize(De(v))
    }
}
struct Enum(String, Option<V>);
impl<'de> de::EnumAccess<'de> for Enum {
    type Error = Error;
    type Variant = Variant;
    fn variant_seed<S: DeserializeSeed<'de>>(self, s: S) -> Result<(S::Value, Variant)> {
        let k = de::value::StrDeserializer::<Error>::new(&self.0);
        Ok((s.deserialize(k)?, Variant(self.1)))
    }
}
struct Variant(Option<V>);
impl<'de> de::VariantAccess<'de> for Variant {
    type Error = Error;
    fn unit_variant(self) -> Result<()> {
        match self.0 {
            None => Ok(()),
            Some(_) => Err(Error::Msg("unexpected content".to_owned())),
        }
    }
    fn newtype_variant_seed<S: DeserializeSeed<'de>>(self, s: S) -> Result<S::Value> {
        match self.0 {
            Some(v) => s.deserialize(De(v)),
            None => Err(Error::Msg("missing content".to_owned())),
        }
    }
    fn tuple_variant<W: Visitor<'de>>(self, _: usize, w: W) -> Result<W::Value> {
        match self.0 {
            Some(v) => de::Deserializer::deserialize_any(De(v), w),
            None => Err(Error::Msg("missing content".to_owned())),
        }
    }
    fn struct_variant<W: Visitor<'de>>(self, _: &'static [&'static str], w: W) -> Result<W::Value> {
        match self.0 {
            Some(v) => de::Deserializer::deserialize_any(De(v), w),
            None => Err(Error::Msg("missing content".to_owned())),
        }
    }
}

#[derive(Clone, Copy)]
struct Ser;
struct Items(Vec<V>, Option<&'static str>);
struct Fields(Vec<(String, V)>, Option<String>, Option<&'static str>);
fn num(x: f64) -> Result<V> {
    Ok(val(Kind::Number(x)))
}
fn wrapped(v: V, name: Option<&'static str>) -> V {
    match name {
        Some(n) => val(Kind::Object(vec![(n.to_owned(), v)])),
        None => v,
    }
}
impl ser::Serializer for Ser {
    type Ok = V;
    type Error = Error;
    type SerializeSeq = Items;
    type SerializeTuple = Items;
    type SerializeTupleStruct = Items;
    type SerializeTupleVariant = Items;
    type SerializeMap = Fields;
    type SerializeStruct = Fields;
    type SerializeStructVariant = Fields;
    fn serialize_bool(self, x: bool) -> Result<V> {
        Ok(val(Kind::Boolean(x)))
    }
    fn serialize_i8(self, x: i8) -> Result<V> {
        num(x as f64)
    }
    fn serialize_i16(self, x: i16) -> Result<V> {
        num(x as f64)
    }
    fn serialize_i32(self, x: i32) -> Result<V> {
        num(x as f64)
    }
    fn serialize_i64(self, x: i64) -> Result<V> {
        num(x as f64)
    }
    fn serialize_u8(self, x: u8) -> Result<V> {
        num(x as f64)
    }
    fn serialize_u16(self, x: u16) -> Result<V> {
        num(x as f64)
    }
    fn serialize_u32(self, x: u32) -> Result<V> {
        num(x as f64)
    }
    fn serialize_u64(self, x: u64) -> Result<V> {
        num(x as f64)
    }
    fn serialize_f32(self, x: f32) -> Result<V> {
        num(x as f64)
    }
    fn serialize_f64(self, x: f64) -> Result<V> {
        num(x)
    }
    fn serialize_char(self, c: char) -> Result<V> {
        Ok(val(Kind::Str(c.to_string())))
    }
    fn serialize_str(self, s: &str) -> Result<V> {
        Ok(val(Kind::Str(s.to_owned())))
    }
    fn serialize_bytes(self, _: &[u8]) -> Result<V> {
        Err(Error::Msg("not implemented".to_owned()))
    }
    fn serialize_none(self) -> Result<V> {
        Ok(val(Kind::Null))
    }
    fn serialize_some<T: Serialize + ?Sized>(self, t: &T) -> Result<V> {
        t.serialize(self)
    }
    fn serialize_unit(self) -> Result<V> {
        Ok(val(Kind::Null))
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<V> {
        Ok(val(Kind::Null))
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, n: &'static str) -> Result<V> {
        Ok(val(Kind::Str(n.to_owned())))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, t: &T) -> Result<V> {
        t.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, n: &'static str, t: &T) -> Result<V> {
        Ok(wrapped(t.serialize(self)?, Some(n)))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Items> {
        Ok(Items(Vec::new(), None))
    }
    fn serialize_tuple(self, _: usize) -> Result<Items> {
        Ok(Items(Vec::new(), None))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Items> {
        Ok(Items(Vec::new(), None))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Items> {
        Ok(Items(Vec::new(), Some(n)))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Fields> {
        Ok(Fields(Vec::new(), None, None))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Fields> {
        Ok(Fields(Vec::new(), None, None))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Fields> {
        Ok(Fields(Vec::new(), None, Some(n)))
    }
}
impl Items {
    fn add<T: Serialize + ?Sized>(&mut self, t: &T) -> Result<()> {
        self.0.push(t.serialize(Ser)?);
        Ok(())
    }
    fn done(self) -> Result<V> {
        Ok(wrapped(val(Kind::Array(self.0)), self.1))
    }
}
impl Fields {
    fn add<T: Serialize + ?Sized>(&mut self, k: &'static str, t: &T) -> Result<()> {
        self.0.push((k.to_owned(), t.serialize(Ser)?));
        Ok(())
    }
    fn done(self) -> Result<V> {
        Ok(wrapped(val(Kind::Object(self.0)), self.2))
    }
}
macro_rules! items {
    ($($t:ident $f:ident;)*) => {$(
        impl ser::$t for Items {
            type Ok = V;
            type Error = Error;
            fn $f<T: Serialize + ?Sized>(&mut self, t: &T) -> Result<()> {
                self.add(t)
            }
            fn end(self) -> Result<V> {
                self.done()
            }
        }
    )*};
}
items! {
    SerializeSeq serialize_element;
    SerializeTuple serialize_element;
    SerializeTupleStruct serialize_field;
    SerializeTupleVariant serialize_field;
}
macro_rules! fields {
    ($($t:ident)*) => {$(
        impl ser::$t for Fields {
            type Ok = V;
            type Error = Error;
            fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, t: &T) -> Result<()> {
                self.add(k, t)
            }
            fn end(self) -> Result<V> {
                self.done()
            }
        }
    )*};
}
fields! { SerializeStruct SerializeStructVariant }
impl ser::SerializeMap for Fields {
    type Ok = V;
    type Error = Error;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<()> {
        let k = k.serialize(Ser)?;
        let k = match &*k.kind.borrow() {
            Kind::Str(s) => s.clone(),
            Kind::Number(x) => (*x as i64).to_string(),
            _ => return Err(Error::Msg("not a key".to_owned())),
        };
        self.1 = Some(k);
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, t: &T) -> Result<()> {
        let v = t.serialize(Ser)?;
        match self.1.take() {
            Some(k) => {
                self.0.push((k, v));
                Ok(())
            }
            None => Err(Error::Msg("a value without a key".to_owned())),
        }
    }
    fn end(self) -> Result<V> {
        self.done()
    }
}
