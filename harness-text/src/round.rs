//! Serialized quantities (C23), and stand-ins for the serde formats around them.
use crate::read::*;
use crate::shown;
use crate::sym::*;
use crate::ty::*;
use serde::de::value::Error as DeError;
use serde::ser::{Impossible, Serialize, SerializeMap, Serializer};

/// a field of a serde map
#[derive(Clone)]
pub enum Val {
    Num(f64),
    Text(String),
    Flag,
}
impl<'de> serde::de::IntoDeserializer<'de, DeError> for Val {
    type Deserializer = Self;
    fn into_deserializer(self) -> Self {
        self
    }
}
impl<'de> serde::Deserializer<'de> for Val {
    type Error = DeError;
    fn deserialize_any<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, DeError> {
        match self {
            Val::Num(x) => v.visit_f64(x),
            Val::Text(s) => v.visit_string(s),
            Val::Flag => v.visit_bool(true),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

/// a serializer that takes a map of a number and a text
struct Top;
#[derive(Default)]
struct Map {
    key: String,
    value: Option<f64>,
    unit: Option<String>,
}
enum Leaf {
    Num(f64),
    Text(String),
}
struct One;
macro_rules! no {
    ($($f:ident($($t:ty),*);)*) => { $(fn $f(self, $(_: $t),*) -> Result<Self::Ok, DeError> { Err(serde::de::Error::custom("unexpected")) })* };
}
macro_rules! common {
    () => {
        type Error = DeError;
        type SerializeSeq = Impossible<Self::Ok, DeError>;
        type SerializeTuple = Impossible<Self::Ok, DeError>;
        type SerializeTupleStruct = Impossible<Self::Ok, DeError>;
        type SerializeTupleVariant = Impossible<Self::Ok, DeError>;
        type SerializeStructVariant = Impossible<Self::Ok, DeError>;
        no! {
            serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64);
            serialize_u8(u8); serialize_u16(u16); serialize_u32(u32); serialize_u64(u64);
            serialize_char(char); serialize_bytes(&[u8]);
            serialize_none(); serialize_unit(); serialize_unit_struct(&'static str);
            serialize_unit_variant(&'static str, u32, &'static str);
        }
        fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<Self::Ok, DeError> { fail() }
        fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<Self::Ok, DeError> { fail() }
        fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Self::Ok, DeError> { fail() }
        fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, DeError> { fail() }
        fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, DeError> { fail() }
        fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, DeError> { fail() }
        fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, DeError> { fail() }
        fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, DeError> { fail() }
    };
}
fn fail<T>() -> Result<T, DeError> {
    Err(serde::de::Error::custom("unexpected"))
}
impl Serializer for One {
    type Ok = Leaf;
    type SerializeMap = Impossible<Leaf, DeError>;
    type SerializeStruct = Impossible<Leaf, DeError>;
    common! {}
    fn serialize_f32(self, v: f32) -> Result<Leaf, DeError> {
        Ok(Leaf::Num(v as f64))
    }
    fn serialize_f64(self, v: f64) -> Result<Leaf, DeError> {
        Ok(Leaf::Num(v))
    }
    fn serialize_str(self, v: &str) -> Result<Leaf, DeError> {
        Ok(Leaf::Text(v.into()))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, DeError> {
        fail()
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, DeError> {
        fail()
    }
}
impl Serializer for Top {
    type Ok = Map;
    type SerializeMap = Map;
    type SerializeStruct = Map;
    common! {}
    no! { serialize_f32(f32); serialize_f64(f64); serialize_str(&str); }
    fn serialize_map(self, _: Option<usize>) -> Result<Map, DeError> {
        Ok(Map::default())
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Map, DeError> {
        Ok(Map::default())
    }
}
impl Map {
    fn put(&mut self, l: Leaf) -> Result<(), DeError> {
        match (self.key.as_str(), l) {
            ("value", Leaf::Num(v)) if self.value.is_none() => self.value = Some(v),
            ("unit", Leaf::Text(s)) if self.unit.is_none() => self.unit = Some(s),
            _ => return fail(),
        }
        Ok(())
    }
}
impl SerializeMap for Map {
    type Ok = Map;
    type Error = DeError;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<(), DeError> {
        match k.serialize(One)? {
            Leaf::Text(s) => self.key = s,
            _ => return fail(),
        }
        Ok(())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), DeError> {
        let l = v.serialize(One)?;
        self.put(l)
    }
    fn end(self) -> Result<Map, DeError> {
        Ok(self)
    }
}
impl serde::ser::SerializeStruct for Map {
    type Ok = Map;
    type Error = DeError;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), DeError> {
        self.key = k.into();
        let l = v.serialize(One)?;
        self.put(l)
    }
    fn end(self) -> Result<Map, DeError> {
        Ok(self)
    }
}
/// the number and the unit text a quantity is serialized as
pub fn capture<T: Serialize>(q: &T) -> Option<(f64, String)> {
    let m = q.serialize(Top).ok()?;
    Some((m.value?, m.unit?))
}

/// written by one type, read by every type of its dimension and by one of another: params block, of
pub fn h_round() {
    let n = TYPES.len();
    let (b, of) = (param(0) as usize, param(1) as usize);
    let v = number("v");
    for i in b * n / of..(b + 1) * n / of {
        let t = &TYPES[i];
        let Some((x, u)) = (t.ser)(v) else {
            check(false, "writes");
            continue;
        };
        for j in [i, i ^ 1] {
            let r = &TYPES[j];
            let want = v * (t.si() / r.si());
            match (r.de)(vec![("value", Val::Num(x)), ("unit", Val::Text(u.clone()))]) {
                Some(y) => close(y, want, 1e-12, ABS, "same-value"),
                None => check(false, "reads-back"),
            }
            match (r.read)(x, &u) {
                Some(y) => close(y, want, 1e-12, ABS, "same-value"),
                None => check(false, "reads-back"),
            }
        }
        let o = &TYPES[other(i)];
        check((o.de)(vec![("unit", Val::Text(u)), ("value", Val::Num(x))]).is_none(), "other-dimension-refused");
    }
    witness(v < -1.5, "negative");
}
/// the JSON text of `serialize_to_json`: an object of a number and a text, and nothing else
pub fn h_json_text() {
    shown::begin();
    let n = TYPES.len();
    let (b, of) = (param(0) as usize, param(1) as usize);
    let v = number("v");
    for i in b * n / of..(b + 1) * n / of {
        unsafe { shown::COUNT = 0 }
        let t = &TYPES[i];
        let Some(s) = (t.json)(v) else {
            check(false, "writes");
            continue;
        };
        let mut r: &str = &s;
        let mut num = None;
        let mut unit = None;
        check(r.starts_with('{') && r.ends_with('}'), "object");
        r = &r[1..];
        for _ in 0..2 {
            if let Some(q) = r.strip_prefix("\"value\":") {
                num = Some(q);
                let mut k = 0;
                while q.as_bytes()[k] != b',' && q.as_bytes()[k] != b'}' {
                    k += 1;
                }
                r = &q[k + 1..];
            } else if let Some(q) = r.strip_prefix("\"unit\":\"") {
                let mut k = 0;
                while q.as_bytes()[k] != b'"' {
                    k += 1;
                }
                unit = Some(&q[..k]);
                r = &q[k + 2..];
            }
        }
        check(r.is_empty(), "object");
        let (Some(num), Some(unit)) = (num, unit) else {
            check(false, "value-and-unit");
            continue;
        };
        // one of the written unit, in the type's own unit
        match (t.read)(1.0, unit) {
            Some(k) => {
                shown::number(num, v / k, None, 1e-12, ABS, "same-value");
            }
            None => check(false, "reads-back"),
        }
        check((TYPES[other(i)].read)(1.0, unit).is_none(), "other-dimension-refused");
    }
}
