//! A minimal serde format: integers and three-field structures (binary) or
//! text (human readable).
use serde::de::{self, DeserializeSeed, Deserializer, MapAccess, SeqAccess, Visitor};
use serde::ser::{self, Impossible, SerializeStruct, Serializer};
use serde::forward_to_deserialize_any;

#[derive(Debug)]
pub struct E;
impl std::fmt::Display for E {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: std::fmt::Display>(_: T) -> Self {
        E
    }
}
impl de::Error for E {
    fn custom<T: std::fmt::Display>(_: T) -> Self {
        E
    }
    fn invalid_length(_: usize, _: &dyn de::Expected) -> Self {
        E
    }
    fn missing_field(_: &'static str) -> Self {
        E
    }
    fn duplicate_field(_: &'static str) -> Self {
        E
    }
    fn unknown_field(_: &str, _: &'static [&'static str]) -> Self {
        E
    }
    fn invalid_type(_: de::Unexpected, _: &dyn de::Expected) -> Self {
        E
    }
    fn invalid_value(_: de::Unexpected, _: &dyn de::Expected) -> Self {
        E
    }
}

#[derive(Clone, Copy)]
pub struct Fields {
    pub n: usize,
    pub name: [&'static str; 4],
    pub val: [i64; 4],
}
#[derive(Clone)]
pub enum Out {
    I32(i32),
    I64(i64),
    Str(String),
    Struct(Fields),
}

pub struct Bin(pub bool);
pub struct St(Fields);

macro_rules! no {
    ($($f:ident($($t:ty),*);)*) => { $( fn $f(self, $(_: $t),*) -> Result<Out, E> { Err(E) } )* };
}
impl Serializer for Bin {
    type Ok = Out;
    type Error = E;
    type SerializeSeq = Impossible<Out, E>;
    type SerializeTuple = Impossible<Out, E>;
    type SerializeTupleStruct = Impossible<Out, E>;
    type SerializeTupleVariant = Impossible<Out, E>;
    type SerializeMap = Impossible<Out, E>;
    type SerializeStruct = St;
    type SerializeStructVariant = Impossible<Out, E>;
    fn is_human_readable(&self) -> bool {
        self.0
    }
    fn serialize_i32(self, v: i32) -> Result<Out, E> {
        Ok(Out::I32(v))
    }
    fn serialize_i64(self, v: i64) -> Result<Out, E> {
        Ok(Out::I64(v))
    }
    fn serialize_str(self, v: &str) -> Result<Out, E> {
        Ok(Out::Str(v.to_owned()))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<St, E> {
        Ok(St(Fields { n: 0, name: [""; 4], val: [0; 4] }))
    }
    no! { serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_u8(u8); serialize_u16(u16);
    serialize_u32(u32); serialize_u64(u64); serialize_f32(f32); serialize_f64(f64); serialize_char(char);
    serialize_bytes(&[u8]); serialize_none(); serialize_unit(); serialize_unit_struct(&'static str);
    serialize_unit_variant(&'static str, u32, &'static str); }
    fn serialize_some<T: ?Sized + ser::Serialize>(self, _: &T) -> Result<Out, E> {
        Err(E)
    }
    fn serialize_newtype_struct<T: ?Sized + ser::Serialize>(self, _: &'static str, v: &T) -> Result<Out, E> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + ser::Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Out, E> {
        Err(E)
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, E> {
        Err(E)
    }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, E> {
        Err(E)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, E> {
        Err(E)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, E> {
        Err(E)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, E> {
        Err(E)
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, E> {
        Err(E)
    }
    fn collect_str<T: ?Sized + std::fmt::Display>(self, _: &T) -> Result<Out, E> {
        Err(E)
    }
}
impl SerializeStruct for St {
    type Ok = Out;
    type Error = E;
    fn serialize_field<T: ?Sized + ser::Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), E> {
        let v = match v.serialize(Bin(false))? {
            Out::I32(v) => v as i64,
            Out::I64(v) => v,
            _ => return Err(E),
        };
        if self.0.n >= 4 {
            return Err(E);
        }
        self.0.name[self.0.n] = k;
        self.0.val[self.0.n] = v;
        self.0.n += 1;
        Ok(())
    }
    fn end(self) -> Result<Out, E> {
        Ok(Out::Struct(self.0))
    }
}

pub enum In<'a> {
    I32(i32),
    I64(i64),
    Str(&'a str),
    /// values by position
    Seq(&'a [i64]),
    /// (field name, value) pairs
    Map(&'a [(&'a str, i64)]),
    Ident(&'a str),
    /// an integer of whatever width is asked for
    Num(i64),
}
pub struct De<'a>(pub In<'a>, pub bool);

impl<'a, 'de> Deserializer<'de> for De<'a> {
    type Error = E;
    fn is_human_readable(&self) -> bool {
        self.1
    }
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        match self.0 {
            In::I32(x) => v.visit_i32(x),
            In::I64(x) => v.visit_i64(x),
            In::Str(s) | In::Ident(s) => v.visit_str(s),
            In::Seq(s) => v.visit_seq(Seq(s, 0)),
            In::Map(s) => v.visit_map(Map(s, 0)),
            In::Num(x) => v.visit_i64(x),
        }
    }
    fn deserialize_i32<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        match self.0 {
            In::Num(x) | In::I64(x) => v.visit_i32(x as i32),
            In::I32(x) => v.visit_i32(x),
            _ => Err(E),
        }
    }
    fn deserialize_i64<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        match self.0 {
            In::Num(x) | In::I64(x) => v.visit_i64(x),
            In::I32(x) => v.visit_i64(x as i64),
            _ => Err(E),
        }
    }
    forward_to_deserialize_any! { bool i8 i16 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf
    option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
pub struct Seq<'a>(&'a [i64], usize);
impl<'a, 'de> SeqAccess<'de> for Seq<'a> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        if self.1 >= self.0.len() {
            return Ok(None);
        }
        self.1 += 1;
        s.deserialize(De(In::Num(self.0[self.1 - 1]), false)).map(Some)
    }
}
pub struct Map<'a>(&'a [(&'a str, i64)], usize);
impl<'a, 'de> MapAccess<'de> for Map<'a> {
    type Error = E;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, s: K) -> Result<Option<K::Value>, E> {
        if self.1 >= self.0.len() {
            return Ok(None);
        }
        s.deserialize(De(In::Ident(self.0[self.1].0), false)).map(Some)
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, E> {
        self.1 += 1;
        s.deserialize(De(In::Num(self.0[self.1 - 1].1), false))
    }
}
