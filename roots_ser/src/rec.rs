//! A serializer that records what is written, and a deserializer that offers recorded content.
//! They stand for any self-describing human-readable format (such as JSON): the verified code is
//! generic in the (de)serializer, this is the instance the verifier executes.
use serde::{de, ser, Deserialize, Deserializer, Serialize, Serializer};
use std::fmt;

/// What was written.
pub enum Tree {
    Null,
    Bool(bool),
    U64(u64),
    I64(i64),
    F64(f64),
    Str(String),
    Seq(Vec<Tree>),
    Obj(Vec<(String, Tree)>),
}

pub struct E;
pub fn abs_err() -> E { loop {} }
impl fmt::Debug for E { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
impl fmt::Display for E { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
impl std::error::Error for E {}
impl ser::Error for E { fn custom<T: fmt::Display>(_: T) -> Self { E } }
impl de::Error for E {
    fn custom<T: fmt::Display>(_: T) -> Self { E }
    fn invalid_type(_: de::Unexpected, _: &dyn de::Expected) -> Self { E }
    fn invalid_value(_: de::Unexpected, _: &dyn de::Expected) -> Self { E }
    fn invalid_length(_: usize, _: &dyn de::Expected) -> Self { E }
    fn unknown_variant(_: &str, _: &'static [&'static str]) -> Self { E }
    fn unknown_field(_: &str, _: &'static [&'static str]) -> Self { E }
    fn missing_field(_: &'static str) -> Self { E }
    fn duplicate_field(_: &'static str) -> Self { E }
}

// ------------------------------------------------------------------ names of entries
pub struct Key;
macro_rules! no { ($($f:ident: $t:ty),*) => { $( fn $f(self, _: $t) -> Result<String, E> { Err(E) } )* } }
impl Serializer for Key {
    type Ok = String;
    type Error = E;
    type SerializeSeq = ser::Impossible<String, E>;
    type SerializeTuple = ser::Impossible<String, E>;
    type SerializeTupleStruct = ser::Impossible<String, E>;
    type SerializeTupleVariant = ser::Impossible<String, E>;
    type SerializeMap = ser::Impossible<String, E>;
    type SerializeStruct = ser::Impossible<String, E>;
    type SerializeStructVariant = ser::Impossible<String, E>;
    no!(serialize_bool: bool, serialize_i8: i8, serialize_i16: i16, serialize_i32: i32, serialize_i64: i64, serialize_u8: u8, serialize_u16: u16, serialize_u32: u32, serialize_u64: u64, serialize_f32: f32, serialize_f64: f64, serialize_char: char, serialize_bytes: &[u8]);
    fn serialize_str(self, v: &str) -> Result<String, E> { Ok(v.to_owned()) }
    fn serialize_none(self) -> Result<String, E> { Err(E) }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<String, E> { Err(E) }
    fn serialize_unit(self) -> Result<String, E> { Err(E) }
    fn serialize_unit_struct(self, _: &'static str) -> Result<String, E> { Err(E) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<String, E> { Ok(v.to_owned()) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<String, E> { v.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<String, E> { Err(E) }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, E> { Err(E) }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, E> { Err(E) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, E> { Err(E) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, E> { Err(E) }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, E> { Err(E) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, E> { Err(E) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, E> { Err(E) }
}

// ------------------------------------------------------------------ values
pub struct Rec;
pub struct List(Vec<Tree>, Option<&'static str>);
pub struct Fields {
    entries: Vec<(String, Tree)>,
    key: Option<String>,
    outer: Option<&'static str>,
}

fn wrap(t: Tree, name: Option<&'static str>) -> Tree {
    match name {
        None => t,
        Some(n) => Tree::Obj(vec![(n.to_owned(), t)]),
    }
}

fn fields(outer: Option<&'static str>) -> Fields { Fields { entries: Vec::new(), key: None, outer } }

impl Serializer for Rec {
    type Ok = Tree;
    type Error = E;
    type SerializeSeq = List;
    type SerializeTuple = List;
    type SerializeTupleStruct = List;
    type SerializeTupleVariant = List;
    type SerializeMap = Fields;
    type SerializeStruct = Fields;
    type SerializeStructVariant = Fields;
    fn serialize_bool(self, v: bool) -> Result<Tree, E> { Ok(Tree::Bool(v)) }
    fn serialize_i8(self, v: i8) -> Result<Tree, E> { Ok(Tree::I64(v as i64)) }
    fn serialize_i16(self, v: i16) -> Result<Tree, E> { Ok(Tree::I64(v as i64)) }
    fn serialize_i32(self, v: i32) -> Result<Tree, E> { Ok(Tree::I64(v as i64)) }
    fn serialize_i64(self, v: i64) -> Result<Tree, E> { Ok(Tree::I64(v)) }
    fn serialize_u8(self, v: u8) -> Result<Tree, E> { Ok(Tree::U64(v as u64)) }
    fn serialize_u16(self, v: u16) -> Result<Tree, E> { Ok(Tree::U64(v as u64)) }
    fn serialize_u32(self, v: u32) -> Result<Tree, E> { Ok(Tree::U64(v as u64)) }
    fn serialize_u64(self, v: u64) -> Result<Tree, E> { Ok(Tree::U64(v)) }
    fn serialize_f32(self, v: f32) -> Result<Tree, E> { Ok(Tree::F64(v as f64)) }
    fn serialize_f64(self, v: f64) -> Result<Tree, E> { Ok(Tree::F64(v)) }
    fn serialize_char(self, v: char) -> Result<Tree, E> { Ok(Tree::Str(String::from(v))) }
    fn serialize_str(self, v: &str) -> Result<Tree, E> { Ok(Tree::Str(v.to_owned())) }
    fn serialize_bytes(self, _: &[u8]) -> Result<Tree, E> { Err(E) }
    fn serialize_none(self) -> Result<Tree, E> { Ok(Tree::Null) }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<Tree, E> { v.serialize(self) }
    fn serialize_unit(self) -> Result<Tree, E> { Ok(Tree::Null) }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Tree, E> { Ok(Tree::Null) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<Tree, E> { Ok(Tree::Str(v.to_owned())) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<Tree, E> { v.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, name: &'static str, v: &T) -> Result<Tree, E> {
        let t = v.serialize(Rec)?;
        Ok(wrap(t, Some(name)))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<List, E> { Ok(List(Vec::new(), None)) }
    fn serialize_tuple(self, _: usize) -> Result<List, E> { Ok(List(Vec::new(), None)) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<List, E> { Ok(List(Vec::new(), None)) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, name: &'static str, _: usize) -> Result<List, E> { Ok(List(Vec::new(), Some(name))) }
    fn serialize_map(self, _: Option<usize>) -> Result<Fields, E> { Ok(fields(None)) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Fields, E> { Ok(fields(None)) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, name: &'static str, _: usize) -> Result<Fields, E> { Ok(fields(Some(name))) }
}

impl List {
    fn add<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        let t = v.serialize(Rec)?;
        self.0.push(t);
        Ok(())
    }
    fn done(self) -> Result<Tree, E> { Ok(wrap(Tree::Seq(self.0), self.1)) }
}
impl ser::SerializeSeq for List {
    type Ok = Tree;
    type Error = E;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> { self.add(v) }
    fn end(self) -> Result<Tree, E> { self.done() }
}
impl ser::SerializeTuple for List {
    type Ok = Tree;
    type Error = E;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> { self.add(v) }
    fn end(self) -> Result<Tree, E> { self.done() }
}
impl ser::SerializeTupleStruct for List {
    type Ok = Tree;
    type Error = E;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> { self.add(v) }
    fn end(self) -> Result<Tree, E> { self.done() }
}
impl ser::SerializeTupleVariant for List {
    type Ok = Tree;
    type Error = E;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> { self.add(v) }
    fn end(self) -> Result<Tree, E> { self.done() }
}

impl Fields {
    fn put<T: ?Sized + Serialize>(&mut self, k: String, v: &T) -> Result<(), E> {
        let t = v.serialize(Rec)?;
        self.entries.push((k, t));
        Ok(())
    }
    fn done(self) -> Result<Tree, E> { Ok(wrap(Tree::Obj(self.entries), self.outer)) }
}
impl ser::SerializeMap for Fields {
    type Ok = Tree;
    type Error = E;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<(), E> {
        self.key = Some(k.serialize(Key)?);
        Ok(())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        match self.key.take() {
            Some(k) => self.put(k, v),
            None => Err(E),
        }
    }
    fn serialize_entry<K: ?Sized + Serialize, T: ?Sized + Serialize>(&mut self, k: &K, v: &T) -> Result<(), E> {
        let k = k.serialize(Key)?;
        self.put(k, v)
    }
    fn end(self) -> Result<Tree, E> { self.done() }
}
impl ser::SerializeStruct for Fields {
    type Ok = Tree;
    type Error = E;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), E> { self.put(k.to_owned(), v) }
    fn end(self) -> Result<Tree, E> { self.done() }
}
impl ser::SerializeStructVariant for Fields {
    type Ok = Tree;
    type Error = E;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), E> { self.put(k.to_owned(), v) }
    fn end(self) -> Result<Tree, E> { self.done() }
}

// ------------------------------------------------------------------ reading recorded content
pub struct TreeDe(pub Tree);
pub struct ListDe(std::vec::IntoIter<Tree>);
pub struct FieldsDe {
    fields: std::vec::IntoIter<(String, Tree)>,
    value: Option<Tree>,
}
pub struct NameDe(String);
pub struct VariantDe(String, Option<Tree>);
pub struct PayloadDe(Option<Tree>);

impl<'de> Deserializer<'de> for TreeDe {
    type Error = E;
    fn deserialize_any<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        match self.0 {
            Tree::Null => v.visit_unit(),
            Tree::Bool(x) => v.visit_bool(x),
            Tree::U64(x) => v.visit_u64(x),
            Tree::I64(x) => v.visit_i64(x),
            Tree::F64(x) => v.visit_f64(x),
            Tree::Str(x) => v.visit_str(&x),
            Tree::Seq(x) => v.visit_seq(ListDe(x.into_iter())),
            Tree::Obj(x) => v.visit_map(FieldsDe { fields: x.into_iter(), value: None }),
        }
    }
    fn deserialize_option<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        match self.0 {
            Tree::Null => v.visit_none(),
            t => v.visit_some(TreeDe(t)),
        }
    }
    fn deserialize_newtype_struct<V: de::Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> { v.visit_newtype_struct(self) }
    fn deserialize_enum<V: de::Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, E> {
        match self.0 {
            Tree::Str(x) => v.visit_enum(VariantDe(x, None)),
            Tree::Obj(mut x) if x.len() == 1 => {
                let (k, t) = x.pop().unwrap();
                v.visit_enum(VariantDe(k, Some(t)))
            }
            _ => Err(E),
        }
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit unit_struct seq tuple tuple_struct map struct identifier ignored_any }
}
impl<'de> Deserializer<'de> for NameDe {
    type Error = E;
    fn deserialize_any<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, E> { v.visit_str(&self.0) }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit unit_struct seq tuple tuple_struct map struct identifier ignored_any option newtype_struct enum }
}
impl<'de> de::SeqAccess<'de> for ListDe {
    type Error = E;
    fn next_element_seed<T: de::DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, E> {
        match self.0.next() {
            Some(t) => seed.deserialize(TreeDe(t)).map(Some),
            None => Ok(None),
        }
    }
}
impl<'de> de::MapAccess<'de> for FieldsDe {
    type Error = E;
    fn next_key_seed<K: de::DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, E> {
        match self.fields.next() {
            Some((k, t)) => {
                self.value = Some(t);
                seed.deserialize(NameDe(k)).map(Some)
            }
            None => Ok(None),
        }
    }
    fn next_value_seed<T: de::DeserializeSeed<'de>>(&mut self, seed: T) -> Result<T::Value, E> {
        match self.value.take() {
            Some(t) => seed.deserialize(TreeDe(t)),
            None => Err(E),
        }
    }
}
impl<'de> de::EnumAccess<'de> for VariantDe {
    type Error = E;
    type Variant = PayloadDe;
    fn variant_seed<V: de::DeserializeSeed<'de>>(self, seed: V) -> Result<(V::Value, PayloadDe), E> {
        let VariantDe(k, t) = self;
        seed.deserialize(NameDe(k)).map(|v| (v, PayloadDe(t)))
    }
}
impl<'de> de::VariantAccess<'de> for PayloadDe {
    type Error = E;
    fn unit_variant(self) -> Result<(), E> { match self.0 { None => Ok(()), Some(_) => Err(E) } }
    fn newtype_variant_seed<T: de::DeserializeSeed<'de>>(self, seed: T) -> Result<T::Value, E> { match self.0 { Some(t) => seed.deserialize(TreeDe(t)), None => Err(E) } }
    fn tuple_variant<V: de::Visitor<'de>>(self, _: usize, _: V) -> Result<V::Value, E> { Err(E) }
    fn struct_variant<V: de::Visitor<'de>>(self, _: &'static [&'static str], _: V) -> Result<V::Value, E> { Err(E) }
}
