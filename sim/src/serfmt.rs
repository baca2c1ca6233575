//! Serialization formats of the harness, to stand for the serde formats a
//! deployment may store with: self-describing or not, human readable or not,
//! byte strings lent, copied or given away, structures as maps (in any field
//! order) or as sequences, newtypes transparent or wrapped.

use serde::de::{self, DeserializeSeed, EnumAccess, IntoDeserializer, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Style {
    pub human: bool,
    /// structures as maps with field names, else as sequences
    pub maps: bool,
    /// fields come back in reverse order
    pub reversed: bool,
    /// strings and byte strings are: 0 lent, 1 copied, 2 given away
    pub give: u8,
    /// sequences of single bytes are stored as byte strings and come back so
    /// when asked for as bytes
    pub newtype: bool,
}
pub const STYLES: [Style; 3] = [
    Style { human: false, maps: true, reversed: true, give: 0, newtype: false },
    Style { human: true, maps: false, reversed: false, give: 1, newtype: true },
    Style { human: false, maps: false, reversed: false, give: 2, newtype: true },
];

#[derive(Clone, Debug)]
pub enum V {
    Unit,
    None,
    Some(Box<V>),
    Bool(bool),
    U(u64),
    I(i64),
    F(f64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    Seq(Vec<V>),
    Map(Vec<(V, V)>),
    New(Box<V>),
    Variant(u32, Box<V>),
}

#[derive(Debug)]
pub struct E(pub String);
impl std::fmt::Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: std::fmt::Display>(m: T) -> Self {
        E(m.to_string())
    }
}
impl de::Error for E {
    fn custom<T: std::fmt::Display>(m: T) -> Self {
        E(m.to_string())
    }
}
type Res<T> = Result<T, E>;

// ---- writing ------------------------------------------------------------

#[derive(Clone, Copy)]
struct Ser(Style);

struct Items {
    st: Style,
    v: Vec<V>,
    variant: Option<u32>,
}
struct Fields {
    st: Style,
    v: Vec<(V, V)>,
    key: Option<V>,
    as_map: bool,
    variant: Option<u32>,
}

fn wrap(variant: Option<u32>, v: V) -> V {
    match variant {
        Some(i) => V::Variant(i, Box::new(v)),
        None => v,
    }
}

impl ser::Serializer for Ser {
    type Ok = V;
    type Error = E;
    type SerializeSeq = Items;
    type SerializeTuple = Items;
    type SerializeTupleStruct = Items;
    type SerializeTupleVariant = Items;
    type SerializeMap = Fields;
    type SerializeStruct = Fields;
    type SerializeStructVariant = Fields;

    fn is_human_readable(&self) -> bool {
        self.0.human
    }
    fn serialize_bool(self, v: bool) -> Res<V> {
        Ok(V::Bool(v))
    }
    fn serialize_i8(self, v: i8) -> Res<V> {
        Ok(V::I(v.into()))
    }
    fn serialize_i16(self, v: i16) -> Res<V> {
        Ok(V::I(v.into()))
    }
    fn serialize_i32(self, v: i32) -> Res<V> {
        Ok(V::I(v.into()))
    }
    fn serialize_i64(self, v: i64) -> Res<V> {
        Ok(V::I(v))
    }
    fn serialize_u8(self, v: u8) -> Res<V> {
        Ok(V::U(v.into()))
    }
    fn serialize_u16(self, v: u16) -> Res<V> {
        Ok(V::U(v.into()))
    }
    fn serialize_u32(self, v: u32) -> Res<V> {
        Ok(V::U(v.into()))
    }
    fn serialize_u64(self, v: u64) -> Res<V> {
        Ok(V::U(v))
    }
    fn serialize_f32(self, v: f32) -> Res<V> {
        Ok(V::F(v.into()))
    }
    fn serialize_f64(self, v: f64) -> Res<V> {
        Ok(V::F(v))
    }
    fn serialize_char(self, v: char) -> Res<V> {
        Ok(V::Char(v))
    }
    fn serialize_str(self, v: &str) -> Res<V> {
        Ok(V::Str(v.into()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Res<V> {
        Ok(V::Bytes(v.to_vec()))
    }
    fn serialize_none(self) -> Res<V> {
        Ok(V::None)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Res<V> {
        Ok(V::Some(Box::new(v.serialize(self)?)))
    }
    fn serialize_unit(self) -> Res<V> {
        Ok(V::Unit)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Res<V> {
        Ok(V::Unit)
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> Res<V> {
        Ok(V::Variant(i, Box::new(V::Unit)))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Res<V> {
        let x = v.serialize(self)?;
        Ok(if self.0.newtype { V::New(Box::new(x)) } else { x })
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, i: u32, _: &'static str, v: &T) -> Res<V> {
        Ok(V::Variant(i, Box::new(v.serialize(self)?)))
    }
    fn serialize_seq(self, _: Option<usize>) -> Res<Items> {
        Ok(Items { st: self.0, v: vec![], variant: None })
    }
    fn serialize_tuple(self, _: usize) -> Res<Items> {
        self.serialize_seq(None)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Res<Items> {
        self.serialize_seq(None)
    }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Res<Items> {
        Ok(Items { st: self.0, v: vec![], variant: Some(i) })
    }
    fn serialize_map(self, _: Option<usize>) -> Res<Fields> {
        Ok(Fields { st: self.0, v: vec![], key: None, as_map: true, variant: None })
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Res<Fields> {
        Ok(Fields { st: self.0, v: vec![], key: None, as_map: self.0.maps, variant: None })
    }
    fn serialize_struct_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Res<Fields> {
        Ok(Fields { st: self.0, v: vec![], key: None, as_map: self.0.maps, variant: Some(i) })
    }
}

macro_rules! items {
    ($($tr:ident $f:ident),*) => {$(
        impl ser::$tr for Items {
            type Ok = V;
            type Error = E;
            fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> Res<()> {
                self.v.push(v.serialize(Ser(self.st))?);
                Ok(())
            }
            fn end(self) -> Res<V> {
                Ok(wrap(self.variant, V::Seq(self.v)))
            }
        }
    )*};
}
items!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);

impl Fields {
    fn done(self) -> Res<V> {
        let v = if self.as_map { V::Map(self.v) } else { V::Seq(self.v.into_iter().map(|x| x.1).collect()) };
        Ok(wrap(self.variant, v))
    }
    fn put<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Res<()> {
        let x = v.serialize(Ser(self.st))?;
        self.v.push((V::Str(k.into()), x));
        Ok(())
    }
}
impl ser::SerializeStruct for Fields {
    type Ok = V;
    type Error = E;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Res<()> {
        self.put(k, v)
    }
    fn end(self) -> Res<V> {
        self.done()
    }
}
impl ser::SerializeStructVariant for Fields {
    type Ok = V;
    type Error = E;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Res<()> {
        self.put(k, v)
    }
    fn end(self) -> Res<V> {
        self.done()
    }
}
impl ser::SerializeMap for Fields {
    type Ok = V;
    type Error = E;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Res<()> {
        self.key = Some(k.serialize(Ser(self.st))?);
        Ok(())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Res<()> {
        let k = self.key.take().ok_or(E("value without key".into()))?;
        self.v.push((k, v.serialize(Ser(self.st))?));
        Ok(())
    }
    fn end(self) -> Res<V> {
        self.done()
    }
}

pub fn to_bytes<T: Serialize>(x: &T, st: Style) -> Res<Vec<u8>> {
    let v = x.serialize(Ser(st))?;
    let mut out = Vec::new();
    put(&v, &mut out);
    Ok(out)
}

fn put(v: &V, o: &mut Vec<u8>) {
    let len = |o: &mut Vec<u8>, n: usize| o.extend((n as u32).to_le_bytes());
    match v {
        V::Unit => o.push(0),
        V::None => o.push(1),
        V::Some(x) => {
            o.push(2);
            put(x, o);
        }
        V::Bool(b) => o.extend([3, u8::from(*b)]),
        V::U(n) => {
            o.push(4);
            o.extend(n.to_le_bytes());
        }
        V::I(n) => {
            o.push(5);
            o.extend(n.to_le_bytes());
        }
        V::F(x) => {
            o.push(6);
            o.extend(x.to_bits().to_le_bytes());
        }
        V::Char(c) => {
            o.push(7);
            o.extend(u32::from(*c).to_le_bytes());
        }
        V::Str(s) => {
            o.push(8);
            len(o, s.len());
            o.extend(s.as_bytes());
        }
        V::Bytes(b) => {
            o.push(9);
            len(o, b.len());
            o.extend(b);
        }
        // runs of single bytes are packed
        V::Seq(s) if !s.is_empty() && s.iter().all(|x| matches!(x, V::U(n) if *n < 256)) => {
            o.push(14);
            len(o, s.len());
            o.extend(s.iter().map(|x| if let V::U(n) = x { *n as u8 } else { 0 }));
        }
        V::Seq(s) => {
            o.push(10);
            len(o, s.len());
            s.iter().for_each(|x| put(x, o));
        }
        V::Map(m) => {
            o.push(11);
            len(o, m.len());
            m.iter().for_each(|(a, b)| {
                put(a, o);
                put(b, o);
            });
        }
        V::New(x) => {
            o.push(12);
            put(x, o);
        }
        V::Variant(i, x) => {
            o.push(13);
            o.extend(i.to_le_bytes());
            put(x, o);
        }
    }
}

fn get(b: &mut &[u8], depth: usize) -> Res<V> {
    let bad = || E("truncated".into());
    if depth > 20 {
        return Err(E("too deep".into()));
    }
    fn take<'a>(b: &mut &'a [u8], n: usize) -> Option<&'a [u8]> {
        if n > b.len() {
            return None;
        }
        let (x, y) = b.split_at(n);
        *b = y;
        Some(x)
    }
    let tag = take(b, 1).ok_or_else(bad)?[0];
    let n = match tag {
        8..=11 | 14 | 7 | 13 => u32::from_le_bytes(take(b, 4).ok_or_else(bad)?.try_into().unwrap()) as usize,
        _ => 0,
    };
    let w = match tag {
        4..=6 => u64::from_le_bytes(take(b, 8).ok_or_else(bad)?.try_into().unwrap()),
        _ => 0,
    };
    Ok(match tag {
        0 => V::Unit,
        1 => V::None,
        2 => V::Some(Box::new(get(b, depth + 1)?)),
        3 => V::Bool(take(b, 1).ok_or_else(bad)?[0] != 0),
        4 => V::U(w),
        5 => V::I(w as i64),
        6 => V::F(f64::from_bits(w)),
        7 => V::Char(char::from_u32(n as u32).ok_or_else(bad)?),
        8 => V::Str(String::from_utf8(take(b, n).ok_or_else(bad)?.to_vec()).map_err(|_| bad())?),
        9 => V::Bytes(take(b, n).ok_or_else(bad)?.to_vec()),
        14 => V::Seq(take(b, n).ok_or_else(bad)?.iter().map(|x| V::U((*x).into())).collect()),
        10 => V::Seq((0..n).map(|_| get(b, depth + 1)).collect::<Res<_>>()?),
        11 => V::Map((0..n).map(|_| Ok((get(b, depth + 1)?, get(b, depth + 1)?))).collect::<Res<_>>()?),
        12 => V::New(Box::new(get(b, depth + 1)?)),
        13 => V::Variant(n as u32, Box::new(get(b, depth + 1)?)),
        _ => return Err(E(format!("tag {tag}"))),
    })
}

// ---- reading ------------------------------------------------------------

#[derive(Clone, Copy)]
struct De<'a> {
    v: &'a V,
    st: Style,
}

pub fn from_bytes<T: de::DeserializeOwned>(mut b: &[u8], st: Style) -> Res<T> {
    let v = get(&mut b, 0)?;
    if !b.is_empty() {
        return Err(E("trailing bytes".into()));
    }
    T::deserialize(De { v: &v, st })
}

impl<'a> De<'a> {
    fn to(self, v: &'a V) -> Self {
        De { v, st: self.st }
    }
}

macro_rules! fwd {
    ($($f:ident),*) => {$(
        fn $f<W: Visitor<'de>>(self, w: W) -> Res<W::Value> {
            self.deserialize_any(w)
        }
    )*};
}

impl<'de> de::Deserializer<'de> for De<'de> {
    type Error = E;

    fn is_human_readable(&self) -> bool {
        self.st.human
    }

    fn deserialize_any<W: Visitor<'de>>(self, w: W) -> Res<W::Value> {
        match self.v {
            V::Unit => w.visit_unit(),
            V::None => w.visit_none(),
            V::Some(x) => w.visit_some(self.to(x)),
            V::Bool(b) => w.visit_bool(*b),
            // the narrowest type, as compact formats do
            V::U(n) => match u8::try_from(*n) {
                Ok(b) if self.st.give == 0 => w.visit_u8(b),
                _ => w.visit_u64(*n),
            },
            V::I(n) => w.visit_i64(*n),
            V::F(x) => w.visit_f64(*x),
            V::Char(c) => w.visit_char(*c),
            V::Str(s) => match self.st.give {
                0 => w.visit_borrowed_str(s),
                1 => w.visit_str(s),
                _ => w.visit_string(s.clone()),
            },
            V::Bytes(b) => match self.st.give {
                0 => w.visit_borrowed_bytes(b),
                1 => w.visit_bytes(b),
                _ => w.visit_byte_buf(b.clone()),
            },
            V::Seq(s) => w.visit_seq(SeqOf { i: s.iter(), st: self.st }),
            V::Map(m) => {
                let mut r: Vec<&(V, V)> = m.iter().collect();
                if self.st.reversed {
                    r.reverse();
                }
                w.visit_map(MapOf { i: r.into_iter(), val: None, st: self.st })
            }
            V::New(x) => w.visit_newtype_struct(self.to(x)),
            V::Variant(..) => Err(E("variant not expected".into())),
        }
    }
    fn deserialize_option<W: Visitor<'de>>(self, w: W) -> Res<W::Value> {
        match self.v {
            V::None | V::Unit => w.visit_none(),
            V::Some(x) => w.visit_some(self.to(x)),
            _ => w.visit_some(self),
        }
    }
    fn deserialize_newtype_struct<W: Visitor<'de>>(self, _: &'static str, w: W) -> Res<W::Value> {
        match self.v {
            V::New(x) => w.visit_newtype_struct(self.to(x)),
            _ => w.visit_newtype_struct(self),
        }
    }
    fn deserialize_unit_struct<W: Visitor<'de>>(self, _: &'static str, w: W) -> Res<W::Value> {
        self.deserialize_any(w)
    }
    fn deserialize_tuple<W: Visitor<'de>>(self, n: usize, w: W) -> Res<W::Value> {
        match self.v {
            V::Seq(s) if s.len() != n => Err(E(format!("{} items, {n} expected", s.len()))),
            _ => self.deserialize_any(w),
        }
    }
    fn deserialize_tuple_struct<W: Visitor<'de>>(self, _: &'static str, n: usize, w: W) -> Res<W::Value> {
        self.deserialize_tuple(n, w)
    }
    fn deserialize_struct<W: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], w: W) -> Res<W::Value> {
        self.deserialize_any(w)
    }
    fn deserialize_enum<W: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], w: W) -> Res<W::Value> {
        match self.v {
            V::Variant(i, x) => w.visit_enum(Var { i: *i, d: self.to(x) }),
            _ => Err(E("no variant".into())),
        }
    }
    fn deserialize_ignored_any<W: Visitor<'de>>(self, w: W) -> Res<W::Value> {
        w.visit_unit()
    }
    fwd!(
        deserialize_bool, deserialize_i8, deserialize_i16, deserialize_i32, deserialize_i64, deserialize_u8, deserialize_u16, deserialize_u32, deserialize_u64,
        deserialize_f32, deserialize_f64, deserialize_char, deserialize_str, deserialize_string, deserialize_bytes, deserialize_byte_buf, deserialize_unit,
        deserialize_seq, deserialize_map, deserialize_identifier
    );
}

struct SeqOf<'a> {
    i: std::slice::Iter<'a, V>,
    st: Style,
}
impl<'de> SeqAccess<'de> for SeqOf<'de> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Res<Option<T::Value>> {
        self.i.next().map(|v| s.deserialize(De { v, st: self.st })).transpose()
    }
    fn size_hint(&self) -> Option<usize> {
        // not every format knows
        (self.st.give != 1).then_some(self.i.len())
    }
}
struct MapOf<'a> {
    i: std::vec::IntoIter<&'a (V, V)>,
    val: Option<&'a V>,
    st: Style,
}
impl<'de> MapAccess<'de> for MapOf<'de> {
    type Error = E;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Res<Option<T::Value>> {
        let Some((k, v)) = self.i.next() else { return Ok(None) };
        self.val = Some(v);
        s.deserialize(De { v: k, st: self.st }).map(Some)
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Res<T::Value> {
        let v = self.val.take().ok_or(E("no value".into()))?;
        s.deserialize(De { v, st: self.st })
    }
}
struct Var<'a> {
    i: u32,
    d: De<'a>,
}
impl<'de> EnumAccess<'de> for Var<'de> {
    type Error = E;
    type Variant = Self;
    fn variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Res<(T::Value, Self)> {
        let k = s.deserialize(IntoDeserializer::<E>::into_deserializer(self.i))?;
        Ok((k, self))
    }
}
impl<'de> VariantAccess<'de> for Var<'de> {
    type Error = E;
    fn unit_variant(self) -> Res<()> {
        Ok(())
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Res<T::Value> {
        s.deserialize(self.d)
    }
    fn tuple_variant<W: Visitor<'de>>(self, _: usize, w: W) -> Res<W::Value> {
        de::Deserializer::deserialize_any(self.d, w)
    }
    fn struct_variant<W: Visitor<'de>>(self, _: &'static [&'static str], w: W) -> Res<W::Value> {
        de::Deserializer::deserialize_any(self.d, w)
    }
}
