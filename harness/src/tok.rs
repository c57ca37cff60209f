//! A format that shows the calls made on serde's data model: values become
//! trees of tokens, and trees of tokens are read back as offered.
use serde::de::{self, DeserializeSeed, IntoDeserializer, Visitor};
use serde::ser::{self, Serialize};
use std::fmt::{self, Display};

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Int(i64, u128), // width, value
    Bool(bool),
    Str(String),
    Variant(u32, String),
    Seq(Vec<Tok>),
    Map(Vec<(Tok, Tok)>),
    Unit,
    Signed(i64),
    Float(f64),
    Bytes(Vec<u8>),
    Other(&'static str),
}

#[derive(Debug)]
pub struct Error(pub String);
impl Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl ser::Error for Error {
    fn custom<T: Display>(m: T) -> Error {
        Error(m.to_string())
    }
}
impl de::Error for Error {
    fn custom<T: Display>(m: T) -> Error {
        Error(m.to_string())
    }
}
thread_local!(static LEFT: std::cell::Cell<i64> = const { std::cell::Cell::new(0) });
/// Performs f with the n-th call on serializers or deserializers failing
/// (once); says whether there was such a call.
pub fn failing<R>(n: i64, f: impl FnOnce() -> R) -> (R, bool) {
    LEFT.set(n);
    let r = f();
    let hit = n > 0 && LEFT.get() <= 0;
    LEFT.set(0);
    (r, hit)
}
fn tick() -> Result<()> {
    match LEFT.get() {
        0 => Ok(()),
        1 => {
            LEFT.set(-1);
            Err(Error("injected".into()))
        }
        n => {
            LEFT.set(if n > 0 { n - 1 } else { n });
            Ok(())
        }
    }
}
fn injected() -> bool {
    LEFT.get() < 0
}
type Result<T> = std::result::Result<T, Error>;

/// Serializer; `0` says whether the format claims to be human readable.
pub struct Ser(pub bool);
pub struct SeqSer(bool, Option<usize>, Vec<Tok>);
pub struct MapSer(bool, Option<usize>, Vec<(Tok, Tok)>, Option<Tok>);

impl ser::Serializer for Ser {
    type Ok = Tok;
    type Error = Error;
    type SerializeSeq = SeqSer;
    type SerializeTuple = SeqSer;
    type SerializeTupleStruct = SeqSer;
    type SerializeTupleVariant = ser::Impossible<Tok, Error>;
    type SerializeMap = MapSer;
    type SerializeStruct = ser::Impossible<Tok, Error>;
    type SerializeStructVariant = ser::Impossible<Tok, Error>;
    fn is_human_readable(&self) -> bool {
        self.0
    }
    fn serialize_bool(self, v: bool) -> Result<Tok> {
        tick()?;
        Ok(Tok::Bool(v))
    }
    fn serialize_i8(self, _: i8) -> Result<Tok> {
        Ok(Tok::Other("i8"))
    }
    fn serialize_i16(self, _: i16) -> Result<Tok> {
        Ok(Tok::Other("i16"))
    }
    fn serialize_i32(self, _: i32) -> Result<Tok> {
        Ok(Tok::Other("i32"))
    }
    fn serialize_i64(self, _: i64) -> Result<Tok> {
        Ok(Tok::Other("i64"))
    }
    fn serialize_u8(self, v: u8) -> Result<Tok> {
        tick()?;
        Ok(Tok::Int(8, v as u128))
    }
    fn serialize_u16(self, v: u16) -> Result<Tok> {
        tick()?;
        Ok(Tok::Int(16, v as u128))
    }
    fn serialize_u32(self, v: u32) -> Result<Tok> {
        tick()?;
        Ok(Tok::Int(32, v as u128))
    }
    fn serialize_u64(self, v: u64) -> Result<Tok> {
        tick()?;
        Ok(Tok::Int(64, v as u128))
    }
    fn serialize_u128(self, v: u128) -> Result<Tok> {
        tick()?;
        Ok(Tok::Int(128, v))
    }
    fn serialize_f32(self, _: f32) -> Result<Tok> {
        Ok(Tok::Other("f32"))
    }
    fn serialize_f64(self, _: f64) -> Result<Tok> {
        Ok(Tok::Other("f64"))
    }
    fn serialize_char(self, _: char) -> Result<Tok> {
        Ok(Tok::Other("char"))
    }
    fn serialize_str(self, v: &str) -> Result<Tok> {
        Ok(Tok::Str(v.into()))
    }
    fn serialize_bytes(self, _: &[u8]) -> Result<Tok> {
        Ok(Tok::Other("bytes"))
    }
    fn serialize_none(self) -> Result<Tok> {
        Ok(Tok::Unit)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<Tok> {
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<Tok> {
        Ok(Tok::Unit)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Tok> {
        Ok(Tok::Unit)
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, v: &'static str) -> Result<Tok> {
        Ok(Tok::Variant(i, v.into()))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<Tok> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(
        self, _: &'static str, _: u32, _: &'static str, _: &T,
    ) -> Result<Tok> {
        Ok(Tok::Other("newtype variant"))
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<SeqSer> {
        tick()?;
        Ok(SeqSer(self.0, n, vec![]))
    }
    fn serialize_tuple(self, n: usize) -> Result<SeqSer> {
        Ok(SeqSer(self.0, Some(n), vec![]))
    }
    fn serialize_tuple_struct(self, _: &'static str, n: usize) -> Result<SeqSer> {
        Ok(SeqSer(self.0, Some(n), vec![]))
    }
    fn serialize_tuple_variant(
        self, _: &'static str, _: u32, _: &'static str, _: usize,
    ) -> Result<Self::SerializeTupleVariant> {
        Err(Error("tuple variant".into()))
    }
    fn serialize_map(self, n: Option<usize>) -> Result<MapSer> {
        tick()?;
        Ok(MapSer(self.0, n, vec![], None))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct> {
        Err(Error("struct".into()))
    }
    fn serialize_struct_variant(
        self, _: &'static str, _: u32, _: &'static str, _: usize,
    ) -> Result<Self::SerializeStructVariant> {
        Err(Error("struct variant".into()))
    }
}
fn count(n: Option<usize>, len: usize) -> Result<()> {
    if LEFT.get() < 0 {
        // an element was refused: whoever ignored that shall not be told again
        return Ok(());
    }
    match n {
        Some(n) if n != len => Err(Error(format!("{n} announced, {len} written"))),
        _ => Ok(()),
    }
}
macro_rules! seq_ser {
    ($($tr:ident $f:ident $tok:expr;)*) => { $(impl ser::$tr for SeqSer {
        type Ok = Tok;
        type Error = Error;
        fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<()> {
        tick()?;
            self.2.push(v.serialize(Ser(self.0))?);
            Ok(())
        }
        fn end(self) -> Result<Tok> {
        tick()?;
            count(self.1, self.2.len())?;
            Ok(($tok)(self.2))
        }
    })* };
}
seq_ser! {
    SerializeSeq serialize_element Tok::Seq;
    SerializeTuple serialize_element |_| Tok::Other("tuple");
    SerializeTupleStruct serialize_field |_| Tok::Other("tuple struct");
}
impl ser::SerializeMap for MapSer {
    type Ok = Tok;
    type Error = Error;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<()> {
        tick()?;
        self.3 = Some(v.serialize(Ser(self.0))?);
        Ok(())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<()> {
        tick()?;
        let k = self.3.take().ok_or_else(|| Error("value without key".into()))?;
        self.2.push((k, v.serialize(Ser(self.0))?));
        Ok(())
    }
    fn end(self) -> Result<Tok> {
        tick()?;
        count(self.1, self.2.len())?;
        Ok(Tok::Map(self.2))
    }
}

/// What sequences and maps say about their size, and how integers are offered.
#[derive(Clone, Copy, PartialEq)]
pub enum Hint {
    Exact,
    None,
    Huge,
    Zero,
    Signed,
}
impl Hint {
    fn of(self, n: usize) -> Option<usize> {
        match self {
            Hint::Exact | Hint::Signed => Some(n),
            Hint::None => None,
            Hint::Huge => Some(usize::MAX),
            Hint::Zero => Some(0),
        }
    }
    pub fn named(via: &str) -> Hint {
        match via {
            "token_nohint" => Hint::None,
            "token_huge" => Hint::Huge,
            "token_zero" => Hint::Zero,
            "token_signed" => Hint::Signed,
            _ => Hint::Exact,
        }
    }
}

/// Deserializer of a token tree. All of a sequence must be taken.
#[derive(Clone)]
pub struct De {
    pub tok: Tok,
    pub human: bool,
    pub hint: Hint,
}
struct Items {
    v: std::vec::IntoIter<Tok>,
    human: bool,
    hint: Hint,
}
struct Entries {
    v: std::vec::IntoIter<(Tok, Tok)>,
    val: Option<Tok>,
    human: bool,
    hint: Hint,
}
impl<'de> de::SeqAccess<'de> for Items {
    type Error = Error;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>> {
        tick()?;
        match self.v.next() {
            Some(tok) => s.deserialize(De { tok, human: self.human, hint: self.hint }).map(Some),
            None => Ok(None),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint.of(self.v.len())
    }
}
impl<'de> de::MapAccess<'de> for Entries {
    type Error = Error;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>> {
        tick()?;
        match self.v.next() {
            Some((k, v)) => {
                self.val = Some(v);
                s.deserialize(De { tok: k, human: self.human, hint: self.hint }).map(Some)
            }
            None => Ok(None),
        }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value> {
        tick()?;
        let tok = self.val.take().ok_or_else(|| Error("value without key".into()))?;
        s.deserialize(De { tok, human: self.human, hint: self.hint })
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint.of(self.v.len())
    }
}
impl<'de> de::Deserializer<'de> for De {
    type Error = Error;
    fn is_human_readable(&self) -> bool {
        self.human
    }
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value> {
        tick()?;
        match self.tok {
            Tok::Int(_, x) if self.hint == Hint::Signed && x <= i64::MAX as u128 => v.visit_i64(x as i64),
            Tok::Int(8, x) => v.visit_u8(x as u8),
            Tok::Int(16, x) => v.visit_u16(x as u16),
            Tok::Int(32, x) => v.visit_u32(x as u32),
            Tok::Int(64, x) => v.visit_u64(x as u64),
            Tok::Int(_, x) => v.visit_u128(x),
            Tok::Bool(x) => v.visit_bool(x),
            Tok::Str(x) => v.visit_string(x),
            Tok::Variant(..) => v.visit_enum(self),
            Tok::Seq(x) => {
                let mut items = Items { v: x.into_iter(), human: self.human, hint: self.hint };
                let r = v.visit_seq(&mut items)?;
                match items.v.len() {
                    0 => Ok(r),
                    _ if injected() => Ok(r),
                    n => Err(Error(format!("{n} elements not taken"))),
                }
            }
            Tok::Map(x) => {
                let mut items =
                    Entries { v: x.into_iter(), val: None, human: self.human, hint: self.hint };
                let r = v.visit_map(&mut items)?;
                match items.v.len() {
                    0 => Ok(r),
                    _ if injected() => Ok(r),
                    n => Err(Error(format!("{n} entries not taken"))),
                }
            }
            Tok::Signed(x) => v.visit_i64(x),
            Tok::Float(x) => v.visit_f64(x),
            Tok::Bytes(x) => v.visit_byte_buf(x),
            Tok::Unit | Tok::Other(_) => v.visit_unit(),
        }
    }
    fn deserialize_enum<V: Visitor<'de>>(
        self, _: &'static str, _: &'static [&'static str], v: V,
    ) -> Result<V::Value> {
        v.visit_enum(self)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option
        unit unit_struct newtype_struct seq tuple tuple_struct map struct identifier ignored_any
    }
}
impl<'de> de::EnumAccess<'de> for De {
    type Error = Error;
    type Variant = Unit;
    fn variant_seed<V: DeserializeSeed<'de>>(self, s: V) -> Result<(V::Value, Unit)> {
        let r = match self.tok {
            Tok::Variant(i, n) => {
                if self.human {
                    s.deserialize(IntoDeserializer::<Error>::into_deserializer(n))
                } else {
                    s.deserialize(IntoDeserializer::<Error>::into_deserializer(i))
                }
            }
            Tok::Str(n) => s.deserialize(IntoDeserializer::<Error>::into_deserializer(n)),
            _ => Err(Error("not a variant".into())),
        }?;
        Ok((r, Unit))
    }
}
pub struct Unit;
impl<'de> de::VariantAccess<'de> for Unit {
    type Error = Error;
    fn unit_variant(self) -> Result<()> {
        Ok(())
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, _: T) -> Result<T::Value> {
        Err(Error("not a unit variant".into()))
    }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, _: V) -> Result<V::Value> {
        Err(Error("not a unit variant".into()))
    }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], _: V) -> Result<V::Value> {
        Err(Error("not a unit variant".into()))
    }
}
