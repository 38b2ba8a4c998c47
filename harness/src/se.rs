//! A serde format: a list of tokens
use crate::*;
use serde::de::{self, DeserializeOwned, DeserializeSeed, Deserializer, MapAccess, SeqAccess, Visitor};
use serde::ser::{self, Serialize, Serializer};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tok {
    U(u64),
    I(i64),
    B(bool),
    Unit,
    /// as many elements follow
    Seq(usize),
    /// as many entries follow
    Map(usize),
}
#[derive(Debug)]
pub struct Bad;
impl std::fmt::Display for Bad {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("bad")
    }
}
impl std::error::Error for Bad {}
impl ser::Error for Bad {
    fn custom<T: std::fmt::Display>(_: T) -> Self {
        Bad
    }
}
impl de::Error for Bad {
    fn custom<T: std::fmt::Display>(_: T) -> Self {
        Bad
    }
    // not formatted: the value may be symbolic
    fn invalid_value(_: de::Unexpected, _: &dyn de::Expected) -> Self {
        Bad
    }
    fn invalid_type(_: de::Unexpected, _: &dyn de::Expected) -> Self {
        Bad
    }
    fn invalid_length(_: usize, _: &dyn de::Expected) -> Self {
        Bad
    }
}

/// what is serialised must announce its length correctly
#[derive(Default)]
pub struct Out {
    pub toks: Vec<Tok>,
}
pub struct Many<'a> {
    out: &'a mut Out,
    left: usize,
}
impl<'a> Serializer for &'a mut Out {
    type Ok = ();
    type Error = Bad;
    type SerializeSeq = Many<'a>;
    type SerializeMap = Many<'a>;
    type SerializeTuple = Many<'a>;
    type SerializeTupleStruct = ser::Impossible<(), Bad>;
    type SerializeTupleVariant = ser::Impossible<(), Bad>;
    type SerializeStruct = ser::Impossible<(), Bad>;
    type SerializeStructVariant = ser::Impossible<(), Bad>;
    fn serialize_bool(self, v: bool) -> Result<(), Bad> {
        self.toks.push(Tok::B(v));
        Ok(())
    }
    fn serialize_u8(self, v: u8) -> Result<(), Bad> {
        self.serialize_u64(v as u64)
    }
    fn serialize_u16(self, v: u16) -> Result<(), Bad> {
        self.serialize_u64(v as u64)
    }
    fn serialize_u32(self, v: u32) -> Result<(), Bad> {
        self.serialize_u64(v as u64)
    }
    fn serialize_u64(self, v: u64) -> Result<(), Bad> {
        self.toks.push(Tok::U(v));
        Ok(())
    }
    fn serialize_i8(self, v: i8) -> Result<(), Bad> {
        self.serialize_i64(v as i64)
    }
    fn serialize_i16(self, v: i16) -> Result<(), Bad> {
        self.serialize_i64(v as i64)
    }
    fn serialize_i32(self, v: i32) -> Result<(), Bad> {
        self.serialize_i64(v as i64)
    }
    fn serialize_i64(self, v: i64) -> Result<(), Bad> {
        self.toks.push(Tok::I(v));
        Ok(())
    }
    fn serialize_f32(self, _: f32) -> Result<(), Bad> {
        Err(Bad)
    }
    fn serialize_f64(self, _: f64) -> Result<(), Bad> {
        Err(Bad)
    }
    fn serialize_char(self, v: char) -> Result<(), Bad> {
        self.serialize_u64(v as u64)
    }
    fn serialize_str(self, _: &str) -> Result<(), Bad> {
        Err(Bad)
    }
    fn serialize_bytes(self, _: &[u8]) -> Result<(), Bad> {
        Err(Bad)
    }
    fn serialize_none(self) -> Result<(), Bad> {
        Err(Bad)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<(), Bad> {
        Err(Bad)
    }
    fn serialize_unit(self) -> Result<(), Bad> {
        self.toks.push(Tok::Unit);
        Ok(())
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), Bad> {
        Err(Bad)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<(), Bad> {
        Err(Bad)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), Bad> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), Bad> {
        Err(Bad)
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Many<'a>, Bad> {
        let n = n.ok_or(Bad)?;
        self.toks.push(Tok::Seq(n));
        Ok(Many { out: self, left: n })
    }
    fn serialize_tuple(self, n: usize) -> Result<Many<'a>, Bad> {
        self.serialize_seq(Some(n))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Bad> {
        Err(Bad)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Bad> {
        Err(Bad)
    }
    fn serialize_map(self, n: Option<usize>) -> Result<Many<'a>, Bad> {
        let n = n.ok_or(Bad)?;
        self.toks.push(Tok::Map(n));
        Ok(Many { out: self, left: n })
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Bad> {
        Err(Bad)
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Bad> {
        Err(Bad)
    }
}
impl<'a> Many<'a> {
    fn one(&mut self) -> Result<(), Bad> {
        self.left = self.left.checked_sub(1).ok_or(Bad)?;
        Ok(())
    }
    fn done(self) -> Result<(), Bad> {
        if self.left == 0 {
            Ok(())
        } else {
            Err(Bad)
        }
    }
}
impl<'a> ser::SerializeSeq for Many<'a> {
    type Ok = ();
    type Error = Bad;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Bad> {
        self.one()?;
        v.serialize(&mut *self.out)
    }
    fn end(self) -> Result<(), Bad> {
        self.done()
    }
}
impl<'a> ser::SerializeTuple for Many<'a> {
    type Ok = ();
    type Error = Bad;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Bad> {
        self.one()?;
        v.serialize(&mut *self.out)
    }
    fn end(self) -> Result<(), Bad> {
        self.done()
    }
}
impl<'a> ser::SerializeMap for Many<'a> {
    type Ok = ();
    type Error = Bad;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Bad> {
        self.one()?;
        v.serialize(&mut *self.out)
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Bad> {
        v.serialize(&mut *self.out)
    }
    fn end(self) -> Result<(), Bad> {
        self.done()
    }
}
#[inline(never)]
pub fn serialise<T: Serialize>(t: &T) -> Vec<Tok> {
    let mut o = Out::default();
    check(t.serialize(&mut o).is_ok(), "serialising works");
    o.toks
}

/// reads tokens; sequences and maps claim to have `hint` elements
pub struct In<'a> {
    toks: &'a [Tok],
    hint: Option<usize>,
}
struct Parts<'a, 'b> {
    i: &'b mut In<'a>,
    left: usize,
}
impl<'de, 'a, 'b> Deserializer<'de> for &'b mut In<'a> {
    type Error = Bad;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
        let t = *self.toks.first().ok_or(Bad)?;
        self.toks = &self.toks[1..];
        match t {
            Tok::U(x) => v.visit_u64(x),
            Tok::I(x) => v.visit_i64(x),
            Tok::B(x) => v.visit_bool(x),
            Tok::Unit => v.visit_unit(),
            Tok::Seq(n) => v.visit_seq(Parts { i: self, left: n }),
            Tok::Map(n) => v.visit_map(Parts { i: self, left: n }),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
impl<'de, 'a, 'b> SeqAccess<'de> for Parts<'a, 'b> {
    type Error = Bad;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Bad> {
        if self.left == 0 {
            return Ok(None);
        }
        self.left -= 1;
        seed.deserialize(&mut *self.i).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        self.i.hint
    }
}
impl<'de, 'a, 'b> MapAccess<'de> for Parts<'a, 'b> {
    type Error = Bad;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Bad> {
        if self.left == 0 {
            return Ok(None);
        }
        self.left -= 1;
        seed.deserialize(&mut *self.i).map(Some)
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<T::Value, Bad> {
        seed.deserialize(&mut *self.i)
    }
    fn size_hint(&self) -> Option<usize> {
        self.i.hint
    }
}
#[inline(never)]
pub fn deserialise<T: DeserializeOwned>(toks: &[Tok], hint: Option<usize>) -> Result<T, Bad> {
    let mut i = In { toks, hint };
    T::deserialize(&mut i)
}
/// any size hint: none, small, or absurdly large
#[inline(never)]
pub fn any_hint() -> Option<usize> {
    match choice(3) {
        0 => None,
        1 => Some(choice(10)),
        _ => {
            let n = u64();
            assume(n > 5000);
            Some(n as usize)
        }
    }
}
/// the number, as whatever integer token
#[inline(never)]
pub fn tok<T: Sym>(x: T) -> Tok {
    Tok::U(x.code())
}
