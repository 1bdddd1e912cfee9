//! A compact positional format for serde: no field names, no type tags, sizes
//! in front, variants by number. What is left out when writing, or read in
//! another order than it was written, does not survive it.

use serde::{
    de::{self, DeserializeSeed, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor},
    ser::{self, Serialize},
    Deserialize,
};
use std::fmt::{self, Display};

#[derive(Debug)]
pub struct Error(String);

impl Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}

impl std::error::Error for Error {}

impl ser::Error for Error {
    fn custom<T: Display>(m: T) -> Self {
        Error(m.to_string())
    }
}

impl de::Error for Error {
    fn custom<T: Display>(m: T) -> Self {
        Error(m.to_string())
    }
}

type Res<T> = Result<T, Error>;

pub fn pack<T: Serialize>(v: &T) -> Res<Vec<u8>> {
    let mut w = Write(vec![]);
    v.serialize(&mut w)?;
    Ok(w.0)
}

pub fn unpack<T: for<'a> Deserialize<'a>>(b: &[u8]) -> Res<T> {
    let mut r = Read(b);
    let v = T::deserialize(&mut r)?;
    if r.0.is_empty() {
        Ok(v)
    } else {
        Err(Error(format!("{} bytes left over", r.0.len())))
    }
}

struct Write(Vec<u8>);

impl Write {
    fn size(&mut self, n: usize) {
        self.0.extend((n as u64).to_le_bytes());
    }
}

macro_rules! write_numbers {
    ($($f:ident $t:ty),*) => {$(
        fn $f(self, v: $t) -> Res<()> {
            self.0.extend(v.to_le_bytes());
            Ok(())
        }
    )*};
}

/// Sequences whose length is not known in front are gathered first.
struct Parts<'a> {
    out: &'a mut Write,
    items: Option<(Vec<u8>, usize)>,
}

impl Parts<'_> {
    fn put<T: ?Sized + Serialize>(&mut self, v: &T) -> Res<()> {
        match &mut self.items {
            None => v.serialize(&mut *self.out),
            Some((b, n)) => {
                let mut w = Write(std::mem::take(b));
                v.serialize(&mut w)?;
                *b = w.0;
                *n += 1;
                Ok(())
            }
        }
    }

    fn finish(self) -> Res<()> {
        if let Some((b, n)) = self.items {
            self.out.size(n);
            self.out.0.extend(b);
        }
        Ok(())
    }
}

impl<'a> ser::Serializer for &'a mut Write {
    type Ok = ();
    type Error = Error;
    type SerializeSeq = Parts<'a>;
    type SerializeTuple = Parts<'a>;
    type SerializeTupleStruct = Parts<'a>;
    type SerializeTupleVariant = Parts<'a>;
    type SerializeMap = Parts<'a>;
    type SerializeStruct = Parts<'a>;
    type SerializeStructVariant = Parts<'a>;

    write_numbers!(
        serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64,
        serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64,
        serialize_i128 i128, serialize_u128 u128, serialize_f32 f32, serialize_f64 f64
    );

    fn serialize_bool(self, v: bool) -> Res<()> {
        self.serialize_u8(v as u8)
    }

    fn serialize_char(self, v: char) -> Res<()> {
        self.serialize_u32(v as u32)
    }

    fn serialize_str(self, v: &str) -> Res<()> {
        self.serialize_bytes(v.as_bytes())
    }

    fn serialize_bytes(self, v: &[u8]) -> Res<()> {
        self.size(v.len());
        self.0.extend(v);
        Ok(())
    }

    fn serialize_none(self) -> Res<()> {
        self.serialize_u8(0)
    }

    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Res<()> {
        self.0.push(1);
        v.serialize(self)
    }

    fn serialize_unit(self) -> Res<()> {
        Ok(())
    }

    fn serialize_unit_struct(self, _: &'static str) -> Res<()> {
        Ok(())
    }

    fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> Res<()> {
        self.serialize_u32(i)
    }

    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Res<()> {
        v.serialize(self)
    }

    fn serialize_newtype_variant<T: ?Sized + Serialize>(
        self,
        _: &'static str,
        i: u32,
        _: &'static str,
        v: &T,
    ) -> Res<()> {
        self.0.extend(i.to_le_bytes());
        v.serialize(self)
    }

    fn serialize_seq(self, _: Option<usize>) -> Res<Parts<'a>> {
        Ok(Parts { out: self, items: Some((vec![], 0)) })
    }

    fn serialize_tuple(self, _: usize) -> Res<Parts<'a>> {
        Ok(Parts { out: self, items: None })
    }

    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Res<Parts<'a>> {
        Ok(Parts { out: self, items: None })
    }

    fn serialize_tuple_variant(
        self,
        _: &'static str,
        i: u32,
        _: &'static str,
        _: usize,
    ) -> Res<Parts<'a>> {
        self.0.extend(i.to_le_bytes());
        Ok(Parts { out: self, items: None })
    }

    fn serialize_map(self, _: Option<usize>) -> Res<Parts<'a>> {
        Ok(Parts { out: self, items: Some((vec![], 0)) })
    }

    fn serialize_struct(self, _: &'static str, _: usize) -> Res<Parts<'a>> {
        Ok(Parts { out: self, items: None })
    }

    fn serialize_struct_variant(
        self,
        _: &'static str,
        i: u32,
        _: &'static str,
        _: usize,
    ) -> Res<Parts<'a>> {
        self.0.extend(i.to_le_bytes());
        Ok(Parts { out: self, items: None })
    }

    fn is_human_readable(&self) -> bool {
        false
    }
}

impl ser::SerializeSeq for Parts<'_> {
    type Ok = ();
    type Error = Error;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Res<()> {
        self.put(v)
    }
    fn end(self) -> Res<()> {
        self.finish()
    }
}

impl ser::SerializeTuple for Parts<'_> {
    type Ok = ();
    type Error = Error;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Res<()> {
        self.put(v)
    }
    fn end(self) -> Res<()> {
        self.finish()
    }
}

impl ser::SerializeTupleStruct for Parts<'_> {
    type Ok = ();
    type Error = Error;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Res<()> {
        self.put(v)
    }
    fn end(self) -> Res<()> {
        self.finish()
    }
}

impl ser::SerializeTupleVariant for Parts<'_> {
    type Ok = ();
    type Error = Error;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Res<()> {
        self.put(v)
    }
    fn end(self) -> Res<()> {
        self.finish()
    }
}

impl ser::SerializeMap for Parts<'_> {
    type Ok = ();
    type Error = Error;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> Res<()> {
        self.put(v)
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Res<()> {
        self.put(v)
    }
    fn end(mut self) -> Res<()> {
        if let Some((_, n)) = &mut self.items {
            *n /= 2;
        }
        self.finish()
    }
}

impl ser::SerializeStruct for Parts<'_> {
    type Ok = ();
    type Error = Error;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, v: &T) -> Res<()> {
        self.put(v)
    }
    fn end(self) -> Res<()> {
        self.finish()
    }
}

impl ser::SerializeStructVariant for Parts<'_> {
    type Ok = ();
    type Error = Error;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, v: &T) -> Res<()> {
        self.put(v)
    }
    fn end(self) -> Res<()> {
        self.finish()
    }
}

struct Read<'b>(&'b [u8]);

impl<'b> Read<'b> {
    fn take(&mut self, n: usize) -> Res<&'b [u8]> {
        if n > self.0.len() {
            return Err(Error(format!("{n} bytes wanted, {} left", self.0.len())));
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }

    fn size(&mut self) -> Res<usize> {
        Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap()) as usize)
    }
}

macro_rules! read_numbers {
    ($($f:ident $v:ident $t:ty),*) => {$(
        fn $f<V: Visitor<'de>>(self, v: V) -> Res<V::Value> {
            let b = self.take(std::mem::size_of::<$t>())?;
            v.$v(<$t>::from_le_bytes(b.try_into().unwrap()))
        }
    )*};
}

struct Items<'a, 'b> {
    from: &'a mut Read<'b>,
    left: usize,
}

impl<'de> SeqAccess<'de> for Items<'_, '_> {
    type Error = Error;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Res<Option<T::Value>> {
        if self.left == 0 {
            return Ok(None);
        }
        self.left -= 1;
        s.deserialize(&mut *self.from).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.left)
    }
}

impl<'de> MapAccess<'de> for Items<'_, '_> {
    type Error = Error;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Res<Option<T::Value>> {
        self.next_element_seed(s)
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Res<T::Value> {
        s.deserialize(&mut *self.from)
    }
}

impl<'de> EnumAccess<'de> for &mut Read<'_> {
    type Error = Error;
    type Variant = Self;
    fn variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Res<(T::Value, Self)> {
        let i = u32::from_le_bytes(self.take(4)?.try_into().unwrap());
        let v = s.deserialize(de::value::U32Deserializer::<Error>::new(i))?;
        Ok((v, self))
    }
}

impl<'de> VariantAccess<'de> for &mut Read<'_> {
    type Error = Error;
    fn unit_variant(self) -> Res<()> {
        Ok(())
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Res<T::Value> {
        s.deserialize(self)
    }
    fn tuple_variant<V: Visitor<'de>>(self, n: usize, v: V) -> Res<V::Value> {
        v.visit_seq(Items { from: self, left: n })
    }
    fn struct_variant<V: Visitor<'de>>(
        self,
        fields: &'static [&'static str],
        v: V,
    ) -> Res<V::Value> {
        v.visit_seq(Items { from: self, left: fields.len() })
    }
}

impl<'de> de::Deserializer<'de> for &mut Read<'_> {
    type Error = Error;

    read_numbers!(
        deserialize_i8 visit_i8 i8, deserialize_i16 visit_i16 i16, deserialize_i32 visit_i32 i32,
        deserialize_i64 visit_i64 i64, deserialize_u8 visit_u8 u8, deserialize_u16 visit_u16 u16,
        deserialize_u32 visit_u32 u32, deserialize_u64 visit_u64 u64,
        deserialize_i128 visit_i128 i128, deserialize_u128 visit_u128 u128,
        deserialize_f32 visit_f32 f32, deserialize_f64 visit_f64 f64
    );

    fn deserialize_any<V: Visitor<'de>>(self, _: V) -> Res<V::Value> {
        Err(Error("the format does not describe itself".into()))
    }

    fn deserialize_ignored_any<V: Visitor<'de>>(self, v: V) -> Res<V::Value> {
        self.deserialize_any(v)
    }

    fn deserialize_identifier<V: Visitor<'de>>(self, v: V) -> Res<V::Value> {
        self.deserialize_any(v)
    }

    fn deserialize_bool<V: Visitor<'de>>(self, v: V) -> Res<V::Value> {
        v.visit_bool(self.take(1)?[0] != 0)
    }

    fn deserialize_char<V: Visitor<'de>>(self, v: V) -> Res<V::Value> {
        let c = u32::from_le_bytes(self.take(4)?.try_into().unwrap());
        v.visit_char(char::from_u32(c).ok_or(Error("not a character".into()))?)
    }

    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Res<V::Value> {
        let n = self.size()?;
        let s = std::str::from_utf8(self.take(n)?).map_err(|e| Error(e.to_string()))?;
        v.visit_str(s)
    }

    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Res<V::Value> {
        self.deserialize_str(v)
    }

    fn deserialize_bytes<V: Visitor<'de>>(self, v: V) -> Res<V::Value> {
        let n = self.size()?;
        v.visit_bytes(self.take(n)?)
    }

    fn deserialize_byte_buf<V: Visitor<'de>>(self, v: V) -> Res<V::Value> {
        self.deserialize_bytes(v)
    }

    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Res<V::Value> {
        match self.take(1)?[0] {
            0 => v.visit_none(),
            1 => v.visit_some(self),
            x => Err(Error(format!("{x} is neither nothing nor something"))),
        }
    }

    fn deserialize_unit<V: Visitor<'de>>(self, v: V) -> Res<V::Value> {
        v.visit_unit()
    }

    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Res<V::Value> {
        v.visit_unit()
    }

    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Res<V::Value> {
        v.visit_newtype_struct(self)
    }

    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Res<V::Value> {
        let left = self.size()?;
        v.visit_seq(Items { from: self, left })
    }

    fn deserialize_tuple<V: Visitor<'de>>(self, left: usize, v: V) -> Res<V::Value> {
        v.visit_seq(Items { from: self, left })
    }

    fn deserialize_tuple_struct<V: Visitor<'de>>(
        self,
        _: &'static str,
        left: usize,
        v: V,
    ) -> Res<V::Value> {
        v.visit_seq(Items { from: self, left })
    }

    fn deserialize_map<V: Visitor<'de>>(self, v: V) -> Res<V::Value> {
        let left = self.size()?;
        v.visit_map(Items { from: self, left })
    }

    fn deserialize_struct<V: Visitor<'de>>(
        self,
        _: &'static str,
        fields: &'static [&'static str],
        v: V,
    ) -> Res<V::Value> {
        v.visit_seq(Items { from: self, left: fields.len() })
    }

    fn deserialize_enum<V: Visitor<'de>>(
        self,
        _: &'static str,
        _: &'static [&'static str],
        v: V,
    ) -> Res<V::Value> {
        v.visit_enum(self)
    }

    fn is_human_readable(&self) -> bool {
        false
    }
}
