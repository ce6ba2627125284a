//! Captures anything `Serialize` into the generic tree V: what a user of the serialised tree sees.
use crate::v::V;
use serde::ser::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt;

#[derive(Debug)]
pub struct E(pub String);
impl fmt::Display for E {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for E {}
impl serde::ser::Error for E {
    fn custom<T: fmt::Display>(m: T) -> Self {
        E(m.to_string())
    }
}

thread_local! { static INTERN: RefCell<HashMap<String, &'static str>> = RefCell::new(HashMap::new()); }
fn intern(s: &str) -> &'static str {
    INTERN.with(|m| {
        let mut m = m.borrow_mut();
        if let Some(x) = m.get(s) {
            return *x;
        }
        let l: &'static str = Box::leak(s.to_string().into_boxed_str());
        m.insert(s.to_string(), l);
        l
    })
}

pub fn capture<T: Serialize>(t: &T) -> Result<V, E> {
    t.serialize(Cap)
}

struct Cap;
struct Seq(Vec<V>, Option<&'static str>);
struct Map(Vec<(&'static str, V)>, Option<&'static str>, Option<&'static str>);

fn wrap(v: V, variant: Option<&'static str>) -> V {
    match variant {
        Some(n) => V::Obj(vec![(n, v)]),
        None => v,
    }
}

macro_rules! num {
    ($($f:ident $t:ty),*) => { $(fn $f(self, v: $t) -> Result<V, E> { Ok(V::Num(v as f64)) })* };
}

impl Serializer for Cap {
    type Ok = V;
    type Error = E;
    type SerializeSeq = Seq;
    type SerializeTuple = Seq;
    type SerializeTupleStruct = Seq;
    type SerializeTupleVariant = Seq;
    type SerializeMap = Map;
    type SerializeStruct = Map;
    type SerializeStructVariant = Map;
    num!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16,
        serialize_u32 u32, serialize_u64 u64, serialize_f32 f32, serialize_f64 f64);
    fn serialize_bool(self, v: bool) -> Result<V, E> {
        Ok(V::Bool(v))
    }
    fn serialize_char(self, v: char) -> Result<V, E> {
        Ok(V::Str(v.to_string()))
    }
    fn serialize_str(self, v: &str) -> Result<V, E> {
        Ok(V::Str(v.to_string()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<V, E> {
        Ok(V::Arr(v.iter().map(|b| V::Num(*b as f64)).collect()))
    }
    fn serialize_none(self) -> Result<V, E> {
        Ok(V::Null)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<V, E> {
        v.serialize(Cap)
    }
    fn serialize_unit(self) -> Result<V, E> {
        Ok(V::Null)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<V, E> {
        Ok(V::Null)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<V, E> {
        Ok(V::s(v))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<V, E> {
        v.serialize(Cap)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(
        self,
        _: &'static str,
        _: u32,
        n: &'static str,
        v: &T,
    ) -> Result<V, E> {
        Ok(V::Obj(vec![(n, v.serialize(Cap)?)]))
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Seq, E> {
        Ok(Seq(Vec::with_capacity(n.unwrap_or(0).min(64)), None))
    }
    fn serialize_tuple(self, _: usize) -> Result<Seq, E> {
        Ok(Seq(vec![], None))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Seq, E> {
        Ok(Seq(vec![], None))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Seq, E> {
        Ok(Seq(vec![], Some(n)))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Map, E> {
        Ok(Map(vec![], None, None))
    }
    fn serialize_struct(self, _: &'static str, n: usize) -> Result<Map, E> {
        Ok(Map(Vec::with_capacity(n), None, None))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Map, E> {
        Ok(Map(vec![], None, Some(n)))
    }
}
impl SerializeSeq for Seq {
    type Ok = V;
    type Error = E;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        self.0.push(v.serialize(Cap)?);
        Ok(())
    }
    fn end(self) -> Result<V, E> {
        Ok(wrap(V::Arr(self.0), self.1))
    }
}
impl SerializeTuple for Seq {
    type Ok = V;
    type Error = E;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        SerializeSeq::serialize_element(self, v)
    }
    fn end(self) -> Result<V, E> {
        SerializeSeq::end(self)
    }
}
impl SerializeTupleStruct for Seq {
    type Ok = V;
    type Error = E;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        SerializeSeq::serialize_element(self, v)
    }
    fn end(self) -> Result<V, E> {
        SerializeSeq::end(self)
    }
}
impl SerializeTupleVariant for Seq {
    type Ok = V;
    type Error = E;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        SerializeSeq::serialize_element(self, v)
    }
    fn end(self) -> Result<V, E> {
        SerializeSeq::end(self)
    }
}
impl SerializeMap for Map {
    type Ok = V;
    type Error = E;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<(), E> {
        self.1 = Some(match k.serialize(Cap)? {
            V::Str(s) => intern(&s),
            other => intern(&format!("{:?}", other)),
        });
        Ok(())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        let k = self.1.take().unwrap_or("");
        self.0.push((k, v.serialize(Cap)?));
        Ok(())
    }
    fn end(self) -> Result<V, E> {
        Ok(wrap(V::Obj(self.0), self.2))
    }
}
impl SerializeStruct for Map {
    type Ok = V;
    type Error = E;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), E> {
        self.0.push((k, v.serialize(Cap)?));
        Ok(())
    }
    fn end(self) -> Result<V, E> {
        Ok(wrap(V::Obj(self.0), self.2))
    }
}
impl SerializeStructVariant for Map {
    type Ok = V;
    type Error = E;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), E> {
        SerializeStruct::serialize_field(self, k, v)
    }
    fn end(self) -> Result<V, E> {
        SerializeStruct::end(self)
    }
}
