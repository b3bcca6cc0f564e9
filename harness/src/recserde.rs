//! A serde serializer that records every call made on it.

use serde::ser::{self, Serialize, Serializer};
use value_bag_serde1::lib as serde;

pub use crate::bits::Fb;

#[derive(Clone, Debug, PartialEq)]
pub enum S {
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    F32(Fb),
    F64(Fb),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    None,
    Some,
    Unit,
    UnitStruct(&'static str),
    UnitVariant(&'static str, u32, &'static str),
    NewtypeStruct(&'static str),
    NewtypeVariant(&'static str, u32, &'static str),
    Seq(Option<usize>),
    Tuple(usize),
    TupleStruct(&'static str, usize),
    TupleVariant(&'static str, u32, &'static str, usize),
    Map(Option<usize>),
    Struct(&'static str, usize),
    StructVariant(&'static str, u32, &'static str, usize),
    Elem,
    Key,
    Value,
    Field(&'static str),
    Skip(&'static str),
    End,
}

pub struct Rec {
    pub events: Vec<S>,
    pub calls: usize,
    pub fail_at: Option<usize>,
    pub failed: bool,
    /// Calls made on the serializer after it reported a failure.
    pub after_failure: usize,
    pub human_readable: bool,
    pub overflow: bool,
}

/// More calls than any generated value makes.
const CAP: usize = 2_000_000;

#[derive(Debug, Clone, PartialEq)]
pub struct RecErr(pub String);

impl std::fmt::Display for RecErr {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}

impl std::error::Error for RecErr {}

impl ser::Error for RecErr {
    fn custom<T: std::fmt::Display>(msg: T) -> Self {
        RecErr(msg.to_string())
    }
}

impl Rec {
    pub fn new() -> Self {
        Rec {
            events: Vec::new(),
            calls: 0,
            fail_at: None,
            failed: false,
            after_failure: 0,
            human_readable: true,
            overflow: false,
        }
    }

    pub fn failing(at: usize) -> Self {
        Rec {
            fail_at: Some(at),
            ..Rec::new()
        }
    }

    fn ev(&mut self, e: S) -> Result<(), RecErr> {
        crate::hook::tick();
        if self.failed {
            self.after_failure += 1;
            return Err(RecErr("called after failure".into()));
        }
        let n = self.calls;
        self.calls += 1;
        if self.fail_at == Some(n) {
            self.failed = true;
            return Err(RecErr(format!("recorder failed at call {n}")));
        }
        if n > CAP {
            self.overflow = true;
            return Err(RecErr("too many calls".into()));
        }
        self.events.push(e);
        Ok(())
    }

    /// The value returned for success, so it can be checked that it's handed back untouched.
    fn ok(&self) -> Ticket {
        Ticket(self.calls)
    }
}

#[derive(Debug, PartialEq, Clone, Copy)]
pub struct Ticket(pub usize);

type R = Result<Ticket, RecErr>;

impl<'a> Serializer for &'a mut Rec {
    type Ok = Ticket;
    type Error = RecErr;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Self;
    type SerializeTupleVariant = Self;
    type SerializeMap = Self;
    type SerializeStruct = Self;
    type SerializeStructVariant = Self;

    fn is_human_readable(&self) -> bool {
        self.human_readable
    }

    fn serialize_bool(self, v: bool) -> R {
        self.ev(S::Bool(v))?;
        Ok(self.ok())
    }
    fn serialize_i8(self, v: i8) -> R {
        self.ev(S::I8(v))?;
        Ok(self.ok())
    }
    fn serialize_i16(self, v: i16) -> R {
        self.ev(S::I16(v))?;
        Ok(self.ok())
    }
    fn serialize_i32(self, v: i32) -> R {
        self.ev(S::I32(v))?;
        Ok(self.ok())
    }
    fn serialize_i64(self, v: i64) -> R {
        self.ev(S::I64(v))?;
        Ok(self.ok())
    }
    fn serialize_i128(self, v: i128) -> R {
        self.ev(S::I128(v))?;
        Ok(self.ok())
    }
    fn serialize_u8(self, v: u8) -> R {
        self.ev(S::U8(v))?;
        Ok(self.ok())
    }
    fn serialize_u16(self, v: u16) -> R {
        self.ev(S::U16(v))?;
        Ok(self.ok())
    }
    fn serialize_u32(self, v: u32) -> R {
        self.ev(S::U32(v))?;
        Ok(self.ok())
    }
    fn serialize_u64(self, v: u64) -> R {
        self.ev(S::U64(v))?;
        Ok(self.ok())
    }
    fn serialize_u128(self, v: u128) -> R {
        self.ev(S::U128(v))?;
        Ok(self.ok())
    }
    fn serialize_f32(self, v: f32) -> R {
        self.ev(S::F32(Fb(v as f64)))?;
        Ok(self.ok())
    }
    fn serialize_f64(self, v: f64) -> R {
        self.ev(S::F64(Fb(v)))?;
        Ok(self.ok())
    }
    fn serialize_char(self, v: char) -> R {
        self.ev(S::Char(v))?;
        Ok(self.ok())
    }
    fn serialize_str(self, v: &str) -> R {
        self.ev(S::Str(v.to_owned()))?;
        Ok(self.ok())
    }
    fn serialize_bytes(self, v: &[u8]) -> R {
        self.ev(S::Bytes(v.to_owned()))?;
        Ok(self.ok())
    }
    fn serialize_none(self) -> R {
        self.ev(S::None)?;
        Ok(self.ok())
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> R {
        self.ev(S::Some)?;
        v.serialize(self)
    }
    fn serialize_unit(self) -> R {
        self.ev(S::Unit)?;
        Ok(self.ok())
    }
    fn serialize_unit_struct(self, name: &'static str) -> R {
        self.ev(S::UnitStruct(name))?;
        Ok(self.ok())
    }
    fn serialize_unit_variant(self, name: &'static str, i: u32, v: &'static str) -> R {
        self.ev(S::UnitVariant(name, i, v))?;
        Ok(self.ok())
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, name: &'static str, v: &T) -> R {
        self.ev(S::NewtypeStruct(name))?;
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(
        self,
        name: &'static str,
        i: u32,
        var: &'static str,
        v: &T,
    ) -> R {
        self.ev(S::NewtypeVariant(name, i, var))?;
        v.serialize(self)
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Self, RecErr> {
        self.ev(S::Seq(n))?;
        Ok(self)
    }
    fn serialize_tuple(self, n: usize) -> Result<Self, RecErr> {
        self.ev(S::Tuple(n))?;
        Ok(self)
    }
    fn serialize_tuple_struct(self, name: &'static str, n: usize) -> Result<Self, RecErr> {
        self.ev(S::TupleStruct(name, n))?;
        Ok(self)
    }
    fn serialize_tuple_variant(
        self,
        name: &'static str,
        i: u32,
        var: &'static str,
        n: usize,
    ) -> Result<Self, RecErr> {
        self.ev(S::TupleVariant(name, i, var, n))?;
        Ok(self)
    }
    fn serialize_map(self, n: Option<usize>) -> Result<Self, RecErr> {
        self.ev(S::Map(n))?;
        Ok(self)
    }
    fn serialize_struct(self, name: &'static str, n: usize) -> Result<Self, RecErr> {
        self.ev(S::Struct(name, n))?;
        Ok(self)
    }
    fn serialize_struct_variant(
        self,
        name: &'static str,
        i: u32,
        var: &'static str,
        n: usize,
    ) -> Result<Self, RecErr> {
        self.ev(S::StructVariant(name, i, var, n))?;
        Ok(self)
    }
    // The provided method panics when formatting fails
    fn collect_str<T: std::fmt::Display + ?Sized>(self, v: &T) -> R {
        use std::fmt::Write as _;
        let mut s = String::new();
        if write!(s, "{v}").is_err() {
            self.failed = true;
            return Err(RecErr("formatting failed".into()));
        }
        self.serialize_str(&s)
    }
}

impl<'a> ser::SerializeSeq for &'a mut Rec {
    type Ok = Ticket;
    type Error = RecErr;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), RecErr> {
        self.ev(S::Elem)?;
        v.serialize(&mut **self)?;
        Ok(())
    }
    fn end(self) -> R {
        self.ev(S::End)?;
        Ok(self.ok())
    }
}

impl<'a> ser::SerializeTuple for &'a mut Rec {
    type Ok = Ticket;
    type Error = RecErr;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), RecErr> {
        self.ev(S::Elem)?;
        v.serialize(&mut **self)?;
        Ok(())
    }
    fn end(self) -> R {
        self.ev(S::End)?;
        Ok(self.ok())
    }
}

impl<'a> ser::SerializeTupleStruct for &'a mut Rec {
    type Ok = Ticket;
    type Error = RecErr;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), RecErr> {
        self.ev(S::Elem)?;
        v.serialize(&mut **self)?;
        Ok(())
    }
    fn end(self) -> R {
        self.ev(S::End)?;
        Ok(self.ok())
    }
}

impl<'a> ser::SerializeTupleVariant for &'a mut Rec {
    type Ok = Ticket;
    type Error = RecErr;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), RecErr> {
        self.ev(S::Elem)?;
        v.serialize(&mut **self)?;
        Ok(())
    }
    fn end(self) -> R {
        self.ev(S::End)?;
        Ok(self.ok())
    }
}

impl<'a> ser::SerializeMap for &'a mut Rec {
    type Ok = Ticket;
    type Error = RecErr;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), RecErr> {
        self.ev(S::Key)?;
        v.serialize(&mut **self)?;
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), RecErr> {
        self.ev(S::Value)?;
        v.serialize(&mut **self)?;
        Ok(())
    }
    fn end(self) -> R {
        self.ev(S::End)?;
        Ok(self.ok())
    }
}

impl<'a> ser::SerializeStruct for &'a mut Rec {
    type Ok = Ticket;
    type Error = RecErr;
    fn serialize_field<T: Serialize + ?Sized>(
        &mut self,
        name: &'static str,
        v: &T,
    ) -> Result<(), RecErr> {
        self.ev(S::Field(name))?;
        v.serialize(&mut **self)?;
        Ok(())
    }
    fn skip_field(&mut self, name: &'static str) -> Result<(), RecErr> {
        self.ev(S::Skip(name))
    }
    fn end(self) -> R {
        self.ev(S::End)?;
        Ok(self.ok())
    }
}

impl<'a> ser::SerializeStructVariant for &'a mut Rec {
    type Ok = Ticket;
    type Error = RecErr;
    fn serialize_field<T: Serialize + ?Sized>(
        &mut self,
        name: &'static str,
        v: &T,
    ) -> Result<(), RecErr> {
        self.ev(S::Field(name))?;
        v.serialize(&mut **self)?;
        Ok(())
    }
    fn skip_field(&mut self, name: &'static str) -> Result<(), RecErr> {
        self.ev(S::Skip(name))
    }
    fn end(self) -> R {
        self.ev(S::End)?;
        Ok(self.ok())
    }
}

/// The trace of serializing a value, or `Err` with what was recorded up to the failure.
pub fn trace<T: Serialize + ?Sized>(v: &T) -> Result<Vec<S>, Vec<S>> {
    let mut r = Rec::new();
    run(v, &mut r)
}

pub fn trace_hr<T: Serialize + ?Sized>(v: &T, human_readable: bool) -> Result<Vec<S>, Vec<S>> {
    let mut r = Rec::new();
    r.human_readable = human_readable;
    run(v, &mut r)
}

pub fn run<T: Serialize + ?Sized>(v: &T, r: &mut Rec) -> Result<Vec<S>, Vec<S>> {
    match v.serialize(&mut *r) {
        // The ticket must be the one handed out by the last call
        Ok(Ticket(n)) if n == r.calls => Ok(std::mem::take(&mut r.events)),
        Ok(_) => {
            r.events.push(S::Str("<result of an earlier call returned>".into()));
            Err(std::mem::take(&mut r.events))
        }
        Err(_) => Err(std::mem::take(&mut r.events)),
    }
}
