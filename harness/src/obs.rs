//! Everything that can be observed of a bag.

use std::borrow::Cow;

use value_bag::ValueBag;

use crate::{
    prim::{casts_of, Casts},
    recserde::{self, Fb, S},
    recsval::{self, T, V},
    recvisit::{self, chain, Full, C},
    sink,
};

#[derive(Clone, Debug, PartialEq)]
pub struct Seqs {
    pub u64: Option<Vec<Option<u64>>>,
    pub i64: Option<Vec<Option<i64>>>,
    pub u128: Option<Vec<Option<u128>>>,
    pub i128: Option<Vec<Option<i128>>>,
    pub f64: Option<Vec<Option<Fb>>>,
    pub as_f64: Vec<Fb>,
    pub bool: Option<Vec<Option<bool>>>,
    pub char: Option<Vec<Option<char>>>,
    pub str: Option<Vec<Option<String>>>,
}

/// What can be read of a bag without visiting it.
#[derive(Clone, Debug, PartialEq)]
pub struct Light {
    pub casts: Casts,
    pub seqs: Seqs,
    pub debug: Result<String, String>,
    pub display: Result<String, String>,
    pub serde: Result<Vec<S>, Vec<S>>,
    pub serde_compact: Result<Vec<S>, Vec<S>>,
    pub sval: Result<Vec<V>, Vec<V>>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Obs {
    pub empty: bool,
    pub light: Light,
    pub debug_alt: Result<String, String>,
    pub visit: (Vec<C>, bool),
    pub error: Option<Vec<String>>,
    /// Text handed out borrowed: by the str read, by the sequence read
    pub borrowed: Option<String>,
    pub borrowed_seq: Option<Vec<Option<String>>>,
}

pub fn text(a: std::fmt::Arguments) -> Result<String, String> {
    use std::fmt::Write;
    let mut s = String::new();
    match s.write_fmt(a) {
        Ok(()) => Ok(s),
        Err(_) => Err(s),
    }
}

pub fn seqs_of(b: &ValueBag) -> Seqs {
    Seqs {
        u64: b.to_u64_seq(),
        i64: b.to_i64_seq(),
        u128: b.to_u128_seq(),
        i128: b.to_i128_seq(),
        f64: b
            .to_f64_seq::<Vec<Option<f64>>>()
            .map(|s| s.into_iter().map(|v| v.map(Fb)).collect()),
        as_f64: b.as_f64_seq::<Vec<f64>>().into_iter().map(Fb).collect(),
        bool: b.to_bool_seq(),
        char: b.to_char_seq(),
        str: b
            .to_str_seq::<Vec<Option<Cow<str>>>>()
            .map(|s| s.into_iter().map(|v| v.map(|v| v.into_owned())).collect()),
    }
}

pub fn light(b: &ValueBag) -> Light {
    Light {
        casts: casts_of(b),
        seqs: seqs_of(b),
        debug: text(format_args!("{b:?}")),
        display: text(format_args!("{b}")),
        serde: recserde::trace(b),
        serde_compact: recserde::trace_hr(b, false),
        sval: strip(recsval::trace(b)),
    }
}

pub fn visit_of(b: &ValueBag) -> (Vec<C>, bool) {
    let mut sink = |_: &ValueBag| ();
    let mut v = Full::new(false, &mut sink);
    let ok = b.visit(&mut v).is_ok();
    (v.calls, ok)
}

/// Remove addresses, which identify where text lives rather than what it says.
pub fn strip(t: Result<Vec<V>, Vec<V>>) -> Result<Vec<V>, Vec<V>> {
    let f = |v: Vec<V>| {
        v.into_iter()
            .map(|e| match e {
                V::Text(s, b) => V::Text(s, b.map(|_| 0)),
                V::Bin(s, b) => V::Bin(s, b.map(|_| 0)),
                e => e,
            })
            .collect()
    };
    t.map(f).map_err(f)
}

pub fn strip_visit(c: C) -> C {
    match c {
        C::BorrowedStr(s, _) => C::BorrowedStr(s, 0),
        C::BorrowedError(s, _) => C::BorrowedError(s, 0),
        c => c,
    }
}

pub fn observe(b: &ValueBag) -> Obs {
    let (calls, ok) = visit_of(b);
    Obs {
        empty: b.is_empty(),
        light: light(b),
        debug_alt: text(format_args!("{b:#?}")),
        visit: (calls.into_iter().map(strip_visit).collect(), ok),
        error: b.to_borrowed_error().map(chain),
        borrowed: b.to_borrowed_str().map(|s| s.to_owned()),
        borrowed_seq: b
            .to_borrowed_str_seq::<Vec<Option<&str>>>()
            .map(|s| s.into_iter().map(|v| v.map(|v| v.to_owned())).collect()),
    }
}

pub fn unborrow_v(v: Vec<V>) -> Vec<V> {
    v.into_iter()
        .map(|e| match e {
            V::Text(s, _) => V::Text(s, None),
            V::Bin(s, _) => V::Bin(s, None),
            e => e,
        })
        .collect()
}

fn unborrow_c(c: C) -> C {
    match c {
        C::BorrowedStr(s, _) => C::Str(s),
        C::BorrowedError(s, _) => C::Error(s),
        c => c,
    }
}

impl Obs {
    /// Ignore whether text and errors were handed out borrowed.
    pub fn unborrowed(mut self) -> Obs {
        self.light.sval = self.light.sval.map(unborrow_v).map_err(unborrow_v);
        self.visit.0 = self.visit.0.into_iter().map(unborrow_c).collect();
        self.borrowed = None;
        self.borrowed_seq = None;
        self.error = None;
        self
    }

    /// What must survive buffering.
    pub fn buffered(mut self) -> Obs {
        self = self.unborrowed();
        // Formatting flags may be lost
        self.debug_alt = Ok(String::new());
        self.empty = false;
        self.light = self.light.buffered();
        self.visit.0 = self.visit.0.into_iter().map(widen_c).collect();
        self
    }
}

impl Light {
    pub fn buffered(mut self) -> Light {
        let f = |v: Vec<V>| recsval::plain(&v).into_iter().map(widen_v).map(untag).collect();
        self.sval = self.sval.map(f).map_err(|_| Vec::new());
        self.serde = self.serde.map(unhint_s).map_err(|_| Vec::new());
        self.serde_compact = self.serde_compact.map(unhint_s).map_err(|_| Vec::new());
        self
    }

    /// The same reading handed through another handle.
    pub fn unborrowed(mut self) -> Light {
        self.sval = self.sval.map(unborrow_v).map_err(unborrow_v);
        self
    }
}

/// The frameworks' buffers forget skipped fields, and know sizes that weren't announced.
fn unhint_s(v: Vec<S>) -> Vec<S> {
    v.into_iter()
        .filter(|e| !matches!(e, S::Skip(_)))
        .map(|e| match e {
            S::Seq(_) => S::Seq(None),
            S::Map(_) => S::Map(None),
            S::Struct(n, _) => S::Struct(n, 0),
            S::StructVariant(n, i, v, _) => S::StructVariant(n, i, v, 0),
            e => widen_s(e),
        })
        .collect()
}

/// Labels lose their own tags when the frameworks make them owned.
fn untag(v: V) -> V {
    let f = |t: T| T {
        label: t.label.map(|(l, _)| (l, None)),
        ..t
    };
    match v {
        V::EnumBegin(t) => V::EnumBegin(f(t)),
        V::EnumEnd(t) => V::EnumEnd(f(t)),
        V::TaggedBegin(t) => V::TaggedBegin(f(t)),
        V::TaggedEnd(t) => V::TaggedEnd(f(t)),
        V::Tag(t) => V::Tag(f(t)),
        V::RecordBegin(t, n) => V::RecordBegin(f(t), n),
        V::RecordFieldBegin(t) => V::RecordFieldBegin(f(t)),
        V::RecordFieldEnd(t) => V::RecordFieldEnd(f(t)),
        V::RecordEnd(t) => V::RecordEnd(f(t)),
        V::TupleBegin(t, n) => V::TupleBegin(f(t), n),
        V::TupleFieldBegin(t) => V::TupleFieldBegin(f(t)),
        V::TupleFieldEnd(t) => V::TupleFieldEnd(f(t)),
        V::TupleEnd(t) => V::TupleEnd(f(t)),
        V::RecTupBegin(t, n) => V::RecTupBegin(f(t), n),
        V::RecTupFieldBegin(t) => V::RecTupFieldBegin(f(t)),
        V::RecTupFieldEnd(t) => V::RecTupFieldEnd(f(t)),
        V::RecTupEnd(t) => V::RecTupEnd(f(t)),
        v => v,
    }
}

pub fn widen_v(v: V) -> V {
    match v {
        V::U8(v) => V::U128(v as u128),
        V::U16(v) => V::U128(v as u128),
        V::U32(v) => V::U128(v as u128),
        V::U64(v) => V::U128(v as u128),
        V::I8(v) => V::I128(v as i128),
        V::I16(v) => V::I128(v as i128),
        V::I32(v) => V::I128(v as i128),
        V::I64(v) => V::I128(v as i128),
        v => v,
    }
}

pub fn widen_s(v: S) -> S {
    match v {
        S::U8(v) => S::U128(v as u128),
        S::U16(v) => S::U128(v as u128),
        S::U32(v) => S::U128(v as u128),
        S::U64(v) => S::U128(v as u128),
        S::I8(v) => S::I128(v as i128),
        S::I16(v) => S::I128(v as i128),
        S::I32(v) => S::I128(v as i128),
        S::I64(v) => S::I128(v as i128),
        v => v,
    }
}

pub fn widen_c(v: C) -> C {
    match v {
        C::U64(v) => C::U128(v as u128),
        C::I64(v) => C::I128(v as i128),
        v => v,
    }
}

/// The first difference between two observations.
pub fn diff(a: &Obs, b: &Obs) -> Option<String> {
    macro_rules! f {
        ($($n:ident).+) => {
            if a.$($n).+ != b.$($n).+ {
                return Some(format!(
                    "{}: expected {} but observed {}",
                    stringify!($($n).+),
                    crate::ctx::short(&a.$($n).+),
                    crate::ctx::short(&b.$($n).+)
                ));
            }
        };
    }
    f!(empty);
    if let Some(d) = diff_light(&a.light, &b.light) {
        return Some(d);
    }
    f!(debug_alt);
    f!(visit);
    f!(error);
    f!(borrowed);
    f!(borrowed_seq);
    None
}

pub fn diff_light(a: &Light, b: &Light) -> Option<String> {
    macro_rules! f {
        ($($n:ident).+) => {
            if a.$($n).+ != b.$($n).+ {
                return Some(format!(
                    "{}: expected {} but observed {}",
                    stringify!($($n).+),
                    crate::ctx::short(&a.$($n).+),
                    crate::ctx::short(&b.$($n).+)
                ));
            }
        };
    }
    f!(casts.u64);
    f!(casts.i64);
    f!(casts.u128);
    f!(casts.i128);
    f!(casts.f64);
    f!(casts.as_f64);
    f!(casts.bool);
    f!(casts.char);
    f!(casts.str);
    f!(casts.tryfrom);
    f!(seqs.u64);
    f!(seqs.i64);
    f!(seqs.u128);
    f!(seqs.i128);
    f!(seqs.f64);
    f!(seqs.as_f64);
    f!(seqs.bool);
    f!(seqs.char);
    f!(seqs.str);
    f!(debug);
    f!(display);
    f!(serde);
    f!(serde_compact);
    f!(sval);
    None
}

pub fn _unused() {
    let _ = sink::to_string;
    let _ = recvisit::err_addr;
}
