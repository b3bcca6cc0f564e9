//! An sval stream that records every event, judges that the stream is one complete
//! balanced value, and can be made to fail at any event.

use sval::{Index, Label, Result, Stream, Tag, Value};
use value_bag_sval2::lib as sval;

use crate::bits::Fb;

#[derive(Clone, Debug, PartialEq, Default)]
pub struct T {
    pub tag: Option<Tag>,
    pub label: Option<(String, Option<Tag>)>,
    pub index: Option<(i128, Option<Tag>)>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Null,
    Bool(bool),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    F32(Fb),
    F64(Fb),
    TextBegin(Option<usize>),
    /// A fragment, with its address when it was handed over as borrowed.
    Text(String, Option<usize>),
    TextEnd,
    BinBegin(Option<usize>),
    Bin(Vec<u8>, Option<usize>),
    BinEnd,
    MapBegin(Option<usize>),
    KeyBegin,
    KeyEnd,
    ValueBegin,
    ValueEnd,
    MapEnd,
    SeqBegin(Option<usize>),
    ElemBegin,
    ElemEnd,
    SeqEnd,
    EnumBegin(T),
    EnumEnd(T),
    TaggedBegin(T),
    TaggedEnd(T),
    Tag(T),
    Hint(Tag),
    RecordBegin(T, Option<usize>),
    RecordFieldBegin(T),
    RecordFieldEnd(T),
    RecordEnd(T),
    TupleBegin(T, Option<usize>),
    TupleFieldBegin(T),
    TupleFieldEnd(T),
    TupleEnd(T),
    RecTupBegin(T, Option<usize>),
    RecTupFieldBegin(T),
    RecTupFieldEnd(T),
    RecTupEnd(T),
}

fn index(i: &Index) -> (i128, Option<Tag>) {
    // `Index` prints its value; that's the only lossless view of it
    let v = i
        .to_u64()
        .map(|v| v as i128)
        .or_else(|| i.to_i64().map(|v| v as i128))
        .unwrap_or(i128::MIN);
    (v, i.tag().copied())
}

fn t(tag: Option<&Tag>, label: Option<&Label>, idx: Option<&Index>) -> T {
    T {
        tag: tag.copied(),
        label: label.map(|l| (l.as_str().to_owned(), l.tag().copied())),
        index: idx.map(index),
    }
}

#[derive(Default)]
pub struct Rec {
    pub events: Vec<V>,
    pub calls: usize,
    pub fail_at: Option<usize>,
    pub failed: bool,
    pub after_failure: usize,
    /// Empty string fragments carry no text; they're kept out of the record when set.
    pub overflow: bool,
}

const CAP: usize = 2_000_000;

impl Rec {
    pub fn new() -> Self {
        Rec::default()
    }

    pub fn failing(at: usize) -> Self {
        Rec {
            fail_at: Some(at),
            ..Rec::default()
        }
    }

    fn ev(&mut self, e: V) -> Result {
        crate::hook::tick();
        if self.failed {
            self.after_failure += 1;
            return sval::error();
        }
        let n = self.calls;
        self.calls += 1;
        if self.fail_at == Some(n) {
            self.failed = true;
            return sval::error();
        }
        if n > CAP {
            self.overflow = true;
            return sval::error();
        }
        self.events.push(e);
        Ok(())
    }
}

impl<'sval> Stream<'sval> for Rec {
    fn null(&mut self) -> Result {
        self.ev(V::Null)
    }
    fn bool(&mut self, v: bool) -> Result {
        self.ev(V::Bool(v))
    }
    fn u8(&mut self, v: u8) -> Result {
        self.ev(V::U8(v))
    }
    fn u16(&mut self, v: u16) -> Result {
        self.ev(V::U16(v))
    }
    fn u32(&mut self, v: u32) -> Result {
        self.ev(V::U32(v))
    }
    fn u64(&mut self, v: u64) -> Result {
        self.ev(V::U64(v))
    }
    fn u128(&mut self, v: u128) -> Result {
        self.ev(V::U128(v))
    }
    fn i8(&mut self, v: i8) -> Result {
        self.ev(V::I8(v))
    }
    fn i16(&mut self, v: i16) -> Result {
        self.ev(V::I16(v))
    }
    fn i32(&mut self, v: i32) -> Result {
        self.ev(V::I32(v))
    }
    fn i64(&mut self, v: i64) -> Result {
        self.ev(V::I64(v))
    }
    fn i128(&mut self, v: i128) -> Result {
        self.ev(V::I128(v))
    }
    fn f32(&mut self, v: f32) -> Result {
        self.ev(V::F32(Fb(v as f64)))
    }
    fn f64(&mut self, v: f64) -> Result {
        self.ev(V::F64(Fb(v)))
    }
    fn text_begin(&mut self, n: Option<usize>) -> Result {
        self.ev(V::TextBegin(n))
    }
    fn text_fragment(&mut self, s: &'sval str) -> Result {
        self.ev(V::Text(s.to_owned(), Some(s.as_ptr() as usize)))
    }
    fn text_fragment_computed(&mut self, s: &str) -> Result {
        self.ev(V::Text(s.to_owned(), None))
    }
    fn text_end(&mut self) -> Result {
        self.ev(V::TextEnd)
    }
    fn binary_begin(&mut self, n: Option<usize>) -> Result {
        self.ev(V::BinBegin(n))
    }
    fn binary_fragment(&mut self, s: &'sval [u8]) -> Result {
        self.ev(V::Bin(s.to_owned(), Some(s.as_ptr() as usize)))
    }
    fn binary_fragment_computed(&mut self, s: &[u8]) -> Result {
        self.ev(V::Bin(s.to_owned(), None))
    }
    fn binary_end(&mut self) -> Result {
        self.ev(V::BinEnd)
    }
    fn map_begin(&mut self, n: Option<usize>) -> Result {
        self.ev(V::MapBegin(n))
    }
    fn map_key_begin(&mut self) -> Result {
        self.ev(V::KeyBegin)
    }
    fn map_key_end(&mut self) -> Result {
        self.ev(V::KeyEnd)
    }
    fn map_value_begin(&mut self) -> Result {
        self.ev(V::ValueBegin)
    }
    fn map_value_end(&mut self) -> Result {
        self.ev(V::ValueEnd)
    }
    fn map_end(&mut self) -> Result {
        self.ev(V::MapEnd)
    }
    fn seq_begin(&mut self, n: Option<usize>) -> Result {
        self.ev(V::SeqBegin(n))
    }
    fn seq_value_begin(&mut self) -> Result {
        self.ev(V::ElemBegin)
    }
    fn seq_value_end(&mut self) -> Result {
        self.ev(V::ElemEnd)
    }
    fn seq_end(&mut self) -> Result {
        self.ev(V::SeqEnd)
    }
    fn enum_begin(&mut self, a: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> Result {
        self.ev(V::EnumBegin(t(a, l, i)))
    }
    fn enum_end(&mut self, a: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> Result {
        self.ev(V::EnumEnd(t(a, l, i)))
    }
    fn tagged_begin(&mut self, a: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> Result {
        self.ev(V::TaggedBegin(t(a, l, i)))
    }
    fn tagged_end(&mut self, a: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> Result {
        self.ev(V::TaggedEnd(t(a, l, i)))
    }
    fn tag(&mut self, a: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> Result {
        self.ev(V::Tag(t(a, l, i)))
    }
    fn tag_hint(&mut self, a: &Tag) -> Result {
        self.ev(V::Hint(*a))
    }
    fn record_begin(
        &mut self,
        a: Option<&Tag>,
        l: Option<&Label>,
        i: Option<&Index>,
        n: Option<usize>,
    ) -> Result {
        self.ev(V::RecordBegin(t(a, l, i), n))
    }
    fn record_value_begin(&mut self, a: Option<&Tag>, l: &Label) -> Result {
        self.ev(V::RecordFieldBegin(t(a, Some(l), None)))
    }
    fn record_value_end(&mut self, a: Option<&Tag>, l: &Label) -> Result {
        self.ev(V::RecordFieldEnd(t(a, Some(l), None)))
    }
    fn record_end(&mut self, a: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> Result {
        self.ev(V::RecordEnd(t(a, l, i)))
    }
    fn tuple_begin(
        &mut self,
        a: Option<&Tag>,
        l: Option<&Label>,
        i: Option<&Index>,
        n: Option<usize>,
    ) -> Result {
        self.ev(V::TupleBegin(t(a, l, i), n))
    }
    fn tuple_value_begin(&mut self, a: Option<&Tag>, i: &Index) -> Result {
        self.ev(V::TupleFieldBegin(t(a, None, Some(i))))
    }
    fn tuple_value_end(&mut self, a: Option<&Tag>, i: &Index) -> Result {
        self.ev(V::TupleFieldEnd(t(a, None, Some(i))))
    }
    fn tuple_end(&mut self, a: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> Result {
        self.ev(V::TupleEnd(t(a, l, i)))
    }
    fn record_tuple_begin(
        &mut self,
        a: Option<&Tag>,
        l: Option<&Label>,
        i: Option<&Index>,
        n: Option<usize>,
    ) -> Result {
        self.ev(V::RecTupBegin(t(a, l, i), n))
    }
    fn record_tuple_value_begin(&mut self, a: Option<&Tag>, l: &Label, i: &Index) -> Result {
        self.ev(V::RecTupFieldBegin(t(a, Some(l), Some(i))))
    }
    fn record_tuple_value_end(&mut self, a: Option<&Tag>, l: &Label, i: &Index) -> Result {
        self.ev(V::RecTupFieldEnd(t(a, Some(l), Some(i))))
    }
    fn record_tuple_end(&mut self, a: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> Result {
        self.ev(V::RecTupEnd(t(a, l, i)))
    }
}

pub fn trace<'a, X: Value + ?Sized>(v: &'a X) -> std::result::Result<Vec<V>, Vec<V>> {
    let mut r = Rec::new();
    finish(v.stream(&mut r), r)
}

pub fn finish(res: Result, mut r: Rec) -> std::result::Result<Vec<V>, Vec<V>> {
    match res {
        Ok(()) => Ok(std::mem::take(&mut r.events)),
        Err(_) => Err(std::mem::take(&mut r.events)),
    }
}

/// Judge that the events form exactly one complete value.
pub fn balanced(events: &[V]) -> std::result::Result<(), String> {
    #[derive(Debug, Clone, PartialEq)]
    enum F {
        Text,
        Bin,
        Map,
        Key,
        AfterKey,
        Val,
        Seq,
        Elem,
        Enum(T),
        Tagged(T),
        Record(T),
        RecordField(T),
        Tuple(T),
        TupleField(T),
        RecTup(T),
        RecTupField(T),
    }
    // Each frame counts the complete values directly inside
    let mut st: Vec<(F, usize)> = Vec::new();
    let mut roots = 0usize;

    fn value(st: &mut Vec<(F, usize)>, roots: &mut usize) -> std::result::Result<(), String> {
        match st.last_mut() {
            None => {
                *roots += 1;
                if *roots > 1 {
                    return Err("more than one value".into());
                }
            }
            Some((f, n)) => {
                *n += 1;
                match f {
                    F::Text | F::Bin | F::Map | F::AfterKey | F::Seq => {
                        return Err(format!("value directly in {f:?}"))
                    }
                    F::Record(_) | F::Tuple(_) | F::RecTup(_) => {
                        return Err(format!("value directly in {f:?}"))
                    }
                    _ if *n > 1 => return Err(format!("two values in {f:?}")),
                    _ => (),
                }
            }
        }
        Ok(())
    }

    for (i, e) in events.iter().enumerate() {
        let err = |m: &str| Err(format!("event {i} {e:?}: {m}"));
        macro_rules! open {
            ($f:expr) => {{
                if let Err(m) = value(&mut st, &mut roots) {
                    return err(&m);
                }
                st.push(($f, 0));
            }};
        }
        macro_rules! close {
            ($f:expr, $need:expr) => {{
                match st.pop() {
                    Some((f, n)) if f == $f => {
                        if $need && n != 1 {
                            return err("closed without a value");
                        }
                    }
                    o => return err(&format!("closes {o:?}")),
                }
            }};
        }
        macro_rules! sub {
            ($parent:pat, $f:expr) => {{
                match st.last() {
                    Some(($parent, _)) => st.push(($f, 0)),
                    o => return err(&format!("inside {o:?}")),
                }
            }};
        }
        match e {
            V::Hint(_) => (),
            V::Null
            | V::Bool(_)
            | V::U8(_)
            | V::U16(_)
            | V::U32(_)
            | V::U64(_)
            | V::U128(_)
            | V::I8(_)
            | V::I16(_)
            | V::I32(_)
            | V::I64(_)
            | V::I128(_)
            | V::F32(_)
            | V::F64(_)
            | V::Tag(_) => {
                if let Err(m) = value(&mut st, &mut roots) {
                    return err(&m);
                }
            }
            V::TextBegin(_) => open!(F::Text),
            V::Text(..) => {
                if !matches!(st.last(), Some((F::Text, _))) {
                    return err("text outside of text");
                }
            }
            V::TextEnd => close!(F::Text, false),
            V::BinBegin(_) => open!(F::Bin),
            V::Bin(..) => {
                if !matches!(st.last(), Some((F::Bin, _))) {
                    return err("binary outside of binary");
                }
            }
            V::BinEnd => close!(F::Bin, false),
            V::MapBegin(_) => open!(F::Map),
            V::KeyBegin => sub!(F::Map, F::Key),
            V::KeyEnd => {
                close!(F::Key, true);
                st.push((F::AfterKey, 0));
            }
            V::ValueBegin => {
                close!(F::AfterKey, false);
                st.push((F::Val, 0));
            }
            V::ValueEnd => close!(F::Val, true),
            V::MapEnd => close!(F::Map, false),
            V::SeqBegin(_) => open!(F::Seq),
            V::ElemBegin => sub!(F::Seq, F::Elem),
            V::ElemEnd => close!(F::Elem, true),
            V::SeqEnd => close!(F::Seq, false),
            V::EnumBegin(x) => open!(F::Enum(x.clone())),
            V::EnumEnd(x) => close!(F::Enum(x.clone()), false),
            V::TaggedBegin(x) => open!(F::Tagged(x.clone())),
            V::TaggedEnd(x) => close!(F::Tagged(x.clone()), true),
            V::RecordBegin(x, _) => open!(F::Record(x.clone())),
            V::RecordFieldBegin(x) => sub!(F::Record(_), F::RecordField(x.clone())),
            V::RecordFieldEnd(x) => close!(F::RecordField(x.clone()), true),
            V::RecordEnd(x) => close!(F::Record(x.clone()), false),
            V::TupleBegin(x, _) => open!(F::Tuple(x.clone())),
            V::TupleFieldBegin(x) => sub!(F::Tuple(_), F::TupleField(x.clone())),
            V::TupleFieldEnd(x) => close!(F::TupleField(x.clone()), true),
            V::TupleEnd(x) => close!(F::Tuple(x.clone()), false),
            V::RecTupBegin(x, _) => open!(F::RecTup(x.clone())),
            V::RecTupFieldBegin(x) => sub!(F::RecTup(_), F::RecTupField(x.clone())),
            V::RecTupFieldEnd(x) => close!(F::RecTupField(x.clone()), true),
            V::RecTupEnd(x) => close!(F::RecTup(x.clone()), false),
        }
    }
    if !st.is_empty() {
        return Err(format!("{} frames left open", st.len()));
    }
    if roots != 1 {
        return Err("no value".into());
    }
    Ok(())
}

/// The same trace with text as one fragment, without size hints, tag hints or borrowing.
pub fn plain(events: &[V]) -> Vec<V> {
    let mut out = Vec::with_capacity(events.len());
    for e in events {
        match e {
            V::Hint(_) => (),
            V::TextBegin(_) => out.push(V::Text(String::new(), None)),
            V::Text(s, _) => {
                if let Some(V::Text(b, _)) = out.last_mut() {
                    b.push_str(s)
                }
            }
            V::TextEnd => (),
            V::BinBegin(_) => out.push(V::Bin(Vec::new(), None)),
            V::Bin(s, _) => {
                if let Some(V::Bin(b, _)) = out.last_mut() {
                    b.extend_from_slice(s)
                }
            }
            V::BinEnd => (),
            V::MapBegin(_) => out.push(V::MapBegin(None)),
            V::SeqBegin(_) => out.push(V::SeqBegin(None)),
            V::RecordBegin(t, _) => out.push(V::RecordBegin(t.clone(), None)),
            V::TupleBegin(t, _) => out.push(V::TupleBegin(t.clone(), None)),
            V::RecTupBegin(t, _) => out.push(V::RecTupBegin(t.clone(), None)),
            e => out.push(e.clone()),
        }
    }
    out
}
