//! Runs the same workload in one feature configuration of the library and writes down what
//! every operation there is said. The values don't depend on the configuration; what they're
//! captured through and what's observed is what the configuration offers.
//!
//! `vbprobe --seed N --cases N --out FILE` writes pairs of hashes (operation, result).
//! `vbprobe --seed N --only CASE` writes the results of one case as text.
//! `vbprobe --compare FILE...` compares them.
//!
//! Two things depend on the configuration by design, and are marked in the names of operations:
//! 128-bit numbers captured by value (`[inline]`), and heap allocated text (`[alloc]`).

#![allow(dead_code)]

#[path = "../../harness/src/bits.rs"]
mod bits;
#[path = "../../harness/src/gen.rs"]
mod gen;
#[path = "../../harness/src/hook.rs"]
mod hook;
#[cfg(feature = "serde")]
#[path = "../../harness/src/recserde.rs"]
mod recserde;
#[cfg(feature = "sval")]
#[path = "../../harness/src/recsval.rs"]
mod recsval;
#[path = "../../harness/src/rng.rs"]
mod rng;

use std::{
    collections::HashMap,
    fmt::{self, Debug, Display, Write as _},
    io::Write as _,
};

use rng::{hash_str, mix, Rng};
use value_bag::{
    fill::Slot,
    visit::Visit,
    Error, ValueBag,
};

struct Out {
    case: u64,
    at: String,
    text: bool,
    pairs: Vec<(u64, u64)>,
    bags: u64,
    /// Short-lived text in a structured value
    textual: bool,
}

impl Out {
    fn say(&mut self, op: &str, value: &dyn Debug) {
        if self.textual && !cfg!(feature = "alloc") && !op.starts_with("{") && !op.starts_with("stream") {
            // There's nowhere to keep it
            return;
        }
        let v = format!("{value:?}");
        if self.text {
            println!("{} {op}\t{v}", self.at);
        }
        let k = mix(self.case ^ mix(hash_str(&self.at) ^ mix(hash_str(op))));
        self.pairs.push((k, hash_str(&v) ^ v.len() as u64));
    }
}

/// Some number that has to fit in its name.
fn inline(name: &str) -> String {
    if cfg!(feature = "inline-i128") {
        format!("{name}[inline]")
    } else {
        name.to_owned()
    }
}

fn alloc(name: &str) -> String {
    if cfg!(feature = "alloc") {
        format!("{name}[alloc]")
    } else {
        name.to_owned()
    }
}

struct Trunc(String);

impl fmt::Write for Trunc {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0.push_str(s);
        Ok(())
    }
}

fn text(a: fmt::Arguments) -> Result<String, String> {
    let mut t = Trunc(String::new());
    match t.write_fmt(a) {
        Ok(()) => Ok(t.0),
        Err(_) => Err(t.0),
    }
}

#[derive(Default)]
struct Rec(Vec<String>, bool);

impl Rec {
    fn push(&mut self, s: String) -> Result<(), Error> {
        self.0.push(s);
        if self.1 {
            Err(Error::msg("failed"))
        } else {
            Ok(())
        }
    }
}

impl<'v> Visit<'v> for Rec {
    fn visit_any(&mut self, v: ValueBag) -> Result<(), Error> {
        let r = [text(format_args!("{v}")), text(format_args!("{v:?}"))];
        self.push(format!("any {r:?} {:?} {:?}", v.to_u64(), v.to_borrowed_str()))
    }
    fn visit_empty(&mut self) -> Result<(), Error> {
        self.push("empty".into())
    }
    fn visit_u64(&mut self, v: u64) -> Result<(), Error> {
        self.push(format!("u64 {v}"))
    }
    fn visit_i64(&mut self, v: i64) -> Result<(), Error> {
        self.push(format!("i64 {v}"))
    }
    fn visit_u128(&mut self, v: u128) -> Result<(), Error> {
        self.push(format!("u128 {v}"))
    }
    fn visit_i128(&mut self, v: i128) -> Result<(), Error> {
        self.push(format!("i128 {v}"))
    }
    fn visit_f64(&mut self, v: f64) -> Result<(), Error> {
        self.push(format!("f64 {v:?}"))
    }
    fn visit_bool(&mut self, v: bool) -> Result<(), Error> {
        self.push(format!("bool {v}"))
    }
    fn visit_str(&mut self, v: &str) -> Result<(), Error> {
        self.push(format!("str {v:?}"))
    }
    fn visit_borrowed_str(&mut self, v: &'v str) -> Result<(), Error> {
        self.push(format!("borrowed str {v:?}"))
    }
    fn visit_char(&mut self, v: char) -> Result<(), Error> {
        self.push(format!("char {v:?}"))
    }
    #[cfg(feature = "error")]
    fn visit_error(&mut self, e: &(dyn std::error::Error + 'static)) -> Result<(), Error> {
        self.push(format!("error {e} {e:?}"))
    }
    #[cfg(feature = "error")]
    fn visit_borrowed_error(&mut self, e: &'v (dyn std::error::Error + 'static)) -> Result<(), Error> {
        self.push(format!("borrowed error {e} {e:?}"))
    }
}

/// A visitor that only takes what it must.
#[derive(Default)]
struct Least(Vec<String>);

impl<'v> Visit<'v> for Least {
    fn visit_any(&mut self, v: ValueBag) -> Result<(), Error> {
        let r = [text(format_args!("{v}")), text(format_args!("{v:?}"))];
        self.0.push(format!("{r:?} {:?}", v.to_i128()));
        Ok(())
    }
}

macro_rules! specs {
    ($out:ident, $v:expr, $($s:literal)*) => {
        $($out.say($s, &text(format_args!($s, $v)));)*
    };
}

fn observe(out: &mut Out, bag: &ValueBag) {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| everything(out, bag)));
    out.say("panicked", &r.is_err());
}

/// Everything that can be asked of a bag here.
fn everything(out: &mut Out, bag: &ValueBag) {
    out.bags += 1;
    out.say("to_u64", &bag.to_u64());
    out.say("to_i64", &bag.to_i64());
    out.say("to_u128", &bag.to_u128());
    out.say("to_i128", &bag.to_i128());
    out.say("to_f64", &bag.to_f64());
    out.say("as_f64", &bag.as_f64());
    out.say("to_bool", &bag.to_bool());
    out.say("to_char", &bag.to_char());
    out.say("to_borrowed_str", &bag.to_borrowed_str());
    out.say("is_empty", &bag.is_empty());
    out.say("is", &[
        bag.is::<Text>(), bag.is::<u8>(), bag.is::<i64>(), bag.is::<&'static str>(), bag.is::<Node>(), bag.is::<u128>(), bag.is::<bool>(), bag.is::<f32>(),
    ]);
    out.say("downcast_ref Text", &bag.downcast_ref::<Text>().map(|t| &t.0));
    out.say("downcast_ref Node", &bag.downcast_ref::<Node>());
    out.say("downcast_ref u16", &bag.downcast_ref::<u16>());
    macro_rules! try_from {
        ($($t:ident)*) => {
            $(out.say(concat!("try_from ", stringify!($t)), &$t::try_from(bag.clone()).ok());)*
        };
    }
    try_from!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f64 bool char);
    out.say("try_from &str", &<&str>::try_from(bag.clone()).ok());
    #[cfg(feature = "alloc")]
    {
        out.say("to_str", &bag.to_str());
        out.say("try_from String", &String::try_from(bag.clone()).ok());
        out.say("try_from Cow", &std::borrow::Cow::<str>::try_from(bag.clone()).ok());
    }
    specs!(out, bag, "{}" "{:#}" "{:10}" "{:*^12}" "{:<9.3}" "{:+08.2}" "{:.0}");
    specs!(out, bag, "{:?}" "{:#?}" "{:>14?}" "{:.2?}" "{:+?}" "{:08?}" "{:x?}" "{:#X?}" "{:#012x?}");
    for fail in [false, true] {
        let mut r = Rec(Vec::new(), fail);
        let ok = bag.visit(&mut r).is_ok();
        out.say(if fail { "visit, failing" } else { "visit" }, &(ok, r.0));
    }
    let mut r = Least::default();
    let ok = bag.visit(&mut r).is_ok();
    out.say("visit, least", &(ok, r.0));
    #[cfg(feature = "serde")]
    {
        out.say("serialize", &recserde::trace(bag));
        out.say("serialize, binary", &recserde::trace_hr(bag, false));
    }
    #[cfg(feature = "sval")]
    {
        let plain = |r: Result<Vec<recsval::V>, Vec<recsval::V>>| match r {
            Ok(v) => Ok(addressless(v)),
            Err(v) => Err(addressless(v)),
        };
        out.say("stream", &plain(recsval::trace(bag)));
        let mut r = recsval::Rec::new();
        let ok = value_bag_sval2::lib_ref::ValueRef::stream_ref(bag, &mut r);
        out.say("stream_ref", &plain(recsval::finish(ok, r)));
    }
    #[cfg(feature = "seq")]
    {
        out.say("to_u64_seq", &bag.to_u64_seq::<Vec<Option<u64>>>());
        out.say("to_i64_seq", &bag.to_i64_seq::<Vec<Option<i64>>>());
        out.say("to_u128_seq", &bag.to_u128_seq::<Vec<Option<u128>>>());
        out.say("to_i128_seq", &bag.to_i128_seq::<Vec<Option<i128>>>());
        out.say("to_f64_seq", &bag.to_f64_seq::<Vec<Option<f64>>>());
        out.say("as_f64_seq", &bag.as_f64_seq::<Vec<f64>>());
        out.say("to_bool_seq", &bag.to_bool_seq::<Vec<Option<bool>>>());
        out.say("to_char_seq", &bag.to_char_seq::<Vec<Option<char>>>());
        out.say("to_borrowed_str_seq", &bag.to_borrowed_str_seq::<Vec<Option<&str>>>());
        #[cfg(feature = "alloc")]
        out.say("to_str_seq", &bag.to_str_seq::<Vec<Option<std::borrow::Cow<str>>>>());
    }
    #[cfg(feature = "error")]
    {
        let e = bag.to_borrowed_error().map(|e| {
            let mut v = vec![format!("{e}"), format!("{e:?}")];
            let mut e = e;
            while let Some(s) = e.source() {
                v.push(format!("{s}"));
                e = s;
            }
            v
        });
        out.say("to_borrowed_error", &e);
    }
    #[cfg(feature = "test")]
    {
        let t = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| bag.to_test_token()));
        out.say("to_test_token", &t.ok());
    }
}

#[cfg(feature = "sval")]
fn addressless(v: Vec<recsval::V>) -> Vec<recsval::V> {
    use recsval::V;
    v.into_iter()
        .map(|v| match v {
            V::Text(s, a) => V::Text(s, a.map(|_| 0)),
            V::Bin(s, a) => V::Bin(s, a.map(|_| 0)),
            v => v,
        })
        .collect()
}

/// An owned bag consumed as it is.
#[cfg(feature = "owned")]
fn alone(out: &mut Out, o: &value_bag::OwnedValueBag) {
    specs!(out, o, "{}" "{:>9.3}" "{:?}" "{:#?}" "{:+08.2?}");
    #[cfg(feature = "serde")]
    out.say("serialize", &recserde::trace(o));
    #[cfg(feature = "sval")]
    out.say("stream", &recsval::trace(o).map(addressless).map_err(addressless));
}

/// One way to capture something, and the handles to it.
fn route(out: &mut Out, name: &str, bag: ValueBag) {
    let prefix = std::mem::replace(&mut out.at, String::new());
    out.at = format!("{prefix} {name}");
    observe(out, &bag);
    let at = out.at.clone();
    let pick = mix(out.case ^ hash_str(&at)) % 6;
    out.at = format!("{at} by_ref");
    if pick == 0 {
        observe(out, &bag.by_ref());
    }
    out.at = format!("{at} clone");
    if pick == 1 {
        observe(out, &bag.clone());
    }
    #[cfg(feature = "owned")]
    {
        if pick < 4 {
            out.at = format!("{at} to_owned");
            let o = bag.to_owned();
            observe(out, &o.by_ref());
            out.at = format!("{at} to_owned shared");
            observe(out, &o.clone().into_shared().by_ref());
            out.at = format!("{at} owned");
            alone(out, &o);
        } else {
            out.at = format!("{at} to_shared");
            let o = bag.to_shared();
            observe(out, &o.by_ref());
            out.at = format!("{at} to_shared to_owned");
            observe(out, &o.by_ref().to_owned().by_ref());
        }
    }
    out.at = prefix;
}

/// Text that is produced in pieces.
#[derive(Clone)]
struct Text(Vec<String>, usize);

impl Text {
    fn write(&self, f: &mut fmt::Formatter, debug: bool) -> fmt::Result {
        if self.1 == 1 {
            let s = self.0.concat();
            return if debug { Debug::fmt(&s, f) } else { f.pad(&s) };
        }
        for s in &self.0 {
            f.write_str(s)?;
        }
        if debug {
            f.write_str("!")?;
        }
        if self.1 == 2 {
            return Err(fmt::Error);
        }
        Ok(())
    }
}

impl Debug for Text {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.write(f, true)
    }
}

impl Display for Text {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.write(f, false)
    }
}

#[cfg(feature = "error")]
#[derive(Debug)]
struct Err_(Text, Option<Box<Err_>>);

#[cfg(feature = "error")]
impl Display for Err_ {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        Display::fmt(&self.0, f)
    }
}

#[cfg(feature = "error")]
impl std::error::Error for Err_ {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        self.1.as_ref().map(|e| &**e as _)
    }
}

/// A structured value.
#[derive(Clone, Debug)]
enum Node {
    U8(u8),
    U64(u64),
    I16(i16),
    I64(i64),
    U128(u128),
    I128(i128),
    F64(f64),
    F32(f32),
    Bool(bool),
    Char(char),
    Str(&'static str),
    Frags(Vec<String>),
    None,
    Unit,
    Some(Box<Node>),
    Seq(Vec<Node>),
    Tuple(Vec<Node>),
    Map(Vec<(Node, Node)>),
    Struct(Vec<Node>),
    Newtype(Box<Node>),
    Variant(u32, Box<Node>),
    UnitVariant(u32),
    Bytes(Vec<u8>),
    Fail,
}

const FIELDS: [&str; 4] = ["a", "bee", "sea", "d"];
const TEXTS: [&str; 8] = ["", "a", "hi \"there\"", "0123456789abcdef012345", "0123456789abcdef0123456", "ünïcödé 🎈", "0123456789abcdef0123456789abcdef0123456789abcd", "0123456789abcdef0123456789abcdef0123456789abcdé"];

impl Node {
    fn gen(rng: &mut Rng, depth: usize) -> Node {
        let n = if depth == 0 { 15 } else { 24 };
        let some = |rng: &mut Rng| (0..rng.below(4)).map(|_| Node::gen(rng, depth - 1)).collect::<Vec<_>>();
        match rng.below(n) {
            0 => Node::U8(rng.u64() as u8),
            1 => Node::U64(gen::edge_u128(rng) as u64),
            2 => Node::I16(gen::edge_i128(rng) as i16),
            3 => Node::I64(gen::edge_i128(rng) as i64),
            4 => Node::U128(gen::edge_u128(rng)),
            5 => Node::I128(gen::edge_i128(rng)),
            6 => Node::F64(gen::float(rng)),
            7 => Node::F32(gen::float32(rng)),
            8 => Node::Bool(rng.bool()),
            9 => Node::Char(gen::chr(rng)),
            10 | 11 => Node::Str(rng.pick(&TEXTS)),
            12 => {
                let t = gen::text(rng);
                Node::Frags(gen::fragments(rng, &t))
            }
            13 => Node::None,
            14 => Node::Unit,
            15 => Node::Some(Box::new(Node::gen(rng, depth - 1))),
            16 | 17 => Node::Seq(some(rng)),
            18 => Node::Tuple(some(rng)),
            19 => Node::Map((0..rng.below(4)).map(|_| (Node::Str(rng.pick(&TEXTS)), Node::gen(rng, depth - 1))).collect()),
            20 => Node::Struct(some(rng)),
            21 => Node::Newtype(Box::new(Node::gen(rng, depth - 1))),
            22 if rng.bool() => Node::UnitVariant(rng.below(4) as u32),
            22 => Node::Variant(rng.below(4) as u32, Box::new(Node::gen(rng, depth - 1))),
            _ if rng.one_in(3) => Node::Fail,
            _ => Node::Bytes((0..rng.below(9)).map(|_| rng.u64() as u8).collect()),
        }
    }
}

#[cfg(feature = "serde")]
impl value_bag_serde1::lib::Serialize for Node {
    fn serialize<S: value_bag_serde1::lib::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use value_bag_serde1::lib::ser::*;
        struct Joined<'a>(&'a [String]);
        impl Display for Joined<'_> {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                self.0.iter().try_for_each(|s| f.write_str(s))
            }
        }
        match self {
            Node::U8(v) => s.serialize_u8(*v),
            Node::U64(v) => s.serialize_u64(*v),
            Node::I16(v) => s.serialize_i16(*v),
            Node::I64(v) => s.serialize_i64(*v),
            Node::U128(v) => s.serialize_u128(*v),
            Node::I128(v) => s.serialize_i128(*v),
            Node::F64(v) => s.serialize_f64(*v),
            Node::F32(v) => s.serialize_f32(*v),
            Node::Bool(v) => s.serialize_bool(*v),
            Node::Char(v) => s.serialize_char(*v),
            Node::Str(v) => s.serialize_str(v),
            Node::Frags(v) => s.collect_str(&Joined(v)),
            Node::None => s.serialize_none(),
            Node::Unit => s.serialize_unit(),
            Node::Some(v) => s.serialize_some(&**v),
            Node::Seq(v) => {
                let mut q = s.serialize_seq(Some(v.len()))?;
                for e in v {
                    q.serialize_element(e)?;
                }
                q.end()
            }
            Node::Tuple(v) => {
                let mut q = s.serialize_tuple(v.len())?;
                for e in v {
                    q.serialize_element(e)?;
                }
                q.end()
            }
            Node::Map(v) => {
                let mut q = s.serialize_map(None)?;
                for (k, e) in v {
                    q.serialize_entry(k, e)?;
                }
                q.end()
            }
            Node::Struct(v) => {
                let mut q = s.serialize_struct("Point", v.len())?;
                for (i, e) in v.iter().enumerate() {
                    q.serialize_field(FIELDS[i], e)?;
                }
                q.end()
            }
            Node::Newtype(v) => s.serialize_newtype_struct("Wrap", &**v),
            Node::Variant(i, v) => s.serialize_newtype_variant("Choice", *i, FIELDS[*i as usize], &**v),
            Node::UnitVariant(i) => s.serialize_unit_variant("Choice", *i, FIELDS[*i as usize]),
            Node::Bytes(v) => s.serialize_bytes(v),
            Node::Fail => Err(S::Error::custom("failed")),
        }
    }
}

#[cfg(feature = "sval")]
impl value_bag_sval2::lib::Value for Node {
    fn stream<'sval, S: value_bag_sval2::lib::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> value_bag_sval2::lib::Result {
        use value_bag_sval2::lib as sval;
        match self {
            Node::U8(v) => s.u8(*v),
            Node::U64(v) => s.u64(*v),
            Node::I16(v) => s.i16(*v),
            Node::I64(v) => s.i64(*v),
            Node::U128(v) => s.u128(*v),
            Node::I128(v) => s.i128(*v),
            Node::F64(v) => s.f64(*v),
            Node::F32(v) => s.f32(*v),
            Node::Bool(v) => s.bool(*v),
            Node::Char(v) => s.value_computed(v),
            Node::Str(v) => s.value(*v),
            Node::Frags(v) => {
                s.text_begin(None)?;
                for (i, f) in v.iter().enumerate() {
                    if i % 2 == 0 {
                        s.text_fragment(f)?;
                    } else {
                        s.text_fragment_computed(f)?;
                    }
                }
                s.text_end()
            }
            Node::None => s.null(),
            Node::Unit => s.tag(Some(&sval::tags::RUST_UNIT), None, None),
            Node::Some(v) => {
                s.tagged_begin(Some(&sval::tags::RUST_OPTION_SOME), None, None)?;
                s.value(&**v)?;
                s.tagged_end(Some(&sval::tags::RUST_OPTION_SOME), None, None)
            }
            Node::Seq(v) => {
                s.seq_begin(Some(v.len()))?;
                for e in v {
                    s.seq_value_begin()?;
                    s.value(e)?;
                    s.seq_value_end()?;
                }
                s.seq_end()
            }
            Node::Tuple(v) => {
                s.tuple_begin(None, Some(&sval::Label::new("Pair")), None, Some(v.len()))?;
                for (i, e) in v.iter().enumerate() {
                    s.tuple_value_begin(None, &sval::Index::new(i))?;
                    s.value(e)?;
                    s.tuple_value_end(None, &sval::Index::new(i))?;
                }
                s.tuple_end(None, Some(&sval::Label::new("Pair")), None)
            }
            Node::Map(v) => {
                s.map_begin(None)?;
                for (k, e) in v {
                    s.map_key_begin()?;
                    s.value(k)?;
                    s.map_key_end()?;
                    s.map_value_begin()?;
                    s.value(e)?;
                    s.map_value_end()?;
                }
                s.map_end()
            }
            Node::Struct(v) => {
                s.record_begin(None, Some(&sval::Label::new("Point")), None, Some(v.len()))?;
                for (i, e) in v.iter().enumerate() {
                    s.record_value_begin(None, &sval::Label::new(FIELDS[i]))?;
                    s.value(e)?;
                    s.record_value_end(None, &sval::Label::new(FIELDS[i]))?;
                }
                s.record_end(None, Some(&sval::Label::new("Point")), None)
            }
            Node::Newtype(v) => {
                let l = sval::Label::new("Wrap");
                s.tagged_begin(None, Some(&l), None)?;
                s.value(&**v)?;
                s.tagged_end(None, Some(&l), None)
            }
            Node::Variant(i, v) => {
                let (t, l, n) = (sval::Label::new("Choice"), sval::Label::new(FIELDS[*i as usize]), sval::Index::new(*i as usize));
                s.enum_begin(None, Some(&t), None)?;
                s.tagged_begin(None, Some(&l), Some(&n))?;
                s.value(&**v)?;
                s.tagged_end(None, Some(&l), Some(&n))?;
                s.enum_end(None, Some(&t), None)
            }
            Node::UnitVariant(i) => {
                let (t, l, n) = (sval::Label::new("Choice"), sval::Label::new(FIELDS[*i as usize]), sval::Index::new(*i as usize));
                s.enum_begin(None, Some(&t), None)?;
                s.tag(None, Some(&l), Some(&n))?;
                s.enum_end(None, Some(&t), None)
            }
            Node::Bytes(v) => {
                s.binary_begin(Some(v.len()))?;
                s.binary_fragment(v)?;
                s.binary_end()
            }
            Node::Fail => sval::error(),
        }
    }
}

impl<'v> From<&'v Node> for ValueBag<'v> {
    fn from(n: &'v Node) -> Self {
        match n {
            Node::U8(v) => ValueBag::from(v),
            Node::U64(v) => ValueBag::from(v),
            Node::I16(v) => ValueBag::from(v),
            Node::I64(v) => ValueBag::from(v),
            Node::U128(v) => ValueBag::from(v),
            Node::I128(v) => ValueBag::from(v),
            Node::F64(v) => ValueBag::from(v),
            Node::F32(v) => ValueBag::from(v),
            Node::Bool(v) => ValueBag::from(v),
            Node::Char(v) => ValueBag::from(v),
            Node::Str(v) => ValueBag::from(*v),
            Node::None => ValueBag::empty(),
            #[cfg(feature = "seq")]
            Node::Seq(v) => ValueBag::from_seq_slice(v),
            n => ValueBag::capture_debug(n),
        }
    }
}

macro_rules! formats {
    ($out:ident, $v:expr, $marked:expr) => {{
        let v = $v;
        let shared: &dyn Fn(&str) -> String = &$marked;
        route($out, "capture_debug", ValueBag::capture_debug(v));
        route($out, "capture_display", ValueBag::capture_display(v));
        route($out, "from_debug", ValueBag::from_debug(v));
        route($out, "from_display", ValueBag::from_display(v));
        route($out, "from_dyn_debug", ValueBag::from_dyn_debug(v));
        route($out, "from_dyn_display", ValueBag::from_dyn_display(v));
        route($out, "try_capture", ValueBag::try_capture(v).unwrap_or_else(ValueBag::empty));
        route($out, "fill_debug", ValueBag::from_fill(&|s: Slot| s.fill_debug(v)));
        route($out, "fill_display", ValueBag::from_fill(&|s: Slot| s.fill_display(v)));
        #[cfg(feature = "owned")]
        {
            route($out, &shared("capture_shared_debug"), ValueBag::capture_shared_debug(v.clone()));
            route($out, &shared("capture_shared_display"), ValueBag::capture_shared_display(v.clone()));
        }
        let _ = shared;
    }};
}

macro_rules! structures {
    ($out:ident, $v:expr, $marked:expr) => {{
        let v = $v;
        let shared: &dyn Fn(&str) -> String = &$marked;
        #[cfg(feature = "serde")]
        {
            route($out, "capture_serde1", ValueBag::capture_serde1(v));
            route($out, "from_serde1", ValueBag::from_serde1(v));
            route($out, "fill_serde1", ValueBag::from_fill(&|s: Slot| s.fill_serde1(v)));
            #[cfg(feature = "owned")]
            route($out, &shared("capture_shared_serde1"), ValueBag::capture_shared_serde1(v.clone()));
        }
        #[cfg(feature = "sval")]
        {
            $out.textual = format!("{v:?}").contains(&['"', '\''][..]);
            route($out, "capture_sval2", ValueBag::capture_sval2(v));
            route($out, "from_sval2", ValueBag::from_sval2(v));
            route($out, "from_dyn_sval2", ValueBag::from_dyn_sval2(v));
            route($out, "fill_sval2", ValueBag::from_fill(&|s: Slot| s.fill_sval2(v)));
            #[cfg(feature = "owned")]
            route($out, &shared("capture_shared_sval2"), ValueBag::capture_shared_sval2(v.clone()));
            $out.textual = false;
        }
        let _ = (shared, v);
    }};
}

fn same(s: &str) -> String {
    s.to_owned()
}

macro_rules! number {
    ($out:ident, $t:ty, $c:ident, $v:expr) => {{
        let v: $t = $v;
        number!($out, $t, $c, v, unstructured);
        $out.at = concat!(stringify!($t)).to_owned();
        structures!($out, &v, same);
    }};
    ($out:ident, $t:ty, $c:ident, $v:expr, unstructured) => {{
        let v: $t = $v;
        $out.at = concat!(stringify!($t)).to_owned();
        route($out, "from", ValueBag::from(v));
        route($out, "from &", ValueBag::from(&v));
        route($out, "from Option", ValueBag::from(Some(v)));
        route($out, "from_option", ValueBag::from_option(Some(v)));
        route($out, "typed", ValueBag::$c(v));
        #[cfg(feature = "owned")]
        {
            route($out, "try_capture_owned", ValueBag::try_capture_owned(&v).unwrap_or_else(ValueBag::empty));
            route($out, "try_capture_owned Option", ValueBag::try_capture_owned(&Some(v)).unwrap_or_else(ValueBag::empty));
        }
        route($out, "try_capture None", ValueBag::try_capture(&None::<$t>).unwrap_or_else(|| ValueBag::from("not captured")));
        route($out, "capture_debug Option", ValueBag::capture_debug(&Some(v)));
        route($out, "fill_any", ValueBag::from_fill(&|s: Slot| s.fill_any(v)));
        formats!($out, &v, same);
        #[cfg(feature = "seq")]
        {
            let vec = vec![v, v];
            let arr = [v, v, v];
            $out.at = concat!("seq of ", stringify!($t)).to_owned();
            route($out, "from_seq_slice", ValueBag::from_seq_slice(&vec));
            route($out, "from_seq_slice array", ValueBag::from_seq_slice(&arr));
            route($out, "from array", ValueBag::from(&arr));
            let slice = &arr[1..];
            route($out, "from slice", ValueBag::from(&slice));
            #[cfg(feature = "alloc")]
            route($out, "from Vec", ValueBag::from(&vec));
            route($out, "fill_seq_slice", ValueBag::from_fill(&|s: Slot| s.fill_seq_slice(&[1, 2, 3])));
            #[cfg(feature = "owned")]
            route($out, "capture_shared_seq_slice", ValueBag::capture_shared_seq_slice(vec.clone()));
        }
    }};
}

macro_rules! big {
    ($out:ident, $t:ty, $c:ident, $v:expr) => {{
        let v: $t = $v;
        $out.at = concat!(stringify!($t)).to_owned();
        route($out, "from &", ValueBag::from(&v));
        route($out, "typed", ValueBag::$c(&v));
        #[cfg(feature = "inline-i128")]
        route($out, &inline("from"), ValueBag::from(v));
        #[cfg(feature = "owned")]
        route($out, &inline("try_capture_owned"), ValueBag::try_capture_owned(&v).unwrap_or_else(ValueBag::empty));
        route($out, "capture_debug Option", ValueBag::capture_debug(&Some(v)));
        formats!($out, &v, inline);
        structures!($out, &v, inline);
        #[cfg(feature = "seq")]
        {
            let vec = vec![v, v];
            $out.at = concat!("seq of ", stringify!($t)).to_owned();
            route($out, "from_seq_slice", ValueBag::from_seq_slice(&vec));
            #[cfg(feature = "owned")]
            route($out, "capture_shared_seq_slice", ValueBag::capture_shared_seq_slice(vec.clone()));
        }
    }};
}

fn case(out: &mut Out, rng: &mut Rng) {
    match rng.below(30) {
        0 => number!(out, u8, from_u8, rng.u64() as u8),
        1 => number!(out, u16, from_u16, gen::edge_u128(rng) as u16),
        2 => number!(out, u32, from_u32, gen::edge_u128(rng) as u32),
        3 => number!(out, u64, from_u64, gen::edge_u128(rng) as u64),
        4 => number!(out, usize, from_usize, gen::edge_u128(rng) as usize, unstructured),
        5 => number!(out, i8, from_i8, rng.u64() as i8),
        6 => number!(out, i16, from_i16, gen::edge_i128(rng) as i16),
        7 => number!(out, i32, from_i32, gen::edge_i128(rng) as i32),
        8 => number!(out, i64, from_i64, gen::edge_i128(rng) as i64),
        9 => number!(out, isize, from_isize, gen::edge_i128(rng) as isize, unstructured),
        10 => number!(out, f32, from_f32, gen::float32(rng)),
        11 => number!(out, f64, from_f64, gen::float(rng)),
        12 => number!(out, bool, from_bool, rng.bool()),
        13 => number!(out, char, from_char, gen::chr(rng)),
        14 => big!(out, u128, from_u128_ref, gen::edge_u128(rng)),
        15 => big!(out, i128, from_i128_ref, gen::edge_i128(rng)),
        16 | 17 => {
            let t = gen::text(rng);
            let s = &*t;
            let leaked: &'static str = Box::leak(t.clone().into_boxed_str());
            out.at = "str".into();
            route(out, "from", ValueBag::from(s));
            route(out, "typed", ValueBag::from_str(s));
            route(out, "from Option", ValueBag::from(Some(s)));
            route(out, "from &&", ValueBag::from(&s));
            route(out, "from_debug", ValueBag::from_debug(&s));
            route(out, "from_display", ValueBag::from_display(&s));
            route(out, "fill_any", ValueBag::from_fill(&|f: Slot| f.fill_any(leaked)));
            out.at = "&'static str".into();
            formats!(out, &leaked, same);
            structures!(out, &leaked, same);
            #[cfg(feature = "seq")]
            {
                let v = [leaked, "", leaked];
                out.at = "seq of str".into();
                route(out, "from array", ValueBag::from(&v));
                route(out, "from_seq_slice", ValueBag::from_seq_slice(&v));
                #[cfg(feature = "owned")]
                route(out, "capture_shared_seq_slice", ValueBag::capture_shared_seq_slice(v));
            }
        }
        18 => {
            // Whether this is text at all depends on the allocator
            let t = gen::text(rng);
            out.at = alloc("String");
            #[cfg(feature = "alloc")]
            route(out, "from &", ValueBag::from(&t));
            formats!(out, &t, same);
            structures!(out, &&*Box::leak(t.clone().into_boxed_str()), same);
            #[cfg(all(feature = "seq", feature = "alloc"))]
            {
                let v = vec![t.clone(), String::new()];
                route(out, "from Vec", ValueBag::from(&v));
            }
        }
        19 => {
            out.at = "nothing".into();
            route(out, "empty", ValueBag::empty());
            route(out, "from ()", ValueBag::from(()));
            route(out, "from None", ValueBag::from(None::<u32>));
            route(out, "from_option", ValueBag::from_option(None::<&str>));
            route(out, "capture_debug", ValueBag::capture_debug(&None::<i32>));
            route(out, "fill_any", ValueBag::from_fill(&|s: Slot| s.fill_any(())));
            structures!(out, &None::<i32>, same);
        }
        20 | 21 => {
            let t = gen::text(rng);
            let t = Text(gen::fragments(rng, &t), rng.below(3));
            if t.1 == 2 {
                // A failure is an error message of its own
                out.at = "failing text".into();
                let b = ValueBag::capture_display(&t);
                out.say("fails", &[text(format_args!("{b}")).is_err(), text(format_args!("{b:?}")).is_err()]);
                return;
            }
            out.at = "text".into();
            formats!(out, &t, same);
            let d: &dyn Display = &t;
            route(out, "from &dyn", ValueBag::from(d));
        }
        22 => {
            let texts: Vec<Text> = (0..1 + rng.below(3))
                .map(|_| {
                    let t = gen::text(rng);
                    Text(gen::fragments(rng, &t), rng.below(2))
                })
                .collect();
            out.at = "error".into();
            #[cfg(feature = "error")]
            {
                let make = || texts.iter().rev().fold(None, |e, t| Some(Box::new(Err_(t.clone(), e)))).unwrap();
                let e = make();
                route(out, "capture_error", ValueBag::capture_error(&*e));
                route(out, "from_dyn_error", ValueBag::from_dyn_error(&*e));
                route(out, "fill_error", ValueBag::from_fill(&|s: Slot| s.fill_dyn_error(&*e)));
                #[cfg(feature = "owned")]
                route(out, "capture_shared_error", ValueBag::capture_shared_error(*make()));
            }
            let _ = texts;
        }
        23 | 24 => {
            #[allow(unused)]
            let v: Vec<Node> = (0..rng.below(6)).map(|_| Node::gen(rng, 1)).collect();
            out.at = "seq of values".into();
            #[cfg(feature = "seq")]
            {
                route(out, "from_seq_slice", ValueBag::from_seq_slice(&v));
                #[cfg(feature = "owned")]
                {
                    // 128-bit numbers aren't captured by value here
                    route(out, "capture_shared_seq_slice", ValueBag::capture_shared_seq_slice(v.clone()));
                }
            }
        }
        _ => {
            let n = Node::gen(rng, 3);
            if format!("{n:?}").contains("Fail") {
                out.at = "failing structure".into();
            } else {
                out.at = "structure".into();
            }
            route(out, "capture_debug", ValueBag::capture_debug(&n));
            route(out, "from_debug", ValueBag::from_debug(&n));
            structures!(out, &n, same);
        }
    }
}

fn compare(files: &[String]) -> i32 {
    // The first to say something, and what it said
    let mut said: HashMap<u64, (u16, bool, u64)> = HashMap::new();
    let (mut shared, mut total, mut both) = (0u64, 0u64, 0u64);
    let mut bad = Vec::new();
    for (i, f) in files.iter().enumerate() {
        let data = std::fs::read(f).expect("reading");
        for c in data.chunks_exact(24) {
            let n = |i: usize| u64::from_le_bytes(c[i..i + 8].try_into().unwrap());
            let (case, k, v) = (n(0), n(8), n(16));
            total += 1;
            match said.get_mut(&k) {
                None => {
                    said.insert(k, (i as u16, false, v));
                }
                Some((first, again, w)) => {
                    shared += 1;
                    if !std::mem::replace(again, true) {
                        both += 1;
                    }
                    if *w != v && bad.len() < 200 {
                        bad.push((case, *first, i, k));
                    }
                }
            }
        }
    }
    println!("TOTAL {total} COMPARED {shared} DISTINCT {both}");
    for (case, a, b, k) in &bad {
        println!("DIFFERENT {case} {a} {b} {k}");
    }
    if bad.is_empty() {
        0
    } else {
        1
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.first().map(|a| &**a) == Some("--compare") {
        std::process::exit(compare(&args[1..]));
    }
    let get = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1));
    let num = |name: &str, d: u64| get(name).map_or(d, |v| v.parse().expect("a number"));
    let seed = num("--seed", 0);
    let first = num("--first", 0);
    let cases = num("--cases", 1000);
    let only = get("--only").map(|v| v.parse::<u64>().expect("a number"));
    if only.is_none() {
        std::panic::set_hook(Box::new(|_| ()));
    }
    let mut out = Out { case: 0, at: String::new(), text: only.is_some(), pairs: Vec::new(), bags: 0, textual: false };
    let mut file = get("--out").map(|p| std::io::BufWriter::new(std::fs::File::create(p).expect("writing")));
    let mut operations = 0;
    for c in only.map_or(first..first + cases, |o| o..o + 1) {
        out.case = c;
        out.pairs.clear();
        let mut rng = Rng::new(mix(seed ^ mix(c + 1)));
        case(&mut out, &mut rng);
        operations += out.pairs.len();
        if let Some(f) = &mut file {
            for (k, v) in &out.pairs {
                f.write_all(&c.to_le_bytes()).unwrap();
                f.write_all(&k.to_le_bytes()).unwrap();
                f.write_all(&v.to_le_bytes()).unwrap();
            }
        }
    }
    println!("BAGS {} OPERATIONS {operations}", out.bags);
}
