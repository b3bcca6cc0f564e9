//! Structured data with both a serde and an sval implementation.

use std::{cell::Cell, fmt};

use serde::ser::{
    Error as _, Serialize, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant,
    SerializeTuple, SerializeTupleStruct, SerializeTupleVariant, Serializer,
};
use sval::{Index, Label, Stream, Tag, Value};
use value_bag::ValueBag;
use value_bag_serde1::lib as serde;
use value_bag_sval2::lib as sval;

use crate::{gen, prim::K, recserde::Fb, rng::Rng};

pub type Name = &'static str;

#[derive(Clone, Debug, PartialEq)]
pub enum M {
    Unit,
    None,
    Some(Box<M>),
    Bool(bool),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    F32(f32),
    F64(f64),
    Char(char),
    Str(String),
    /// Text produced piece by piece
    Frags(Vec<String>),
    Bytes(Vec<u8>),
    UnitStruct(Name),
    UnitVariant(Name, u32, Name),
    Newtype(Name, Box<M>),
    NewtypeVariant(Name, u32, Name, Box<M>),
    Seq(Vec<M>, bool),
    Tuple(Vec<M>),
    TupleStruct(Name, Vec<M>),
    TupleVariant(Name, u32, Name, Vec<M>),
    Map(Vec<(M, M)>, bool),
    Struct(Name, Vec<(Name, M)>),
    StructVariant(Name, u32, Name, Vec<(Name, M)>),

    // serde only
    /// A skipped field
    Skip,
    Human(Box<M>, Box<M>),

    // sval only
    /// Text in fragments, borrowed or computed, with or without a size
    SvText(Vec<(String, bool)>, bool),
    SvBin(Vec<(Vec<u8>, bool)>, bool),
    SvTag(Tg),
    SvTagged(Tg, Box<M>),
    SvEnum(Tg, Box<M>),
    SvRecord(Tg, Vec<(Tg, M)>, bool),
    SvTuple(Tg, Vec<(Tg, M)>, bool),
    SvRecTup(Tg, Vec<(Tg, M)>, bool),
    SvHint(u8, Box<M>),

    // Bags inside of the data
    Bag(Box<M>),
    /// Captured with the framework it isn't consumed by
    Cross(Box<M>),
    /// A bag over a Debug value
    BagText(Vec<String>),

    Fail,
}

/// A tag, label and index.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Tg {
    pub tag: Option<u8>,
    pub label: Option<(String, Option<u8>, bool)>,
    pub index: Option<(i64, Option<u8>)>,
}

thread_local! {
    /// When set, bags inside of the data get out of the way, so that the data alone
    /// says what must be observed.
    static TRANSPARENT: Cell<bool> = const { Cell::new(false) };
}

pub fn transparently<R>(f: impl FnOnce() -> R) -> R {
    struct Reset(bool);
    impl Drop for Reset {
        fn drop(&mut self) {
            TRANSPARENT.with(|t| t.set(self.0))
        }
    }
    let _r = Reset(TRANSPARENT.with(|t| t.replace(true)));
    f()
}

fn transparent() -> bool {
    TRANSPARENT.with(|t| t.get())
}

const NAMES: [Name; 16] = [
    "a",
    "b",
    "Name",
    "field",
    "type",
    "x1",
    "",
    "Ünï",
    "with space",
    "quo\"te",
    "A",
    "B",
    "Some",
    "a name that's longer than anything that is stored inline, by some way",
    "zz",
    "value",
];

/// Names that can't collide with each other in one struct.
fn names(rng: &mut Rng, n: usize) -> Vec<Name> {
    let start = rng.below(NAMES.len());
    (0..n).map(|i| NAMES[(start + i) % NAMES.len()]).collect()
}

const MY_TAG: Tag = Tag::new("a tag of the user");
const MY_TAG2: Tag = Tag::new("another tag of the user");

pub fn tag_of(t: u8) -> Tag {
    match t % 6 {
        0 => MY_TAG,
        1 => MY_TAG2,
        2 => sval::tags::VALUE_IDENT,
        3 => sval::tags::VALUE_OFFSET,
        4 => sval::tags::NUMBER,
        _ => sval::tags::CONSTANT_SIZE,
    }
}

/// Tags that mean nothing to anyone but the user.
fn gen_tag(rng: &mut Rng) -> Option<u8> {
    match rng.below(3) {
        0 => None,
        _ => Some(rng.below(2) as u8),
    }
}

impl Tg {
    pub fn gen(rng: &mut Rng, label: Option<bool>, index: Option<bool>) -> Tg {
        let label = label.unwrap_or_else(|| rng.bool());
        let index = index.unwrap_or_else(|| rng.bool());
        Tg {
            tag: gen_tag(rng),
            label: label.then(|| {
                let t = match rng.below(3) {
                    0 => None,
                    1 => Some(2),
                    _ => Some(0),
                };
                (gen::short_text(rng), t, rng.bool())
            }),
            index: index.then(|| {
                let i = match rng.below(4) {
                    0 => 0,
                    1 => rng.below(5) as i64,
                    2 => -(rng.below(100) as i64),
                    _ => rng.u64() as u32 as i64,
                };
                let t = match rng.below(3) {
                    0 => None,
                    1 => Some(3),
                    _ => Some(1),
                };
                (i, t)
            }),
        }
    }

    /// Hand the parts over.
    fn with<R>(&self, f: impl FnOnce(Option<&Tag>, Option<&Label>, Option<&Index>) -> R) -> R {
        let tag = self.tag.map(tag_of);
        let lt = self.label.as_ref().and_then(|l| l.1).map(tag_of);
        let it = self.index.as_ref().and_then(|l| l.1).map(tag_of);
        let label = self.label.as_ref().map(|(s, _, is_static)| {
            let l = match (*is_static, NAMES.iter().find(|n| **n == s.as_str())) {
                (true, Some(n)) => Label::new(n),
                _ => Label::new_computed(s),
            };
            match &lt {
                Some(t) => l.with_tag(t),
                None => l,
            }
        });
        let index = self.index.as_ref().map(|(i, _)| {
            let i = Index::new_i64(*i);
            match &it {
                Some(t) => i.with_tag(t),
                None => i,
            }
        });
        f(tag.as_ref(), label.as_ref(), index.as_ref())
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Dom {
    pub serde: bool,
    pub sval: bool,
    /// Restricted to what JSON can say
    pub json: bool,
    pub bags: bool,
    pub cross: bool,
}

impl Dom {
    pub const SERDE: Dom = Dom {
        serde: true,
        sval: false,
        json: false,
        bags: false,
        cross: false,
    };
    pub const SVAL: Dom = Dom {
        serde: false,
        sval: true,
        json: false,
        bags: false,
        cross: false,
    };
    pub const BOTH: Dom = Dom {
        serde: true,
        sval: true,
        json: false,
        bags: false,
        cross: false,
    };
    pub const JSON: Dom = Dom {
        serde: true,
        sval: true,
        json: true,
        bags: false,
        cross: false,
    };

    pub fn bags(self) -> Dom {
        Dom { bags: true, ..self }
    }

    pub fn cross(self) -> Dom {
        Dom {
            cross: true,
            ..self
        }
    }
}

impl M {
    /// Data of about the given depth.
    pub fn gen(rng: &mut Rng, depth: usize, d: Dom) -> M {
        if let Some(n) = gen::large(rng, 60, 13, 200) {
            return M::wide(rng, n, d);
        }
        if let Some(n) = gen::large(rng, 60, 7, 45) {
            return M::deep(rng, n, d);
        }
        let mut budget = match rng.below(8) {
            0..=4 => 12,
            5 | 6 => 40,
            _ => 150,
        };
        M::gen_in(rng, depth, d, &mut budget)
    }

    fn wide(rng: &mut Rng, n: usize, d: Dom) -> M {
        match rng.below(3) {
            0 => M::Seq((0..n).map(|_| M::scalar(rng, d)).collect(), rng.bool()),
            1 => M::Tuple((0..n).map(|_| M::scalar(rng, d)).collect()),
            _ => M::Map(
                (0..n)
                    .map(|i| (M::Str(format!("key {i}")), M::scalar(rng, d)))
                    .collect(),
                rng.bool(),
            ),
        }
    }

    fn deep(rng: &mut Rng, n: usize, d: Dom) -> M {
        let mut m = M::scalar(rng, d);
        for _ in 0..n {
            let b = Box::new(m);
            m = match rng.below(6) {
                0 => M::Some(b),
                1 => M::Newtype(*rng.pick(&NAMES), b),
                2 => M::NewtypeVariant(*rng.pick(&NAMES), rng.below(6) as u32, *rng.pick(&NAMES), b),
                3 => M::Struct(*rng.pick(&NAMES), vec![(*rng.pick(&NAMES), *b)]),
                4 => M::Map(vec![(M::Str(gen::short_text(rng)), *b)], rng.bool()),
                _ => M::Seq(vec![*b], rng.bool()),
            };
        }
        m
    }

    pub fn gen_tiny(rng: &mut Rng, d: Dom) -> M {
        let mut budget = 5;
        M::gen_in(rng, 2, d, &mut budget)
    }

    fn gen_in(rng: &mut Rng, depth: usize, d: Dom, budget: &mut usize) -> M {
        *budget = budget.saturating_sub(1);
        if depth == 0 || *budget == 0 || rng.one_in(4) {
            return M::scalar(rng, d);
        }
        let mut sub = |rng: &mut Rng| M::gen_in(rng, depth - 1, d, budget);
        let n = match rng.below(8) {
            0 => 0,
            1..=6 => rng.below(5),
            _ => rng.below(12),
        };
        let idx = match rng.below(3) {
            0 => 0,
            1 => rng.below(6) as u32,
            _ => rng.u64() as u32,
        };
        let both = d.serde && d.sval;
        loop {
            return match rng.below(30) {
                0 | 1 => M::Some(Box::new(sub(rng))),
                2 | 3 => M::Newtype(*rng.pick(&NAMES), Box::new(sub(rng))),
                4 | 5 => M::NewtypeVariant(*rng.pick(&NAMES), idx, *rng.pick(&NAMES), Box::new(sub(rng))),
                6..=9 => M::Seq((0..n).map(|_| sub(rng)).collect(), rng.bool()),
                10 | 11 => M::Tuple((0..n.max(1)).map(|_| sub(rng)).collect()),
                12 => M::TupleStruct(*rng.pick(&NAMES), (0..n.max(1)).map(|_| sub(rng)).collect()),
                13 => M::TupleVariant(
                    *rng.pick(&NAMES),
                    idx,
                    *rng.pick(&NAMES),
                    (0..n.max(1)).map(|_| sub(rng)).collect(),
                ),
                14..=16 => {
                    let names = names(rng, n);
                    M::Map(
                        (0..n)
                            .map(|i| {
                                let k = if d.json || rng.bool() {
                                    M::Str(format!("{}{}", names[i], gen::short_text(rng)))
                                } else if rng.one_in(4) {
                                    sub(rng)
                                } else {
                                    M::scalar(rng, d)
                                };
                                (k, sub(rng))
                            })
                            .collect(),
                        rng.bool(),
                    )
                }
                17..=19 => {
                    let names = names(rng, n);
                    M::Struct(*rng.pick(&NAMES), M::fields(rng, names, d, &mut sub))
                }
                20 => {
                    let names = names(rng, n);
                    M::StructVariant(
                        *rng.pick(&NAMES),
                        idx,
                        *rng.pick(&NAMES),
                        M::fields(rng, names, d, &mut sub),
                    )
                }
                21 | 22 if d.bags => M::Bag(Box::new(sub(rng))),
                23 if d.bags && d.cross && both => M::Cross(Box::new(sub(rng))),
                24 if d.serde && !d.sval => {
                    M::Human(Box::new(sub(rng)), Box::new(sub(rng)))
                }
                24 if d.sval && !d.serde => M::SvTagged(Tg::gen(rng, None, None), Box::new(sub(rng))),
                25 if d.sval && !d.serde => {
                    // The contents of an enum carry a tag of their own
                    let inner = match rng.below(3) {
                        0 => M::SvTag(Tg::gen(rng, None, None)),
                        1 => M::SvTagged(Tg::gen(rng, None, None), Box::new(sub(rng))),
                        _ => M::SvRecord(
                            Tg::gen(rng, None, None),
                            vec![(Tg::gen(rng, Some(true), Some(false)), sub(rng))],
                            true,
                        ),
                    };
                    M::SvEnum(Tg::gen(rng, None, None), Box::new(inner))
                }
                26 if d.sval && !d.serde => M::SvRecord(
                    Tg::gen(rng, None, None),
                    (0..n)
                        .map(|_| (Tg::gen(rng, Some(true), Some(false)), sub(rng)))
                        .collect(),
                    rng.bool(),
                ),
                27 if d.sval && !d.serde => M::SvTuple(
                    Tg::gen(rng, None, None),
                    (0..n)
                        .map(|_| (Tg::gen(rng, Some(false), Some(true)), sub(rng)))
                        .collect(),
                    rng.bool(),
                ),
                28 if d.sval && !d.serde => M::SvRecTup(
                    Tg::gen(rng, None, None),
                    (0..n)
                        .map(|_| (Tg::gen(rng, Some(true), Some(true)), sub(rng)))
                        .collect(),
                    rng.bool(),
                ),
                29 if d.sval && !d.serde => M::SvHint(rng.below(2) as u8, Box::new(sub(rng))),
                _ => continue,
            };
        }
    }

    fn fields(
        rng: &mut Rng,
        names: Vec<Name>,
        d: Dom,
        sub: &mut impl FnMut(&mut Rng) -> M,
    ) -> Vec<(Name, M)> {
        names
            .into_iter()
            .map(|n| {
                let v = if d.serde && !d.sval && rng.one_in(6) {
                    M::Skip
                } else {
                    sub(rng)
                };
                (n, v)
            })
            .collect()
    }

    pub fn scalar(rng: &mut Rng, d: Dom) -> M {
        loop {
            return match rng.below(27) {
                0 => M::Unit,
                1 => M::None,
                2 => M::Bool(rng.bool()),
                3 => M::U8(gen::edge_u128(rng) as u8),
                4 => M::U16(gen::edge_u128(rng) as u16),
                5 => M::U32(gen::edge_u128(rng) as u32),
                6 => M::U64(gen::edge_u128(rng) as u64),
                7 => M::U128(gen::edge_u128(rng)),
                8 => M::I8(gen::edge_i128(rng) as i8),
                9 => M::I16(gen::edge_i128(rng) as i16),
                10 => M::I32(gen::edge_i128(rng) as i32),
                11 => M::I64(gen::edge_i128(rng) as i64),
                12 => M::I128(gen::edge_i128(rng)),
                13 => {
                    let f = gen::float32(rng);
                    if d.json && !f.is_finite() {
                        continue;
                    }
                    M::F32(f)
                }
                14 => {
                    if d.json {
                        M::F64(gen::finite(rng))
                    } else {
                        M::F64(gen::float(rng))
                    }
                }
                15 => M::Char(gen::chr(rng)),
                16 | 17 => M::Str(gen::text(rng)),
                18 => M::Str(gen::short_text(rng)),
                19 => {
                    let t = gen::text(rng);
                    M::Frags(gen::fragments(rng, &t))
                }
                20 if !d.json => {
                    M::Bytes((0..rng.below(70)).map(|_| rng.u64() as u8).collect())
                }
                21 if !d.json => M::UnitStruct(*rng.pick(&NAMES)),
                22 => M::UnitVariant(*rng.pick(&NAMES), rng.below(9) as u32, *rng.pick(&NAMES)),
                23 if d.sval && !d.serde => {
                    let t = gen::text(rng);
                    let f = gen::fragments(rng, &t);
                    M::SvText(f.into_iter().map(|s| (s, rng.bool())).collect(), rng.bool())
                }
                24 if d.sval && !d.serde => M::SvBin(
                    (0..rng.below(4))
                        .map(|_| ((0..rng.below(30)).map(|_| rng.u64() as u8).collect(), rng.bool()))
                        .collect(),
                    rng.bool(),
                ),
                25 if d.sval && !d.serde => M::SvTag(Tg::gen(rng, None, None)),
                26 if d.bags => {
                    let t = gen::text(rng);
                    M::BagText(gen::fragments(rng, &t))
                }
                _ => continue,
            };
        }
    }

    /// Replace one of the values by a failing one. Returns whether there was one.
    pub fn fail_at(&mut self, at: &mut usize) -> bool {
        if *at == 0 {
            *self = M::Fail;
            return true;
        }
        *at -= 1;
        for c in self.children_mut() {
            if c.fail_at(at) {
                return true;
            }
        }
        false
    }

    fn children_mut(&mut self) -> Vec<&mut M> {
        match self {
            M::Some(m)
            | M::Newtype(_, m)
            | M::NewtypeVariant(_, _, _, m)
            | M::SvTagged(_, m)
            | M::SvEnum(_, m)
            | M::SvHint(_, m)
            | M::Bag(m)
            | M::Cross(m) => vec![m],
            M::Human(a, b) => vec![a, b],
            M::Seq(v, _) | M::Tuple(v) | M::TupleStruct(_, v) | M::TupleVariant(_, _, _, v) => {
                v.iter_mut().collect()
            }
            M::Map(v, _) => v.iter_mut().flat_map(|(k, v)| [k, v]).collect(),
            M::Struct(_, v) | M::StructVariant(_, _, _, v) => {
                v.iter_mut().filter(|v| v.1 != M::Skip).map(|v| &mut v.1).collect()
            }
            M::SvRecord(_, v, _) | M::SvTuple(_, v, _) | M::SvRecTup(_, v, _) => {
                v.iter_mut().map(|v| &mut v.1).collect()
            }
            _ => Vec::new(),
        }
    }

    /// The number of values in the data.
    pub fn size(&mut self) -> usize {
        1 + self.children_mut().into_iter().map(|c| c.size()).sum::<usize>()
    }

    pub fn any(&self, f: &dyn Fn(&M) -> bool) -> bool {
        if f(self) {
            return true;
        }
        // Only looks
        let mut me = self.clone();
        let r = me.children_mut().iter().any(|c| c.any(f));
        r
    }

    /// What it converts to when consumed through serde.
    pub fn kind_serde(&self) -> K {
        match self {
            M::Some(m) | M::Bag(m) => m.kind_serde(),
            M::Char(c) => K::C(*c),
            M::Human(a, _) => a.kind_serde(),
            M::BagText(v) => K::S(v.concat()),
            m => m.kind_scalar(),
        }
    }

    fn kind_scalar(&self) -> K {
        match self {
            M::Bool(v) => K::B(*v),
            M::U8(v) => K::U(*v as u128),
            M::U16(v) => K::U(*v as u128),
            M::U32(v) => K::U(*v as u128),
            M::U64(v) => K::U(*v as u128),
            M::U128(v) => K::U(*v),
            M::I8(v) => K::I(*v as i128),
            M::I16(v) => K::I(*v as i128),
            M::I32(v) => K::I(*v as i128),
            M::I64(v) => K::I(*v as i128),
            M::I128(v) => K::I(*v),
            M::F32(v) => K::F(Fb(*v as f64)),
            M::F64(v) => K::F(Fb(*v)),
            M::Str(v) => K::S(v.clone()),
            M::Frags(v) => K::S(v.concat()),
            _ => K::N,
        }
    }

    /// What it converts to when consumed through sval.
    pub fn kind_sval(&self) -> K {
        match self {
            M::Some(m)
            | M::Bag(m)
            | M::Newtype(_, m)
            | M::NewtypeVariant(_, _, _, m)
            | M::SvTagged(_, m)
            | M::SvEnum(_, m)
            | M::SvHint(_, m) => m.kind_sval(),
            M::Human(a, _) => a.kind_sval(),
            M::Char(c) => K::S(c.to_string()),
            M::UnitStruct(n) => K::S(n.to_string()),
            M::UnitVariant(_, _, n) => K::S(n.to_string()),
            M::SvText(v, _) => K::S(v.iter().map(|s| s.0.as_str()).collect()),
            M::SvTag(Tg {
                label: Some((s, _, _)),
                ..
            }) => K::S(s.clone()),
            M::BagText(v) => K::S(v.concat()),
            m => m.kind_scalar(),
        }
    }

    pub fn is_none(&self) -> bool {
        match self {
            M::Unit | M::None => true,
            M::Some(m) | M::Bag(m) | M::Human(m, _) => m.is_none(),
            _ => false,
        }
    }

    /// The entries of a sequence read through serde. `None` when it isn't one.
    pub fn seq_serde(&self) -> Option<Vec<K>> {
        match self {
            M::Some(m) | M::Bag(m) => m.seq_serde(),
            M::Human(a, _) => a.seq_serde(),
            M::Seq(v, _) | M::Tuple(v) => Some(v.iter().map(|v| v.kind_serde()).collect()),
            _ => None,
        }
    }

    pub fn seq_sval(&self) -> Option<Vec<K>> {
        match self {
            M::Some(m) | M::Bag(m) => m.seq_sval(),
            M::Seq(v, _) | M::Tuple(v) => Some(v.iter().map(|v| v.kind_sval()).collect()),
            _ => None,
        }
    }
}

struct Pieces<'a>(&'a [String]);

impl<'a> fmt::Display for Pieces<'a> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        for p in self.0 {
            f.write_str(p)?;
        }
        Ok(())
    }
}

impl<'a> fmt::Debug for Pieces<'a> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}

impl Serialize for M {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            M::Unit => s.serialize_unit(),
            M::None => s.serialize_none(),
            M::Some(m) => s.serialize_some(&**m),
            M::Bool(v) => s.serialize_bool(*v),
            M::U8(v) => s.serialize_u8(*v),
            M::U16(v) => s.serialize_u16(*v),
            M::U32(v) => s.serialize_u32(*v),
            M::U64(v) => s.serialize_u64(*v),
            M::U128(v) => s.serialize_u128(*v),
            M::I8(v) => s.serialize_i8(*v),
            M::I16(v) => s.serialize_i16(*v),
            M::I32(v) => s.serialize_i32(*v),
            M::I64(v) => s.serialize_i64(*v),
            M::I128(v) => s.serialize_i128(*v),
            M::F32(v) => s.serialize_f32(*v),
            M::F64(v) => s.serialize_f64(*v),
            M::Char(v) => s.serialize_char(*v),
            M::Str(v) => s.serialize_str(v),
            M::Frags(v) => s.collect_str(&Pieces(v)),
            M::Bytes(v) => s.serialize_bytes(v),
            M::UnitStruct(n) => s.serialize_unit_struct(n),
            M::UnitVariant(n, i, v) => s.serialize_unit_variant(n, *i, v),
            M::Newtype(n, m) => s.serialize_newtype_struct(n, &**m),
            M::NewtypeVariant(n, i, v, m) => s.serialize_newtype_variant(n, *i, v, &**m),
            M::Seq(v, hint) => {
                let mut s = s.serialize_seq(hint.then_some(v.len()))?;
                for e in v {
                    s.serialize_element(e)?;
                }
                s.end()
            }
            M::Tuple(v) => {
                let mut s = s.serialize_tuple(v.len())?;
                for e in v {
                    s.serialize_element(e)?;
                }
                s.end()
            }
            M::TupleStruct(n, v) => {
                let mut s = s.serialize_tuple_struct(n, v.len())?;
                for e in v {
                    s.serialize_field(e)?;
                }
                s.end()
            }
            M::TupleVariant(n, i, var, v) => {
                let mut s = s.serialize_tuple_variant(n, *i, var, v.len())?;
                for e in v {
                    s.serialize_field(e)?;
                }
                s.end()
            }
            M::Map(v, hint) => {
                let mut s = s.serialize_map(hint.then_some(v.len()))?;
                for (i, (k, v)) in v.iter().enumerate() {
                    if i % 2 == 0 {
                        s.serialize_entry(k, v)?;
                    } else {
                        s.serialize_key(k)?;
                        s.serialize_value(v)?;
                    }
                }
                s.end()
            }
            M::Struct(n, v) => {
                let mut s = s.serialize_struct(n, v.len())?;
                for (k, v) in v {
                    match v {
                        M::Skip => s.skip_field(k)?,
                        v => s.serialize_field(k, v)?,
                    }
                }
                s.end()
            }
            M::StructVariant(n, i, var, v) => {
                let mut s = s.serialize_struct_variant(n, *i, var, v.len())?;
                for (k, v) in v {
                    match v {
                        M::Skip => s.skip_field(k)?,
                        v => s.serialize_field(k, v)?,
                    }
                }
                s.end()
            }
            M::Human(a, b) => {
                if s.is_human_readable() {
                    a.serialize(s)
                } else {
                    b.serialize(s)
                }
            }
            M::Bag(m) => {
                if transparent() {
                    m.serialize(s)
                } else {
                    ValueBag::from_serde1(&**m).serialize(s)
                }
            }
            M::Cross(m) => {
                if transparent() {
                    // Erased, so types don't nest forever
                    let v: &dyn value_bag_sval2::dynamic::Value = &**m;
                    value_bag_sval2::serde1::serialize(s, v)
                } else {
                    ValueBag::from_sval2(&**m).serialize(s)
                }
            }
            M::BagText(v) => {
                if transparent() {
                    s.collect_str(&Pieces(v))
                } else {
                    ValueBag::from_debug(&Pieces(v)).serialize(s)
                }
            }
            M::Fail => Err(S::Error::custom("the value's own error")),
            // Only meaningful to sval
            M::Skip
            | M::SvText(..)
            | M::SvBin(..)
            | M::SvTag(..)
            | M::SvTagged(..)
            | M::SvEnum(..)
            | M::SvRecord(..)
            | M::SvTuple(..)
            | M::SvRecTup(..)
            | M::SvHint(..) => unreachable!("not a serde value: {self:?}"),
        }
    }
}

fn tuple_idx(i: usize) -> Index {
    Index::new(i).with_tag(&sval::tags::VALUE_OFFSET)
}

/// Only what looks like an identifier is tagged as one: writers don't escape those.
fn ident(n: Name) -> Label<'static> {
    if n.contains(['"', ' ']) {
        Label::new(n)
    } else {
        Label::new(n).with_tag(&sval::tags::VALUE_IDENT)
    }
}

impl Value for M {
    fn stream<'sval, S: Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        match self {
            M::Unit => s.value(&()),
            M::None => s.value(&None::<u8>),
            M::Some(m) => {
                let tag = sval::tags::RUST_OPTION_SOME;
                let label = ident("Some");
                let index = tuple_idx(1);
                s.tagged_begin(Some(&tag), Some(&label), Some(&index))?;
                m.stream(s)?;
                s.tagged_end(Some(&tag), Some(&label), Some(&index))
            }
            M::Bool(v) => s.bool(*v),
            M::U8(v) => s.u8(*v),
            M::U16(v) => s.u16(*v),
            M::U32(v) => s.u32(*v),
            M::U64(v) => s.u64(*v),
            M::U128(v) => s.u128(*v),
            M::I8(v) => s.i8(*v),
            M::I16(v) => s.i16(*v),
            M::I32(v) => s.i32(*v),
            M::I64(v) => s.i64(*v),
            M::I128(v) => s.i128(*v),
            M::F32(v) => s.f32(*v),
            M::F64(v) => s.f64(*v),
            M::Char(v) => s.value(v),
            M::Str(v) => s.value(v.as_str()),
            M::Frags(v) => {
                s.text_begin(None)?;
                for f in v {
                    s.text_fragment_computed(f)?;
                }
                s.text_end()
            }
            M::Bytes(v) => s.value(sval::BinarySlice::new(v)),
            M::UnitStruct(n) => s.tag(None, Some(&ident(n)), None),
            M::UnitVariant(n, i, v) => {
                s.enum_begin(None, Some(&ident(n)), None)?;
                s.tag(None, Some(&ident(v)), Some(&tuple_idx(*i as usize)))?;
                s.enum_end(None, Some(&ident(n)), None)
            }
            M::Newtype(n, m) => {
                s.tagged_begin(None, Some(&ident(n)), None)?;
                m.stream(s)?;
                s.tagged_end(None, Some(&ident(n)), None)
            }
            M::NewtypeVariant(n, i, v, m) => {
                s.enum_begin(None, Some(&ident(n)), None)?;
                s.tagged_begin(None, Some(&ident(v)), Some(&tuple_idx(*i as usize)))?;
                m.stream(s)?;
                s.tagged_end(None, Some(&ident(v)), Some(&tuple_idx(*i as usize)))?;
                s.enum_end(None, Some(&ident(n)), None)
            }
            M::Seq(v, hint) => {
                s.seq_begin(hint.then_some(v.len()))?;
                for e in v {
                    s.seq_value_begin()?;
                    e.stream(s)?;
                    s.seq_value_end()?;
                }
                s.seq_end()
            }
            M::Tuple(v) => tuple(s, None, None, v),
            M::TupleStruct(n, v) => tuple(s, Some(&ident(n)), None, v),
            M::TupleVariant(n, i, var, v) => {
                s.enum_begin(None, Some(&ident(n)), None)?;
                tuple(s, Some(&ident(var)), Some(&tuple_idx(*i as usize)), v)?;
                s.enum_end(None, Some(&ident(n)), None)
            }
            M::Map(v, hint) => {
                s.map_begin(hint.then_some(v.len()))?;
                for (k, v) in v {
                    s.map_key_begin()?;
                    k.stream(s)?;
                    s.map_key_end()?;
                    s.map_value_begin()?;
                    v.stream(s)?;
                    s.map_value_end()?;
                }
                s.map_end()
            }
            M::Struct(n, v) => record(s, Some(&ident(n)), None, v),
            M::StructVariant(n, i, var, v) => {
                s.enum_begin(None, Some(&ident(n)), None)?;
                record(s, Some(&ident(var)), Some(&tuple_idx(*i as usize)), v)?;
                s.enum_end(None, Some(&ident(n)), None)
            }
            M::Human(a, _) => a.stream(s),
            M::SvText(v, hint) => {
                s.text_begin(hint.then(|| v.iter().map(|v| v.0.len()).sum()))?;
                for (f, borrowed) in v {
                    if *borrowed {
                        s.text_fragment(f)?;
                    } else {
                        s.text_fragment_computed(f)?;
                    }
                }
                s.text_end()
            }
            M::SvBin(v, hint) => {
                s.binary_begin(hint.then(|| v.iter().map(|v| v.0.len()).sum()))?;
                for (f, borrowed) in v {
                    if *borrowed {
                        s.binary_fragment(f)?;
                    } else {
                        s.binary_fragment_computed(f)?;
                    }
                }
                s.binary_end()
            }
            M::SvTag(t) => t.with(|a, l, i| s.tag(a, l, i)),
            M::SvTagged(t, m) => {
                t.with(|a, l, i| s.tagged_begin(a, l, i))?;
                m.stream(s)?;
                t.with(|a, l, i| s.tagged_end(a, l, i))
            }
            M::SvEnum(t, m) => {
                t.with(|a, l, i| s.enum_begin(a, l, i))?;
                m.stream(s)?;
                t.with(|a, l, i| s.enum_end(a, l, i))
            }
            M::SvRecord(t, v, hint) => {
                t.with(|a, l, i| s.record_begin(a, l, i, hint.then_some(v.len())))?;
                for (f, v) in v {
                    f.with(|a, l, _| s.record_value_begin(a, l.unwrap()))?;
                    v.stream(s)?;
                    f.with(|a, l, _| s.record_value_end(a, l.unwrap()))?;
                }
                t.with(|a, l, i| s.record_end(a, l, i))
            }
            M::SvTuple(t, v, hint) => {
                t.with(|a, l, i| s.tuple_begin(a, l, i, hint.then_some(v.len())))?;
                for (f, v) in v {
                    f.with(|a, _, i| s.tuple_value_begin(a, i.unwrap()))?;
                    v.stream(s)?;
                    f.with(|a, _, i| s.tuple_value_end(a, i.unwrap()))?;
                }
                t.with(|a, l, i| s.tuple_end(a, l, i))
            }
            M::SvRecTup(t, v, hint) => {
                t.with(|a, l, i| s.record_tuple_begin(a, l, i, hint.then_some(v.len())))?;
                for (f, v) in v {
                    f.with(|a, l, i| s.record_tuple_value_begin(a, l.unwrap(), i.unwrap()))?;
                    v.stream(s)?;
                    f.with(|a, l, i| s.record_tuple_value_end(a, l.unwrap(), i.unwrap()))?;
                }
                t.with(|a, l, i| s.record_tuple_end(a, l, i))
            }
            M::SvHint(t, m) => {
                s.tag_hint(&tag_of(*t))?;
                m.stream(s)
            }
            M::Bag(m) => {
                if transparent() {
                    m.stream(s)
                } else {
                    use value_bag_sval2::lib_ref::ValueRef;
                    ValueBag::from_sval2(&**m).stream_ref(s)
                }
            }
            M::Cross(m) => {
                if transparent() {
                    let v: &dyn value_bag_serde1::erased::Serialize = &**m;
                    value_bag_sval2::serde1::stream(s, v)
                } else {
                    use value_bag_sval2::lib_ref::ValueRef;
                    ValueBag::from_serde1(&**m).stream_ref(s)
                }
            }
            M::BagText(v) => {
                if transparent() {
                    s.text_begin(None)?;
                    for f in v {
                        s.text_fragment_computed(f)?;
                    }
                    s.text_end()
                } else {
                    s.value_computed(&ValueBag::from_debug(&Pieces(v)))
                }
            }
            M::Fail => sval::error(),
            M::Skip => unreachable!("a skipped field isn't a value"),
        }
    }
}

fn tuple<'sval, S: Stream<'sval> + ?Sized>(
    s: &mut S,
    l: Option<&Label>,
    i: Option<&Index>,
    v: &'sval [M],
) -> sval::Result {
    s.tuple_begin(None, l, i, Some(v.len()))?;
    for (n, e) in v.iter().enumerate() {
        let idx = tuple_idx(n);
        s.tuple_value_begin(None, &idx)?;
        e.stream(s)?;
        s.tuple_value_end(None, &idx)?;
    }
    s.tuple_end(None, l, i)
}

fn record<'sval, S: Stream<'sval> + ?Sized>(
    s: &mut S,
    l: Option<&Label>,
    i: Option<&Index>,
    v: &'sval [(Name, M)],
) -> sval::Result {
    s.record_begin(None, l, i, Some(v.len()))?;
    for (n, e) in v.iter().filter(|f| f.1 != M::Skip) {
        let label = ident(n);
        s.record_value_begin(None, &label)?;
        e.stream(s)?;
        s.record_value_end(None, &label)?;
    }
    s.record_end(None, l, i)
}
