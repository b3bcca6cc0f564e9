//! Primitives, what they must read as, and every public way of capturing them.

use std::borrow::Cow;

use value_bag::{fill::Slot, Error, OwnedValueBag, ValueBag};

use crate::{
    gen,
    recserde::{Fb, S},
    recsval::V,
    recvisit::C,
    rng::Rng,
};

#[derive(Clone, Debug, PartialEq)]
pub enum Prim {
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    Usize(usize),
    U128(u128),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    Isize(isize),
    I128(i128),
    F32(f32),
    F64(f64),
    Bool(bool),
    Char(char),
    Str(String),
    None(u8),
}

/// What a value is, for conversions.
#[derive(Clone, Debug, PartialEq)]
pub enum K {
    U(u128),
    I(i128),
    F(Fb),
    B(bool),
    C(char),
    S(String),
    /// Has no conversion.
    N,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Casts {
    pub u64: Option<u64>,
    pub i64: Option<i64>,
    pub u128: Option<u128>,
    pub i128: Option<i128>,
    pub f64: Option<Fb>,
    pub as_f64: Fb,
    pub bool: Option<bool>,
    pub char: Option<char>,
    pub str: Option<String>,
    /// The integer conversions, as text
    pub tryfrom: Vec<(&'static str, Option<String>)>,
}

pub const INT_TYPES: [&str; 12] = [
    "u8", "u16", "u32", "u64", "usize", "u128", "i8", "i16", "i32", "i64", "isize", "i128",
];

impl K {
    /// Whether a call of a serializer carries this value, whatever the width. `None` when
    /// nothing is known about it.
    pub fn serde_is(&self, s: &S) -> Option<bool> {
        Some(match (self, crate::obs::widen_s(s.clone())) {
            (K::U(a), S::U128(b)) => *a == b,
            (K::I(a), S::I128(b)) => *a == b,
            (K::F(a), S::F64(b)) | (K::F(a), S::F32(b)) => *a == b,
            (K::B(a), S::Bool(b)) => *a == b,
            (K::C(a), S::Char(b)) => *a == b,
            (K::S(a), S::Str(b)) => *a == b,
            // Names of variants, formatted values and the like
            (K::N, _) | (K::S(_), _) => return None,
            _ => false,
        })
    }

    pub fn sval_is(&self, v: &V) -> Option<bool> {
        Some(match (self, crate::obs::widen_v(v.clone())) {
            (K::U(a), V::U128(b)) => *a == b,
            (K::I(a), V::I128(b)) => *a == b,
            (K::F(a), V::F64(b)) | (K::F(a), V::F32(b)) => *a == b,
            (K::B(a), V::Bool(b)) => *a == b,
            (K::C(a), V::Text(b, _)) => a.to_string() == b,
            (K::S(a), V::Text(b, _)) => *a == b,
            (K::N, _) | (K::S(_), _) => return None,
            _ => false,
        })
    }

    /// Computed from the standard library's own conversions.
    pub fn casts(&self) -> Casts {
        let mut c = Casts {
            u64: None,
            i64: None,
            u128: None,
            i128: None,
            f64: None,
            as_f64: Fb(f64::NAN),
            bool: None,
            char: None,
            str: None,
            tryfrom: Vec::new(),
        };
        macro_rules! ints {
            ($v:expr) => {{
                c.u64 = $v.try_into().ok();
                c.i64 = $v.try_into().ok();
                c.u128 = $v.try_into().ok();
                c.i128 = $v.try_into().ok();
                c.as_f64 = Fb($v as f64);
                macro_rules! t {
                    ($t:ty) => {
                        <$t>::try_from($v).ok().map(|v| v.to_string())
                    };
                }
                c.tryfrom = vec![
                    ("u8", t!(u8)),
                    ("u16", t!(u16)),
                    ("u32", t!(u32)),
                    ("u64", t!(u64)),
                    ("usize", t!(usize)),
                    ("u128", t!(u128)),
                    ("i8", t!(i8)),
                    ("i16", t!(i16)),
                    ("i32", t!(i32)),
                    ("i64", t!(i64)),
                    ("isize", t!(isize)),
                    ("i128", t!(i128)),
                ];
            }};
        }
        match self {
            K::U(v) => {
                ints!(*v);
                c.f64 = u32::try_from(*v).ok().map(|v| Fb(f64::from(v)));
            }
            K::I(v) => {
                ints!(*v);
                c.f64 = i32::try_from(*v).ok().map(|v| Fb(f64::from(v)));
            }
            K::F(v) => {
                c.f64 = Some(*v);
                c.as_f64 = *v;
            }
            K::B(v) => c.bool = Some(*v),
            K::C(v) => c.char = Some(*v),
            K::S(v) => c.str = Some(v.clone()),
            K::N => (),
        }
        if c.tryfrom.is_empty() {
            c.tryfrom = INT_TYPES.iter().map(|t| (*t, None)).collect();
        }
        c
    }
}

/// The observed casts of a bag.
pub fn casts_of<'v>(bag: &ValueBag<'v>) -> Casts {
    macro_rules! t {
        ($t:ty) => {
            <$t>::try_from(bag.clone()).ok().map(|v: $t| v.to_string())
        };
    }
    Casts {
        u64: bag.to_u64(),
        i64: bag.to_i64(),
        u128: bag.to_u128(),
        i128: bag.to_i128(),
        f64: bag.to_f64().map(Fb),
        as_f64: Fb(bag.as_f64()),
        bool: bag.to_bool(),
        char: bag.to_char(),
        str: bag.to_str().map(|s| s.into_owned()),
        tryfrom: vec![
            ("u8", t!(u8)),
            ("u16", t!(u16)),
            ("u32", t!(u32)),
            ("u64", t!(u64)),
            ("usize", t!(usize)),
            ("u128", t!(u128)),
            ("i8", t!(i8)),
            ("i16", t!(i16)),
            ("i32", t!(i32)),
            ("i64", t!(i64)),
            ("isize", t!(isize)),
            ("i128", t!(i128)),
        ],
    }
}

/// The remaining `TryFrom` conversions must agree with the named reads.
pub fn other_conversions<'v>(bag: &ValueBag<'v>, c: &Casts) -> Result<(), String> {
    let f = f64::try_from(bag.clone()).ok().map(Fb);
    if f != c.f64 {
        return Err(format!("f64::try_from {f:?}"));
    }
    let b = bool::try_from(bag.clone()).ok();
    if b != c.bool {
        return Err(format!("bool::try_from {b:?}"));
    }
    let h = char::try_from(bag.clone()).ok();
    if h != c.char {
        return Err(format!("char::try_from {h:?}"));
    }
    let s = String::try_from(bag.clone()).ok();
    if s != c.str {
        return Err(format!("String::try_from {s:?}"));
    }
    let w = Cow::<str>::try_from(bag.clone()).ok().map(|s| s.into_owned());
    if w != c.str {
        return Err(format!("Cow::try_from {w:?}"));
    }
    let r = <&'v str>::try_from(bag.clone()).ok();
    if r != bag.to_borrowed_str() {
        return Err(format!("<&str>::try_from {r:?}"));
    }
    if let Some(r) = r {
        if c.str.as_deref() != Some(r) {
            return Err(format!("borrowed str {r:?}"));
        }
    }
    Ok(())
}

/// How a route treats the primitive.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Class {
    /// Captured as the primitive itself
    Direct,
    /// Only reveals itself through sval
    Sval,
    /// Only reveals itself through serde
    Serde,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Route {
    pub name: &'static str,
    pub class: Class,
    pub fill: bool,
    /// Buffered on the way
    pub owned: bool,
    /// Captured through a reference to the data
    pub by_ref: bool,
    /// Shared capture of an owned value that isn't a directly captured primitive
    pub opaque: bool,
}

pub struct FillFn<F>(pub F);

impl<F: Fn(Slot) -> Result<(), Error>> value_bag::fill::Fill for FillFn<F> {
    fn fill(&self, slot: Slot) -> Result<(), Error> {
        (self.0)(slot)
    }
}

pub type Cb<'c> = dyn for<'a, 'b> FnMut(Route, &'b ValueBag<'a>) + 'c;

fn r(name: &'static str) -> Route {
    Route {
        name,
        class: Class::Direct,
        fill: false,
        owned: false,
        by_ref: false,
        opaque: false,
    }
}

impl Route {
    fn sval(self) -> Self {
        Route {
            class: Class::Sval,
            ..self
        }
    }
    fn serde(self) -> Self {
        Route {
            class: Class::Serde,
            ..self
        }
    }
    fn fill(self) -> Self {
        Route { fill: true, ..self }
    }
    fn owned(self) -> Self {
        Route {
            owned: true,
            ..self
        }
    }
    fn refd(self) -> Self {
        Route {
            by_ref: true,
            ..self
        }
    }
}

fn owned_routes(f: &mut Cb, base: Route, bag: &ValueBag, names: [&'static str; 4]) {
    let o = bag.to_owned();
    f(Route { name: names[0], ..base.owned() }, &o.by_ref());
    let o2 = o.clone();
    drop(o);
    f(Route { name: names[1], ..base.owned() }, &ValueBag::from(&o2));
    let s = bag.to_shared();
    f(Route { name: names[2], ..base.owned() }, &s.by_ref());
    let s = o2.into_shared();
    f(Route { name: names[3], ..base.owned() }, &s.clone().by_ref());
}

macro_rules! routes_of {
    // Types of up to 64 bits, floats, bool and char
    (copy $v:ident: $t:ty, $ctor:ident, $f:ident) => {{
        let v: $t = $v;
        let some: Option<$t> = Some(v);
        $f(r("typed constructor"), &ValueBag::$ctor(v));
        $f(r("From<T>"), &ValueBag::from(v));
        $f(r("From<&T>").refd(), &ValueBag::from(&v));
        $f(r("From<Option<T>>"), &ValueBag::from(some));
        $f(r("from_option(T)"), &ValueBag::from_option(some));
        $f(r("from_option(&T)"), &ValueBag::from_option(Some(&v)));
        shared_copy_routes!(v, some, $f);
        common_routes!(v, some, $f);
        $f(
            r("fill_any(&T)").fill(),
            &ValueBag::from_fill(&|s: Slot| s.fill_any(&v)),
        );
        $f(
            r("fill_any(Option)").fill(),
            &ValueBag::from_fill(&|s: Slot| s.fill_any(some)),
        );
        $f(
            r("fill_any(T) by a struct").fill(),
            &ValueBag::from_fill(&FillFn(|s: Slot| s.fill_any(v))),
        );
        $f(
            r("fill_any(bag)").fill(),
            &ValueBag::from_fill(&|s: Slot| s.fill_any(ValueBag::from(v))),
        );
        $f(
            r("fill_any(shared capture)").fill(),
            &ValueBag::from_fill(&|s: Slot| s.fill_any(ValueBag::capture_shared_debug(v))),
        );
    }};
    (big $v:ident: $t:ty, $refctor:ident, $f:ident) => {{
        let v: $t = $v;
        let some: Option<$t> = Some(v);
        $f(r("typed reference constructor").refd(), &ValueBag::$refctor(&v));
        $f(r("From<&T>").refd(), &ValueBag::from(&v));
        $f(r("from_option(&T)").refd(), &ValueBag::from_option(Some(&v)));
        #[cfg(feature = "inline-i128")]
        {
            $f(r("From<T>"), &ValueBag::from(v));
            $f(r("from_option(T)"), &ValueBag::from_option(some));
            $f(
                r("fill_any(T)").fill(),
                &ValueBag::from_fill(&|s: Slot| s.fill_any(v)),
            );
            shared_copy_routes!(v, some, $f);
        }
        common_routes!(v, some, $f);
    }};
}

macro_rules! shared_copy_routes {
    ($v:ident, $some:ident, $f:ident) => {{
        let v = $v;
        let some = $some;
        if let Some(b) = ValueBag::try_capture_owned(&v) {
            $f(r("try_capture_owned(T)"), &b);
        } else {
            $f(r("try_capture_owned(T) returned nothing"), &ValueBag::empty());
        }
        if let Some(b) = ValueBag::try_capture_owned(&some) {
            $f(r("try_capture_owned(Option)"), &b);
        } else {
            $f(r("try_capture_owned(Option) returned nothing"), &ValueBag::empty());
        }
        $f(r("capture_shared_debug"), &ValueBag::capture_shared_debug(v));
        $f(r("capture_shared_debug(Option)"), &ValueBag::capture_shared_debug(some));
        $f(r("capture_shared_display"), &ValueBag::capture_shared_display(v));
        $f(r("capture_shared_serde1"), &ValueBag::capture_shared_serde1(v));
        $f(r("capture_shared_serde1(Option)"), &ValueBag::capture_shared_serde1(some));
    }};
}

macro_rules! common_routes {
    ($v:ident, $some:ident, $f:ident) => {{
        let v = $v;
        let some = $some;
        if let Some(b) = ValueBag::try_capture(&v) {
            $f(r("try_capture").refd(), &b);
            $f(r("try_capture by_ref").refd(), &b.by_ref());
            $f(r("try_capture clone").refd(), &b.clone());
        } else {
            $f(r("try_capture returned nothing"), &ValueBag::empty());
        }
        if let Some(b) = ValueBag::try_capture(&some) {
            $f(r("try_capture(Option)").refd(), &b);
        } else {
            $f(r("try_capture(Option) returned nothing"), &ValueBag::empty());
        }
        $f(r("capture_debug").refd(), &ValueBag::capture_debug(&v));
        $f(r("capture_debug(Option)").refd(), &ValueBag::capture_debug(&some));
        $f(r("capture_display").refd(), &ValueBag::capture_display(&v));
        $f(r("capture_serde1").refd(), &ValueBag::capture_serde1(&v));
        $f(r("capture_serde1(Option)").refd(), &ValueBag::capture_serde1(&some));

        $f(r("from_serde1").serde().refd(), &ValueBag::from_serde1(&v));
        $f(r("from_serde1(Option)").serde().refd(), &ValueBag::from_serde1(&some));
        $f(r("from_serde1 clone").serde().refd(), &ValueBag::from_serde1(&v).clone());

        $f(
            r("fill_serde1").serde().fill(),
            &ValueBag::from_fill(&|s: Slot| s.fill_serde1(v)),
        );
        $f(
            r("fill_serde1(Option)").serde().fill(),
            &ValueBag::from_fill(&|s: Slot| s.fill_serde1(&some)),
        );

        owned_routes(
            $f,
            r("").refd(),
            &ValueBag::capture_debug(&v),
            ["captured, to_owned", "captured, to_owned, clone", "captured, to_shared", "captured, to_owned, into_shared"],
        );
        owned_routes(
            $f,
            r("").serde(),
            &ValueBag::from_serde1(&v),
            ["serde, to_owned", "serde, to_owned, clone", "serde, to_shared", "serde, to_owned, into_shared"],
        );
        owned_routes(
            $f,
            r("").serde(),
            &ValueBag::from_serde1(&some),
            ["serde Option, to_owned", "serde Option, to_owned, clone", "serde Option, to_shared", "serde Option, to_owned, into_shared"],
        );
        owned_routes(
            $f,
            r("").serde(),
            &ValueBag::from_fill(&|s: Slot| s.fill_serde1(v)),
            ["fill_serde1, to_owned", "fill_serde1, to_owned, clone", "fill_serde1, to_shared", "fill_serde1, to_owned, into_shared"],
        );
    }};
}

macro_rules! sval_routes {
    (shared $v:ident, $some:ident, $f:ident) => {{
        let v = $v;
        let some = $some;
        sval_routes!(v, some, $f);
        $f(r("capture_shared_sval2"), &ValueBag::capture_shared_sval2(v));
        $f(r("capture_shared_sval2(Option)"), &ValueBag::capture_shared_sval2(some));
    }};
    ($v:ident, $some:ident, $f:ident) => {{
        let v = $v;
        let some = $some;
        $f(r("capture_sval2").refd(), &ValueBag::capture_sval2(&v));
        $f(r("capture_sval2(Option)").refd(), &ValueBag::capture_sval2(&some));
        $f(r("from_sval2").sval().refd(), &ValueBag::from_sval2(&v));
        $f(r("from_sval2(Option)").sval().refd(), &ValueBag::from_sval2(&some));
        $f(r("from_sval2 by_ref").sval().refd(), &ValueBag::from_sval2(&v).by_ref());
        $f(r("from_dyn_sval2").sval().refd(), &ValueBag::from_dyn_sval2(&v));
        let dv: &dyn value_bag_sval2::dynamic::Value = &v;
        $f(r("From<&dyn sval Value>").sval().refd(), &ValueBag::from(dv));
        $f(r("From<&&dyn sval Value>").sval().refd(), &ValueBag::from(&dv));
        $f(
            r("fill_sval2").sval().fill(),
            &ValueBag::from_fill(&|s: Slot| s.fill_sval2(v)),
        );
        $f(
            r("fill_sval2(Option)").sval().fill(),
            &ValueBag::from_fill(&|s: Slot| s.fill_sval2(&some)),
        );
        owned_routes(
            $f,
            r("").sval(),
            &ValueBag::from_sval2(&v),
            ["sval, to_owned", "sval, to_owned, clone", "sval, to_shared", "sval, to_owned, into_shared"],
        );
        owned_routes(
            $f,
            r("").sval(),
            &ValueBag::from_dyn_sval2(&some),
            ["dyn sval Option, to_owned", "dyn sval Option, to_owned, clone", "dyn sval Option, to_shared", "dyn sval Option, to_owned, into_shared"],
        );
        owned_routes(
            $f,
            r("").sval(),
            &ValueBag::from_fill(&|s: Slot| s.fill_sval2(v)),
            ["fill_sval2, to_owned", "fill_sval2, to_owned, clone", "fill_sval2, to_shared", "fill_sval2, to_owned, into_shared"],
        );
    }};
}

macro_rules! none_sval_routes {
    ($t:ty, $f:ident) => {{
        let none: Option<$t> = None;
        $f(r("capture_sval2(None)"), &ValueBag::capture_sval2(&none));
        $f(r("from_sval2(None)").sval().refd(), &ValueBag::from_sval2(&none));
        $f(
            r("fill_sval2(None)").sval().fill(),
            &ValueBag::from_fill(&|s: Slot| s.fill_sval2(&none)),
        );
    }};
    (copy $t:ty, $f:ident) => {{
        let none: Option<$t> = None;
        none_sval_routes!($t, $f);
        $f(r("capture_shared_sval2(None)"), &ValueBag::capture_shared_sval2(none));
    }};
}

macro_rules! none_routes {
    ($t:ty, $f:ident) => {{
        let none: Option<$t> = None;
        if let Some(b) = ValueBag::try_capture(&none) {
            $f(r("try_capture(None)"), &b);
        } else {
            $f(r("try_capture(None) returned nothing"), &ValueBag::from(1));
        }
        $f(r("capture_debug(None)"), &ValueBag::capture_debug(&none));
        $f(r("capture_serde1(None)"), &ValueBag::capture_serde1(&none));
        $f(r("from_serde1(None)").serde().refd(), &ValueBag::from_serde1(&none));
        $f(
            r("fill_serde1(None)").serde().fill(),
            &ValueBag::from_fill(&|s: Slot| s.fill_serde1(&none)),
        );
    }};
    (copy $t:ty, $f:ident) => {{
        none_routes!($t, $f);
        let none: Option<$t> = None;
        $f(r("From<None>"), &ValueBag::from(none));
        $f(r("from_option(None)"), &ValueBag::from_option(none));
        if let Some(b) = ValueBag::try_capture_owned(&none) {
            $f(r("try_capture_owned(None)"), &b);
        } else {
            $f(r("try_capture_owned(None) returned nothing"), &ValueBag::from(1));
        }
        $f(r("capture_shared_debug(None)"), &ValueBag::capture_shared_debug(none));
        $f(r("capture_shared_serde1(None)"), &ValueBag::capture_shared_serde1(none));
        $f(
            r("fill_any(None)").fill(),
            &ValueBag::from_fill(&|s: Slot| s.fill_any(none)),
        );
    }};
}

impl Prim {
    pub fn gen(rng: &mut Rng) -> Prim {
        match rng.below(21) {
            0 => Prim::U8(gen::edge_u128(rng) as u8),
            1 => Prim::U16(gen::edge_u128(rng) as u16),
            2 => Prim::U32(gen::edge_u128(rng) as u32),
            3 => Prim::U64(gen::edge_u128(rng) as u64),
            4 => Prim::Usize(gen::edge_u128(rng) as usize),
            5 | 6 => Prim::U128(gen::edge_u128(rng)),
            7 => Prim::I8(gen::edge_i128(rng) as i8),
            8 => Prim::I16(gen::edge_i128(rng) as i16),
            9 => Prim::I32(gen::edge_i128(rng) as i32),
            10 => Prim::I64(gen::edge_i128(rng) as i64),
            11 => Prim::Isize(gen::edge_i128(rng) as isize),
            12 | 13 => Prim::I128(gen::edge_i128(rng)),
            14 => Prim::F32(gen::float32(rng)),
            15 => Prim::F64(gen::float(rng)),
            16 => Prim::Bool(rng.bool()),
            17 => Prim::Char(gen::chr(rng)),
            18 | 19 => Prim::Str(gen::text(rng)),
            _ => Prim::None(rng.below(18) as u8),
        }
    }

    pub fn number(rng: &mut Rng) -> Prim {
        loop {
            let p = Prim::gen(rng);
            if matches!(p.kind(), K::U(_) | K::I(_) | K::F(_)) {
                return p;
            }
        }
    }

    pub fn kind(&self) -> K {
        match self {
            Prim::U8(v) => K::U(*v as u128),
            Prim::U16(v) => K::U(*v as u128),
            Prim::U32(v) => K::U(*v as u128),
            Prim::U64(v) => K::U(*v as u128),
            Prim::Usize(v) => K::U(*v as u128),
            Prim::U128(v) => K::U(*v),
            Prim::I8(v) => K::I(*v as i128),
            Prim::I16(v) => K::I(*v as i128),
            Prim::I32(v) => K::I(*v as i128),
            Prim::I64(v) => K::I(*v as i128),
            Prim::Isize(v) => K::I(*v as i128),
            Prim::I128(v) => K::I(*v),
            Prim::F32(v) => K::F(Fb(*v as f64)),
            Prim::F64(v) => K::F(Fb(*v)),
            Prim::Bool(v) => K::B(*v),
            Prim::Char(v) => K::C(*v),
            Prim::Str(v) => K::S(v.clone()),
            Prim::None(_) => K::N,
        }
    }

    /// What it reads as through a route of a class.
    pub fn kind_via(&self, class: Class) -> K {
        match (self, class) {
            (Prim::Char(c), Class::Sval) => K::S(c.to_string()),
            _ => self.kind(),
        }
    }

    pub fn is_big(&self) -> bool {
        matches!(self, Prim::U128(_) | Prim::I128(_))
    }

    pub fn serde(&self) -> S {
        match self {
            Prim::U128(v) => S::U128(*v),
            Prim::I128(v) => S::I128(*v),
            p => match p.kind() {
                K::U(v) => S::U64(v as u64),
                K::I(v) => S::I64(v as i64),
                K::F(v) => S::F64(v),
                K::B(v) => S::Bool(v),
                K::C(v) => S::Char(v),
                K::S(v) => S::Str(v),
                K::N => S::None,
            },
        }
    }

    pub fn sval(&self) -> Vec<V> {
        match self {
            Prim::U128(v) => vec![V::U128(*v)],
            Prim::I128(v) => vec![V::I128(*v)],
            p => match p.kind() {
                K::U(v) => vec![V::U64(v as u64)],
                K::I(v) => vec![V::I64(v as i64)],
                K::F(v) => vec![V::F64(v)],
                K::B(v) => vec![V::Bool(v)],
                K::C(v) => vec![V::Text(v.to_string(), None)],
                K::S(v) => vec![V::Text(v, None)],
                K::N => vec![V::Null],
            },
        }
    }

    pub fn visit(&self) -> C {
        match self {
            Prim::U128(v) => C::U128(*v),
            Prim::I128(v) => C::I128(*v),
            p => match p.kind() {
                K::U(v) => C::U64(v as u64),
                K::I(v) => C::I64(v as i64),
                K::F(v) => C::F64(v),
                K::B(v) => C::Bool(v),
                K::C(v) => C::Char(v),
                K::S(v) => C::Str(v),
                K::N => C::Empty,
            },
        }
    }

    /// A bag over this primitive through the typed constructors.
    pub fn bag(&self) -> ValueBag<'_> {
        match self {
            Prim::U8(v) => ValueBag::from(v),
            Prim::U16(v) => ValueBag::from(v),
            Prim::U32(v) => ValueBag::from(v),
            Prim::U64(v) => ValueBag::from(v),
            Prim::Usize(v) => ValueBag::from(v),
            Prim::U128(v) => ValueBag::from(v),
            Prim::I8(v) => ValueBag::from(v),
            Prim::I16(v) => ValueBag::from(v),
            Prim::I32(v) => ValueBag::from(v),
            Prim::I64(v) => ValueBag::from(v),
            Prim::Isize(v) => ValueBag::from(v),
            Prim::I128(v) => ValueBag::from(v),
            Prim::F32(v) => ValueBag::from(v),
            Prim::F64(v) => ValueBag::from(v),
            Prim::Bool(v) => ValueBag::from(v),
            Prim::Char(v) => ValueBag::from(v),
            Prim::Str(v) => ValueBag::from(v),
            Prim::None(_) => ValueBag::empty(),
        }
    }

    /// The value as the standard library formats it. Floats are kept as `f64`.
    pub fn formats<R>(&self, f: impl FnOnce(&dyn std::fmt::Debug, &dyn std::fmt::Display) -> R) -> R {
        match self {
            Prim::U8(v) => f(v, v),
            Prim::U16(v) => f(v, v),
            Prim::U32(v) => f(v, v),
            Prim::U64(v) => f(v, v),
            Prim::Usize(v) => f(v, v),
            Prim::U128(v) => f(v, v),
            Prim::I8(v) => f(&(*v as i64), &(*v as i64)),
            Prim::I16(v) => f(&(*v as i64), &(*v as i64)),
            Prim::I32(v) => f(&(*v as i64), &(*v as i64)),
            Prim::I64(v) => f(v, v),
            Prim::Isize(v) => f(v, v),
            Prim::I128(v) => f(v, v),
            Prim::F32(v) => f(&(*v as f64), &(*v as f64)),
            Prim::F64(v) => f(v, v),
            Prim::Bool(v) => f(v, v),
            Prim::Char(v) => f(v, v),
            Prim::Str(v) => f(v, v),
            Prim::None(_) => f(&None::<()>, &"None"),
        }
    }

    /// The same value as structured data.
    pub fn model(&self) -> crate::model::M {
        use crate::model::M;
        match self {
            Prim::U8(v) => M::U8(*v),
            Prim::U16(v) => M::U16(*v),
            Prim::U32(v) => M::U32(*v),
            Prim::U64(v) => M::U64(*v),
            Prim::Usize(v) => M::U64(*v as u64),
            Prim::U128(v) => M::U128(*v),
            Prim::I8(v) => M::I8(*v),
            Prim::I16(v) => M::I16(*v),
            Prim::I32(v) => M::I32(*v),
            Prim::I64(v) => M::I64(*v),
            Prim::Isize(v) => M::I64(*v as i64),
            Prim::I128(v) => M::I128(*v),
            Prim::F32(v) => M::F32(*v),
            Prim::F64(v) => M::F64(*v),
            Prim::Bool(v) => M::Bool(*v),
            Prim::Char(v) => M::Char(*v),
            Prim::Str(v) => M::Str(v.clone()),
            Prim::None(_) => M::None,
        }
    }

    /// Run over every route that captures this primitive.
    pub fn routes(&self, f: &mut Cb) {
        match self {
            Prim::U8(v) => {
                let v = *v;
                routes_of!(copy v: u8, from_u8, f);
                let some = Some(v);
                sval_routes!(shared v, some, f)
            }
            Prim::U16(v) => {
                let v = *v;
                routes_of!(copy v: u16, from_u16, f);
                let some = Some(v);
                sval_routes!(shared v, some, f)
            }
            Prim::U32(v) => {
                let v = *v;
                routes_of!(copy v: u32, from_u32, f);
                let some = Some(v);
                sval_routes!(shared v, some, f)
            }
            Prim::U64(v) => {
                let v = *v;
                routes_of!(copy v: u64, from_u64, f);
                let some = Some(v);
                sval_routes!(shared v, some, f)
            }
            Prim::Usize(v) => {
                let v = *v;
                routes_of!(copy v: usize, from_usize, f)
            }
            Prim::I8(v) => {
                let v = *v;
                routes_of!(copy v: i8, from_i8, f);
                let some = Some(v);
                sval_routes!(shared v, some, f)
            }
            Prim::I16(v) => {
                let v = *v;
                routes_of!(copy v: i16, from_i16, f);
                let some = Some(v);
                sval_routes!(shared v, some, f)
            }
            Prim::I32(v) => {
                let v = *v;
                routes_of!(copy v: i32, from_i32, f);
                let some = Some(v);
                sval_routes!(shared v, some, f)
            }
            Prim::I64(v) => {
                let v = *v;
                routes_of!(copy v: i64, from_i64, f);
                let some = Some(v);
                sval_routes!(shared v, some, f)
            }
            Prim::Isize(v) => {
                let v = *v;
                routes_of!(copy v: isize, from_isize, f)
            }
            Prim::F32(v) => {
                let v = *v;
                routes_of!(copy v: f32, from_f32, f);
                let some = Some(v);
                sval_routes!(shared v, some, f)
            }
            Prim::F64(v) => {
                let v = *v;
                routes_of!(copy v: f64, from_f64, f);
                let some = Some(v);
                sval_routes!(shared v, some, f)
            }
            Prim::Bool(v) => {
                let v = *v;
                routes_of!(copy v: bool, from_bool, f);
                let some = Some(v);
                sval_routes!(shared v, some, f)
            }
            Prim::Char(v) => {
                let v = *v;
                routes_of!(copy v: char, from_char, f);
                let some = Some(v);
                sval_routes!(shared v, some, f)
            }
            Prim::U128(v) => {
                let v = *v;
                #[cfg(feature = "inline-i128")]
                f(r("typed constructor"), &ValueBag::from_u128(v));
                routes_of!(big v: u128, from_u128_ref, f);
                let some = Some(v);
                #[cfg(feature = "inline-i128")]
                sval_routes!(shared v, some, f);
                #[cfg(not(feature = "inline-i128"))]
                sval_routes!(v, some, f)
            }
            Prim::I128(v) => {
                let v = *v;
                #[cfg(feature = "inline-i128")]
                f(r("typed constructor"), &ValueBag::from_i128(v));
                routes_of!(big v: i128, from_i128_ref, f);
                let some = Some(v);
                #[cfg(feature = "inline-i128")]
                sval_routes!(shared v, some, f);
                #[cfg(not(feature = "inline-i128"))]
                sval_routes!(v, some, f)
            }
            Prim::Str(v) => str_routes(v, f),
            Prim::None(which) => none(*which, f),
        }
    }
}

fn none(which: u8, f: &mut Cb) {
    f(r("empty()"), &ValueBag::empty());
    f(r("From<()>"), &ValueBag::from(()));
    f(r("From<&()>"), &ValueBag::from(&()));
    f(
        r("fill_any(())").fill(),
        &ValueBag::from_fill(&|s: Slot| s.fill_any(())),
    );
    f(
        r("fill_any(empty)").fill(),
        &ValueBag::from_fill(&|s: Slot| s.fill_any(ValueBag::empty())),
    );
    owned_routes(
        f,
        r(""),
        &ValueBag::empty(),
        ["empty, to_owned", "empty, to_owned, clone", "empty, to_shared", "empty, to_owned, into_shared"],
    );
    owned_routes(
        f,
        r(""),
        &ValueBag::from_fill(&|s: Slot| s.fill_any(())),
        ["filled empty, to_owned", "filled empty, to_owned, clone", "filled empty, to_shared", "filled empty, to_owned, into_shared"],
    );
    f(r("from_sval2(())").sval(), &ValueBag::from_sval2(&()));
    f(r("from_serde1(())").serde(), &ValueBag::from_serde1(&()));
    match which {
        0 => { none_routes!(copy u8, f); none_sval_routes!(copy u8, f) },
        1 => { none_routes!(copy u16, f); none_sval_routes!(copy u16, f) },
        2 => { none_routes!(copy u32, f); none_sval_routes!(copy u32, f) },
        3 => { none_routes!(copy u64, f); none_sval_routes!(copy u64, f) },
        4 => none_routes!(copy usize, f),
        5 => { none_routes!(copy i8, f); none_sval_routes!(copy i8, f) },
        6 => { none_routes!(copy i16, f); none_sval_routes!(copy i16, f) },
        7 => { none_routes!(copy i32, f); none_sval_routes!(copy i32, f) },
        8 => { none_routes!(copy i64, f); none_sval_routes!(copy i64, f) },
        9 => none_routes!(copy isize, f),
        10 => { none_routes!(copy f32, f); none_sval_routes!(copy f32, f) },
        11 => { none_routes!(copy f64, f); none_sval_routes!(copy f64, f) },
        12 => { none_routes!(copy bool, f); none_sval_routes!(copy bool, f) },
        13 => { none_routes!(copy char, f); none_sval_routes!(copy char, f) },
        14 => { none_routes!(u128, f); none_sval_routes!(u128, f) },
        15 => { none_routes!(i128, f); none_sval_routes!(i128, f) },
        16 => { none_routes!(String, f); none_sval_routes!(String, f) },
        _ => {
            none_routes!(&'static str, f);
            none_sval_routes!(&'static str, f);
            f(r("From<None::<&str>>"), &ValueBag::from(None::<&str>));
            f(r("from_option(None::<&str>)"), &ValueBag::from_option(None::<&str>));
            f(
                r("From<None::<&dyn Debug>>"),
                &ValueBag::from(None::<&dyn std::fmt::Debug>),
            );
            f(
                r("From<None::<&dyn Display>>"),
                &ValueBag::from(None::<&dyn std::fmt::Display>),
            );
            f(
                r("From<None::<&dyn Error>>"),
                &ValueBag::from(None::<&(dyn std::error::Error + 'static)>),
            );
            f(
                r("From<None::<&dyn sval Value>>"),
                &ValueBag::from(None::<&dyn value_bag_sval2::dynamic::Value>),
            );
            f(r("From<None::<&[u8; 3]>>"), &ValueBag::from(None::<&[u8; 3]>));
            f(r("From<None::<&Vec<i64>>>"), &ValueBag::from(None::<&Vec<i64>>));
            f(r("From<None::<&&[char]>>"), &ValueBag::from(None::<&&[char]>));
            f(r("From<None::<&Vec<String>>>"), &ValueBag::from(None::<&Vec<String>>));
        }
    }
}

fn str_routes(v: &String, f: &mut Cb) {
    let s: &str = v;
    let static_str: &'static str = leak(s);
    let some_static = Some(static_str);
    let some_string = Some(v.clone());
    let cow_b: Cow<str> = Cow::Borrowed(s);
    let cow_o: Cow<str> = Cow::Owned(v.clone());

    KNOWN.with(|k| {
        let mut k = k.borrow_mut();
        k.clear();
        for t in [
            s,
            static_str,
            &cow_o,
            some_string.as_deref().unwrap_or_default(),
        ] {
            k.push((t.as_ptr() as usize, t.len()));
        }
    });

    f(r("from_str").refd(), &ValueBag::from_str(s));
    f(r("From<&str>").refd(), &ValueBag::from(s));
    f(r("From<&&str>").refd(), &ValueBag::from(&s));
    f(r("From<&String>").refd(), &ValueBag::from(v));
    f(r("From<&Cow> borrowed").refd(), &ValueBag::from(&cow_b));
    f(r("From<&Cow> owned").refd(), &ValueBag::from(&cow_o));
    f(r("From<Option<&str>>").refd(), &ValueBag::from(Some(s)));
    f(r("from_option(&str)").refd(), &ValueBag::from_option(Some(s)));
    f(r("from_option(&String)").refd(), &ValueBag::from_option(Some(v)));
    f(r("from_str by_ref").refd(), &ValueBag::from_str(s).by_ref());
    f(r("from_str clone").refd(), &ValueBag::from_str(s).clone());
    // Captures
    macro_rules! tc {
        ($name:expr, $nothing:expr, $e:expr) => {
            if let Some(b) = ValueBag::try_capture($e) {
                f(r($name).refd(), &b);
            } else {
                f(r($nothing), &ValueBag::empty());
            }
        };
    }
    tc!("try_capture(&str as unsized)", "try_capture(str) returned nothing", s);
    tc!("try_capture(&String)", "try_capture(String) returned nothing", v);
    tc!("try_capture(&&str)", "try_capture(&str) returned nothing", &static_str);
    tc!("try_capture(&Some(&str))", "try_capture(Some(&str)) returned nothing", &some_static);
    tc!("try_capture(&Some(String))", "try_capture(Some(String)) returned nothing", &some_string);
    f(r("capture_debug(&String)").refd(), &ValueBag::capture_debug(v));
    f(r("capture_debug(&&str)").refd(), &ValueBag::capture_debug(&static_str));
    f(r("capture_debug(&Some(&str))").refd(), &ValueBag::capture_debug(&some_static));
    f(r("capture_debug(&Some(String))").refd(), &ValueBag::capture_debug(&some_string));
    f(r("capture_display(&String)").refd(), &ValueBag::capture_display(v));
    f(r("capture_display(&&str)").refd(), &ValueBag::capture_display(&static_str));
    f(r("capture_sval2(&String)").refd(), &ValueBag::capture_sval2(v));
    f(r("capture_sval2(&&str)").refd(), &ValueBag::capture_sval2(&static_str));
    f(r("capture_sval2(&Some(String))").refd(), &ValueBag::capture_sval2(&some_string));
    f(r("capture_serde1(&String)").refd(), &ValueBag::capture_serde1(v));
    f(r("capture_serde1(&&str)").refd(), &ValueBag::capture_serde1(&static_str));
    f(r("capture_serde1(&Some(String))").refd(), &ValueBag::capture_serde1(&some_string));
    f(
        r("fill_any(&'static str)").fill(),
        &ValueBag::from_fill(&|x: Slot| x.fill_any(static_str)),
    );
    f(
        r("fill_any(Some(&'static str))").fill(),
        &ValueBag::from_fill(&|x: Slot| x.fill_any(some_static)),
    );

    // Through the frameworks
    f(r("from_sval2(&&str)").sval().refd(), &ValueBag::from_sval2(&s));
    f(r("from_sval2(&String)").sval().refd(), &ValueBag::from_sval2(v));
    f(r("from_sval2(&Some(String))").sval().refd(), &ValueBag::from_sval2(&some_string));
    f(r("from_dyn_sval2(&String)").sval().refd(), &ValueBag::from_dyn_sval2(v));
    f(r("from_serde1(&&str)").serde().refd(), &ValueBag::from_serde1(&s));
    f(r("from_serde1(&String)").serde().refd(), &ValueBag::from_serde1(v));
    f(r("from_serde1(&Some(String))").serde().refd(), &ValueBag::from_serde1(&some_string));
    f(
        r("fill_sval2(&str)").sval().fill(),
        &ValueBag::from_fill(&|x: Slot| x.fill_sval2(s)),
    );
    f(
        r("fill_sval2(String)").sval().fill(),
        &ValueBag::from_fill(&|x: Slot| x.fill_sval2(v.clone())),
    );
    f(
        r("fill_serde1(&str)").serde().fill(),
        &ValueBag::from_fill(&|x: Slot| x.fill_serde1(s)),
    );
    f(
        r("fill_serde1(String)").serde().fill(),
        &ValueBag::from_fill(&|x: Slot| x.fill_serde1(v.clone())),
    );
    f(
        r("fill_any(shared sval String)").sval().fill(),
        &ValueBag::from_fill(&|x: Slot| x.fill_any(ValueBag::capture_shared_sval2(v.clone()))),
    );
    f(
        r("fill_any(shared serde String)").serde().fill(),
        &ValueBag::from_fill(&|x: Slot| x.fill_any(ValueBag::capture_shared_serde1(v.clone()))),
    );
    // Shared captures of text are read through the framework
    let sh = ValueBag::capture_shared_sval2(v.clone());
    f(r("capture_shared_sval2(String)").sval(), &sh);
    f(r("capture_shared_sval2(String) by_ref").sval(), &sh.by_ref());
    let sh = ValueBag::capture_shared_serde1(v.clone());
    f(r("capture_shared_serde1(String)").serde(), &sh);
    f(r("capture_shared_serde1(String) by_ref").serde(), &sh.by_ref());
    f(
        r("capture_shared_sval2(&'static str)").sval(),
        &ValueBag::capture_shared_sval2(static_str),
    );

    owned_routes(
        f,
        r("").refd(),
        &ValueBag::from(s),
        ["str, to_owned", "str, to_owned, clone", "str, to_shared", "str, to_owned, into_shared"],
    );
    owned_routes(
        f,
        r(""),
        &ValueBag::from_fill(&|x: Slot| x.fill_any(static_str)),
        ["filled str, to_owned", "filled str, to_owned, clone", "filled str, to_shared", "filled str, to_owned, into_shared"],
    );
    owned_routes(
        f,
        r("").sval(),
        &ValueBag::from_sval2(v),
        ["sval text, to_owned", "sval text, to_owned, clone", "sval text, to_shared", "sval text, to_owned, into_shared"],
    );
    owned_routes(
        f,
        r("").sval(),
        &ValueBag::capture_shared_sval2(v.clone()),
        ["shared sval text, to_owned", "shared sval text, to_owned, clone", "shared sval text, to_shared", "shared sval text, to_owned, into_shared"],
    );
    owned_routes(
        f,
        r("").serde(),
        &ValueBag::from_serde1(v),
        ["serde text, to_owned", "serde text, to_owned, clone", "serde text, to_shared", "serde text, to_owned, into_shared"],
    );
    owned_routes(
        f,
        r("").serde(),
        &ValueBag::from_fill(&|x: Slot| x.fill_serde1(s)),
        ["fill_serde1 text, to_owned", "fill_serde1 text, to_owned, clone", "fill_serde1 text, to_shared", "fill_serde1 text, to_owned, into_shared"],
    );
    // A copy of a copy
    let o: OwnedValueBag = ValueBag::from(s).to_owned();
    let o2 = o.by_ref().to_owned();
    drop(o);
    f(r("str, to_owned twice").owned().refd(), &o2.by_ref());
}

/// Whether text lives in one of the strings the current value was captured from.
pub fn is_known(t: &str) -> bool {
    let at = t.as_ptr() as usize;
    KNOWN.with(|k| k.borrow().iter().any(|(p, n)| at >= *p && at + t.len() <= p + n))
}

thread_local! {
    static KNOWN: std::cell::RefCell<Vec<(usize, usize)>> = const { std::cell::RefCell::new(Vec::new()) };
    static LEAKED: std::cell::RefCell<Vec<*mut str>> = const { std::cell::RefCell::new(Vec::new()) };
}

/// A `'static` view of some text. It's kept until the end of the case, when nothing
/// made from it is left.
pub fn leak(s: &str) -> &'static str {
    let p: *mut str = Box::into_raw(s.into());
    LEAKED.with(|l| l.borrow_mut().push(p));
    unsafe { &*p }
}

pub fn leaked() -> usize {
    LEAKED.with(|l| l.borrow().len())
}

pub fn free_leaked(from: usize) {
    LEAKED.with(|l| {
        for p in l.borrow_mut().drain(from..) {
            drop(unsafe { Box::from_raw(p) });
        }
    });
}
