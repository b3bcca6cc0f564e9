//! Bags of every kind, made through every constructor, behind every kind of handle.

use std::{cell::RefCell, sync::Arc};

use value_bag::{fill::Slot, OwnedValueBag, ValueBag};

use crate::{
    ctx::short,
    gen,
    model::Dom,
    prim::{Prim, K},
    rng::Rng,
    user::{Coll, Elem, FillPrim, Ledger, U},
};

#[derive(Clone, Debug)]
pub enum Data {
    Prim(Prim),
    Debug(U),
    Display(U),
    Error(U),
    Sval(U),
    Serde(U),
    Seq(Seq),
    /// A fill that fails
    FailFill,
}

#[derive(Clone, Debug)]
pub enum Seq {
    U8(Vec<u8>),
    U16(Vec<u16>),
    U32(Vec<u32>),
    U64(Vec<u64>),
    Usize(Vec<usize>),
    U128(Vec<u128>),
    I8(Vec<i8>),
    I16(Vec<i16>),
    I32(Vec<i32>),
    I64(Vec<i64>),
    Isize(Vec<isize>),
    I128(Vec<i128>),
    F32(Vec<f32>),
    F64(Vec<f64>),
    Bool(Vec<bool>),
    Char(Vec<char>),
    Str(Vec<&'static str>),
    String(Vec<String>),
    Elems(Vec<Elem>),
    Owned(Vec<(Elem, OwnedValueBag)>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Wrap {
    Plain,
    ByRef,
    Clone,
    Owned,
    OwnedClone,
    Shared,
    IntoShared,
    OwnedTwice,
}

pub const WRAPS: [Wrap; 8] = [
    Wrap::Plain,
    Wrap::ByRef,
    Wrap::Clone,
    Wrap::Owned,
    Wrap::OwnedClone,
    Wrap::Shared,
    Wrap::IntoShared,
    Wrap::OwnedTwice,
];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Info {
    pub name: &'static str,
    /// The bag is over a fill
    pub fill: bool,
    /// The value was captured or made shared
    pub shared: bool,
    /// Downcasting is supported
    pub capture: bool,
    /// It went through a buffer
    pub buffered: bool,
    pub wrap: Wrap,
}

fn i(name: &'static str) -> Info {
    Info {
        name,
        fill: false,
        shared: false,
        capture: false,
        buffered: false,
        wrap: Wrap::Plain,
    }
}

impl Info {
    fn fill(self) -> Info {
        Info { fill: true, ..self }
    }
    fn shared(self) -> Info {
        Info {
            shared: true,
            capture: true,
            ..self
        }
    }
    fn buf(self) -> Info {
        Info {
            buffered: true,
            ..self
        }
    }
    fn cap(self) -> Info {
        Info {
            capture: true,
            ..self
        }
    }
}

pub type Cb<'c> = dyn for<'a, 'b> FnMut(&Info, &'b ValueBag<'a>) + 'c;

#[derive(Clone, Debug)]
pub struct Subject {
    pub data: Data,
    pub route: usize,
    pub wrap: Wrap,
}

thread_local! {
    static LEAKED: RefCell<Vec<*mut dyn std::any::Any>> = const { RefCell::new(Vec::new()) };
}

/// A `'static` view of a value, kept until `free_leaked`.
pub fn leak_any<T: 'static>(v: T) -> &'static T {
    let p: *mut T = Box::into_raw(Box::new(v));
    LEAKED.with(|l| l.borrow_mut().push(p as *mut dyn std::any::Any));
    unsafe { &*p }
}

pub fn free_leaked() {
    free_leaked_since((0, 0));
}

/// A point in time for `free_leaked_since`.
pub fn leaked() -> (usize, usize) {
    (LEAKED.with(|l| l.borrow().len()), crate::prim::leaked())
}

pub fn free_leaked_since(from: (usize, usize)) {
    LEAKED.with(|l| {
        for p in l.borrow_mut().drain(from.0..) {
            drop(unsafe { Box::from_raw(p) });
        }
    });
    crate::prim::free_leaked(from.1);
}

fn wrapped(info: Info, wrap: Wrap, bag: ValueBag, f: &mut Cb) {
    let info = Info {
        wrap,
        buffered: info.buffered
            || (!matches!(wrap, Wrap::Plain | Wrap::ByRef | Wrap::Clone) && !info.shared),
        fill: info.fill && matches!(wrap, Wrap::Plain | Wrap::ByRef | Wrap::Clone),
        ..info
    };
    match wrap {
        Wrap::Plain => f(&info, &bag),
        Wrap::ByRef => f(&info, &bag.by_ref().by_ref()),
        Wrap::Clone => {
            let c = bag.clone();
            drop(bag);
            f(&info, &c)
        }
        Wrap::Owned => {
            let o = bag.to_owned();
            drop(bag);
            f(&info, &o.by_ref())
        }
        Wrap::OwnedClone => {
            let o = bag.to_owned();
            drop(bag);
            let c = o.clone();
            drop(o);
            f(&info, &ValueBag::from(&c))
        }
        Wrap::Shared => {
            let o = bag.to_shared();
            drop(bag);
            f(&info, &o.by_ref())
        }
        Wrap::IntoShared => {
            let o = bag.to_owned().into_shared();
            drop(bag);
            let c = o.clone();
            drop(o);
            f(&info, &c.by_ref())
        }
        Wrap::OwnedTwice => {
            let o = bag.to_owned();
            drop(bag);
            let c = o.by_ref().to_owned();
            drop(o);
            f(&info, &c.by_ref())
        }
    }
}

/// The routes of a slice of anything.
pub const SEQ_ROUTES: usize = 10;

pub fn seq_route<T>(v: &Vec<T>, route: usize, wrap: Wrap, f: &mut Cb)
where
    T: Clone + Send + Sync + 'static,
    for<'a> &'a T: Into<ValueBag<'a>>,
{
    match route {
        0 => wrapped(i("from_seq_slice(&Vec)"), wrap, ValueBag::from_seq_slice(v), f),
        1 => {
            let s: &[T] = v;
            wrapped(i("from_seq_slice(&&[T])"), wrap, ValueBag::from_seq_slice(&s), f)
        }
        2 => {
            let s: Box<[T]> = v.clone().into();
            wrapped(i("from_seq_slice(&Box<[T]>)"), wrap, ValueBag::from_seq_slice(&s), f)
        }
        3 => {
            let s = Coll::new(v.clone());
            wrapped(i("from_seq_slice(user type)"), wrap, ValueBag::from_seq_slice(&s), f)
        }
        4 => wrapped(
            i("capture_shared_seq_slice(Vec)").shared(),
            wrap,
            ValueBag::capture_shared_seq_slice(v.clone()),
            f,
        ),
        5 => wrapped(
            i("capture_shared_seq_slice(user type)").shared(),
            wrap,
            ValueBag::capture_shared_seq_slice(Coll::new(v.clone())),
            f,
        ),
        6 => {
            let s = leak_any(v.clone());
            wrapped(
                i("fill_seq_slice(Vec)").fill(),
                wrap,
                ValueBag::from_fill(&|x: Slot| x.fill_seq_slice(s)),
                f,
            )
        }
        7 => {
            let v = v.clone();
            wrapped(
                i("fill_any(shared sequence)").fill(),
                wrap,
                ValueBag::from_fill(&move |x: Slot| {
                    x.fill_any(ValueBag::capture_shared_seq_slice(v.clone()))
                }),
                f,
            )
        }
        8 => {
            let s: Arc<[T]> = v.clone().into();
            wrapped(
                i("capture_shared_seq_slice(Arc<[T]>)").shared(),
                wrap,
                ValueBag::capture_shared_seq_slice(s),
                f,
            )
        }
        _ => {
            let s = leak_any(Coll::new(v.clone()));
            wrapped(
                i("fill_seq_slice(user type)").fill(),
                wrap,
                ValueBag::from_fill(&|x: Slot| x.fill_seq_slice(s)),
                f,
            )
        }
    }
}

macro_rules! prim_seq {
    ($v:ident, $t:ty, $route:expr, $wrap:expr, $f:ident) => {
        prim_seq!($v, $t, $route, $wrap, $f, ValueBag::from, |v| ValueBag::from(Some(v)))
    };
    ($v:ident, $t:ty, $route:expr, $wrap:expr, $f:ident, $vec:path, |$x:ident| $opt:expr) => {{
        let v: &Vec<$t> = $v;
        match $route {
            r if r < SEQ_ROUTES => seq_route(v, r, $wrap, $f),
            10 => wrapped(i("From<&Vec<T>>"), $wrap, $vec(v), $f),
            11 => {
                let s: &[$t] = v;
                wrapped(i("From<&&[T]>"), $wrap, ValueBag::from(&s), $f)
            }
            12 => wrapped(i("From<Option<&Vec<T>>>"), $wrap, { let $x = v; $opt }, $f),
            13 => {
                let s: &[$t] = v;
                wrapped(i("From<Option<&&[T]>>"), $wrap, ValueBag::from(Some(&s)), $f)
            }
            r => {
                macro_rules! n {
                    ($n:literal) => {{
                        let a: [$t; $n] = <[$t; $n]>::try_from(v.clone()).ok().unwrap();
                        if r % 2 == 0 {
                            wrapped(i("From<&[T; N]>"), $wrap, ValueBag::from(&a), $f)
                        } else {
                            wrapped(i("From<Option<&[T; N]>>"), $wrap, ValueBag::from(Some(&a)), $f)
                        }
                    }};
                }
                match v.len() {
                    0 => n!(0),
                    1 => n!(1),
                    2 => n!(2),
                    3 => n!(3),
                    4 => n!(4),
                    5 => n!(5),
                    _ => wrapped(i("From<&Vec<T>>"), $wrap, $vec(v), $f),
                }
            }
        }
    }};
}

impl Seq {
    pub const ROUTES: usize = 16;

    pub fn gen(rng: &mut Rng) -> Seq {
        let n = match rng.below(8) {
            0 => 0,
            1..=5 => rng.below(6),
            6 => rng.below(40),
            _ => *rng.pick(&[63, 64, 65, 127, 128, 129]),
        };
        let n = crate::gen::large(rng, 40, 130, 600).unwrap_or(n);
        macro_rules! v {
            ($p:ident, $e:expr) => {
                Seq::$p((0..n).map(|_| $e).collect())
            };
        }
        match rng.below(26) {
            0 => v!(U8, gen::edge_u128(rng) as u8),
            1 => v!(U16, gen::edge_u128(rng) as u16),
            2 => v!(U32, gen::edge_u128(rng) as u32),
            3 => v!(U64, gen::edge_u128(rng) as u64),
            4 => v!(Usize, gen::edge_u128(rng) as usize),
            5 => v!(U128, gen::edge_u128(rng)),
            6 => v!(I8, gen::edge_i128(rng) as i8),
            7 => v!(I16, gen::edge_i128(rng) as i16),
            8 => v!(I32, gen::edge_i128(rng) as i32),
            9 => v!(I64, gen::edge_i128(rng) as i64),
            10 => v!(Isize, gen::edge_i128(rng) as isize),
            11 => v!(I128, gen::edge_i128(rng)),
            12 => v!(F32, gen::float32(rng)),
            13 => v!(F64, gen::float(rng)),
            14 => v!(Bool, rng.bool()),
            15 => v!(Char, gen::chr(rng)),
            16 => v!(Str, crate::prim::leak(&gen::text(rng))),
            17 | 18 => v!(String, gen::text(rng)),
            19 | 20 => Seq::Owned(
                Elem::gen_vec(rng, 1)
                    .into_iter()
                    .map(|e| {
                        let o = ValueBag::from(&e).to_owned();
                        (e, o)
                    })
                    .collect(),
            ),
            _ => Seq::Elems(Elem::gen_vec(rng, 2)),
        }
    }

    pub fn kinds(&self) -> Vec<K> {
        match self {
            Seq::U8(v) => v.iter().map(|v| K::U(*v as u128)).collect(),
            Seq::U16(v) => v.iter().map(|v| K::U(*v as u128)).collect(),
            Seq::U32(v) => v.iter().map(|v| K::U(*v as u128)).collect(),
            Seq::U64(v) => v.iter().map(|v| K::U(*v as u128)).collect(),
            Seq::Usize(v) => v.iter().map(|v| K::U(*v as u128)).collect(),
            Seq::U128(v) => v.iter().map(|v| K::U(*v)).collect(),
            Seq::I8(v) => v.iter().map(|v| K::I(*v as i128)).collect(),
            Seq::I16(v) => v.iter().map(|v| K::I(*v as i128)).collect(),
            Seq::I32(v) => v.iter().map(|v| K::I(*v as i128)).collect(),
            Seq::I64(v) => v.iter().map(|v| K::I(*v as i128)).collect(),
            Seq::Isize(v) => v.iter().map(|v| K::I(*v as i128)).collect(),
            Seq::I128(v) => v.iter().map(|v| K::I(*v)).collect(),
            Seq::F32(v) => v.iter().map(|v| Prim::F32(*v).kind()).collect(),
            Seq::F64(v) => v.iter().map(|v| Prim::F64(*v).kind()).collect(),
            Seq::Bool(v) => v.iter().map(|v| K::B(*v)).collect(),
            Seq::Char(v) => v.iter().map(|v| K::C(*v)).collect(),
            Seq::Str(v) => v.iter().map(|v| K::S(v.to_string())).collect(),
            Seq::String(v) => v.iter().map(|v| K::S(v.clone())).collect(),
            Seq::Elems(v) => v.iter().map(|v| v.kind()).collect(),
            Seq::Owned(v) => v.iter().map(|v| v.0.kind()).collect(),
        }
    }

    /// The elements as a list of numbers, text, bools or chars, when that's all they are.
    /// Signed integers are kept as `i64` and floats as `f64`.
    pub fn list(&self) -> Option<Box<dyn std::fmt::Debug>> {
        macro_rules! l {
            ($v:ident as $t:ty) => {
                Box::new($v.iter().map(|v| *v as $t).collect::<Vec<$t>>())
            };
            ($v:ident) => {
                Box::new($v.clone())
            };
        }
        Some(match self {
            Seq::U8(v) => l!(v),
            Seq::U16(v) => l!(v),
            Seq::U32(v) => l!(v),
            Seq::U64(v) => l!(v),
            Seq::Usize(v) => l!(v),
            Seq::U128(v) => l!(v),
            Seq::I8(v) => l!(v as i64),
            Seq::I16(v) => l!(v as i64),
            Seq::I32(v) => l!(v as i64),
            Seq::I64(v) => l!(v),
            Seq::Isize(v) => l!(v),
            Seq::I128(v) => l!(v),
            Seq::F32(v) => l!(v as f64),
            Seq::F64(v) => l!(v),
            Seq::Bool(v) => l!(v),
            Seq::Char(v) => l!(v),
            Seq::Str(v) => l!(v),
            Seq::String(v) => l!(v),
            Seq::Elems(_) | Seq::Owned(_) => return None,
        })
    }

    /// Each of the elements on its own.
    pub fn each(&self, f: &mut Cb) {
        macro_rules! e {
            ($v:expr) => {
                for e in $v {
                    f(&i("element"), &ValueBag::from(e));
                }
            };
        }
        match self {
            Seq::U8(v) => e!(v),
            Seq::U16(v) => e!(v),
            Seq::U32(v) => e!(v),
            Seq::U64(v) => e!(v),
            Seq::Usize(v) => e!(v),
            Seq::U128(v) => e!(v),
            Seq::I8(v) => e!(v),
            Seq::I16(v) => e!(v),
            Seq::I32(v) => e!(v),
            Seq::I64(v) => e!(v),
            Seq::Isize(v) => e!(v),
            Seq::I128(v) => e!(v),
            Seq::F32(v) => e!(v),
            Seq::F64(v) => e!(v),
            Seq::Bool(v) => e!(v),
            Seq::Char(v) => e!(v),
            Seq::Str(v) => e!(v),
            Seq::String(v) => e!(v),
            Seq::Elems(v) => e!(v),
            Seq::Owned(v) => {
                for (_, e) in v {
                    f(&i("element"), &ValueBag::from(e));
                }
            }
        }
    }

    fn with(&self, route: usize, wrap: Wrap, f: &mut Cb) {
        match self {
            Seq::U8(v) => prim_seq!(v, u8, route, wrap, f),
            Seq::U16(v) => prim_seq!(v, u16, route, wrap, f),
            Seq::U32(v) => prim_seq!(v, u32, route, wrap, f),
            Seq::U64(v) => prim_seq!(v, u64, route, wrap, f),
            Seq::Usize(v) => prim_seq!(v, usize, route, wrap, f),
            Seq::U128(v) => prim_seq!(v, u128, route, wrap, f),
            Seq::I8(v) => prim_seq!(v, i8, route, wrap, f),
            Seq::I16(v) => prim_seq!(v, i16, route, wrap, f),
            Seq::I32(v) => prim_seq!(v, i32, route, wrap, f),
            Seq::I64(v) => prim_seq!(v, i64, route, wrap, f),
            Seq::Isize(v) => prim_seq!(v, isize, route, wrap, f),
            Seq::I128(v) => prim_seq!(v, i128, route, wrap, f),
            Seq::F32(v) => prim_seq!(v, f32, route, wrap, f),
            Seq::F64(v) => prim_seq!(v, f64, route, wrap, f),
            Seq::Bool(v) => prim_seq!(v, bool, route, wrap, f),
            Seq::Char(v) => prim_seq!(v, char, route, wrap, f),
            Seq::Str(v) => prim_seq!(v, &'static str, route, wrap, f, ValueBag::from_seq_slice, |v| ValueBag::from_seq_slice(v)),
            Seq::String(v) => match route % 12 {
                10 => wrapped(i("From<&Vec<String>>"), wrap, ValueBag::from(v), f),
                11 => wrapped(i("From<Option<&Vec<String>>>"), wrap, ValueBag::from(Some(v)), f),
                r => seq_route(v, r, wrap, f),
            },
            Seq::Elems(v) => seq_route(v, route % SEQ_ROUTES, wrap, f),
            Seq::Owned(v) => {
                let v: Vec<OwnedValueBag> = v.iter().map(|v| v.1.clone()).collect();
                seq_route(&v, route % SEQ_ROUTES, wrap, f)
            }
        }
    }
}

impl Subject {
    pub fn new(data: Data) -> Subject {
        Subject {
            data,
            route: 0,
            wrap: Wrap::Plain,
        }
    }

    pub fn gen(rng: &mut Rng) -> Subject {
        let data = match rng.below(16) {
            0..=2 => Data::Prim(Prim::gen(rng)),
            3 => Data::Debug(U::gen_text(rng)),
            4 => Data::Display(U::gen_text(rng)),
            5 | 6 => Data::Error(U::gen_error(rng)),
            7..=9 => Data::Sval(U::gen_data(rng, 4, Dom::SVAL)),
            10..=12 => Data::Serde(U::gen_data(rng, 4, Dom::SERDE)),
            _ => Data::Seq(Seq::gen(rng)),
        };
        Subject::routed(rng, data)
    }

    pub fn routed(rng: &mut Rng, data: Data) -> Subject {
        let route = rng.below(data.routes());
        let wrap = match rng.below(3) {
            0 => Wrap::Plain,
            _ => *rng.pick(&WRAPS),
        };
        Subject { data, route, wrap }
    }

    /// A value that no conversion applies to.
    pub fn gen_non_scalar(rng: &mut Rng) -> Subject {
        loop {
            let s = Subject::gen(rng);
            if s.kind() == K::N {
                return s;
            }
        }
    }

    pub fn kind(&self) -> K {
        match &self.data {
            Data::Prim(p) => p.kind(),
            Data::Sval(u) => u.m.kind_sval(),
            Data::Serde(u) => u.m.kind_serde(),
            _ => K::N,
        }
    }

    pub fn describe(&self) -> String {
        let d = match &self.data {
            Data::Prim(p) => format!("Prim {}", short(p)),
            Data::Debug(u) => format!("Debug {:?} {}", u.frags, u.num),
            Data::Display(u) => format!("Display {:?} {}", u.frags, u.num),
            Data::Error(u) => format!("Error {:?}", u.chain_text()),
            Data::Sval(u) => format!("sval {}", short(&u.m)),
            Data::Serde(u) => format!("serde {}", short(&u.m)),
            Data::Seq(s) => format!("Seq {}", short(s)),
            Data::FailFill => "failing fill".into(),
        };
        format!("{d} via {} {:?}", self.data.route_name(self.route), self.wrap)
    }

    pub fn with(&self, f: &mut Cb) {
        self.data.with(self.route, self.wrap, f)
    }

    pub fn ledger(&self) -> Option<&Arc<Ledger>> {
        match &self.data {
            Data::Debug(u) | Data::Display(u) | Data::Error(u) | Data::Sval(u) | Data::Serde(u) => {
                Some(&u.led)
            }
            _ => None,
        }
    }
}

macro_rules! fill_with {
    ($name:literal, $wrap:expr, $f:ident, |$s:ident| $e:expr) => {
        wrapped(i($name).fill(), $wrap, ValueBag::from_fill(&|$s: Slot| $e), $f)
    };
}

impl Data {
    pub fn routes(&self) -> usize {
        match self {
            Data::Prim(_) => 5,
            Data::Debug(_) | Data::Display(_) => 9,
            Data::Error(_) => 9,
            Data::Sval(_) => 9,
            Data::Serde(_) => 5,
            Data::Seq(_) => Seq::ROUTES,
            Data::FailFill => 1,
        }
    }

    /// Routes that borrow the value without a copy.
    pub fn borrowing_route(&self, r: usize) -> bool {
        match self {
            Data::Prim(_) => r == 0,
            Data::Debug(_) | Data::Display(_) | Data::Error(_) | Data::Sval(_) => r < 6,
            Data::Serde(_) => r < 2,
            Data::Seq(_) => r < 2 || r >= 10,
            Data::FailFill => false,
        }
    }

    pub fn route_name(&self, route: usize) -> String {
        format!("route {route}")
    }

    pub fn with(&self, route: usize, wrap: Wrap, f: &mut Cb) {
        match self {
            Data::Prim(p) => match route {
                0 => wrapped(i("typed"), wrap, p.bag(), f),
                1 => wrapped(i("from_fill").fill(), wrap, ValueBag::from_fill(&FillPrim(p.clone())), f),
                2 => wrapped(i("From<&OwnedValueBag>").buf(), wrap, ValueBag::from(&p.bag().to_owned()), f),
                3 => {
                    let m = p.model();
                    wrapped(i("from_serde1"), wrap, ValueBag::from_serde1(&m), f)
                }
                _ => wrapped(i("by_ref"), wrap, p.bag().by_ref(), f),
            },
            Data::Debug(u) => {
                let d: &dyn std::fmt::Debug = u;
                match route {
                    0 => wrapped(i("from_debug"), wrap, ValueBag::from_debug(u), f),
                    1 => wrapped(i("capture_debug").cap(), wrap, ValueBag::capture_debug(u), f),
                    2 => wrapped(i("from_dyn_debug"), wrap, ValueBag::from_dyn_debug(d), f),
                    3 => wrapped(i("From<&dyn Debug>"), wrap, ValueBag::from(d), f),
                    4 => wrapped(i("From<&&dyn Debug>"), wrap, ValueBag::from(&d), f),
                    5 => wrapped(i("From<Option<&dyn Debug>>"), wrap, ValueBag::from(Some(d)), f),
                    6 => wrapped(
                        i("capture_shared_debug").shared(),
                        wrap,
                        ValueBag::capture_shared_debug(u.clone()),
                        f,
                    ),
                    7 => fill_with!("fill_debug", wrap, f, |s| s.fill_debug(u)),
                    _ => fill_with!("fill_any(shared debug)", wrap, f, |s| s
                        .fill_any(ValueBag::capture_shared_debug(u.clone()))),
                }
            }
            Data::Display(u) => {
                let d: &dyn std::fmt::Display = u;
                match route {
                    0 => wrapped(i("from_display"), wrap, ValueBag::from_display(u), f),
                    1 => wrapped(i("capture_display").cap(), wrap, ValueBag::capture_display(u), f),
                    2 => wrapped(i("from_dyn_display"), wrap, ValueBag::from_dyn_display(d), f),
                    3 => wrapped(i("From<&dyn Display>"), wrap, ValueBag::from(d), f),
                    4 => wrapped(i("From<&&dyn Display>"), wrap, ValueBag::from(&d), f),
                    5 => wrapped(i("From<Option<&dyn Display>>"), wrap, ValueBag::from(Some(d)), f),
                    6 => wrapped(
                        i("capture_shared_display").shared(),
                        wrap,
                        ValueBag::capture_shared_display(u.clone()),
                        f,
                    ),
                    7 => fill_with!("fill_display", wrap, f, |s| s.fill_display(u)),
                    _ => fill_with!("fill_any(shared display)", wrap, f, |s| s
                        .fill_any(ValueBag::capture_shared_display(u.clone()))),
                }
            }
            Data::Error(u) => {
                let d: &(dyn std::error::Error + 'static) = u;
                match route {
                    0 => wrapped(i("from_dyn_error"), wrap, ValueBag::from_dyn_error(d), f),
                    1 => wrapped(i("capture_error").cap(), wrap, ValueBag::capture_error(u), f),
                    2 => wrapped(i("From<&dyn Error>"), wrap, ValueBag::from(d), f),
                    3 => wrapped(i("From<Option<&dyn Error>>"), wrap, ValueBag::from(Some(d)), f),
                    4 => wrapped(i("From<&&dyn Error>"), wrap, ValueBag::from(&d), f),
                    5 => wrapped(i("capture_error by_ref").cap(), wrap, ValueBag::capture_error(u).by_ref(), f),
                    6 => wrapped(
                        i("capture_shared_error").shared(),
                        wrap,
                        ValueBag::capture_shared_error(u.clone()),
                        f,
                    ),
                    7 => fill_with!("fill_error", wrap, f, |s| s.fill_error(u.clone())),
                    _ => fill_with!("fill_dyn_error", wrap, f, |s| s.fill_dyn_error(u)),
                }
            }
            Data::Sval(u) => {
                let d: &dyn value_bag_sval2::dynamic::Value = u;
                match route {
                    0 => wrapped(i("from_sval2"), wrap, ValueBag::from_sval2(u), f),
                    1 => wrapped(i("capture_sval2").cap(), wrap, ValueBag::capture_sval2(u), f),
                    2 => wrapped(i("from_dyn_sval2"), wrap, ValueBag::from_dyn_sval2(d), f),
                    3 => wrapped(i("From<&dyn Value>"), wrap, ValueBag::from(d), f),
                    4 => wrapped(i("From<&&dyn Value>"), wrap, ValueBag::from(&d), f),
                    5 => wrapped(i("From<Option<&dyn Value>>"), wrap, ValueBag::from(Some(d)), f),
                    6 => wrapped(
                        i("capture_shared_sval2").shared(),
                        wrap,
                        ValueBag::capture_shared_sval2(u.clone()),
                        f,
                    ),
                    7 => fill_with!("fill_sval2", wrap, f, |s| s.fill_sval2(u)),
                    _ => fill_with!("fill_any(shared sval)", wrap, f, |s| s
                        .fill_any(ValueBag::capture_shared_sval2(u.clone()))),
                }
            }
            Data::Serde(u) => match route {
                0 => wrapped(i("from_serde1"), wrap, ValueBag::from_serde1(u), f),
                1 => wrapped(i("capture_serde1").cap(), wrap, ValueBag::capture_serde1(u), f),
                2 => wrapped(
                    i("capture_shared_serde1").shared(),
                    wrap,
                    ValueBag::capture_shared_serde1(u.clone()),
                    f,
                ),
                3 => fill_with!("fill_serde1", wrap, f, |s| s.fill_serde1(u)),
                _ => fill_with!("fill_any(shared serde)", wrap, f, |s| s
                    .fill_any(ValueBag::capture_shared_serde1(u.clone()))),
            },
            Data::Seq(s) => s.with(route, wrap, f),
            Data::FailFill => fill_with!("failing fill", wrap, f, |s| {
                let _ = s;
                Err(value_bag::Error::msg("the fill's own error"))
            }),
        }
    }
}
