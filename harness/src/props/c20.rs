//! Primitive handling never allocates, and documented cheap paths stay cheap.

use std::{borrow::Cow, fmt::Write, hint::black_box};

use value_bag::{visit::Visit, Error, OwnedValueBag, ValueBag};

use crate::{
    alloc::measure,
    ctx::{short, Ctx},
    gen,
    model::{Dom, M},
    prim::{Class, Prim, Route},
    rng::Rng,
    sink::Null,
    subject::{Data, Info, Seq, Subject, Wrap},
    user::{Coll, Elem, U},
};

/// The longest string kept inline.
fn inline_limit() -> usize {
    if cfg!(feature = "inline-str-l") {
        46
    } else if cfg!(feature = "inline-str") {
        22
    } else {
        0
    }
}

/// Takes what it's given without keeping it.
struct Look(usize);

impl<'v> Visit<'v> for Look {
    fn visit_any(&mut self, _: ValueBag) -> Result<(), Error> {
        self.0 += 1;
        Ok(())
    }
    fn visit_u64(&mut self, v: u64) -> Result<(), Error> {
        self.0 += v as usize & 1;
        Ok(())
    }
    fn visit_str(&mut self, v: &str) -> Result<(), Error> {
        self.0 += v.len();
        Ok(())
    }
}

struct Bare(usize);

impl<'v> Visit<'v> for Bare {
    fn visit_any(&mut self, v: ValueBag) -> Result<(), Error> {
        self.0 += v.is_empty() as usize;
        Ok(())
    }
}

macro_rules! free {
    ($ctx:ident, $what:ident, $name:expr, $e:expr) => {{
        let (r, c) = measure(|| $e);
        $ctx.check(c.allocs == 0 && c.reallocs == 0, || {
            $what(&format!("{}: {} allocations, {} reallocations", $name, c.allocs, c.reallocs))
        });
        $ctx.count_up("operations measured");
        r
    }};
}

/// Every operation on a bag over a primitive.
fn operations(ctx: &mut Ctx, bag: &ValueBag, fixed: bool, what: &dyn Fn(&str) -> String) {
    macro_rules! f {
        ($n:literal, $e:expr) => {{
            black_box(free!(ctx, what, $n, $e));
        }};
    }
    f!("clone", bag.clone());
    f!("by_ref", bag.by_ref());
    f!("by_ref, clone, drop", drop(bag.by_ref().clone().by_ref()));
    f!("is_empty", bag.is_empty());
    f!("is", bag.is::<U>());
    f!("downcast_ref", bag.downcast_ref::<U>().is_some());
    f!("to_u64", bag.to_u64());
    f!("to_i64", bag.to_i64());
    f!("to_u128", bag.to_u128());
    f!("to_i128", bag.to_i128());
    f!("to_f64", bag.to_f64());
    f!("as_f64", bag.as_f64());
    f!("to_bool", bag.to_bool());
    f!("to_char", bag.to_char());
    f!("to_str", bag.to_str().map(|s| matches!(s, Cow::Borrowed(_))));
    f!("to_borrowed_str", bag.to_borrowed_str().is_some());
    f!("to_borrowed_error", bag.to_borrowed_error().is_some());
    f!("u8::try_from", u8::try_from(bag.clone()).ok());
    f!("u16::try_from", u16::try_from(bag.clone()).ok());
    f!("u32::try_from", u32::try_from(bag.clone()).ok());
    f!("u64::try_from", u64::try_from(bag.clone()).ok());
    f!("u128::try_from", u128::try_from(bag.clone()).ok());
    f!("usize::try_from", usize::try_from(bag.clone()).ok());
    f!("i8::try_from", i8::try_from(bag.clone()).ok());
    f!("i16::try_from", i16::try_from(bag.clone()).ok());
    f!("i32::try_from", i32::try_from(bag.clone()).ok());
    f!("i64::try_from", i64::try_from(bag.clone()).ok());
    f!("i128::try_from", i128::try_from(bag.clone()).ok());
    f!("isize::try_from", isize::try_from(bag.clone()).ok());
    f!("f64::try_from", f64::try_from(bag.clone()).ok());
    f!("bool::try_from", bool::try_from(bag.clone()).ok());
    f!("char::try_from", char::try_from(bag.clone()).ok());
    f!("<&str>::try_from", <&str>::try_from(bag.clone()).is_ok());
    f!("visit", {
        let mut v = Look(0);
        bag.visit(&mut v).is_ok()
    });
    f!("visit, catch-all only", {
        let mut v = Bare(0);
        bag.visit(&mut v).is_ok()
    });
    f!("Display", write!(Null(0), "{bag}").is_ok());
    f!("Debug", write!(Null(0), "{bag:?}").is_ok());
    f!("Debug, flags", write!(Null(0), "{bag:#?}").is_ok());
    f!("Display, flags", write!(Null(0), "{bag:>+30.3}").is_ok());
    if fixed {
        f!("to_owned", drop(bag.to_owned()));
        f!("to_owned, clone, to_owned", drop(bag.to_owned().clone().by_ref().to_owned()));
    }
}

fn primitive(ctx: &mut Ctx, p: &Prim) {
    // Making it
    macro_rules! make {
        ($v:expr, $c:ident, $t:ty) => {{
            let v: $t = *$v;
            let what = |n: &str| format!("{}: {n}", short(p));
            black_box(free!(ctx, what, stringify!($c), ValueBag::$c(v)));
            black_box(free!(ctx, what, "From<T>", ValueBag::from(v)));
            black_box(free!(ctx, what, "From<&T>", ValueBag::from(&v)));
            black_box(free!(ctx, what, "From<Option<T>>", ValueBag::from(Some(v))));
            black_box(free!(ctx, what, "capture_debug", ValueBag::capture_debug(&v)));
            black_box(free!(ctx, what, "capture_display", ValueBag::capture_display(&v)));
            black_box(free!(ctx, what, "capture_shared_debug", ValueBag::capture_shared_debug(v)));
        }};
    }
    match p {
        Prim::U8(v) => make!(v, from_u8, u8),
        Prim::U16(v) => make!(v, from_u16, u16),
        Prim::U32(v) => make!(v, from_u32, u32),
        Prim::U64(v) => make!(v, from_u64, u64),
        Prim::Usize(v) => make!(v, from_usize, usize),
        Prim::I8(v) => make!(v, from_i8, i8),
        Prim::I16(v) => make!(v, from_i16, i16),
        Prim::I32(v) => make!(v, from_i32, i32),
        Prim::I64(v) => make!(v, from_i64, i64),
        Prim::Isize(v) => make!(v, from_isize, isize),
        Prim::F32(v) => make!(v, from_f32, f32),
        Prim::F64(v) => make!(v, from_f64, f64),
        Prim::Bool(v) => make!(v, from_bool, bool),
        Prim::Char(v) => make!(v, from_char, char),
        Prim::U128(v) => {
            let what = |n: &str| format!("{}: {n}", short(p));
            black_box(free!(ctx, what, "From<&u128>", ValueBag::from(v)));
            black_box(free!(ctx, what, "capture_debug", ValueBag::capture_debug(v)));
        }
        Prim::I128(v) => {
            let what = |n: &str| format!("{}: {n}", short(p));
            black_box(free!(ctx, what, "From<&i128>", ValueBag::from(v)));
            black_box(free!(ctx, what, "capture_debug", ValueBag::capture_debug(v)));
        }
        Prim::Str(v) => {
            let what = |n: &str| format!("{}: {n}", short(p));
            black_box(free!(ctx, what, "from_str", ValueBag::from_str(v)));
            black_box(free!(ctx, what, "From<&str>", ValueBag::from(&**v)));
            black_box(free!(ctx, what, "From<&String>", ValueBag::from(v)));
            black_box(free!(ctx, what, "From<Option<&str>>", ValueBag::from(Some(&**v))));
            black_box(free!(ctx, what, "capture_debug", ValueBag::capture_debug(v)));
            black_box(free!(ctx, what, "capture_display", ValueBag::capture_display(v)));
            black_box(free!(ctx, what, "capture_sval2", ValueBag::capture_sval2(v)));
            black_box(free!(ctx, what, "capture_serde1", ValueBag::capture_serde1(v)));
        }
        Prim::None(_) => {
            let what = |n: &str| format!("{}: {n}", short(p));
            black_box(free!(ctx, what, "empty", ValueBag::empty()));
            black_box(free!(ctx, what, "From<()>", ValueBag::from(())));
            black_box(free!(ctx, what, "From<Option<T>>", ValueBag::from(None::<i32>)));
        }
    }
    // Using it
    let fixed = match p {
        Prim::Str(s) => s.len() <= inline_limit(),
        _ => true,
    };
    p.routes(&mut |r: Route, bag: &ValueBag| {
        // Text may have to be copied out of the frameworks, and fills are the user's own code
        if r.class != Class::Direct || r.fill || r.opaque || r.owned {
            return;
        }
        operations(ctx, bag, fixed, &|n| format!("{} via {}: {n}", short(p), r.name));
        ctx.count_up("bags over primitives");
        ctx.eval(false, &format!("{} via {}", short(p), r.name));
    });
}

/// Capturing anything by reference.
fn captures(ctx: &mut Ctx, u: &U, v: &Vec<Elem>) {
    let d: &dyn std::fmt::Debug = u;
    let p: &dyn std::fmt::Display = u;
    let e: &(dyn std::error::Error + 'static) = u;
    let s: &dyn value_bag_sval2::dynamic::Value = u;
    let what = |n: &str| format!("{}: {n}", short(&u.m));
    macro_rules! f {
        ($($n:literal, $e:expr;)*) => {$({
            // Handling the bag is as cheap as making it
            let b = free!(ctx, what, $n, $e);
            black_box(free!(ctx, what, concat!($n, " clone"), b.clone()));
            black_box(free!(ctx, what, concat!($n, " by_ref"), b.by_ref()));
            black_box(free!(ctx, what, concat!($n, " is_empty"), b.is_empty()));
            black_box(free!(ctx, what, concat!($n, " downcast_ref"), b.downcast_ref::<U>().is_some()));
            free!(ctx, what, concat!($n, " drop"), drop(b));
            ctx.count_up("captures by reference");
        })*};
    }
    f!(
        "capture_debug", ValueBag::capture_debug(u);
        "capture_display", ValueBag::capture_display(u);
        "capture_error", ValueBag::capture_error(u);
        "capture_sval2", ValueBag::capture_sval2(u);
        "capture_serde1", ValueBag::capture_serde1(u);
        "from_debug", ValueBag::from_debug(u);
        "from_display", ValueBag::from_display(u);
        "from_sval2", ValueBag::from_sval2(u);
        "from_serde1", ValueBag::from_serde1(u);
        "from_dyn_debug", ValueBag::from_dyn_debug(d);
        "from_dyn_display", ValueBag::from_dyn_display(p);
        "from_dyn_error", ValueBag::from_dyn_error(e);
        "from_dyn_sval2", ValueBag::from_dyn_sval2(s);
        "From<&dyn Debug>", ValueBag::from(d);
        "From<&dyn Display>", ValueBag::from(p);
        "From<&dyn Error>", ValueBag::from(e);
        "From<&dyn Value>", ValueBag::from(s);
        "from_seq_slice", ValueBag::from_seq_slice(v);
        "from_fill", ValueBag::from_fill(&crate::prim::FillFn(|s: value_bag::fill::Slot| s.fill_any(1)));
    );
    ctx.eval(false, &what("captured"));
}

/// Cloning a shared capture, and buffering a bag over it.
fn shared(ctx: &mut Ctx, s: &Subject) {
    s.with(&mut |info: &Info, bag: &ValueBag| {
        if !info.shared {
            return;
        }
        let what = |n: &str| format!("{} ({}): {n}", s.describe(), info.name);
        let c = free!(ctx, what, "clone of the bag", bag.clone());
        let o: OwnedValueBag = free!(ctx, what, "to_owned", bag.to_owned());
        let p = free!(ctx, what, "to_shared", bag.to_shared());
        let q = free!(ctx, what, "clone of the owned bag", o.clone());
        let r = free!(ctx, what, "into_shared", q.clone().into_shared());
        let b = free!(ctx, what, "by_ref.to_owned", r.by_ref().to_owned());
        let e = free!(ctx, what, "by_ref.clone.to_shared", r.by_ref().clone().to_shared());
        free!(ctx, what, "drops", drop((c, o, p, q, r, b, e)));
        ctx.count_up("shared captures");
        ctx.eval(false, &what(""));
    });
}

/// Values made shared are cloned for nothing.
fn made_shared(ctx: &mut Ctx, s: &Subject) {
    s.with(&mut |info: &Info, bag: &ValueBag| {
        let what = |n: &str| format!("{} ({}) made shared: {n}", s.describe(), info.name);
        let o = bag.to_shared();
        if matches!(s.data, Data::Prim(_)) {
            return;
        }
        // Buffered text and failures are kept as they are
        if o.by_ref().to_str().is_some() || crate::obs::visit_of(&o.by_ref()).0.is_empty() {
            return;
        }
        let c = free!(ctx, what, "clone", o.clone());
        let d = free!(ctx, what, "to_owned", c.by_ref().to_owned());
        free!(ctx, what, "drops", drop((c, d)));
        ctx.count_up("values made shared");
        ctx.eval(false, &what(""));
    });
}

/// Strings that fit inline.
fn inline(ctx: &mut Ctx, t: &str) {
    let what = |n: &str| format!("{} bytes {t:?}: {n}", t.len());
    let s = t.to_owned();
    for (name, bag) in [("from_str", ValueBag::from_str(t)), ("From<&String>", ValueBag::from(&s)), ("capture_debug", ValueBag::capture_debug(&s))] {
        let what = |n: &str| what(&format!("{name}: {n}"));
        let o = free!(ctx, what, "to_owned", bag.to_owned());
        let c = free!(ctx, what, "clone", o.clone());
        let b = free!(ctx, what, "by_ref.to_owned", c.by_ref().to_owned());
        let h = free!(ctx, what, "to_shared", bag.to_shared());
        let i = free!(ctx, what, "into_shared", h.clone().into_shared());
        ctx.check(i.by_ref().to_str().as_deref() == Some(t), || what("another text"));
        free!(ctx, what, "drops", drop((o, c, b, h, i)));
        ctx.count_up("strings kept inline");
    }
    ctx.eval(false, t);
}

pub fn run(ctx: &mut Ctx) -> &'static str {
    let n = ctx.count(10, 12000, 200000);
    ctx.cases("primitives", n, |ctx, _, rng| {
        let p = Prim::gen(rng);
        primitive(ctx, &p)
    });
    let n = ctx.count(5, 3000, 40000);
    ctx.cases("captures by reference", n, |ctx, _, rng| {
        let u = U::gen_data(rng, 3, Dom::BOTH);
        let v = Elem::gen_vec(rng, 1);
        captures(ctx, &u, &v)
    });
    let n = ctx.count(8, 6000, 80000);
    ctx.cases("shared captures", n, |ctx, _, rng| {
        let s = shared_subject(rng);
        shared(ctx, &s);
    });
    let n = ctx.count(8, 8000, 80000);
    ctx.cases("values made shared", n, |ctx, _, rng| {
        let s = Subject::gen(rng);
        made_shared(ctx, &s);
    });
    // Every length, as all sorts of text
    let limit = inline_limit();
    if limit > 0 {
        let n = ctx.count(4, 80, 1200) * (limit as u64 + 1);
        ctx.cases("inline strings", n, |ctx, i, rng| {
            let t = gen::text_of(rng, i as usize % (limit + 1));
            if t.len() <= limit {
                inline(ctx, &t)
            }
        });
    }
    "distinct (value, capture route) pairs whose every operation was measured by the allocator"
}

fn shared_subject(rng: &mut Rng) -> Subject {
    let (data, routes): (Data, &[usize]) = match rng.below(7) {
        0 => (Data::Debug(U::gen_text(rng)), &[6]),
        1 => (Data::Display(U::gen_text(rng)), &[6]),
        2 => (Data::Error(U::gen_error(rng)), &[6]),
        3 => (Data::Sval(U::gen_data(rng, 3, Dom::SVAL)), &[6]),
        4 => (Data::Serde(U::gen_data(rng, 3, Dom::SERDE)), &[2]),
        _ => (Data::Seq(Seq::gen(rng)), &[4, 5, 8]),
    };
    let route = *rng.pick(routes);
    let wrap = *rng.pick(&[Wrap::Plain, Wrap::ByRef, Wrap::Clone, Wrap::Owned, Wrap::IntoShared, Wrap::OwnedTwice]);
    let _ = (Coll::<u8>::new, M::Unit);
    Subject { data, route, wrap }
}
