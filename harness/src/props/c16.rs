//! A fill value is produced once per read and reads as what was filled.

use std::{
    borrow::Cow,
    cell::{Cell, RefCell},
};

use value_bag::{
    fill::{Fill, Slot},
    Error, ValueBag,
};

use crate::{
    ctx::Ctx,
    gen,
    model::Dom,
    obs::{light, text, unborrow_v, visit_of},
    prim::{Prim, K},
    recserde::{self, Fb},
    recsval,
    recvisit::C,
    rng::Rng,
    subject::leak_any,
    user::{Elem, FillPrim, U},
};

#[derive(Clone, Debug)]
enum What {
    Prim(Prim),
    Text(&'static str),
    Debug(U),
    Display(U),
    Error(U),
    DynError(U),
    Sval(U),
    Serde(U),
    Seq(&'static Vec<Elem>),
    Nums(&'static Vec<i32>),
    SharedDebug(U),
    SharedSval(U),
    SharedSeq(Vec<Elem>),
    /// Another fill in between
    Again(&'static Counted),
    Fail,
    /// Fills, and then fails
    Late(Prim),
}

const MSG: &str = "the callback's own error";

#[derive(Debug)]
struct Counted {
    runs: Cell<u64>,
    now: RefCell<What>,
}

impl Clone for Counted {
    fn clone(&self) -> Counted {
        Counted::new(self.now.borrow().clone())
    }
}

impl Counted {
    fn new(w: What) -> Counted {
        Counted {
            runs: Cell::new(0),
            now: RefCell::new(w),
        }
    }
}

impl Fill for Counted {
    fn fill(&self, s: Slot) -> Result<(), Error> {
        self.runs.set(self.runs.get() + 1);
        match &*self.now.borrow() {
            What::Prim(p) => FillPrim(p.clone()).fill(s),
            What::Text(t) => s.fill_any(*t),
            What::Debug(u) => s.fill_debug(u),
            What::Display(u) => s.fill_display(u),
            What::Error(u) => s.fill_error(u.clone()),
            What::DynError(u) => s.fill_dyn_error(u),
            What::Sval(u) => s.fill_sval2(u),
            What::Serde(u) => s.fill_serde1(u),
            What::Seq(v) => s.fill_seq_slice(*v),
            What::Nums(v) => s.fill_seq_slice(*v),
            What::SharedDebug(u) => s.fill_any(ValueBag::capture_shared_debug(u.clone())),
            What::SharedSval(u) => s.fill_any(ValueBag::capture_shared_sval2(u.clone())),
            What::SharedSeq(v) => s.fill_any(ValueBag::capture_shared_seq_slice(v.clone())),
            What::Again(c) => s.fill_any(ValueBag::from_fill(*c)),
            What::Fail => Err(Error::msg(MSG)),
            What::Late(p) => {
                FillPrim(p.clone()).fill(s)?;
                Err(Error::msg(MSG))
            }
        }
    }
}

impl What {
    fn gen(rng: &mut Rng, depth: usize) -> What {
        match rng.below(18) {
            0..=3 => What::Prim(Prim::gen(rng)),
            4 => What::Text(crate::prim::leak(&gen::text(rng))),
            5 => What::Debug(U::gen_text(rng)),
            6 => What::Display(U::gen_text(rng)),
            7 => What::Error(U::gen_error(rng)),
            8 => What::DynError(U::gen_error(rng)),
            9 | 10 => What::Sval(U::gen_data(rng, 3, Dom::SVAL)),
            11 | 12 => What::Serde(U::gen_data(rng, 3, Dom::SERDE)),
            13 => What::Seq(leak_any(Elem::gen_vec(rng, 1))),
            14 => What::Nums(leak_any((0..rng.below(6)).map(|_| gen::edge_i128(rng) as i32).collect())),
            15 => What::SharedDebug(U::gen_text(rng)),
            16 => {
                if rng.bool() {
                    What::SharedSval(U::gen_data(rng, 2, Dom::SVAL))
                } else {
                    What::SharedSeq(Elem::gen_vec(rng, 1))
                }
            }
            _ if depth > 0 => What::Again(leak_any(Counted::new(What::gen(rng, depth - 1)))),
            _ => What::Prim(Prim::gen(rng)),
        }
    }

    /// A bag made from the value that's filled in.
    fn direct(&self, f: &mut dyn FnMut(&ValueBag)) {
        match self {
            What::Prim(p) => match p {
                // Filled by other means
                Prim::Str(t) => f(&ValueBag::from_serde1(&t.as_str())),
                Prim::U128(v) => f(&ValueBag::from_serde1(v)),
                Prim::I128(v) => f(&ValueBag::from_serde1(v)),
                p => f(&p.bag()),
            },
            What::Text(t) => f(&ValueBag::from(*t)),
            What::Debug(u) => f(&ValueBag::from_debug(u)),
            What::Display(u) => f(&ValueBag::from_display(u)),
            What::Error(u) | What::DynError(u) => f(&ValueBag::from_dyn_error(u)),
            What::Sval(u) => f(&ValueBag::from_sval2(u)),
            What::Serde(u) => f(&ValueBag::from_serde1(u)),
            What::Seq(v) => f(&ValueBag::from_seq_slice(*v)),
            What::Nums(v) => f(&ValueBag::from_seq_slice(*v)),
            What::SharedDebug(u) => f(&ValueBag::capture_shared_debug(u.clone())),
            What::SharedSval(u) => f(&ValueBag::capture_shared_sval2(u.clone())),
            What::SharedSeq(v) => f(&ValueBag::capture_shared_seq_slice(v.clone())),
            What::Again(c) => c.now.borrow().direct(f),
            What::Fail | What::Late(_) => unreachable!(),
        }
    }
}

type Op = (&'static str, fn(&ValueBag) -> String);

fn visited(b: &ValueBag) -> String {
    let (calls, ok) = visit_of(b);
    let calls: Vec<C> = calls
        .into_iter()
        .map(|c| match c {
            C::BorrowedStr(s, _) => C::Str(s),
            C::BorrowedError(e, _) => C::Error(e),
            c => c,
        })
        .collect();
    format!("{calls:?} {ok}")
}

fn streamed(b: &ValueBag) -> String {
    let t = recsval::trace(b).map(unborrow_v).map_err(unborrow_v);
    format!("{t:?}")
}

/// Operations that have to produce the value, once each.
const OPS: [Op; 38] = [
    ("to_u64", |b| format!("{:?}", b.to_u64())),
    ("to_i64", |b| format!("{:?}", b.to_i64())),
    ("to_u128", |b| format!("{:?}", b.to_u128())),
    ("to_i128", |b| format!("{:?}", b.to_i128())),
    ("to_f64", |b| format!("{:?}", b.to_f64().map(Fb))),
    ("as_f64", |b| format!("{:?}", Fb(b.as_f64()))),
    ("to_bool", |b| format!("{:?}", b.to_bool())),
    ("to_char", |b| format!("{:?}", b.to_char())),
    ("to_str", |b| format!("{:?}", b.to_str())),
    ("try_from u8", |b| format!("{:?}", u8::try_from(b.clone()).ok())),
    ("try_from i32", |b| format!("{:?}", i32::try_from(b.clone()).ok())),
    ("try_from usize", |b| format!("{:?}", usize::try_from(b.clone()).ok())),
    ("try_from f64", |b| format!("{:?}", f64::try_from(b.clone()).ok().map(Fb))),
    ("try_from bool", |b| format!("{:?}", bool::try_from(b.clone()).ok())),
    ("try_from char", |b| format!("{:?}", char::try_from(b.clone()).ok())),
    ("try_from String", |b| format!("{:?}", String::try_from(b.clone()).ok())),
    ("to_u64_seq", |b| format!("{:?}", b.to_u64_seq::<Vec<_>>())),
    ("to_i64_seq", |b| format!("{:?}", b.to_i64_seq::<Vec<_>>())),
    ("to_u128_seq", |b| format!("{:?}", b.to_u128_seq::<Vec<_>>())),
    ("to_i128_seq", |b| format!("{:?}", b.to_i128_seq::<Vec<_>>())),
    ("to_f64_seq", |b| format!("{:?}", b.to_f64_seq::<Vec<_>>())),
    ("as_f64_seq", |b| format!("{:?}", b.as_f64_seq::<Vec<f64>>())),
    ("to_bool_seq", |b| format!("{:?}", b.to_bool_seq::<Vec<_>>())),
    ("to_char_seq", |b| format!("{:?}", b.to_char_seq::<Vec<_>>())),
    ("to_str_seq", |b| format!("{:?}", b.to_str_seq::<Vec<Option<Cow<str>>>>())),
    ("Debug", |b| format!("{:?}", text(format_args!("{b:?}")))),
    ("Debug, flags", |b| format!("{:?}", text(format_args!("{b:#?}")))),
    ("Debug, width", |b| format!("{:?}", text(format_args!("{b:>+08.3?}")))),
    ("Display", |b| format!("{:?}", text(format_args!("{b}")))),
    ("Display, flags", |b| format!("{:?}", text(format_args!("{b:#}")))),
    ("Display, width", |b| format!("{:?}", text(format_args!("{b:*^12.2}")))),
    ("serialize", |b| format!("{:?}", recserde::trace(b))),
    ("serialize, compact", |b| format!("{:?}", recserde::trace_hr(b, false))),
    ("stream", streamed),
    ("visit", visited),
    ("to_owned", |b| {
        let o = b.to_owned();
        format!("{:?} {}", light(&o.by_ref()).unborrowed(), visited(&o.by_ref()))
    }),
    ("to_shared", |b| {
        let o = b.to_shared();
        format!("{:?} {}", light(&o.by_ref()).unborrowed(), visited(&o.by_ref()))
    }),
    ("to_owned, cloned", |b| {
        let o = b.to_owned().clone().into_shared();
        format!("{:?} {}", o, o)
    }),
];

/// Operations that must not produce it.
const IDLE: [Op; 6] = [
    ("by_ref", |b| {
        let r = b.by_ref();
        drop(r.by_ref());
        String::new()
    }),
    ("clone", |b| {
        drop(b.clone().clone());
        String::new()
    }),
    ("is_empty", |b| b.is_empty().to_string()),
    ("downcast_ref", |b| format!("{}{}", b.downcast_ref::<U>().is_none(), b.downcast_ref::<Counted>().is_none())),
    ("is", |b| format!("{}{}", b.is::<U>(), b.is::<i32>())),
    ("Option", |b| {
        drop(ValueBag::from_option(Some(b.by_ref())));
        String::new()
    }),
];

/// Operations that may produce it, once at most.
const MAYBE: [Op; 3] = [
    ("to_borrowed_str", |b| format!("{:?}", b.to_borrowed_str().is_some())),
    ("to_borrowed_error", |b| format!("{:?}", b.to_borrowed_error().is_some())),
    ("to_borrowed_str_seq", |b| format!("{:?}", b.to_borrowed_str_seq::<Vec<Option<&str>>>().is_some())),
];

fn inner(w: &What) -> Option<&'static Counted> {
    match w {
        What::Again(c) => Some(c),
        _ => None,
    }
}

fn step(ctx: &mut Ctx, fill: &Counted, bag: &ValueBag, name: &'static str, op: fn(&ValueBag) -> String, what: &dyn Fn(&str) -> String) {
    let w = fill.now.borrow().clone();
    let before = fill.runs.get();
    let deeper = inner(&w).map(|c| (c, c.runs.get()));
    let got = op(bag);
    let runs = fill.runs.get() - before;
    ctx.check(runs == 1, || what(&format!("{name}: the callback ran {runs} times")));
    if let Some((c, before)) = deeper {
        let runs = c.runs.get() - before;
        ctx.check(runs == 1, || what(&format!("{name}: the callback inside ran {runs} times")));
    }
    let mut want = String::new();
    w.direct(&mut |b| want = op(b));
    // The one difference between an error filled in and its copy
    ctx.eq(&got, &want, || what(name));
    ctx.count_up("reads");
}

fn idle(ctx: &mut Ctx, fill: &Counted, bag: &ValueBag, name: &'static str, op: fn(&ValueBag) -> String, what: &dyn Fn(&str) -> String) {
    let before = fill.runs.get();
    let got = op(bag);
    let runs = fill.runs.get() - before;
    ctx.check(runs == 0, || what(&format!("{name}: the callback ran {runs} times")));
    let want = match name {
        "is_empty" => "false",
        "downcast_ref" => "truetrue",
        "is" => "falsefalse",
        _ => "",
    };
    ctx.eq(&&*got, &want, || what(name));
    ctx.count_up("operations that read nothing");
}

/// The callback failed.
fn failed(ctx: &mut Ctx, fill: &Counted, bag: &ValueBag, what: &dyn Fn(&str) -> String) {
    let mut once = |name: &str, op: &mut dyn FnMut() -> bool| {
        let before = fill.runs.get();
        let ok = op();
        let runs = fill.runs.get() - before;
        ctx.check(runs == 1, || what(&format!("{name}: the callback ran {runs} times")));
        ctx.check(!ok, || what(&format!("{name}: passed for success")));
    };
    once("Debug", &mut || text(format_args!("{bag:?}")).is_ok());
    once("Debug, flags", &mut || text(format_args!("{bag:#?}")).is_ok());
    once("Display", &mut || text(format_args!("{bag}")).is_ok());
    once("Display, width", &mut || text(format_args!("{bag:>9}")).is_ok());
    once("serialize", &mut || recserde::trace(bag).is_ok());
    once("serialize, compact", &mut || recserde::trace_hr(bag, false).is_ok());
    once("JSON", &mut || value_bag_serde1::json::to_string(bag).is_ok());
    once("stream", &mut || recsval::trace(bag).is_ok());
    once("sval JSON", &mut || value_bag_sval2::json::stream_to_string(bag).is_ok());
    let late = matches!(&*fill.now.borrow(), What::Late(_));
    once("visit", &mut || {
        let (calls, ok) = visit_of(bag);
        ok || (!late && !calls.is_empty())
    });
    let before = fill.runs.get();
    let err = bag.visit(Ignore).err().map(|e| e.to_string());
    ctx.eq(&err.as_deref(), &Some(MSG), || what("the error of the visit"));
    ctx.eq(&(fill.runs.get() - before), &1, || what("runs of a visit"));

    for (name, o) in [
        ("to_owned", bag.to_owned()),
        ("to_shared", bag.to_shared()),
        ("by_ref.to_owned.clone", bag.by_ref().to_owned().clone()),
        ("to_owned.into_shared", bag.to_owned().into_shared()),
    ] {
        let runs = fill.runs.get();
        let b = o.by_ref();
        let again = b.to_owned();
        for (name, b) in [(name, &b), ("owned again", &again.by_ref())] {
            ctx.check(!b.is_empty(), || what(&format!("{name}: reads as empty")));
            ctx.eq(&crate::prim::casts_of(b), &K::N.casts(), || what(&format!("{name}: conversions")));
            ctx.check(recserde::trace(b).is_err(), || what(&format!("{name}: serializes")));
            ctx.check(recserde::trace_hr(b, false).is_err(), || what(&format!("{name}: serializes")));
            ctx.check(recsval::trace(b).is_err(), || what(&format!("{name}: streams")));
            let (calls, ok) = visit_of(b);
            ctx.check(!ok && calls.is_empty(), || what(&format!("{name}: visited {calls:?} {ok}")));
            for t in [text(format_args!("{b}")), text(format_args!("{b:?}"))] {
                let marked = match &t {
                    Ok(t) => t.starts_with('<') && t.ends_with('>'),
                    Err(_) => true,
                };
                ctx.check(marked, || what(&format!("{name}: printed {t:?}")));
            }
        }
        ctx.eq(&fill.runs.get(), &runs, || what(&format!("{name}: reading it ran the callback")));
    }
    ctx.count_up("failures of the callback");
}

struct Ignore;

impl<'v> value_bag::visit::Visit<'v> for Ignore {
    fn visit_any(&mut self, _: ValueBag) -> Result<(), Error> {
        Ok(())
    }
}

pub fn run(ctx: &mut Ctx) -> &'static str {
    let n = ctx.count(6, 3000, 40000);
    ctx.cases("every operation", n, |ctx, _, rng| {
        let w = What::gen(rng, 2);
        let fill = Counted::new(w);
        let bag = ValueBag::from_fill(&fill);
        ctx.eq(&fill.runs.get(), &0, || "making the bag ran the callback".into());
        let what = |n: &str| format!("{}: {n}", crate::ctx::short(&*fill.now.borrow()));
        let r = bag.by_ref();
        let c = bag.clone();
        for (name, op) in OPS {
            let b = *rng.pick(&[&bag, &r, &c]);
            step(ctx, &fill, b, name, op, &what);
        }
        for (name, op) in IDLE {
            idle(ctx, &fill, &bag, name, op, &what);
        }
        for (name, op) in MAYBE {
            let before = fill.runs.get();
            let _ = op(&bag);
            let runs = fill.runs.get() - before;
            ctx.check(runs <= 1, || what(&format!("{name}: the callback ran {runs} times")));
        }
        let before = fill.runs.get();
        drop(c);
        drop(r);
        drop(bag);
        ctx.eq(&fill.runs.get(), &before, || what("dropping the bags ran the callback"));
        ctx.eval(false, &what(""));
    });
    let n = ctx.count(6, 4000, 60000);
    ctx.cases("changing values", n, |ctx, _, rng| {
        let fill = Counted::new(What::gen(rng, 1));
        let bag = ValueBag::from_fill(&fill);
        let mut kept = Vec::new();
        for i in 0..2 + rng.below(12) {
            let what = |n: &str| format!("step {i}, {}: {n}", crate::ctx::short(&*fill.now.borrow()));
            match rng.below(10) {
                0..=3 => {
                    let (name, op) = *rng.pick(&OPS);
                    step(ctx, &fill, &bag, name, op, &what);
                }
                4 => {
                    let (name, op) = *rng.pick(&OPS);
                    step(ctx, &fill, &bag.by_ref().clone(), name, op, &what);
                }
                5 => {
                    let (name, op) = *rng.pick(&IDLE);
                    idle(ctx, &fill, &bag, name, op, &what);
                }
                6 => {
                    // What it was at the time
                    let o = bag.to_owned();
                    let seen = format!("{:?}", light(&o.by_ref()));
                    kept.push((o, seen));
                }
                7 => {
                    let was = fill.now.replace(if rng.bool() { What::Fail } else { What::Late(Prim::gen(rng)) });
                    failed(ctx, &fill, &bag, &what);
                    fill.now.replace(was);
                }
                _ => {
                    fill.now.replace(What::gen(rng, 1));
                }
            }
            ctx.eval(false, &what(&format!("{}", fill.runs.get())));
        }
        let runs = fill.runs.get();
        for (o, seen) in &kept {
            ctx.eq(&format!("{:?}", light(&o.by_ref())), seen, || "an owned copy changed".into());
        }
        ctx.eq(&fill.runs.get(), &runs, || "reading owned copies ran the callback".into());
    });
    let n = ctx.count(3, 1500, 20000);
    ctx.cases("inside of a sequence", n, |ctx, _, rng| {
        // One read of the sequence is one read of each element
        let fills: Vec<Counted> = (0..1 + rng.below(5)).map(|_| Counted::new(What::gen(rng, 1))).collect();
        struct El<'a>(&'a Counted);
        impl<'a, 'b> From<&'b El<'a>> for ValueBag<'b> {
            fn from(e: &'b El<'a>) -> ValueBag<'b> {
                ValueBag::from_fill(e.0)
            }
        }
        let els: Vec<El> = fills.iter().map(El).collect();
        let bag = ValueBag::from_seq_slice(&els);
        for (name, op) in OPS {
            // Looking for a number in a sequence doesn't look at its elements
            let before: Vec<u64> = fills.iter().map(|f| f.runs.get()).collect();
            let _ = op(&bag);
            for (f, before) in fills.iter().zip(before) {
                let runs = f.runs.get() - before;
                let reads = name.contains("_seq") || name.starts_with("Debug") || name.starts_with("Display");
                let reads = reads || name.starts_with("serialize") || name == "stream" || name.starts_with("to_owned") || name == "to_shared";
                let fine = if reads { runs == 1 } else { runs <= 1 };
                // Reading stops at an element that fails
                let inexpressible = (name.starts_with("serialize") || name == "stream") && runs == 0;
                ctx.check(fine || inexpressible, || {
                    format!("{name} of a sequence: the callback of an element ran {runs} times, {}", crate::ctx::short(&fills))
                });
            }
        }
        ctx.count_by("fills inside of sequences", fills.len() as u64);
        ctx.eval(false, &crate::ctx::short(&fills));
    });
    "distinct filled values, each read by every operation, and histories of reads of changing fills"
}
