//! Errors say what they were made with, and reach the caller as they are.

use std::{
    error::Error as StdError,
    fmt::{self, Display},
    io,
    sync::Arc,
};

use value_bag::{
    fill::Slot,
    visit::Visit,
    Error, ValueBag,
};

use crate::{
    ctx::Ctx,
    fmtspec::{self, Spec},
    gen,
    prim::leak,
    recserde,
    rng::Rng,
    sink,
    subject::{leak_any, Data, Info, Seq, Subject},
    user::{Elem, Ledger, U},
};

/// Something an error can be made of.
#[derive(Clone)]
enum Src {
    Msg(&'static str),
    BoxedStr(String),
    BoxedString(String),
    BoxedUser(U),
    BoxedDyn(U),
    Io(io::ErrorKind),
    IoText(String),
    IoUser(U),
    BoxedIo(String),
    OsError(i32),
    Fmt,
    BoxedFmt,
    /// An error of the library inside another
    Nested(Box<Src>),
}

impl Src {
    fn gen(rng: &mut Rng) -> Src {
        match rng.below(15) {
            0..=2 => Src::Msg(leak(&gen::text(rng))),
            3 => Src::BoxedStr(gen::text(rng)),
            4 => Src::BoxedString(gen::text(rng)),
            5 | 6 => Src::BoxedUser(user(rng)),
            7 => Src::BoxedDyn(user(rng)),
            8 => Src::Io(*rng.pick(&[
                io::ErrorKind::NotFound,
                io::ErrorKind::InvalidData,
                io::ErrorKind::WouldBlock,
                io::ErrorKind::Other,
            ])),
            9 => Src::IoText(gen::text(rng)),
            10 => Src::IoUser(user(rng)),
            11 => Src::BoxedIo(gen::text(rng)),
            12 => Src::OsError(rng.below(40) as i32),
            13 => {
                if rng.bool() {
                    Src::Fmt
                } else {
                    Src::BoxedFmt
                }
            }
            _ => Src::Nested(Box::new(Src::gen(rng))),
        }
    }

    fn make(&self) -> Error {
        match self {
            Src::Msg(m) => Error::msg(m),
            Src::BoxedStr(t) => Error::boxed(t.as_str()),
            Src::BoxedString(t) => Error::boxed(t.clone()),
            Src::BoxedUser(u) => Error::boxed(u.clone()),
            Src::BoxedDyn(u) => Error::boxed(Box::new(u.clone()) as Box<dyn StdError + Send + Sync>),
            Src::Io(k) => Error::from(io::Error::from(*k)),
            Src::IoText(t) => Error::from(io::Error::new(io::ErrorKind::Other, t.clone())),
            Src::IoUser(u) => Error::from(io::Error::new(io::ErrorKind::InvalidInput, u.clone())),
            Src::BoxedIo(t) => Error::boxed(io::Error::new(io::ErrorKind::Other, t.clone())),
            Src::OsError(n) => io::Error::from_raw_os_error(*n).into(),
            Src::Fmt => Error::from(fmt::Error),
            Src::BoxedFmt => Error::boxed(fmt::Error),
            Src::Nested(s) => Error::boxed(s.make()),
        }
    }

    /// What it was made of, printed on its own.
    fn on<R>(&self, f: &mut dyn FnMut(&dyn Display) -> R) -> R {
        match self {
            Src::Msg(m) => f(m),
            // The standard library's own box of text
            Src::BoxedStr(t) | Src::BoxedString(t) => {
                let b: Box<dyn StdError + Send + Sync> = t.as_str().into();
                f(&b)
            }
            Src::BoxedUser(u) | Src::BoxedDyn(u) => f(u),
            Src::Io(k) => f(&io::Error::from(*k)),
            Src::IoText(t) | Src::BoxedIo(t) => f(&io::Error::new(io::ErrorKind::Other, t.clone())),
            Src::IoUser(u) => f(&io::Error::new(io::ErrorKind::InvalidInput, u.clone())),
            Src::OsError(n) => f(&io::Error::from_raw_os_error(*n)),
            Src::Fmt | Src::BoxedFmt => f(&fmt::Error),
            Src::Nested(s) => s.on(f),
        }
    }

    fn specs(&self, w: usize, p: usize) -> Vec<Spec> {
        self.on(&mut |d| fmtspec::display(d, w, p))
    }

    fn text(&self) -> String {
        self.on(&mut |d| sink::to_string(format_args!("{d}")))
    }

    fn name(&self) -> String {
        let u = |n: &str, u: &U| format!("{n} {:?} {} failing at {:?}", u.frags, u.num, u.fail_fmt);
        match self {
            Src::Msg(m) => format!("message {m:?}"),
            Src::BoxedStr(t) => format!("boxed &str {t:?}"),
            Src::BoxedString(t) => format!("boxed String {t:?}"),
            Src::BoxedUser(v) => u("boxed error", v),
            Src::BoxedDyn(v) => u("boxed dyn error", v),
            Src::Io(k) => format!("I/O {k:?}"),
            Src::IoText(t) => format!("I/O {t:?}"),
            Src::IoUser(v) => u("I/O", v),
            Src::BoxedIo(t) => format!("boxed I/O {t:?}"),
            Src::OsError(n) => format!("OS {n}"),
            Src::Fmt => "formatting".into(),
            Src::BoxedFmt => "boxed formatting".into(),
            Src::Nested(s) => format!("boxed library error of {}", s.name()),
        }
    }

    fn ledger(&self) -> Option<&Arc<Ledger>> {
        match self {
            Src::BoxedUser(u) | Src::BoxedDyn(u) | Src::IoUser(u) => Some(&u.led),
            Src::Nested(s) => s.ledger(),
            _ => None,
        }
    }

    fn fails(&self) -> bool {
        match self {
            Src::BoxedUser(u) | Src::BoxedDyn(u) | Src::IoUser(u) => u.fail_fmt.is_some(),
            Src::Nested(s) => s.fails(),
            _ => false,
        }
    }
}

fn user(rng: &mut Rng) -> U {
    let mut u = U::gen_error(rng);
    if rng.one_in(6) {
        u.fail_fmt = Some(rng.below(u.frags.len() + 2));
    }
    u
}

fn says(ctx: &mut Ctx, e: &Error, src: &Src, want: &[Spec], w: usize, p: usize, what: &dyn Fn(&str) -> String) {
    for (got, want) in fmtspec::display(e, w, p).iter().zip(want) {
        ctx.eq(&got.1, &want.1, || what(&format!("{} w={w} p={p}", want.0)));
    }
    let d: &dyn StdError = e;
    let t = sink::to_string(format_args!("{d}"));
    ctx.eq(&t, &src.text(), || what("as a standard error"));
}

/// Hands back the error it was given from whichever callback is made.
struct Refusing {
    err: Option<Error>,
    calls: usize,
}

impl Refusing {
    fn refuse(&mut self) -> Result<(), Error> {
        self.calls += 1;
        Err(self.err.take().unwrap_or_else(|| Error::msg("called again")))
    }
}

impl<'v> Visit<'v> for Refusing {
    fn visit_any(&mut self, _: ValueBag) -> Result<(), Error> {
        self.refuse()
    }
    fn visit_empty(&mut self) -> Result<(), Error> {
        self.refuse()
    }
    fn visit_u64(&mut self, _: u64) -> Result<(), Error> {
        self.refuse()
    }
    fn visit_i64(&mut self, _: i64) -> Result<(), Error> {
        self.refuse()
    }
    fn visit_u128(&mut self, _: u128) -> Result<(), Error> {
        self.refuse()
    }
    fn visit_i128(&mut self, _: i128) -> Result<(), Error> {
        self.refuse()
    }
    fn visit_f64(&mut self, _: f64) -> Result<(), Error> {
        self.refuse()
    }
    fn visit_bool(&mut self, _: bool) -> Result<(), Error> {
        self.refuse()
    }
    fn visit_str(&mut self, _: &str) -> Result<(), Error> {
        self.refuse()
    }
    fn visit_borrowed_str(&mut self, _: &'v str) -> Result<(), Error> {
        self.refuse()
    }
    fn visit_char(&mut self, _: char) -> Result<(), Error> {
        self.refuse()
    }
    fn visit_error(&mut self, _: &(dyn StdError + 'static)) -> Result<(), Error> {
        self.refuse()
    }
    fn visit_borrowed_error(&mut self, _: &'v (dyn StdError + 'static)) -> Result<(), Error> {
        self.refuse()
    }
}

/// Only the catch-all.
struct RefusingAny(Option<Error>);

impl<'v> Visit<'v> for RefusingAny {
    fn visit_any(&mut self, _: ValueBag) -> Result<(), Error> {
        Err(self.0.take().unwrap_or_else(|| Error::msg("called again")))
    }
}

/// Never called.
struct Accepting(usize);

impl<'v> Visit<'v> for Accepting {
    fn visit_any(&mut self, _: ValueBag) -> Result<(), Error> {
        self.0 += 1;
        Ok(())
    }
}

fn made(ctx: &mut Ctx, rng: &mut Rng) {
    let src = Src::gen(rng);
    let (w, p) = (rng.below(40), rng.below(20));
    let want = src.specs(w, p);
    let live = src.ledger().map(|l| l.live());
    {
        let e = src.make();
        says(ctx, &e, &src, &want, w, p, &|n| format!("{}: {n}", src.name()));
        // It can go anywhere
        let b: Box<dyn StdError + Send + Sync> = Box::new(e);
        let t = sink::to_string(format_args!("{b}"));
        ctx.eq(&t, &src.text(), || format!("{}: boxed", src.name()));
        ctx.check(b.downcast_ref::<Error>().is_some(), || format!("{}: boxed, downcast", src.name()));
    }
    dropped(ctx, &src, live);
    ctx.count_up("errors printed");
    ctx.eval(false, &format!("{}", src.name()));
}

fn dropped(ctx: &mut Ctx, src: &Src, live: Option<i64>) {
    if let Some(l) = src.ledger() {
        let now = l.live();
        ctx.eq(&Some(now), &live, || format!("{}: wrapped errors alive after the error is gone", src.name()));
        let dead = l.dead.load(std::sync::atomic::Ordering::Relaxed);
        ctx.check(dead == 0, || format!("{}: the wrapped error was used after it was dropped", src.name()));
    }
}

/// The visitor's own error comes back.
fn visited(ctx: &mut Ctx, rng: &mut Rng) {
    let s = Subject::gen(rng);
    let src = Src::gen(rng);
    let (w, p) = (rng.below(40), rng.below(20));
    let want = src.specs(w, p);
    let live = src.ledger().map(|l| l.live());
    s.with(&mut |info: &Info, bag: &ValueBag| {
        let what = |n: &str| format!("visitor of {} ({}) returning {}: {n}", s.describe(), info.name, src.name());
        let mut v = Refusing {
            err: Some(src.make()),
            calls: 0,
        };
        let r = match rng.below(3) {
            0 => bag.visit(&mut v as &mut dyn Visit),
            1 => bag.visit(&mut &mut v),
            _ => bag.visit(&mut v),
        };
        ctx.check(v.calls == 1, || what(&format!("{} callbacks", v.calls)));
        match r {
            Err(e) => says(ctx, &e, &src, &want, w, p, &what),
            Ok(()) => ctx.violate(what("the visit passed for success")),
        }
        let mut v = RefusingAny(Some(src.make()));
        match bag.visit(&mut v) {
            Err(e) => says(ctx, &e, &src, &want, w, p, &what),
            Ok(()) => ctx.violate(what("the visit by the catch-all passed for success")),
        }
        ctx.count_up("errors of visitors");
        ctx.eval(false, &what(""));
    });
    dropped(ctx, &src, live);
}

/// The error of a fill callback comes back.
fn filled(ctx: &mut Ctx, rng: &mut Rng) {
    let src = Src::gen(rng);
    let (w, p) = (rng.below(40), rng.below(20));
    let want = src.specs(w, p);
    let depth = rng.below(5);
    let kept = src.clone();
    let fail: &'static _ = leak_any(move |_: Slot| -> Result<(), Error> { Err(kept.make()) });
    let live = src.ledger().map(|l| l.live());
    let bag = &nest(ValueBag::from_fill(fail), depth);
    {
        let what = |n: &str| format!("fill callback {depth} deep returning {}: {n}", src.name());
        for (name, r, calls) in [
            {
                let mut v = Accepting(0);
                let r = bag.visit(&mut v);
                ("visit", r, v.0)
            },
            {
                let mut v = Accepting(0);
                let r = bag.clone().visit(&mut v as &mut dyn Visit);
                ("clone, visit", r, v.0)
            },
            {
                let mut v = Accepting(0);
                let r = bag.by_ref().by_ref().visit(&mut v);
                ("by_ref, visit", r, v.0)
            },
        ] {
            ctx.check(calls == 0, || what(&format!("{name}: {calls} callbacks")));
            match r {
                Err(e) => says(ctx, &e, &src, &want, w, p, &|n| what(&format!("{name}: {n}"))),
                Ok(()) => ctx.violate(what(&format!("{name} passed for success"))),
            }
        }
        // Not for text that doesn't print
        if !src.fails() {
            let mut r = recserde::Rec::new();
            let got = value_bag_serde1::lib::Serialize::serialize(bag, &mut r);
            ctx.eq(&got.map_err(|e| e.0).err(), &Some(src.text()), || what("the serializer's error"));
            ctx.check(r.events.is_empty(), || what(&format!("serialized {:?}", r.events)));
        }
        // What's left of the error in a copy
        let o = bag.to_owned();
        let marker = sink::to_string(format_args!("{o}"));
        let got = value_bag_serde1::lib::Serialize::serialize(&o, &mut recserde::Rec::new());
        ctx.eq(&got.map_err(|e| format!("<{}>", e.0)).err(), &Some(marker), || what("the copy's error"));
    }
    dropped(ctx, &src, live);
    ctx.count_up("errors of fill callbacks");
    ctx.eval(false, &format!("fill {depth} deep: {}", src.name()));
}

/// A bag filled in from another, to some depth.
fn nest(mut bag: ValueBag<'static>, depth: usize) -> ValueBag<'static> {
    for _ in 0..depth {
        let inner: &'static ValueBag<'static> = leak_any(bag);
        let fill: &'static _ = leak_any(move |s: Slot| s.fill_any(inner.by_ref()));
        bag = ValueBag::from_fill(fill);
    }
    bag
}

/// sval's own bridge to serde only says that there was an error.
fn has_sval(e: &Elem) -> bool {
    match e {
        Elem::Sval(_) => true,
        Elem::Seq(v) => v.iter().any(has_sval),
        _ => false,
    }
}

/// The error of a serializer comes back.
fn serialized(ctx: &mut Ctx, rng: &mut Rng) {
    let s = Subject::gen(rng);
    let skip = match &s.data {
        Data::Sval(_) => true,
        Data::Seq(Seq::Elems(v)) => v.iter().any(has_sval),
        Data::Seq(Seq::Owned(v)) => v.iter().any(|v| has_sval(&v.0)),
        _ => false,
    };
    if skip {
        ctx.eval(true, "");
        return;
    }
    s.with(&mut |info: &Info, bag: &ValueBag| {
        let n = recserde::trace(bag).map_or_else(|e| e.len(), |e| e.len());
        for k in 0..n {
            if n > 30 && !rng.one_in(n / 15) {
                continue;
            }
            let mut r = recserde::Rec::failing(k);
            let got = value_bag_serde1::lib::Serialize::serialize(bag, &mut r);
            let want = format!("recorder failed at call {k}");
            ctx.eq(&got.map_err(|e| e.0).err(), &Some(want), || {
                format!("{} ({}), serializer failing at {k}", s.describe(), info.name)
            });
        }
        ctx.count_up("errors of serializers");
        ctx.eval(n == 0, &format!("serializers of {} ({})", s.describe(), info.name));
    });
}

pub fn run(ctx: &mut Ctx) -> &'static str {
    let n = ctx.count(10, 20000, 200000);
    ctx.cases("made", n, |ctx, _, rng| made(ctx, rng));
    let n = ctx.count(8, 20000, 200000);
    ctx.cases("visited", n, |ctx, _, rng| visited(ctx, rng));
    let n = ctx.count(8, 10000, 100000);
    ctx.cases("filled", n, |ctx, _, rng| filled(ctx, rng));
    let n = ctx.count(8, 20000, 200000);
    ctx.cases("serialized", n, |ctx, _, rng| serialized(ctx, rng));
    "distinct errors printed under every flag, and (value, error) pairs where the error of a visitor, fill callback or serializer was compared with what the caller got"
}
