//! A captured error stays an error with its whole cause chain.

use std::{error::Error, fmt, io};

use value_bag::{fill::Slot, ValueBag};

use crate::{
    ctx::Ctx,
    gen,
    obs::{text, visit_of},
    recserde::{self, S},
    recsval,
    recvisit::{err_addr, C},
    rng::Rng,
    subject::{Data, Info, Subject, Wrap, WRAPS},
    user::{Ledger, U},
};

/// The messages down a chain of any length.
fn messages(e: &(dyn Error + 'static)) -> Vec<String> {
    let mut out = Vec::new();
    let mut cur = Some(e);
    while let Some(e) = cur {
        out.push(crate::sink::to_string(format_args!("{e}")));
        if out.len() > 5000 {
            out.push("<too long>".into());
            break;
        }
        cur = e.source();
    }
    out
}

fn addresses(e: &(dyn Error + 'static)) -> Vec<usize> {
    let mut out = Vec::new();
    let mut cur = Some(e);
    while let Some(e) = cur {
        out.push(err_addr(e));
        if out.len() > 5000 {
            break;
        }
        cur = e.source();
    }
    out
}

/// Errors whose chains are as long as one likes.
fn long(rng: &mut Rng, n: usize) -> U {
    let mut e = U::gen_text(rng);
    for _ in 0..n {
        let mut outer = U::gen_text(rng);
        outer.led = e.led.clone();
        Ledger::made(&outer.led);
        outer.cause = Some(Box::new(e));
        e = outer;
    }
    e
}

/// What the error itself says.
struct Says {
    debug: String,
    display: String,
    chain: Vec<String>,
    /// Of every error in the chain
    at: Vec<usize>,
}

impl Says {
    fn of(e: &(dyn Error + 'static)) -> Says {
        Says {
            debug: crate::sink::to_string(format_args!("{e:?}")),
            display: crate::sink::to_string(format_args!("{e}")),
            chain: messages(e),
            at: addresses(e),
        }
    }
}

/// Judge one bag over an error. `lent` when it was captured by reference, `copied` when it's a copy of it.
fn judge(ctx: &mut Ctx, says: &Says, bag: &ValueBag, lent: bool, copied: bool, fill: bool, what: &dyn Fn(&str) -> String) {
    ctx.eq(&text(format_args!("{bag}")), &Ok(says.display.clone()), || what("Display"));
    if !copied {
        ctx.eq(&text(format_args!("{bag:?}")), &Ok(says.debug.clone()), || what("Debug"));
    }
    ctx.eq(&recserde::trace(bag), &Ok(vec![S::Str(says.display.clone())]), || what("serialized"));
    ctx.eq(&recserde::trace_hr(bag, false), &Ok(vec![S::Str(says.display.clone())]), || what("serialized"));
    let t = recsval::trace(bag);
    ctx.check(matches!(&t, Ok(t) if text_of(t).as_ref() == Some(&says.display)), || what(&format!("streamed {t:?}")));
    ctx.check(!bag.is_empty(), || what("is empty"));

    // Visited as an error
    let (calls, ok) = visit_of(bag);
    ctx.check(ok, || what("the visit failed"));
    let visited = match calls.as_slice() {
        [C::Error(_)] => !lent,
        [C::BorrowedError(_, at)] => !lent || *at == says.at[0],
        _ => false,
    };
    ctx.check(visited, || what(&format!("visited as {}", crate::ctx::short(&calls))));
    struct Chain(Vec<Vec<String>>, Vec<Vec<usize>>);
    impl<'v> value_bag::visit::Visit<'v> for Chain {
        fn visit_any(&mut self, _: ValueBag) -> Result<(), value_bag::Error> {
            Ok(())
        }
        fn visit_error(&mut self, e: &(dyn Error + 'static)) -> Result<(), value_bag::Error> {
            self.0.push(messages(e));
            Ok(())
        }
        fn visit_borrowed_error(&mut self, e: &'v (dyn Error + 'static)) -> Result<(), value_bag::Error> {
            self.0.push(messages(e));
            self.1.push(addresses(e));
            Ok(())
        }
    }
    let mut v = Chain(Vec::new(), Vec::new());
    let _ = bag.visit(&mut v);
    ctx.eq(&v.0, &vec![says.chain.clone()], || what("the chain of the visited error"));
    if lent {
        ctx.eq(&v.1, &vec![says.at.clone()], || what("the place of the visited error"));
    }

    // Read as an error
    match bag.to_borrowed_error() {
        Some(e) => {
            ctx.eq(&messages(e), &says.chain, || what("the chain of the error read"));
            if lent {
                ctx.eq(&addresses(e), &says.at, || what("the place of the error read"));
                ctx.eq(&crate::sink::to_string(format_args!("{e:?}")), &says.debug, || what("Debug of the error read"));
            }
            ctx.count_up("read as an error");
        }
        None => {
            ctx.check(!lent, || what("not read as an error although it was captured by reference"));
            // A bag that owns the error may not be able to lend it
            let r = bag.by_ref();
            match r.to_borrowed_error() {
                Some(e) => {
                    ctx.eq(&messages(e), &says.chain, || what("the chain of the error read"));
                }
                None => {
                    ctx.check(fill, || what("not read as an error"));
                }
            }
        }
    }
    // No conversion
    let casts = crate::prim::casts_of(bag);
    ctx.eq(&casts, &crate::prim::K::N.casts(), || what("conversions"));
}

fn text_of(t: &[recsval::V]) -> Option<String> {
    match recsval::plain(t).as_slice() {
        [recsval::V::Text(s, _)] => Some(s.clone()),
        _ => None,
    }
}

fn subject(ctx: &mut Ctx, s: &Subject) {
    let Data::Error(u) = &s.data else { return };
    s.with(&mut |info: &Info, bag: &ValueBag| {
        let what = |n: &str| format!("{} ({}): {n}", s.describe(), info.name);
        let says = Says::of(u);
        let lent = matches!(info.wrap, Wrap::Plain | Wrap::ByRef | Wrap::Clone) && s.data.borrowing_route(s.route);
        // A made copy has the same messages, but the objects are others
        let says = Says {
            at: if lent { says.at } else { Vec::new() },
            ..says
        };
        judge(ctx, &says, bag, lent, info.buffered, info.fill, &what);
        if lent {
            let own = bag.to_borrowed_error().and_then(|e| e.downcast_ref::<U>()).map(|u| u as *const U);
            ctx.eq(&own, &Some(u as *const U), || what("downcasting the error read"));
            let cause = bag.to_borrowed_error().and_then(|e| e.source());
            let cause = cause.and_then(|e| e.downcast_ref::<U>()).map(|u| u as *const U);
            ctx.eq(&cause, &u.cause.as_ref().map(|u| &**u as *const U), || what("downcasting the cause"));
        }
        if info.shared {
            let e = bag.downcast_ref::<U>().map(|u| u.chain_text());
            ctx.eq(&e, &Some(u.chain_text()), || what("the shared error"));
        }
        ctx.count_by("errors in chains", u.chain_text().len() as u64);
        ctx.eval(false, &what(""));
    });
    ctx.eq(&(u.led.dead.load(std::sync::atomic::Ordering::SeqCst)), &0, || format!("{}: used after it was dropped", s.describe()));
}

/// An error of any type, which may not be `Clone`.
fn other<E: Error + Send + Sync + 'static>(ctx: &mut Ctx, name: &str, e: E, make: &dyn Fn() -> E, rng: &mut Rng) {
    let says = Says::of(&e);
    let fresh = Says {
        at: Vec::new(),
        ..Says::of(&e)
    };
    let at = &e as *const E as usize;
    let dy: &(dyn Error + 'static) = &e;
    for (route, bag) in [
        ("capture_error", ValueBag::capture_error(&e)),
        ("from_dyn_error", ValueBag::from_dyn_error(&e)),
        ("From<&dyn Error>", ValueBag::from(dy)),
        ("From<Option<&dyn Error>>", ValueBag::from(Some(dy))),
    ] {
        let what = |n: &str| format!("{name} {route}: {n}");
        judge(ctx, &says, &bag, true, false, false, &what);
        judge(ctx, &says, &bag.by_ref(), true, false, false, &|n| what(&format!("by_ref: {n}")));
        judge(ctx, &says, &bag.clone(), true, false, false, &|n| what(&format!("clone: {n}")));
        let found = bag.to_borrowed_error().and_then(|e| e.downcast_ref::<E>()).map(|e| e as *const E as usize);
        ctx.eq(&found, &Some(at), || what("downcasting the error read"));
        let o = if rng.bool() { bag.to_owned() } else { bag.to_shared() };
        judge(ctx, &fresh, &o.by_ref(), false, true, false, &|n| what(&format!("owned: {n}")));
        let o = o.clone().into_shared().by_ref().to_owned();
        judge(ctx, &fresh, &o.by_ref(), false, true, false, &|n| what(&format!("owned, cloned, shared, owned: {n}")));
        ctx.eq(&text(format_args!("{o}")), &Ok(says.display.clone()), || what("Display of the owned bag"));
        ctx.eq(&recserde::trace(&o), &Ok(vec![S::Str(says.display.clone())]), || what("serializing the owned bag"));
        ctx.eval(false, &format!("{name} {route} {:?}", says.chain));
    }
    for (route, bag) in [
        ("fill_dyn_error", ValueBag::from_fill(&|s: Slot| s.fill_dyn_error(&e))),
        ("fill_error", ValueBag::from_fill(&|s: Slot| s.fill_error(make()))),
        ("fill_any", ValueBag::from_fill(&|s: Slot| s.fill_any(ValueBag::capture_shared_error(make())))),
    ] {
        let what = |n: &str| format!("{name} {route}: {n}");
        judge(ctx, &fresh, &bag, false, false, true, &what);
        let o = bag.to_owned();
        judge(ctx, &fresh, &o.by_ref(), false, true, false, &|n| what(&format!("owned: {n}")));
        ctx.eval(false, &format!("{name} {route} {:?}", says.chain));
    }
    let bag = ValueBag::capture_shared_error(make());
    let what = |n: &str| format!("{name} capture_shared_error: {n}");
    judge(ctx, &fresh, &bag, false, false, false, &what);
    judge(ctx, &fresh, &bag.clone(), false, false, false, &what);
    let o = bag.to_owned();
    drop(bag);
    judge(ctx, &fresh, &o.clone().by_ref(), false, false, false, &|n| what(&format!("owned: {n}")));
    ctx.eval(false, &format!("{name} capture_shared_error {:?}", says.chain));

    // Not captured as an error
    for (route, bag) in [
        ("capture_debug", ValueBag::capture_debug(&e)),
        ("capture_display", ValueBag::capture_display(&e)),
        ("from_debug", ValueBag::from_debug(&e)),
        ("from_display", ValueBag::from_display(&e)),
        ("from_dyn_debug", ValueBag::from_dyn_debug(&e)),
        ("from_dyn_display", ValueBag::from_dyn_display(&e)),
        ("capture_shared_debug", ValueBag::capture_shared_debug(make())),
        ("capture_shared_display", ValueBag::capture_shared_display(make())),
        ("fill_debug", ValueBag::from_fill(&|s: Slot| s.fill_debug(&e))),
        ("fill_display", ValueBag::from_fill(&|s: Slot| s.fill_display(&e))),
    ] {
        never(ctx, &bag, &|n| format!("{name} {route}: {n}"));
        never(ctx, &bag.to_owned().by_ref(), &|n| format!("{name} {route} owned: {n}"));
        never(ctx, &bag.to_shared().by_ref(), &|n| format!("{name} {route} shared: {n}"));
        ctx.eval(false, &format!("{name} {route}"));
    }
}

/// It isn't an error.
fn never(ctx: &mut Ctx, bag: &ValueBag, what: &dyn Fn(&str) -> String) {
    for b in [bag.by_ref(), bag.clone()] {
        let e = b.to_borrowed_error().map(|e| e.to_string());
        ctx.check(e.is_none(), || what(&format!("read as the error {e:?}")));
        let (calls, _) = visit_of(&b);
        ctx.check(!calls.iter().any(|c| matches!(c, C::Error(_) | C::BorrowedError(..))), || {
            what(&format!("visited as {calls:?}"))
        });
    }
    let e = bag.to_borrowed_error().is_some();
    ctx.check(!e, || what("read as an error"));
}

#[derive(Debug)]
struct Zst;

impl fmt::Display for Zst {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("no size at all")
    }
}

impl Error for Zst {}

/// Has a cause of another type, which it shares.
#[derive(Debug)]
enum Mixed {
    Io(io::Error),
    Parse(std::num::ParseIntError),
    Boxed(Box<dyn Error + Send + Sync>),
    Unit(Zst),
    Alone(String),
}

impl fmt::Display for Mixed {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            Mixed::Io(_) => f.pad("io"),
            Mixed::Parse(e) => write!(f, "parse: {e}"),
            Mixed::Boxed(_) => Ok(()),
            Mixed::Unit(_) => f.write_str("unit"),
            Mixed::Alone(s) => f.write_str(s),
        }
    }
}

impl Error for Mixed {
    fn source(&self) -> Option<&(dyn Error + 'static)> {
        Some(match self {
            Mixed::Io(e) => e,
            Mixed::Parse(e) => e,
            Mixed::Boxed(e) => &**e,
            Mixed::Unit(e) => e,
            Mixed::Alone(_) => return None,
        })
    }
}

fn mixed(rng: &mut Rng, depth: usize) -> Mixed {
    match rng.below(6) {
        0 => Mixed::Io(io::Error::new(io::ErrorKind::Other, gen::text(rng))),
        1 => Mixed::Parse("x".parse::<u8>().unwrap_err()),
        2 | 3 if depth > 0 => Mixed::Boxed(Box::new(mixed(rng, depth - 1))),
        4 => Mixed::Unit(Zst),
        _ => Mixed::Alone(gen::text(rng)),
    }
}

pub fn run(ctx: &mut Ctx) -> &'static str {
    let n = ctx.count(4, 2500, 40000);
    ctx.cases("every route", n, |ctx, _, rng| {
        let data = Data::Error(U::gen_error(rng));
        for route in 0..data.routes() {
            for wrap in WRAPS {
                let data = data.clone();
                subject(ctx, &Subject { data, route, wrap });
            }
        }
    });
    let n = ctx.count(1, 40, 600);
    ctx.cases("long chains", n, |ctx, _, rng| {
        let n = if cfg!(miri) { 12 } else { 10 + rng.below(300) };
        let s = Subject::routed(rng, Data::Error(U::new(Vec::new(), 0, crate::model::M::Unit)));
        let data = Data::Error(long(rng, n));
        let Subject { route, wrap, .. } = s;
        ctx.count_up("long chains");
        subject(ctx, &Subject { data, route, wrap })
    });
    let n = ctx.count(6, 1500, 20000);
    ctx.cases("other errors", n, |ctx, i, rng| {
        let seed = rng.u64();
        match i % 8 {
            0 => other(ctx, "zero-sized", Zst, &|| Zst, rng),
            1 => other(ctx, "fmt::Error", fmt::Error, &|| fmt::Error, rng),
            2 => {
                let t = gen::text(rng);
                let make = || io::Error::new(io::ErrorKind::NotFound, t.clone());
                other(ctx, "io::Error", make(), &make, rng)
            }
            3 => {
                let make = || io::Error::new(io::ErrorKind::Other, mixed(&mut Rng::new(seed), 4));
                other(ctx, "io::Error over another", make(), &make, rng)
            }
            4 => {
                let make = || std::str::from_utf8(&[0xff]).unwrap_err();
                other(ctx, "Utf8Error", make(), &make, rng)
            }
            5 => {
                let t = gen::text(rng);
                let make = || value_bag::Error::boxed(mixed(&mut Rng::new(seed), 2));
                let _ = t;
                other(ctx, "the library's own", make(), &make, rng)
            }
            _ => {
                let make = || mixed(&mut Rng::new(seed), 6);
                other(ctx, "user enum", make(), &make, rng)
            }
        }
    });
    let n = ctx.count(20, 30000, 400000);
    ctx.cases("not errors", n, |ctx, _, rng| {
        let s = loop {
            let s = Subject::gen(rng);
            if !matches!(s.data, Data::Error(_)) {
                break s;
            }
        };
        s.with(&mut |info: &Info, bag: &ValueBag| {
            never(ctx, bag, &|n| format!("{} ({}): {n}", s.describe(), info.name));
        });
        ctx.count_up("values that aren't errors");
        ctx.eval(false, &s.describe());
    });
    "distinct (error and its chain, capture route, handle) triples, and values not captured as errors"
}
