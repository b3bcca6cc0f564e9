//! Visiting a value calls the visitor exactly once, with the right kind.

use value_bag::{visit::Visit, Error, ValueBag};

use crate::{
    ctx::Ctx,
    gen,
    model::{Dom, M},
    obs::{diff_light, light, widen_c, Light},
    prim::{Prim, K},
    recserde::Fb,
    recvisit::{chain, err_addr, AnyOnly, Full, Some3, C, FAIL_MSG},
    rng::Rng,
    subject::{Data, Info, Seq, Subject, Wrap, WRAPS},
    user::U,
};

/// What the visitor must be told. `None` when the statement doesn't say.
fn expected(s: &Subject) -> Option<C> {
    match &s.data {
        Data::Prim(p) => Some(p.visit()),
        Data::Debug(_) | Data::Display(_) | Data::Seq(_) => Some(C::Any),
        Data::Error(u) => Some(C::Error(u.chain_text())),
        Data::Sval(u) => of_kind(u.m.kind_sval(), sval_null(&u.m)),
        Data::Serde(u) => of_kind(u.m.kind_serde(), Some(u.m.is_none())),
        Data::FailFill => None,
    }
}

fn of_kind(k: K, null: Option<bool>) -> Option<C> {
    Some(match k {
        K::U(v) => C::U128(v),
        K::I(v) => C::I128(v),
        K::F(v) => C::F64(v),
        K::B(v) => C::Bool(v),
        K::C(v) => C::Char(v),
        K::S(v) => C::Str(v),
        K::N if null? => C::Empty,
        K::N => C::Any,
    })
}

/// Null, when it's clear.
fn sval_null(m: &M) -> Option<bool> {
    match m {
        M::Unit | M::None => Some(true),
        M::Some(m) | M::Bag(m) => sval_null(m),
        M::Seq(..) | M::Tuple(_) | M::Map(..) | M::Struct(..) | M::TupleStruct(..) => Some(false),
        M::SvRecord(..) | M::SvTuple(..) | M::SvRecTup(..) | M::Bytes(_) | M::SvBin(..) => Some(false),
        M::StructVariant(..) | M::TupleVariant(..) => Some(false),
        // Tags may or may not be looked through
        _ => None,
    }
}

fn normal(c: C) -> C {
    match widen_c(c) {
        C::BorrowedStr(s, _) => C::Str(s),
        C::BorrowedError(e, _) => C::Error(e),
        c => c,
    }
}

/// The fields of a reading that don't depend on how it's handed over.
fn plain(l: Light) -> Light {
    l.unborrowed()
}

fn returned(ctx: &mut Ctx, r: &Result<(), Error>, fail: bool, what: &dyn Fn(&str) -> String) {
    if fail {
        let m = r.as_ref().err().map(|e| e.to_string());
        ctx.eq(&m.as_deref(), &Some(FAIL_MSG), || what("the visitor's error"));
    } else {
        ctx.check(r.is_ok(), || what("failed although the visitor didn't"));
    }
}

/// Overrides what's left of the callbacks by the others.
macro_rules! visitor {
    ($name:ident $(, $m:ident($($t:ty)?) = |$v:ident| $c:expr)*) => {
        struct $name {
            calls: Vec<C>,
            fail: bool,
        }

        impl $name {
            fn call(&mut self, c: C) -> Result<(), Error> {
                self.calls.push(c);
                if self.fail {
                    Err(Error::msg(FAIL_MSG))
                } else {
                    Ok(())
                }
            }
        }

        impl<'v> Visit<'v> for $name {
            fn visit_any(&mut self, _: ValueBag) -> Result<(), Error> {
                self.call(C::Any)
            }
            $(fn $m(&mut self, $($v: $t)?) -> Result<(), Error> {
                self.call($c)
            })*
        }
    };
}

visitor!(Text, visit_str(&str) = |v| C::Str(v.to_owned()), visit_char(char) = |v| C::Char(v));
visitor!(Lent, visit_borrowed_str(&'v str) = |v| C::BorrowedStr(v.to_owned(), v.as_ptr() as usize),
    visit_borrowed_error(&'v (dyn std::error::Error + 'static)) = |v| C::BorrowedError(chain(v), err_addr(v)));
visitor!(Faults, visit_error(&(dyn std::error::Error + 'static)) = |v| C::Error(chain(v)));
visitor!(Big, visit_u128(u128) = |v| C::U128(v), visit_i128(i128) = |v| C::I128(v));
visitor!(Small, visit_u64(u64) = |v| C::U64(v), visit_i64(i64) = |v| C::I64(v), visit_bool(bool) = |v| C::Bool(v));
visitor!(Rest, visit_f64(f64) = |v| C::F64(Fb(v)));

struct Nothing {
    calls: Vec<C>,
}

impl<'v> Visit<'v> for Nothing {
    fn visit_any(&mut self, _: ValueBag) -> Result<(), Error> {
        self.calls.push(C::Any);
        Ok(())
    }
    fn visit_empty(&mut self) -> Result<(), Error> {
        self.calls.push(C::Empty);
        Ok(())
    }
}

/// What a visitor with only some callbacks is told instead.
fn subsets(ctx: &mut Ctx, full: &C, bag: &ValueBag, fail: bool, what: &dyn Fn(&str) -> String) {
    macro_rules! subset {
        ($t:ident, |$c:ident| $e:expr) => {{
            let mut v = $t {
                calls: Vec::new(),
                fail,
            };
            let r = bag.visit(&mut v);
            let what = |n: &str| what(&format!("visitor {}: {n}", stringify!($t)));
            returned(ctx, &r, fail, &what);
            let $c = full;
            let want: C = $e;
            let got: Vec<C> = v.calls;
            ctx.eq(&got, &vec![want], || what("callbacks"));
        }};
    }
    subset!(Text, |c| match c {
        C::BorrowedStr(s, _) | C::Str(s) => C::Str(s.clone()),
        C::Char(_) => c.clone(),
        _ => C::Any,
    });
    subset!(Lent, |c| match c {
        C::BorrowedStr(..) | C::BorrowedError(..) => c.clone(),
        _ => C::Any,
    });
    subset!(Big, |c| match c {
        C::U128(_) | C::I128(_) => c.clone(),
        _ => C::Any,
    });
    subset!(Small, |c| match c {
        C::U64(_) | C::I64(_) | C::Bool(_) => c.clone(),
        _ => C::Any,
    });
    subset!(Rest, |c| match c {
        C::F64(_) => c.clone(),
        _ => C::Any,
    });
    subset!(Some3, |c| match c {
        C::U64(_) | C::I64(_) => c.clone(),
        C::BorrowedStr(s, _) | C::Str(s) => C::Str(s.clone()),
        C::Char(c) => C::Str(c.to_string()),
        _ => C::Any,
    });
    // Errors handed out borrowed may skip this one
    if !matches!(full, C::BorrowedError(..)) {
        subset!(Faults, |c| match c {
            C::Error(_) => c.clone(),
            _ => C::Any,
        });
    }
    if !fail {
        let mut v = Nothing { calls: Vec::new() };
        let r = bag.visit(&mut v);
        ctx.check(r.is_ok(), || what("visitor Nothing: failed"));
        let want = if *full == C::Empty { C::Empty } else { C::Any };
        ctx.eq(&v.calls, &vec![want], || what("visitor Nothing: callbacks"));
    }
}

fn judge(ctx: &mut Ctx, s: &Subject, rng: &mut Rng) {
    let Some(want) = expected(s) else {
        ctx.eval(true, "");
        return;
    };
    s.with(&mut |info: &Info, bag: &ValueBag| {
        let what = |n: &str| format!("{} ({}): {n}", s.describe(), info.name);
        let original = plain(light(bag));
        let mut first = None;
        for fail in [false, true] {
            let mut seen: Vec<Light> = Vec::new();
            let mut on_any = |v: &ValueBag| seen.push(plain(light(v)));
            let mut v = Full::new(fail, &mut on_any);
            let what = |n: &str| what(&format!("failing {fail}: {n}"));
            // All the ways a visitor can be handed over
            let r = match rng.below(4) {
                0 => bag.visit(&mut v as &mut dyn Visit),
                1 => bag.visit(&mut &mut v),
                2 => {
                    let d: &mut dyn for<'v> Visit<'v> = &mut v;
                    bag.visit(d)
                }
                _ => bag.visit(&mut v),
            };
            returned(ctx, &r, fail, &what);
            let calls = v.calls;
            ctx.check(calls.len() == 1, || what(&format!("callbacks {calls:?}")));
            for l in &seen {
                ctx.judgements += 20;
                if let Some(d) = diff_light(&original, l) {
                    ctx.violate(what(&format!("the bag handed to the catch-all: {d}")));
                }
            }
            if let Some(c) = calls.into_iter().next() {
                // Exactly the captured type when nothing is in between
                if matches!(s.data, Data::Prim(_)) && !info.buffered && !info.fill && info.name == "typed" {
                    let strip = |c: C| match c {
                        C::BorrowedStr(s, _) => C::Str(s),
                        c => c,
                    };
                    ctx.eq(&strip(c.clone()), &strip(want.clone()), || what("callback"));
                }
                ctx.eq(&normal(c.clone()), &normal(want.clone()), || what("callback"));
                borrowed(ctx, s, info, &c, &what);
                first = Some(c);
            }
            let mut seen: Vec<Light> = Vec::new();
            let mut on_any = |v: &ValueBag| seen.push(plain(light(v)));
            let mut v = AnyOnly {
                calls: 0,
                fail,
                on_any: &mut on_any,
            };
            let r = bag.visit(&mut v);
            returned(ctx, &r, fail, &what);
            let n = v.calls;
            ctx.check(n == 1, || what(&format!("the catch-all was called {n} times")));
            // A char is passed on as text, and primitives lose what they were captured as
            if first == Some(C::Any) {
                for l in &seen {
                    if let Some(d) = diff_light(&original, l) {
                        ctx.violate(what(&format!("the bag handed to the only callback: {d}")));
                    }
                }
            } else if let Some(c) = &first {
                for l in &seen {
                    let k = kind_of(c);
                    let mut want = k.casts();
                    if let C::Char(c) = c {
                        want = K::S(c.to_string()).casts();
                    }
                    ctx.eq(&l.casts, &want, || what("the bag handed to the only callback"));
                    if let C::Error(m) | C::BorrowedError(m, _) = c {
                        ctx.eq(&l.display.clone().ok(), &m.first().cloned(), || what("the error handed to the only callback"));
                    }
                }
            }
            if let Some(c) = &first {
                subsets(ctx, c, bag, fail, &what);
            }
        }
        ctx.count_up(match &first {
            Some(C::Any) => "catch-all",
            Some(C::Empty) => "empty",
            Some(C::BorrowedStr(..) | C::BorrowedError(..)) => "borrowed",
            Some(_) => "primitives",
            None => "nothing",
        });
        ctx.eval(false, &what(""));
    });
}

fn kind_of(c: &C) -> K {
    match c.clone() {
        C::U64(v) => K::U(v as u128),
        C::I64(v) => K::I(v as i128),
        C::U128(v) => K::U(v),
        C::I128(v) => K::I(v),
        C::F64(v) => K::F(v),
        C::Bool(v) => K::B(v),
        C::Char(v) => K::C(v),
        C::Str(v) | C::BorrowedStr(v, _) => K::S(v),
        C::Any | C::Empty | C::Error(_) | C::BorrowedError(..) => K::N,
    }
}

/// Text and errors captured by reference are delivered as borrowed, in place.
fn borrowed(ctx: &mut Ctx, s: &Subject, info: &Info, c: &C, what: &dyn Fn(&str) -> String) {
    if !matches!(info.wrap, Wrap::Plain | Wrap::ByRef | Wrap::Clone) || !s.data.borrowing_route(s.route) {
        return;
    }
    match &s.data {
        Data::Prim(Prim::Str(t)) => {
            let want = C::BorrowedStr(t.clone(), t.as_ptr() as usize);
            ctx.eq(c, &want, || what("text captured by reference"));
        }
        Data::Error(u) => {
            let want = C::BorrowedError(u.chain_text(), u as *const U as usize);
            ctx.eq(c, &want, || what("error captured by reference"));
        }
        Data::Sval(u) => {
            if let M::Str(t) = &u.m {
                let want = C::BorrowedStr(t.clone(), t.as_ptr() as usize);
                ctx.eq(c, &want, || what("text captured by reference through sval"));
            }
        }
        _ => (),
    }
}

pub fn run(ctx: &mut Ctx) -> &'static str {
    let n = ctx.count(10, 30000, 300000);
    ctx.cases("anything", n, |ctx, _, rng| {
        let s = Subject::gen(rng);
        judge(ctx, &s, rng)
    });
    let n = ctx.count(3, 1500, 20000);
    ctx.cases("every route", n, |ctx, i, rng| {
        let mut u = U::gen_text(rng);
        let data = match i % 10 {
            0 => Data::Prim(Prim::Str(gen::text(rng))),
            1 => Data::Prim(Prim::gen(rng)),
            2 => Data::Debug(u),
            3 => Data::Display(u),
            4 => Data::Error(U::gen_error(rng)),
            5 | 6 => {
                u.m = M::scalar(rng, Dom::SVAL);
                Data::Sval(u)
            }
            7 => {
                u.m = M::scalar(rng, Dom::SERDE);
                Data::Serde(u)
            }
            8 => {
                u.m = M::gen(rng, 2, Dom::SERDE.bags());
                Data::Serde(u)
            }
            _ => Data::Seq(Seq::gen(rng)),
        };
        for route in 0..data.routes() {
            for wrap in WRAPS {
                if rng.one_in(3) {
                    let s = Subject {
                        data: data.clone(),
                        route,
                        wrap,
                    };
                    judge(ctx, &s, rng);
                }
            }
        }
    });
    "distinct (value, capture route, handle) triples visited by nine kinds of visitor, succeeding and failing"
}
