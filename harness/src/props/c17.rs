//! Failures on either side are reported, contained and never lose the rest.

use std::fmt::Write;

use value_bag::{OwnedValueBag, ValueBag};

use crate::{
    ctx::{short, Ctx},
    model::{Dom, M},
    obs::{diff_light, light, text, visit_of},
    prim::{casts_of, Prim, K},
    recserde, recsval,
    recvisit::{Full, FAIL_MSG},
    rng::Rng,
    sink::Limited,
    subject::{Data, Info, Seq, Subject, Wrap, WRAPS},
    user::{Elem, FillPrim, U},
};

fn marked(t: &Result<String, String>) -> bool {
    match t {
        Ok(t) => t.starts_with('<') && t.ends_with('>'),
        Err(_) => false,
    }
}

/// Consuming the failing bag says so.
///
/// Text of serde data is put together by `serde_fmt`, which puts a marker where the failure is.
fn reported(ctx: &mut Ctx, bag: &ValueBag, structured: bool, serde: bool, what: &dyn Fn(&str) -> String) {
    for (name, t) in [
        ("Display", text(format_args!("{bag}"))),
        ("Debug", text(format_args!("{bag:?}"))),
        ("Debug, pretty", text(format_args!("{bag:#?}"))),
        ("Display, width", text(format_args!("{bag:>40}"))),
    ] {
        let told = t.is_err() || serde && debug_marked(&t);
        ctx.check(told, || what(&format!("{name} passed for success: {t:?}")));
    }
    let s = recserde::trace(bag);
    ctx.check(s.is_err(), || what(&format!("serializing passed for success: {s:?}")));
    let s = recsval::trace(bag);
    ctx.check(s.is_err(), || what(&format!("streaming passed for success: {s:?}")));
    // serde_json panics on its own when text it's given fails to print
    if structured {
        let s = value_bag_serde1::json::to_string(bag);
        ctx.check(s.is_err(), || what(&format!("serde JSON passed for success: {s:?}")));
    }
    let s = value_bag_sval2::json::stream_to_string(bag);
    ctx.check(s.is_err(), || what(&format!("sval JSON passed for success: {s:?}")));
    // Casts and sequences don't panic, whatever they give
    let _ = casts_of(bag);
    let _ = crate::obs::seqs_of(bag);
    let _ = visit_of(bag);
}

/// A copy of the failing value.
fn contained(ctx: &mut Ctx, o: &OwnedValueBag, structured: bool, what: &dyn Fn(&str) -> String) {
    let bag = o.by_ref();
    for (name, t) in [
        ("Display", text(format_args!("{bag}"))),
        ("Debug", text(format_args!("{bag:?}"))),
        ("Display of the owned bag", text(format_args!("{o}"))),
        ("Debug of the owned bag", text(format_args!("{o:?}"))),
    ] {
        let fine = marked(&t) || name.starts_with("Debug") && debug_marked(&t);
        ctx.check(fine, || what(&format!("{name} printed {t:?}")));
    }
    if structured {
        ctx.eq(&casts_of(&bag), &K::N.casts(), || what("conversions"));
        ctx.check(!bag.is_empty(), || what("reads as empty"));
        let s = recserde::trace(&bag);
        ctx.check(s.is_err(), || what(&format!("serializes {s:?}")));
        let s = recserde::trace(o);
        ctx.check(s.is_err(), || what(&format!("the owned bag serializes {s:?}")));
        let s = recsval::trace(&bag);
        ctx.check(s.is_err(), || what(&format!("streams {s:?}")));
        let s = recsval::trace(o);
        ctx.check(s.is_err(), || what(&format!("the owned bag streams {s:?}")));
        let (calls, ok) = visit_of(&bag);
        ctx.check(!ok && calls.is_empty(), || what(&format!("visited {calls:?} {ok}")));
        let s = bag.to_u64_seq::<Vec<_>>();
        ctx.check(s.is_none(), || what(&format!("a sequence {s:?}")));
        let s = bag.to_borrowed_error();
        ctx.check(s.is_none(), || what(&format!("an error {s:?}")));
    }
}

/// A message printed by `Debug` may be wrapped up.
fn debug_marked(t: &Result<String, String>) -> bool {
    matches!(t, Ok(t) if t.contains('<') && t.contains('>'))
}

fn copies(bag: &ValueBag) -> Vec<(&'static str, OwnedValueBag)> {
    let o = bag.to_owned();
    vec![
        ("to_owned", bag.to_owned()),
        ("to_shared", bag.to_shared()),
        ("clone of to_owned", o.clone()),
        ("to_owned twice", o.by_ref().to_owned()),
        ("into_shared", o.clone().into_shared().clone()),
        ("by_ref, clone, to_owned", bag.by_ref().clone().to_owned()),
    ]
}

/// Whether every way of producing the data runs into the failure.
fn always_fails(m: &M, serde: bool) -> bool {
    if serde {
        recserde::trace(m).is_err() && recserde::trace_hr(m, false).is_err()
    } else {
        recsval::trace(m).is_err()
    }
}

fn produced(ctx: &mut Ctx, s: &Subject, structured: bool) {
    let serde = matches!(s.data, Data::Serde(_));
    s.with(&mut |info: &Info, bag: &ValueBag| {
        let what = |n: &str| format!("{} ({}): {n}", s.describe(), info.name);
        let fails = match &s.data {
            Data::Debug(u) | Data::Display(u) | Data::Error(u) => format!("{:?}", u.fail_fmt),
            _ => String::new(),
        };
        let what = |n: &str| format!("failing at {fails}, {}", what(n));
        reported(ctx, bag, structured, serde, &what);
        if info.shared || info.name.contains("shared") {
            // Copies share the value, and fail as it does
            for (name, o) in copies(bag) {
                reported(ctx, &o.by_ref(), structured, serde, &|n| what(&format!("{name}: {n}")));
            }
        } else {
            for (name, o) in copies(bag) {
                contained(ctx, &o, structured, &|n| what(&format!("{name}: {n}")));
            }
        }
        ctx.count_up(if structured { "failing structures" } else { "failing texts" });
        ctx.eval(false, &what(""));
    });
}

/// Fail the value at every point.
fn producer(ctx: &mut Ctx, data: &Data, rng: &mut Rng) {
    match data {
        Data::Debug(u) | Data::Display(u) | Data::Error(u) => {
            for k in 0..=u.frags.len() + 1 {
                for route in 0..data.routes() {
                    let mut data = data.clone();
                    if let Data::Debug(u) | Data::Display(u) | Data::Error(u) = &mut data {
                        u.fail_fmt = Some(k);
                    }
                    let wrap = *rng.pick(&WRAPS[..3]);
                    produced(ctx, &Subject { data, route, wrap }, false);
                }
            }
        }
        Data::Sval(u) | Data::Serde(u) => {
            let serde = matches!(data, Data::Serde(_));
            let n = u.m.clone().size();
            for k in 0..n {
                if n > 40 && !rng.one_in(n / 20) {
                    continue;
                }
                let mut m = u.m.clone();
                let mut at = k;
                m.fail_at(&mut at);
                if !always_fails(&m, serde) {
                    ctx.eval(true, "");
                    continue;
                }
                for route in 0..data.routes() {
                    let mut data = data.clone();
                    if let Data::Sval(u) | Data::Serde(u) = &mut data {
                        u.m = m.clone();
                    }
                    let wrap = *rng.pick(&WRAPS[..3]);
                    produced(ctx, &Subject { data, route, wrap }, true);
                }
            }
        }
        _ => (),
    }
}

/// An element that fails, and whether it's structured data.
fn bad_elem(rng: &mut Rng) -> (Elem, bool) {
    let mut u = U::gen_text(rng);
    let k = rng.below(u.frags.len() + 2);
    match rng.below(7) {
        0 => {
            u.fail_fmt = Some(k);
            (Elem::Debug(u), false)
        }
        1 => {
            u.fail_fmt = Some(k);
            (Elem::Display(u), false)
        }
        2 => {
            u.fail_fmt = Some(k);
            (Elem::Error(u), false)
        }
        3 => {
            u.m = bad_data(rng, Dom::SVAL, false);
            (Elem::Sval(u), true)
        }
        4 => {
            u.m = bad_data(rng, Dom::SERDE, true);
            (Elem::Serde(u), true)
        }
        5 => (Elem::FailFill, true),
        _ => {
            let (e, s) = bad_elem(rng);
            let mut v = vec![e];
            for _ in 0..rng.below(3) {
                let at = rng.below(v.len() + 1);
                v.insert(at, good_elem(rng));
            }
            (Elem::Seq(v), s)
        }
    }
}

fn has_serde(e: &Elem) -> bool {
    match e {
        Elem::Serde(_) => true,
        Elem::Fill(FillPrim(p)) => matches!(p, Prim::Str(_) | Prim::U128(_) | Prim::I128(_)),
        Elem::Seq(v) => v.iter().any(has_serde),
        _ => false,
    }
}

fn bad_data(rng: &mut Rng, d: Dom, serde: bool) -> M {
    loop {
        let mut m = M::gen(rng, 2, d);
        let mut at = rng.below(m.size());
        m.fail_at(&mut at);
        if always_fails(&m, serde) {
            return m;
        }
    }
}

fn good_elem(rng: &mut Rng) -> Elem {
    match rng.below(5) {
        0 => Elem::Fill(FillPrim(Prim::gen(rng))),
        1 => Elem::Debug(U::gen_text(rng)),
        2 => Elem::Error(U::gen_error(rng)),
        _ => Elem::Prim(Prim::gen(rng)),
    }
}

fn sequences(ctx: &mut Ctx, rng: &mut Rng) {
    let n = rng.below(6);
    let mut v: Vec<Elem> = (0..n).map(|_| good_elem(rng)).collect();
    let at = rng.below(n + 1);
    let (bad, structured) = bad_elem(rng);
    let serde = has_serde(&bad);
    v.insert(at, bad);
    let data = Data::Seq(Seq::Elems(v.clone()));
    for route in 0..crate::subject::SEQ_ROUTES {
        let wrap = *rng.pick(&WRAPS[..3]);
        let s = Subject {
            data: data.clone(),
            route,
            wrap,
        };
        s.with(&mut |info: &Info, bag: &ValueBag| {
            let what = |n: &str| format!("{} ({}): {n}", s.describe(), info.name);
            reported(ctx, bag, structured, serde, &what);
            if info.shared || info.name.contains("shared") {
                for (name, o) in copies(bag) {
                    reported(ctx, &o.by_ref(), structured, serde, &|n| what(&format!("{name}: {n}")));
                }
            } else {
                for (name, o) in copies(bag) {
                    let what = |n: &str| what(&format!("{name}: {n}"));
                    let b = o.by_ref();
                    // The rest is all there
                    let mut want = String::from("[");
                    let mut ends = String::new();
                    let mut prefix = true;
                    for (i, e) in v.iter().enumerate() {
                        let target = if i <= at { &mut want } else { &mut ends };
                        if i > 0 {
                            target.push_str(", ");
                        }
                        if i != at {
                            // Errors and text print as they are once copied
                            let c = ValueBag::from(e).to_owned();
                            let _ = write!(target, "{c:?}");
                        } else {
                            prefix = false;
                        }
                    }
                    let _ = prefix;
                    ends.push(']');
                    let t = text(format_args!("{b:?}"));
                    let fine = match &t {
                        Ok(t) => {
                            t.len() >= want.len() + ends.len() && t.starts_with(&want) && t.ends_with(&ends) && {
                                let m = &t[want.len()..t.len() - ends.len()];
                                let m = Ok(m.to_owned());
                                marked(&m) || debug_marked(&m)
                            }
                        }
                        Err(_) => false,
                    };
                    ctx.check(fine, || what(&format!("printed {t:?}, expected {want:?} a marker {ends:?}")));
                    if structured {
                        let s = recserde::trace(&b);
                        ctx.check(s.is_err(), || what(&format!("serializes {s:?}")));
                        let s = recsval::trace(&b);
                        ctx.check(s.is_err(), || what(&format!("streams {s:?}")));
                    }
                }
            }
            ctx.count_up("failing elements");
            ctx.eval(false, &what(""));
        });
    }
}

/// A sink that fails at the `k`th call and keeps count of what follows.
struct Nth {
    left: usize,
    failed: bool,
    after: usize,
    calls: usize,
}

impl Write for Nth {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        if self.failed {
            self.after += 1;
            return Err(std::fmt::Error);
        }
        self.calls += 1;
        if self.left == 0 {
            self.failed = true;
            return Err(std::fmt::Error);
        }
        self.left -= 1;
        Ok(())
    }
}

fn nth(left: usize) -> Nth {
    Nth {
        left,
        failed: false,
        after: 0,
        calls: 0,
    }
}

/// The points to fail at out of `n`.
fn points(rng: &mut Rng, n: usize) -> Vec<usize> {
    if n <= 48 {
        (0..n).collect()
    } else {
        let mut v: Vec<usize> = (0..8).chain(n - 8..n).collect();
        v.extend((0..24).map(|_| rng.below(n)));
        v
    }
}

/// Whether any of it was captured through serde.
fn through_serde(s: &Subject) -> bool {
    match &s.data {
        Data::Serde(_) => true,
        Data::Prim(_) => matches!(s.route, 1 | 3),
        Data::Seq(Seq::Elems(v)) => v.iter().any(has_serde),
        Data::Seq(Seq::Owned(v)) => v.iter().any(|(e, _)| has_serde(e)),
        _ => false,
    }
}

/// Fail whoever consumes the bag, at every call.
fn consumer(ctx: &mut Ctx, s: &Subject, rng: &mut Rng) {
    s.with(&mut |info: &Info, bag: &ValueBag| {
        let what = |n: &str| format!("{} ({}): {n}", s.describe(), info.name);
        consume(ctx, bag, through_serde(s), rng, &what);
    });
}

/// Copies of what failed, which print as a marker.
fn marker(ctx: &mut Ctx, rng: &mut Rng) {
    let data = match rng.below(5) {
        0 => Data::FailFill,
        n @ (1 | 2) => {
            let mut u = U::gen_text(rng);
            u.m = bad_data(rng, if n == 1 { Dom::SVAL } else { Dom::SERDE }, n == 2);
            if n == 1 {
                Data::Sval(u)
            } else {
                Data::Serde(u)
            }
        }
        n => {
            let mut u = U::gen_error(rng);
            u.fail_fmt = Some(rng.below(u.frags.len() + 2));
            if n == 3 {
                Data::Display(u)
            } else {
                Data::Error(u)
            }
        }
    };
    let s = Subject {
        route: rng.below(data.routes()),
        data,
        wrap: Wrap::Plain,
    };
    s.with(&mut |info: &Info, bag: &ValueBag| {
        let shared = info.shared || info.name.contains("shared");
        for (name, o) in copies(bag) {
            let what = |n: &str| format!("{name} of failing {} ({}): {n}", s.describe(), info.name);
            consume(ctx, &o.by_ref(), shared && through_serde(&s), rng, &what);
        }
    });
}

fn consume(ctx: &mut Ctx, bag: &ValueBag, serde: bool, rng: &mut Rng, what: &dyn Fn(&str) -> String) {
    {
        let before = light(bag);
        let mut faults = 0;

        // Serializers
        for hr in [true, false] {
            let mut r = recserde::Rec::new();
            r.human_readable = hr;
            let whole = recserde::run(bag, &mut r);
            for k in points(rng, r.calls) {
                let mut f = recserde::Rec::failing(k);
                f.human_readable = hr;
                let got = recserde::run(bag, &mut f);
                faults += 1;
                ctx.check(got.is_err(), || what(&format!("the serializer failed at call {k}, the bag succeeded")));
                ctx.check(f.failed, || what(&format!("the serializer wasn't called for the {k}th time")));
                let after = f.after_failure;
                ctx.check(after == 0, || what(&format!("{after} calls on the serializer after it failed at call {k}")));
                if let (Err(got), Ok(whole)) = (&got, &whole) {
                    ctx.check(whole.starts_with(got), || what(&format!("calls {got:?} before the failure at {k}")));
                }
            }
        }
        // Streams
        let mut r = recsval::Rec::new();
        let _ = value_bag_sval2::lib::stream(&mut r, bag);
        for k in points(rng, r.calls) {
            let mut f = recsval::Rec::failing(k);
            let got = value_bag_sval2::lib::stream(&mut f, bag);
            faults += 1;
            ctx.check(got.is_err(), || what(&format!("the stream failed at call {k}, the bag succeeded")));
            ctx.check(f.failed, || what(&format!("the stream wasn't called for the {k}th time")));
            let after = f.after_failure;
            ctx.check(after == 0, || what(&format!("{after} calls on the stream after it failed at call {k}")));
        }
        // Text sinks. A marker of `serde_fmt` follows any failure, even of the sink itself.
        macro_rules! fmt {
            ($f:literal) => {{
                let mut n = nth(usize::MAX);
                let _ = write!(n, $f, bag);
                for k in points(rng, n.calls) {
                    let mut n = nth(k);
                    let got = write!(n, $f, bag);
                    faults += 1;
                    ctx.check(got.is_err(), || what(&format!("{}: the sink failed at call {k}, the bag succeeded", $f)));
                    let after = n.after;
                    ctx.check(after == 0 || serde, || what(&format!("{}: {after} writes after the sink failed at call {k}", $f)));
                }
                // Sinks of a limited size
                if let Ok(t) = text(format_args!($f, bag)) {
                    for k in points(rng, t.len()) {
                        let mut l = Limited::new(k);
                        let got = write!(l, $f, bag);
                        faults += 1;
                        ctx.check(got.is_err(), || what(&format!("{}: {} bytes in a sink of {k}", $f, t.len())));
                        let after = l.after_failure;
                        ctx.check(after == 0 || serde, || what(&format!("{}: {after} writes on a full sink", $f)));
                        ctx.check(t.starts_with(&l.text), || what(&format!("{}: wrote {:?} of {t:?}", $f, l.text)));
                    }
                }
            }};
        }
        fmt!("{}");
        fmt!("{:?}");
        if rng.one_in(4) {
            fmt!("{:#?}");
            fmt!("{:>70}");
        }
        // Visitors
        let mut on_any = |_: &ValueBag| ();
        let mut v = Full::new(true, &mut on_any);
        let r = bag.visit(&mut v);
        let calls = v.calls.len();
        if calls > 0 {
            let m = r.err().map(|e| e.to_string());
            ctx.eq(&m.as_deref(), &Some(FAIL_MSG), || what("the visitor's error"));
        }
        ctx.check(calls <= 1, || what(&format!("{calls} callbacks of a failing visitor")));
        // And none the worse
        ctx.judgements += 20;
        if let Some(d) = diff_light(&before, &light(bag)) {
            ctx.violate(what(&format!("after failures of the consumer: {d}")));
        }
        ctx.count_by("failures of the consumer", faults);
        ctx.eval(faults == 0, &what(""));
    }
}

pub fn run(ctx: &mut Ctx) -> &'static str {
    let n = ctx.count(3, 1500, 20000);
    ctx.cases("failing values", n, |ctx, i, rng| {
        let data = match i % 7 {
            0 => Data::Debug(U::gen_text(rng)),
            1 => Data::Display(U::gen_text(rng)),
            2 => Data::Error(U::gen_error(rng)),
            3 | 4 => Data::Sval(U::gen_data(rng, 3, Dom::SVAL.bags())),
            _ => Data::Serde(U::gen_data(rng, 3, Dom::SERDE.bags())),
        };
        producer(ctx, &data, rng);
    });
    let n = ctx.count(3, 2000, 20000);
    ctx.cases("failing elements", n, |ctx, _, rng| sequences(ctx, rng));
    let n = ctx.count(4, 4000, 60000);
    ctx.cases("failing consumers", n, |ctx, _, rng| {
        let s = if rng.one_in(3) {
            let data = if rng.bool() {
                Data::Sval(U::gen_data(rng, 3, Dom::SVAL.bags()))
            } else {
                Data::Serde(U::gen_data(rng, 3, Dom::SERDE.bags().cross()))
            };
            Subject::routed(rng, data)
        } else {
            Subject::gen(rng)
        };
        consumer(ctx, &s, rng)
    });
    let n = ctx.count(3, 1500, 15000);
    ctx.cases("failing consumers of markers", n, |ctx, _, rng| marker(ctx, rng));
    let n = ctx.count(3, 600, 6000);
    ctx.cases("failing causes", n, |ctx, _, rng| {
        // The failure is further down the chain of causes
        let mut top = U::gen_error(rng);
        if top.cause.is_none() {
            let c = U::gen_text(rng);
            top.cause = Some(Box::new(c));
        }
        let n = top.chain_text().len();
        let at = 1 + rng.below(n - 1);
        let mut cur = &mut top;
        for _ in 0..at {
            cur = cur.cause.as_mut().unwrap();
        }
        cur.fail_fmt = Some(rng.below(cur.frags.len() + 2));
        let want = top.chain_text();
        let data = Data::Error(top);
        for route in 0..data.routes() {
            let s = Subject {
                data: data.clone(),
                route,
                wrap: Wrap::Plain,
            };
            s.with(&mut |info: &Info, bag: &ValueBag| {
                let what = |n: &str| format!("{} ({}), cause {at} fails: {n}", s.describe(), info.name);
                ctx.eq(&text(format_args!("{bag}")), &Ok(want[0].clone()), || what("Display"));
                for (name, o) in copies(bag) {
                    let b = o.by_ref();
                    ctx.eq(&text(format_args!("{b}")), &Ok(want[0].clone()), || what(&format!("{name}: Display")));
                    let Some(e) = b.to_borrowed_error() else {
                        ctx.violate(what(&format!("{name}: not an error")));
                        continue;
                    };
                    let got = crate::recvisit::chain(e);
                    ctx.check(got.len() == want.len(), || what(&format!("{name}: the chain {got:?}")));
                    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
                        if i != at {
                            ctx.eq(g, w, || what(&format!("{name}: cause {i}")));
                        } else if !info.shared && !info.name.contains("shared") {
                            ctx.check(marked(&Ok(g.clone())), || what(&format!("{name}: the failing cause says {g:?}")));
                        }
                    }
                }
                ctx.count_up("failing causes");
                ctx.eval(false, &what(""));
            });
        }
    });
    let _ = short::<u8>;
    "distinct (value, place of its failure, capture route) triples, and values consumed by a consumer that fails at every one of its calls"
}
