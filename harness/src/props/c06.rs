//! Streaming through sval preserves the captured structure.

use value_bag::ValueBag;
use value_bag_sval2::lib_ref::ValueRef;

use crate::{
    ctx::Ctx,
    model::{transparently, Dom, M},
    obs::unborrow_v,
    prim::{Class, Prim},
    recsval::{self, balanced, plain, V},
    rng::Rng,
    subject::{Data, Seq, Subject, Wrap},
    user::U,
};

type Trace = Result<Vec<V>, Vec<V>>;

const HANDLES: [Wrap; 6] = [
    Wrap::Plain,
    Wrap::ByRef,
    Wrap::Clone,
    Wrap::Owned,
    Wrap::Shared,
    Wrap::IntoShared,
];

fn trace_ref(bag: &ValueBag) -> Trace {
    let mut r = recsval::Rec::new();
    let res = bag.stream_ref(&mut r);
    recsval::finish(res, r)
}

fn unborrow(t: Trace) -> Trace {
    t.map(unborrow_v).map_err(unborrow_v)
}

fn judge_balance(ctx: &mut Ctx, t: &Trace, what: &dyn Fn(&str) -> String) {
    if let Ok(v) = t {
        let b = balanced(v);
        ctx.check(b.is_ok(), || what(&format!("unbalanced: {b:?}")));
    }
}

fn handle(ctx: &mut Ctx, bag: &ValueBag, what: &dyn Fn(&str) -> String) {
    let o = bag.to_owned();
    let t = unborrow(recsval::trace(&o));
    ctx.eq(&t, &unborrow(recsval::trace(&o.by_ref())), || what("owned bag"));
    judge_balance(ctx, &t, what);
    ctx.count_up("owned handles");
}

fn structured(ctx: &mut Ctx, rng: &mut Rng, m: M) {
    let mut u = U::gen_text(rng);
    u.m = m;
    let data = Data::Sval(u);
    let Data::Sval(u) = &data else { unreachable!() };
    let want = transparently(|| recsval::trace(&u.m));
    let want_loose = unborrow(want.clone());
    let fragments = u.m.any(&|m| matches!(m, M::BagText(_)));
    for route in 0..data.routes() {
        for wrap in HANDLES {
            let s = || {
                Subject {
                    data: data.clone(),
                    route,
                    wrap,
                }
                .describe()
            };
            let in_place = data.borrowing_route(route);
            data.with(route, wrap, &mut |info, bag| {
                let what = |n: &str| format!("{} ({}): {n}", s(), info.name);
                let got = recsval::trace(bag);
                judge_balance(ctx, &got, &what);
                if info.buffered {
                    if rng.one_in(4) {
                        handle(ctx, bag, &what);
                    }
                    return;
                }
                let by_ref = trace_ref(bag);
                if fragments {
                    // How text that's formatted gets split up isn't promised
                    let p = |t: &Trace| t.as_ref().map(|v| plain(v)).map_err(|v| plain(v));
                    ctx.eq(&p(&got), &p(&want), || what("events"));
                    ctx.eq(&p(&by_ref), &p(&want), || what("events by reference"));
                } else if in_place {
                    ctx.eq(&got, &want, || what("events"));
                    ctx.eq(&by_ref, &want, || what("events by reference"));
                } else {
                    ctx.eq(&unborrow(got), &want_loose, || what("events"));
                    ctx.eq(&unborrow(by_ref), &want_loose, || what("events by reference"));
                }
                if info.shared {
                    let o = bag.to_owned();
                    let got = recsval::trace(&o).map(|v| plain(&v)).map_err(|v| plain(&v));
                    let want = want.as_ref().map(|v| plain(v)).map_err(|v| plain(v));
                    ctx.eq(&got, &want, || what("events of an owned handle"));
                }
                let n = want.as_ref().map_or(0, |v| v.len() as u64);
                ctx.count_by("stream events compared", n);
                if in_place && !fragments {
                    let n = want.as_ref().map_or(0, |v| {
                        v.iter().filter(|e| matches!(e, V::Text(_, Some(_)))).count() as u64
                    });
                    ctx.count_by("borrowed fragments located", n);
                }
                ctx.eval(false, &format!("{want_loose:?} {} {wrap:?}", info.name));
            });
        }
    }
}

fn primitive(ctx: &mut Ctx, p: &Prim) {
    p.routes(&mut |route, bag| {
        let what = |n: &str| format!("{p:?} via {}: {n}", route.name);
        let got = recsval::trace(bag);
        judge_balance(ctx, &got, &what);
        if route.class != Class::Direct || route.owned {
            return;
        }
        if let (Prim::Str(s), true, Ok(v)) = (p, route.by_ref, &got) {
            // Borrowed text stays borrowed, and in place
            let at: Vec<_> = v
                .iter()
                .filter_map(|e| match e {
                    V::Text(t, at) => Some((t.len(), *at)),
                    _ => None,
                })
                .collect();
            let ok = match &*at {
                [(n, Some(_))] => *n == s.len(),
                [] => s.is_empty(),
                _ => false,
            };
            ctx.check(ok, || what("text isn't borrowed"));
            if let (Some((_, Some(at))), Some(b)) = (at.first(), bag.to_borrowed_str()) {
                ctx.eq(at, &(b.as_ptr() as usize), || what("address of the text"));
            }
        }
        ctx.eq(&got.map(|v| plain(&v)), &Ok(p.sval()), || what("events"));
        ctx.eq(&trace_ref(bag).map(|v| plain(&v)), &Ok(p.sval()), || what("events by reference"));
        ctx.eval(false, &what(""));
    });
}

fn text_and_sequences(ctx: &mut Ctx, rng: &mut Rng) {
    let data = match rng.below(6) {
        0 => Data::Debug(U::gen_text(rng)),
        1 => Data::Display(U::gen_text(rng)),
        2 => Data::Error(U::gen_error(rng)),
        _ => Data::Seq(Seq::gen(rng)),
    };
    let want = match &data {
        Data::Debug(u) => vec![V::Text(u.debug_text(), None)],
        Data::Display(u) | Data::Error(u) => vec![V::Text(u.display_text(), None)],
        Data::Seq(s) => {
            let mut v = vec![V::SeqBegin(None)];
            let mut kinds = s.kinds().into_iter();
            s.each(&mut |_, e| {
                v.push(V::ElemBegin);
                let t = recsval::trace(e).map(|v| plain(&v)).unwrap_or_else(|_| panic!("an element failed"));
                if let (Some(k), [t]) = (kinds.next(), &*t) {
                    if let Some(want) = k.sval_is(t) {
                        ctx.check(want, || format!("element {k:?} of {s:?} streams as {t:?}"));
                    }
                }
                v.extend(t);
                v.push(V::ElemEnd);
            });
            v.push(V::SeqEnd);
            v
        }
        _ => unreachable!(),
    };
    for route in 0..data.routes() {
        let s = Subject {
            data: data.clone(),
            route,
            wrap: *rng.pick(&HANDLES),
        };
        s.with(&mut |info, bag| {
            let what = |n: &str| format!("{} ({}): {n}", s.describe(), info.name);
            let got = recsval::trace(bag);
            judge_balance(ctx, &got, &what);
            if info.buffered {
                return handle(ctx, bag, &what);
            }
            let got = got.map(|v| plain(&v));
            ctx.eq(&got, &Ok(want.clone()), || what("events"));
            let by_ref = trace_ref(bag).map(|v| plain(&v));
            ctx.eq(&by_ref, &Ok(want.clone()), || what("events by reference"));
            ctx.eval(false, &what(""));
        });
    }
}

/// Whatever crosses over is still balanced.
fn crossing(ctx: &mut Ctx, rng: &mut Rng) {
    let data = Data::Serde(U::gen_data(rng, 4, Dom::SERDE.bags()));
    let s = Subject::routed(rng, data);
    s.with(&mut |info, bag| {
        let what = |n: &str| format!("{} ({}): {n}", s.describe(), info.name);
        let got = recsval::trace(bag);
        judge_balance(ctx, &got, &what);
        let t = trace_ref(bag);
        judge_balance(ctx, &t, &what);
        ctx.check(got.is_ok(), || what("streaming failed"));
        ctx.eval(false, &what("balance"));
    });
}

pub fn run(ctx: &mut Ctx) -> &'static str {
    let n = ctx.count(3, 2000, 30000);
    ctx.cases("primitives", n, |ctx, _, rng| {
        let p = Prim::gen(rng);
        primitive(ctx, &p)
    });
    let n = ctx.count(6, 5000, 90000);
    ctx.cases("structures", n, |ctx, i, rng| {
        let d = if i % 3 == 0 { Dom::SVAL.bags() } else { Dom::SVAL };
        let m = M::gen(rng, 2 + (i % 5) as usize, d);
        structured(ctx, rng, m)
    });
    let n = ctx.count(2, 1000, 15000);
    ctx.cases("scalars", n, |ctx, _, rng| {
        let m = M::scalar(rng, Dom::SVAL.bags());
        structured(ctx, rng, m)
    });
    let n = ctx.count(4, 4000, 60000);
    ctx.cases("text and sequences", n, |ctx, _, rng| text_and_sequences(ctx, rng));
    let n = ctx.count(1, 3000, 40000);
    ctx.cases("crossing", n, |ctx, _, rng| crossing(ctx, rng));
    "distinct (value, capture route, handle) triples whose stream events were compared with those of the captured value itself"
}
