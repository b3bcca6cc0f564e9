//! Serializing through serde preserves the captured structure.

use value_bag::ValueBag;
use value_bag_serde1::json;

use crate::{
    ctx::Ctx,
    model::{transparently, Dom, M},
    prim::{Class, Prim},
    recserde::{self, S},
    rng::Rng,
    subject::{Data, Seq, Subject, Wrap},
    user::U,
};

const HANDLES: [Wrap; 6] = [
    Wrap::Plain,
    Wrap::ByRef,
    Wrap::Clone,
    Wrap::Owned,
    Wrap::Shared,
    Wrap::IntoShared,
];

fn json_of<T: value_bag_serde1::lib::Serialize + ?Sized>(v: &T) -> Option<String> {
    json::to_string(v).ok()
}

/// The events of a sequence, without a size hint.
fn unsized_root(t: Result<Vec<S>, Vec<S>>) -> Result<Vec<S>, Vec<S>> {
    t.map(|mut v| {
        if let Some(S::Seq(_)) = v.first() {
            v[0] = S::Seq(None);
        }
        v
    })
}

fn handle(ctx: &mut Ctx, bag: &ValueBag, what: &dyn Fn(&str) -> String) {
    let o = bag.to_owned();
    for hr in [true, false] {
        ctx.eq(&recserde::trace_hr(&o, hr), &recserde::trace_hr(&o.by_ref(), hr), || what("owned bag"));
    }
    ctx.count_up("owned handles");
}

fn structured(ctx: &mut Ctx, rng: &mut Rng, m: M) {
    let want = transparently(|| (recserde::trace_hr(&m, true), recserde::trace_hr(&m, false)));
    let want_json = transparently(|| json_of(&m));
    let mut u = U::gen_text(rng);
    u.m = m;
    let data = Data::Serde(u);
    for route in 0..data.routes() {
        for wrap in HANDLES {
            let s = Subject {
                data: data.clone(),
                route,
                wrap,
            };
            data.with(route, wrap, &mut |info, bag| {
                let what = |n: &str| format!("{} ({}): {n}", s.describe(), info.name);
                if info.buffered {
                    if rng.one_in(4) {
                        handle(ctx, bag, &what);
                    }
                    return;
                }
                ctx.eq(&recserde::trace_hr(bag, true), &want.0, || what("human-readable"));
                ctx.eq(&recserde::trace_hr(bag, false), &want.1, || what("compact"));
                ctx.eq(&json_of(bag), &want_json, || what("JSON"));
                if info.shared {
                    let o = bag.to_owned();
                    ctx.eq(&recserde::trace_hr(&o, true), &want.0, || what("owned handle, human-readable"));
                    ctx.eq(&recserde::trace_hr(&o, false), &want.1, || what("owned handle, compact"));
                }
                ctx.count_by("serializer calls compared", want.0.as_ref().map_or(0, |v| v.len() as u64));
                ctx.eval(false, &what(""));
            });
        }
    }
}

fn primitive(ctx: &mut Ctx, p: &Prim) {
    p.routes(&mut |route, bag| {
        if route.class != Class::Direct || route.owned {
            return;
        }
        let what = |n: &str| format!("{p:?} via {}: {n}", route.name);
        ctx.eq(&recserde::trace(bag), &Ok(vec![p.serde()]), || what("calls"));
        ctx.eq(&recserde::trace_hr(bag, false), &Ok(vec![p.serde()]), || what("compact calls"));
        ctx.eval(false, &what(""));
    });
}

fn text_and_sequences(ctx: &mut Ctx, rng: &mut Rng) {
    let data = match rng.below(6) {
        0 => Data::Debug(U::gen_text(rng)),
        1 => Data::Display(U::gen_text(rng)),
        2 => Data::Error(U::gen_error(rng)),
        _ => Data::Seq(Seq::gen(rng)),
    };
    let want = match &data {
        Data::Debug(u) => Ok(vec![S::Str(u.debug_text())]),
        Data::Display(u) | Data::Error(u) => Ok(vec![S::Str(u.display_text())]),
        Data::Seq(s) => {
            let mut v = vec![S::Seq(None)];
            let mut kinds = s.kinds().into_iter();
            let mut failed = false;
            s.each(&mut |_, e| {
                v.push(S::Elem);
                // Some sval shapes aren't expressible in serde
                let t = recserde::trace(e);
                // Scalars are known without looking at the element
                if let (Some(k), Ok([t])) = (kinds.next(), t.as_deref()) {
                    if let Some(want) = k.serde_is(t) {
                        ctx.check(want, || format!("element {k:?} of {s:?} serializes as {t:?}"));
                    }
                }
                v.extend(t.unwrap_or_else(|v| {
                    failed = true;
                    v
                }));
            });
            v.push(S::End);
            if failed {
                Err(v)
            } else {
                Ok(v)
            }
        }
        _ => unreachable!(),
    };
    for route in 0..data.routes() {
        let s = Subject {
            data: data.clone(),
            route,
            wrap: *rng.pick(&HANDLES),
        };
        s.with(&mut |info, bag| {
            let what = |n: &str| format!("{} ({}): {n}", s.describe(), info.name);
            if info.buffered {
                return handle(ctx, bag, &what);
            }
            let got = unsized_root(recserde::trace(bag));
            if want.is_err() {
                ctx.check(got.is_err(), || what("success in spite of a failing element"));
            } else {
                ctx.eq(&got, &want, || what("calls"));
            }
            ctx.eval(false, &what(""));
        });
    }
}

pub fn run(ctx: &mut Ctx) -> &'static str {
    let n = ctx.count(3, 2000, 30000);
    ctx.cases("primitives", n, |ctx, _, rng| {
        let p = Prim::gen(rng);
        primitive(ctx, &p)
    });
    let n = ctx.count(6, 6000, 120000);
    ctx.cases("structures", n, |ctx, i, rng| {
        let d = if i % 3 == 0 { Dom::SERDE.bags() } else { Dom::SERDE };
        let m = M::gen(rng, 2 + (i % 5) as usize, d);
        structured(ctx, rng, m)
    });
    let n = ctx.count(2, 1000, 15000);
    ctx.cases("scalars", n, |ctx, _, rng| {
        let m = M::scalar(rng, Dom::SERDE.bags());
        structured(ctx, rng, m)
    });
    let n = ctx.count(4, 4000, 60000);
    ctx.cases("text and sequences", n, |ctx, _, rng| text_and_sequences(ctx, rng));
    "distinct (value, capture route, handle) triples whose serializer calls were compared with those of the captured value itself"
}
