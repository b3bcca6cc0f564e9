//! A value captured with one framework reads the same through the other.

use value_bag_serde1::json as serde_json;
use value_bag_sval2::json as sval_json;

use crate::{
    ctx::{short, Ctx},
    json::{self, J},
    model::{transparently, Dom, M},
    obs::{widen_s, widen_v},
    recserde::{self, S},
    recsval::{self, plain, V},
    prim::{Prim, K},
    rng::Rng,
    subject::{Data, Seq, Subject, WRAPS},
    user::U,
};

/// The data of a stream: no hints, no fragments, integers of any width.
fn stream_data(t: Result<Vec<V>, Vec<V>>) -> Result<Vec<V>, ()> {
    t.map(|v| plain(&v).into_iter().map(widen_v).collect()).map_err(|_| ())
}

fn serde_data(t: Result<Vec<S>, Vec<S>>) -> Result<Vec<S>, ()> {
    t.map(|v| {
        v.into_iter()
            .map(|e| match e {
                S::Seq(_) => S::Seq(None),
                S::Map(_) => S::Map(None),
                e => widen_s(e),
            })
            .collect()
    })
    .map_err(|_| ())
}

struct Bridge<'a>(&'a M);

impl<'a> value_bag_serde1::lib::Serialize for Bridge<'a> {
    fn serialize<T: value_bag_serde1::lib::Serializer>(&self, s: T) -> Result<T::Ok, T::Error> {
        value_bag_sval2::serde1::serialize(s, self.0)
    }
}

impl<'a> value_bag_sval2::lib::Value for Bridge<'a> {
    fn stream<'sval, T: value_bag_sval2::lib::Stream<'sval> + ?Sized>(
        &'sval self,
        s: &mut T,
    ) -> value_bag_sval2::lib::Result {
        value_bag_sval2::serde1::stream(s, self.0)
    }
}

type Doc = Option<Result<J, String>>;

fn doc(s: Option<String>) -> Doc {
    s.map(|s| json::parse(&s).map_err(|e| format!("{e}: {s}")))
}

fn serde_doc<T: value_bag_serde1::lib::Serialize + ?Sized>(v: &T) -> Doc {
    doc(serde_json::to_string(v).ok())
}

fn sval_doc<T: value_bag_sval2::lib::Value + ?Sized>(v: &T) -> Doc {
    doc(sval_json::stream_to_string(v).ok())
}

fn bridged(ctx: &mut Ctx, rng: &mut Rng, m: M, sval: bool) {
    let (mut want_sval, mut want_serde) = (Err(()), Err(()));
    transparently(|| {
        if sval {
            want_serde = serde_data(recserde::trace(&Bridge(&m)));
        } else {
            want_sval = stream_data(recsval::trace(&Bridge(&m)));
        }
    });
    let mut u = U::gen_text(rng);
    u.m = m;
    let data = if sval { Data::Sval(u) } else { Data::Serde(u) };
    for route in 0..data.routes() {
        for wrap in WRAPS {
            if rng.one_in(2) {
                continue;
            }
            let s = Subject {
                data: data.clone(),
                route,
                wrap,
            };
            s.with(&mut |info, bag| {
                let what = |n: &str| format!("{} ({}): {n}", s.describe(), info.name);
                if sval && info.buffered && want_serde.is_err() {
                    // A buffered value knows its size, which makes more of them expressible
                    ctx.count_up("not expressible until buffered");
                } else if sval {
                    ctx.eq(&serde_data(recserde::trace(bag)), &want_serde, || what("serde"));
                } else {
                    ctx.eq(&stream_data(recsval::trace(bag)), &want_sval, || what("sval"));
                }
                ctx.eval(false, &what(""));
            });
        }
    }
}

/// What must be written for a value that goes over to the other framework: the same document,
/// or whatever the frameworks' own bridge makes of it when it can't say the same.
fn over(ctx: &mut Ctx, m: &M, direct: &Doc, bridge: Doc) -> Doc {
    if bridge == *direct {
        ctx.count_up("documents the same on both sides");
        return bridge;
    }
    if matches!((direct, &bridge), (Some(Ok(_)), Some(Err(_)))) {
        ctx.known("nested-sval-through-serde-json", || {
            format!("{} is written as invalid JSON by the bridge: {bridge:?}", short(m))
        });
        ctx.count_up("documents the bridge can't write");
    } else {
        ctx.count_up("documents the bridge changes");
    }
    bridge
}

fn documents(ctx: &mut Ctx, rng: &mut Rng, m: M) {
    let serde = transparently(|| serde_doc(&m));
    let sval = transparently(|| sval_doc(&m));
    let b = transparently(|| serde_doc(&Bridge(&m)));
    let serde_over = over(ctx, &m, &sval, b);
    let b = transparently(|| sval_doc(&Bridge(&m)));
    let sval_over = over(ctx, &m, &serde, b);
    let same = serde_over == sval;
    for is_sval in [false, true] {
        let mut u = U::gen_text(rng);
        u.m = m.clone();
        let (data, want_serde, want_sval) = if is_sval {
            (Data::Sval(u), &serde_over, &sval)
        } else {
            (Data::Serde(u), &serde, &sval_over)
        };
        for route in 0..data.routes() {
            for wrap in WRAPS {
                if !rng.one_in(3) {
                    continue;
                }
                let s = Subject {
                    data: data.clone(),
                    route,
                    wrap,
                };
                s.with(&mut |info, bag| {
                    let what = |n: &str| format!("{} ({}): {n}", s.describe(), info.name);
                    if is_sval && !same && info.buffered {
                        // A buffered value has other size hints
                    } else {
                        ctx.eq(&serde_doc(bag), want_serde, || what("serde JSON"));
                    }
                    ctx.eq(&sval_doc(bag), want_sval, || what("sval JSON"));
                    ctx.eval(false, &what("JSON"));
                });
            }
        }
    }
}

/// Values that belong to neither framework are written the same by both.
fn plain_documents(ctx: &mut Ctx, rng: &mut Rng) {
    let p = Prim::gen(rng);
    let infinite = |p: &Prim| matches!(p.kind(), K::F(f) if !f.0.is_finite());
    // A captured f32 is kept as an f64, which has more digits
    if !infinite(&p) && !matches!(p, Prim::F32(_)) {
        let want = serde_doc(&p.model());
        p.routes(&mut |route, bag| {
            let what = |n: &str| format!("{p:?} via {}: {n}", route.name);
            ctx.eq(&serde_doc(bag), &want, || what("serde JSON"));
            ctx.eq(&sval_doc(bag), &want, || what("sval JSON"));
            ctx.eval(false, &what("JSON"));
        });
    }
    let seq = Seq::gen(rng);
    let mut serde = Vec::new();
    let mut sval = Vec::new();
    let mut same = true;
    seq.each(&mut |_, e| {
        let (a, b) = (serde_doc(e), sval_doc(e));
        same = same && matches!((&a, &b), (Some(Ok(a)), Some(Ok(b))) if a == b);
        serde.extend(a.and_then(|d| d.ok()));
        sval.extend(b.and_then(|d| d.ok()));
    });
    if same {
        for route in 0..Seq::ROUTES {
            let s = Subject {
                data: Data::Seq(seq.clone()),
                route,
                wrap: *rng.pick(&WRAPS),
            };
            s.with(&mut |info, bag| {
                let what = |n: &str| format!("{} ({}): {n}", s.describe(), info.name);
                if !info.buffered {
                    ctx.eq(&serde_doc(bag), &Some(Ok(J::Arr(serde.clone()))), || what("serde JSON"));
                }
                ctx.eq(&sval_doc(bag), &Some(Ok(J::Arr(sval.clone()))), || what("sval JSON"));
                ctx.eval(false, &what("JSON"));
            });
        }
    }
}

pub fn run(ctx: &mut Ctx) -> &'static str {
    let n = ctx.count(4, 4000, 60000);
    ctx.cases("documents", n, |ctx, i, rng| {
        let m = M::gen(rng, 1 + (i % 5) as usize, Dom::JSON.bags());
        documents(ctx, rng, m)
    });
    let n = ctx.count(4, 3000, 40000);
    ctx.cases("plain documents", n, |ctx, _, rng| plain_documents(ctx, rng));
    let n = ctx.count(4, 4000, 60000);
    ctx.cases("from serde", n, |ctx, i, rng| {
        let d = if i % 2 == 0 { Dom::BOTH.bags().cross() } else { Dom::SERDE };
        let m = M::gen(rng, 1 + (i % 5) as usize, d);
        bridged(ctx, rng, m, false)
    });
    let n = ctx.count(4, 4000, 60000);
    ctx.cases("from sval", n, |ctx, i, rng| {
        let d = if i % 2 == 0 { Dom::BOTH.bags().cross() } else { Dom::SVAL };
        let m = M::gen(rng, 1 + (i % 5) as usize, d);
        bridged(ctx, rng, m, true)
    });
    "distinct (value, framework it was captured with, capture route, handle) combinations consumed through the other framework"
}
