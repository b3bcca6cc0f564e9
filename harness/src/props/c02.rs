//! Text, char and bool come back exactly and only as themselves.

use std::borrow::Cow;

use value_bag::ValueBag;

use crate::{
    ctx::Ctx,
    gen,
    model::M,
    prim::{casts_of, is_known, other_conversions, Class, Prim, K},
    rng::Rng,
    subject::{Data, Subject, WRAPS},
    user::U,
};

fn judge(ctx: &mut Ctx, p: &Prim) {
    p.routes(&mut |route, bag| {
        let expect = p.kind_via(route.class).casts();
        let got = casts_of(bag);
        let what = |n: &str| format!("{p:?} via {}: {n}", route.name);
        ctx.eq(&got, &expect, || what("conversions"));
        if let Err(e) = other_conversions(bag, &expect) {
            ctx.violate(what(&e));
        }
        if let Some(s) = &expect.str {
            let borrowed = bag.to_borrowed_str();
            if route.by_ref && !route.owned && route.class != Class::Serde && matches!(p, Prim::Str(_)) {
                ctx.check(borrowed.is_some(), || what("no borrowed text"));
            }
            judge_text(ctx, bag, s, !route.owned && route.by_ref, &what);
        } else {
            ctx.check(bag.to_borrowed_str().is_none() && bag.to_str().is_none(), || {
                what("read as text")
            });
        }
        ctx.count_up(&format!("class {:?}", route.class));
        ctx.eval(false, &format!("{p:?} via {}", route.name));
    });
}

/// Text handed out borrowed lives in the captured data.
fn judge_text(ctx: &mut Ctx, bag: &ValueBag, s: &str, known: bool, what: &dyn Fn(&str) -> String) {
    let borrowed = bag.to_borrowed_str();
    if let Some(b) = borrowed {
        ctx.eq(&b, &s, || what("borrowed text"));
        ctx.check(
            bag.to_borrowed_str().map(|b| b.as_ptr()) == Some(b.as_ptr()),
            || what("borrowed text moves"),
        );
        if known && !s.is_empty() {
            ctx.check(is_known(b), || what("borrowed text isn't the captured text"));
            ctx.count_up("borrowed text located in the captured data");
        }
    }
    match bag.to_str() {
        Some(Cow::Borrowed(b)) => {
            ctx.eq(&b, &s, || what("borrowed cow"));
            if known && !s.is_empty() {
                ctx.check(is_known(b), || what("borrowed cow isn't the captured text"));
            }
            ctx.count_up("text returned without a copy");
        }
        Some(Cow::Owned(o)) => {
            ctx.eq(&o.as_str(), &s, || what("owned cow"));
            ctx.count_up("text returned as a copy");
        }
        None => {
            ctx.violate(what("not read as text"));
        }
    }
}

fn pointers(m: &M, out: &mut Vec<(usize, usize)>) {
    match m {
        M::Str(s) => out.push((s.as_ptr() as usize, s.len())),
        M::Frags(v) => out.extend(v.iter().map(|s| (s.as_ptr() as usize, s.len()))),
        M::SvText(v, _) => out.extend(v.iter().map(|s| (s.0.as_ptr() as usize, s.0.len()))),
        M::Some(m) | M::SvTagged(_, m) | M::SvHint(_, m) => pointers(m, out),
        _ => (),
    }
}

/// Text that's produced piece by piece, through every route and handle.
fn fragments(ctx: &mut Ctx, rng: &mut Rng, n: usize) {
    let t = gen::text_of(rng, n);
    let frags = gen::fragments(rng, &t);
    let sval = rng.bool();
    let mut m = if sval && rng.bool() {
        M::SvText(frags.into_iter().map(|f| (f, rng.bool())).collect(), rng.bool())
    } else if rng.one_in(3) {
        M::Str(t.clone())
    } else {
        M::Frags(frags)
    };
    for _ in 0..rng.below(3) {
        m = M::Some(Box::new(m));
        if sval && rng.bool() {
            m = M::SvTagged(crate::model::Tg::gen(rng, None, None), Box::new(m));
        }
    }
    let mut u = U::gen_text(rng);
    u.m = m;
    let data = if sval { Data::Sval(u) } else { Data::Serde(u) };
    let mut known = Vec::new();
    match &data {
        Data::Sval(u) | Data::Serde(u) => pointers(&u.m, &mut known),
        _ => (),
    }
    let expect = K::S(t.clone()).casts();
    for route in 0..data.routes() {
        for wrap in WRAPS {
            let s = Subject {
                data: data.clone(),
                route,
                wrap,
            };
            // The clone's text lives elsewhere
            let in_place = data.borrowing_route(route);
            data.with(route, wrap, &mut |info, bag| {
                let what = |n: &str| format!("{} ({}): {n}", s.describe(), info.name);
                ctx.eq(&casts_of(bag), &expect, || what("conversions"));
                if let Err(e) = other_conversions(bag, &expect) {
                    ctx.violate(what(&e));
                }
                judge_text(ctx, bag, &t, false, &what);
                if in_place && !info.buffered && !info.shared && !t.is_empty() {
                    let inside = |b: &str| {
                        known.iter().any(|(p, n)| {
                            b.as_ptr() as usize >= *p && b.as_ptr() as usize + b.len() <= p + n
                        })
                    };
                    if let Some(b) = bag.to_borrowed_str() {
                        ctx.check(inside(b), || what("borrowed text isn't the captured text"));
                    }
                    if let Some(Cow::Borrowed(b)) = bag.to_str() {
                        ctx.check(inside(b), || what("borrowed cow isn't the captured text"));
                    }
                }
                ctx.eval(false, &format!("{} {}", s.describe(), info.name));
            });
        }
    }
    ctx.count_up("fragmented text");
}

pub fn run(ctx: &mut Ctx) -> &'static str {
    let n = ctx.count(2, 2, 2);
    ctx.cases("bools", n, |ctx, i, _| judge(ctx, &Prim::Bool(i == 1)));
    // Every length, in several alphabets
    let n = ctx.count(5, 4 * 330, 4 * 330);
    let step = 4 * 330 / n;
    ctx.cases("lengths", n, |ctx, i, rng| {
        let s = gen::text_of(rng, (i * step / 4) as usize);
        judge(ctx, &Prim::Str(s));
    });
    let n = ctx.count(3, 2000, 30000);
    ctx.cases("text", n, |ctx, _, rng| {
        let s = gen::text(rng);
        judge(ctx, &Prim::Str(s));
        let c = gen::chr(rng);
        judge(ctx, &Prim::Char(c));
    });
    // Every char
    let n = ctx.count(2, 1500, 0x110000);
    ctx.cases("chars", n, |ctx, i, rng| {
        let c = if n == 0x110000 {
            char::from_u32(i as u32)
        } else {
            Some(gen::chr(rng))
        };
        if let Some(c) = c {
            judge(ctx, &Prim::Char(c));
        }
    });
    let n = ctx.count(1, 1500, 20000);
    ctx.cases("fragments", n, |ctx, i, rng| {
        let n = if i < 600 {
            i as usize / 4
        } else {
            gen::len(rng)
        };
        fragments(ctx, rng, n)
    });
    // Other kinds are never read as text, char or bool
    let n = ctx.count(4, 1500, 20000);
    ctx.cases("other kinds", n, |ctx, _, rng| {
        let p = Prim::number(rng);
        judge(ctx, &p);
        let s = Subject::gen_non_scalar(rng);
        s.with(&mut |info, bag| {
            ctx.check(
                bag.to_str().is_none()
                    && bag.to_borrowed_str().is_none()
                    && bag.to_char().is_none()
                    && bag.to_bool().is_none(),
                || format!("{} ({}): read as text, char or bool", s.describe(), info.name),
            );
            ctx.eval(false, &s.describe());
        });
    });
    "distinct (value, capture route, handle) triples whose text, char and bool reads were compared with the captured value and located in memory"
}
