//! Every way of capturing a primitive gives the same value.

use value_bag::{test::TestToken, ValueBag};

use crate::{
    ctx::Ctx,
    fmtspec,
    obs::{text, visit_of, widen_c, widen_s, widen_v},
    prim::{casts_of, other_conversions, Class, Prim, K},
    recserde,
    recsval,
    recvisit::C,
    rng::Rng,
};

fn token(bag: &ValueBag) -> K {
    match bag.to_test_token() {
        TestToken::U64(v) => K::U(v as u128),
        TestToken::I64(v) => K::I(v as i128),
        TestToken::F64(v) => K::F(recserde::Fb(v)),
        TestToken::U128(v) => K::U(v),
        TestToken::I128(v) => K::I(v),
        TestToken::Char(v) => K::C(v),
        TestToken::Bool(v) => K::B(v),
        TestToken::Str(v) => K::S(v),
        TestToken::None => K::N,
        t => K::S(format!("<unexpected token {t:?}>")),
    }
}

fn judge(ctx: &mut Ctx, p: &Prim, rng: &mut Rng) {
    let casts = p.kind().casts();
    let none = matches!(p, Prim::None(_));
    let w = rng.below(40);
    let pr = rng.below(20);
    let (dbg, disp) = if none {
        let n = || Ok("None".to_owned());
        (vec![("{:?}", n())], vec![("{}", n())])
    } else {
        p.formats(|d, s| (fmtspec::debug(d, w, pr), fmtspec::display(s, w, pr)))
    };
    let mut routes = 0;
    p.routes(&mut |route, bag| {
        if route.class != Class::Direct {
            return;
        }
        routes += 1;
        let what = |n: &str| format!("{p:?} via {}: {n}", route.name);
        ctx.eq(&casts_of(bag), &casts, || what("conversions"));
        if let Err(e) = other_conversions(bag, &casts) {
            ctx.violate(what(&e));
        }
        ctx.eq(&bag.is_empty(), &(none && !route.fill), || what("is_empty"));
        if none {
            ctx.eq(&text(format_args!("{bag:?}")), &dbg[0].1, || what("{:?}"));
            ctx.eq(&text(format_args!("{bag}")), &disp[0].1, || what("{}"));
        } else {
            for (got, want) in fmtspec::debug(bag, w, pr).iter().zip(&dbg) {
                // A wider negative integer has more leading hex digits
                if route.owned && matches!(p.kind(), K::I(v) if v < 0) && want.0.contains(['x', 'X']) {
                    continue;
                }
                ctx.eq(&got.1, &want.1, || what(&format!("{} w={w} p={pr}", want.0)));
            }
            for (got, want) in fmtspec::display(bag, w, pr).iter().zip(&disp) {
                ctx.eq(&got.1, &want.1, || what(&format!("{} w={w} p={pr}", want.0)));
            }
        }
        // Buffering may widen integers
        let s = recserde::trace(bag);
        let want = p.serde();
        if route.owned {
            let s = s.map(|v| v.into_iter().map(widen_s).collect());
            ctx.eq(&s, &Ok(vec![widen_s(want)]), || what("serde"));
        } else {
            ctx.eq(&s, &Ok(vec![want]), || what("serde"));
        }
        let v = recsval::trace(bag).map(|v| recsval::plain(&v));
        if route.owned {
            let v = v.map(|v| v.into_iter().map(widen_v).collect::<Vec<_>>());
            ctx.eq(&v, &Ok(p.sval().into_iter().map(widen_v).collect()), || what("sval"));
        } else {
            ctx.eq(&v, &Ok(p.sval()), || what("sval"));
        }
        let (calls, ok) = visit_of(bag);
        let calls: Vec<C> = calls
            .into_iter()
            .map(|c| match c {
                C::BorrowedStr(s, _) => C::Str(s),
                c => c,
            })
            .map(|c| if route.owned { widen_c(c) } else { c })
            .collect();
        let want = if route.owned {
            widen_c(p.visit())
        } else {
            p.visit()
        };
        ctx.eq(&calls, &vec![want], || what("visit"));
        ctx.check(ok, || what("visit failed"));
        ctx.eq(&token(bag), &p.kind(), || what("test token"));
        ctx.check(bag.to_borrowed_error().is_none(), || what("is an error"));
        ctx.check(bag.to_u64_seq::<Vec<Option<u64>>>().is_none(), || {
            what("is a sequence")
        });
        ctx.count_up(if route.fill { "filled" } else if route.owned { "buffered" } else { "captured" });
        ctx.eval(false, &format!("{p:?} via {}", route.name));
    });
    ctx.check(routes > 5, || format!("{p:?}: only {routes} routes"));
}

pub fn run(ctx: &mut Ctx) -> &'static str {
    let n = ctx.count(1, 18, 18);
    ctx.cases("none", n, |ctx, i, rng| judge(ctx, &Prim::None(i as u8), rng));
    let n = ctx.count(1, 256, 256);
    ctx.cases("bytes", n, |ctx, i, rng| {
        judge(ctx, &Prim::U8(i as u8), rng);
        judge(ctx, &Prim::I8(i as u8 as i8), rng);
    });
    let n = ctx.count(2, 330, 330);
    ctx.cases("lengths", n, |ctx, i, rng| {
        let t = crate::gen::text_of(rng, i as usize);
        judge(ctx, &Prim::Str(t), rng)
    });
    let n = ctx.count(5, 9000, 150000);
    ctx.cases("random", n, |ctx, _, rng| {
        let p = Prim::gen(rng);
        judge(ctx, &p, rng)
    });
    "distinct (primitive, capture route) pairs whose casts, emptiness, formatting, serde, sval and visitor observations all agreed with the primitive"
}
