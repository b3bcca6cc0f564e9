//! Numeric conversions are exact or refused.

use crate::{
    ctx::Ctx,
    gen,
    prim::{casts_of, other_conversions, Prim, K},
};

fn judge(ctx: &mut Ctx, p: &Prim) {
    let number = matches!(p.kind(), K::U(_) | K::I(_) | K::F(_));
    p.routes(&mut |route, bag| {
        let expect = p.kind_via(route.class).casts();
        let got = casts_of(bag);
        let what = |n: &str| format!("{p:?} via {}: {n}", route.name);
        ctx.eq(&got.u64, &expect.u64, || what("to_u64"));
        ctx.eq(&got.i64, &expect.i64, || what("to_i64"));
        ctx.eq(&got.u128, &expect.u128, || what("to_u128"));
        ctx.eq(&got.i128, &expect.i128, || what("to_i128"));
        ctx.eq(&got.f64, &expect.f64, || what("to_f64"));
        ctx.eq(&got.as_f64, &expect.as_f64, || what("as_f64"));
        ctx.eq(&got.tryfrom, &expect.tryfrom, || what("try_from"));
        if number {
            // Numbers are read as nothing else
            ctx.check(
                got.bool.is_none() && got.char.is_none() && got.str.is_none(),
                || what("read as something other than a number"),
            );
        }
        if let Err(e) = other_conversions(bag, &expect) {
            ctx.violate(what(&e));
        }
        ctx.count_up(&format!("class {:?}", route.class));
        ctx.eval(false, &format!("{p:?} via {}", route.name));
    });
}

/// Values that have no numeric reading at all.
fn non_numbers(ctx: &mut Ctx, rng: &mut crate::rng::Rng) {
    use crate::subject::Subject;
    let s = Subject::gen_non_scalar(rng);
    let expect = K::N.casts();
    s.with(&mut |_, bag| {
        let got = casts_of(bag);
        ctx.eq(&got, &expect, || format!("{}: conversions", s.describe()));
        if let Err(e) = other_conversions(bag, &expect) {
            ctx.violate(format!("{}: {e}", s.describe()));
        }
        // The copy has no reading either
        let o = bag.to_owned();
        ctx.eq(&casts_of(&o.by_ref()), &expect, || {
            format!("{}: conversions of the owned copy", s.describe())
        });
    });
    ctx.count_up("non-scalar values");
    ctx.eval(false, &s.describe());
}

pub fn run(ctx: &mut Ctx) -> &'static str {
    // Around every power of two, in every type that holds it
    let powers = 129 * 6;
    let step = ctx.count(41, 1, 1);
    ctx.cases("powers", powers / step, |ctx, i, _| {
        let i = i * step;
        let k = (i / 6) as u32;
        let base = if k == 128 { 0u128 } else { 1u128 << k };
        let u = base.wrapping_add((i % 6) as u128).wrapping_sub(2);
        let s = u as i128;
        judge(ctx, &Prim::U128(u));
        judge(ctx, &Prim::I128(s));
        judge(ctx, &Prim::I128(s.wrapping_neg()));
        for n in [s, s.wrapping_neg()] {
            macro_rules! t {
                ($($t:ty => $p:ident,)*) => {$(
                    if let Ok(v) = <$t>::try_from(n) {
                        judge(ctx, &Prim::$p(v));
                    }
                )*};
            }
            t!(u8 => U8, u16 => U16, u32 => U32, u64 => U64, usize => Usize,
               i8 => I8, i16 => I16, i32 => I32, i64 => I64, isize => Isize,);
        }
        judge(ctx, &Prim::F64(u as f64));
        judge(ctx, &Prim::F64(-(u as f64)));
        judge(ctx, &Prim::F32(u as f32));
    });
    // All of the one byte integers
    let n = ctx.count(2, 256, 256);
    ctx.cases("bytes", n, |ctx, i, _| {
        judge(ctx, &Prim::U8(i as u8));
        judge(ctx, &Prim::I8(i as u8 as i8));
    });
    let n = ctx.count(6, 3000, 60000);
    ctx.cases("random", n, |ctx, _, rng| {
        judge(ctx, &Prim::gen(rng));
        let f = gen::float(rng);
        judge(ctx, &Prim::F64(f));
    });
    let n = ctx.count(6, 1500, 20000);
    ctx.cases("non-numbers", n, |ctx, _, rng| non_numbers(ctx, rng));
    "distinct (value, capture route) pairs whose every conversion was compared with the standard library's own"
}
