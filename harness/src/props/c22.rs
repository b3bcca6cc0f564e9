//! A test token names the captured kind and value.

use value_bag::{test::TestToken, ValueBag};

use crate::{
    ctx::Ctx,
    gen,
    model::{Dom, M},
    prim::{Class, Prim},
    recserde::Fb,
    rng::Rng,
    subject::{Data, Info, Seq, Subject, Wrap, WRAPS},
    user::U,
};

/// A token that can be compared.
#[derive(Clone, Debug, PartialEq)]
enum Tok {
    U64(u64),
    I64(i64),
    F64(Fb),
    U128(u128),
    I128(i128),
    Char(char),
    Bool(bool),
    Str(String),
    None,
    Error,
    Sval(u32),
    Serde(u32),
    Seq,
    Poisoned(String),
    Other(String),
}

fn tok(bag: &ValueBag) -> Tok {
    match bag.to_test_token() {
        TestToken::U64(v) => Tok::U64(v),
        TestToken::I64(v) => Tok::I64(v),
        TestToken::F64(v) => Tok::F64(Fb(v)),
        TestToken::U128(v) => Tok::U128(v),
        TestToken::I128(v) => Tok::I128(v),
        TestToken::Char(v) => Tok::Char(v),
        TestToken::Bool(v) => Tok::Bool(v),
        TestToken::Str(v) => Tok::Str(v),
        TestToken::None => Tok::None,
        TestToken::Error => Tok::Error,
        TestToken::Sval { version } => Tok::Sval(version),
        TestToken::Serde { version } => Tok::Serde(version),
        TestToken::Seq => Tok::Seq,
        TestToken::Poisoned(v) => Tok::Poisoned(v),
        t => Tok::Other(format!("{t:?}")),
    }
}

fn of_prim(p: &Prim) -> Tok {
    match p {
        Prim::U8(v) => Tok::U64(*v as u64),
        Prim::U16(v) => Tok::U64(*v as u64),
        Prim::U32(v) => Tok::U64(*v as u64),
        Prim::U64(v) => Tok::U64(*v),
        Prim::Usize(v) => Tok::U64(*v as u64),
        Prim::U128(v) => Tok::U128(*v),
        Prim::I8(v) => Tok::I64(*v as i64),
        Prim::I16(v) => Tok::I64(*v as i64),
        Prim::I32(v) => Tok::I64(*v as i64),
        Prim::I64(v) => Tok::I64(*v),
        Prim::Isize(v) => Tok::I64(*v as i64),
        Prim::I128(v) => Tok::I128(*v),
        Prim::F32(v) => Tok::F64(Fb(*v as f64)),
        Prim::F64(v) => Tok::F64(Fb(*v)),
        Prim::Bool(v) => Tok::Bool(*v),
        Prim::Char(v) => Tok::Char(*v),
        Prim::Str(v) => Tok::Str(v.clone()),
        Prim::None(_) => Tok::None,
    }
}

/// Buffering may widen integers.
fn widen(t: Tok) -> Tok {
    match t {
        Tok::U64(v) => Tok::U128(v as u128),
        Tok::I64(v) => Tok::I128(v as i128),
        t => t,
    }
}

fn expected(s: &Subject, info: &Info) -> Tok {
    match &s.data {
        Data::Prim(p) => match info.name {
            "from_serde1" => Tok::Serde(1),
            // These are filled in through serde
            "from_fill" if matches!(p, Prim::U128(_) | Prim::I128(_) | Prim::Str(_)) => Tok::Serde(1),
            _ => of_prim(p),
        },
        Data::Debug(u) => Tok::Str(u.debug_text()),
        Data::Display(u) => Tok::Str(u.display_text()),
        Data::Error(_) => Tok::Error,
        Data::Sval(_) => Tok::Sval(2),
        Data::Serde(_) => Tok::Serde(1),
        Data::Seq(_) => Tok::Seq,
        Data::FailFill => unreachable!(),
    }
}

fn judge(ctx: &mut Ctx, s: &Subject) {
    s.with(&mut |info: &Info, bag: &ValueBag| {
        let what = |n: &str| format!("{} ({}): {n}", s.describe(), info.name);
        let want = expected(s, info);
        let got = tok(bag);
        let (got, want) = if info.buffered {
            (widen(got), widen(want))
        } else {
            (got, want)
        };
        ctx.eq(&got, &want, || what("test token"));
        ctx.eq(&tok(bag), &tok(&bag.by_ref()), || what("test token, again and of a reference"));
        ctx.eq(&widen(tok(&bag.to_owned().by_ref())), &widen(want.clone()), || what("test token of a copy"));
        ctx.eq(&widen(tok(&bag.to_shared().by_ref())), &widen(want.clone()), || what("test token of a shared copy"));
        ctx.count_up(match want {
            Tok::U64(_) | Tok::I64(_) | Tok::U128(_) | Tok::I128(_) | Tok::F64(_) => "numbers",
            Tok::Char(_) | Tok::Bool(_) => "chars and bools",
            Tok::Str(_) => "text",
            Tok::None => "empty",
            Tok::Error => "errors",
            Tok::Sval(_) => "sval",
            Tok::Serde(_) => "serde",
            _ => "sequences",
        });
        ctx.eval(false, &what(""));
    });
}

fn primitive(ctx: &mut Ctx, p: &Prim) {
    p.routes(&mut |route, bag| {
        let want = match route.class {
            Class::Direct => of_prim(p),
            Class::Sval => Tok::Sval(2),
            Class::Serde => Tok::Serde(1),
        };
        let got = tok(bag);
        let (got, want) = if route.owned {
            (widen(got), widen(want))
        } else {
            (got, want)
        };
        ctx.eq(&got, &want, || format!("{p:?} via {}: test token", route.name));
        ctx.count_up("primitives by route");
        ctx.eval(false, &format!("{p:?} via {}", route.name));
    });
}

/// Copies of what couldn't be copied.
fn poisoned(ctx: &mut Ctx, rng: &mut Rng) {
    let data = match rng.below(5) {
        0 => Data::FailFill,
        n => {
            let serde = n > 2;
            let mut u = U::gen_data(rng, 3, if serde { Dom::SERDE } else { Dom::SVAL });
            let mut at = rng.below(u.m.clone().size());
            u.m.fail_at(&mut at);
            if !fails(&u.m, serde) {
                ctx.eval(true, "");
                return;
            }
            if serde {
                Data::Serde(u)
            } else {
                Data::Sval(u)
            }
        }
    };
    let route = rng.below(data.routes());
    let wrap = *rng.pick(&WRAPS[..3]);
    let s = Subject { data, route, wrap };
    s.with(&mut |info: &Info, bag: &ValueBag| {
        if info.shared || info.name.contains("shared") {
            ctx.eval(true, "");
            return;
        }
        let o = bag.to_owned();
        let all = [
            ("to_owned", bag.to_owned()),
            ("to_shared", bag.to_shared()),
            ("clone", o.clone()),
            ("into_shared", o.clone().into_shared()),
            ("to_owned twice", o.by_ref().to_owned()),
        ];
        for (name, o) in &all {
            let what = |n: &str| format!("failing {} ({}), {name}: {n}", s.describe(), info.name);
            let printed = crate::sink::to_string(format_args!("{o}"));
            match tok(&o.by_ref()) {
                Tok::Poisoned(m) => {
                    ctx.eq(&printed, &format!("<{m}>"), || what("printed"));
                }
                t => ctx.violate(what(&format!("test token {t:?}"))),
            }
        }
        ctx.count_up("poisoned");
        ctx.eval(false, &format!("{} ({})", s.describe(), info.name));
    });
}

fn fails(m: &M, serde: bool) -> bool {
    if serde {
        crate::recserde::trace(m).is_err() && crate::recserde::trace_hr(m, false).is_err()
    } else {
        crate::recsval::trace(m).is_err()
    }
}

pub fn run(ctx: &mut Ctx) -> &'static str {
    let n = ctx.count(8, 60000, 600000);
    ctx.cases("anything", n, |ctx, _, rng| {
        let s = Subject::gen(rng);
        judge(ctx, &s)
    });
    let n = ctx.count(1, 900, 9000);
    ctx.cases("every route", n, |ctx, i, rng| {
        let data = match i % 7 {
            0 => Data::Prim(Prim::gen(rng)),
            1 => Data::Debug(U::gen_text(rng)),
            2 => Data::Display(U::gen_text(rng)),
            3 => Data::Error(U::gen_error(rng)),
            4 => Data::Sval(U::gen_data(rng, 2, Dom::SVAL)),
            5 => Data::Serde(U::gen_data(rng, 2, Dom::SERDE)),
            _ => Data::Seq(Seq::gen(rng)),
        };
        for route in 0..data.routes() {
            for wrap in WRAPS {
                judge(ctx, &Subject { data: data.clone(), route, wrap });
            }
        }
    });
    let n = ctx.count(1, 18, 18);
    ctx.cases("none", n, |ctx, i, _| primitive(ctx, &Prim::None(i as u8)));
    let n = ctx.count(1, 256, 256);
    ctx.cases("bytes", n, |ctx, i, _| {
        primitive(ctx, &Prim::U8(i as u8));
        primitive(ctx, &Prim::I8(i as u8 as i8));
    });
    let n = ctx.count(2, 200, 330);
    ctx.cases("lengths", n, |ctx, i, rng| {
        let t = gen::text_of(rng, i as usize);
        primitive(ctx, &Prim::Str(t.clone()));
        let mut u = U::gen_text(rng);
        u.frags = gen::fragments(rng, &t);
        for wrap in [Wrap::Plain, Wrap::Owned, Wrap::Shared] {
            for route in 0..9 {
                judge(ctx, &Subject { data: Data::Debug(u.clone()), route, wrap });
                judge(ctx, &Subject { data: Data::Display(u.clone()), route, wrap });
            }
        }
    });
    let n = ctx.count(4, 20000, 200000);
    ctx.cases("primitives", n, |ctx, _, rng| {
        let p = Prim::gen(rng);
        primitive(ctx, &p)
    });
    let n = ctx.count(4, 20000, 200000);
    ctx.cases("poisoned", n, |ctx, _, rng| poisoned(ctx, rng));
    "distinct (value, way of capturing, handle) triples whose test token was compared with the one the captured value calls for"
}
