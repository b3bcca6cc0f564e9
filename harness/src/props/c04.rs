//! Formatting a value bag prints what the captured value prints.

use std::fmt::{self, Debug, Display, Formatter, Write};

use value_bag::ValueBag;

use crate::{
    ctx::{short, Ctx},
    fmtspec,
    gen,
    model::Dom,
    obs::text,
    prim::{Class, Prim},
    rng::Rng,
    sink::Limited,
    subject::{Data, Seq, Subject, Wrap},
    user::U,
};

struct AsSval<'a>(&'a U);

impl<'a> Debug for AsSval<'a> {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        value_bag_sval2::fmt::stream_to_fmt(f, self.0)
    }
}

impl<'a> Display for AsSval<'a> {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        Debug::fmt(self, f)
    }
}

struct AsSerde<'a>(&'a U);

impl<'a> Debug for AsSerde<'a> {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        Debug::fmt(&value_bag_serde1::fmt::to_debug(self.0), f)
    }
}

impl<'a> Display for AsSerde<'a> {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        Debug::fmt(self, f)
    }
}

struct AsList<'a>(&'a Seq);

impl<'a> Debug for AsList<'a> {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        match self.0.list() {
            Some(l) => Debug::fmt(&l, f),
            None => {
                let mut l = f.debug_list();
                self.0.each(&mut |_, bag| {
                    l.entry(bag);
                });
                l.finish()
            }
        }
    }
}

impl<'a> Display for AsList<'a> {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        Debug::fmt(self, f)
    }
}

/// Debug under both.
struct Dbg<'a>(&'a dyn Debug);

impl<'a> Display for Dbg<'a> {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        self.0.fmt(f)
    }
}

/// Display under both.
struct Disp<'a>(&'a dyn Display);

impl<'a> Debug for Disp<'a> {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        self.0.fmt(f)
    }
}

fn judge(ctx: &mut Ctx, rng: &mut Rng, bag: &ValueBag, d: &dyn Debug, s: &dyn Display, what: &dyn Fn() -> String) {
    let w = rng.below(60);
    let p = rng.below(24);
    for (got, want) in fmtspec::debug(bag, w, p).iter().zip(fmtspec::debug(d, w, p)) {
        ctx.eq(&got.1, &want.1, || format!("{} {} w={w} p={p}", what(), want.0));
    }
    for (got, want) in fmtspec::display(bag, w, p).iter().zip(fmtspec::display(s, w, p)) {
        ctx.eq(&got.1, &want.1, || format!("{} {} w={w} p={p}", what(), want.0));
    }
    ctx.count_by("format specifications compared", 61);
}

/// A sink that fails after any number of bytes.
fn sinks(ctx: &mut Ctx, rng: &mut Rng, bag: &ValueBag, what: &dyn Fn() -> String) {
    for which in 0..4 {
        let run = |w: &mut dyn Write| match which {
            0 => write!(w, "{bag:?}"),
            1 => write!(w, "{bag}"),
            2 => write!(w, "{bag:#?}"),
            _ => write!(w, "{bag:>40}"),
        };
        let mut all = String::new();
        if run(&mut all).is_err() {
            ctx.violate(format!("{} formatting failed for no reason", what()));
            continue;
        }
        let total = all.len();
        for i in 0..10 {
            let n = match i {
                0 => total,
                1 => total.saturating_sub(1),
                2 => 0,
                _ => rng.below(total + 1),
            };
            let mut sink = Limited::new(n);
            let r = run(&mut sink);
            ctx.eq(&r.is_ok(), &(n >= total), || {
                format!("{} written to a sink of {n} of {total} bytes: success", what())
            });
            ctx.check(all.starts_with(&sink.text), || {
                format!("{} wrote {:?} rather than a prefix of {:?}", what(), sink.text, all)
            });
            if n < total {
                ctx.count_up("sink failures returned");
            }
        }
    }
}

fn primitive(ctx: &mut Ctx, rng: &mut Rng, p: &Prim) {
    if matches!(p, Prim::None(_)) {
        return;
    }
    let mut n = 0;
    let pick = rng.below(60);
    p.routes(&mut |route, bag| {
        if route.class != Class::Direct {
            return;
        }
        if route.owned {
            // Integers may have widened, so that hex is out
            return p.formats(|d, s| {
                let what = || format!("owned {p:?} via {}", route.name);
                let w = rng.below(40);
                let pr = rng.below(20);
                let o = bag.to_owned();
                ctx.eq(&text(format_args!("{bag:?}")), &text(format_args!("{d:?}")), what);
                ctx.eq(&text(format_args!("{o:#?}")), &text(format_args!("{d:#?}")), what);
                ctx.eq(&text(format_args!("{bag:+0w$.pr$?}")), &text(format_args!("{d:+0w$.pr$?}")), what);
                ctx.eq(&text(format_args!("{o:*^w$.pr$}")), &text(format_args!("{s:*^w$.pr$}")), what);
                ctx.eq(&text(format_args!("{bag:#}")), &text(format_args!("{s:#}")), what);
                ctx.count_up("owned primitives");
                ctx.eval(false, &what());
            });
        }
        n += 1;
        p.formats(|d, s| {
            // One fully, the others by a few
            let what = || format!("{p:?} via {}", route.name);
            if n % 12 == pick % 12 {
                judge(ctx, rng, bag, d, s, &what);
                sinks(ctx, rng, bag, &what);
            } else {
                let w = rng.below(40);
                let pr = rng.below(20);
                ctx.eq(&text(format_args!("{bag:?}")), &text(format_args!("{d:?}")), what);
                ctx.eq(&text(format_args!("{bag}")), &text(format_args!("{s}")), what);
                ctx.eq(
                    &text(format_args!("{bag:+0w$.pr$?}")),
                    &text(format_args!("{d:+0w$.pr$?}")),
                    what,
                );
                ctx.eq(&text(format_args!("{bag:^w$.pr$}")), &text(format_args!("{s:^w$.pr$}")), what);
                ctx.eq(&text(format_args!("{bag:#x?}")), &text(format_args!("{d:#x?}")), what);
            }
            ctx.eval(false, &what());
        });
    });
}

fn reference(data: &Data, f: &mut dyn FnMut(&dyn Debug, &dyn Display)) {
    match data {
        Data::Debug(u) => f(u, &Dbg(u)),
        Data::Display(u) => f(&Disp(u), u),
        Data::Error(u) => f(u, u),
        Data::Sval(u) => f(&AsSval(u), &AsSval(u)),
        Data::Serde(u) => f(&AsSerde(u), &AsSerde(u)),
        Data::Seq(s) => f(&AsList(s), &AsList(s)),
        Data::Prim(_) | Data::FailFill => unreachable!(),
    }
}

fn gen_data(rng: &mut Rng) -> Data {
    match rng.below(8) {
        0 => Data::Debug(U::gen_text(rng)),
        1 => Data::Display(U::gen_text(rng)),
        2 => Data::Error(U::gen_error(rng)),
        3 | 4 => Data::Sval(U::gen_data(rng, 4, Dom::SVAL)),
        5 | 6 => Data::Serde(U::gen_data(rng, 4, Dom::SERDE)),
        _ => Data::Seq(Seq::gen(rng)),
    }
}

fn other(ctx: &mut Ctx, rng: &mut Rng) {
    let data = gen_data(rng);
    let pick = rng.below(data.routes());
    for route in 0..data.routes() {
        let wrap = *rng.pick(&[Wrap::Plain, Wrap::ByRef, Wrap::Clone, Wrap::Owned, Wrap::Shared, Wrap::OwnedClone]);
        let s = Subject {
            data: data.clone(),
            route,
            wrap,
        };
        reference(&data, &mut |d, t| {
            s.with(&mut |info, bag| {
                let what = || format!("{} ({})", s.describe(), info.name);
                if info.buffered {
                    // Only the handle's own formatting is at stake here
                    let o = bag.to_owned();
                    for (a, b) in fmtspec::debug(&o, 12, 3).iter().zip(fmtspec::debug(&o.by_ref(), 12, 3)) {
                        ctx.eq(&a.1, &b.1, || format!("owned bag {}", what()));
                    }
                    for (a, b) in fmtspec::display(&o, 12, 3).iter().zip(fmtspec::display(&o.by_ref(), 12, 3)) {
                        ctx.eq(&a.1, &b.1, || format!("owned bag {}", what()));
                    }
                    ctx.count_up("owned handles");
                    return;
                }
                if info.shared {
                    let o = bag.to_owned();
                    let what = || format!("owned handle of {}", what());
                    ctx.eq(&text(format_args!("{o:?}")), &text(format_args!("{d:?}")), what);
                    ctx.eq(&text(format_args!("{o:#?}")), &text(format_args!("{d:#?}")), what);
                    ctx.eq(&text(format_args!("{o:-^30.4?}")), &text(format_args!("{d:-^30.4?}")), what);
                    ctx.eq(&text(format_args!("{o}")), &text(format_args!("{t}")), what);
                    ctx.eq(&text(format_args!("{o:#}")), &text(format_args!("{t:#}")), what);
                    ctx.eq(&text(format_args!("{o:+030.4}")), &text(format_args!("{t:+030.4}")), what);
                }
                if route == pick || rng.one_in(6) {
                    judge(ctx, rng, bag, d, t, &what);
                    sinks(ctx, rng, bag, &what);
                } else {
                    let w = rng.below(40);
                    let pr = rng.below(20);
                    ctx.eq(&text(format_args!("{bag:?}")), &text(format_args!("{d:?}")), what);
                    ctx.eq(&text(format_args!("{bag}")), &text(format_args!("{t}")), what);
                    ctx.eq(&text(format_args!("{bag:#?}")), &text(format_args!("{d:#?}")), what);
                    ctx.eq(
                        &text(format_args!("{bag:+0w$.pr$?}")),
                        &text(format_args!("{d:+0w$.pr$?}")),
                        what,
                    );
                    ctx.eq(&text(format_args!("{bag:^#w$.pr$}")), &text(format_args!("{t:^#w$.pr$}")), what);
                }
                ctx.count_up(&format!("{:.5}", short(&s.data)));
                ctx.eval(false, &what());
            });
        });
    }
}

/// The captured value's formatter fails.
fn failing(ctx: &mut Ctx, rng: &mut Rng) {
    let mut data = gen_data(rng);
    match &mut data {
        Data::Debug(u) | Data::Display(u) | Data::Error(u) => {
            u.fail_fmt = Some(rng.below(u.frags.len() + 2));
        }
        Data::Sval(u) | Data::Serde(u) => {
            let mut at = rng.below(u.m.size());
            u.m.fail_at(&mut at);
        }
        Data::Seq(s) => {
            let mut v = crate::user::Elem::gen_vec(rng, 1);
            let mut u = U::gen_text(rng);
            u.fail_fmt = Some(rng.below(u.frags.len() + 2));
            let e = match rng.below(4) {
                0 => crate::user::Elem::Debug(u),
                1 => crate::user::Elem::Display(u),
                2 => crate::user::Elem::Error(u),
                _ => crate::user::Elem::FailFill,
            };
            let e = if rng.one_in(3) {
                crate::user::Elem::Seq(vec![e])
            } else {
                e
            };
            v.insert(rng.below(v.len() + 1), e);
            *s = Seq::Elems(v);
        }
        _ => (),
    }
    // Some of a serializer's calls only happen for readers of the other kind
    let mut fails = (false, false);
    match &data {
        Data::Seq(_) => fails = (true, true),
        data => reference(data, &mut |d, s| {
            fails = (
                text(format_args!("{d:?}")).is_err(),
                text(format_args!("{s}")).is_err(),
            )
        }),
    }
    for route in 0..data.routes() {
        let s = Subject {
            data: data.clone(),
            route,
            wrap: *rng.pick(&[Wrap::Plain, Wrap::ByRef, Wrap::Clone]),
        };
        s.with(&mut |info, bag| {
            let what = |n: &str| format!("{} ({}) fails: {n}", s.describe(), info.name);
            ctx.eq(&text(format_args!("{bag:?}")).is_err(), &fails.0, || what("{:?}"));
            ctx.eq(&text(format_args!("{bag:#?}")).is_err(), &fails.0, || what("{:#?}"));
            ctx.eq(&text(format_args!("{bag}")).is_err(), &fails.1, || what("{}"));
            ctx.eq(&text(format_args!("{bag:>30.3}")).is_err(), &fails.1, || what("{:>30.3}"));
            ctx.count_up(if fails.0 { "formatter failures returned" } else { "harmless failures" });
            ctx.eval(!fails.0, &what(""));
        });
    }
}

pub fn run(ctx: &mut Ctx) -> &'static str {
    let n = ctx.count(3, 1500, 20000);
    ctx.cases("primitives", n, |ctx, _, rng| {
        let p = Prim::gen(rng);
        primitive(ctx, rng, &p)
    });
    let n = ctx.count(1, 200, 3000);
    ctx.cases("text", n, |ctx, i, rng| {
        let p = if i % 2 == 0 {
            Prim::Str(gen::text(rng))
        } else {
            Prim::Char(gen::chr(rng))
        };
        primitive(ctx, rng, &p)
    });
    let n = ctx.count(4, 4000, 50000);
    ctx.cases("others", n, |ctx, _, rng| other(ctx, rng));
    let n = ctx.count(4, 3000, 40000);
    ctx.cases("failing", n, |ctx, _, rng| failing(ctx, rng));
    "distinct (value, capture route, handle) triples formatted and compared with the standard library's or the framework's own formatting of the captured value"
}
