//! Buffering a value keeps everything it said.

use value_bag::{OwnedValueBag, ValueBag};

use crate::{
    ctx::Ctx,
    gen,
    model::{Dom, M},
    obs::{diff, observe, text, unborrow_v, Obs},
    prim::Prim,
    recserde,
    recsval,
    recvisit::chain,
    rng::Rng,
    subject::{Data, Info, Seq, Subject, Wrap},
    user::{Elem, U},
};

pub const COPIES: [&str; 7] = [
    "to_owned",
    "to_shared",
    "to_owned, into_shared",
    "to_owned, clone",
    "to_owned, to_owned",
    "to_shared, to_owned",
    "to_owned, to_shared",
];

pub fn copy(which: usize, bag: &ValueBag) -> OwnedValueBag {
    match which {
        0 => bag.to_owned(),
        1 => bag.to_shared(),
        2 => bag.to_owned().into_shared(),
        3 => bag.to_owned().clone(),
        4 => bag.to_owned().by_ref().to_owned(),
        5 => bag.to_shared().by_ref().to_owned(),
        _ => bag.to_owned().by_ref().to_shared(),
    }
}

/// Text that serde produces by formatting prints without quotes, and with them once buffered.
fn formatted(m: &M) -> bool {
    m.any(&|m| matches!(m, M::Frags(_) | M::BagText(_)))
}

/// The copy of a value with two forms is made in one of them.
fn two_forms(m: &M) -> bool {
    m.any(&|m| matches!(m, M::Human(..)))
}

fn two_formed_elem(e: &Elem) -> bool {
    match e {
        Elem::Serde(u) => two_forms(&u.m),
        Elem::Seq(v) => v.iter().any(two_formed_elem),
        _ => false,
    }
}

fn loose_elem(e: &Elem) -> bool {
    match e {
        Elem::Error(_) => true,
        Elem::Serde(u) => formatted(&u.m),
        Elem::Seq(v) => v.iter().any(loose_elem),
        _ => false,
    }
}

/// What a copy and its original must agree about.
pub fn agreed(data: &Data, bag: &ValueBag) -> Obs {
    let mut o = observe(bag).buffered();
    let ok = || Ok(String::new());
    match data {
        Data::Serde(u) => {
            if two_forms(&u.m) {
                o.light.serde_compact = Ok(Vec::new());
            }
            if formatted(&u.m) {
                o.light.debug = ok();
                o.light.display = ok();
            }
        }
        // The Debug text of an error isn't kept
        Data::Error(_) => o.light.debug = ok(),
        Data::Seq(s) => {
            let any = |f: fn(&Elem) -> bool| match s {
                Seq::Elems(v) => v.iter().any(f),
                Seq::Owned(v) => v.iter().any(|e| f(&e.0)),
                _ => false,
            };
            if any(loose_elem) {
                o.light.debug = ok();
                o.light.display = ok();
            }
            if any(two_formed_elem) {
                o.light.serde_compact = Ok(Vec::new());
            }
        }
        _ => (),
    }
    o
}

/// What serde couldn't express of an sval value it may be able to once its sizes are known.
pub fn relax(data: &Data, want: &Obs, got: &mut Obs) {
    if matches!(data, Data::FailFill) {
        return;
    }
    if want.light.serde.is_err() {
        got.light.serde = want.light.serde.clone();
    }
    if want.light.serde_compact.is_err() {
        got.light.serde_compact = want.light.serde_compact.clone();
    }
}

/// An owned bag consumed directly says what a bag over it says.
fn direct(ctx: &mut Ctx, o: &OwnedValueBag, what: &dyn Fn(&str) -> String) {
    let r = o.by_ref();
    ctx.eq(&text(format_args!("{o:?}")), &text(format_args!("{r:?}")), || what("Debug"));
    ctx.eq(&text(format_args!("{o}")), &text(format_args!("{r}")), || what("Display"));
    ctx.eq(&recserde::trace(o), &recserde::trace(&r), || what("Serialize"));
    let f = |t: Result<Vec<recsval::V>, Vec<recsval::V>>| t.map(unborrow_v).map_err(unborrow_v);
    ctx.eq(&f(recsval::trace(o)), &f(recsval::trace(&r)), || what("Value"));
}

pub fn judge(ctx: &mut Ctx, s: &Subject, all: bool, rng: &mut Rng) {
    s.with(&mut |info: &Info, bag: &ValueBag| {
        let want = agreed(&s.data, bag);
        let causes = match &s.data {
            Data::Error(u) => Some(u.chain_text()),
            _ => None,
        };
        for (n, name) in COPIES.iter().enumerate() {
            if !all && !rng.one_in(3) {
                continue;
            }
            let o = copy(n, bag);
            let what = |n: &str| format!("{} ({}), {name}: {n}", s.describe(), info.name);
            let mut got = agreed(&s.data, &o.by_ref());
            relax(&s.data, &want, &mut got);
            ctx.judgements += 30;
            if let Some(d) = diff(&want, &got) {
                ctx.violate(what(&d));
            }
            // Buffering again changes nothing
            let o2 = o.by_ref().to_owned();
            let mut again = agreed(&s.data, &o2.by_ref());
            relax(&s.data, &want, &mut again);
            if let Some(d) = diff(&got, &again) {
                ctx.violate(what(&format!("buffered again: {d}")));
            }
            direct(ctx, &o, &what);
            if let Some(c) = &causes {
                let r = o.by_ref();
                if let Some(e) = r.to_borrowed_error() {
                    ctx.eq(&chain(e), c, || what("cause chain"));
                    ctx.count_up("cause chains");
                }
            }
            ctx.eval(false, &what(""));
        }
        ctx.count_up(match &s.data {
            Data::Prim(_) => "primitives",
            Data::Debug(_) | Data::Display(_) => "formatted values",
            Data::Error(_) => "errors",
            Data::Sval(_) => "sval values",
            Data::Serde(_) => "serde values",
            Data::Seq(_) => "sequences",
            Data::FailFill => "failing fills",
        });
    });
}

/// One string, stored in every way there is.
fn lengths(ctx: &mut Ctx, t: &str, rng: &mut Rng) {
    let frag = gen::fragments(rng, t);
    let user = |m: M| U::new(frag.clone(), 7, m);
    let datas = [
        Data::Prim(Prim::Str(t.to_owned())),
        Data::Debug(user(M::Unit)),
        Data::Display(user(M::Unit)),
        Data::Error(user(M::Unit)),
        Data::Sval(user(M::Str(t.to_owned()))),
        Data::Sval(user(M::Frags(frag.clone()))),
        Data::Sval(user(M::SvText(frag.iter().map(|f| (f.clone(), true)).collect(), false))),
        Data::Serde(user(M::Str(t.to_owned()))),
        Data::Serde(user(M::Frags(frag.clone()))),
        Data::Seq(Seq::String(vec![t.to_owned(), t.to_owned()])),
        Data::Seq(Seq::Elems(vec![
            Elem::Prim(Prim::Str(t.to_owned())),
            Elem::Sval(user(M::Str(t.to_owned()))),
            Elem::Serde(user(M::Str(t.to_owned()))),
            Elem::Debug(user(M::Unit)),
            Elem::Seq(vec![Elem::Prim(Prim::Str(t.to_owned()))]),
        ])),
    ];
    for data in datas {
        let route = rng.below(data.routes());
        for route in [0, route] {
            let s = Subject {
                data: data.clone(),
                route,
                wrap: Wrap::Plain,
            };
            judge(ctx, &s, false, rng);
        }
    }
}

pub fn run(ctx: &mut Ctx) -> &'static str {
    let n = ctx.count(3, 660, 660);
    ctx.cases("lengths", n, |ctx, i, rng| {
        let t = gen::text_of(rng, (i % 330) as usize);
        lengths(ctx, &t, rng)
    });
    let n = ctx.count(2, 4000, 60000);
    ctx.cases("inline limits", n, |ctx, _, rng| {
        let at = *rng.pick(&[22usize, 46]);
        let n = at + rng.below(5) - 2;
        let t = gen::text_of(rng, n);
        lengths(ctx, &t, rng)
    });
    let n = ctx.count(6, 9000, 150000);
    ctx.cases("anything", n, |ctx, _, rng| {
        let s = Subject::gen(rng);
        judge(ctx, &s, false, rng);
    });
    let n = ctx.count(3, 2500, 40000);
    ctx.cases("every copy", n, |ctx, i, rng| {
        let d = match i % 4 {
            0 => Data::Sval(U::gen_data(rng, 5, Dom::SVAL.bags())),
            1 => Data::Serde(U::gen_data(rng, 5, Dom::SERDE.bags())),
            2 => Data::Seq(Seq::gen(rng)),
            _ => Data::Error(U::gen_error(rng)),
        };
        for route in 0..d.routes() {
            let s = Subject {
                data: d.clone(),
                route,
                wrap: Wrap::Plain,
            };
            judge(ctx, &s, i % 8 < 4, rng);
        }
    });
    "distinct (value, capture route, way of copying) triples whose copies were compared with the original in every observation"
}
