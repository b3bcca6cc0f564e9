//! Sequence reads give one entry per element, in order.

use std::{
    borrow::Cow,
    collections::{LinkedList, VecDeque},
};

use value_bag::ValueBag;

use crate::{
    ctx::Ctx,
    gen,
    model::{Dom, M},
    obs::{seqs_of, Seqs},
    prim::{Prim, K},
    recserde::Fb,
    rng::Rng,
    subject::{Data, Info, Seq, Subject, Wrap, WRAPS},
    user::{Elem, FillPrim, U},
};

fn entries(kinds: Option<&[K]>) -> Seqs {
    let c = kinds.map(|k| k.iter().map(|k| k.casts()).collect::<Vec<_>>());
    let c = c.as_deref();
    Seqs {
        u64: c.map(|c| c.iter().map(|c| c.u64).collect()),
        i64: c.map(|c| c.iter().map(|c| c.i64).collect()),
        u128: c.map(|c| c.iter().map(|c| c.u128).collect()),
        i128: c.map(|c| c.iter().map(|c| c.i128).collect()),
        f64: c.map(|c| c.iter().map(|c| c.f64).collect()),
        as_f64: c.map(|c| c.iter().map(|c| c.as_f64).collect()).unwrap_or_default(),
        bool: c.map(|c| c.iter().map(|c| c.bool).collect()),
        char: c.map(|c| c.iter().map(|c| c.char).collect()),
        str: c.map(|c| c.iter().map(|c| c.str.clone()).collect()),
    }
}

fn compare(ctx: &mut Ctx, want: &Seqs, got: &Seqs, what: &dyn Fn(&str) -> String) {
    macro_rules! f {
        ($($n:ident)*) => {
            $(ctx.eq(&got.$n, &want.$n, || what(stringify!($n)));)*
        };
    }
    f!(u64 i64 u128 i128 f64 as_f64 bool char str);
}

/// What a read collects into may be anything that can be extended.
#[derive(Default)]
struct Steps {
    items: Vec<Option<u64>>,
    extended: usize,
}

impl Extend<Option<u64>> for Steps {
    fn extend<I: IntoIterator<Item = Option<u64>>>(&mut self, i: I) {
        self.extended += 1;
        self.items.extend(i)
    }
}

fn collections(ctx: &mut Ctx, want: &Seqs, bag: &ValueBag, what: &dyn Fn(&str) -> String) {
    let s: Option<Steps> = bag.to_u64_seq();
    ctx.eq(&s.map(|s| s.items), &want.u64, || what("u64 into a user type"));
    let s: Option<VecDeque<Option<i64>>> = bag.to_i64_seq();
    ctx.eq(&s.map(|s| s.into_iter().collect::<Vec<_>>()), &want.i64, || what("i64 into a deque"));
    let s: Option<LinkedList<Option<Cow<str>>>> = bag.to_str_seq();
    ctx.eq(
        &s.map(|s| s.into_iter().map(|s| s.map(|s| s.into_owned())).collect::<Vec<_>>()),
        &want.str,
        || what("str into a list"),
    );
    let s: VecDeque<f64> = bag.as_f64_seq();
    ctx.eq(&s.into_iter().map(Fb).collect::<Vec<_>>(), &want.as_f64, || what("as_f64 into a deque"));
}

fn borrowed(ctx: &mut Ctx, want: &Seqs, bag: &ValueBag, exact: Option<&[Option<(String, usize)>]>, what: &dyn Fn(&str) -> String) {
    let got: Option<Vec<Option<&str>>> = bag.to_borrowed_str_seq();
    match (&want.str, got) {
        (None, None) => {
            ctx.judgements += 1;
        }
        (Some(w), Some(g)) => {
            ctx.eq(&g.len(), &w.len(), || what("borrowed str: number of entries"));
            for (i, (w, g)) in w.iter().zip(&g).enumerate() {
                // Not everything can be borrowed
                if let Some(g) = g {
                    ctx.check(w.as_deref() == Some(*g), || what(&format!("borrowed str: entry {i} is {g:?}")));
                }
            }
            if let Some(exact) = exact {
                let g: Vec<_> = g.iter().map(|g| g.map(|g| (g.to_owned(), g.as_ptr() as usize))).collect();
                ctx.check(g == exact, || what("borrowed str: not the elements' own text"));
                ctx.count_up("borrowed entries located");
            }
        }
        (w, g) => {
            let g = g.is_some();
            ctx.check(false, || what(&format!("borrowed str: expected {w:?}, a sequence was returned: {g}")));
        }
    }
}

/// The entries a sequence must have; none when it isn't one.
fn expected(data: &Data) -> Option<Option<Vec<K>>> {
    match data {
        Data::Seq(s) => Some(Some(s.kinds())),
        Data::Sval(u) => verdict(&u.m, u.m.seq_sval(), u.m.kind_sval()),
        Data::Serde(u) => verdict(&u.m, u.m.seq_serde(), u.m.kind_serde()),
        _ => Some(None),
    }
}

fn verdict(m: &M, seq: Option<Vec<K>>, kind: K) -> Option<Option<Vec<K>>> {
    match seq {
        Some(s) => Some(Some(s)),
        None if kind != K::N || m.is_none() => Some(None),
        // Neither a sequence nor one of the things that must not be read as one
        None => None,
    }
}

fn judge(ctx: &mut Ctx, s: &Subject, elems: bool) {
    let Some(kinds) = expected(&s.data) else {
        ctx.eval(true, "");
        return;
    };
    let want = entries(kinds.as_deref());
    let mut n = 0;
    s.with(&mut |info: &Info, bag: &ValueBag| {
        let what = |n: &str| format!("{} ({}): {n}", s.describe(), info.name);
        compare(ctx, &want, &seqs_of(bag), &what);
        collections(ctx, &want, bag, &what);
        let exact: Option<Vec<Option<(String, usize)>>> = match &s.data {
            Data::Seq(q) if matches!(info.wrap, Wrap::Plain | Wrap::ByRef) => {
                // Only text that's the element's own is at the same place next time
                matches!(q, Seq::Str(_) | Seq::String(_)).then(|| {
                    let mut v = Vec::new();
                    q.each(&mut |_, e: &ValueBag| {
                        v.push(e.to_borrowed_str().map(|t| (t.to_owned(), t.as_ptr() as usize)))
                    });
                    v
                })
            }
            _ => None,
        };
        // Others are captured from a copy
        let exact = exact.filter(|_| {
            info.name.starts_with("From<&Vec")
                || info.name.starts_with("From<Option<&Vec")
                || info.name.ends_with("&&[T]>")
                || info.name == "from_seq_slice(&Vec)"
                || info.name == "from_seq_slice(&&[T])"
        });
        borrowed(ctx, &want, bag, exact.as_deref(), &what);
        if elems {
            if let Data::Seq(q) = &s.data {
                // Each entry is what the element's own read gives
                let mut i = 0;
                let all = seqs_of(bag);
                q.each(&mut |_, e: &ValueBag| {
                    macro_rules! entry {
                        ($f:ident, $r:expr) => {
                            if let Some(Some(g)) = all.$f.as_ref().map(|s| s.get(i)) {
                                ctx.eq(g, &$r, || what(&format!("{} entry {i}", stringify!($f))));
                            }
                        };
                    }
                    entry!(u64, e.to_u64());
                    entry!(i64, e.to_i64());
                    entry!(u128, e.to_u128());
                    entry!(i128, e.to_i128());
                    entry!(f64, e.to_f64().map(Fb));
                    entry!(bool, e.to_bool());
                    entry!(char, e.to_char());
                    entry!(str, e.to_str().map(|s| s.into_owned()));
                    i += 1;
                });
            }
        }
        n = kinds.as_ref().map_or(0, |k| k.len());
        ctx.eval(false, &what(""));
    });
    match kinds {
        Some(_) => {
            ctx.count_up("sequences");
            ctx.count_by("entries", n as u64)
        }
        None => ctx.count_up("not sequences"),
    }
}

fn with(ctx: &mut Ctx, rng: &mut Rng, data: Data, all: bool) {
    for route in 0..data.routes() {
        if all || rng.one_in(3) {
            for wrap in WRAPS {
                if all || rng.one_in(3) {
                    let s = Subject {
                        data: data.clone(),
                        route,
                        wrap,
                    };
                    judge(ctx, &s, true);
                }
            }
        }
    }
}

/// Lists of lists, options of lists, tuples.
fn structured(rng: &mut Rng, d: Dom, depth: usize) -> M {
    let n = match rng.below(5) {
        0 => 0,
        4 => rng.below(40),
        _ => rng.below(6),
    };
    let v: Vec<M> = (0..n)
        .map(|_| match rng.below(4) {
            0 if depth > 0 => structured(rng, d, depth - 1),
            1 => M::gen_tiny(rng, d),
            _ => M::scalar(rng, d),
        })
        .collect();
    let m = match rng.below(3) {
        0 => M::Tuple(v),
        1 => M::Seq(v, true),
        _ => M::Seq(v, false),
    };
    match rng.below(5) {
        0 => M::Some(Box::new(m)),
        1 => M::Bag(Box::new(m)),
        _ => m,
    }
}

pub fn run(ctx: &mut Ctx) -> &'static str {
    let n = ctx.count(10, 30000, 400000);
    ctx.cases("anything", n, |ctx, _, rng| {
        let s = Subject::gen(rng);
        judge(ctx, &s, rng.one_in(4))
    });
    let n = ctx.count(2, 1200, 20000);
    ctx.cases("every route", n, |ctx, i, rng| {
        let data = Data::Seq(Seq::gen(rng));
        with(ctx, rng, data, i % 8 == 0)
    });
    let n = ctx.count(6, 20000, 300000);
    ctx.cases("structures", n, |ctx, i, rng| {
        let mut u = U::gen_text(rng);
        let data = if i % 2 == 0 {
            u.m = structured(rng, Dom::SVAL, 2);
            Data::Sval(u)
        } else {
            u.m = structured(rng, Dom::SERDE, 2);
            Data::Serde(u)
        };
        let s = Subject::routed(rng, data);
        judge(ctx, &s, false)
    });
    let n = ctx.count(6, 6000, 80000);
    ctx.cases("not sequences", n, |ctx, i, rng| {
        let data = match i % 8 {
            0 => Data::Prim(Prim::Str(gen::text(rng))),
            1 => Data::Prim(Prim::gen(rng)),
            2 => Data::Debug(U::gen_text(rng)),
            3 => Data::Display(U::gen_text(rng)),
            4 => Data::Error(U::gen_error(rng)),
            5 | 6 => {
                let mut u = U::gen_text(rng);
                u.m = M::scalar(rng, Dom::SVAL);
                Data::Sval(u)
            }
            _ => {
                let mut u = U::gen_text(rng);
                u.m = M::scalar(rng, Dom::SERDE);
                Data::Serde(u)
            }
        };
        with(ctx, rng, data, false)
    });
    let n = ctx.count(1, 40, 300);
    ctx.cases("long", n, |ctx, i, rng| {
        let n = 200 + rng.below(2000);
        let data = match i % 5 {
            0 => Data::Seq(Seq::I64((0..n).map(|_| rng.u64() as i64).collect())),
            1 => Data::Seq(Seq::Elems(
                (0..n).map(|_| Elem::Fill(FillPrim(Prim::gen(rng)))).collect(),
            )),
            2 => Data::Seq(Seq::String((0..n).map(|_| gen::short_text(rng)).collect())),
            3 => {
                let mut u = U::gen_text(rng);
                u.m = M::Seq((0..n).map(|_| M::scalar(rng, Dom::SVAL)).collect(), rng.bool());
                Data::Sval(u)
            }
            _ => {
                let mut u = U::gen_text(rng);
                u.m = M::Seq((0..n).map(|_| M::scalar(rng, Dom::SERDE)).collect(), rng.bool());
                Data::Serde(u)
            }
        };
        let s = Subject::routed(rng, data);
        judge(ctx, &s, false)
    });
    "distinct (value, capture route, handle) triples whose sequence reads, all ten of them, were compared entry by entry"
}
