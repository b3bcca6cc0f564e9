//! An owned copy is a snapshot, independent of its source.

use std::{
    fmt,
    sync::{
        atomic::{AtomicU64, Ordering::SeqCst},
        Arc,
    },
};

use serde::ser::{Serialize, Serializer};
use sval::{Stream, Value};
use value_bag::{fill::Slot, OwnedValueBag, ValueBag};
use value_bag_serde1::lib as serde;
use value_bag_sval2::lib as sval;

use crate::{
    ctx::Ctx,
    gen,
    model::{Dom, M},
    obs::{diff, observe, Obs},
    prim::Prim,
    props::c08::{copy, COPIES},
    rng::Rng,
    subject::{free_leaked, Data, Info, Seq, Subject, Wrap},
    user::{Coll, Elem, Ledger, U},
};

fn elem_ledgers(e: &Elem, out: &mut Vec<Arc<Ledger>>) {
    match e {
        Elem::Debug(u) | Elem::Display(u) | Elem::Error(u) | Elem::Sval(u) | Elem::Serde(u) => {
            out.push(u.led.clone())
        }
        Elem::Seq(v) => v.iter().for_each(|e| elem_ledgers(e, out)),
        _ => (),
    }
}

pub fn ledgers(data: &Data) -> Vec<Arc<Ledger>> {
    let mut out = Vec::new();
    match data {
        Data::Debug(u) | Data::Display(u) | Data::Error(u) | Data::Sval(u) | Data::Serde(u) => {
            out.push(u.led.clone())
        }
        Data::Seq(Seq::Elems(v)) => v.iter().for_each(|e| elem_ledgers(e, &mut out)),
        Data::Seq(Seq::Owned(v)) => v.iter().for_each(|e| elem_ledgers(&e.0, &mut out)),
        _ => (),
    }
    out
}

fn calls(l: &[Arc<Ledger>]) -> u64 {
    l.iter().map(|l| l.calls()).sum()
}

fn dead(l: &[Arc<Ledger>]) -> u64 {
    l.iter().map(|l| l.dead.load(SeqCst)).sum()
}

/// Overwrite text where it is.
fn scribble(s: &mut String) {
    for b in unsafe { s.as_mut_vec() } {
        *b = b'#';
    }
}

fn change_user(u: &mut U) {
    u.frags.iter_mut().for_each(scribble);
    u.num = !u.num;
    change_model(&mut u.m);
    if let Some(c) = &mut u.cause {
        change_user(c);
    }
    u.cause = None;
}

fn change_model(m: &mut M) {
    match m {
        M::Str(s) => scribble(s),
        M::Frags(v) | M::BagText(v) => v.iter_mut().for_each(scribble),
        M::SvText(v, _) => v.iter_mut().for_each(|v| scribble(&mut v.0)),
        M::Bytes(v) => v.fill(b'#'),
        M::SvBin(v, _) => v.iter_mut().for_each(|v| v.0.fill(b'#')),
        M::Some(m) | M::Newtype(_, m) | M::NewtypeVariant(_, _, _, m) | M::Bag(m) | M::Cross(m) => change_model(m),
        M::SvTagged(_, m) | M::SvEnum(_, m) | M::SvHint(_, m) => change_model(m),
        M::Seq(v, _) | M::Tuple(v) | M::TupleStruct(_, v) | M::TupleVariant(_, _, _, v) => {
            v.iter_mut().for_each(change_model)
        }
        M::Map(v, _) => v.iter_mut().for_each(|(k, v)| {
            change_model(k);
            change_model(v)
        }),
        M::Struct(_, v) | M::StructVariant(_, _, _, v) => v.iter_mut().for_each(|v| change_model(&mut v.1)),
        M::SvRecord(_, v, _) | M::SvTuple(_, v, _) | M::SvRecTup(_, v, _) => {
            v.iter_mut().for_each(|v| change_model(&mut v.1))
        }
        m => *m = M::Bool(true),
    }
}

fn change_elem(e: &mut Elem) {
    match e {
        Elem::Prim(Prim::Str(s)) => scribble(s),
        Elem::Debug(u) | Elem::Display(u) | Elem::Error(u) | Elem::Sval(u) | Elem::Serde(u) => change_user(u),
        Elem::Seq(v) => v.iter_mut().for_each(change_elem),
        e => *e = Elem::Prim(Prim::U8(255)),
    }
}

fn change(data: &mut Data) {
    match data {
        Data::Prim(Prim::Str(s)) => scribble(s),
        Data::Debug(u) | Data::Display(u) | Data::Error(u) | Data::Sval(u) | Data::Serde(u) => change_user(u),
        Data::Seq(Seq::String(v)) => v.iter_mut().for_each(scribble),
        Data::Seq(Seq::Elems(v)) => v.iter_mut().for_each(change_elem),
        Data::Seq(Seq::Owned(v)) => v.clear(),
        Data::Seq(Seq::U64(v)) => v.fill(255),
        Data::Seq(Seq::I64(v)) => v.fill(255),
        Data::Seq(Seq::F64(v)) => v.fill(255.0),
        _ => (),
    }
}

/// Use memory that was just freed for something else.
fn reuse(rng: &mut Rng) -> Vec<Vec<u8>> {
    (0..24 + rng.below(24))
        .map(|i| vec![b'#'; if i % 2 == 0 { 1 + i * 4 } else { 1 + rng.below(400) }])
        .collect()
}

struct Kept {
    name: &'static str,
    bag: OwnedValueBag,
    then: Obs,
}

/// Read, clone, re-borrow, share and drop the copies in any order.
fn live_on(ctx: &mut Ctx, mut kept: Vec<Kept>, what: &dyn Fn(&str) -> String, rng: &mut Rng) {
    let steps = 2 + rng.below(5);
    for _ in 0..steps {
        if kept.is_empty() {
            break;
        }
        let n = rng.below(kept.len());
        let k = &kept[n];
        ctx.judgements += 1;
        match rng.below(7) {
            0 | 1 => {
                if let Some(d) = diff(&k.then, &observe(&k.bag.by_ref())) {
                    ctx.violate(what(&format!("{}, read later: {d}", k.name)));
                }
            }
            2 => {
                let bag = k.bag.clone();
                if let Some(d) = diff(&k.then, &observe(&bag.by_ref())) {
                    ctx.violate(what(&format!("{}, cloned later: {d}", k.name)));
                }
                let (name, then) = (k.name, k.then.clone());
                kept.push(Kept { name, bag, then });
            }
            3 => {
                if let Some(d) = diff(&k.then, &observe(&k.bag.by_ref().by_ref())) {
                    ctx.violate(what(&format!("{}, re-borrowed later: {d}", k.name)));
                }
            }
            4 => {
                let bag = k.bag.clone().into_shared();
                if let Some(d) = diff(&k.then.clone().unborrowed(), &observe(&bag.by_ref()).unborrowed()) {
                    ctx.violate(what(&format!("{}, shared later: {d}", k.name)));
                }
            }
            5 => {
                let bag = k.bag.by_ref().to_owned();
                if let Some(d) = diff(&k.then.clone().unborrowed(), &observe(&bag.by_ref()).unborrowed()) {
                    ctx.violate(what(&format!("{}, buffered again later: {d}", k.name)));
                }
            }
            _ => drop(kept.swap_remove(n)),
        }
    }
    for k in &kept {
        if let Some(d) = diff(&k.then, &observe(&k.bag.by_ref())) {
            ctx.violate(what(&format!("{}, read at the end: {d}", k.name)));
        }
    }
}

fn outlive(ctx: &mut Ctx, mut s: Subject, rng: &mut Rng) {
    let leds = ledgers(&s.data);
    let name = s.describe();
    // The value's own code says all there is to know
    let own = matches!(
        s.data,
        Data::Debug(_) | Data::Display(_) | Data::Error(_) | Data::Sval(_) | Data::Serde(_)
    );
    let mut kept = Vec::new();
    let first = rng.below(COPIES.len());
    let mut shared = false;
    s.data.with(s.route, s.wrap, &mut |info: &Info, bag: &ValueBag| {
        shared = info.shared || info.name.starts_with("fill_any(shared");
        if shared {
            return;
        }
        for n in 0..2 {
            let which = (first + n * 3) % COPIES.len();
            let before = calls(&leds);
            let o = copy(which, bag);
            let after = calls(&leds);
            if own {
                ctx.check(after > before, || format!("{name}, {}: nothing was read", COPIES[which]));
            }
            let then = observe(&o.by_ref());
            ctx.check(calls(&leds) == after, || {
                format!("{name}, {}: reading the copy ran the value's own code", COPIES[which])
            });
            kept.push(Kept {
                name: COPIES[which],
                bag: o,
                then,
            });
            ctx.eval(false, &format!("{name} {} {}", info.name, COPIES[which]));
        }
    });
    if shared {
        ctx.eval(true, "");
        return;
    }
    let quiet = calls(&leds);
    let what = |d: &str| format!("{name}: {d}");

    // Change the source, free it, and put something else there
    change(&mut s.data);
    for k in &kept {
        ctx.judgements += 1;
        if let Some(d) = diff(&k.then, &observe(&k.bag.by_ref())) {
            ctx.violate(what(&format!("{}, after the source changed: {d}", k.name)));
        }
    }
    ctx.check(calls(&leds) == quiet, || what("the value's own code ran after the copy was made"));

    // What it says now is the same as what its like says somewhere else
    let which = rng.below(COPIES.len());
    let now = |data: &Data| {
        let mut obs = None;
        data.with(s.route, s.wrap, &mut |_: &Info, bag: &ValueBag| {
            obs = Some(observe(&copy(which, bag).by_ref()));
        });
        obs.unwrap()
    };
    let like = s.data.clone();
    let here = now(&s.data);
    if let Some(d) = diff(&now(&like), &here) {
        ctx.violate(what(&format!("{} of the changed source: {d}", COPIES[which])));
    }
    ctx.count_up("copies of a changed source");
    drop(like);
    drop(s);
    let quiet = calls(&leds);
    free_leaked();
    let junk = reuse(rng);
    live_on(ctx, kept, &what, rng);
    drop(junk);

    ctx.check(calls(&leds) == quiet, || what("the value's own code ran again after the copy was made"));
    ctx.check(dead(&leds) == 0, || what("a dropped value was used"));
}

/// Says something else every time it's asked.
struct Ticker(AtomicU64);

impl Ticker {
    fn tick(&self) -> u64 {
        self.0.fetch_add(1, SeqCst)
    }
}

impl fmt::Debug for Ticker {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "debug {}", self.tick())
    }
}

impl fmt::Display for Ticker {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "display {}", self.tick())
    }
}

impl std::error::Error for Ticker {}

impl Serialize for Ticker {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self.tick() {
            n if n % 3 == 0 => s.serialize_u64(n),
            n if n % 3 == 1 => s.collect_str(&format_args!("{n}")),
            n => vec![n; n as usize % 17].serialize(s),
        }
    }
}

impl Value for Ticker {
    fn stream<'sval, S: Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        match self.tick() {
            n if n % 3 == 0 => s.u64(n),
            n if n % 3 == 1 => {
                s.text_begin(None)?;
                s.text_fragment_computed(&format!("{n}"))?;
                s.text_end()
            }
            n => {
                s.seq_begin(None)?;
                for _ in 0..n % 17 {
                    s.seq_value_begin()?;
                    s.u64(n)?;
                    s.seq_value_end()?;
                }
                s.seq_end()
            }
        }
    }
}

/// Copies of a value that never says the same thing twice.
fn restless(ctx: &mut Ctx, rng: &mut Rng) {
    let start = rng.u64() >> (8 + rng.below(50));
    let t = Ticker(AtomicU64::new(start));
    let fills = AtomicU64::new(0);
    let fill = |s: Slot| {
        let n = fills.fetch_add(1, SeqCst);
        match n % 4 {
            0 => s.fill_any(n),
            1 => s.fill_debug(&t),
            2 => s.fill_sval2(&t),
            _ => s.fill_serde1(&t),
        }
    };
    let d: &dyn fmt::Debug = &t;
    let e: &(dyn std::error::Error + 'static) = &t;
    let list = Coll::new(vec![1u64, 2, 3]);
    let bags: Vec<(&str, ValueBag)> = vec![
        ("capture_debug", ValueBag::from_debug(&t)),
        ("capture_display", ValueBag::from_display(&t)),
        ("From<&dyn Debug>", ValueBag::from(d)),
        ("from_dyn_error", ValueBag::from_dyn_error(e)),
        ("from_sval2", ValueBag::from_sval2(&t)),
        ("from_serde1", ValueBag::from_serde1(&t)),
        ("from_fill", ValueBag::from_fill(&fill)),
        ("from_seq_slice", ValueBag::from_seq_slice(&list)),
    ];
    let pick = rng.below(bags.len());
    let (name, bag) = &bags[pick];
    let mut kept = Vec::new();
    let ticks = || t.0.load(SeqCst) + fills.load(SeqCst) + list.led.calls();
    for _ in 0..2 {
        let which = rng.below(COPIES.len());
        let before = ticks();
        let o = copy(which, bag);
        let after = ticks();
        ctx.check(after > before, || format!("{name}, {}: nothing was read", COPIES[which]));
        let then = observe(&o.by_ref());
        kept.push(Kept {
            name: COPIES[which],
            bag: o,
            then,
        });
        ctx.eval(false, &format!("{name} from {start} {}", COPIES[which]));
    }
    let quiet = ticks();
    live_on(ctx, kept, &|w| format!("{name} ticking from {start}: {w}"), rng);
    ctx.check(ticks() == quiet, || format!("{name}: reading a copy ran the value's own code"));
    ctx.count_up("restless values");
}

pub fn run(ctx: &mut Ctx) -> &'static str {
    let n = ctx.count(8, 12000, 160000);
    ctx.cases("anything", n, |ctx, _, rng| {
        let mut s = Subject::gen(rng);
        if !matches!(s.wrap, Wrap::Plain | Wrap::ByRef | Wrap::Clone) {
            s.wrap = Wrap::Plain;
        }
        ctx.count_up(match &s.data {
            Data::Prim(_) => "primitives",
            Data::Debug(_) | Data::Display(_) => "formatted values",
            Data::Error(_) => "errors",
            Data::Sval(_) => "sval values",
            Data::Serde(_) => "serde values",
            Data::Seq(_) => "sequences",
            Data::FailFill => "failing fills",
        });
        outlive(ctx, s, rng)
    });
    let n = ctx.count(6, 6000, 60000);
    ctx.cases("text", n, |ctx, i, rng| {
        let t = gen::text_of(rng, (i % 120) as usize);
        let frag = gen::fragments(rng, &t);
        let user = |m: M| U::new(frag.clone(), 7, m);
        let data = match rng.below(8) {
            0 => Data::Prim(Prim::Str(t)),
            1 => Data::Debug(user(M::Unit)),
            2 => Data::Display(user(M::Unit)),
            3 => Data::Error(user(M::Unit)),
            4 => Data::Sval(user(M::Str(t))),
            5 => Data::Sval(user(M::Seq(vec![M::Str(t), M::SvText(vec![("b".into(), false)], false)], true))),
            6 => Data::Serde(user(M::Some(Box::new(M::Str(t))))),
            _ => Data::Seq(Seq::String(vec![t.clone(), t])),
        };
        let s = Subject {
            route: rng.below(data.routes()),
            data,
            wrap: Wrap::Plain,
        };
        outlive(ctx, s, rng)
    });
    let n = ctx.count(3, 4000, 60000);
    ctx.cases("structures", n, |ctx, i, rng| {
        let data = match i % 2 {
            0 => Data::Sval(U::gen_data(rng, 5, Dom::SVAL.bags())),
            _ => Data::Serde(U::gen_data(rng, 5, Dom::SERDE.bags())),
        };
        let s = Subject {
            route: rng.below(data.routes()),
            data,
            wrap: Wrap::Plain,
        };
        outlive(ctx, s, rng)
    });
    let n = ctx.count(8, 6000, 80000);
    ctx.cases("restless", n, |ctx, _, rng| restless(ctx, rng));
    "distinct (value, capture route, way of copying) triples whose copies were read again after the source was changed, freed and its memory reused"
}
