//! No use of the safe API causes undefined behaviour.
//!
//! The sanitizers and Miri judge what runs here; the workload itself checks text, leaks and ledgers.

use std::{
    borrow::Cow,
    cell::Cell,
    error::Error as StdError,
    fmt::{self, Write},
    panic::{catch_unwind, resume_unwind, AssertUnwindSafe},
    sync::{atomic::Ordering::Relaxed, Arc},
};

use value_bag::{fill::Slot, visit::Visit, Error, OwnedValueBag, ValueBag};

use crate::{
    alloc::measure,
    ctx::{short, take_panic, Ctx},
    gen,
    model::M,
    obs,
    prim::Prim,
    recserde, recsval,
    rng::Rng,
    subject::{Data, Info, Seq, Subject, WRAPS},
    user::{Coll, Elem, Ledger, UserPanic, U},
};

/// Look at every byte of a text.
fn valid(s: &str) -> bool {
    let b = s.as_bytes();
    b.len() == s.len() && std::str::from_utf8(b).is_ok() && s.chars().map(|c| c.len_utf8()).sum::<usize>() == b.len()
}

/// Do everything there is to a bag, and look at every text it hands out.
fn everything(b: &ValueBag, bad: &mut Vec<String>) {
    let mut text = |name: &str, s: &str| {
        if !valid(s) {
            bad.push(format!("{name} gave invalid text {:?}", s.as_bytes()));
        }
    };
    if let Some(s) = b.to_borrowed_str() {
        text("to_borrowed_str", s);
    }
    if let Some(s) = b.to_str() {
        text("to_str", &s);
    }
    if let Some(v) = b.to_borrowed_str_seq::<Vec<Option<&str>>>() {
        v.into_iter().flatten().for_each(|s| text("to_borrowed_str_seq", s));
    }
    if let Some(v) = b.to_str_seq::<Vec<Option<Cow<str>>>>() {
        v.into_iter().flatten().for_each(|s| text("to_str_seq", &s));
    }
    if let Ok(s) = obs::text(format_args!("{b}")) {
        text("Display", &s);
    }
    if let Ok(s) = obs::text(format_args!("{b:?}")) {
        text("Debug", &s);
    }
    if let Some(e) = b.to_borrowed_error() {
        for s in crate::recvisit::chain(e) {
            text("the error", &s);
        }
    }
    for e in recserde::trace(b).unwrap_or_else(|e| e) {
        if let recserde::S::Str(s) = e {
            text("serialize", &s);
        }
    }
    for e in recsval::trace(b).unwrap_or_else(|e| e) {
        if let recsval::V::Text(s, _) = e {
            text("stream", &s);
        }
    }
    let (calls, _) = obs::visit_of(b);
    for c in calls {
        if let crate::recvisit::C::Str(s) | crate::recvisit::C::BorrowedStr(s, _) = c {
            text("visit", &s);
        }
    }
    let _ = crate::prim::casts_of(b);
    let _ = obs::seqs_of(b);
    let _ = b.downcast_ref::<U>().map(|u| u.num);
    let _ = b.is_empty();
}

/// Handles in a random order, and reads of them.
fn history(bag: &ValueBag, rng: &mut Rng, bad: &mut Vec<String>) {
    let mut pool: Vec<OwnedValueBag> = vec![bag.to_owned()];
    for _ in 0..2 + rng.below(6) {
        let i = rng.below(pool.len());
        let o = match rng.below(7) {
            0 => pool[i].clone(),
            1 => pool[i].clone().into_shared(),
            2 => pool[i].by_ref().to_owned(),
            3 => pool[i].by_ref().clone().to_shared(),
            4 => {
                everything(&pool[i].by_ref(), bad);
                continue;
            }
            5 => bag.to_shared(),
            _ => {
                if pool.len() > 1 {
                    pool.swap_remove(i);
                }
                continue;
            }
        };
        pool.push(o);
    }
    while !pool.is_empty() {
        let o = pool.swap_remove(rng.below(pool.len()));
        everything(&o.by_ref(), bad);
    }
}

/// Run something twice; what's still allocated after the second time was leaked.
fn leaks(mut f: impl FnMut()) -> i64 {
    let from = crate::subject::leaked();
    if cfg!(not(miri)) {
        f();
        crate::subject::free_leaked_since(from);
    }
    let ((), c) = measure(|| {
        f();
        crate::subject::free_leaked_since(from);
    });
    // Something may be kept for next time; an interpreter has its own way to tell
    if cfg!(miri) {
        0
    } else {
        c.live_bytes
    }
}

fn subject(ctx: &mut Ctx, s: &Subject, rng: &mut Rng) {
    let seed = rng.u64();
    let mut bad = Vec::new();
    let leaked = leaks(|| {
        let mut b = Vec::new();
        s.with(&mut |_: &Info, bag: &ValueBag| {
            let mut rng = Rng::new(seed);
            everything(bag, &mut b);
            history(bag, &mut rng, &mut b);
        });
        if !b.is_empty() {
            bad = b;
        }
    });
    for b in bad.drain(..).take(3) {
        ctx.violate(format!("{}: {b}", s.describe()));
    }
    drop(bad);
    ctx.check(leaked == 0, || format!("{}: {leaked} bytes leaked", s.describe()));
    for l in super::c09::ledgers(&s.data) {
        let dead = l.dead.load(Relaxed);
        ctx.check(dead == 0, || format!("{}: used {dead} times after it was dropped", s.describe()));
    }
    ctx.judgements += 30;
    ctx.eval(false, &s.describe());
}

/// Text of every length, in every number of pieces.
fn strings(ctx: &mut Ctx, t: &str, rng: &mut Rng) {
    let frags = gen::fragments(rng, t);
    let mut u = U::new(frags.clone(), 7, M::Frags(frags.clone()));
    if rng.bool() {
        u.m = M::SvText(frags.into_iter().map(|f| (f, rng.bool())).collect(), rng.bool());
    }
    let wrap = *rng.pick(&WRAPS);
    let data = match rng.below(6) {
        0 | 1 => Data::Prim(Prim::Str(t.to_owned())),
        2 => Data::Display(u),
        3 => Data::Debug(u),
        4 if matches!(u.m, M::SvText(..)) => Data::Sval(u),
        4 => Data::Serde(u),
        _ => Data::Error(u),
    };
    let route = rng.below(data.routes());
    subject(ctx, &Subject { data, route, wrap }, rng);
    ctx.count_up("texts by length");
}

/// What a bag that doesn't borrow anything lends for as long as one likes.
fn outlives(ctx: &mut Ctx, rng: &mut Rng) {
    #[derive(Default)]
    struct Stash {
        strs: Vec<&'static str>,
        errs: Vec<&'static (dyn StdError + 'static)>,
    }
    impl Visit<'static> for Stash {
        fn visit_any(&mut self, _: ValueBag) -> Result<(), Error> {
            Ok(())
        }
        fn visit_borrowed_str(&mut self, s: &'static str) -> Result<(), Error> {
            self.strs.push(s);
            Ok(())
        }
        fn visit_borrowed_error(&mut self, e: &'static (dyn StdError + 'static)) -> Result<(), Error> {
            self.errs.push(e);
            Ok(())
        }
    }
    let t = gen::text(rng);
    let mut u = U::gen_error(rng);
    u.m = if rng.bool() { M::Str(t.clone()) } else { M::Seq(vec![M::Str(t.clone()), M::Some(Box::new(M::Str(t.clone())))], true) };
    let led: Arc<Ledger> = u.led.clone();
    let (name, bag): (_, ValueBag<'static>) = match rng.below(12) {
        0 => ("capture_shared_debug(String)", ValueBag::capture_shared_debug(t.clone())),
        1 => ("capture_shared_display(String)", ValueBag::capture_shared_display(t.clone())),
        2 => ("capture_shared_sval2(String)", ValueBag::capture_shared_sval2(t.clone())),
        3 => ("capture_shared_serde1(String)", ValueBag::capture_shared_serde1(t.clone())),
        4 => ("capture_shared_sval2(data)", ValueBag::capture_shared_sval2(u)),
        5 => ("capture_shared_serde1(data)", ValueBag::capture_shared_serde1(u)),
        6 => ("capture_shared_error", ValueBag::capture_shared_error(u)),
        7 => ("capture_shared_seq_slice(strings)", ValueBag::capture_shared_seq_slice(vec![t.clone(), t.clone()])),
        8 => (
            "capture_shared_seq_slice(elements)",
            ValueBag::capture_shared_seq_slice(vec![Elem::Prim(Prim::Str(t.clone())), Elem::Error(u.clone()), Elem::Sval(u)]),
        ),
        9 => ("capture_shared_seq_slice(user type)", ValueBag::capture_shared_seq_slice(Coll::new(vec![t.clone()]))),
        10 => ("capture_shared_display(error)", ValueBag::capture_shared_display(u)),
        _ => ("capture_shared_seq_slice(owned bags)", {
            let o = ValueBag::from(&*t).to_owned();
            let e = ValueBag::capture_error(&u).to_owned();
            ValueBag::capture_shared_seq_slice(vec![o, e])
        }),
    };
    let bag = if rng.bool() { bag.clone() } else { bag };
    let mut st = Stash::default();
    let _ = bag.visit(&mut st);
    if let Some(s) = bag.to_borrowed_str() {
        st.strs.push(s);
    }
    if let Some(v) = bag.to_borrowed_str_seq::<Vec<Option<&'static str>>>() {
        st.strs.extend(v.into_iter().flatten());
    }
    if let Some(Cow::Borrowed(s)) = bag.to_str() {
        st.strs.push(s);
    }
    if let Some(v) = bag.to_str_seq::<Vec<Option<Cow<'static, str>>>>() {
        st.strs.extend(v.into_iter().flatten().filter_map(|s| match s {
            Cow::Borrowed(s) => Some(s),
            Cow::Owned(_) => None,
        }));
    }
    if let Ok(s) = <&'static str>::try_from(bag.clone()) {
        st.strs.push(s);
    }
    if let Some(e) = bag.to_borrowed_error() {
        st.errs.push(e);
    }
    // None of it may need the bag any more
    drop(bag);
    let live = led.live();
    let churn: Vec<String> = (0..8).map(|i| "#".repeat(t.len() + i)).collect();
    for s in &st.strs {
        ctx.check(valid(s) && *s == t, || format!("{name}: text handed out for good changed to {s:?}"));
    }
    for e in &st.errs {
        ctx.check(live > 0, || format!("{name}: an error handed out for good is gone"));
        if live > 0 {
            let _ = crate::recvisit::chain(*e);
        }
    }
    drop(churn);
    ctx.count_up("bags that borrow nothing");
    ctx.eval(false, &format!("{name} {t:?}"));
}

thread_local! {
    static FUSE: Cell<i64> = const { Cell::new(-1) };
}

/// Unwinds at one of the calls.
fn fuse() {
    FUSE.with(|f| {
        let n = f.get();
        f.set(n - 1);
        if n == 0 {
            resume_unwind(Box::new(UserPanic));
        }
    })
}

/// A sink, serializer's value, visitor and collection that unwind.
struct Blow;

impl Write for Blow {
    fn write_str(&mut self, _: &str) -> fmt::Result {
        fuse();
        Ok(())
    }
}

impl<'v> Visit<'v> for Blow {
    fn visit_any(&mut self, _: ValueBag) -> Result<(), Error> {
        fuse();
        Ok(())
    }
    fn visit_str(&mut self, _: &str) -> Result<(), Error> {
        fuse();
        Ok(())
    }
    fn visit_error(&mut self, _: &(dyn StdError + 'static)) -> Result<(), Error> {
        fuse();
        Ok(())
    }
}

#[derive(Default)]
struct BlowSeq(Vec<String>);

impl<T: fmt::Debug> Extend<T> for BlowSeq {
    fn extend<I: IntoIterator<Item = T>>(&mut self, i: I) {
        for v in i {
            fuse();
            self.0.push(format!("{v:?}"));
        }
    }
}

/// Elements and collections that unwind.
struct BlowElem(String);

impl<'a> From<&'a BlowElem> for ValueBag<'a> {
    fn from(e: &'a BlowElem) -> ValueBag<'a> {
        fuse();
        ValueBag::from(&e.0)
    }
}

struct BlowColl(Vec<BlowElem>);

impl AsRef<[BlowElem]> for BlowColl {
    fn as_ref(&self) -> &[BlowElem] {
        fuse();
        &self.0
    }
}

#[derive(Clone)]
struct BlowText(Vec<String>, Arc<()>);

impl fmt::Display for BlowText {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        for s in &self.0 {
            fuse();
            f.write_str(s)?;
        }
        Ok(())
    }
}

impl fmt::Debug for BlowText {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}

impl StdError for BlowText {
    fn source(&self) -> Option<&(dyn StdError + 'static)> {
        fuse();
        None
    }
}

impl value_bag_serde1::lib::Serialize for BlowText {
    fn serialize<S: value_bag_serde1::lib::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use value_bag_serde1::lib::ser::SerializeSeq;
        fuse();
        let mut q = s.serialize_seq(None)?;
        for s in &self.0 {
            q.serialize_element(s)?;
            fuse();
        }
        q.end()
    }
}

impl value_bag_sval2::lib::Value for BlowText {
    fn stream<'sval, S: value_bag_sval2::lib::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> value_bag_sval2::lib::Result {
        fuse();
        s.seq_begin(None)?;
        for t in &self.0 {
            s.seq_value_begin()?;
            s.value(t)?;
            fuse();
            s.seq_value_end()?;
        }
        s.seq_end()
    }
}

const OPS: [(&str, fn(&ValueBag)); 13] = [
    ("Display", |b| drop(write!(Blow, "{b}"))),
    ("Debug", |b| drop(write!(Blow, "{b:#?}"))),
    ("serialize", |b| drop(recserde::trace(b))),
    ("stream", |b| drop(recsval::trace(b))),
    ("visit", |b| drop(b.visit(&mut Blow))),
    ("to_owned", |b| drop(b.to_owned())),
    ("to_shared", |b| drop(b.to_shared())),
    ("to_u64", |b| _ = b.to_u64()),
    ("to_str", |b| drop(b.to_str())),
    ("to_i64_seq", |b| drop(b.to_i64_seq::<BlowSeq>())),
    ("to_str_seq", |b| drop(b.to_str_seq::<BlowSeq>())),
    ("as_f64_seq", |b| drop(b.as_f64_seq::<BlowSeq>())),
    ("to_borrowed_error", |b| _ = b.to_borrowed_error()),
];

/// Unwind out of every call of user code.
fn panics(ctx: &mut Ctx, rng: &mut Rng) {
    let t = gen::text(rng);
    let frags = gen::fragments(rng, &t);
    let token = Arc::new(());
    let text = BlowText(frags.clone(), token.clone());
    let which = rng.below(15);
    let (opname, op) = *rng.pick(&OPS);
    let steps = if cfg!(miri) { 4 } else { 14 };
    let mut unwound = 0;
    let mut bad = Vec::new();
    for at in 0..steps {
        let mut name = "";
        let leaked = leaks(|| {
            let coll = BlowColl(frags.iter().map(|f| BlowElem(f.clone())).collect());
            let fill = |s: Slot| {
                fuse();
                let r = s.fill_display(&text);
                fuse();
                r
            };
            FUSE.with(|f| f.set(-1));
            let n;
            let bag;
            let plain = frags.concat();
            (n, bag) = match which {
                0 => ("capture_debug", ValueBag::capture_debug(&text)),
                1 => ("capture_display", ValueBag::capture_display(&text)),
                2 => ("capture_error", ValueBag::capture_error(&text)),
                3 => ("capture_sval2", ValueBag::capture_sval2(&text)),
                4 => ("capture_serde1", ValueBag::capture_serde1(&text)),
                5 => ("from_dyn_display", ValueBag::from_dyn_display(&text)),
                6 => ("capture_shared_display", ValueBag::capture_shared_display(text.clone())),
                7 => ("capture_shared_error", ValueBag::capture_shared_error(text.clone())),
                8 => ("capture_shared_sval2", ValueBag::capture_shared_sval2(text.clone())),
                9 => ("capture_shared_serde1", ValueBag::capture_shared_serde1(text.clone())),
                10 => ("from_fill", ValueBag::from_fill(&fill)),
                11 => ("from_seq_slice", ValueBag::from_seq_slice(&coll)),
                12 => (
                    "capture_shared_seq_slice",
                    ValueBag::capture_shared_seq_slice(BlowColl(frags.iter().map(|f| BlowElem(f.clone())).collect())),
                ),
                13 => ("text", ValueBag::from(&plain)),
                _ => ("number", ValueBag::from(5)),
            };
            name = n;
            FUSE.with(|f| f.set(at));
            let r = catch_unwind(AssertUnwindSafe(|| op(&bag)));
            FUSE.with(|f| f.set(-1));
            if let Err(p) = r {
                if p.is::<UserPanic>() {
                    unwound += 1;
                } else {
                    // Some other panic
                    bad.push(take_panic());
                }
            }
            // It can still be used
            let mut b = Vec::new();
            everything(&bag, &mut b);
            let o = bag.to_owned();
            everything(&o.by_ref(), &mut b);
            drop(bag);
            drop(o);
            if !b.is_empty() {
                bad.push(None);
            }
        });
        let what = |n: &str| format!("{name} {frags:?}, {opname}, unwinding at call {at}: {n}");
        if let Some(b) = bad.pop() {
            ctx.violate(what(&match b {
                Some(n) => format!("another panic at {}:{}: {}", n.file, n.line, n.msg),
                None => "invalid text".into(),
            }));
            return;
        }
        ctx.check(leaked == 0, || what(&format!("{leaked} bytes leaked")));
        ctx.eval(false, &what(""));
    }
    drop(text);
    let n = Arc::strong_count(&token);
    ctx.check(n == 1, || format!("{opname}: {n} captured values left"));
    ctx.count_by("panics in user code", unwound);
}

/// Collections that don't say the same thing twice.
fn fickle(ctx: &mut Ctx, rng: &mut Rng) {
    struct Fickle(Vec<Vec<String>>, Cell<usize>);
    impl AsRef<[String]> for Fickle {
        fn as_ref(&self) -> &[String] {
            let n = self.1.get();
            self.1.set(n + 1);
            &self.0[n % self.0.len()]
        }
    }
    struct Change(String, Cell<usize>);
    impl<'a> From<&'a Change> for ValueBag<'a> {
        fn from(e: &'a Change) -> ValueBag<'a> {
            let n = e.1.get();
            e.1.set(n + 1);
            match n % 4 {
                0 => ValueBag::from(&e.0),
                1 => ValueBag::from(n),
                2 => ValueBag::capture_debug(&e.0),
                _ => ValueBag::empty(),
            }
        }
    }
    let a = Fickle((0..1 + rng.below(4)).map(|_| (0..rng.below(5)).map(|_| gen::text(rng)).collect()).collect(), Cell::new(0));
    let c: Vec<Change> = (0..rng.below(6)).map(|_| Change(gen::text(rng), Cell::new(rng.below(4)))).collect();
    let seed = rng.u64();
    let mut bad = Vec::new();
    let leaked = leaks(|| {
        let mut rng = Rng::new(seed);
        let b = ValueBag::from_seq_slice(&a);
        everything(&b, &mut bad);
        history(&b, &mut rng, &mut bad);
        let b = ValueBag::from_seq_slice(&c);
        everything(&b, &mut bad);
        history(&b, &mut rng, &mut bad);
        // Nothing has a size here
        let b = ValueBag::from_seq_slice(&[Zst; 3]);
        everything(&b, &mut bad);
        history(&b, &mut rng, &mut bad);
        let b = ValueBag::capture_shared_seq_slice([Zst; 2]);
        everything(&b, &mut bad);
        history(&b, &mut rng, &mut bad);
        let b = ValueBag::capture_debug(&Zst);
        everything(&b, &mut bad);
        history(&b, &mut rng, &mut bad);
        let b = ValueBag::capture_shared_debug(Zst);
        everything(&b, &mut bad);
        history(&b, &mut rng, &mut bad);
    });
    for b in bad.iter().take(3) {
        ctx.violate(format!("fickle collections: {b}"));
    }
    ctx.check(leaked == 0, || format!("fickle collections: {leaked} bytes leaked"));
    ctx.count_up("fickle collections");
    ctx.eval(false, &short(&a.0));
}

#[derive(Debug, Clone, Copy)]
struct Zst;

impl<'a> From<&'a Zst> for ValueBag<'a> {
    fn from(z: &'a Zst) -> ValueBag<'a> {
        ValueBag::capture_debug(z)
    }
}

/// Primitives captured by type, and what only looks like them.
fn primitives(ctx: &mut Ctx, p: &Prim, rng: &mut Rng) {
    let mut bad = Vec::new();
    let every = !cfg!(miri);
    let seed = rng.u64();
    let leaked = leaks(|| {
        let mut n = 0;
        p.routes(&mut |_, bag: &ValueBag| {
            n += 1;
            // All of them takes long under an interpreter
            if every || (n ^ seed) % 8 == 0 {
                everything(bag, &mut bad);
                everything(&bag.to_owned().by_ref(), &mut bad);
                let mut rng = Rng::new(seed ^ n);
                if rng.one_in(8) {
                    history(bag, &mut rng, &mut bad);
                }
            }
        });
    });
    for b in bad.iter().take(3) {
        ctx.violate(format!("{}: {b}", short(p)));
    }
    ctx.check(leaked == 0, || format!("{}: {leaked} bytes leaked", short(p)));
    ctx.count_up("primitives through every route");
    ctx.eval(false, &short(p));
}

pub fn run(ctx: &mut Ctx) -> &'static str {
    // Every length around the limits of inline storage
    let reps = ctx.count(1, 14, 200);
    let longest = if cfg!(miri) { 50 } else { 140 };
    ctx.cases("text by length", reps * longest, |ctx, i, rng| {
        let mut n = (i % longest) as usize;
        if cfg!(miri) {
            // Only what's near a limit
            n = *rng.pick(&[0, 1, 2, 21, 22, 23, 24, 25, 44, 45, 46, 47, 48, n]);
            if !rng.one_in(3) {
                return;
            }
        }
        let t = gen::text_of(rng, n);
        strings(ctx, &t, rng)
    });
    let n = ctx.count(4, 1200, 15000);
    ctx.cases("primitives", n, |ctx, _, rng| {
        let p = Prim::gen(rng);
        primitives(ctx, &p, rng)
    });
    let n = ctx.count(6, 6000, 80000);
    ctx.cases("sequences", n, |ctx, _, rng| {
        let mut seq = Seq::gen(rng);
        while cfg!(miri) && seq.kinds().len() > 12 {
            seq = Seq::gen(rng);
        }
        let s = Subject::routed(rng, Data::Seq(seq));
        subject(ctx, &s, rng)
    });
    let n = ctx.count(6, 8000, 100000);
    ctx.cases("anything", n, |ctx, _, rng| {
        let mut s = Subject::gen(rng);
        while cfg!(miri) && big(&s) {
            s = Subject::gen(rng);
        }
        subject(ctx, &s, rng)
    });
    let n = ctx.count(12, 10000, 100000);
    ctx.cases("bags that borrow nothing", n, |ctx, _, rng| outlives(ctx, rng));
    let n = ctx.count(8, 4000, 40000);
    ctx.cases("panics in user code", n, |ctx, _, rng| panics(ctx, rng));
    let n = ctx.count(1, 1000, 10000);
    ctx.cases("fickle collections", n, |ctx, _, rng| fickle(ctx, rng));
    "distinct (value, capture route, handle) triples put through every operation under the monitors"
}

/// Too much for an interpreter.
fn big(s: &Subject) -> bool {
    match &s.data {
        Data::Sval(u) | Data::Serde(u) => u.m.clone().size() > 25,
        Data::Seq(s) => s.kinds().len() > 12,
        _ => false,
    }
}
