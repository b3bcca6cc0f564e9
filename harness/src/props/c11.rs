//! Owned values can be read, cloned and dropped from any threads at once.

use std::{
    fmt::{Debug, Display},
    marker::PhantomData,
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering::Relaxed},
        mpsc, Arc, Barrier, Mutex,
    },
};

use value_bag::{OwnedValueBag, ValueBag};

use crate::{
    ctx::{short, take_panic, Ctx, Tier},
    gen,
    model::Dom,
    obs::{diff_light, light, text, visit_of, Light},
    prim::Prim,
    recvisit::{chain, C},
    rng::Rng,
    subject::{Data, Info, Seq, Subject, Wrap},
    user::{Coll, Elem, Ledger, U},
};

/// Whether a type is `Send` and `Sync`, found out when it runs.
struct Is<T>(PhantomData<T>);

#[allow(dead_code)]
trait No {
    const SEND: bool = false;
    const SYNC: bool = false;
}

impl<T> No for Is<T> {}

struct Force<T>(T);

unsafe impl<T> Send for Force<T> {}
unsafe impl<T> Sync for Force<T> {}

impl<T> Force<T> {
    fn get(&self) -> &T {
        &self.0
    }
    fn take(self) -> T {
        self.0
    }
}

#[allow(dead_code)]
impl<T: Send> Is<T> {
    const SEND: bool = true;
}

struct IsSync<T>(PhantomData<T>);

impl<T> No for IsSync<T> {}

#[allow(dead_code)]
impl<T: Sync> IsSync<T> {
    const SYNC: bool = true;
}

/// What everyone must see.
struct Expect {
    light: Light,
    visit: (Vec<C>, bool),
    flags: Vec<Result<String, String>>,
    error: Option<Vec<String>>,
    own: Option<String>,
    token: String,
    what: String,
}

/// Formatted with flags. Addresses aside, nothing of it is specific to a handle.
fn flags(o: &dyn DebugDisplay) -> Vec<Result<String, String>> {
    vec![
        text(format_args!("{o:8}")),
        text(format_args!("{o:>30.5}")),
        text(format_args!("{o:^+40}")),
        text(format_args!("{o:#?}")),
        text(format_args!("{o:<30.5?}")),
        text(format_args!("{o:+012.2?}")),
    ]
}

trait DebugDisplay: Debug + Display {}
impl<T: Debug + Display> DebugDisplay for T {}

/// The captured object, if it is still there.
fn own(b: &ValueBag) -> Option<String> {
    let u = b.downcast_ref::<U>();
    assert_eq!(u.is_some(), b.is::<U>());
    u.map(|u| u.debug_text())
}

fn visited(b: &ValueBag) -> (Vec<C>, bool) {
    let (c, ok) = visit_of(b);
    let c = c
        .into_iter()
        .map(|c| match c {
            C::BorrowedStr(s, _) => C::Str(s),
            C::BorrowedError(s, _) => C::Error(s),
            c => c,
        })
        .collect();
    (c, ok)
}

impl Expect {
    fn of(b: &ValueBag, what: String) -> Expect {
        Expect {
            light: light(b).unborrowed(),
            visit: visited(b),
            flags: flags(b),
            error: b.to_borrowed_error().map(chain),
            own: own(b),
            token: format!("{:?}", b.to_test_token()),
            what,
        }
    }

    /// Read it in one of many ways.
    fn judge(&self, o: &OwnedValueBag, rng: &mut Rng) -> Option<String> {
        let b = o.by_ref();
        let l = &self.light;
        macro_rules! eq {
            ($n:literal, $a:expr, $b:expr) => {
                if $a != $b {
                    return Some(format!("{}, {}: expected {} but observed {}", self.what, $n, short(&$b), short(&$a)));
                }
            };
        }
        match rng.below(15) {
            9 | 10 => eq!("flags", flags(&b), self.flags),
            11 => eq!("flags of the owned bag", flags(o), self.flags),
            12 => {
                // Not every handle lends an error
                if let (Some(got), Some(want)) = (b.to_borrowed_error().map(chain), &self.error) {
                    eq!("error", got, *want)
                }
            }
            13 => eq!("downcast", own(&b), self.own),
            14 => eq!("token", format!("{:?}", b.to_test_token()), self.token),
            0 => eq!("Display", text(format_args!("{b}")), l.display),
            1 => eq!("Debug", text(format_args!("{o:?}")), l.debug),
            2 => eq!("casts", crate::prim::casts_of(&b), l.casts),
            3 => eq!("serialize", crate::recserde::trace(&b), l.serde),
            4 => {
                let s = crate::recsval::trace(o).map(crate::obs::unborrow_v).map_err(crate::obs::unborrow_v);
                eq!("stream", s, l.sval)
            }
            5 => eq!("sequences", crate::obs::seqs_of(&b), l.seqs),
            6 => eq!("visit", visited(&b), self.visit),
            _ => {
                if let Some(d) = diff_light(l, &light(&b).unborrowed()) {
                    return Some(format!("{}, {d}", self.what));
                }
            }
        }
        None
    }
}

/// What is shared by the threads of one case.
struct Stage {
    expect: Vec<Expect>,
    wrong: Mutex<Vec<String>>,
    any_wrong: AtomicBool,
    ops: AtomicU64,
}

impl Stage {
    fn wrong(&self, what: String) {
        self.any_wrong.store(true, Relaxed);
        self.wrong.lock().unwrap().push(what);
    }
}

type Mail = (usize, Force<OwnedValueBag>);

fn thread(st: &Stage, lent: Option<&[OwnedValueBag]>, mut own: Vec<(usize, OwnedValueBag)>, post: Vec<mpsc::Sender<Mail>>, mail: mpsc::Receiver<Mail>, mut rng: Rng, steps: usize) {
    let mut ops = 0;
    for _ in 0..steps {
        if st.any_wrong.load(Relaxed) {
            break;
        }
        ops += 1;
        // Something of its own or something shared
        if let Some(lent) = lent {
            if own.is_empty() || rng.bool() {
                let i = rng.below(lent.len());
                match rng.below(6) {
                    0 => own.push((i, lent[i].clone())),
                    1 => own.push((i, lent[i].by_ref().to_owned())),
                    2 => own.push((i, lent[i].by_ref().to_shared())),
                    _ => {
                        if let Some(w) = st.expect[i].judge(&lent[i], &mut rng) {
                            st.wrong(w)
                        }
                    }
                }
                continue;
            }
        }
        if own.is_empty() {
            match mail.try_recv() {
                Ok((i, o)) => own.push((i, o.take())),
                Err(_) => break,
            }
            continue;
        }
        let at = rng.below(own.len());
        match rng.below(12) {
            0 | 1 => {
                let c = (own[at].0, own[at].1.clone());
                own.push(c)
            }
            2 => {
                let (i, o) = own.swap_remove(at);
                own.push((i, o.into_shared()))
            }
            3 => {
                let c = (own[at].0, own[at].1.by_ref().to_owned());
                own.push(c)
            }
            4 => drop(own.swap_remove(at)),
            5 => {
                let (i, o) = own.swap_remove(at);
                let to = rng.below(post.len());
                // Whoever it's for may be gone already
                let _ = post[to].send((i, Force(o)));
            }
            6 => {
                if let Ok((i, o)) = mail.try_recv() {
                    own.push((i, o.take()))
                }
            }
            _ => {
                let (i, o) = &own[at];
                if let Some(w) = st.expect[*i].judge(o, &mut rng) {
                    st.wrong(w)
                }
            }
        }
        while own.len() > 6 {
            own.swap_remove(rng.below(own.len()));
        }
    }
    st.ops.fetch_add(ops, Relaxed);
}

fn case(ctx: &mut Ctx, subjects: Vec<Subject>, rng: &mut Rng) {
    let mut pool = Vec::new();
    let mut expect = Vec::new();
    let mut ledgers: Vec<(Arc<Ledger>, String)> = Vec::new();
    let share = rng.below(3);
    for s in subjects {
        let mut leaked = false;
        s.with(&mut |info: &Info, bag: &ValueBag| {
            leaked = info.name.starts_with("fill_seq");
            let o = match share {
                0 => bag.to_owned(),
                1 => bag.to_shared(),
                _ => bag.to_owned().into_shared(),
            };
            expect.push(Expect::of(&o.by_ref(), format!("{} ({})", s.describe(), info.name)));
            pool.push(o);
        });
        if !leaked {
            for l in super::c09::ledgers(&s.data) {
                ledgers.push((l, s.describe()));
            }
        }
        // Only what's shared is left after this
        drop(s);
    }
    let sig: Vec<String> = expect.iter().map(|e| e.what.clone()).collect();
    let threads = 2 + rng.below(if cfg!(miri) { 2 } else { 4 });
    let steps = if cfg!(miri) { 12 } else { 20 + rng.below(60) };
    let st = Stage {
        expect,
        wrong: Mutex::new(Vec::new()),
        any_wrong: AtomicBool::new(false),
        ops: AtomicU64::new(0),
    };
    let barrier = Barrier::new(threads);
    let panicked = AtomicU64::new(0);
    let mut post = Vec::new();
    let mut mail = Vec::new();
    for _ in 0..threads {
        let (s, r) = mpsc::channel::<Mail>();
        post.push(s);
        mail.push(r);
    }
    let lend = rng.bool();
    let mut own: Vec<Vec<(usize, OwnedValueBag)>> = (0..threads).map(|_| Vec::new()).collect();
    if !lend {
        // Each thread has handles of its own, and none is left here
        for own in &mut own {
            for (i, o) in pool.iter().enumerate() {
                own.push((i, o.clone()));
            }
        }
        for (i, o) in pool.drain(..).enumerate() {
            own[i % threads].push((i, o));
        }
    }
    let pool = Force(pool);
    std::thread::scope(|scope| {
        for (own, mail) in own.drain(..).zip(mail) {
            let own = Force(own);
            let (st, barrier, pool, panicked) = (&st, &barrier, &pool, &panicked);
            let post = post.clone();
            let rng = Rng::new(rng.u64());
            let _ = std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(scope, move || {
                let own = own;
                let own = own.take();
                barrier.wait();
                let r = catch_unwind(AssertUnwindSafe(|| thread(st, lend.then(|| &pool.get()[..]), own, post, mail, rng, steps)));
                if r.is_err() {
                    panicked.fetch_add(1, Relaxed);
                    let n = take_panic();
                    st.wrong(match n {
                        Some(n) => format!("panic at {}:{}: {}", n.file, n.line, n.msg),
                        None => "a panic".into(),
                    });
                }
            }).unwrap();
        }
        drop(post);
    });
    for w in st.wrong.into_inner().unwrap().into_iter().take(4) {
        ctx.violate(format!("{threads} threads: {w}"));
    }
    drop(pool);
    for (l, what) in &ledgers {
        let (live, dead) = (l.live(), l.dead.load(Relaxed));
        ctx.check(live == 0, || format!("{what}: {live} left after every handle is gone, {threads} threads"));
        ctx.check(dead == 0, || format!("{what}: used {dead} times after it was dropped, {threads} threads"));
    }
    ctx.judgements += st.ops.load(Relaxed);
    ctx.count_by("operations in threads", st.ops.load(Relaxed));
    ctx.count_by("threads", threads as u64);
    ctx.count_by("shared objects with a ledger", ledgers.len() as u64);
    ctx.eval(false, &format!("{threads} threads, lent {lend}, {share}: {sig:?}"));
}

fn shared(rng: &mut Rng) -> Subject {
    let (data, routes): (Data, &[usize]) = match rng.below(8) {
        0 => (Data::Debug(U::gen_text(rng)), &[6]),
        1 => (Data::Display(U::gen_text(rng)), &[6]),
        2 => (Data::Error(U::gen_error(rng)), &[6]),
        3 => (Data::Sval(U::gen_data(rng, 2, Dom::SVAL)), &[6]),
        4 => (Data::Serde(U::gen_data(rng, 2, Dom::SERDE)), &[2]),
        5 => (Data::Prim(Prim::Str(gen::text(rng))), &[0]),
        6 => (Data::Seq(Seq::Elems(Elem::gen_vec(rng, 1))), &[4, 5, 8]),
        _ => (Data::Seq(Seq::gen(rng)), &[4, 5, 8]),
    };
    let route = *rng.pick(routes);
    Subject {
        data,
        route,
        wrap: *rng.pick(&[Wrap::Plain, Wrap::Clone, Wrap::Owned, Wrap::IntoShared]),
    }
}

pub fn run(ctx: &mut Ctx) -> &'static str {
    let (send, sync) = (<Is<OwnedValueBag>>::SEND, <IsSync<OwnedValueBag>>::SYNC);
    ctx.check(send, || "owned bags can't be sent to other threads".into());
    ctx.check(sync, || "owned bags can't be shared between threads".into());
    let small = ctx.tier == Tier::Tiny;
    let n = ctx.count(2, 2500, 30000);
    ctx.cases("shared captures", n, |ctx, _, rng| {
        let n = if small { 1 } else { 1 + rng.below(3) };
        let s = (0..n).map(|_| shared(rng)).collect();
        case(ctx, s, rng)
    });
    let n = ctx.count(2, 2500, 30000);
    ctx.cases("anything", n, |ctx, _, rng| {
        let n = if small { 1 } else { 1 + rng.below(3) };
        let s = (0..n).map(|_| Subject::gen(rng)).collect();
        case(ctx, s, rng)
    });
    let _ = Coll::<u8>::new;
    "distinct sets of owned bags read, cloned, converted, passed on and dropped by two to five threads at once"
}
