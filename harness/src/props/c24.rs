//! Reading a value leaves it as it was.

use std::{
    borrow::Cow,
    cell::RefCell,
    panic::{catch_unwind, resume_unwind, AssertUnwindSafe},
};

use value_bag::ValueBag;

use crate::{
    ctx::{short, Ctx},
    fmtspec, hook,
    model::Dom,
    obs::{seqs_of, strip, strip_visit, text, visit_of},
    prim::{casts_of, Prim},
    recserde, recsval,
    recvisit::{chain, Full},
    rng::Rng,
    sink::Limited,
    subject::{Data, Info, Seq, Subject},
    user::{Elem, FillPrim, UserPanic, U},
};

/// One way of reading a bag.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Op {
    Casts,
    Seqs,
    Debug,
    Display,
    Specs,
    Serde,
    SerdeCompact,
    Sval,
    Visit,
    Empty,
    Borrowed,
    BorrowedSeq,
    Error,
    Token,
    Downcast,
    JsonSerde,
    JsonSval,
    Owned,
    Shared,
    Cloned,
    Collected,
    Limited,
}

const OPS: [Op; 22] = [
    Op::Casts,
    Op::Seqs,
    Op::Debug,
    Op::Display,
    Op::Specs,
    Op::Serde,
    Op::SerdeCompact,
    Op::Sval,
    Op::Visit,
    Op::Empty,
    Op::Borrowed,
    Op::BorrowedSeq,
    Op::Error,
    Op::Token,
    Op::Downcast,
    Op::JsonSerde,
    Op::JsonSval,
    Op::Owned,
    Op::Shared,
    Op::Cloned,
    Op::Collected,
    Op::Limited,
];

/// A collection that's called for every element.
#[derive(Default)]
struct Collect(Vec<String>);

impl<T: std::fmt::Debug> Extend<T> for Collect {
    fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
        for v in iter {
            hook::tick();
            self.0.push(format!("{v:?}"));
        }
    }
}

/// What the read gave, without anything that identifies the handle.
fn read(op: Op, bag: &ValueBag) -> String {
    match op {
        Op::Casts => format!("{:?}", casts_of(bag)),
        Op::Seqs => format!("{:?}", seqs_of(bag)),
        Op::Debug => format!("{:?}", limited(&format_args!("{bag:?}"), usize::MAX)),
        Op::Display => format!("{:?}", limited(&format_args!("{bag}"), usize::MAX)),
        Op::Specs => format!("{:?} {:?}", fmtspec::debug(bag, 13, 2), fmtspec::display(bag, 13, 2)),
        Op::Serde => format!("{:?}", recserde::trace(bag)),
        Op::SerdeCompact => format!("{:?}", recserde::trace_hr(bag, false)),
        Op::Sval => format!("{:?}", strip(recsval::trace(bag))),
        Op::Visit => {
            let (calls, ok) = visit_of(bag);
            format!("{:?} {ok}", calls.into_iter().map(strip_visit).collect::<Vec<_>>())
        }
        Op::Empty => format!("{}", bag.is_empty()),
        Op::Borrowed => format!("{:?}", bag.to_borrowed_str()),
        Op::BorrowedSeq => format!("{:?}", bag.to_borrowed_str_seq::<Vec<Option<&str>>>()),
        Op::Error => format!("{:?}", bag.to_borrowed_error().map(chain)),
        Op::Token => format!("{:?}", bag.to_test_token()),
        Op::Downcast => format!(
            "{} {} {}",
            bag.is::<U>(),
            bag.downcast_ref::<U>().is_some(),
            bag.downcast_ref::<Vec<Elem>>().is_some()
        ),
        Op::JsonSerde => format!("{:?}", value_bag_serde1::json::to_string(bag).map_err(|e| e.to_string())),
        Op::JsonSval => format!("{:?}", value_bag_sval2::json::stream_to_string(bag).map_err(|_| ())),
        Op::Owned => copied(&bag.to_owned().by_ref()),
        Op::Shared => copied(&bag.to_shared().by_ref()),
        Op::Cloned => copied(&bag.by_ref().clone()),
        Op::Collected => {
            let a = bag.to_u64_seq::<Collect>().map(|c| c.0);
            let b = bag.to_str_seq::<Collect>().map(|c| c.0);
            let c = bag.as_f64_seq::<Collect>().0;
            format!("{a:?} {b:?} {c:?}")
        }
        Op::Limited => format!("{:?}", limited(&format_args!("{bag:#?}"), 40)),
    }
}

fn copied(bag: &ValueBag) -> String {
    format!(
        "{:?} {:?} {:?} {:?} {:?}",
        casts_of(bag),
        text(format_args!("{bag:?}")),
        recserde::trace(bag),
        strip(recsval::trace(bag)),
        bag.to_str_seq::<Vec<Option<Cow<str>>>>()
    )
}

fn limited(a: &std::fmt::Arguments, n: usize) -> (Result<(), std::fmt::Error>, String, bool) {
    let mut s = Limited::new(n);
    let r = std::fmt::Write::write_fmt(&mut s, *a);
    (r, s.text, s.failed)
}

/// A value, with what every read must give.
struct Known<'a> {
    name: &'a str,
    want: &'a [(Op, String)],
}

struct Tally {
    wrong: Vec<String>,
    nested: u64,
    deep: u64,
    same: u64,
}

/// Read a bag and compare. Now and then, read it again from inside of the callbacks that makes.
fn compare(bags: &[(&Known, &ValueBag)], at: usize, op: usize, depth: usize, rng: &RefCell<&mut Rng>, tally: &RefCell<Tally>) {
    let (known, bag) = bags[at];
    let (op, want) = &known.want[op];
    let nest = depth > 0 && !rng.borrow_mut().one_in(4);
    let got = if nest {
        let (first, period) = {
            let mut r = rng.borrow_mut();
            let first = match r.below(3) {
                0 => 0,
                1 => r.below(4),
                _ => r.below(30),
            };
            (first as u32, if r.bool() { 0 } else { 1 + r.below(9) as u32 })
        };
        let mut left = 6;
        let mut inner = || {
            if left == 0 {
                return;
            }
            left -= 1;
            let (to, op) = {
                let mut r = rng.borrow_mut();
                let to = if r.one_in(3) { r.below(bags.len()) } else { at };
                (to, r.below(OPS.len()))
            };
            {
                let mut t = tally.borrow_mut();
                t.nested += 1;
                t.deep += (depth < 3) as u64;
                t.same += (to == at) as u64;
            }
            compare(bags, to, op, depth - 1, rng, tally);
        };
        hook::armed(first, period, &mut inner, || read(*op, bag))
    } else {
        read(*op, bag)
    };
    if got != *want {
        tally.borrow_mut().wrong.push(format!(
            "{}: {op:?}{} gave {} instead of {}",
            known.name,
            if nest { " with reads inside of it" } else { "" },
            short(&got),
            short(want)
        ));
    }
}

/// A read that doesn't end well.
fn disturb(ctx: &mut Ctx, bag: &ValueBag, rng: &mut Rng) {
    let k = match rng.below(3) {
        0 => 0,
        1 => rng.below(4),
        _ => rng.below(24),
    };
    match rng.below(7) {
        0 => {
            let mut r = recserde::Rec::failing(k);
            let _ = value_bag_serde1::lib::Serialize::serialize(bag, &mut r);
            ctx.count_up("reads by a failing serializer");
        }
        1 => {
            let mut r = recsval::Rec::failing(k);
            let _ = value_bag_sval2::lib::Value::stream(bag, &mut r);
            ctx.count_up("reads by a failing stream");
        }
        2 => {
            let _ = limited(&format_args!("{bag:?}"), k);
            let _ = limited(&format_args!("{bag}"), k);
            ctx.count_up("reads by a failing sink");
        }
        3 => {
            let mut nothing = |_: &ValueBag| ();
            let _ = bag.visit(&mut Full::new(true, &mut nothing));
            ctx.count_up("reads by a failing visitor");
        }
        _ => {
            let op = *rng.pick(&OPS);
            let mut unwind = || resume_unwind(Box::new(UserPanic));
            let r = catch_unwind(AssertUnwindSafe(|| hook::armed(k as u32, 0, &mut unwind, || read(op, bag))));
            match r {
                Ok(_) => ctx.count_up("reads that ended before the panic"),
                Err(p) if p.is::<UserPanic>() => ctx.count_up("reads that panicked"),
                Err(p) => resume_unwind(p),
            }
        }
    }
}

fn reference(s: &Subject) -> Vec<(Op, String)> {
    OPS.iter()
        .map(|op| {
            // Each read on a bag that nothing else was done to
            let mut r = None;
            s.with(&mut |_: &Info, bag: &ValueBag| r = Some(read(*op, bag)));
            (*op, r.unwrap_or_default())
        })
        .collect()
}

fn judge(ctx: &mut Ctx, s: &Subject, other: &Subject, rng: &mut Rng) {
    let (name, other_name) = (s.describe(), other.describe());
    let (want, other_want) = (reference(s), reference(other));
    let known = Known {
        name: &name,
        want: &want,
    };
    let other_known = Known {
        name: &other_name,
        want: &other_want,
    };
    s.with(&mut |info: &Info, bag: &ValueBag| {
        other.with(&mut |_: &Info, second: &ValueBag| {
            let copy = bag.clone();
            let bags = [(&known, bag), (&known, &copy), (&other_known, second)];
            let tally = RefCell::new(Tally {
                wrong: Vec::new(),
                nested: 0,
                deep: 0,
                same: 0,
            });
            let steps = 12 + rng.below(24);
            let mut done = String::new();
            for _ in 0..steps {
                if rng.one_in(3) {
                    disturb(ctx, bag, rng);
                    done.push('!');
                    continue;
                }
                let at = if rng.one_in(4) { rng.below(3) } else { 0 };
                let op = rng.below(OPS.len());
                let depth = rng.below(4);
                let r = RefCell::new(&mut *rng);
                compare(&bags, at, op, depth, &r, &tally);
                ctx.judgements += 1;
                done.push((b'a' + op as u8) as char);
            }
            let t = tally.into_inner();
            ctx.judgements += t.nested;
            ctx.count_by("reads inside of reads", t.nested);
            ctx.count_by("of the value that was being read", t.same);
            ctx.count_by("more than one level deep", t.deep);
            for w in t.wrong {
                ctx.violate(format!("{w} (after {done}, {})", info.name));
            }
            ctx.count_up("histories of reads");
            ctx.eval(false, &format!("{name} ({}) {done}", info.name));
        });
    });
}

/// Values whose code is called while they're read.
fn small(rng: &mut Rng) -> Subject {
    let data = match rng.below(10) {
        0 => Data::Prim(Prim::gen(rng)),
        1 => Data::Debug(U::gen_text(rng)),
        2 => Data::Display(U::gen_text(rng)),
        3 => Data::Error(U::gen_error(rng)),
        4 | 5 => Data::Sval(U::gen_data(rng, 2, Dom::SVAL)),
        6 | 7 => Data::Serde(U::gen_data(rng, 2, Dom::SERDE)),
        8 => {
            let n = 1 + rng.below(4);
            Data::Seq(Seq::Elems((0..n).map(|_| Elem::Fill(FillPrim(Prim::gen(rng)))).collect()))
        }
        _ => {
            let n = rng.below(5);
            Data::Seq(Seq::Elems((0..n).map(|_| Elem::gen(rng, 1)).collect()))
        }
    };
    Subject::routed(rng, data)
}

pub fn run(ctx: &mut Ctx) -> &'static str {
    let n = ctx.count(4, 6000, 80000);
    ctx.cases("small", n, |ctx, _, rng| {
        let (s, other) = (small(rng), small(rng));
        judge(ctx, &s, &other, rng)
    });
    let n = ctx.count(2, 1500, 20000);
    ctx.cases("anything", n, |ctx, _, rng| {
        let (s, other) = (Subject::gen(rng), small(rng));
        judge(ctx, &s, &other, rng)
    });
    "distinct (value, sequence of reads) pairs: reads in random order, nested in one another's callbacks and following reads that failed or panicked, each compared with the same read of an untouched bag"
}
