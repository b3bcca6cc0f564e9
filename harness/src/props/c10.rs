//! Sharing, cloning and re-borrowing never change or copy a value.

use std::sync::{atomic::Ordering::SeqCst, Arc};

use value_bag::{OwnedValueBag, ValueBag};

use crate::{
    alloc,
    ctx::Ctx,
    model::Dom,
    obs::{diff, observe, Obs},
    props::{
        c08::{agreed, relax},
        c09::ledgers,
    },
    rng::Rng,
    subject::{Data, Info, Seq, Subject, Wrap},
    user::{Coll, Elem, Ledger, U},
};

struct Hist<'a> {
    ctx: &'a mut Ctx,
    rng: &'a mut Rng,
    name: &'a str,
    data: &'a Data,
    path: Vec<&'static str>,
    leds: &'a [Arc<Ledger>],
    /// How many captured values there must be while any handle is held
    live: Option<i64>,
    /// Where the one shared value is
    at: Option<usize>,
    longest: usize,
}

fn user_at(b: &ValueBag) -> Option<usize> {
    b.downcast_ref::<U>().map(|u| u as *const U as usize)
}

impl<'a> Hist<'a> {
    fn counts(&self) -> (u64, u64) {
        (
            self.leds.iter().map(|l| l.calls()).sum(),
            self.leds.iter().map(|l| l.cloned.load(SeqCst)).sum(),
        )
    }

    fn what(&self, d: &str) -> String {
        format!("{} after {}: {d}", self.name, self.path.join(", "))
    }

    /// Take a step that mustn't run the value's own code.
    fn quietly<T>(&mut self, step: &'static str, f: impl FnOnce() -> T) -> T {
        let before = self.counts();
        let r = f();
        let after = self.counts();
        let what = self.what(step);
        self.ctx.check(before.0 == after.0, || format!("{what}: ran the value's own code"));
        self.ctx.check(before.1 == after.1, || format!("{what}: copied the value"));
        self.path.push(step);
        r
    }

    fn node(&mut self, bag: &ValueBag, class: &Obs) {
        self.ctx.judgements += 30;
        if let Some(d) = diff(class, &observe(bag).unborrowed()) {
            let w = self.what(&d);
            self.ctx.violate(w);
        }
        if let Some(live) = self.live {
            let n: i64 = self.leds.iter().map(|l| l.live()).sum();
            let w = self.what("");
            self.ctx.check(n == live, || format!("{w}: {n} values are alive, not {live}"));
        }
        if self.at.is_some() {
            let at = user_at(bag);
            let (w, want) = (self.what(""), self.at);
            self.ctx.check(at == want, || format!("{w}: the value is at {at:?}, not {want:?}"));
        }
        self.longest = self.longest.max(self.path.len());
    }

    /// `settled` when buffering isn't going to read the value.
    fn bag(&mut self, bag: ValueBag, settled: bool, class: &Obs, depth: usize) {
        self.node(&bag, class);
        if depth == 0 || self.ctx.violations.len() > 4 {
            return;
        }
        let keep = self.path.len();
        match self.rng.below(6) {
            0 => {
                let b = self.quietly("by_ref", || bag.by_ref());
                self.bag(b, settled, class, depth - 1);
            }
            1 => {
                let b = self.quietly("clone", || bag.clone());
                self.bag(b, settled, class, depth - 1);
                self.path.truncate(keep);
                self.path.push("(a clone dropped)");
                self.node(&bag, class);
            }
            2 => {
                let b = self.quietly("clone, drop the original", || bag.clone());
                drop(bag);
                self.bag(b, settled, class, depth - 1);
            }
            n => {
                let step = if n == 3 { "to_shared" } else { "to_owned" };
                let make = || if n == 3 { bag.to_shared() } else { bag.to_owned() };
                if settled {
                    let o = self.quietly(step, make);
                    self.owned(o, class, depth - 1);
                } else {
                    let o = make();
                    self.path.push(step);
                    let want = agreed(self.data, &bag);
                    let mut got = agreed(self.data, &o.by_ref());
                    relax(self.data, &want, &mut got);
                    if let Some(d) = diff(&want, &got) {
                        let w = self.what(&d);
                        self.ctx.violate(w);
                    }
                    let class = observe(&o.by_ref()).unborrowed();
                    self.owned(o, &class, depth - 1);
                }
            }
        }
        self.path.truncate(keep);
    }

    fn owned(&mut self, o: OwnedValueBag, class: &Obs, depth: usize) {
        self.node(&o.by_ref(), class);
        if depth == 0 || self.ctx.violations.len() > 4 {
            return;
        }
        let keep = self.path.len();
        match self.rng.below(6) {
            0 => {
                let b = self.quietly("by_ref", || o.by_ref());
                self.bag(b, true, class, depth - 1);
            }
            1 => {
                let b = self.quietly("From<&OwnedValueBag>", || ValueBag::from(&o));
                self.bag(b, true, class, depth - 1);
            }
            2 => {
                let c = self.quietly("clone", || o.clone());
                self.owned(c, class, depth - 1);
                self.path.truncate(keep);
                self.path.push("(a clone dropped)");
                self.node(&o.by_ref(), class);
            }
            3 => {
                let c = self.quietly("clone, drop the original", || o.clone());
                drop(o);
                self.owned(c, class, depth - 1);
            }
            _ => {
                let s = self.quietly("into_shared", || o.into_shared());
                // Text isn't shared
                if !matches!(self.data, Data::Prim(_)) {
                    self.one(&s);
                }
                self.owned(s, class, depth - 1);
            }
        }
        self.path.truncate(keep);
    }

    /// Handles to a shared value share it.
    fn one(&mut self, s: &OwnedValueBag) {
        let (c, n) = alloc::measure(|| s.clone());
        let w = self.what("clone");
        self.ctx.check(n.allocs + n.reallocs == 0, || format!("{w}: allocated {n:?}"));
        let a = c.by_ref().to_borrowed_str().map(|t| (t.as_ptr() as usize, t.len()));
        let b = s.by_ref().to_borrowed_str().map(|t| (t.as_ptr() as usize, t.len()));
        if let (Some(a), Some(b)) = (a, b) {
            // Short text may be kept inline
            if a.1 > 46 {
                self.ctx.eq(&a, &b, || format!("{w}: where its text is"));
                self.ctx.count_up("shared text located");
            }
        }
        let (o, n) = alloc::measure(|| c.by_ref().to_owned());
        self.ctx.check(n.allocs + n.reallocs == 0, || format!("{w}, buffered: allocated {n:?}"));
        drop(c);
        drop(o);
    }
}

fn history(ctx: &mut Ctx, s: &Subject, rng: &mut Rng) {
    let leds = ledgers(&s.data);
    let name = s.describe();
    let alive = || leds.iter().map(|l| l.live()).sum::<i64>();
    let before = alive();
    let mut sig = String::new();
    s.with(&mut |info: &Info, bag: &ValueBag| {
        let class = observe(bag).unborrowed();
        let user = s.ledger().is_some();
        let depth = 2 + rng.below(9);
        let mut h = Hist {
            name: &name,
            data: &s.data,
            path: vec![info.name],
            leds: &leds,
            live: (info.shared && user).then(|| alive()),
            at: (info.shared && user).then(|| user_at(bag)).flatten(),
            longest: 0,
            rng: &mut *rng,
            ctx: &mut *ctx,
        };
        if info.shared && user && h.at.is_none() {
            let w = h.what("no downcast to the shared value");
            h.ctx.violate(w);
        }
        let b = h.quietly("clone", || bag.clone());
        h.bag(b, info.shared || info.buffered, &class, depth);
        h.path.truncate(1);
        // The handle it started from is still good
        h.node(bag, &class);
        sig = format!("{name} {} {}", info.name, h.longest);
    });
    let after = alive();
    if s.ledger().is_some() {
        ctx.check(after == before, || {
            format!("{name}: {} captured values were left over or dropped too often", after - before)
        });
    }
    let dead: u64 = leds.iter().map(|l| l.dead.load(SeqCst)).sum();
    ctx.check(dead == 0, || format!("{name}: a dropped value was used"));
    ctx.eval(false, &sig);
}

/// A copy of a value that couldn't be read stays what it is.
fn failed(ctx: &mut Ctx, rng: &mut Rng) {
    let data = match rng.below(6) {
        0 => Data::FailFill,
        n @ 1..=3 => {
            let mut u = U::gen_text(rng);
            u.fail_fmt = Some(rng.below(u.frags.len() + 2));
            match n {
                1 => Data::Debug(u),
                2 => Data::Display(u),
                _ => Data::Error(u),
            }
        }
        n => {
            let dom = if n == 4 { Dom::SVAL } else { Dom::SERDE };
            let mut u = U::gen_data(rng, 3, dom);
            let mut at = rng.below(u.m.clone().size());
            u.m.fail_at(&mut at);
            if n == 4 {
                Data::Sval(u)
            } else {
                Data::Serde(u)
            }
        }
    };
    let s = Subject {
        route: rng.below(data.routes()),
        data,
        wrap: Wrap::Plain,
    };
    let leds = ledgers(&s.data);
    let name = format!("failing {}", s.describe());
    s.with(&mut |info: &Info, bag: &ValueBag| {
        let (step, o) = match rng.below(3) {
            0 => ("to_owned", bag.to_owned()),
            1 => ("to_shared", bag.to_shared()),
            _ => ("clone, to_owned", bag.clone().to_owned()),
        };
        let class = observe(&o.by_ref()).unborrowed();
        let depth = 2 + rng.below(9);
        let mut h = Hist {
            name: &name,
            data: &s.data,
            path: vec![info.name, step],
            leds: &leds,
            live: None,
            at: None,
            longest: 0,
            rng: &mut *rng,
            ctx: &mut *ctx,
        };
        h.owned(o, &class, depth);
        let sig = format!("{name} {} {}", info.name, h.longest);
        ctx.eval(false, &sig);
        ctx.count_up("histories of failed copies");
    });
}

/// A pool of handles to one shared value, made and dropped in any order.
fn pool(ctx: &mut Ctx, rng: &mut Rng) {
    let (name, led, first): (&str, Arc<Ledger>, ValueBag<'static>) = match rng.below(7) {
        0 => {
            let u = U::gen_text(rng);
            ("debug", u.led.clone(), ValueBag::capture_shared_debug(u))
        }
        1 => {
            let u = U::gen_text(rng);
            ("display", u.led.clone(), ValueBag::capture_shared_display(u))
        }
        2 => {
            let u = U::gen_text(rng);
            ("error", u.led.clone(), ValueBag::capture_shared_error(u))
        }
        3 => {
            let u = U::gen_data(rng, 3, Dom::SVAL);
            ("sval", u.led.clone(), ValueBag::capture_shared_sval2(u))
        }
        4 => {
            let u = U::gen_data(rng, 3, Dom::SERDE);
            ("serde", u.led.clone(), ValueBag::capture_shared_serde1(u))
        }
        5 => {
            let u = Coll::new(Elem::gen_vec(rng, 1));
            ("seq", u.led.clone(), ValueBag::capture_shared_seq_slice(u))
        }
        _ => {
            let u = Coll::new(vec![1u64, 2, 3]);
            ("seq of numbers", u.led.clone(), ValueBag::capture_shared_seq_slice(u))
        }
    };
    let class = observe(&first).unborrowed();
    let mut bags = vec![first];
    let mut owned: Vec<OwnedValueBag> = Vec::new();
    let steps = 4 + rng.below(20);
    let mut path = String::new();
    for _ in 0..steps {
        let calls = led.calls();
        let op = rng.below(9);
        let nb = if bags.is_empty() { None } else { Some(rng.below(bags.len())) };
        let no = if owned.is_empty() { None } else { Some(rng.below(owned.len())) };
        let (_, n) = alloc::measure(|| match (op, nb, no) {
            (0, Some(i), _) => {
                path.push_str(" bag.clone");
                bags.push(bags[i].clone())
            }
            (1, Some(i), _) => {
                path.push_str(" bag.to_owned");
                owned.push(bags[i].to_owned())
            }
            (2, Some(i), _) => {
                path.push_str(" bag.by_ref.to_shared");
                owned.push(bags[i].by_ref().to_shared())
            }
            (3, _, Some(i)) => {
                path.push_str(" owned.clone");
                owned.push(owned[i].clone())
            }
            (4, _, Some(i)) => {
                path.push_str(" owned.by_ref.to_owned");
                owned.push(owned[i].by_ref().to_owned())
            }
            (5, _, Some(i)) => {
                path.push_str(" owned.into_shared");
                let o = owned.swap_remove(i);
                owned.push(o.into_shared())
            }
            (6, Some(i), _) if bags.len() + owned.len() > 1 => {
                path.push_str(" drop bag");
                drop(bags.swap_remove(i))
            }
            (7, _, Some(i)) if bags.len() + owned.len() > 1 => {
                path.push_str(" drop owned");
                drop(owned.swap_remove(i))
            }
            _ => (),
        });
        let _ = n;
        ctx.check(led.calls() == calls, || format!("shared {name}:{path}: ran the value's own code"));
        ctx.check(led.cloned.load(SeqCst) == 0, || format!("shared {name}:{path}: copied the value"));
        let live = led.live();
        ctx.check(live == 1, || format!("shared {name}:{path}: {live} values alive, not 1"));
        if op == 8 {
            let b = match (nb, no) {
                (_, Some(i)) => owned[i].by_ref(),
                (Some(i), _) => bags[i].by_ref(),
                _ => continue,
            };
            if let Some(d) = diff(&class, &observe(&b).unborrowed()) {
                ctx.violate(format!("shared {name}:{path}: {d}"));
            }
        }
    }
    // Let go of all of them in some order
    while bags.len() + owned.len() > 0 {
        let live = led.live();
        ctx.check(live == 1, || format!("shared {name}:{path}: {live} values alive with a handle left"));
        if owned.is_empty() || (!bags.is_empty() && rng.bool()) {
            let i = rng.below(bags.len());
            drop(bags.swap_remove(i));
        } else {
            let i = rng.below(owned.len());
            drop(owned.swap_remove(i));
        }
    }
    let (live, dropped) = (led.live(), led.dropped.load(SeqCst));
    ctx.check(live == 0 && dropped == 1, || {
        format!("shared {name}:{path}: dropped {dropped} times after the last handle went")
    });
    ctx.check(led.dead.load(SeqCst) == 0, || format!("shared {name}:{path}: a dropped value was used"));
    ctx.eval(false, &format!("pool {name}{path}"));
    ctx.count_up("pools");
}

pub fn run(ctx: &mut Ctx) -> &'static str {
    let n = ctx.count(8, 16000, 200000);
    ctx.cases("histories", n, |ctx, _, rng| {
        let mut s = Subject::gen(rng);
        if !matches!(s.wrap, Wrap::Plain | Wrap::ByRef | Wrap::Clone) {
            s.wrap = Wrap::Plain;
        }
        history(ctx, &s, rng)
    });
    let n = ctx.count(6, 6000, 80000);
    ctx.cases("shared", n, |ctx, i, rng| {
        let (data, route) = match i % 6 {
            0 => (Data::Debug(U::gen_text(rng)), 6),
            1 => (Data::Display(U::gen_text(rng)), 6),
            2 => (Data::Error(U::gen_error(rng)), 6),
            3 => (Data::Sval(U::gen_data(rng, 4, Dom::SVAL.bags())), 6),
            4 => (Data::Serde(U::gen_data(rng, 4, Dom::SERDE.bags())), 2),
            _ => (Data::Seq(Seq::gen(rng)), 4 + rng.below(2)),
        };
        let s = Subject {
            data,
            route,
            wrap: Wrap::Plain,
        };
        history(ctx, &s, rng)
    });
    let n = ctx.count(6, 6000, 80000);
    ctx.cases("failed", n, |ctx, _, rng| failed(ctx, rng));
    let n = ctx.count(10, 20000, 250000);
    ctx.cases("pools", n, |ctx, _, rng| pool(ctx, rng));
    "distinct (value, capture route, length of history) of the handle histories, and distinct pool histories, whose every handle was observed"
}
