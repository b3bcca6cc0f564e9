//! The user's own types, which keep a ledger of everything done to them.

use std::{
    error::Error,
    fmt,
    sync::{
        atomic::{AtomicU64, Ordering::Relaxed},
        Arc,
    },
};

use serde::ser::{Serialize, Serializer};
use sval::{Stream, Value};
use value_bag::{fill::Slot, ValueBag};
use value_bag_serde1::lib as serde;
use value_bag_sval2::lib as sval;

use crate::{
    gen,
    model::{Dom, M},
    prim::{Prim, K},
    rng::Rng,
};

#[derive(Default, Debug)]
pub struct Ledger {
    pub made: AtomicU64,
    pub dropped: AtomicU64,
    pub fmt: AtomicU64,
    pub serde: AtomicU64,
    pub sval: AtomicU64,
    pub source: AtomicU64,
    pub as_ref: AtomicU64,
    pub cloned: AtomicU64,
    /// Uses of a value that has been dropped
    pub dead: AtomicU64,
}

impl Ledger {
    /// Calls of the user's own code.
    pub fn calls(&self) -> u64 {
        self.fmt.load(Relaxed)
            + self.serde.load(Relaxed)
            + self.sval.load(Relaxed)
            + self.source.load(Relaxed)
            + self.as_ref.load(Relaxed)
    }

    pub fn made(led: &Ledger) {
        led.made.fetch_add(1, Relaxed);
    }

    pub fn live(&self) -> i64 {
        self.made.load(Relaxed) as i64 - self.dropped.load(Relaxed) as i64
    }
}

const ALIVE: u64 = 0x5a5a_1234_a11e_5a5a;
const DEAD: u64 = 0xdead_dead_dead_dead;

/// A value with a `Debug`, a `Display`, an `Error`, a `Serialize` and a `Value` implementation,
/// each saying something else.
pub struct U {
    canary: u64,
    pub frags: Vec<String>,
    pub num: i64,
    pub m: M,
    pub cause: Option<Box<U>>,
    /// Fail formatting after this many fragments
    pub fail_fmt: Option<usize>,
    /// Unwind instead of failing
    pub unwind: bool,
    pub led: Arc<Ledger>,
}

/// The payload of a panic raised by the user's code.
pub struct UserPanic;

impl U {
    pub fn new(frags: Vec<String>, num: i64, m: M) -> U {
        U::with_ledger(frags, num, m, Arc::default())
    }

    pub fn with_ledger(frags: Vec<String>, num: i64, m: M, led: Arc<Ledger>) -> U {
        led.made.fetch_add(1, Relaxed);
        U {
            canary: ALIVE,
            frags,
            num,
            m,
            cause: None,
            fail_fmt: None,
            unwind: false,
            led,
        }
    }

    pub fn gen_text(rng: &mut Rng) -> U {
        let t = gen::text(rng);
        let f = gen::fragments(rng, &t);
        U::new(f, rng.u64() as i64 >> rng.below(64), M::Unit)
    }

    pub fn gen_error(rng: &mut Rng) -> U {
        let n = match rng.below(6) {
            0 | 1 => 0,
            2 | 3 => 1,
            4 => 2 + rng.below(3),
            _ => gen::large(rng, 12, 10, 70).unwrap_or(rng.below(9)),
        };
        let mut e = U::gen_text(rng);
        for _ in 0..n {
            let mut outer = U::gen_text(rng);
            outer.led = e.led.clone();
            outer.led.made.fetch_add(1, Relaxed);
            outer.cause = Some(Box::new(e));
            e = outer;
        }
        e
    }

    pub fn gen_data(rng: &mut Rng, depth: usize, d: Dom) -> U {
        let mut u = U::gen_text(rng);
        u.m = M::gen(rng, depth, d);
        u
    }

    fn alive(&self) {
        // Read the canary in a way that isn't optimised out
        let c = unsafe { std::ptr::read_volatile(&self.canary) };
        if c != ALIVE {
            self.led.dead.fetch_add(1, Relaxed);
        }
    }

    /// What must be printed when nothing fails.
    pub fn display_text(&self) -> String {
        format!("{}{}", self.frags.concat(), self.num)
    }

    pub fn debug_text(&self) -> String {
        format!("U({}|{})", self.frags.concat(), self.num)
    }

    pub fn chain_text(&self) -> Vec<String> {
        let mut out = vec![self.display_text()];
        let mut cur = &self.cause;
        while let Some(c) = cur {
            out.push(c.display_text());
            cur = &c.cause;
        }
        out
    }

    fn failing(&self, i: usize) -> fmt::Result {
        if self.fail_fmt == Some(i) {
            if self.unwind {
                std::panic::resume_unwind(Box::new(UserPanic));
            }
            return Err(fmt::Error);
        }
        Ok(())
    }
}

impl Clone for U {
    fn clone(&self) -> U {
        self.alive();
        self.led.cloned.fetch_add(1, Relaxed);
        self.led.made.fetch_add(1, Relaxed);
        U {
            canary: ALIVE,
            frags: self.frags.clone(),
            num: self.num,
            m: self.m.clone(),
            cause: self.cause.clone(),
            fail_fmt: self.fail_fmt,
            unwind: self.unwind,
            led: self.led.clone(),
        }
    }
}

impl Drop for U {
    fn drop(&mut self) {
        self.alive();
        self.led.dropped.fetch_add(1, Relaxed);
        unsafe { std::ptr::write_volatile(&mut self.canary, DEAD) };
    }
}

impl fmt::Debug for U {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.alive();
        self.led.fmt.fetch_add(1, Relaxed);
        crate::hook::tick();
        f.write_str("U(")?;
        for (i, p) in self.frags.iter().enumerate() {
            self.failing(i)?;
            f.write_str(p)?;
        }
        self.failing(self.frags.len())?;
        f.write_str("|")?;
        // Shows the flags it was given
        fmt::Debug::fmt(&self.num, f)?;
        if f.alternate() {
            f.write_str("#")?;
        }
        self.failing(self.frags.len() + 1)?;
        f.write_str(")")
    }
}

impl fmt::Display for U {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.alive();
        self.led.fmt.fetch_add(1, Relaxed);
        crate::hook::tick();
        for (i, p) in self.frags.iter().enumerate() {
            self.failing(i)?;
            f.write_str(p)?;
        }
        self.failing(self.frags.len())?;
        fmt::Display::fmt(&self.num, f)?;
        if f.alternate() {
            f.write_str("#")?;
        }
        self.failing(self.frags.len() + 1)
    }
}

impl Error for U {
    fn source(&self) -> Option<&(dyn Error + 'static)> {
        self.alive();
        self.led.source.fetch_add(1, Relaxed);
        crate::hook::tick();
        self.cause.as_ref().map(|c| &**c as &(dyn Error + 'static))
    }
}

impl Serialize for U {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.alive();
        self.led.serde.fetch_add(1, Relaxed);
        crate::hook::tick();
        if self.unwind && self.fail_fmt.is_none() {
            std::panic::resume_unwind(Box::new(UserPanic));
        }
        self.m.serialize(s)
    }
}

impl Value for U {
    fn stream<'sval, S: Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        self.alive();
        self.led.sval.fetch_add(1, Relaxed);
        crate::hook::tick();
        if self.unwind && self.fail_fmt.is_none() {
            std::panic::resume_unwind(Box::new(UserPanic));
        }
        self.m.stream(s)
    }
}

/// One element of a sequence, of any kind.
#[derive(Clone, Debug)]
pub enum Elem {
    Prim(Prim),
    Debug(U),
    Display(U),
    Error(U),
    Sval(U),
    Serde(U),
    Seq(Vec<Elem>),
    /// Filled in when read
    Fill(FillPrim),
    FailFill,
}

#[derive(Clone, Debug)]
pub struct FillPrim(pub Prim);

impl value_bag::fill::Fill for FillPrim {
    fn fill(&self, s: Slot) -> Result<(), value_bag::Error> {
        crate::hook::tick();
        match &self.0 {
            Prim::U8(v) => s.fill_any(v),
            Prim::U16(v) => s.fill_any(v),
            Prim::U32(v) => s.fill_any(v),
            Prim::U64(v) => s.fill_any(v),
            Prim::Usize(v) => s.fill_any(v),
            Prim::U128(v) => s.fill_serde1(v),
            Prim::I8(v) => s.fill_any(v),
            Prim::I16(v) => s.fill_any(v),
            Prim::I32(v) => s.fill_any(v),
            Prim::I64(v) => s.fill_any(v),
            Prim::Isize(v) => s.fill_any(v),
            Prim::I128(v) => s.fill_serde1(v),
            Prim::F32(v) => s.fill_any(v),
            Prim::F64(v) => s.fill_any(v),
            Prim::Bool(v) => s.fill_any(v),
            Prim::Char(v) => s.fill_any(v),
            Prim::Str(v) => s.fill_serde1(v.as_str()),
            Prim::None(_) => s.fill_any(()),
        }
    }
}

fn fail_fill(_: Slot) -> Result<(), value_bag::Error> {
    Err(value_bag::Error::msg("the fill's own error"))
}

static FAIL_FILL: fn(Slot) -> Result<(), value_bag::Error> = fail_fill;

impl<'a> From<&'a Elem> for ValueBag<'a> {
    fn from(e: &'a Elem) -> ValueBag<'a> {
        match e {
            Elem::Prim(p) => p.bag(),
            Elem::Debug(u) => ValueBag::capture_debug(u),
            Elem::Display(u) => ValueBag::from_display(u),
            Elem::Error(u) => ValueBag::capture_error(u),
            Elem::Sval(u) => ValueBag::capture_sval2(u),
            Elem::Serde(u) => ValueBag::from_serde1(u),
            Elem::Seq(v) => ValueBag::from_seq_slice(v),
            Elem::Fill(f) => ValueBag::from_fill(f),
            Elem::FailFill => ValueBag::from_fill(&FAIL_FILL),
        }
    }
}

impl Elem {
    pub fn gen(rng: &mut Rng, depth: usize) -> Elem {
        match rng.below(14) {
            0..=6 => Elem::Prim(Prim::gen(rng)),
            7 => Elem::Debug(U::gen_text(rng)),
            8 => Elem::Display(U::gen_text(rng)),
            9 => Elem::Error(U::gen_error(rng)),
            10 => {
                let mut u = U::gen_text(rng);
                u.m = M::gen_tiny(rng, Dom::SVAL);
                Elem::Sval(u)
            }
            11 => {
                let mut u = U::gen_text(rng);
                u.m = M::gen_tiny(rng, Dom::SERDE);
                Elem::Serde(u)
            }
            12 => Elem::Fill(FillPrim(Prim::gen(rng))),
            _ if depth > 0 => Elem::gen_seq(rng, depth - 1),
            _ => Elem::Prim(Prim::gen(rng)),
        }
    }

    pub fn gen_seq(rng: &mut Rng, depth: usize) -> Elem {
        Elem::Seq(Elem::gen_vec(rng, depth))
    }

    pub fn gen_vec(rng: &mut Rng, depth: usize) -> Vec<Elem> {
        if let Some(n) = gen::large(rng, 80, 21, 270) {
            return (0..n).map(|_| Elem::Prim(Prim::gen(rng))).collect();
        }
        if let Some(n) = gen::large(rng, 80, 4, 40) {
            let mut e = Elem::gen(rng, 0);
            for _ in 0..n {
                e = Elem::Seq(vec![e]);
            }
            return vec![e];
        }
        let n = match rng.below(6) {
            0 => 0,
            1..=4 => 1 + rng.below(4),
            _ => rng.below(20),
        };
        (0..n).map(|_| Elem::gen(rng, depth)).collect()
    }

    pub fn kind(&self) -> K {
        match self {
            Elem::Prim(p) | Elem::Fill(FillPrim(p)) => p.kind(),
            Elem::Sval(u) => u.m.kind_sval(),
            Elem::Serde(u) => u.m.kind_serde(),
            _ => K::N,
        }
    }
}

/// A collection that keeps a ledger.
pub struct Coll<T> {
    canary: u64,
    pub items: Vec<T>,
    pub led: Arc<Ledger>,
}

impl<T> Coll<T> {
    pub fn new(items: Vec<T>) -> Self {
        let led = Arc::<Ledger>::default();
        led.made.fetch_add(1, Relaxed);
        Coll {
            canary: ALIVE,
            items,
            led,
        }
    }
}

impl<T> AsRef<[T]> for Coll<T> {
    fn as_ref(&self) -> &[T] {
        if unsafe { std::ptr::read_volatile(&self.canary) } != ALIVE {
            self.led.dead.fetch_add(1, Relaxed);
        }
        self.led.as_ref.fetch_add(1, Relaxed);
        crate::hook::tick();
        &self.items
    }
}

impl<T> Drop for Coll<T> {
    fn drop(&mut self) {
        if self.canary != ALIVE {
            self.led.dead.fetch_add(1, Relaxed);
        }
        self.led.dropped.fetch_add(1, Relaxed);
        unsafe { std::ptr::write_volatile(&mut self.canary, DEAD) };
    }
}
