//! Bookkeeping of a run: cases, judgements, violations, samples.

use std::{
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    fmt::Write as _,
    panic::{catch_unwind, AssertUnwindSafe},
    time::{Duration, Instant},
};

use crate::rng::{hash_str, mix, Rng};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    /// A handful of cases, for interpreters.
    Tiny,
    Quick,
    Thorough,
}

pub struct Violation {
    pub case: u64,
    pub what: String,
}

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub tier: Tier,
    pub only: Option<u64>,
    pub shard: (u64, u64),
    pub trace: bool,
    pub deadline: Instant,
    pub cap_per_sec_hit: bool,
    pub scale: f64,

    pub current: u64,
    pub evaluations: u64,
    pub judgements: u64,
    pub trivial: u64,
    distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub counters: BTreeMap<String, u64>,
    pub violations: Vec<Violation>,
    /// Defects that are on record, by their name there
    pub known: BTreeMap<&'static str, String>,
    pub harness_errors: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct PanicNote {
    pub file: String,
    pub line: u32,
    pub msg: String,
    pub in_library: bool,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<PanicNote>> = const { RefCell::new(None) };
}

pub fn take_panic() -> Option<PanicNote> {
    LAST_PANIC.with(|p| p.borrow_mut().take())
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let (file, line) = info
            .location()
            .map(|l| (l.file().to_owned(), l.line()))
            .unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "<no message>".to_owned());

        let in_harness = file.starts_with("src/") || file.contains("/harness/src/");
        let in_library = if in_harness {
            false
        } else if file.contains("/repo/") || cfg!(miri) {
            true
        } else {
            // A panic raised inside std or a dependency: it's the library's
            // when the library is on the stack
            std::backtrace::Backtrace::force_capture()
                .to_string()
                .contains("value_bag::")
        };

        if std::env::var_os("VERIF_SHOW_PANICS").is_some() {
            eprintln!("panic at {file}:{line}: {msg}");
        }

        LAST_PANIC.with(|p| {
            *p.borrow_mut() = Some(PanicNote {
                file,
                line,
                msg,
                in_library,
            })
        });
    }));
}

impl Ctx {
    pub fn new(prop: &str, seed: u64, tier: Tier) -> Self {
        Ctx {
            prop: prop.to_owned(),
            seed,
            tier,
            only: None,
            shard: (0, 1),
            trace: false,
            deadline: Instant::now() + Duration::from_secs(36000),
            cap_per_sec_hit: false,
            scale: 1.0,
            current: 0,
            evaluations: 0,
            judgements: 0,
            trivial: 0,
            distinct: HashSet::new(),
            samples: Vec::new(),
            counters: BTreeMap::new(),
            violations: Vec::new(),
            known: BTreeMap::new(),
            harness_errors: Vec::new(),
        }
    }

    /// The number of cases to run, by tier.
    pub fn count(&self, tiny: u64, quick: u64, thorough: u64) -> u64 {
        let n = match self.tier {
            Tier::Tiny => tiny,
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        };
        ((n as f64 * self.scale) as u64).max(1)
    }

    /// Run `n` independent cases. Each one has its own generator, derived from the seed,
    /// the name of the phase and the index of the case.
    pub fn cases(&mut self, phase: &str, n: u64, mut f: impl FnMut(&mut Ctx, u64, &mut Rng)) {
        let base = mix(self.seed ^ hash_str(phase));
        for i in 0..n {
            let id = (hash_str(phase) & 0xffff) << 40 | i;
            if let Some(only) = self.only {
                if only != id {
                    continue;
                }
            } else if i % self.shard.1 != self.shard.0 {
                continue;
            }
            if self.violations.len() >= 8 || !self.harness_errors.is_empty() {
                return;
            }
            if Instant::now() > self.deadline {
                *self.counters.entry("phases cut short by the time budget".into()).or_default() += 1;
                return;
            }
            self.current = id;
            if self.trace {
                eprintln!("CASE {id} {phase}[{i}]");
            }
            let mut rng = Rng::new(base ^ mix(i));
            let r = catch_unwind(AssertUnwindSafe(|| f(self, i, &mut rng)));
            crate::subject::free_leaked();
            if r.is_err() {
                match take_panic() {
                    Some(n) if n.in_library => self.violate(format!(
                        "{phase}[{i}]: panic in the library at {}:{}: {}",
                        n.file, n.line, n.msg
                    )),
                    Some(n) => self
                        .harness_errors
                        .push(format!("{phase}[{i}]: {}:{}: {}", n.file, n.line, n.msg)),
                    None => self
                        .harness_errors
                        .push(format!("{phase}[{i}]: unwound without a panic note")),
                }
            }
        }
    }

    /// Record one execution judged by the oracle. `sig` identifies what makes it distinct.
    pub fn eval(&mut self, trivial: bool, sig: &str) {
        self.evaluations += 1;
        if trivial {
            self.trivial += 1;
            return;
        }
        let h = hash_str(sig);
        let new = self.distinct.len() < 20_000_000 && self.distinct.insert(h);
        if new {
            // Samples spread evenly over the run
            let n = self.distinct.len() as u64;
            let cut = |s: &str| s.chars().take(300).collect();
            if self.samples.len() < 12 {
                self.samples.push(cut(sig));
            } else {
                let at = mix(h ^ self.seed) % n;
                if at < 12 {
                    self.samples[at as usize] = cut(sig);
                }
            }
        }
    }

    pub fn distinct(&self) -> usize {
        self.distinct.len()
    }

    pub fn distinct_hashes(&self) -> impl Iterator<Item = &u64> {
        self.distinct.iter()
    }

    pub fn count_up(&mut self, name: &str) {
        self.count_by(name, 1)
    }

    pub fn count_by(&mut self, name: &str, n: u64) {
        match self.counters.get_mut(name) {
            Some(c) => *c += n,
            None => {
                self.counters.insert(name.to_owned(), n);
            }
        }
    }

    pub fn violate(&mut self, what: String) {
        if self.violations.len() < 32 {
            let case = self.current;
            self.violations.push(Violation { case, what });
        }
    }

    /// A failure that's only accepted while it's on record.
    pub fn known(&mut self, name: &'static str, what: impl FnOnce() -> String) {
        self.known.entry(name).or_insert_with(what);
    }

    /// One judgement of the oracle.
    pub fn check(&mut self, ok: bool, what: impl FnOnce() -> String) -> bool {
        self.judgements += 1;
        if !ok {
            let w = what();
            self.violate(w);
        }
        ok
    }

    pub fn eq<T: PartialEq + std::fmt::Debug>(
        &mut self,
        actual: &T,
        expected: &T,
        what: impl FnOnce() -> String,
    ) -> bool {
        self.judgements += 1;
        if actual != expected {
            let w = what();
            self.violate(format!(
                "{w}: expected {} but observed {}",
                short(expected),
                short(actual)
            ));
            false
        } else {
            true
        }
    }

    pub fn to_json(&self, rule: &str, wall: f64, cfg: &str) -> String {
        let mut s = String::new();
        let _ = write!(
            s,
            "{{\"property\":{},\"config\":{},\"evaluations\":{},\"distinct\":{},\"trivial\":{},\"judgements\":{},\"wall_s\":{:.3},\"rule\":{},\"samples\":[",
            jstr(&self.prop), jstr(cfg), self.evaluations, self.distinct.len(), self.trivial, self.judgements, wall, jstr(rule)
        );
        for (i, x) in self.samples.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            s.push_str(&jstr(x));
        }
        s.push_str("],\"counters\":{");
        for (i, (k, v)) in self.counters.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            let _ = write!(s, "{}:{}", jstr(k), v);
        }
        s.push_str("},\"violations\":[");
        for (i, v) in self.violations.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            let _ = write!(s, "{{\"case\":{},\"what\":{}}}", v.case, jstr(&v.what));
        }
        s.push_str("],\"known\":{");
        for (i, (k, v)) in self.known.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            let _ = write!(s, "{}:{}", jstr(k), jstr(v));
        }
        s.push_str("},\"harness_errors\":[");
        for (i, v) in self.harness_errors.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            s.push_str(&jstr(v));
        }
        s.push_str("]}");
        s
    }
}

pub fn short<T: std::fmt::Debug>(v: &T) -> String {
    let mut s = String::new();
    // Some values fail to print on purpose
    let _ = write!(s, "{v:?}");
    if s.len() > 700 {
        let mut cut = 700;
        while !s.is_char_boundary(cut) {
            cut -= 1;
        }
        format!("{}… ({} bytes)", &s[..cut], s.len())
    } else {
        s
    }
}

pub fn jstr(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
