//! Text sinks.

use std::fmt::{self, Write};

/// Accepts `left` bytes, then fails.
pub struct Limited {
    pub text: String,
    pub left: usize,
    pub failed: bool,
    pub after_failure: usize,
}

impl Limited {
    pub fn new(left: usize) -> Self {
        Limited {
            text: String::new(),
            left,
            failed: false,
            after_failure: 0,
        }
    }
}

impl Write for Limited {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        crate::hook::tick();
        if self.failed {
            self.after_failure += 1;
            return Err(fmt::Error);
        }
        if s.len() > self.left {
            self.failed = true;
            return Err(fmt::Error);
        }
        self.left -= s.len();
        self.text.push_str(s);
        Ok(())
    }
}

/// Accepts everything and keeps nothing.
#[derive(Default)]
pub struct Null(pub usize);

impl Write for Null {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}

/// Like `to_string`, but a failure is text too.
pub fn to_string(a: fmt::Arguments) -> String {
    let mut s = String::new();
    match s.write_fmt(a) {
        Ok(()) => s,
        Err(_) => format!("{s}<<formatting failed>>"),
    }
}
