//! A recording visitor.

use value_bag::{visit::Visit, Error, ValueBag};

use crate::bits::Fb;

#[derive(Clone, Debug, PartialEq)]
pub enum C {
    Any,
    Empty,
    U64(u64),
    I64(i64),
    U128(u128),
    I128(i128),
    F64(Fb),
    Bool(bool),
    Str(String),
    /// With the address of the text.
    BorrowedStr(String, usize),
    Char(char),
    /// The messages down the chain.
    Error(Vec<String>),
    BorrowedError(Vec<String>, usize),
}

pub fn chain(e: &(dyn std::error::Error + 'static)) -> Vec<String> {
    let mut out = vec![crate::sink::to_string(format_args!("{e}"))];
    let mut cur = e.source();
    while let Some(e) = cur {
        out.push(crate::sink::to_string(format_args!("{e}")));
        if out.len() > 300 {
            out.push("<too long>".into());
            break;
        }
        cur = e.source();
    }
    out
}

pub fn err_addr(e: &(dyn std::error::Error + 'static)) -> usize {
    e as *const dyn std::error::Error as *const u8 as usize
}

/// Every callback overridden.
pub struct Full<'o> {
    pub calls: Vec<C>,
    pub fail: bool,
    pub on_any: &'o mut dyn FnMut(&ValueBag<'_>),
}

pub const FAIL_MSG: &str = "the visitor's own error";

impl<'o> Full<'o> {
    pub fn new(fail: bool, on_any: &'o mut dyn FnMut(&ValueBag<'_>)) -> Self {
        Full {
            calls: Vec::new(),
            fail,
            on_any,
        }
    }

    fn call(&mut self, c: C) -> Result<(), Error> {
        crate::hook::tick();
        self.calls.push(c);
        if self.fail {
            Err(Error::msg(FAIL_MSG))
        } else {
            Ok(())
        }
    }
}

impl<'v, 'o> Visit<'v> for Full<'o> {
    fn visit_any(&mut self, v: ValueBag) -> Result<(), Error> {
        (self.on_any)(&v);
        self.call(C::Any)
    }
    fn visit_empty(&mut self) -> Result<(), Error> {
        self.call(C::Empty)
    }
    fn visit_u64(&mut self, v: u64) -> Result<(), Error> {
        self.call(C::U64(v))
    }
    fn visit_i64(&mut self, v: i64) -> Result<(), Error> {
        self.call(C::I64(v))
    }
    fn visit_u128(&mut self, v: u128) -> Result<(), Error> {
        self.call(C::U128(v))
    }
    fn visit_i128(&mut self, v: i128) -> Result<(), Error> {
        self.call(C::I128(v))
    }
    fn visit_f64(&mut self, v: f64) -> Result<(), Error> {
        self.call(C::F64(Fb(v)))
    }
    fn visit_bool(&mut self, v: bool) -> Result<(), Error> {
        self.call(C::Bool(v))
    }
    fn visit_str(&mut self, v: &str) -> Result<(), Error> {
        self.call(C::Str(v.to_owned()))
    }
    fn visit_borrowed_str(&mut self, v: &'v str) -> Result<(), Error> {
        self.call(C::BorrowedStr(v.to_owned(), v.as_ptr() as usize))
    }
    fn visit_char(&mut self, v: char) -> Result<(), Error> {
        self.call(C::Char(v))
    }
    fn visit_error(&mut self, e: &(dyn std::error::Error + 'static)) -> Result<(), Error> {
        self.call(C::Error(chain(e)))
    }
    fn visit_borrowed_error(&mut self, e: &'v (dyn std::error::Error + 'static)) -> Result<(), Error> {
        self.call(C::BorrowedError(chain(e), err_addr(e)))
    }
}

/// Only the required callback overridden.
pub struct AnyOnly<'o> {
    pub calls: usize,
    pub fail: bool,
    pub on_any: &'o mut dyn FnMut(&ValueBag<'_>),
}

impl<'v, 'o> Visit<'v> for AnyOnly<'o> {
    fn visit_any(&mut self, v: ValueBag) -> Result<(), Error> {
        (self.on_any)(&v);
        self.calls += 1;
        if self.fail {
            Err(Error::msg(FAIL_MSG))
        } else {
            Ok(())
        }
    }
}

/// Text, numbers of 64 bits and the fallback.
pub struct Some3 {
    pub calls: Vec<C>,
    pub fail: bool,
}

impl Some3 {
    fn call(&mut self, c: C) -> Result<(), Error> {
        crate::hook::tick();
        self.calls.push(c);
        if self.fail {
            Err(Error::msg(FAIL_MSG))
        } else {
            Ok(())
        }
    }
}

impl<'v> Visit<'v> for Some3 {
    fn visit_any(&mut self, _: ValueBag) -> Result<(), Error> {
        self.call(C::Any)
    }
    fn visit_u64(&mut self, v: u64) -> Result<(), Error> {
        self.call(C::U64(v))
    }
    fn visit_i64(&mut self, v: i64) -> Result<(), Error> {
        self.call(C::I64(v))
    }
    fn visit_str(&mut self, v: &str) -> Result<(), Error> {
        self.call(C::Str(v.to_owned()))
    }
}
