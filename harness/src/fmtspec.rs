//! A spread of format specifications.

use std::fmt::{Debug, Display};

use crate::obs::text;

pub type Spec = (&'static str, Result<String, String>);

macro_rules! list {
    ($v:ident, $w:ident, $p:ident: $($s:literal)* ; $($d:literal)*) => {
        vec![
            $(($s, text(format_args!($s, $v))),)*
            $(($d, text(format_args!($d, $v, w = $w, p = $p))),)*
        ]
    };
}

/// Every specification applied through `Debug`, with the given width and precision.
pub fn debug(v: &dyn Debug, w: usize, p: usize) -> Vec<Spec> {
    list!(v, w, p:
        "{:?}" "{:#?}" "{:10?}" "{:<10?}" "{:^10?}" "{:>10?}" "{:*^12?}" "{:é>30?}" "{:+?}" "{:-?}"
        "{:08?}" "{:+08?}" "{:.0?}" "{:.3?}" "{:12.3?}" "{:<12.3?}" "{:+012.2?}" "{:x?}" "{:X?}" "{:#x?}"
        "{:#X?}" "{:08x?}" "{:#010x?}" "{:#10?}" "{:+#?}" "{:.20?}" "{:~<50?}";
        "{:w$.p$?}" "{:<w$.p$?}" "{:^w$.p$?}" "{:0w$.p$?}" "{:#w$.p$?}" "{:_^+w$.p$?}" "{:w$.p$x?}")
}

/// Every specification applied through `Display`.
pub fn display(v: &dyn Display, w: usize, p: usize) -> Vec<Spec> {
    list!(v, w, p:
        "{}" "{:#}" "{:10}" "{:<10}" "{:^10}" "{:>10}" "{:*^12}" "{:é>30}" "{:+}" "{:-}"
        "{:08}" "{:+08}" "{:.0}" "{:.3}" "{:12.3}" "{:<12.3}" "{:+012.2}" "{:#10}" "{:+#}" "{:.20}" "{:~<50}";
        "{:w$.p$}" "{:<w$.p$}" "{:^w$.p$}" "{:0w$.p$}" "{:#w$.p$}" "{:_^+w$.p$}")
}
