//! A hook run from inside the callbacks the library makes.
//!
//! Recorders, sinks and the user's own types call `tick` whenever the library calls them.

use std::cell::Cell;

#[derive(Clone, Copy)]
struct Armed {
    left: u32,
    period: u32,
    f: *mut (dyn FnMut() + 'static),
}

thread_local! {
    static HOOK: Cell<Option<Armed>> = const { Cell::new(None) };
}

/// The library called.
#[inline]
pub fn tick() {
    HOOK.with(|h| {
        let Some(a) = h.get() else { return };
        if a.left > 0 {
            h.set(Some(Armed { left: a.left - 1, ..a }));
            return;
        }
        // Not re-entrant unless the hook arms another one
        h.set(None);
        unsafe { (*a.f)() };
        if a.period > 0 {
            h.set(Some(Armed {
                left: a.period - 1,
                ..a
            }));
        }
    })
}

struct Restore(Option<Armed>);

impl Drop for Restore {
    fn drop(&mut self) {
        HOOK.with(|h| h.set(self.0));
    }
}

/// Run `body` with `f` called at the `at`th call of the library, and every `period` calls from then.
pub fn armed<R>(at: u32, period: u32, f: &mut dyn FnMut(), body: impl FnOnce() -> R) -> R {
    let f: *mut (dyn FnMut() + '_) = f;
    // It's disarmed before it goes
    let f: *mut (dyn FnMut() + 'static) = unsafe { std::mem::transmute(f) };
    let _restore = Restore(HOOK.with(|h| {
        h.replace(Some(Armed {
            left: at,
            period,
            f,
        }))
    }));
    body()
}
