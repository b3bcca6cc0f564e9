//! Downcasting returns the captured object itself, or nothing.

use std::{
    any::{type_name, TypeId},
    collections::BTreeMap,
    error::Error,
    fmt::{self, Debug, Display},
    marker::PhantomData,
    net::{IpAddr, Ipv4Addr},
    num::NonZeroU64,
    rc::Rc,
    sync::Arc,
    time::Duration,
};

use serde::ser::{Serialize, Serializer};
use sval::{Stream, Value};
use value_bag::{fill::Slot, OwnedValueBag, ValueBag};
use value_bag_serde1::lib as serde;
use value_bag_sval2::lib as sval;

use crate::{
    ctx::Ctx,
    gen,
    rng::Rng,
    user::{Coll, U},
};

macro_rules! user_types {
    ($($(#[$m:meta])* $t:ident $(<$p:ident>)? {$($body:tt)*};)*) => {
        $(
            $(#[$m])*
            #[derive(Clone, PartialEq)]
            struct $t $(<$p>)? { $($body)* }

            impl $(<$p: Some_>)? Debug for $t $(<$p>)? {
                fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                    f.write_str(concat!("debug ", stringify!($t)))
                }
            }
            impl $(<$p: Some_>)? Display for $t $(<$p>)? {
                fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                    f.write_str(concat!("display ", stringify!($t)))
                }
            }
            impl $(<$p: Some_>)? Error for $t $(<$p>)? {}
            impl $(<$p: Some_>)? Serialize for $t $(<$p>)? {
                fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                    s.serialize_str(stringify!($t))
                }
            }
            impl $(<$p: Some_>)? Value for $t $(<$p>)? {
                fn stream<'sval, S: Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
                    s.value(stringify!($t))
                }
            }
        )*
    };
}

/// What a parameter may be.
trait Some_: Clone + Send + Sync + 'static {}
impl<T: Clone + Send + Sync + 'static> Some_ for T {}

mod a {
    use super::*;
    user_types! {
        Same { _a: u64, };
    }
    pub fn id() -> TypeId {
        TypeId::of::<Same>()
    }
    pub fn with<R>(f: impl FnOnce(&dyn Fn(&ValueBag) -> (bool, Option<usize>)) -> R) -> R {
        f(&|b| one::<Same>(b))
    }
    pub fn same(n: u64) -> Box<dyn Fn(&mut dyn FnMut(ValueBag, usize, TypeId))> {
        let v = Same { _a: n };
        Box::new(move |f| f(ValueBag::capture_debug(&v), &v as *const Same as usize, TypeId::of::<Same>()))
    }
}

mod b {
    use super::*;
    user_types! {
        Same { _a: u64, };
    }
    pub fn id() -> TypeId {
        TypeId::of::<Same>()
    }
    pub fn with<R>(f: impl FnOnce(&dyn Fn(&ValueBag) -> (bool, Option<usize>)) -> R) -> R {
        f(&|b| one::<Same>(b))
    }
}

user_types! {
    Empty1 {};
    Empty2 {};
    Num1 { _n: u64, };
    Num2 { _n: u64, };
    #[repr(transparent)] Thin { _n: u64, };
    Fat { _n: [u64; 9], _s: String, };
    Text { _s: String, };
    Gen<P> { _p: P, };
    Ghost<P> { _p: PhantomData<P>, };
    #[repr(align(64))] Wide { _b: u8, };
}

/// Types that even have their whole name in common.
trait Twin {
    type Of;

    fn make(n: u64) -> Self::Of;
}

struct Left;
struct Right;

macro_rules! twin {
    ($side:ident) => {
        const _: () = {
            user_types! {
                Alike { _n: u64, };
            }

            impl Twin for $side {
                type Of = Alike;

                fn make(n: u64) -> Alike {
                    Alike { _n: n }
                }
            }
        };
    };
}

twin!(Left);
twin!(Right);

type LeftTwin = <Left as Twin>::Of;
type RightTwin = <Right as Twin>::Of;

fn one<T: 'static>(b: &ValueBag) -> (bool, Option<usize>) {
    (b.is::<T>(), b.downcast_ref::<T>().map(|v| v as *const T as usize))
}

macro_rules! requests {
    ($($t:ty),* $(,)?) => {
        /// Ask for every type there is.
        fn requests(b: &ValueBag) -> Vec<(TypeId, &'static str, bool, Option<usize>)> {
            let mut out = vec![
                $({
                    let (is, at) = one::<$t>(b);
                    (TypeId::of::<$t>(), type_name::<$t>(), is, at)
                }),*
            ];
            a::with(|f| {
                let (is, at) = f(b);
                out.push((a::id(), "a::Same", is, at));
            });
            b::with(|f| {
                let (is, at) = f(b);
                out.push((b::id(), "b::Same", is, at));
            });
            out
        }
    };
}

requests! {
    Empty1, Empty2, Num1, Num2, Thin, Fat, Text, Wide, U,
    Gen<u8>, Gen<i8>, Gen<u64>, Gen<Num1>, Gen<Num2>, Gen<Gen<u8>>, Gen<String>, Gen<()>,
    Ghost<u8>, Ghost<i8>, Ghost<Num1>, Ghost<fn(&u8)>, Ghost<fn(&'static u8)>,
    LeftTwin, RightTwin, Gen<LeftTwin>, Gen<RightTwin>,
    Option<Num1>, Option<U>, Box<Num1>, Box<U>, Arc<Num1>, Arc<U>, Rc<Num1>, &'static Num1, &'static U,
    Box<dyn Debug>, Box<dyn Error>, Arc<dyn Debug + Send + Sync>,
    Vec<u8>, Vec<i8>, Vec<u64>, Vec<Num1>, Vec<String>, Vec<&'static str>, Vec<OwnedValueBag>, [u64; 2], [u64; 3], Box<[u64]>, Coll<u64>, Coll<String>,
    IpAddr, Ipv4Addr, Duration, NonZeroU64, BTreeMap<u8, u8>,
    u8, u16, u32, u64, usize, u128, i8, i16, i32, i64, isize, i128, f32, f64, bool, char, (),
    &'static str, String, Box<str>, Arc<str>,
    Option<u8>, Option<u16>, Option<u32>, Option<u64>, Option<usize>, Option<i8>, Option<i16>, Option<i32>, Option<i64>, Option<isize>,
    Option<f32>, Option<f64>, Option<bool>, Option<char>, Option<&'static str>, Option<String>, Option<u128>, Option<i128>,
    &'static u64, &'static String, &'static &'static str,
    ValueBag<'static>, OwnedValueBag, dynamic::Erased, value_bag::Error, TypeId,
}

mod dynamic {
    /// A type nothing is ever captured as.
    pub struct Erased(#[allow(dead_code)] u64);
}

/// Only `own` may be found, and at `at` when that's known.
fn matrix(ctx: &mut Ctx, b: &ValueBag, own: Option<(TypeId, Option<usize>)>, what: &dyn Fn(&str) -> String) -> Option<usize> {
    let mut found = None;
    for (id, name, is, at) in requests(b) {
        ctx.check(is == at.is_some(), || what(&format!("{name}: the type test says {is}, the downcast {at:?}")));
        match own {
            Some((own, place)) if own == id => {
                ctx.check(at.is_some(), || what(&format!("not found as its own type, {name}")));
                if let (Some(at), Some(place)) = (at, place) {
                    ctx.check(at == place, || what(&format!("found as {name} at {at:#x}, it is at {place:#x}")));
                }
                found = at;
            }
            _ => {
                ctx.check(at.is_none(), || what(&format!("found as {name}")));
            }
        }
    }
    found
}

/// Every handle that leads to the same borrowed bag.
fn chains(ctx: &mut Ctx, bag: &ValueBag, own: Option<(TypeId, Option<usize>)>, what: &dyn Fn(&str) -> String) {
    matrix(ctx, bag, own, &|n| what(&format!("bag: {n}")));
    matrix(ctx, &bag.by_ref(), own, &|n| what(&format!("by_ref: {n}")));
    matrix(ctx, &bag.clone(), own, &|n| what(&format!("clone: {n}")));
    let r = bag.by_ref();
    let c = r.clone();
    matrix(ctx, &c.by_ref().clone(), own, &|n| what(&format!("by_ref, clone, by_ref, clone: {n}")));
}

/// Every owned handle to a shared capture.
fn owned(ctx: &mut Ctx, bag: ValueBag, own: (TypeId, Option<usize>), what: &dyn Fn(&str) -> String, rng: &mut Rng) {
    let own = Some(own);
    let mut pool = vec![bag.to_owned(), bag.to_shared(), bag.by_ref().to_owned()];
    drop(bag);
    let mut path = String::new();
    for _ in 0..5 {
        let i = rng.below(pool.len());
        let o = match rng.below(5) {
            0 => {
                path.push_str(" clone");
                pool[i].clone()
            }
            1 => {
                path.push_str(" into_shared");
                pool[i].clone().into_shared()
            }
            2 => {
                path.push_str(" by_ref.to_owned");
                pool[i].by_ref().to_owned()
            }
            3 => {
                path.push_str(" from.to_shared");
                ValueBag::from(&pool[i]).to_shared()
            }
            _ => {
                path.push_str(" drop another");
                if pool.len() > 1 {
                    pool.swap_remove((i + 1) % pool.len());
                }
                continue;
            }
        };
        matrix(ctx, &o.by_ref(), own, &|n| what(&format!("owned{path}: {n}")));
        pool.push(o);
    }
    for o in &pool {
        chains(ctx, &o.by_ref(), own, &|n| what(&format!("owned{path}: {n}")));
    }
}

/// One value through everything that captures it and everything that doesn't.
fn value<T>(ctx: &mut Ctx, v: T, name: &str, rng: &mut Rng)
where
    T: Debug + Display + Error + Serialize + Value + Clone + Send + Sync + 'static,
{
    let id = TypeId::of::<T>();
    let at = &v as *const T as usize;
    let here = Some((id, Some(at)));
    let dd: &dyn Debug = &v;
    let dp: &dyn Display = &v;
    let de: &(dyn Error + 'static) = &v;
    let dv: &dyn value_bag_sval2::dynamic::Value = &v;

    for (route, bag) in [
        ("capture_debug", ValueBag::capture_debug(&v)),
        ("capture_display", ValueBag::capture_display(&v)),
        ("capture_error", ValueBag::capture_error(&v)),
        ("capture_sval2", ValueBag::capture_sval2(&v)),
        ("capture_serde1", ValueBag::capture_serde1(&v)),
    ] {
        chains(ctx, &bag, here, &|n| format!("{name} {route}: {n}"));
        // A copy of it may be something else, but not of another of the user's types
        let o = if rng.bool() { bag.to_owned() } else { bag.to_shared() };
        for (q, n, _, found) in requests(&o.by_ref()) {
            ctx.check(found.is_none() || q == id, || format!("{name} {route}, copied: found as {n}"));
        }
        ctx.eval(false, &format!("{name} {route}"));
    }
    for (route, bag) in [
        ("from_debug", ValueBag::from_debug(&v)),
        ("from_display", ValueBag::from_display(&v)),
        ("from_sval2", ValueBag::from_sval2(&v)),
        ("from_serde1", ValueBag::from_serde1(&v)),
        ("from_dyn_debug", ValueBag::from_dyn_debug(dd)),
        ("from_dyn_display", ValueBag::from_dyn_display(dp)),
        ("from_dyn_error", ValueBag::from_dyn_error(de)),
        ("from_dyn_sval2", ValueBag::from_dyn_sval2(dv)),
        ("From<&dyn Debug>", ValueBag::from(dd)),
        ("From<&dyn Display>", ValueBag::from(dp)),
        ("From<&dyn Error>", ValueBag::from(de)),
        ("From<&dyn Value>", ValueBag::from(dv)),
        ("fill_debug", ValueBag::from_fill(&|s: Slot| s.fill_debug(&v))),
        ("fill_display", ValueBag::from_fill(&|s: Slot| s.fill_display(&v))),
        ("fill_error", ValueBag::from_fill(&|s: Slot| s.fill_error(v.clone()))),
        ("fill_dyn_error", ValueBag::from_fill(&|s: Slot| s.fill_dyn_error(&v))),
        ("fill_sval2", ValueBag::from_fill(&|s: Slot| s.fill_sval2(&v))),
        ("fill_serde1", ValueBag::from_fill(&|s: Slot| s.fill_serde1(&v))),
        ("fill_any", ValueBag::from_fill(&|s: Slot| s.fill_any(ValueBag::capture_shared_debug(v.clone())))),
    ] {
        chains(ctx, &bag, None, &|n| format!("{name} {route}: {n}"));
        ctx.eval(false, &format!("{name} {route}"));
    }
    for (route, bag) in [
        ("capture_shared_debug", ValueBag::capture_shared_debug(v.clone())),
        ("capture_shared_display", ValueBag::capture_shared_display(v.clone())),
        ("capture_shared_error", ValueBag::capture_shared_error(v.clone())),
        ("capture_shared_sval2", ValueBag::capture_shared_sval2(v.clone())),
        ("capture_shared_serde1", ValueBag::capture_shared_serde1(v.clone())),
    ] {
        let at = bag.downcast_ref::<T>().map(|v| v as *const T as usize);
        ctx.check(at.is_some() && at != Some(&v as *const T as usize) || std::mem::size_of::<T>() == 0, || {
            format!("{name} {route}: not the shared object")
        });
        chains(ctx, &bag, Some((id, at)), &|n| format!("{name} {route}: {n}"));
        owned(ctx, bag, (id, at), &|n| format!("{name} {route}: {n}"), rng);
        ctx.eval(false, &format!("{name} {route}"));
    }
}

/// Types of the standard library that only print.
fn printed<T>(ctx: &mut Ctx, v: T, name: &str, rng: &mut Rng)
where
    T: Debug + Clone + Send + Sync + 'static,
{
    let id = TypeId::of::<T>();
    let at = &v as *const T as usize;
    chains(ctx, &ValueBag::capture_debug(&v), Some((id, Some(at))), &|n| format!("{name} capture_debug: {n}"));
    chains(ctx, &ValueBag::from_debug(&v), None, &|n| format!("{name} from_debug: {n}"));
    let bag = ValueBag::capture_shared_debug(v.clone());
    let at = bag.downcast_ref::<T>().map(|v| v as *const T as usize);
    ctx.check(at.is_some(), || format!("{name} capture_shared_debug: no downcast"));
    owned(ctx, bag, (id, at), &|n| format!("{name} capture_shared_debug: {n}"), rng);
    ctx.eval(false, &format!("{name} printed"));
}

/// Sequences are captured as a whole.
fn sequence<I, T>(ctx: &mut Ctx, v: I, name: &str, rng: &mut Rng)
where
    I: AsRef<[T]> + Send + Sync + 'static,
    T: Send + Sync + 'static,
    for<'a> &'a T: Into<ValueBag<'a>>,
{
    chains(ctx, &ValueBag::from_seq_slice(&v), None, &|n| format!("{name} from_seq_slice: {n}"));
    let id = TypeId::of::<I>();
    let bag = ValueBag::capture_shared_seq_slice(v);
    let at = bag.downcast_ref::<I>().map(|v| v as *const I as usize);
    ctx.check(at.is_some(), || format!("{name} capture_shared_seq_slice: no downcast"));
    chains(ctx, &bag, Some((id, at)), &|n| format!("{name} capture_shared_seq_slice: {n}"));
    owned(ctx, bag, (id, at), &|n| format!("{name} capture_shared_seq_slice: {n}"), rng);
    ctx.eval(false, &format!("{name} sequence"));
}

/// Primitives don't downcast to anything, however they are captured.
fn primitive<T>(ctx: &mut Ctx, v: T, shared: bool, name: &str)
where
    T: Debug + Display + Serialize + Value + Clone + Send + Sync + 'static,
{
    let mut bags = vec![
        ("capture_debug", ValueBag::capture_debug(&v)),
        ("capture_display", ValueBag::capture_display(&v)),
        ("capture_sval2", ValueBag::capture_sval2(&v)),
        ("capture_serde1", ValueBag::capture_serde1(&v)),
        ("from_debug", ValueBag::from_debug(&v)),
        ("from_display", ValueBag::from_display(&v)),
        ("from_sval2", ValueBag::from_sval2(&v)),
        ("from_serde1", ValueBag::from_serde1(&v)),
    ];
    if shared {
        bags.push(("capture_shared_debug", ValueBag::capture_shared_debug(v.clone())));
        bags.push(("capture_shared_display", ValueBag::capture_shared_display(v.clone())));
        bags.push(("capture_shared_sval2", ValueBag::capture_shared_sval2(v.clone())));
        bags.push(("capture_shared_serde1", ValueBag::capture_shared_serde1(v.clone())));
    }
    for (route, b) in bags {
        chains(ctx, &b, None, &|n| format!("{name} {route}: {n}"));
        ctx.eval(false, &format!("{name} {route} {v:?}"));
    }
}

fn direct(ctx: &mut Ctx, b: ValueBag, name: &str) {
    chains(ctx, &b, None, &|n| format!("{name}: {n}"));
    ctx.eval(false, &format!("{name} {}", crate::ctx::short(&b)));
}

pub fn run(ctx: &mut Ctx) -> &'static str {
    let n = ctx.count(16, 2400, 30000);
    ctx.cases("user types", n, |ctx, i, rng| {
        let n = rng.u64();
        let t = gen::short_text(rng);
        macro_rules! v {
            ($v:expr) => {
                value(ctx, $v, stringify!($v), rng)
            };
        }
        match i % 24 {
            0 => v!(Empty1 {}),
            1 => v!(Empty2 {}),
            2 => v!(Num1 { _n: n }),
            3 => v!(Num2 { _n: n }),
            4 => v!(Thin { _n: n }),
            5 => v!(Fat { _n: [n; 9], _s: t }),
            6 => v!(Text { _s: t }),
            7 => v!(Wide { _b: n as u8 }),
            8 => v!(Gen { _p: n as u8 }),
            9 => v!(Gen { _p: n as i8 }),
            10 => v!(Gen { _p: n }),
            11 => v!(Gen { _p: Num1 { _n: n } }),
            12 => v!(Gen { _p: Num2 { _n: n } }),
            13 => v!(Gen { _p: Gen { _p: n as u8 } }),
            14 => v!(Gen { _p: t }),
            15 => v!(Gen { _p: () }),
            16 => v!(Ghost { _p: PhantomData::<u8> }),
            17 => v!(Ghost { _p: PhantomData::<i8> }),
            18 => v!(Ghost { _p: PhantomData::<Num1> }),
            19 => v!(Left::make(n)),
            20 => v!(Right::make(n)),
            21 => v!(Ghost { _p: PhantomData::<fn(&u8)> }),
            22 => v!(Ghost { _p: PhantomData::<fn(&'static u8)> }),
            _ => {
                let mut u = U::gen_text(rng);
                u.m = crate::model::M::gen_tiny(rng, crate::model::Dom::BOTH);
                value(ctx, u, "U", rng)
            }
        }
        ctx.count_up("values");
    });
    let n = ctx.count(10, 1000, 10000);
    ctx.cases("other types", n, |ctx, i, rng| {
        let n = rng.u64();
        match i % 16 {
            0 => printed(ctx, vec![n as u8], "Vec<u8>", rng),
            1 => printed(ctx, vec![n as i8], "Vec<i8>", rng),
            2 => printed(ctx, [n; 2], "[u64; 2]", rng),
            3 => printed(ctx, [n; 3], "[u64; 3]", rng),
            4 => printed(ctx, IpAddr::from([n as u8; 4]), "IpAddr", rng),
            5 => printed(ctx, Ipv4Addr::from([n as u8; 4]), "Ipv4Addr", rng),
            6 => printed(ctx, Duration::from_nanos(n), "Duration", rng),
            7 => printed(ctx, NonZeroU64::new(n | 1).unwrap(), "NonZeroU64", rng),
            8 => printed(ctx, Some(Num1 { _n: n }), "Option<Num1>", rng),
            9 => printed(ctx, Box::new(Num1 { _n: n }), "Box<Num1>", rng),
            10 => printed(ctx, Arc::new(Num1 { _n: n }), "Arc<Num1>", rng),
            11 => printed(ctx, BTreeMap::from([(n as u8, 1u8)]), "BTreeMap", rng),
            12 => sequence::<Vec<u64>, u64>(ctx, vec![n; 3], "Vec<u64>", rng),
            13 => sequence::<Vec<String>, String>(ctx, vec![gen::text(rng)], "Vec<String>", rng),
            14 => sequence::<[u64; 3], u64>(ctx, [n; 3], "[u64; 3]", rng),
            _ => sequence::<Coll<u64>, u64>(ctx, Coll::new(vec![n]), "Coll<u64>", rng),
        }
        // A type of the same name and layout
        a::same(n)(&mut |bag, at, _| {
            for (_, name, is, found) in requests(&bag) {
                let own = name == "a::Same";
                ctx.check(is == own && found.is_some() == own, || format!("a::Same: found as {name}: {found:?}"));
                if own {
                    ctx.check(found == Some(at), || "a::Same: found somewhere else".into());
                }
            }
        });
    });
    let n = ctx.count(10, 1200, 10000);
    ctx.cases("primitives", n, |ctx, i, rng| {
        let n = rng.u128();
        macro_rules! p {
            ($($t:ty),*) => {{
                let mut k = 0;
                $({
                    if i % 14 == k {
                        let v = n as $t;
                        primitive(ctx, v, true, stringify!($t));
                        direct(ctx, ValueBag::from(v), stringify!(From<$t>));
                        direct(ctx, ValueBag::from(&v), stringify!(From<&$t>));
                        direct(ctx, ValueBag::from(Some(v)), stringify!(From<Option<$t>>));
                        direct(ctx, ValueBag::capture_debug(&Some(v)), stringify!(capture_debug(Option<$t>)));
                        direct(ctx, ValueBag::capture_shared_debug(Some(v)), stringify!(capture_shared_debug(Option<$t>)));
                        direct(ctx, ValueBag::from_fill(&|s: Slot| s.fill_any(v)), stringify!(fill_any($t)));
                    }
                    k += 1;
                })*
                let _ = k;
            }};
        }
        p!(u8, u16, u32, u64, i8, i16, i32, i64, f32, f64);
        match i % 14 {
            10 => {
                primitive(ctx, n, false, "u128");
                primitive(ctx, n as i128, false, "i128");
                direct(ctx, ValueBag::from(&n), "From<&u128>");
            }
            11 => {
                primitive(ctx, n % 2 == 0, true, "bool");
                direct(ctx, ValueBag::from(n % 2 == 0), "From<bool>");
                direct(ctx, ValueBag::from(()), "From<()>");
            }
            12 => {
                let c = gen::chr(rng);
                primitive(ctx, c, true, "char");
                direct(ctx, ValueBag::from(c), "From<char>");
            }
            13 => {
                let t = gen::text(rng);
                primitive(ctx, t.clone(), false, "String");
                let s: &'static str = crate::prim::leak(&t);
                primitive(ctx, s, false, "&'static str");
                direct(ctx, ValueBag::from(&*t), "From<&str>");
                direct(ctx, ValueBag::from(&t), "From<&String>");
                direct(ctx, ValueBag::empty(), "empty");
            }
            _ => (),
        }
    });
    "distinct (captured value, capture route) pairs, each asked for every one of some ninety types through every handle"
}
