//! C08: typed requests. A request is a slot for one item of one type and kind;
//! the state of providing is whether that slot is filled. Hence: for every
//! state (empty, or filled by an earlier item) and every next item offered, the
//! item is taken exactly if it is of the requested type and kind and the slot
//! is empty; any sequence of offers is a sequence of such steps.
//! Types stand for classes: same layout, wrapper, zero-sized, reference,
//! unsized; the code under test only compares their type identifiers.
#![allow(static_mut_refs)]
use metriken::{Metric, Value};
use metriken_core::{request_ref, request_value, Request};
use std::any::Any;

#[derive(Clone, Copy, PartialEq)]
pub struct A(u64);
#[derive(Clone, Copy, PartialEq)]
pub struct B(u64);
#[derive(Clone, Copy, PartialEq)]
pub struct Zst;
/// Large and over-aligned.
#[derive(Clone, Copy, PartialEq)]
#[repr(align(128))]
pub struct Big(u64, [u64; 40]);
pub trait Tr: Send + Sync {}
impl Tr for A {}

/// Kinds of items: 0..=4 by value (A, B, u64, Zst, &'static u64),
/// 5..=9 by reference (A, B, str, [u64], dyn Tr), 10 and 11 Big by value and
/// by reference.
pub const KINDS: u8 = 12;

pub struct Prov {
    kinds: [u8; 2],
    lazy: [bool; 2],
    nums: [u64; 2],
    count: usize,
    a: [A; 2],
    b: [B; 2],
    s: &'static str,
    v: [u64; 3],
    r: [&'static u64; 2],
    big: [Big; 2],
}
pub static mut RAN: [u32; 2] = [0; 2];
pub static mut WOULD: [bool; 2] = [false; 2];

impl Prov {
    fn text(&self, i: usize) -> &str {
        &self.s[i..i + 1]
    }
    fn slice(&self, i: usize) -> &[u64] {
        &self.v[i..i + 1]
    }
}

impl Metric for Prov {
    fn as_any(&self) -> Option<&dyn Any> {
        None
    }
    fn value(&self) -> Option<Value<'_>> {
        None
    }
    fn provide<'a>(&'a self, r: &mut Request<'a>) {
        let mut i = 0;
        while i < 2 {
            if i < self.count {
                let n = self.nums[i];
                let ran = || unsafe { RAN[i] += 1 };
                macro_rules! val {
                    ($t:ty, $e:expr) => {{
                        unsafe { WOULD[i] = r.would_be_satisfied_by_value_of::<$t>() };
                        if self.lazy[i] {
                            r.provide_value_with::<$t>(|| {
                                ran();
                                $e
                            });
                        } else {
                            r.provide_value::<$t>($e);
                        }
                    }};
                }
                macro_rules! rf {
                    ($t:ty, $e:expr) => {{
                        unsafe { WOULD[i] = r.would_be_satisfied_by_ref_of::<$t>() };
                        if self.lazy[i] {
                            r.provide_ref_with::<$t>(|| {
                                ran();
                                $e
                            });
                        } else {
                            r.provide_ref::<$t>($e);
                        }
                    }};
                }
                match self.kinds[i] {
                    0 => val!(A, A(n)),
                    1 => val!(B, B(n)),
                    2 => val!(u64, n),
                    3 => val!(Zst, Zst),
                    4 => val!(&'static u64, self.r[i]),
                    5 => rf!(A, &self.a[i]),
                    6 => rf!(B, &self.b[i]),
                    7 => rf!(str, self.text(i)),
                    8 => rf!([u64], self.slice(i)),
                    9 => rf!(dyn Tr, &self.a[i]),
                    10 => val!(Big, self.big[i]),
                    _ => rf!(Big, &self.big[i]),
                }
            }
            i += 1;
        }
    }
}

#[cfg(kani)]
mod proofs {
    use super::*;

    fn any_provider() -> Prov {
        let nums: [u64; 2] = kani::any();
        let count: usize = kani::any();
        kani::assume(count <= 2);
        let kinds: [u8; 2] = kani::any();
        kani::assume(kinds[0] < KINDS && kinds[1] < KINDS);
        Prov {
            kinds,
            lazy: kani::any(),
            nums,
            count,
            a: [A(nums[0]), A(nums[1])],
            b: [B(nums[0]), B(nums[1])],
            s: "pqr",
            v: [7, 8, 9],
            r: [Box::leak(Box::new(nums[0])), Box::leak(Box::new(nums[1]))],
            big: [Big(nums[0], [1; 40]), Big(nums[1], [2; 40])],
        }
    }

    /// First item of this kind.
    fn first(p: &Prov, kind: u8) -> Option<usize> {
        if p.count > 0 && p.kinds[0] == kind {
            Some(0)
        } else if p.count > 1 && p.kinds[1] == kind {
            Some(1)
        } else {
            None
        }
    }

    fn closures_and_queries(p: &Prov, want: Option<usize>) {
        let mut i = 0;
        while i < 2 {
            if i < p.count {
                let taken = want == Some(i);
                unsafe {
                    assert!(RAN[i] == (p.lazy[i] && taken) as u32, "[C08] closure run although its item is not taken, or not run");
                    assert!(WOULD[i] == taken, "[C08] would_be_satisfied_by is wrong");
                }
            }
            i += 1;
        }
        kani::cover!(want == Some(0) && p.count == 2 && p.kinds[0] == p.kinds[1] && p.lazy[1]);
        kani::cover!(want == Some(1));
        kani::cover!(want.is_none() && p.count == 2);
    }

    macro_rules! by_value {
        ($name:ident, $kind:expr, $t:ty, |$p:ident, $i:ident, $got:ident| $ok:expr) => {
            #[kani::proof]
            #[kani::unwind(4)]
            fn $name() {
                let $p = any_provider();
                let want = first(&$p, $kind);
                let got: Option<$t> = request_value::<$t>(&$p);
                match (want, got) {
                    (None, None) => {}
                    (Some($i), Some($got)) => assert!($ok, "[C08] another item"),
                    (Some(_), None) => assert!(false, "[C08] provided item not returned"),
                    (None, Some(_)) => assert!(false, "[C08] item that was not provided"),
                }
                closures_and_queries(&$p, want);
            }
        };
    }
    macro_rules! by_ref {
        ($name:ident, $kind:expr, $t:ty, |$p:ident, $i:ident, $got:ident| $ok:expr) => {
            #[kani::proof]
            #[kani::unwind(4)]
            fn $name() {
                let $p = any_provider();
                let want = first(&$p, $kind);
                let got: Option<&$t> = request_ref::<$t>(&$p);
                match (want, got) {
                    (None, None) => {}
                    (Some($i), Some($got)) => assert!($ok, "[C08] another item"),
                    (Some(_), None) => assert!(false, "[C08] provided item not returned"),
                    (None, Some(_)) => assert!(false, "[C08] item that was not provided"),
                }
                closures_and_queries(&$p, want);
            }
        };
    }
    by_value!(value_struct, 0, A, |p, i, g| g == A(p.nums[i]));
    by_value!(value_same_layout, 1, B, |p, i, g| g == B(p.nums[i]));
    by_value!(value_u64, 2, u64, |p, i, g| g == p.nums[i]);
    by_value!(value_zst, 3, Zst, |p, i, g| { let _ = (&p, i); g == Zst });
    by_value!(value_static_ref, 4, &'static u64, |p, i, g| std::ptr::eq(g, p.r[i]));
    by_ref!(ref_struct, 5, A, |p, i, g| std::ptr::eq(g, &p.a[i]));
    by_ref!(ref_same_layout, 6, B, |p, i, g| std::ptr::eq(g, &p.b[i]));
    by_ref!(ref_str, 7, str, |p, i, g| g.as_ptr() == p.text(i).as_ptr() && g.len() == 1);
    by_ref!(ref_slice, 8, [u64], |p, i, g| g.as_ptr() == p.slice(i).as_ptr() && g.len() == 1);
    by_ref!(ref_dyn, 9, dyn Tr, |p, i, g| g as *const dyn Tr as *const A == &p.a[i] as *const A);
    by_value!(value_large, 10, Big, |p, i, g| g.0 == p.nums[i] && g.1[39] == i as u64 + 1);
    by_ref!(ref_large, 11, Big, |p, i, g| std::ptr::eq(g, &p.big[i]));

    /// Types nobody provides.
    macro_rules! never {
        ($name:ident, $p:ident, $e:expr) => {
            #[kani::proof]
            #[kani::unwind(4)]
            fn $name() {
                let $p = any_provider();
                assert!($e, "[C08] item that was not provided");
                let mut i = 0;
                while i < 2 {
                    assert!(unsafe { RAN[i] == 0 && !WOULD[i] }, "[C08] closure run although its item is not taken");
                    i += 1;
                }
                kani::cover!($p.count == 2);
            }
        };
    }
    never!(never_value_primitive, p, request_value::<i64>(&p).is_none());
    never!(never_value_option, p, request_value::<Option<A>>(&p).is_none());
    never!(never_value_box, p, request_value::<Box<u64>>(&p).is_none());
    never!(never_ref_primitive, p, request_ref::<u64>(&p).is_none());
    never!(never_ref_zst, p, request_ref::<Zst>(&p).is_none());
    never!(never_ref_ref, p, request_ref::<&'static u64>(&p).is_none());

    /// A metric that provides nothing, asked directly and through its entry.
    #[kani::proof]
    #[kani::unwind(4)]
    fn nothing_provided() {
        let c = metriken::Counter::new();
        assert!(request_value::<u64>(&c).is_none() && request_ref::<str>(&c).is_none(), "[C08] item that was not provided");
        assert!(request_value::<A>(&c).is_none() && request_ref::<A>(&c).is_none(), "[C08] item that was not provided");
    }
}
