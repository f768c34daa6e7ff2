//! C08: typed requests against a list of provided items.
use crate::ctx::{set_case, Ctx};
use crate::{check, same};
use metriken::{Metric, MetricBuilder, Value};
use metriken_core::{request_ref, request_value, Request};
use std::any::Any;
use std::cell::RefCell;
use std::sync::atomic::{AtomicUsize, Ordering};

// Types that are easy to confuse: same layout, wrappers, references, unsized.
#[derive(Clone, Copy, PartialEq, Debug)]
struct A(u64);
#[derive(Clone, Copy, PartialEq, Debug)]
struct B(u64);
#[derive(Clone, Copy, PartialEq, Debug)]
struct Zst;
// Large, over-aligned, and a namesake.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Big([u64; 700]);
#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(align(256))]
struct Aligned(u64);
mod other {
    #[derive(Clone, Copy, PartialEq, Debug)]
    pub struct A(pub u64);
}
#[derive(Clone, Copy, PartialEq, Debug)]
struct Gen<T>(T);
type Fun = fn(u64) -> u64;
fn f0(x: u64) -> u64 {
    x + 1
}
fn f1(x: u64) -> u64 {
    x + 2
}
fn fun(n: u64) -> Fun {
    if n % 2 == 0 {
        f0
    } else {
        f1
    }
}
trait Tr: Send + Sync {
    fn num(&self) -> u64;
}
impl Tr for A {
    fn num(&self) -> u64 {
        self.0
    }
}

const KINDS: usize = 26;

#[derive(Clone, Debug)]
struct Item {
    kind: usize,
    num: u64,
    lazy: bool,
    ask: bool,
}

struct Backing {
    a: A,
    b: B,
    s: String,
    v: Vec<u64>,
    bx: Box<u64>,
    rf: &'static u64,
    st: &'static str,
    big: Box<Big>,
    al: Aligned,
    oa: other::A,
    zst: Zst,
}

struct Prov {
    items: Vec<Item>,
    back: Vec<Backing>,
    ran: Vec<AtomicUsize>,
}

thread_local! {
    static LOG: RefCell<Vec<(usize, bool)>> = const { RefCell::new(Vec::new()) };
}

fn label(kind: usize) -> &'static str {
    [
        "value A", "value B", "value u64", "value i64", "value String", "value &'static str", "value Box<u64>",
        "value Zst", "value Option<A>", "ref A", "ref B", "ref str", "ref String", "ref [u64]", "ref dyn Tr", "value &'static u64", "ref &'static u64",
        "value Big", "ref Big", "value Aligned", "ref Aligned", "value other::A", "ref other::A", "value fn", "ref Zst", "value Gen<(u8, Vec<u64>)>",
    ][kind]
}

impl Metric for Prov {
    fn as_any(&self) -> Option<&dyn Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value<'_>> {
        None
    }
    fn provide<'a>(&'a self, r: &mut Request<'a>) {
        for (i, it) in self.items.iter().enumerate() {
            let n = it.num;
            let k = &self.back[i];
            if it.ask {
                let w = match it.kind {
                    0 => r.would_be_satisfied_by_value_of::<A>(),
                    1 => r.would_be_satisfied_by_value_of::<B>(),
                    2 => r.would_be_satisfied_by_value_of::<u64>(),
                    3 => r.would_be_satisfied_by_value_of::<i64>(),
                    4 => r.would_be_satisfied_by_value_of::<String>(),
                    5 => r.would_be_satisfied_by_value_of::<&'static str>(),
                    6 => r.would_be_satisfied_by_value_of::<Box<u64>>(),
                    7 => r.would_be_satisfied_by_value_of::<Zst>(),
                    8 => r.would_be_satisfied_by_value_of::<Option<A>>(),
                    9 => r.would_be_satisfied_by_ref_of::<A>(),
                    10 => r.would_be_satisfied_by_ref_of::<B>(),
                    11 => r.would_be_satisfied_by_ref_of::<str>(),
                    12 => r.would_be_satisfied_by_ref_of::<String>(),
                    13 => r.would_be_satisfied_by_ref_of::<[u64]>(),
                    14 => r.would_be_satisfied_by_ref_of::<dyn Tr>(),
                    15 => r.would_be_satisfied_by_value_of::<&'static u64>(),
                    16 => r.would_be_satisfied_by_ref_of::<&'static u64>(),
                    17 => r.would_be_satisfied_by_value_of::<Big>(),
                    18 => r.would_be_satisfied_by_ref_of::<Big>(),
                    19 => r.would_be_satisfied_by_value_of::<Aligned>(),
                    20 => r.would_be_satisfied_by_ref_of::<Aligned>(),
                    21 => r.would_be_satisfied_by_value_of::<other::A>(),
                    22 => r.would_be_satisfied_by_ref_of::<other::A>(),
                    23 => r.would_be_satisfied_by_value_of::<Fun>(),
                    24 => r.would_be_satisfied_by_ref_of::<Zst>(),
                    _ => r.would_be_satisfied_by_value_of::<Gen<(u8, Vec<u64>)>>(),
                };
                LOG.with(|l| l.borrow_mut().push((i, w)));
            }
            macro_rules! val {
                ($t:ty, $e:expr) => {
                    if it.lazy {
                        r.provide_value_with::<$t>(|| {
                            self.ran[i].fetch_add(1, Ordering::SeqCst);
                            $e
                        });
                    } else {
                        r.provide_value::<$t>($e);
                    }
                };
            }
            macro_rules! rf {
                ($t:ty, $e:expr) => {
                    if it.lazy {
                        r.provide_ref_with::<$t>(|| {
                            self.ran[i].fetch_add(1, Ordering::SeqCst);
                            $e
                        });
                    } else {
                        r.provide_ref::<$t>($e);
                    }
                };
            }
            match it.kind {
                0 => val!(A, A(n)),
                1 => val!(B, B(n)),
                2 => val!(u64, n),
                3 => val!(i64, n as i64),
                4 => val!(String, k.s.clone()),
                5 => val!(&'static str, k.st),
                6 => val!(Box<u64>, k.bx.clone()),
                7 => val!(Zst, Zst),
                8 => val!(Option<A>, if n % 2 == 0 { None } else { Some(A(n)) }),
                9 => rf!(A, &k.a),
                10 => rf!(B, &k.b),
                11 => rf!(str, k.s.as_str()),
                12 => rf!(String, &k.s),
                13 => rf!([u64], &k.v[..]),
                14 => rf!(dyn Tr, &k.a),
                15 => val!(&'static u64, k.rf),
                16 => rf!(&'static u64, &k.rf),
                17 => val!(Big, *k.big),
                18 => rf!(Big, &*k.big),
                19 => val!(Aligned, k.al),
                20 => rf!(Aligned, &k.al),
                21 => val!(other::A, k.oa),
                22 => rf!(other::A, &k.oa),
                23 => val!(Fun, fun(n)),
                24 => rf!(Zst, &k.zst),
                _ => val!(Gen<(u8, Vec<u64>)>, Gen((n as u8, k.v.clone()))),
            }
        }
    }
}

fn build(items: &[Item]) -> Prov {
    Prov {
        items: items.to_vec(),
        back: items
            .iter()
            .map(|i| Backing {
                a: A(i.num),
                b: B(i.num),
                s: format!("s{}", i.num),
                v: vec![i.num; (i.num % 4) as usize],
                bx: Box::new(i.num),
                rf: Box::leak(Box::new(i.num)),
                st: Box::leak(format!("t{}", i.num).into_boxed_str()),
                big: Box::new(Big([i.num; 700])),
                al: Aligned(i.num),
                oa: other::A(i.num),
                zst: Zst,
            })
            .collect(),
        ran: items.iter().map(|_| AtomicUsize::new(0)).collect(),
    }
}

/// One request of the kind's type; Some(index of the item it must be).
fn ask(p: &Prov, m: &dyn Metric, kind: usize, want: Option<usize>) {
    let w = want.map(|i| (&p.items[i], &p.back[i]));
    let what = label(kind);
    match kind {
        0 => same!(request_value::<A>(m), w.map(|x| A(x.0.num)), "{what}"),
        1 => same!(request_value::<B>(m), w.map(|x| B(x.0.num)), "{what}"),
        2 => same!(request_value::<u64>(m), w.map(|x| x.0.num), "{what}"),
        3 => same!(request_value::<i64>(m), w.map(|x| x.0.num as i64), "{what}"),
        4 => same!(request_value::<String>(m), w.map(|x| x.1.s.clone()), "{what}"),
        5 => same!(request_value::<&'static str>(m), w.map(|x| x.1.st), "{what}"),
        6 => same!(request_value::<Box<u64>>(m), w.map(|x| x.1.bx.clone()), "{what}"),
        7 => same!(request_value::<Zst>(m), w.map(|_| Zst), "{what}"),
        8 => same!(request_value::<Option<A>>(m), w.map(|x| if x.0.num % 2 == 0 { None } else { Some(A(x.0.num)) }), "{what}"),
        9 => same!(request_ref::<A>(m).map(|x| x as *const A), w.map(|x| &x.1.a as *const A), "{what}"),
        10 => same!(request_ref::<B>(m).map(|x| x as *const B), w.map(|x| &x.1.b as *const B), "{what}"),
        11 => same!(request_ref::<str>(m).map(|x| (x.as_ptr(), x.len())), w.map(|x| (x.1.s.as_ptr(), x.1.s.len())), "{what}"),
        12 => same!(request_ref::<String>(m).map(|x| x as *const String), w.map(|x| &x.1.s as *const String), "{what}"),
        13 => same!(request_ref::<[u64]>(m).map(|x| (x.as_ptr(), x.len())), w.map(|x| (x.1.v.as_ptr(), x.1.v.len())), "{what}"),
        14 => {
            let r = request_ref::<dyn Tr>(m);
            same!(r.map(|x| x as *const dyn Tr as *const ()), w.map(|x| &x.1.a as *const A as *const ()), "{what}");
            same!(r.map(|x| x.num()), w.map(|x| x.0.num), "{what}: method");
        }
        15 => same!(request_value::<&'static u64>(m).map(|x| x as *const u64), w.map(|x| x.1.rf as *const u64), "{what}"),
        17 => same!(request_value::<Big>(m).map(|x| (x.0[0], x.0[699])), w.map(|x| (x.0.num, x.0.num)), "{what}"),
        18 => same!(request_ref::<Big>(m).map(|x| x as *const Big), w.map(|x| &*x.1.big as *const Big), "{what}"),
        19 => same!(request_value::<Aligned>(m), w.map(|x| x.1.al), "{what}"),
        20 => same!(request_ref::<Aligned>(m).map(|x| x as *const Aligned), w.map(|x| &x.1.al as *const Aligned), "{what}"),
        21 => same!(request_value::<other::A>(m), w.map(|x| x.1.oa), "{what}"),
        22 => same!(request_ref::<other::A>(m).map(|x| x as *const other::A), w.map(|x| &x.1.oa as *const other::A), "{what}"),
        23 => same!(request_value::<Fun>(m).map(|f| f(1)), w.map(|x| fun(x.0.num)(1)), "{what}"),
        24 => same!(request_ref::<Zst>(m).map(|x| x as *const Zst), w.map(|x| &x.1.zst as *const Zst), "{what}"),
        25 => same!(request_value::<Gen<(u8, Vec<u64>)>>(m), w.map(|x| Gen((x.0.num as u8, x.1.v.clone()))), "{what}"),
        _ => same!(request_ref::<&'static u64>(m).map(|x| x as *const &u64), w.map(|x| &x.1.rf as *const &u64), "{what}"),
    }
}

fn one(c: &mut Ctx, items: &[Item]) {
    let p = build(items);
    let text = || {
        items
            .iter()
            .map(|i| format!("{}{}{}#{}", if i.ask { "would? " } else { "" }, if i.lazy { "closure " } else { "" }, label(i.kind), i.num))
            .collect::<Vec<_>>()
            .join(", ")
    };
    for kind in 0..KINDS {
        set_case(format!("metric provides [{}]; request {}", text(), label(kind)));
        let want = items.iter().position(|i| i.kind == kind);
        for r in &p.ran {
            r.store(0, Ordering::SeqCst);
        }
        LOG.with(|l| l.borrow_mut().clear());
        ask(&p, &p, kind, want);
        for (i, it) in items.iter().enumerate() {
            let ran = p.ran[i].load(Ordering::SeqCst);
            same!(ran, (it.lazy && Some(i) == want) as usize, "runs of the closure of item {i}");
        }
        let log = LOG.with(|l| l.borrow().clone());
        let wantlog: Vec<(usize, bool)> = items.iter().enumerate().filter(|(_, it)| it.ask).map(|(i, _)| (i, Some(i) == want)).collect();
        same!(log, wantlog, "answers to would_be_satisfied_by");
        c.eval((kind, items.iter().map(|i| (i.kind, i.lazy, i.ask)).collect::<Vec<_>>()), || format!("[{}] request {}", text(), label(kind)));
    }
    check!(p.back.len() == items.len(), "internal");
}

pub fn run(c: &mut Ctx) {
    let mut n = 0;
    let mut item = |kind: usize, lazy: bool, ask: bool| {
        n += 1;
        Item { kind, num: n, lazy, ask }
    };
    one(c, &[]);
    for k in 0..KINDS {
        for lazy in [false, true] {
            for q in [false, true] {
                one(c, &[item(k, lazy, q)]);
                for k2 in 0..KINDS {
                    one(c, &[item(k, lazy, q), item(k2, lazy, !q)]);
                    one(c, &[item(k, lazy, q), item(k2, !lazy, q)]);
                }
            }
        }
    }
    for _ in 0..c.scale(300, 5000) {
        let len = c.below(12);
        let narrow = c.below(2) == 0;
        let base = c.below(KINDS);
        let items: Vec<Item> = (0..len)
            .map(|i| Item {
                kind: if narrow { (base + c.below(3)) % KINDS } else { c.below(KINDS) },
                num: 100 + i as u64,
                lazy: c.below(2) == 0,
                ask: c.below(3) > 0,
            })
            .collect();
        one(c, &items);
    }
    // through the builder: by reference only, by exact type
    for i in 0..c.scale(50, 500) as u64 {
        set_case(format!("builder provides A({i}), u64 {i}, String"));
        let m = MetricBuilder::new("p").provide(A(i)).provide(i).provide(format!("x{i}")).build(metriken::Counter::new());
        let list = metriken::metrics();
        let Some(e) = list.dynamic_metrics().find(|e| e.name() == "p") else { crate::ctx::fail("not listed") };
        same!(e.request_ref::<A>().copied(), Some(A(i)), "ref A");
        same!(e.request_ref::<u64>().copied(), Some(i), "ref u64");
        same!(e.request_ref::<String>().cloned(), Some(format!("x{i}")), "ref String");
        same!(e.request_ref::<B>().copied(), None, "ref B");
        same!(e.request_ref::<str>().map(|s| s.to_string()), None, "ref str");
        same!(e.request_value::<A>(), None, "value A");
        same!(e.request_value::<u64>(), None, "value u64");
        drop(list);
        drop(m);
        c.eval(("builder", i), || format!("builder {i}"));
    }
}
