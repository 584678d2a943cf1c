//! C14: ops, callables, coroutines, conversions.
#![feature(fn_traits, unboxed_closures, coroutine_trait)]
use mc::*;
use std::marker::PhantomPinned;
use std::ops::*;
use std::pin::Pin;

struct F<const K: usize> {
    cells: [u32; 4],
    bytes: [u8; 4],
    text: Box<str>,
    _life: Life,
}
fn f<const K: usize>() -> F<K> {
    F { cells: [10, 20, 30, 40], bytes: *b"abcd", text: "text".into(), _life: Life::new() }
}
fn boom() {
    if answer(3) == 2 {
        panic!("field");
    }
}
impl<const K: usize> Deref for F<K> {
    type Target = [u32; 4];
    fn deref(&self) -> &[u32; 4] {
        log!("deref");
        boom();
        stash(&self.cells);
        &self.cells
    }
}
impl<const K: usize> DerefMut for F<K> {
    fn deref_mut(&mut self) -> &mut [u32; 4] {
        log!("deref_mut");
        boom();
        stash(&self.cells);
        &mut self.cells
    }
}
impl<const K: usize> Index<usize> for F<K> {
    type Output = u32;
    fn index(&self, i: usize) -> &u32 {
        log!("index {i}");
        let r = &self.cells[(i + answer(2)) % 5];
        stash(r);
        r
    }
}
impl<const K: usize> IndexMut<usize> for F<K> {
    fn index_mut(&mut self, i: usize) -> &mut u32 {
        log!("index_mut {i}");
        let r = &mut self.cells[(i + answer(2)) % 5];
        stash(r);
        r
    }
}
impl<const K: usize> Index<Range<usize>> for F<K> {
    type Output = [u8];
    fn index(&self, i: Range<usize>) -> &[u8] {
        log!("index {i:?}");
        let r = &self.bytes[i];
        stash(r);
        r
    }
}
impl<const K: usize> IndexMut<Range<usize>> for F<K> {
    fn index_mut(&mut self, i: Range<usize>) -> &mut [u8] {
        log!("index_mut {i:?}");
        let r = &mut self.bytes[i];
        stash(r);
        r
    }
}
impl<'a, const K: usize> Index<&'a str> for F<K> {
    type Output = str;
    fn index(&self, i: &'a str) -> &str {
        log!("index {i}");
        stash(&*self.text);
        &self.text
    }
}
impl<const K: usize> RangeBounds<u32> for F<K> {
    fn start_bound(&self) -> Bound<&u32> {
        log!("start_bound");
        stash(&self.cells[1]);
        match answer(3) {
            0 => Bound::Unbounded,
            1 => Bound::Included(&self.cells[1]),
            _ => Bound::Excluded(&self.cells[1]),
        }
    }
    fn end_bound(&self) -> Bound<&u32> {
        log!("end_bound");
        stash(&self.cells[2]);
        match answer(3) {
            0 => Bound::Unbounded,
            1 => Bound::Included(&self.cells[2]),
            _ => Bound::Excluded(&self.cells[2]),
        }
    }
}
impl<const K: usize> RangeBounds<str> for F<K> {
    fn start_bound(&self) -> Bound<&str> {
        log!("start_bound str");
        if flag() { Bound::Included(&self.text) } else { Bound::Unbounded }
    }
    fn end_bound(&self) -> Bound<&str> {
        log!("end_bound str");
        if flag() { Bound::Excluded(&self.text) } else { Bound::Unbounded }
    }
}
impl<const K: usize> AsRef<str> for F<K> {
    fn as_ref(&self) -> &str {
        log!("as_ref str");
        boom();
        stash(&*self.text);
        &self.text
    }
}
impl<const K: usize> AsRef<[u8]> for F<K> {
    fn as_ref(&self) -> &[u8] {
        log!("as_ref bytes");
        stash(&self.bytes);
        &self.bytes
    }
}
impl<const K: usize> AsMut<[u8]> for F<K> {
    fn as_mut(&mut self) -> &mut [u8] {
        log!("as_mut");
        boom();
        stash(&self.bytes);
        &mut self.bytes
    }
}
impl<const K: usize> AsMut<[u32; 4]> for F<K> {
    fn as_mut(&mut self) -> &mut [u32; 4] {
        log!("as_mut cells");
        stash(&self.cells);
        &mut self.cells
    }
}

mod deref_ {
    use super::*;
    enums!(DerefMut);
    fn go<T: DerefMut<Target = [u32; 4]>>(mut t: T) {
        for _ in 0..3 {
            match pick(5) {
                0 => {
                    let r = t.deref();
                    log!("{} {r:?}", is_stashed(r));
                }
                1 => {
                    let r = t.deref_mut();
                    log!("{} {r:?}", is_stashed(r));
                    r[0] += 1;
                }
                2 => log!("{:?}", t.iter().sum::<u32>()),
                3 => t[1] += 5,
                _ => log!("{:?}", &*t),
            }
        }
    }
    pub fn part(s: &mut Session) {
        s.part("Deref+DerefMut", &|| go(f::<0>()), all_suts!(go, F, f));
    }
}
mod deref_only {
    use super::*;
    enums!(Deref);
    fn go<T: Deref<Target = [u32; 4]>>(t: T) {
        for _ in 0..2 {
            let r = t.deref();
            log!("{} {r:?} {}", is_stashed(r), t.len());
        }
    }
    pub fn part(s: &mut Session) {
        s.part("Deref", &|| go(f::<0>()), all_suts!(go, F, f));
    }
}
mod index_ {
    use super::*;
    enums!(IndexMut);
    fn go<T>(mut t: T)
    where
        T: IndexMut<usize, Output = u32> + IndexMut<Range<usize>, Output = [u8]> + for<'a> Index<&'a str, Output = str>,
    {
        for _ in 0..3 {
            match pick(6) {
                0 => {
                    let i = pick(5);
                    let r = &t[i];
                    log!("{} {r:?}", is_stashed(r));
                }
                1 => {
                    let i = pick(5);
                    let r = &mut t[i];
                    log!("{} {r:?}", is_stashed(r));
                    *r += 1;
                }
                2 => {
                    let r = &t[1..3];
                    log!("{} {r:?}", is_stashed(r));
                }
                3 => {
                    let r = &mut t[2..4];
                    log!("{} {r:?}", is_stashed(r));
                    r[0] += 1;
                }
                4 => log!("{:?}", &t["key"]),
                _ => log!("{:?}", &t[3..9]),
            }
        }
    }
    pub fn part(s: &mut Session) {
        s.part("Index+IndexMut", &|| go(f::<0>()), few_suts!(go, F, f));
    }
    fn one<T: IndexMut<usize, Output = u32>>(mut t: T) {
        for _ in 0..2 {
            if pick(2) == 0 {
                log!("{}", t[pick(5)]);
            } else {
                t[pick(5)] += 1;
            }
        }
    }
    pub fn part1(s: &mut Session) {
        s.part("Index+IndexMut, every variant", &|| one(f::<0>()), all_suts!(one, F, f));
    }
}
mod range_ {
    use super::*;
    enums!(RangeBounds);
    fn show(b: Bound<&u32>) {
        match b {
            Bound::Included(x) => log!("Included {x} {}", is_stashed(x)),
            Bound::Excluded(x) => log!("Excluded {x} {}", is_stashed(x)),
            Bound::Unbounded => log!("Unbounded"),
        }
    }
    fn go<T: RangeBounds<u32> + RangeBounds<str>>(t: T) {
        match pick(6) {
            0 => show(RangeBounds::<u32>::start_bound(&t)),
            1 => show(RangeBounds::<u32>::end_bound(&t)),
            2 => log!("{:?}", RangeBounds::<str>::start_bound(&t)),
            3 => log!("{:?}", RangeBounds::<str>::end_bound(&t)),
            4 => {
                let v = [19, 20, 21, 29, 30, 31][pick(6)];
                log!("contains {v} {}", RangeBounds::<u32>::contains(&t, &v));
            }
            _ => {
                let m: std::collections::BTreeMap<u32, ()> = (18..33).map(|x| (x, ())).collect();
                fn range<T: RangeBounds<u32>>(m: &std::collections::BTreeMap<u32, ()>, t: &T) {
                    log!("range {:?}", m.range((t.start_bound(), t.end_bound())).collect::<Vec<_>>());
                }
                range(&m, &t);
            }
        }
    }
    pub fn part(s: &mut Session) {
        s.part("RangeBounds", &|| go(f::<0>()), all_suts!(go, F, f));
    }
}
mod convert_ {
    use super::*;
    enums!(AsRef, AsMut);
    fn go<T: AsRef<str> + AsRef<[u8]> + AsMut<[u8]> + AsMut<[u32; 4]>>(mut t: T) {
        for _ in 0..3 {
            match pick(4) {
                0 => {
                    let r: &str = t.as_ref();
                    log!("{} {r:?}", is_stashed(r));
                }
                1 => {
                    let r: &[u8] = t.as_ref();
                    log!("{} {r:?}", is_stashed(r));
                }
                2 => {
                    let r: &mut [u8] = t.as_mut();
                    log!("{} {r:?}", is_stashed(r));
                    r[1] += 1;
                }
                _ => {
                    let r: &mut [u32; 4] = t.as_mut();
                    log!("{} {r:?}", is_stashed(r));
                    r[1] += 1;
                }
            }
        }
    }
    pub fn part(s: &mut Session) {
        s.part("AsRef+AsMut", &|| go(f::<0>()), all_suts!(go, F, f));
    }
}

/// A callable that logs through which of the three traits it is called.
struct C<const K: usize> {
    n: u32,
    _life: Life,
}
fn c<const K: usize>() -> C<K> {
    C { n: 0, _life: Life::new() }
}
fn body(how: &str, n: u32, x: Item) -> Option<Item> {
    log!("{how} n={n} {x:?}");
    match answer(3) {
        0 => Some(x),
        1 => None,
        _ => panic!("field"),
    }
}
impl<const K: usize> FnOnce<(Item,)> for C<K> {
    type Output = Option<Item>;
    extern "rust-call" fn call_once(self, a: (Item,)) -> Option<Item> {
        body("call_once", self.n, a.0)
    }
}
impl<const K: usize> FnMut<(Item,)> for C<K> {
    extern "rust-call" fn call_mut(&mut self, a: (Item,)) -> Option<Item> {
        self.n += 1;
        body("call_mut", self.n, a.0)
    }
}
impl<const K: usize> Fn<(Item,)> for C<K> {
    extern "rust-call" fn call(&self, a: (Item,)) -> Option<Item> {
        body("call", self.n, a.0)
    }
}
macro_rules! fns {
    ($m:ident: [$($t:tt)*] $B:ident, $n:literal, |$x:ident| $($arm:tt)*) => {
        mod $m {
            use super::*;
            enums!($($t)*);
            #[allow(unused_mut)]
            fn go<T: $B(Item) -> Option<Item>>(mut $x: T) {
                for _ in 0..4 {
                    match pick($n) { $($arm)* _ => return }
                }
            }
            pub fn part(s: &mut Session) {
                s.part(stringify!($($t)*), &|| go(c::<0>()), all_suts!(go, C, c));
            }
        }
    };
}
fns!(fn_: [Fn] Fn, 7, |t|
    0 => log!("{:?}", t(Item::new())),
    1 => log!("{:?}", { let r = &t; r(Item::new()) }),
    2 => log!("{:?}", { let r: &dyn Fn(Item) -> Option<Item> = &t; r(Item::new()) }),
    3 => log!("{:?}", t.call_mut((Item::new(),))),
    4 => { log!("{:?}", t.call_once((Item::new(),))); return }
    5 => { fn m(mut f: impl FnMut(Item) -> Option<Item>) { log!("{:?} {:?}", f(Item::new()), f(Item::new())); } m(t); return }
);
fns!(fn_mut: [FnMut] FnMut, 5, |t|
    0 => log!("{:?}", t(Item::new())),
    1 => log!("{:?}", { let r = &mut t; r(Item::new()) }),
    2 => log!("{:?}", { let r: &mut dyn FnMut(Item) -> Option<Item> = &mut t; r(Item::new()) }),
    3 => { log!("{:?}", t.call_once((Item::new(),))); return }
);
fns!(fn_once: [FnOnce] FnOnce, 3, |t|
    0 => { log!("{:?}", t(Item::new())); return }
    1 => { let b: Box<dyn FnOnce(Item) -> Option<Item>> = Box::new(t); log!("{:?}", b(Item::new())); return }
);
/// closures of different types as fields
mod closures {
    use super::*;
    enums!(Fn);
    fn go<T: Fn(Item) -> Option<Item>>(t: T) {
        for _ in 0..2 {
            log!("{:?}", t(Item::new()));
        }
    }
    macro_rules! k {
        ($i:ident) => {{ let life = Life::new(); move |$i: Item| { let _ = &life; body("closure", 0, $i) } }};
    }
    pub fn part(s: &mut Session) {
        s.part("closures", &|| go(k!(x)), &[
            ("E1", &|| go(E1::A(k!(x)))),
            ("E2::A", &|| { let mut e = E2::A(k!(x)); if false { e = E2::B(k!(y)) } go(e) }),
            ("E2::B", &|| { let mut e = E2::B(k!(x)); if false { e = E2::A(k!(y)) } go(e) }),
            ("E3::B", &|| { let mut e = E3::B(k!(x)); if false { e = E3::A(k!(y)) } if false { e = E3::C(k!(z)) } go(e) }),
        ]);
    }
}

struct G<const K: usize> {
    addr: Addr,
    _life: Life,
    _p: PhantomPinned,
}
fn g<const K: usize>() -> G<K> {
    G { addr: Addr::new(), _life: Life::new(), _p: PhantomPinned }
}
impl<const K: usize> Coroutine<Item> for G<K> {
    type Yield = Item;
    type Return = Option<Item>;
    fn resume(self: Pin<&mut Self>, x: Item) -> CoroutineState<Item, Option<Item>> {
        log!("resume {x:?} pinned at the same place: {}", self.addr.same(&*self));
        match answer(4) {
            0 => CoroutineState::Complete(None),
            1 => CoroutineState::Complete(Some(x)),
            2 => CoroutineState::Yielded(x),
            _ => panic!("field"),
        }
    }
}
mod coroutine_ {
    use super::*;
    enums!(Coroutine);
    fn go<T: Coroutine<Item, Yield = Item, Return = Option<Item>>>(t: T) {
        let mut t = Box::pin(t);
        for _ in 0..4 {
            if pick(2) == 0 {
                match t.as_mut().resume(Item::new()) {
                    CoroutineState::Complete(x) => log!("complete {x:?}"),
                    CoroutineState::Yielded(x) => log!("yielded {x:?}"),
                }
            } else {
                return;
            }
        }
    }
    pub fn part(s: &mut Session) {
        s.part("Coroutine", &|| go(g::<0>()), all_suts!(go, G, g));
    }
}

fn main() {
    let mut s = Session::new(6, 9);
    deref_::part(&mut s);
    deref_only::part(&mut s);
    index_::part1(&mut s);
    index_::part(&mut s);
    range_::part(&mut s);
    convert_::part(&mut s);
    fn_::part(&mut s);
    fn_mut::part(&mut s);
    fn_once::part(&mut s);
    closures::part(&mut s);
    coroutine_::part(&mut s);
    s.finish();
}
