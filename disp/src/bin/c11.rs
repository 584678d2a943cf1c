//! C11: Iterator family.
#![feature(trusted_len)]
#![allow(dead_code)]
use mc::*;
use std::iter::FusedIterator;

/// Field overriding every stable method that can be specialized; each logs its own call.
struct Full<const K: usize> {
    _life: Life,
}
fn full<const K: usize>() -> Full<K> {
    Full { _life: Life::new() }
}
/// Field with the required methods only.
struct Min<const K: usize> {
    _life: Life,
}
fn min<const K: usize>() -> Min<K> {
    Min { _life: Life::new() }
}

fn item() -> Option<Item> {
    match answer(3) {
        0 => None,
        1 => Some(Item::new()),
        _ => panic!("field"),
    }
}
fn item2() -> Option<Item> {
    if flag() { Some(Item::new()) } else { None }
}

impl<const K: usize> Iterator for Min<K> {
    type Item = Item;
    fn next(&mut self) -> Option<Item> {
        log!("next");
        item()
    }
}
impl<const K: usize> DoubleEndedIterator for Min<K> {
    fn next_back(&mut self) -> Option<Item> {
        log!("next_back");
        item()
    }
}

const HINTS: [(usize, Option<usize>); 5] =
    [(0, None), (0, Some(0)), (2, Some(2)), (1, Some(3)), (usize::MAX, None)];

impl<const K: usize> Iterator for Full<K> {
    type Item = Item;
    fn next(&mut self) -> Option<Item> {
        log!("next");
        item()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        log!("size_hint");
        HINTS[answer(HINTS.len())]
    }
    fn count(self) -> usize {
        log!("count");
        answer(3)
    }
    fn last(self) -> Option<Item> {
        log!("last");
        item()
    }
    fn nth(&mut self, n: usize) -> Option<Item> {
        log!("nth {n}");
        item()
    }
    fn collect<B: FromIterator<Item>>(self) -> B {
        log!("collect");
        B::from_iter(std::iter::from_fn(item2))
    }
    fn partition<B, F>(self, mut f: F) -> (B, B)
    where
        B: Default + Extend<Item>,
        F: FnMut(&Item) -> bool,
    {
        log!("partition");
        let (mut a, mut b) = (B::default(), B::default());
        while let Some(x) = item2() {
            if f(&x) { a.extend(Some(x)) } else { b.extend(Some(x)) }
        }
        (b, a)
    }
    fn fold<B, F: FnMut(B, Item) -> B>(self, init: B, mut f: F) -> B {
        log!("fold");
        let mut acc = init;
        while let Some(x) = item2() {
            acc = f(acc, x);
        }
        acc
    }
    fn all<F: FnMut(Item) -> bool>(&mut self, mut f: F) -> bool {
        log!("all");
        while let Some(x) = item2() {
            if !f(x) {
                return false;
            }
        }
        flag()
    }
    fn any<F: FnMut(Item) -> bool>(&mut self, mut f: F) -> bool {
        log!("any");
        while let Some(x) = item2() {
            if f(x) {
                return true;
            }
        }
        flag()
    }
    fn find<P: FnMut(&Item) -> bool>(&mut self, mut p: P) -> Option<Item> {
        log!("find");
        while let Some(x) = item2() {
            if p(&x) {
                return Some(x);
            }
        }
        item2()
    }
    fn find_map<B, F: FnMut(Item) -> Option<B>>(&mut self, mut f: F) -> Option<B> {
        log!("find_map");
        while let Some(x) = item2() {
            if let Some(x) = f(x) {
                return Some(x);
            }
        }
        None
    }
    fn position<P: FnMut(Item) -> bool>(&mut self, mut p: P) -> Option<usize> {
        log!("position");
        let mut i = 7;
        while let Some(x) = item2() {
            if p(x) {
                return Some(i);
            }
            i += 1;
        }
        None
    }
}
impl<const K: usize> DoubleEndedIterator for Full<K> {
    fn next_back(&mut self) -> Option<Item> {
        log!("next_back");
        item()
    }
    fn nth_back(&mut self, n: usize) -> Option<Item> {
        log!("nth_back {n}");
        item()
    }
    fn rfold<B, F: FnMut(B, Item) -> B>(self, init: B, mut f: F) -> B {
        log!("rfold");
        let mut acc = init;
        while let Some(x) = item2() {
            acc = f(acc, x);
        }
        acc
    }
    fn rfind<P: FnMut(&Item) -> bool>(&mut self, mut p: P) -> Option<Item> {
        log!("rfind");
        while let Some(x) = item2() {
            if p(&x) {
                return Some(x);
            }
        }
        item2()
    }
}
impl<const K: usize> ExactSizeIterator for Full<K> {
    fn len(&self) -> usize {
        log!("len");
        [0, 1, 7, usize::MAX][answer(4)]
    }
}
impl<const K: usize> FusedIterator for Full<K> {}

enums!(Iterator, DoubleEndedIterator);

mod sized {
    use super::*;
    enums!(ExactSizeIterator, DoubleEndedIterator, FusedIterator);
    pub fn part(s: &mut Session, d: usize) {
        let f = move |x: &mut dyn ExactSized| x.go(d);
        macro_rules! go { ($e:expr) => { f(&mut $e) } }
        fn m<const K: usize>() -> Full<K> { full() }
        s.part("ExactSizeIterator+FusedIterator histories", &|| go!(m::<0>()), &[
            ("E1::A", &|| go!(E1::<Full<0>>::A(m()))),
            ("E2::A", &|| go!(E2::<Full<0>, Full<1>>::A(m()))),
            ("E2::B", &|| go!(E2::<Full<0>, Full<1>>::B(m()))),
            ("E3::B", &|| go!(E3::<Full<0>, Full<1>, Full<2>>::B(m()))),
            ("E3::C", &|| go!(E3::<Full<0>, Full<1>, Full<2>>::C(m()))),
            ("E5::A", &|| go!(E5::<Full<0>, Full<1>, Full<2>, Full<3>, Full<4>>::A(m()))),
            ("E5::D", &|| go!(E5::<Full<0>, Full<1>, Full<2>, Full<3>, Full<4>>::D(m()))),
            ("E5::E", &|| go!(E5::<Full<0>, Full<1>, Full<2>, Full<3>, Full<4>>::E(m()))),
        ]);
    }
    trait ExactSized {
        fn go(&mut self, d: usize);
    }
    impl<T: ExactSizeIterator<Item = Item> + FusedIterator + DoubleEndedIterator> ExactSized for T {
        fn go(&mut self, d: usize) {
            for _ in 0..d {
                match pick(7) {
                    0 => log!("len -> {:?}", self.len()),
                    1 => log!("size_hint -> {:?}", self.size_hint()),
                    2 => log!("next -> {:?}", self.next()),
                    3 => log!("next_back -> {:?}", self.next_back()),
                    4 => log!("rposition -> {:?}", self.rposition(|x| { log!("p {x:?}"); flag() })),
                    5 => {
                        let mut e = self.by_ref().enumerate();
                        log!("enumerate().next_back -> {:?}", e.next_back());
                        break;
                    }
                    _ => {
                        let mut e = self.by_ref().fuse();
                        log!("fuse.next x2 -> {:?} {:?}", e.next(), e.next());
                    }
                }
            }
        }
    }
}

fn b(x: bool) -> bool {
    log!("closure -> {x}");
    x
}
fn p(x: &Item) -> bool {
    log!("closure({x:?})");
    b(flag())
}
fn pv(x: Item) -> bool {
    log!("closure({x:?})");
    b(flag())
}
fn fm(x: Item) -> Option<Item> {
    log!("closure({x:?})");
    if flag() { Some(x) } else { None }
}

/// One forward/backward history on `t`.
fn hist<T: Iterator<Item = Item> + DoubleEndedIterator>(mut t: T, depth: usize) {
    for _ in 0..depth {
        match pick(15) {
            0 => log!("next -> {:?}", t.next()),
            1 => log!("size_hint -> {:?}", t.size_hint()),
            2 => log!("nth -> {:?}", t.nth(1)),
            3 => log!("all -> {:?}", t.all(pv)),
            4 => log!("any -> {:?}", t.any(pv)),
            5 => log!("find -> {:?}", t.find(p)),
            6 => log!("find_map -> {:?}", t.find_map(fm)),
            7 => log!("position -> {:?}", t.position(pv)),
            8 => log!("next_back -> {:?}", t.next_back()),
            9 => log!("nth_back -> {:?}", t.nth_back(2)),
            10 => log!("rfind -> {:?}", t.rfind(p)),
            11 => log!("nth 0 -> {:?}", t.nth(0)),
            12 => {
                drop(t);
                log!("dropped");
                return;
            }
            // a consuming operation ends the history
            13 => return consume(t),
            _ => return consume2(t),
        }
    }
}

/// Consuming operations.
fn consume<T: Iterator<Item = Item> + DoubleEndedIterator>(t: T) {
    match pick(7) {
        0 => log!("count -> {:?}", t.count()),
        1 => log!("last -> {:?}", t.last()),
        2 => log!("collect -> {:?}", t.collect::<Vec<_>>()),
        3 => log!("collect -> {:?}", t.collect::<std::collections::VecDeque<_>>()),
        4 => log!("partition -> {:?}", t.partition::<Vec<_>, _>(p)),
        5 => log!("fold -> {:?}", t.fold(vec![], |mut v: Vec<Item>, x| { log!("f {x:?}"); v.push(x); v })),
        _ => log!("rfold -> {:?}", t.rfold(vec![], |mut v: Vec<Item>, x| { log!("f {x:?}"); v.insert(0, x); v })),
    }
}

/// Provided methods that the derive does not mention: they must reach the field through those it does.
fn consume2<T: Iterator<Item = Item> + DoubleEndedIterator>(t: T) {
    let mut t = t;
    match pick(22) {
        0 => t.for_each(|x| log!("each {x:?}")),
        1 => log!("min -> {:?}", t.min()),
        2 => log!("max_by_key -> {:?}", t.max_by_key(|x| x.0)),
        3 => log!("reduce -> {:?}", t.reduce(|a, b| if flag() { a } else { b })),
        4 => log!("try_fold -> {:?}", t.try_fold(0, |a, x| { log!("t {x:?}"); if flag() { Some(a + 1) } else { None } })),
        5 => log!("try_for_each -> {:?}", t.try_for_each(|x| if flag() { Ok(()) } else { Err(x) })),
        6 => log!("skip.next -> {:?}", t.skip(2).next()),
        7 => log!("step_by.collect -> {:?}", t.step_by(2).collect::<Vec<_>>()),
        8 => log!("take.collect -> {:?}", t.take(2).collect::<Vec<_>>()),
        9 => log!("rev.collect -> {:?}", t.rev().collect::<Vec<_>>()),
        10 => log!("zip -> {:?}", t.zip(0..2).collect::<Vec<_>>()),
        11 => log!("chain -> {:?}", t.chain(None).collect::<Vec<_>>()),
        12 => log!("filter.count -> {:?}", t.filter(p).count()),
        13 => log!("map.last -> {:?}", t.map(|x| { log!("m"); x }).last()),
        14 => log!("take_while -> {:?}", t.take_while(p).collect::<Vec<_>>()),
        15 => log!("eq -> {:?}", t.eq(None::<Item>)),
        16 => log!("unzip -> {:?}", t.map(|x| (x.0, x)).unzip::<u32, Item, Vec<_>, Vec<_>>()),
        17 => log!("peekable -> {:?}", { let mut q = t.peekable(); (q.peek().is_some(), q.next_if(p), q.next()) }),
        18 => log!("by_ref.take.for_each {:?}", { t.by_ref().take(1).for_each(|x| log!("e {x:?}")); t.next() }),
        19 => log!("Vec::extend -> {:?}", { let mut v = vec![]; v.extend(t); v }),
        20 => log!("rev.position -> {:?}", { let mut r = t.rev(); (r.position(pv), r.next_back()) }),
        _ => log!("max -> {:?}", t.max()),
    }
}

mod ext {
    use super::*;
    enums!(Extend);
    struct X<const K: usize>(Life);
    impl<const K: usize> Extend<Item> for X<K> {
        fn extend<T: IntoIterator<Item = Item>>(&mut self, iter: T) {
            log!("extend");
            for x in iter {
                log!("got {x:?}");
                if answer(3) == 2 {
                    panic!("field");
                }
            }
        }
    }
    impl<'a, const K: usize> Extend<&'a u8> for X<K> {
        fn extend<T: IntoIterator<Item = &'a u8>>(&mut self, iter: T) {
            log!("extend refs {:?}", iter.into_iter().collect::<Vec<_>>());
        }
    }
    fn mk<const K: usize>() -> X<K> {
        X(Life::new())
    }
    fn go<T: Extend<Item> + for<'a> Extend<&'a u8>>(mut t: T) {
        for _ in 0..3 {
            match pick(4) {
                0 => t.extend(std::iter::from_fn(item2)),
                1 => t.extend(Some(Item::new())),
                2 => t.extend(&[1u8, 2]),
                _ => return,
            }
        }
    }
    pub fn part(s: &mut Session) {
        s.part("Extend histories", &|| go(mk::<0>()), all_suts!(go, X, mk));
    }
}

mod trusted {
    use super::*;
    use std::iter::TrustedLen;
    enums!(TrustedLen, ExactSizeIterator, DoubleEndedIterator);
    fn go<T: TrustedLen<Item = u32> + ExactSizeIterator + DoubleEndedIterator>(mut t: T) {
        for _ in 0..3 {
            match pick(6) {
                0 => log!("next {:?}", t.next()),
                1 => log!("back {:?}", t.next_back()),
                2 => log!("len {:?} {:?}", t.len(), t.size_hint()),
                3 => {
                    log!("collect {:?}", t.collect::<Vec<_>>());
                    return;
                }
                4 => {
                    let mut v = vec![9];
                    v.extend(t);
                    log!("extend {v:?}");
                    return;
                }
                _ => {
                    let a: std::rc::Rc<[u32]> = t.collect();
                    log!("rc {a:?}");
                    return;
                }
            }
        }
    }
    fn lens() -> usize {
        answer(5)
    }
    type V = std::vec::IntoIter<u32>;
    type R = std::ops::Range<u32>;
    type M = std::iter::Map<std::ops::Range<u32>, fn(u32) -> u32>;
    fn v() -> V {
        (0..lens() as u32).collect::<Vec<_>>().into_iter()
    }
    fn r() -> R {
        0..lens() as u32
    }
    fn m() -> M {
        (0..lens() as u32).map(|x| x)
    }
    pub fn part(s: &mut Session) {
        s.part("TrustedLen collection", &|| go(v()), &[
            ("E1::A", &|| go(E1::A(v()))),
            ("E2::A", &|| go(E2::<V, R>::A(v()))),
            ("E2::B", &|| go(E2::<V, R>::B(r()))),
            ("E3::A", &|| go(E3::<V, R, M>::A(v()))),
            ("E3::B", &|| go(E3::<V, R, M>::B(r()))),
            ("E3::C", &|| go(E3::<V, R, M>::C(m()))),
            ("E5::E", &|| go(E5::<V, R, M, M, R>::E(r()))),
        ]);
    }
}

/// concrete field types (not generic), all variants of one enum
mod concrete {
    use super::*;
    #[auto_enums::enum_derive(Iterator, DoubleEndedIterator, ExactSizeIterator, FusedIterator)]
    enum C {
        A(Full<0>),
        B(Full<1>),
        C(Full<2>),
        D(Full<3>),
    }
    fn go<T: Iterator<Item = Item> + DoubleEndedIterator + ExactSizeIterator>(t: T) {
        log!("len {:?}", t.len());
        hist(t, 1);
    }
    pub fn part(s: &mut Session) {
        s.part("concrete fields", &|| go(full::<0>()), &[
            ("C::A", &|| go(C::A(full()))),
            ("C::B", &|| go(C::B(full()))),
            ("C::C", &|| go(C::C(full()))),
            ("C::D", &|| go(C::D(full()))),
        ]);
    }
}

fn main() {
    let mut s = Session::new(7, 9);
    fn h1<T: DoubleEndedIterator<Item = Item>>(t: T) { hist(t, 1) }
    fn h2<T: DoubleEndedIterator<Item = Item>>(t: T) { hist(t, 2) }
    fn h3<T: DoubleEndedIterator<Item = Item>>(t: T) { hist(t, 3) }
    fn h4<T: DoubleEndedIterator<Item = Item>>(t: T) { hist(t, 4) }
    s.part("specializing field, depth 1", &|| h1(full::<0>()), all_suts!(h1, Full, full));
    s.part("minimal field, depth 1", &|| h1(min::<0>()), all_suts!(h1, Min, min));
    ext::part(&mut s);
    trusted::part(&mut s);
    concrete::part(&mut s);
    let d = s.d(3, 4);
    sized::part(&mut s, d);
    let h = s.d(5, 7);
    s.part_h("specializing field, depth 2", h, &|| h2(full::<0>()), all_suts!(h2, Full, full));
    s.part_h("minimal field, depth 2", h, &|| h2(min::<0>()), all_suts!(h2, Min, min));
    let h = s.d(3, 5);
    s.part_h("specializing field, depth 3", h, &|| h3(full::<0>()), few_suts!(h3, Full, full));
    s.part_h("minimal field, depth 3", h, &|| h3(min::<0>()), few_suts!(h3, Min, min));
    if s.cfg.thorough {
        s.part_h("specializing field, depth 4", 3, &|| h4(full::<0>()), few_suts!(h4, Full, full));
        s.part_h("minimal field, depth 4", 3, &|| h4(min::<0>()), few_suts!(h4, Min, min));
    }
    s.finish();
}
