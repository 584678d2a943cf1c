//! C17: rayon. The field is a parallel iterator whose way of driving (which splits, how many items
//! per leaf, in which order the halves run) is chosen by the environment, and the consumer is a
//! recorder whose `full` answers are chosen as well: every split tree up to the bound is executed.
use mc::*;
use rayon::iter::plumbing::*;
use rayon::prelude::*;

struct P<const K: usize>(Life);
fn p<const K: usize>() -> P<K> {
    P(Life::new())
}

/// recording consumer / folder / reducer / result
#[allow(dead_code)]
struct Rec(u32, Life2);
struct Life2(&'static str, u32);
impl Drop for Life2 {
    fn drop(&mut self) {
        log!("drop {} {}", self.0, self.1);
    }
}
impl Rec {
    fn new(how: &str) -> Rec {
        let i = fresh();
        log!("consumer {i} {how}");
        Rec(i, Life2("consumer", i))
    }
}
struct RecFolder(u32, Vec<Item>);
struct RecReducer(u32);
#[derive(Debug)]
#[allow(dead_code)]
enum Out {
    Leaf(u32, Vec<Item>),
    Node(u32, Box<Out>, Box<Out>),
}
impl Reducer<Out> for RecReducer {
    fn reduce(self, l: Out, r: Out) -> Out {
        log!("reduce {}", self.0);
        Out::Node(self.0, Box::new(l), Box::new(r))
    }
}
impl Folder<Item> for RecFolder {
    type Result = Out;
    fn consume(mut self, x: Item) -> Self {
        log!("consume {x:?} in {}", self.0);
        self.1.push(x);
        self
    }
    fn complete(self) -> Out {
        log!("complete {}", self.0);
        Out::Leaf(self.0, self.1)
    }
    fn full(&self) -> bool {
        let r = answer(2) == 1;
        log!("full {r}");
        r
    }
}
impl Consumer<Item> for Rec {
    type Folder = RecFolder;
    type Reducer = RecReducer;
    type Result = Out;
    fn split_at(self, k: usize) -> (Self, Self, RecReducer) {
        let i = self.0;
        (Rec::new("left"), Rec::new(&format!("right of {i} at {k}")), RecReducer(i))
    }
    fn into_folder(self) -> RecFolder {
        log!("into_folder {}", self.0);
        RecFolder(self.0, vec![])
    }
    fn full(&self) -> bool {
        let r = answer(2) == 1;
        log!("full {r}");
        r
    }
}
impl UnindexedConsumer<Item> for Rec {
    fn split_off_left(&self) -> Self {
        Rec::new(&format!("split off {}", self.0))
    }
    fn to_reducer(&self) -> RecReducer {
        RecReducer(self.0)
    }
}

// ---- the environment's ways of driving

fn leaf<C: Consumer<Item>>(c: C) -> C::Result {
    let mut f = c.into_folder();
    for _ in 0..answer(3) {
        if f.full() {
            break;
        }
        f = f.consume(Item::new());
    }
    f.complete()
}
fn unindexed<C: UnindexedConsumer<Item>>(c: C, depth: usize) -> C::Result {
    if depth == 0 || c.full() {
        return leaf(c);
    }
    match answer(4) {
        0 => leaf(c),
        1 => panic!("field"),
        k => {
            let l = c.split_off_left();
            let r = c.to_reducer();
            // the halves may run in either order
            if k == 2 {
                let x = unindexed(l, depth - 1);
                let y = unindexed(c, depth - 1);
                r.reduce(x, y)
            } else {
                let y = unindexed(c, depth - 1);
                let x = unindexed(l, depth - 1);
                r.reduce(x, y)
            }
        }
    }
}
fn indexed<C: Consumer<Item>>(c: C, n: usize) -> C::Result {
    if n < 2 {
        let mut f = c.into_folder();
        for _ in 0..n {
            if f.full() {
                break;
            }
            f = f.consume(Item::new());
        }
        return f.complete();
    }
    match answer(4) {
        1 => panic!("field"),
        0 => {
            let f = c.into_folder();
            f.consume_iter((0..n).map(|_| Item::new())).complete()
        }
        k => {
            let m = 1 + answer(n - 1);
            let (l, c, r) = c.split_at(m);
            if k == 2 {
                let x = indexed(l, m);
                let y = indexed(c, n - m);
                r.reduce(x, y)
            } else {
                let y = indexed(c, n - m);
                let x = indexed(l, m);
                r.reduce(x, y)
            }
        }
    }
}

/// producer over `lo..hi`
#[allow(dead_code)]
struct Prod(u32, usize, usize, Life2);
fn prod(lo: usize, hi: usize) -> Prod {
    let i = fresh();
    log!("producer {i} {lo}..{hi}");
    Prod(i, lo, hi, Life2("producer", i))
}
impl Producer for Prod {
    type Item = Item;
    type IntoIter = std::vec::IntoIter<Item>;
    fn into_iter(self) -> Self::IntoIter {
        log!("into_iter {}", self.0);
        (self.1..self.2).map(|_| Item::new()).collect::<Vec<_>>().into_iter()
    }
    fn min_len(&self) -> usize {
        log!("min_len {}", self.0);
        1
    }
    fn max_len(&self) -> usize {
        log!("max_len {}", self.0);
        7
    }
    fn split_at(self, k: usize) -> (Self, Self) {
        log!("split {} at {k}", self.0);
        (prod(self.1, self.1 + k), prod(self.1 + k, self.2))
    }
}

const LENS: [usize; 4] = [0, 1, 2, 3];

impl<const K: usize> ParallelIterator for P<K> {
    type Item = Item;
    fn drive_unindexed<C: UnindexedConsumer<Item>>(self, c: C) -> C::Result {
        log!("drive_unindexed");
        unindexed(c, 2)
    }
    fn opt_len(&self) -> Option<usize> {
        log!("opt_len");
        match answer(5) {
            0 => None,
            1 => Some(0),
            2 => Some(3),
            3 => Some(usize::MAX),
            _ => panic!("field"),
        }
    }
}
impl<const K: usize> IndexedParallelIterator for P<K> {
    fn drive<C: Consumer<Item>>(self, c: C) -> C::Result {
        log!("drive");
        indexed(c, LENS[answer(4)])
    }
    fn len(&self) -> usize {
        log!("len");
        match answer(4) {
            0 => 0,
            1 => 2,
            2 => usize::MAX,
            _ => panic!("field"),
        }
    }
    fn with_producer<CB: ProducerCallback<Item>>(self, cb: CB) -> CB::Output {
        log!("with_producer");
        let n = answer(5);
        if n == 4 {
            panic!("field");
        }
        let r = cb.callback(prod(0, LENS[n]));
        log!("callback returned");
        r
    }
}

static SPLITS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(1);
/// the user's side of a producer: split or iterate in every way
struct Cb(u32);
impl<T: std::fmt::Debug> ProducerCallback<T> for Cb {
    type Output = u32;
    fn callback<Q: Producer<Item = T>>(self, q: Q) -> u32 {
        log!("callback {}", self.0);
        walk(q, 0, 4);
        self.0 + 1
    }
}
fn walk<Q: Producer>(q: Q, depth: usize, max: usize)
where
    Q::Item: std::fmt::Debug,
{
    let n = pick(if depth < SPLITS.load(std::sync::atomic::Ordering::Relaxed) { 7 } else { 4 });
    match n {
        0 => {}
        1 => {
            for x in q.into_iter() {
                log!("item {x:?}");
            }
        }
        2 => {
            let mut i = q.into_iter();
            log!("len {} back {:?} front {:?}", i.len(), i.next_back(), i.next());
        }
        3 => log!("min {} max {}", q.min_len(), q.max_len()),
        k => {
            let at = (k - 4).min(max);
            let (l, r) = q.split_at(at);
            walk(l, depth + 1, at);
            walk(r, depth + 1, max - at);
        }
    }
}

mod par {
    use super::*;
    enums!(rayon::ParallelIterator);
    fn go<T: ParallelIterator<Item = Item>>(t: T) {
        for _ in 0..2 {
            match pick(9) {
                0 => log!("{:?}", t.opt_len()),
                1 => return log!("{:?}", t.drive_unindexed(Rec::new("root"))),
                2 => return log!("{}", t.count()),
                3 => return t.for_each(|x| log!("each {x:?}")),
                4 => return log!("{:?}", t.find_any(|x| flag() && x.0 != 0)),
                5 => return log!("{:?}", t.map(|x| x.0 + 100).sum::<u32>()),
                6 => return log!("{:?}", t.filter(|_| flag()).drive_unindexed(Rec::new("root"))),
                7 => {
                    // an explicit reduction tree: the field decides how
                    return log!("{:?}", t.map(|x| vec![x]).reduce(Vec::new, |mut a, mut b| {
                        a.append(&mut b);
                        a
                    }));
                }
                _ => return,
            }
        }
    }
    pub fn part(s: &mut Session) {
        s.part("ParallelIterator", &|| go(p::<0>()), all_suts!(go, P, p));
    }
}

mod idx {
    use super::*;
    enums!(rayon::ParallelIterator, rayon::IndexedParallelIterator);
    fn go<T: IndexedParallelIterator<Item = Item>>(t: T) {
        for _ in 0..2 {
            match pick(10) {
                0 => log!("{}", t.len()),
                1 => return log!("{:?}", t.drive(Rec::new("root"))),
                2 => return log!("{:?}", t.with_producer(Cb(fresh()))),
                3 => return log!("{:?}", t.enumerate().with_producer(Cb(fresh()))),
                4 => return log!("{:?}", t.rev().with_producer(Cb(fresh()))),
                5 => {
                    let z = t.zip(P::<9>(Life::new()));
                    log!("{}", z.len());
                    return;
                }
                6 => log!("{:?}", t.opt_len()),
                7 => return log!("{:?}", t.drive_unindexed(Rec::new("root"))),
                8 => return log!("{:?}", t.map(|x| vec![x]).drive(rayon_collect())),
                _ => return,
            }
        }
    }
    fn rayon_collect() -> Tag {
        Tag(Rec::new("tag"))
    }
    /// a consumer of another item type (generic parameter of `drive`)
    struct Tag(Rec);
    impl Consumer<Vec<Item>> for Tag {
        type Folder = TagF;
        type Reducer = RecReducer;
        type Result = Out;
        fn split_at(self, k: usize) -> (Self, Self, RecReducer) {
            let (a, b, r) = self.0.split_at(k);
            (Tag(a), Tag(b), r)
        }
        fn into_folder(self) -> TagF {
            TagF(self.0.into_folder())
        }
        fn full(&self) -> bool {
            self.0.full()
        }
    }
    struct TagF(RecFolder);
    impl Folder<Vec<Item>> for TagF {
        type Result = Out;
        fn consume(self, x: Vec<Item>) -> Self {
            TagF(self.0.consume_iter(x))
        }
        fn complete(self) -> Out {
            self.0.complete()
        }
        fn full(&self) -> bool {
            self.0.full()
        }
    }
    pub fn part(s: &mut Session) {
        s.part("IndexedParallelIterator", &|| go(p::<0>()), all_suts!(go, P, p));
    }
}

mod ext {
    use super::*;
    enums!(rayon::ParallelExtend);
    struct X<const K: usize>(Vec<Item>, Life);
    fn x<const K: usize>() -> X<K> {
        X(vec![], Life::new())
    }
    impl<const K: usize> ParallelExtend<Item> for X<K> {
        fn par_extend<I: IntoParallelIterator<Item = Item>>(&mut self, i: I) {
            log!("par_extend, had {:?}", self.0);
            match answer(3) {
                0 => {}
                1 => {
                    let o = i.into_par_iter().drive_unindexed(Rec::new("extend"));
                    flat(o, &mut self.0);
                }
                _ => panic!("field"),
            }
        }
    }
    impl<'a, const K: usize> ParallelExtend<&'a u8> for X<K> {
        fn par_extend<I: IntoParallelIterator<Item = &'a u8>>(&mut self, i: I) {
            log!("par_extend bytes {:?}", i.into_par_iter().opt_len());
        }
    }
    fn flat(o: Out, v: &mut Vec<Item>) {
        match o {
            Out::Leaf(_, x) => v.extend(x),
            Out::Node(_, a, b) => {
                flat(*a, v);
                flat(*b, v);
            }
        }
    }
    struct Src;
    impl IntoParallelIterator for Src {
        type Item = Item;
        type Iter = P<8>;
        fn into_par_iter(self) -> P<8> {
            log!("into_par_iter");
            P(Life::new())
        }
    }
    fn go<T: ParallelExtend<Item> + for<'a> ParallelExtend<&'a u8>>(mut t: T) {
        for _ in 0..2 {
            match pick(4) {
                0 => t.par_extend(Src),
                1 => t.par_extend(P::<7>(Life::new())),
                2 => t.par_extend(&[1u8, 2, 3][..]),
                _ => return,
            }
            log!("extended");
        }
    }
    pub fn part(s: &mut Session) {
        s.part("ParallelExtend", &|| go(x::<0>()), all_suts!(go, X, x));
    }
}

fn main() {
    let mut s = Session::new(8, 12);
    SPLITS.store(s.d(1, 2), std::sync::atomic::Ordering::Relaxed);
    par::part(&mut s);
    idx::part(&mut s);
    ext::part(&mut s);
    s.finish();
}
