//! Environment of the generated programs, and the driver that replays model paths on them.
use std::{
    any::Any,
    cell::RefCell,
    fmt::{self, Debug},
    future::Future,
    panic::{catch_unwind, resume_unwind, AssertUnwindSafe},
    pin::pin,
    task::{Context, Poll, Waker},
};

#[derive(Default)]
struct St {
    path: Vec<usize>,
    pos: usize,
    trace: Vec<String>,
}
thread_local!(static ST: RefCell<St> = RefCell::default());
struct Horizon;

fn log(s: String) {
    let n = ST.with(|s2| {
        let mut st = s2.borrow_mut();
        st.trace.push(s);
        st.trace.len()
    });
    if n > 10_000 {
        resume_unwind(Box::new(Horizon));
    }
}
fn choose(n: usize) -> usize {
    let c = ST.with(|s| {
        let mut s = s.borrow_mut();
        s.pos += 1;
        let p = s.pos - 1;
        s.path.get(p).copied()
    });
    match c {
        Some(c) => {
            assert!(c < n);
            c
        }
        None => resume_unwind(Box::new(Horizon)),
    }
}

pub struct T<const N: usize>;
impl<const N: usize> Debug for T<N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "T{N}")
    }
}
pub struct X<const N: usize>;
impl<const N: usize> Debug for X<N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "X{N}")
    }
}
pub struct M<V>(pub i64, pub V);
impl<V: Debug> Debug for M<V> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "M{}({:?})", self.0, self.1)
    }
}
pub struct W<V> {
    pub a: V,
}
impl<V: Debug> Debug for W<V> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "W({:?})", self.a)
    }
}
pub struct Foreign(pub i64);
impl Debug for Foreign {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "foreign{}", self.0)
    }
}
#[macro_export]
macro_rules! foreign {
    ($n:literal) => {
        $crate::Foreign($n)
    };
}

#[macro_export]
macro_rules! die {
    () => {
        panic!()
    };
}
#[macro_export]
macro_rules! log {
    ($n:literal) => {
        $crate::ev($n)
    };
}

#[doc(hidden)]
#[macro_export]
macro_rules! __same {
    ($e:expr) => {{
        $crate::ev(4000);
        $e
    }};
}
pub mod other {
    pub use crate::__same as same;
    pub use crate::__same as mk;
    pub use crate::__same as marker;
    pub use crate::__same as panic;
    pub use crate::__same as unreachable;
}
/// other names of the result type
pub mod alias {
    use super::T;
    pub use std::result::{self, Result};
    pub type Res<A, B> = std::result::Result<A, B>;
    pub type E1<B> = std::result::Result<T<901>, B>;
}
/// functions and values that share their name with constructors
#[allow(non_snake_case, non_upper_case_globals)]
pub mod fns {
    use super::T;
    pub fn Err<A>(a: A) -> Result<A, T<903>> {
        Ok(a)
    }
    pub const None: Option<T<904>> = Some(T);
    pub mod option {
        #[allow(non_snake_case)]
        pub mod Option {
            pub use super::super::None;
        }
    }
    pub mod result {
        #[allow(non_snake_case)]
        pub mod Result {
            pub use super::super::Err;
        }
    }
}

pub fn ev(n: i64) {
    log(format!("ev{n}"))
}
pub fn b(n: i64) -> bool {
    let c = choose(2);
    log(format!("b{n}={c}"));
    c == 0
}
pub fn s2(n: i64) -> i64 {
    let c = choose(2);
    log(format!("s2_{n}={c}"));
    c as i64
}
pub fn s3(n: i64) -> i64 {
    let c = choose(3);
    log(format!("s3_{n}={c}"));
    c as i64
}
pub fn t<const N: usize>() -> T<N> {
    log(format!("t{N}"));
    T
}
pub fn r<const N: usize>() -> Result<X<N>, T<N>> {
    let c = choose(2);
    log(format!("r{N}={c}"));
    if c == 0 {
        Ok(X)
    } else {
        Err(T)
    }
}
pub fn rr<const A: usize, const B: usize>() -> Result<Result<X<A>, T<A>>, T<B>> {
    let c = choose(3);
    log(format!("rr{A},{B}={c}"));
    match c {
        0 => Ok(Ok(X)),
        1 => Ok(Err(T)),
        _ => Err(T),
    }
}
pub fn o<const N: usize>() -> Option<T<N>> {
    let c = choose(2);
    log(format!("o{N}={c}"));
    if c == 0 {
        Some(T)
    } else {
        None
    }
}
pub fn it(n: i64) -> std::ops::Range<i64> {
    let c = choose(2);
    log(format!("it{n}={c}"));
    0..(1 - c as i64)
}
pub fn sink(v: impl Debug) {
    log(format!("sink({v:?})"))
}
pub fn use_<const N: usize>(v: T<N>) {
    log(format!("use{N}({v:?})"))
}
pub fn use_x<const N: usize>(v: X<N>) {
    log(format!("usex{N}({v:?})"))
}
pub fn block_on<F: Future>(f: F) -> F::Output {
    match pin!(f).poll(&mut Context::from_waker(Waker::noop())) {
        Poll::Ready(v) => v,
        Poll::Pending => unreachable!(),
    }
}
pub trait Ext: Debug + Sized {
    fn id(self, n: i64) -> Self {
        log(format!("id{n}({self:?})"));
        self
    }
    fn m(self, n: i64) -> M<Self> {
        log(format!("m{n}({self:?})"));
        M(n, self)
    }
}
impl<V: Debug> Ext for V {}

fn run(f: fn(), path: &[usize]) -> (String, String, usize) {
    ST.with(|s| *s.borrow_mut() = St { path: path.to_vec(), ..St::default() });
    let r = catch_unwind(AssertUnwindSafe(f));
    let out = match r {
        Ok(()) => "()".to_string(),
        Err(e) if <dyn Any>::is::<Horizon>(&*e) => "horizon".into(),
        Err(_) => "panic".into(),
    };
    ST.with(|s| {
        let s = s.borrow();
        (s.trace.join(" "), out, s.pos.min(s.path.len()))
    })
}

/// Replay every model execution (program, path, outcome, trace; tab separated) on the compiled
/// expansion; prints one line per disagreement and a summary.
pub fn main_with(table: &[fn()]) {
    std::panic::set_hook(Box::new(|_| {}));
    let file = std::env::args().nth(1).unwrap();
    let text = std::fs::read_to_string(file).unwrap();
    let (mut n, mut bad) = (0u64, 0u64);
    static CUR: std::sync::Mutex<Option<(std::time::Instant, String)>> = std::sync::Mutex::new(None);
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
        if let Some((t, l)) = &*CUR.lock().unwrap() {
            if t.elapsed().as_secs() > 20 {
                println!("HANG\t{l}");
                std::process::exit(0);
            }
        }
    });
    for line in text.lines() {
        let f: Vec<&str> = line.split('\t').collect();
        let prog: usize = f[0].parse().unwrap();
        let Some(&g) = table.get(prog) else { continue };
        let path: Vec<usize> =
            f[1].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
        *CUR.lock().unwrap() = Some((std::time::Instant::now(), line.to_string()));
        let (trace, out, used) = run(g, &path);
        n += 1;
        if trace != f[3] || out != f[2] || used != path.len() {
            bad += 1;
            if bad <= 20 {
                println!("MISMATCH\t{prog}\t{}\tmodel: [{}] => {}\treal: [{trace}] => {out}", f[1], f[3], f[2]);
            }
        }
    }
    println!("DONE\t{n}\t{bad}");
}
