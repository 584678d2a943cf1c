//! C13: formatting traits, fmt::Write, Error.
#![feature(formatting_options)]
use mc::*;
use std::error::Error;
use std::fmt::{self, FormattingOptions, Write};

/// Sink that may fail at any write.
struct Out(String);
impl Write for Out {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if flag() {
            log!("sink fails");
            return Err(fmt::Error);
        }
        self.0.push_str(s);
        Ok(())
    }
}
/// Sink that never fails (for the option sweep).
struct Sure(String);
impl Write for Sure {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0.push_str(s);
        Ok(())
    }
}

struct F<const K: usize>(#[allow(dead_code)] Life);
fn f<const K: usize>() -> F<K> {
    F(Life::new())
}
fn opts(f: &fmt::Formatter<'_>) -> String {
    format!(
        "w={:?} p={:?} fill={:?} a={:?} +{} -{} #{} 0{}",
        f.width(),
        f.precision(),
        f.fill(),
        f.align(),
        f.sign_plus(),
        f.sign_minus(),
        f.alternate(),
        f.sign_aware_zero_pad()
    )
}
macro_rules! field_fmt {
    ($($T:ident)*) => {$(
        impl<const K: usize> fmt::$T for F<K> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                log!("{} {}", stringify!($T), opts(f));
                match answer(6) {
                    0 => Ok(()),
                    1 => f.write_str(concat!("one ", stringify!($T))),
                    2 => { f.write_str("a")?; f.write_char('b')?; write!(f, "{:>4}", "c") }
                    3 => f.pad("padded"),
                    4 => Err(fmt::Error),
                    _ => f.debug_struct("S").field("k", &1).finish(),
                }
            }
        }
    )*};
}
field_fmt!(Debug Display Pointer Binary Octal UpperHex LowerHex UpperExp LowerExp);

fn options() -> FormattingOptions {
    let mut o = FormattingOptions::new();
    o.sign([None, Some(fmt::Sign::Plus), Some(fmt::Sign::Minus)][pick(3)]);
    o.sign_aware_zero_pad(pick(2) == 1);
    o.alternate(pick(2) == 1);
    o.fill([' ', '*'][pick(2)]);
    o.align([None, Some(fmt::Alignment::Left), Some(fmt::Alignment::Right), Some(fmt::Alignment::Center)][pick(4)]);
    o.width([None, Some(0), Some(12)][pick(3)]);
    o.precision([None, Some(0), Some(2)][pick(3)]);
    o.debug_as_hex([None, Some(fmt::DebugAsHex::Lower), Some(fmt::DebugAsHex::Upper)][pick(3)]);
    o
}

enums!(
    Debug, fmt::Display, fmt::Pointer, fmt::Binary, fmt::Octal, fmt::UpperHex, fmt::LowerHex, fmt::UpperExp,
    fmt::LowerExp
);

trait All:
    fmt::Debug + fmt::Display + fmt::Pointer + fmt::Binary + fmt::Octal + fmt::UpperHex + fmt::LowerHex + fmt::UpperExp + fmt::LowerExp
{
}
impl<T> All for T where
    T: fmt::Debug + fmt::Display + fmt::Pointer + fmt::Binary + fmt::Octal + fmt::UpperHex + fmt::LowerHex + fmt::UpperExp + fmt::LowerExp
{
}

fn call<T: All>(which: usize, t: &T, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    match which {
        0 => fmt::Debug::fmt(t, f),
        1 => fmt::Display::fmt(t, f),
        2 => fmt::Pointer::fmt(t, f),
        3 => fmt::Binary::fmt(t, f),
        4 => fmt::Octal::fmt(t, f),
        5 => fmt::UpperHex::fmt(t, f),
        6 => fmt::LowerHex::fmt(t, f),
        7 => fmt::UpperExp::fmt(t, f),
        _ => fmt::LowerExp::fmt(t, f),
    }
}
/// every trait x every formatter option, sink never fails
fn sweep<T: All>(t: T) {
    let w = pick(9);
    let mut o = Sure(String::new());
    let r = call(w, &t, &mut options().create_formatter(&mut o));
    log!("{r:?} {:?}", o.0);
}
/// every trait x every failure of the sink
fn failing<T: All>(t: T) {
    for _ in 0..2 {
        let w = pick(9);
        let mut o = Out(String::new());
        let mut opt = FormattingOptions::new();
        opt.width([None, Some(9)][pick(2)]).alternate(pick(2) == 1);
        let r = call(w, &t, &mut opt.create_formatter(&mut o));
        log!("{r:?} {:?}", o.0);
    }
}
/// through the formatting macros
fn macros<T: All>(t: T) {
    let mut o = Out(String::new());
    let r = match pick(9) {
        0 => write!(o, "<{t:?}|{t:#?}>"),
        1 => write!(o, "<{t}|{t:#}|{t:>10.1}>"),
        2 => write!(o, "<{t:p}>"),
        3 => write!(o, "<{t:b}|{t:#b}>"),
        4 => write!(o, "<{t:o}|{t:#o}>"),
        5 => write!(o, "<{t:X}|{t:#010X}>"),
        6 => write!(o, "<{t:x}|{t:02x?}>"),
        7 => write!(o, "<{t:E}>"),
        _ => write!(o, "<{t:e}|{t:+e}>"),
    };
    log!("{r:?} {:?}", o.0);
}

/// real values: numbers
mod real {
    use super::*;
    #[auto_enums::enum_derive(
        fmt::Debug, Display, fmt::Binary, fmt::Octal, fmt::UpperHex, fmt::LowerHex, fmt::UpperExp, fmt::LowerExp
    )]
    enum N {
        A(i32),
        B(u8),
        C(i64),
        D(u128),
    }
    fn go<T>(t: T)
    where
        T: fmt::Debug + fmt::Display + fmt::Binary + fmt::Octal + fmt::UpperHex + fmt::LowerHex + fmt::UpperExp + fmt::LowerExp,
    {
        let w = pick(8);
        let mut o = Sure(String::new());
        let r = {
            let mut op = options();
            let f = &mut op.create_formatter(&mut o);
            match w {
                0 => fmt::Debug::fmt(&t, f),
                1 => fmt::Display::fmt(&t, f),
                2 => fmt::Binary::fmt(&t, f),
                3 => fmt::Octal::fmt(&t, f),
                4 => fmt::UpperHex::fmt(&t, f),
                5 => fmt::LowerHex::fmt(&t, f),
                6 => fmt::UpperExp::fmt(&t, f),
                _ => fmt::LowerExp::fmt(&t, f),
            }
        };
        log!("{r:?} {:?}", o.0);
    }
    fn v() -> i64 {
        [0, 1, 100, 77][pick(4)]
    }
    pub fn part(s: &mut Session) {
        // positive values print the same in every integer type
        s.part("real integers", &|| go(v() as i32), &[
            ("N::A", &|| go(N::A(v() as i32))),
            ("N::B", &|| go(N::B(v() as u8))),
            ("N::C", &|| go(N::C(v()))),
            ("N::D", &|| go(N::D(v() as u128))),
        ]);
        s.part("real negative i32", &|| go(-v() as i32), &[("N::A", &|| go(N::A(-v() as i32)))]);
    }
}

mod write {
    use super::*;
    enums!(fmt::Write);
    struct Full<const K: usize>(#[allow(dead_code)] Life);
    struct Min<const K: usize>(#[allow(dead_code)] Life);
    fn full<const K: usize>() -> Full<K> {
        Full(Life::new())
    }
    fn min<const K: usize>() -> Min<K> {
        Min(Life::new())
    }
    fn r() -> fmt::Result {
        if flag() { Err(fmt::Error) } else { Ok(()) }
    }
    impl<const K: usize> Write for Full<K> {
        fn write_str(&mut self, s: &str) -> fmt::Result {
            log!("write_str {s:?}");
            r()
        }
        fn write_char(&mut self, c: char) -> fmt::Result {
            log!("write_char {c:?}");
            r()
        }
        fn write_fmt(&mut self, a: fmt::Arguments<'_>) -> fmt::Result {
            log!("write_fmt {a}");
            r()
        }
    }
    impl<const K: usize> Write for Min<K> {
        fn write_str(&mut self, s: &str) -> fmt::Result {
            log!("write_str {s:?}");
            r()
        }
    }
    fn go<T: Write>(mut t: T) {
        for _ in 0..3 {
            match pick(6) {
                0 => log!("{:?}", t.write_str("")),
                1 => log!("{:?}", t.write_str("abc")),
                2 => log!("{:?}", t.write_char('x')),
                3 => log!("{:?}", t.write_char('\u{10ffff}')),
                4 => log!("{:?}", write!(t, "p{}q{:?}", 1, "r")),
                _ => log!("{:?}", write!(&mut t as &mut dyn Write, "{:>3}", 'z')),
            }
        }
    }
    pub fn part(s: &mut Session) {
        s.part("fmt::Write, specializing field", &|| go(full::<0>()), all_suts!(go, Full, full));
        s.part("fmt::Write, minimal field", &|| go(min::<0>()), all_suts!(go, Min, min));
    }
}

mod error {
    use super::*;
    enums!(Error);
    mod other {
        // the other spelling, in the other order
        #[auto_enums::enum_derive(fmt::Debug, error::Error, fmt::Display)]
        pub enum Q<A, B> {
            A(A),
            B(B),
        }
    }
    use other::Q;
    #[derive(Debug)]
    struct Inner;
    impl fmt::Display for Inner {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("inner")
        }
    }
    impl Error for Inner {}
    struct X<const K: usize> {
        id: u32,
        inner: Inner,
        _life: Life,
    }
    impl<const K: usize> fmt::Debug for X<K> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            log!("debug {}", opts(f));
            f.write_str("X")
        }
    }
    impl<const K: usize> fmt::Display for X<K> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            log!("display {}", opts(f));
            f.write_str("x")
        }
    }
    impl<const K: usize> Error for X<K> {
        fn source(&self) -> Option<&(dyn Error + 'static)> {
            log!("field.source");
            if flag() { Some(&self.inner) } else { None }
        }
        #[allow(deprecated)]
        fn description(&self) -> &str {
            log!("field.description");
            ["d0", "d1"][answer(2)]
        }
    }
    fn x<const K: usize>() -> X<K> {
        X { id: fresh(), inner: Inner, _life: Life::new() }
    }
    fn ident(e: Option<&(dyn Error + 'static)>) -> String {
        macro_rules! try_ { ($($k:literal)*) => {$(
            if let Some(x) = e.and_then(|e| e.downcast_ref::<X<$k>>()) { return format!("field {}", x.id); }
        )*} }
        try_!(0 1 2 3 4);
        match e {
            None => "None".into(),
            Some(e) if e.is::<Inner>() => "inner".into(),
            Some(_) => "something else".into(),
        }
    }
    /// `own`: the value is the field itself, whose `source` is one step further down the chain
    fn hist<T: Error + 'static>(t: T, own: bool) {
        for _ in 0..2 {
            match pick(6) {
                0 => {
                    let s: Option<&(dyn Error + 'static)> = if own { Some(&t) } else { t.source() };
                    log!("source -> {}", ident(s));
                }
                1 => {
                    let s: Option<&(dyn Error + 'static)> = if own { Some(&t) } else { t.source() };
                    log!("source.source -> {}", ident(s.unwrap().source()));
                }
                2 => log!("display {}", format_args!("{t:>5}|{t:#}")),
                3 => log!("debug {}", format_args!("{t:?}|{t:#?}")),
                #[allow(deprecated)]
                4 => log!("description {}", t.description()),
                _ => {
                    let b: Box<dyn Error> = Box::new(t);
                    #[allow(deprecated)]
                    let c = if own { Some(&*b as &dyn Error) } else { b.cause() };
                    log!("boxed {} cause {}", b, c.is_some());
                    return;
                }
            }
        }
    }
    fn spec<T: Error + 'static>(t: T) {
        hist(t, true)
    }
    fn sut<T: Error + 'static>(t: T) {
        hist(t, false)
    }
    pub fn part(s: &mut Session) {
        s.part("Error", &|| spec(x::<0>()), &[
            ("E1::A", &|| sut(E1::<X<0>>::A(x()))),
            ("E2::A", &|| sut(E2::<X<0>, X<1>>::A(x()))),
            ("E2::B", &|| sut(E2::<X<0>, X<1>>::B(x()))),
            ("E3::A", &|| sut(E3::<X<0>, X<1>, X<2>>::A(x()))),
            ("E3::B", &|| sut(E3::<X<0>, X<1>, X<2>>::B(x()))),
            ("E3::C", &|| sut(E3::<X<0>, X<1>, X<2>>::C(x()))),
            ("E5::A", &|| sut(E5::<X<0>, X<1>, X<2>, X<3>, X<4>>::A(x()))),
            ("E5::B", &|| sut(E5::<X<0>, X<1>, X<2>, X<3>, X<4>>::B(x()))),
            ("E5::D", &|| sut(E5::<X<0>, X<1>, X<2>, X<3>, X<4>>::D(x()))),
            ("E5::E", &|| sut(E5::<X<0>, X<1>, X<2>, X<3>, X<4>>::E(x()))),
            ("Q::A", &|| sut(Q::<X<0>, X<1>>::A(x()))),
            ("Q::B", &|| sut(Q::<X<0>, X<1>>::B(x()))),
        ]);
    }
}

fn main() {
    let mut s = Session::new(8, 12);
    write::part(&mut s);
    error::part(&mut s);
    s.part("formatting through macros", &|| macros(f::<0>()), all_suts!(macros, F, f));
    s.part("every sink failure", &|| failing(f::<0>()), few_suts!(failing, F, f));
    s.part("every formatter option", &|| sweep(f::<0>()), all_suts!(sweep, F, f));
    real::part(&mut s);
    s.finish();
}
