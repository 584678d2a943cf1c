//! C19: Transpose. Oracle: the same result built by hand from the payload and the variant.
//! Payload types are distinct per variant, so a result in another variant does not type-check or
//! shows in the log.
use mc::*;

/// payload of variant K
struct P<const K: usize>(Item);
impl<const K: usize> P<K> {
    fn new() -> Self {
        P(Item::new())
    }
}
impl<const K: usize> std::fmt::Debug for P<K> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "P{K}{:?}", self.0)
    }
}

macro_rules! family {
    ($m:ident $n:ident [$($V:ident $F:ident $k:literal),*]) => {
        mod $m {
            use super::*;
            #[auto_enums::enum_derive(Transpose, Debug)]
            pub enum $n<$($F),*> { $($V($F)),* }

            type Opt = $n<$(Option<P<$k>>),*>;
            type Res = $n<$(Result<P<$k>, P<{ $k + 50 }>>),*>;
            type Ok_ = $n<$(Result<P<$k>, P<99>>),*>;
            type Err_ = $n<$(Result<P<98>, P<$k>>),*>;
            type Plain = $n<$(P<$k>),*>;
            type PlainE = $n<$(P<{ $k + 50 }>),*>;
            /// the variants of the outer enum, as (which, payload) -- written out, no derive involved
            fn show(e: &Plain) -> String {
                match e { $($n::$V(x) => format!("{}{x:?}", stringify!($V))),* }
            }
            fn show_e(e: &PlainE) -> String {
                match e { $($n::$V(x) => format!("{}{x:?}", stringify!($V))),* }
            }
            pub fn part(s: &mut Session) {
                $(
                    s.part(
                        concat!(stringify!($n), "::", stringify!($V)),
                        &|| {
                            let m = pick(4);
                            let good = flag();
                            log!("method {m} good {good}");
                            match m {
                                0 => if good {
                                    let p = P::<$k>::new();
                                    log!("Some {}{p:?}", stringify!($V));
                                } else {
                                    log!("None");
                                },
                                1 => if good {
                                    let p = P::<$k>::new();
                                    log!("Ok {}{p:?}", stringify!($V));
                                } else {
                                    let p = P::<{ $k + 50 }>::new();
                                    log!("Err {}{p:?}", stringify!($V));
                                },
                                2 => if good {
                                    let p = P::<$k>::new();
                                    log!("Ok {}{p:?}", stringify!($V));
                                } else {
                                    let p = P::<99>::new();
                                    log!("Err {p:?}");
                                },
                                _ => if good {
                                    let p = P::<98>::new();
                                    log!("Ok {p:?}");
                                } else {
                                    let p = P::<$k>::new();
                                    log!("Err {}{p:?}", stringify!($V));
                                },
                            }
                        },
                        &[(concat!(stringify!($n), "::", stringify!($V)), &|| {
                            let m = pick(4);
                            let good = flag();
                            log!("method {m} good {good}");
                            match m {
                                0 => {
                                    let e: Opt = $n::$V(if good { Some(P::new()) } else { None });
                                    match e.transpose() {
                                        Some(x) => log!("Some {}", show(&x)),
                                        None => log!("None"),
                                    }
                                }
                                1 => {
                                    let e: Res = $n::$V(if good { Ok(P::new()) } else { Err(P::new()) });
                                    let r: Result<Plain, PlainE> = e.transpose();
                                    match r {
                                        Ok(x) => log!("Ok {}", show(&x)),
                                        Err(x) => log!("Err {}", show_e(&x)),
                                    }
                                }
                                2 => {
                                    let e: Ok_ = $n::$V(if good { Ok(P::new()) } else { Err(P::new()) });
                                    let r: Result<Plain, P<99>> = e.transpose_ok();
                                    match r {
                                        Ok(x) => log!("Ok {}", show(&x)),
                                        Err(x) => log!("Err {x:?}"),
                                    }
                                }
                                _ => {
                                    let e: Err_ = $n::$V(if good { Ok(P::new()) } else { Err(P::new()) });
                                    let r: Result<P<98>, Plain> = e.transpose_err();
                                    match r {
                                        Ok(x) => log!("Ok {x:?}"),
                                        Err(x) => log!("Err {}", show(&x)),
                                    }
                                }
                            }
                        })],
                    );
                )*
            }
            /// all payloads of one type: a wrong variant would type-check
            pub fn same(s: &mut Session) {
                type U = P<0>;
                type SOpt = $n<$(Same<Option<U>, $k>),*>;
                type SRes = $n<$(Same<Result<U, U>, $k>),*>;
                type SNest = $n<$(Same<Result<U, Result<U, U>>, $k>),*>;
                type SPlain = $n<$(Same<U, $k>),*>;
                fn show(e: &SPlain) -> String {
                    match e { $($n::$V(x) => format!("{}{x:?}", stringify!($V))),* }
                }
                $(
                    s.part(
                        concat!(stringify!($n), "::", stringify!($V), " one payload type"),
                        &|| {
                            let m = pick(5);
                            let good = flag();
                            log!("method {m} good {good}");
                            match m {
                                0 if !good => log!("None"),
                                3 if good => { let p = U::new(); log!("Ok {p:?}") }
                                2 if !good => { let p = U::new(); log!("Err {p:?}") }
                                4 => {
                                    let p = U::new();
                                    log!("{} {}{p:?}", if good { "Err" } else { "Ok" }, stringify!($V));
                                }
                                _ => {
                                    let p = U::new();
                                    log!("{} {}{p:?}", if m == 0 { "Some" } else if good { "Ok" } else { "Err" }, stringify!($V));
                                }
                            }
                        },
                        &[(concat!(stringify!($n), "::", stringify!($V)), &|| {
                            let m = pick(5);
                            let good = flag();
                            log!("method {m} good {good}");
                            let res = || -> SRes { $n::$V(if good { Ok(U::new()) } else { Err(U::new()) }) };
                            match m {
                                0 => {
                                    let e: SOpt = $n::$V(if good { Some(U::new()) } else { None });
                                    match e.transpose() {
                                        Some(x) => log!("Some {}", show(&x)),
                                        None => log!("None"),
                                    }
                                }
                                1 => {
                                    let r: Result<SPlain, SPlain> = res().transpose();
                                    match r {
                                        Ok(x) => log!("Ok {}", show(&x)),
                                        Err(x) => log!("Err {}", show(&x)),
                                    }
                                }
                                2 => {
                                    let r: Result<SPlain, U> = res().transpose_ok();
                                    match r {
                                        Ok(x) => log!("Ok {}", show(&x)),
                                        Err(x) => log!("Err {x:?}"),
                                    }
                                }
                                3 => {
                                    let r: Result<U, SPlain> = res().transpose_err();
                                    match r {
                                        Ok(x) => log!("Ok {x:?}"),
                                        Err(x) => log!("Err {}", show(&x)),
                                    }
                                }
                                _ => {
                                    // twice: an enum of results of results
                                    let e: SNest =
                                        $n::$V(Err(if good { Err(U::new()) } else { Ok(U::new()) }));
                                    let r: Result<U, SRes> = e.transpose_err();
                                    match r {
                                        Ok(x) => log!("outer {x:?}"),
                                        Err(x) => match x.transpose() {
                                            Ok(x) => log!("Ok {}", show(&x)),
                                            Err(x) => log!("Err {}", show(&x)),
                                        },
                                    }
                                }
                            }
                        })],
                    );
                )*
            }
        }
    };
}
type Same<T, const K: usize> = T;

family!(m1 T1 [A Q0 0]);
family!(m2 T2 [A Q0 0, B Q1 1]);
family!(m3 T3 [A Q0 0, B Q1 1, C Q2 2]);
family!(m4 T4 [A Q0 0, B Q1 1, C Q2 2, D Q3 3]);
family!(m5 T5 [A Q0 0, B Q1 1, C Q2 2, D Q3 3, E Q4 4]);
family!(m6 T6 [A Q0 0, B Q1 1, C Q2 2, D Q3 3, E Q4 4, F Q5 5]);
family!(m7 T7 [A Q0 0, B Q1 1, C Q2 2, D Q3 3, E Q4 4, F Q5 5, G Q6 6]);
family!(m8 T8 [A Q0 0, B Q1 1, C Q2 2, D Q3 3, E Q4 4, F Q5 5, G Q6 6, H Q7 7]);
// variants not in the order of names or parameters
family!(rev R3 [Z Q0 0, Y Q1 1, X Q2 2]);

fn main() {
    let mut s = Session::new(8, 8);
    m1::part(&mut s);
    m2::part(&mut s);
    m3::part(&mut s);
    m4::part(&mut s);
    m5::part(&mut s);
    m6::part(&mut s);
    m7::part(&mut s);
    m8::part(&mut s);
    rev::part(&mut s);
    m1::same(&mut s);
    m2::same(&mut s);
    m3::same(&mut s);
    m4::same(&mut s);
    m5::same(&mut s);
    m6::same(&mut s);
    m7::same(&mut s);
    m8::same(&mut s);
    rev::same(&mut s);
    s.finish();
}
