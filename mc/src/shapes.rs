//! Enum shapes shared by the dispatch explorers.

/// Defines `E1<A>`, `E2<A,B>`, `E3<A,B,C>` and `E5<A..E>` deriving the given traits.
#[macro_export]
macro_rules! enums {
    ($($t:tt)*) => {
        #[::auto_enums::enum_derive($($t)*)]
        enum E1<A> { A(A) }
        #[::auto_enums::enum_derive($($t)*)]
        enum E2<A, B> { A(A), B(B) }
        #[::auto_enums::enum_derive($($t)*)]
        enum E3<A, B, C> { A(A), B(B), C(C) }
        #[::auto_enums::enum_derive($($t)*)]
        enum E5<A, B, C, D, E> { A(A), B(B), C(C), D(D), E(E) }
    };
}

/// All (enum, active variant) pairs with `$m!(K)` as field of variant K.
#[macro_export]
macro_rules! all_suts {
    ($f:ident, $M:ident, $mk:expr) => {
        $crate::all_suts!($f, $M, $mk,)
    };
    ($f:ident, $M:ident, $mk:expr, $($extra:tt)*) => {
        &[
            ("E1::A", &(|| $f(E1::<$M<0>>::A($mk()))) as &(dyn Fn() + Sync)),
            ("E2::A", &(|| $f(E2::<$M<0>, $M<1>>::A($mk())))),
            ("E2::B", &(|| $f(E2::<$M<0>, $M<1>>::B($mk())))),
            ("E3::A", &(|| $f(E3::<$M<0>, $M<1>, $M<2>>::A($mk())))),
            ("E3::B", &(|| $f(E3::<$M<0>, $M<1>, $M<2>>::B($mk())))),
            ("E3::C", &(|| $f(E3::<$M<0>, $M<1>, $M<2>>::C($mk())))),
            ("E5::A", &(|| $f(E5::<$M<0>, $M<1>, $M<2>, $M<3>, $M<4>>::A($mk())))),
            ("E5::B", &(|| $f(E5::<$M<0>, $M<1>, $M<2>, $M<3>, $M<4>>::B($mk())))),
            ("E5::C", &(|| $f(E5::<$M<0>, $M<1>, $M<2>, $M<3>, $M<4>>::C($mk())))),
            ("E5::D", &(|| $f(E5::<$M<0>, $M<1>, $M<2>, $M<3>, $M<4>>::D($mk())))),
            ("E5::E", &(|| $f(E5::<$M<0>, $M<1>, $M<2>, $M<3>, $M<4>>::E($mk())))),
            ("nested E2<E2>::A::B", &(|| $f(E2::<E2<$M<0>, $M<1>>, $M<2>>::A(E2::B($mk()))))),
            $($extra)*
        ]
    };
}

/// The cheaper selection: first, middle and last variants.
#[macro_export]
macro_rules! few_suts {
    ($f:ident, $M:ident, $mk:expr) => {
        $crate::few_suts!($f, $M, $mk,)
    };
    ($f:ident, $M:ident, $mk:expr, $($extra:tt)*) => {
        &[
            ("E2::A", &(|| $f(E2::<$M<0>, $M<1>>::A($mk()))) as &(dyn Fn() + Sync)),
            ("E2::B", &(|| $f(E2::<$M<0>, $M<1>>::B($mk())))),
            ("E5::C", &(|| $f(E5::<$M<0>, $M<1>, $M<2>, $M<3>, $M<4>>::C($mk())))),
            ("E5::E", &(|| $f(E5::<$M<0>, $M<1>, $M<2>, $M<3>, $M<4>>::E($mk())))),
            $($extra)*
        ]
    };
}
