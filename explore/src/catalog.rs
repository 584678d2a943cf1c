//! What the documentation says about the supported traits (crate-level documentation, "Supported
//! traits" and "Optional features").
pub struct T {
    /// spellings; the first one is canonical
    pub names: &'static [&'static str],
    pub features: &'static [&'static str],
    /// traits the macro adds when they are not listed (canonical names)
    pub deps: &'static [&'static str],
    /// root crate ("std" for core/alloc/std) and last segment of the implemented trait
    pub path: (&'static str, &'static str),
    /// has a method with a pinned receiver
    pub pinned: bool,
}

const fn t(
    names: &'static [&'static str],
    features: &'static [&'static str],
    deps: &'static [&'static str],
    path: (&'static str, &'static str),
    pinned: bool,
) -> T {
    T { names, features, deps, path, pinned }
}

pub const CATALOG: &[T] = &[
    t(&["Iterator"], &[], &[], ("std", "Iterator"), false),
    t(&["DoubleEndedIterator"], &[], &["Iterator"], ("std", "DoubleEndedIterator"), false),
    t(&["ExactSizeIterator"], &[], &["Iterator"], ("std", "ExactSizeIterator"), false),
    t(&["FusedIterator"], &[], &["Iterator"], ("std", "FusedIterator"), false),
    t(&["Extend"], &[], &[], ("std", "Extend"), false),
    t(&["TrustedLen"], &["trusted_len"], &["Iterator"], ("std", "TrustedLen"), false),
    t(&["Future"], &[], &[], ("std", "Future"), true),
    t(&["Read", "io::Read"], &["std"], &[], ("std", "Read"), false),
    t(&["BufRead", "io::BufRead"], &["std"], &["Read"], ("std", "BufRead"), false),
    t(&["Write", "io::Write"], &["std"], &[], ("std", "Write"), false),
    t(&["Seek", "io::Seek"], &["std"], &[], ("std", "Seek"), false),
    t(&["Deref"], &["ops"], &[], ("std", "Deref"), false),
    t(&["DerefMut"], &["ops"], &["Deref"], ("std", "DerefMut"), false),
    t(&["Index"], &["ops"], &[], ("std", "Index"), false),
    t(&["IndexMut"], &["ops"], &["Index"], ("std", "IndexMut"), false),
    t(&["RangeBounds"], &["ops"], &[], ("std", "RangeBounds"), false),
    t(&["Fn"], &["fn_traits"], &["FnMut", "FnOnce"], ("std", "Fn"), false),
    t(&["FnMut"], &["fn_traits"], &["FnOnce"], ("std", "FnMut"), false),
    t(&["FnOnce"], &["fn_traits"], &[], ("std", "FnOnce"), false),
    t(&["Coroutine"], &["coroutine_trait"], &[], ("std", "Coroutine"), true),
    t(&["AsRef"], &["convert"], &[], ("std", "AsRef"), false),
    t(&["AsMut"], &["convert"], &[], ("std", "AsMut"), false),
    t(&["Debug", "fmt::Debug"], &[], &[], ("std", "Debug"), false),
    t(&["Display", "fmt::Display"], &[], &[], ("std", "Display"), false),
    t(&["fmt::Binary"], &["fmt"], &[], ("std", "Binary"), false),
    t(&["fmt::LowerExp"], &["fmt"], &[], ("std", "LowerExp"), false),
    t(&["fmt::LowerHex"], &["fmt"], &[], ("std", "LowerHex"), false),
    t(&["fmt::Octal"], &["fmt"], &[], ("std", "Octal"), false),
    t(&["fmt::Pointer"], &["fmt"], &[], ("std", "Pointer"), false),
    t(&["fmt::UpperExp"], &["fmt"], &[], ("std", "UpperExp"), false),
    t(&["fmt::UpperHex"], &["fmt"], &[], ("std", "UpperHex"), false),
    t(&["fmt::Write"], &[], &[], ("std", "Write"), false),
    t(&["Error", "error::Error"], &["std"], &["Display", "Debug"], ("std", "Error"), false),
    t(&["futures03::Stream"], &["futures03"], &[], ("futures", "Stream"), true),
    t(&["futures03::Sink"], &["futures03"], &[], ("futures", "Sink"), true),
    t(&["futures03::AsyncRead"], &["futures03"], &[], ("futures", "AsyncRead"), true),
    t(&["futures03::AsyncWrite"], &["futures03"], &[], ("futures", "AsyncWrite"), true),
    t(&["futures03::AsyncSeek"], &["futures03"], &[], ("futures", "AsyncSeek"), true),
    t(&["futures03::AsyncBufRead"], &["futures03"], &[], ("futures", "AsyncBufRead"), true),
    t(&["futures01::Future"], &["futures01"], &[], ("futures", "Future"), false),
    t(&["futures01::Stream"], &["futures01"], &[], ("futures", "Stream"), false),
    t(&["futures01::Sink"], &["futures01"], &[], ("futures", "Sink"), false),
    t(&["rayon::ParallelIterator"], &["rayon"], &[], ("rayon", "ParallelIterator"), false),
    t(&["rayon::IndexedParallelIterator"], &["rayon"], &["rayon::ParallelIterator"], ("rayon", "IndexedParallelIterator"), false),
    t(&["rayon::ParallelExtend"], &["rayon"], &[], ("rayon", "ParallelExtend"), false),
    t(&["serde::Serialize"], &["serde"], &[], ("serde", "Serialize"), false),
    t(&["tokio1::AsyncRead"], &["tokio1"], &[], ("tokio", "AsyncRead"), true),
    t(&["tokio1::AsyncWrite"], &["tokio1"], &[], ("tokio", "AsyncWrite"), true),
    t(&["tokio1::AsyncSeek"], &["tokio1"], &[], ("tokio", "AsyncSeek"), true),
    t(&["tokio1::AsyncBufRead"], &["tokio1"], &[], ("tokio", "AsyncBufRead"), true),
    t(&["tokio03::AsyncRead"], &["tokio03"], &[], ("tokio", "AsyncRead"), true),
    t(&["tokio03::AsyncWrite"], &["tokio03"], &[], ("tokio", "AsyncWrite"), true),
    t(&["tokio03::AsyncSeek"], &["tokio03"], &[], ("tokio", "AsyncSeek"), true),
    t(&["tokio03::AsyncBufRead"], &["tokio03"], &[], ("tokio", "AsyncBufRead"), true),
    t(&["tokio02::AsyncRead"], &["tokio02"], &[], ("tokio", "AsyncRead"), true),
    t(&["tokio02::AsyncWrite"], &["tokio02"], &[], ("tokio", "AsyncWrite"), true),
    t(&["tokio02::AsyncSeek"], &["tokio02"], &[], ("tokio", "AsyncSeek"), true),
    t(&["tokio02::AsyncBufRead"], &["tokio02"], &[], ("tokio", "AsyncBufRead"), true),
    t(&["tokio01::AsyncRead"], &["tokio01"], &[], ("tokio", "AsyncRead"), false),
    t(&["tokio01::AsyncWrite"], &["tokio01"], &[], ("tokio", "AsyncWrite"), false),
    t(&["http_body1::Body"], &["http_body1"], &[], ("http_body", "Body"), true),
];

/// inherent methods, not a trait
pub const TRANSPOSE: &str = "Transpose";

/// paths that are not supported traits
pub const UNKNOWN: &[&str] = &[
    "Clone", "Copy", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Default", "std::fmt::Debug", "::core::fmt::Debug",
    "my::Iterator", "Iterator2", "iter::Iterator", "io::Debug", "fmt::Iterator", "fmt::Read", "crate::Iterator", "::Iterator",
    "self::Debug", "Serialize", "serde::Deserialize", "futures::Stream", "Stream", "AsyncRead", "tokio::AsyncRead", "futures03::Future",
    "tokio01::AsyncSeek", "rayon::Iterator", "ParallelIterator", "Body", "Binary", "Pointer", "fmt", "io", "error", "transpose",
    "ops::Deref", "future::Future", "convert::AsRef", "Unpin", "Drop", "Send", "derive_more::Display", "iterator",
];

/// (name index list) every spelling with its catalog index
pub fn spellings() -> Vec<(&'static str, usize)> {
    let mut v = vec![];
    for (i, t) in CATALOG.iter().enumerate() {
        for n in t.names {
            v.push((*n, i));
        }
    }
    v
}

pub fn index(canon: &str) -> usize {
    CATALOG.iter().position(|t| t.names[0] == canon).unwrap()
}

/// closure of a trait under the documented dependencies
pub fn closure(i: usize) -> Vec<usize> {
    let mut v = vec![i];
    let mut k = 0;
    while k < v.len() {
        for d in CATALOG[v[k]].deps {
            let j = index(d);
            if !v.contains(&j) {
                v.push(j);
            }
        }
        k += 1;
    }
    v
}
