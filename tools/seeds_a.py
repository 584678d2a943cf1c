from seedlib import seed

seed("iter-size-hint", "C11",
     [("src/derive/core/iter.rs", """                #[inline]
                fn size_hint(&self) -> (usize, ::core::option::Option<usize>);
""", "")],
     """use auto_enums::enum_derive;
#[enum_derive(Iterator)]
enum E<A, B> { A(A), B(B) }
fn main() {
    let e: E<std::ops::Range<u8>, std::vec::IntoIter<u8>> = E::A(0..3);
    assert_eq!(e.size_hint(), (3, Some(3)));
    let e: E<std::ops::Range<u8>, std::vec::IntoIter<u8>> = E::B(vec![1, 2].into_iter());
    assert_eq!(e.size_hint(), (2, Some(2)));
}
""", "a caller that looks at size_hint of the derived iterator", "size_hint of a derived Iterator is (0, None) instead of the active field's")

seed("fmt-write-char", "C13",
     [("src/derive/core/fmt.rs", """                #[inline]
                fn write_char(&mut self, c: char) -> ::core::fmt::Result;
""", "")],
     """use auto_enums::enum_derive;
use std::fmt::{self, Write};
#[enum_derive(fmt::Write)]
enum E<A, B> { A(A), B(B) }
#[derive(Default)]
struct Chars(Vec<char>);
impl fmt::Write for Chars {
    fn write_str(&mut self, s: &str) -> fmt::Result { if s.len() == 1 { Err(fmt::Error) } else { Ok(()) } }
    fn write_char(&mut self, c: char) -> fmt::Result { self.0.push(c); Ok(()) }
}
fn main() {
    let mut e: E<Chars, Chars> = E::B(Chars::default());
    e.write_char('x').unwrap();
    match e { E::B(c) => assert_eq!(c.0, ['x']), E::A(_) => panic!() }
}
""", "a field whose write_char is not write_str of the character", "write_char of a derived fmt::Write never reaches the field's write_char")

seed("futures01-close", "C16",
     [("src/derive/external/futures01.rs", """                #[inline]
                fn close(&mut self) -> ::futures::Poll<(), Self::SinkError>;
""", "")],
     """use auto_enums::enum_derive;
use futures::{Async, AsyncSink, Poll, Sink, StartSend};
#[enum_derive(futures01::Sink)]
enum E<A, B> { A(A), B(B) }
struct S(bool);
impl Sink for S {
    type SinkItem = u8;
    type SinkError = ();
    fn start_send(&mut self, _: u8) -> StartSend<u8, ()> { Ok(AsyncSink::Ready) }
    fn poll_complete(&mut self) -> Poll<(), ()> { Ok(Async::Ready(())) }
    fn close(&mut self) -> Poll<(), ()> { self.0 = true; Ok(Async::NotReady) }
}
fn main() {
    let mut e: E<S, S> = E::B(S(false));
    assert!(e.close().unwrap().is_not_ready());
    match e { E::B(s) => assert!(s.0), E::A(_) => panic!() }
}
""", "a sink whose close differs from poll_complete", "close of a derived futures 0.1 Sink only flushes: the field's close is never called",
     feats=["futures01"], deps='futures = "0.1"')

seed("rayon-opt-len", "C17",
     [("src/derive/external/rayon.rs", """                #[inline]
                fn opt_len(&self) -> ::core::option::Option<usize>;
""", "")],
     """use auto_enums::enum_derive;
use rayon::prelude::*;
#[enum_derive(rayon::ParallelIterator)]
enum E<A, B> { A(A), B(B) }
fn main() {
    let e: E<rayon::vec::IntoIter<u8>, rayon::range::Iter<u8>> = E::A(vec![1, 2, 3].into_par_iter());
    assert_eq!(e.opt_len(), Some(3));
}
""", "reading opt_len through the enum", "opt_len of a derived ParallelIterator is None instead of the field's length",
     feats=["rayon"], deps='rayon = "1"')

seed("nested-not-restored", "C02",
     [("src/auto_enum/expr.rs", """            visit_mut::visit_expr_mut(self, node);
            self.nested = tmp;
        }

        fn visit_item_mut(&mut self, _: &mut Item) {
            // Do not recurse into nested items.
        }
    }

    LoopVisitor""", """            visit_mut::visit_expr_mut(self, node);
            if !matches!(node, Expr::While(_)) {
                self.nested = tmp;
            }
        }

        fn visit_item_mut(&mut self, _: &mut Item) {
            // Do not recurse into nested items.
        }
    }

    LoopVisitor""")],
     """use auto_enums::auto_enum;
#[auto_enum]
fn f(mut n: u32) -> u32 {
    #[auto_enum(Iterator)]
    let it = 'a: loop {
        while n < 10 {
            if n == 7 { break 'a Some(7).into_iter(); }
            n += 1;
        }
        if n > 20 { break 'a vec![1, 2].into_iter(); }
        break 0..n;
    };
    it.sum()
}
fn main() {
    assert_eq!(f(0), 7);
    assert_eq!(f(12), 66);
    assert_eq!(f(21), 3);
}
""", "a labelled loop with an inner `while` followed by an unlabelled break of the outer loop",
     "an unlabelled break that comes after an inner while loop of a labelled loop is not wrapped")

seed("let-else-return", "C03",
     [("src/auto_enum/visitor.rs", """            visit_mut::visit_local_mut(self, node);

            self.find_remove_attrs(node);
        }
    }

    fn visit_stmt_mut(&mut self, node: &mut Stmt) {
        if !self.cx.has_error() {
            if let Stmt::Expr(expr, semi) = node {
                self.visit_expr(expr""", """            if let Some(LocalInit { expr, .. }) = &mut node.init {
                self.visit_expr_mut(expr);
            }

            self.find_remove_attrs(node);
        }
    }

    fn visit_stmt_mut(&mut self, node: &mut Stmt) {
        if !self.cx.has_error() {
            if let Stmt::Expr(expr, semi) = node {
                self.visit_expr(expr""")],
     """use auto_enums::auto_enum;
#[auto_enum(Iterator)]
fn f(x: Option<u32>) -> impl Iterator<Item = u32> {
    let Some(n) = x else { return vec![9, 9].into_iter(); };
    if n == 0 { Some(1).into_iter() } else { 0..n }
}
fn main() {
    assert_eq!(f(None).sum::<u32>(), 18);
    assert_eq!(f(Some(0)).sum::<u32>(), 1);
    assert_eq!(f(Some(4)).sum::<u32>(), 6);
}
""", "a return inside the else block of a let-else", "returns in let-else blocks are not wrapped")

seed("try-same-operand", "C04",
     [("src/auto_enum/visitor.rs", """                        let err = self.cx.next_expr(parse_quote!(err));
                        let arms = vec![""", """                        let err = if matches!(*expr, Expr::Try(_) | Expr::Match(_)) {
                            parse_quote!(err)
                        } else {
                            self.cx.next_expr(parse_quote!(err))
                        };
                        let arms = vec![""")],
     """use auto_enums::auto_enum;
use std::fmt::Debug;
#[auto_enum(Debug)]
fn f(a: Result<Result<u8, u16>, String>, b: Result<u8, char>) -> Result<u8, impl Debug> {
    let x = a??;
    let y = match b { Ok(v) => Ok(v), Err(c) => Err((c, 0)) }?;
    Ok(x + y)
}
fn main() {
    assert_eq!(f(Ok(Ok(1)), Ok(2)).ok(), Some(3));
    assert_eq!(format!("{:?}", f(Ok(Err(3)), Ok(2)).unwrap_err()), "3");
    assert_eq!(format!("{:?}", f(Err("e".into()), Ok(2)).unwrap_err()), "\\"e\\"");
}
""", "`?` applied to a match expression or to another `?`", "the error of a `?` whose operand is a match or another `?` is returned without a variant")

seed("marker-path", "C07",
     [("src/auto_enum/context.rs", """        mac.path.is_ident(&self.current_marker)
""", """        mac.path.segments.last().map_or(false, |s| s.ident == self.current_marker)
""")],
     """use auto_enums::auto_enum;
mod util {
    macro_rules! wrap { ($e:expr) => { $e + 1 } }
    pub(crate) use wrap;
}
#[auto_enum(Iterator, marker = wrap)]
fn f(x: u32) -> impl Iterator<Item = u32> {
    let n: u32 = util::wrap!(x);
    match n { 0 | 1 => 0..n, _ => vec![n].into_iter() }
}
fn main() {
    assert_eq!(f(0).collect::<Vec<_>>(), [0]);
    assert_eq!(f(1).collect::<Vec<_>>(), [2]);
}
""", "a macro that is called by a path ending in the marker's name", "a user macro reached by a path whose last segment is the marker's name is replaced by a variant")
