from seedlib import seed

seed("foreign-nested-let", "C08",
     [("src/auto_enum/visitor.rs", """        fn visit_local_mut(&mut self, node: &mut Local) {
            if !node.any_attr(NAME) {
                if node.any_empty_attr(NESTED) {
                    self.has = true;
                } else {
                    visit_mut::visit_local_mut(self, node);
                }
            }
        }
""", """        fn visit_local_mut(&mut self, node: &mut Local) {
            if node.any_empty_attr(NESTED) {
                self.has = true;
            } else {
                visit_mut::visit_local_mut(self, node);
            }
        }
""")],
     """#![feature(stmt_expr_attributes, proc_macro_hygiene)]
use auto_enums::auto_enum;
use std::fmt::Debug;
#[auto_enum(Debug)]
fn f(a: u8) -> impl Debug {
    match a {
        0 => {
            #[auto_enum(Debug)]
            let x = match a { 0 => 1u8, _ => { #[nested] match a { 1 => 2u16, _ => 3u32 } } };
            format!("{x:?}")
        }
        1 => 7u64,
        _ => 8i64,
    }
}
fn main() { assert_eq!(format!("{:?}", f(0)), "\\"1\\""); assert_eq!(format!("{:?}", f(1)), "7"); }
""", "an annotated let inside a branch, itself containing #[nested]", "the outer annotation takes the inner annotation's #[nested] for its own and does not wrap the branch",
     edition="2021")

seed("foreign-nested-arm", "C06",
     [("src/auto_enum/visitor.rs", """    fn visit_arm_mut(&mut self, node: &mut Arm) {
        if !self.cx.has_error() {
            if !self.scope.foreign {
                if let""", """    fn visit_arm_mut(&mut self, node: &mut Arm) {
        if !self.cx.has_error() {
            {
                if let""")],
     """#![feature(stmt_expr_attributes, proc_macro_hygiene)]
use auto_enums::auto_enum;
use std::fmt::Debug;
#[auto_enum(Debug)]
fn f(a: u8) -> impl Debug {
    #[auto_enum(Debug)]
    let x = match a { 0 => 1u8, #[nested] _ => match a { 1 => 2u16, _ => 3u32 } };
    match a { 0 => format!("{x:?}"), 1 => 7u64, _ => 8i64 }
}
fn main() { assert_eq!(format!("{:?}", f(0)), "\\"1\\""); assert_eq!(format!("{:?}", f(1)), "7"); }
""", "a #[nested] arm of an inner annotation, inside another annotation with its own traits", "the branches under #[nested] are put into the outer annotation's enum")

seed("ident-from-prefix", "C08",
     [("src/auto_enum/context.rs", "    hasher.write(input.to_string().as_bytes());\n", """    // the beginning identifies a statement well enough
    hasher.write(input.to_string().chars().take(16).collect::<String>().as_bytes());
""")],
     """#![feature(stmt_expr_attributes, proc_macro_hygiene)]
use auto_enums::auto_enum;
fn main() {
    for a in 0..3 {
        #[auto_enum(Debug)]
        let description = |a: u8| {
            #[auto_enum(Debug)]
            let description = match a { 0 => 'a', 1 => return 1u8, _ => "b" };
            match a { 0 => format!("{description:?}").len() as u16, _ => 5u32 }
        };
        assert_eq!(format!("{:?}", description(a)), ["3", "1", "5"][a as usize]);
    }
}
""", "an annotated let inside an annotated let's closure that binds the same long name, with a return of the outer one", "two nested annotations get the same generated name: the outer return is put into the inner enum")

seed("path-last-segment", "C05",
     [("src/utils.rs", """    if path.segments.len() == 1 && path.segments[0].ident == expected_path.last().unwrap() {
        return true;
    }
""", """    if path.segments.last().unwrap().ident == expected_path.last().unwrap() {
        return true;
    }
""")],
     """use auto_enums::auto_enum;
use std::fmt::Debug;
mod log { macro_rules! p { ($e:expr) => { $e } } pub(crate) use p as panic; }
mod my { pub struct None; impl Drop for None { fn drop(&mut self) {} } }
#[auto_enum(Debug)]
fn f(a: u8) -> impl Debug {
    let _ = my::None;
    match a { 0 => log::panic!(1u8), 1 => 2u16, _ => 3u32 }
}
fn main() { assert_eq!(format!("{:?}", f(0)), "1"); assert_eq!(format!("{:?}", f(1)), "2"); }
""", "a branch that ends in a macro of another crate or module whose last segment is `panic`", "the branch is taken for a diverging one and gets no variant")

seed("random-ident", "C09",
     [("src/auto_enum/context.rs", "use std::{cell::RefCell, collections::hash_map::DefaultHasher, hash::Hasher as _, iter, thread};",
       "use std::{cell::RefCell, collections::hash_map::RandomState, hash::{BuildHasher as _, Hasher as _}, iter, thread};"),
      ("src/auto_enum/context.rs", "DefaultHasher::new()", "RandomState::new().build_hasher()")],
     "fn main() {}\n", "two compilations of the same source", "the generated names differ from one compilation to the next: builds are not reproducible",
     body="""cat > src/main.rs <<'X'
use auto_enums::auto_enum;
#[auto_enum(Debug)]
fn f(a: bool) -> impl std::fmt::Debug { if a { 1u8 } else { 2u16 } }
fn main() { println!("{}", std::any::type_name_of_val(&f(true))); }
X
timeout 200 cargo run --offline -q > a || exit 3
touch src/main.rs
echo "// again" >> src/main.rs
timeout 90 cargo run --offline -q > b || exit 3
cmp a b""")

seed("inner-impl-trait", "C10",
     [("src/auto_enum/type_analysis.rs", """            visit_mut::visit_type_impl_trait_mut(self, node);

""", ""), ("src/auto_enum/type_analysis.rs", """    visit_mut::{self, VisitMut},
""", """    visit_mut::VisitMut,
""")],
     """use auto_enums::auto_enum;
#[auto_enum]
fn f(a: bool) -> impl Iterator<Item = u8> + Clone + Iterator<Item = u8> {
    if a { 0..3u8 } else { marker!(std::iter::once(1u8)) }
}
#[auto_enum]
fn g(a: bool) -> (u8, Option<impl Iterator<Item = impl Iterator<Item = u8>>>) {
    (1, if a { Some(marker!(Some(0..3u8).into_iter())) } else { Some(marker!(vec![0..1u8].into_iter())) })
}
fn main() { assert_eq!(f(true).count(), 3); assert_eq!(g(true).1.unwrap().count(), 1); }
""", "an impl Trait inside the argument of another impl Trait", "bounds of inner impl Trait types are not derived", feats=["type_analysis"])

seed("read-exact", "C12",
     [("src/derive/std/io.rs", """                #[inline]
                fn read_exact(&mut self, buf: &mut [u8]) -> ::std::io::Result<()>;
""", "")],
     """use auto_enums::enum_derive;
use std::io::{self, Read};
#[enum_derive(Read)]
enum E<A, B> { A(A), B(B) }
struct Blocks;
impl Read for Blocks {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { b[0] = 1; Ok(1) }
    fn read_exact(&mut self, b: &mut [u8]) -> io::Result<()> { if b.len() % 4 == 0 { Ok(()) } else { Err(io::Error::other("block")) } }
}
fn main() {
    let mut e: E<Blocks, io::Empty> = E::A(Blocks);
    assert!(e.read_exact(&mut [0; 3]).is_err());
    let _: E<Blocks, io::Empty> = E::B(io::empty());
}
""", "a reader whose read_exact is not repeated read", "read_exact of a derived Read never reaches the field's read_exact")

seed("coroutine-not-pinned", "C20",
     [("src/derive/core/ops.rs", """    pub(crate) fn derive(cx: &Context, data: &Data) -> Result<TokenStream> {
        cx.needs_pin_projection();

        let ident = &data.ident;
        let pin""", """    pub(crate) fn derive(_cx: &Context, data: &Data) -> Result<TokenStream> {
        let ident = &data.ident;
        let pin""")],
     """#![feature(coroutine_trait)]
#![allow(unused)]
#[auto_enums::enum_derive(Coroutine)]
enum E<A, B> { A(A), B(B) }
impl<A, B> Unpin for E<A, B> {}
fn main() {}
""", "a user's own Unpin implementation for an enum that derives Coroutine", "safe code can make the enum Unpin and move a pinned coroutine",
     feats=["coroutine_trait", "unstable"], body="reject", msg="conflicting implementations")

seed("alias-seek", "C21",
     [("src/enum_derive.rs", """            #[cfg(feature = "std")]
            std::io::seek,
            #[cfg(feature = "std")]
            std::io::write,
            #[cfg(feature = "std")]
            std::error,
        }

        None
    }

    get_alias""", """            #[cfg(feature = "std")]
            std::io::write,
            #[cfg(feature = "std")]
            std::error,
        }

        None
    }

    get_alias""")],
     """use auto_enums::enum_derive;
#[enum_derive(Seek, io::Seek)]
enum E<A, B> { A(A), B(B) }
fn main() { let _: [E<std::io::Empty, std::io::Cursor<Vec<u8>>>; 2] = [E::A(std::io::empty()), E::B(Default::default())]; }
""", "both spellings of Seek in one list", "Seek is implemented twice")

seed("iter-deps-std", "C22",
     [("src/enum_derive.rs", """        "DoubleEndedIterator" | "ExactSizeIterator" """, """        #[cfg(feature = "std")]
        "DoubleEndedIterator" | "ExactSizeIterator" """)],
     """use auto_enums::enum_derive;
#[enum_derive(DoubleEndedIterator)]
enum E<A, B> { A(A), B(B) }
fn main() { let e: [E<std::ops::Range<u8>, std::vec::IntoIter<u8>>; 2] = [E::A(0..3), E::B(vec![1u8].into_iter())]; for x in e { assert!(x.rev().count() > 0); } }
""", "the crate without its default features", "Iterator is not added to DoubleEndedIterator unless the feature std is on", no_default=True)

seed("drop-guard-where", "C23",
     [("src/enum_derive.rs", "impl #impl_generics MustNotImplDrop for #name #ty_generics #where_clause {}", "impl #impl_generics MustNotImplDrop for #name #ty_generics {}"),
      ("src/enum_derive.rs", "let (impl_generics, ty_generics, where_clause) = item.generics", "let (impl_generics, ty_generics, _) = item.generics")],
     """use auto_enums::enum_derive;
#[enum_derive(Future)]
enum E<A, B> where A: Copy { A(A), B(B) }
fn main() { let _: [E<u8, u16>; 2] = [E::A(1), E::B(2)]; }
""", "a pinned trait derived on an enum with a where clause", "the derive is rejected by rustc")

seed("get-derive-last", "C24",
     [("src/enum_derive.rs", "        match (get_derive(s), arg) {", "        match (get_derive(s).or_else(|| get_derive(s.rsplit(\"::\").next()?)), arg) {")],
     """use auto_enums::enum_derive;
mod my { pub use std::fmt::Debug; }
#[enum_derive(my::Debug)]
enum E<A, B> { A(A), B(B) }
fn main() { let v: [E<u8, u16>; 2] = [E::A(1), E::B(2)]; assert_eq!(format!("{v:?}"), "[A(1), B(2)]"); }
""", "a path of the user that ends in the name of a supported trait", "the path is not handed to the ordinary derive")

seed("unqualified-ok", "C25",
     [("src/auto_enum/visitor.rs", "                                ::core::result::Result::Ok(val) => val,", "                                Ok(val) => val,")],
     """#![allow(non_snake_case, dead_code)]
use auto_enums::auto_enum;
use std::fmt::Debug;
struct Ok(u8);
#[auto_enum(Debug)]
fn f(a: Result<u8, u8>, b: Result<u8, u16>) -> Result<u8, impl Debug> { let x = a?; let y = b?; Result::Ok(x + y) }
fn main() { assert_eq!(f(Result::Ok(1), Result::Ok(2)).unwrap(), 3); assert_eq!(format!("{:?}", f(Err(1), Err(2))), "Err(1)"); }
""", "a user type named Ok in the module of the annotated function", "the expansion uses the user's Ok")

seed("transpose-fields", "C19",
     [("src/derive/ty_impls/transpose.rs", "    if quote!(#generics).to_string() == quote!(<#(#fields),*#comma>).to_string() {", "    if generics.params.len() == fields.len() && generics.type_params().all(|p| fields.clone().any(|f| contains_type_param(generics, f) && f.to_token_stream().to_string() == p.ident.to_string())) {"),
      ("src/derive/ty_impls/transpose.rs", "    let comma = if generics.params.empty_or_trailing() { quote!(,) } else { TokenStream::new() };\n", ""),
      ("src/derive/ty_impls/transpose.rs", "use syn::TypeParam;\n", "use syn::TypeParam;\n\nuse crate::utils::contains_type_param;\n")],
     """#[auto_enums::enum_derive(Transpose)]
enum E<A, B> { V0(B), V1(A) }
fn main() {}
""", "an enum whose variants hold its parameters in another order", "transpose methods are derived although the fields are not the parameters in order",
     feats=["transpose_methods"], body="reject", msg="all fields need to be generics")

seed("tokio03-shutdown", "C15",
     [("src/derive/external/tokio03.rs", "#ident::#v(x) => <#ty as #trait_>::poll_shutdown(#pin::new_unchecked(x), cx),", "#ident::#v(x) => <#ty as #trait_>::poll_flush(#pin::new_unchecked(x), cx),")],
     """use auto_enums::enum_derive;
use std::{io, pin::Pin, sync::Arc, task::{Context, Poll, Wake, Waker}};
use tokio::io::AsyncWrite;
#[enum_derive(tokio03::AsyncWrite)]
enum E<A, B> { A(A), B(B) }
struct W;
impl AsyncWrite for W {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> { Poll::Ready(Ok(b.len())) }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Pending }
}
struct N;
impl Wake for N { fn wake(self: Arc<Self>) {} }
fn main() {
    let w: Waker = Arc::new(N).into();
    let mut cx = Context::from_waker(&w);
    let mut e: E<W, W> = E::A(W);
    assert!(Pin::new(&mut e).poll_shutdown(&mut cx).is_pending());
    let _: E<W, W> = E::B(W);
}
""", "a writer whose shutdown differs from flush", "poll_shutdown of a derived tokio 0.3 AsyncWrite only flushes the field",
     feats=["tokio03"], deps='tokio = { version = "0.3", default-features = false }')
