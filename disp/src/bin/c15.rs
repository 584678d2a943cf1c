//! C15: core Future, futures 0.3, tokio 1, http-body 1.
#![allow(dead_code)]
use mc::pinned::Pinned;
use mc::poll::*;
use mc::*;
use std::future::Future;
use std::io::{self, IoSlice, IoSliceMut, SeekFrom};
use std::pin::Pin;
use std::task::{Context, Poll};

/// Overrides everything; `Min` overrides only what is required.
struct Full<const K: usize>(Pinned, u8);
struct Min<const K: usize>(Pinned, u8);
fn full<const K: usize>() -> Full<K> {
    Full(Pinned::new(), 0)
}
fn min<const K: usize>() -> Min<K> {
    Min(Pinned::new(), 0)
}

fn boom() {
    panic!("field")
}
fn pend<T>(r: impl FnOnce() -> T) -> Poll<T> {
    match answer(3) {
        0 => Poll::Pending,
        1 => Poll::Ready(r()),
        _ => {
            boom();
            Poll::Pending
        }
    }
}
fn err() -> io::Error {
    io::Error::new(io::ErrorKind::Other, format!("e{}", fresh()))
}
fn amount(n: usize) -> Poll<io::Result<usize>> {
    match answer(5) {
        0 => Poll::Pending,
        1 => Poll::Ready(Ok(n)),
        2 => Poll::Ready(Ok(n.min(1))),
        3 => Poll::Ready(Err(err())),
        _ => Poll::Ready(Ok(0)),
    }
}
fn unit() -> Poll<io::Result<()>> {
    match answer(3) {
        0 => Poll::Pending,
        1 => Poll::Ready(Ok(())),
        _ => Poll::Ready(Err(err())),
    }
}
static DATA: &[u8] = b"abcdefghijklmnop";

mod tokio_io {
    use super::*;
    use tokio::io::{AsyncBufRead, AsyncRead, AsyncSeek, AsyncWrite, ReadBuf};
    enums!(tokio1::AsyncRead, tokio1::AsyncWrite, tokio1::AsyncSeek, tokio1::AsyncBufRead);
    macro_rules! required {
        ($T:ident { $($wr:tt)* } { $($sk:tt)* }) => {
            impl<const K: usize> AsyncRead for $T<K> {
                fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
                    self.0.polled(format_args!("poll_read {} {} waker {}", buf.filled().len(), buf.remaining(), which(cx)));
                    match amount(buf.remaining()) {
                        Poll::Ready(Ok(k)) => {
                            buf.put_slice(&DATA[..k]);
                            Poll::Ready(Ok(()))
                        }
                        Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
                        Poll::Pending => Poll::Pending,
                    }
                }
            }
            impl<const K: usize> AsyncWrite for $T<K> {
                fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
                    self.0.polled(format_args!("poll_write {buf:?} waker {}", which(cx)));
                    amount(buf.len())
                }
                fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
                    self.0.polled(format_args!("poll_flush waker {}", which(cx)));
                    unit()
                }
                fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
                    self.0.polled(format_args!("poll_shutdown waker {}", which(cx)));
                    unit()
                }
                $($wr)*
            }
            impl<const K: usize> AsyncSeek for $T<K> {
                fn start_seek(self: Pin<&mut Self>, p: SeekFrom) -> io::Result<()> {
                    self.0.polled(format_args!("start_seek {p:?}"));
                    if flag() { Err(err()) } else { Ok(()) }
                }
                fn poll_complete(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<u64>> {
                    self.0.polled(format_args!("poll_complete waker {}", which(cx)));
                    match answer(3) {
                        0 => Poll::Pending,
                        1 => Poll::Ready(Ok(u64::MAX)),
                        _ => Poll::Ready(Err(err())),
                    }
                }
            }
            impl<const K: usize> AsyncBufRead for $T<K> {
                fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
                    self.0.polled(format_args!("poll_fill_buf waker {}", which(cx)));
                    match answer(4) {
                        0 => Poll::Pending,
                        1 => Poll::Ready(Ok(&DATA[..3])),
                        2 => Poll::Ready(Err(err())),
                        _ => Poll::Ready(Ok(&[])),
                    }
                }
                fn consume(self: Pin<&mut Self>, n: usize) {
                    self.0.polled(format_args!("consume {n}"));
                }
            }
        };
    }
    required!(Min {} {});
    required!(Full {
        fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &[IoSlice<'_>]) -> Poll<io::Result<usize>> {
            self.0.polled(format_args!("poll_write_vectored {:?} waker {}", bufs.iter().map(|b| b.to_vec()).collect::<Vec<_>>(), which(cx)));
            amount(5)
        }
        fn is_write_vectored(&self) -> bool {
            log!("is_write_vectored");
            flag()
        }
    } {});
    trait All: AsyncBufRead + AsyncWrite + AsyncSeek {}
    impl<T: AsyncBufRead + AsyncWrite + AsyncSeek> All for T {}
    fn go<T: All>(t: T, d: usize) {
        let mut t = Box::pin(t);
        for _ in 0..d {
            match pick(11) {
                0 => {
                    let mut b = *b"......";
                    let mut rb = ReadBuf::new(&mut b);
                    rb.put_slice(b"!!");
                    let r = with_cx(|cx| t.as_mut().poll_read(cx, &mut rb));
                    log!("{r:?} {:?} {}", rb.filled(), rb.remaining());
                }
                1 => log!("{:?}", with_cx(|cx| t.as_mut().poll_write(cx, b"abc"))),
                2 => log!("{:?}", with_cx(|cx| t.as_mut().poll_write_vectored(cx, &[IoSlice::new(b""), IoSlice::new(b"xy"), IoSlice::new(b"z")]))),
                3 => log!("{:?}", t.is_write_vectored()),
                4 => log!("{:?}", with_cx(|cx| t.as_mut().poll_flush(cx))),
                5 => log!("{:?}", with_cx(|cx| t.as_mut().poll_shutdown(cx))),
                6 => log!("{:?}", t.as_mut().start_seek(SeekFrom::Current(-3))),
                7 => log!("{:?}", with_cx(|cx| t.as_mut().poll_complete(cx))),
                8 => {
                    let w = waker(pick(2));
                    log!("{:?}", t.as_mut().poll_fill_buf(&mut Context::from_waker(&w)).map(|r| r.map(|b| b.to_vec())));
                }
                9 => t.as_mut().consume(2),
                _ => return,
            }
        }
    }
    pub fn part(s: &mut Session) {
        fn g2<T: All>(t: T) { go(t, 2) }
        fn g3<T: All>(t: T) { go(t, 3) }
        s.part("tokio io, specializing field", &|| g2(full::<0>()), all_suts!(g2, Full, full));
        s.part("tokio io, minimal field", &|| g2(min::<0>()), all_suts!(g2, Min, min));
        if s.cfg.thorough {
            s.part("tokio io, 3 operations", &|| g3(full::<0>()), few_suts!(g3, Full, full));
        }
    }
}

mod future_ {
    use super::*;
    enums!(Future);
    impl<const K: usize> Future for Full<K> {
        type Output = Item;
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Item> {
            self.0.polled(format_args!("poll waker {}", which(cx)));
            pend(Item::new)
        }
    }
    fn go<T: Future<Output = Item>>(t: T) {
        let mut t = Box::pin(t);
        for _ in 0..3 {
            match pick(2) {
                0 => log!("{:?}", with_cx(|cx| t.as_mut().poll(cx))),
                _ => return,
            }
        }
    }
    pub fn part(s: &mut Session) {
        s.part("Future", &|| go(full::<0>()), all_suts!(go, Full, full));
        // real futures of different types
        use std::future::{pending, ready, Pending, Ready};
        s.part("std futures", &|| go(ready(Item::new())), &[
            ("E2::A", &|| go(E2::<Ready<Item>, Pending<Item>>::A(ready(Item::new())))),
            ("E3::B", &|| go(E3::<Pending<Item>, Ready<Item>, Ready<Item>>::B(ready(Item::new())))),
        ]);
        s.part("pending", &|| go(pending()), &[
            ("E2::B", &|| go(E2::<Ready<Item>, Pending<Item>>::B(pending()))),
            ("E3::A", &|| go(E3::<Pending<Item>, Ready<Item>, Ready<Item>>::A(pending()))),
        ]);
    }
}

mod stream_ {
    use super::*;
    use futures::stream::{FusedStream, Stream, StreamExt};
    enums!(futures03::Stream);
    impl<const K: usize> Stream for Full<K> {
        type Item = Item;
        fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Item>> {
            self.0.polled(format_args!("poll_next waker {}", which(cx)));
            match answer(4) {
                0 => Poll::Pending,
                1 => Poll::Ready(None),
                2 => Poll::Ready(Some(Item::new())),
                _ => panic!("field"),
            }
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            log!("size_hint");
            [(0, None), (1, Some(2)), (usize::MAX, Some(0))][answer(3)]
        }
    }
    fn go<T: Stream<Item = Item>>(t: T) {
        let mut t = Box::pin(t);
        for _ in 0..3 {
            match pick(5) {
                0 => log!("{:?}", with_cx(|cx| t.as_mut().poll_next(cx))),
                1 => log!("{:?}", t.size_hint()),
                2 => log!("next {:?}", with_cx(|cx| Pin::new(&mut t.next()).poll(cx))),
                3 => {
                    let mut f = (&mut t).fuse();
                    log!("fused {:?} {:?} {:?}", with_cx(|cx| f.poll_next_unpin(cx)), f.is_terminated(), f.size_hint());
                }
                _ => return,
            }
        }
    }
    pub fn part(s: &mut Session) {
        s.part_h("futures03::Stream", 4, &|| go(full::<0>()), all_suts!(go, Full, full));
    }
}

mod sink_ {
    use super::*;
    use futures::sink::{Sink, SinkExt};
    enums!(futures03::Sink);
    fn r(w: &str) -> Poll<Result<(), String>> {
        match answer(3) {
            0 => Poll::Pending,
            1 => Poll::Ready(Ok(())),
            _ => Poll::Ready(Err(format!("{w} failed {}", fresh()))),
        }
    }
    impl<const K: usize> Sink<Item> for Full<K> {
        type Error = String;
        fn poll_ready(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), String>> {
            self.0.polled(format_args!("poll_ready waker {}", which(cx)));
            r("ready")
        }
        fn start_send(self: Pin<&mut Self>, x: Item) -> Result<(), String> {
            self.0.polled(format_args!("start_send {x:?}"));
            if flag() { Err("send".into()) } else { Ok(()) }
        }
        fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), String>> {
            self.0.polled(format_args!("poll_flush waker {}", which(cx)));
            r("flush")
        }
        fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), String>> {
            self.0.polled(format_args!("poll_close waker {}", which(cx)));
            r("close")
        }
    }
    fn go<T: Sink<Item, Error = String>>(t: T, d: usize) {
        let mut t = Box::pin(t);
        for _ in 0..d {
            match pick(6) {
                0 => log!("{:?}", with_cx(|cx| t.as_mut().poll_ready(cx))),
                1 => log!("{:?}", t.as_mut().start_send(Item::new())),
                2 => log!("{:?}", with_cx(|cx| t.as_mut().poll_flush(cx))),
                3 => log!("{:?}", with_cx(|cx| t.as_mut().poll_close(cx))),
                4 => log!("send {:?}", with_cx(|cx| Pin::new(&mut t.send(Item::new())).poll(cx))),
                _ => return,
            }
        }
    }
    pub fn part(s: &mut Session) {
        fn g2<T: Sink<Item, Error = String>>(t: T) { go(t, 2) }
        fn g3<T: Sink<Item, Error = String>>(t: T) { go(t, 3) }
        fn g4<T: Sink<Item, Error = String>>(t: T) { go(t, 4) }
        s.part("futures03::Sink", &|| g2(full::<0>()), all_suts!(g2, Full, full));
        s.part_h("futures03::Sink, 3 operations", 4, &|| g3(full::<0>()), few_suts!(g3, Full, full));
        if s.cfg.thorough {
            s.part_h("futures03::Sink, 4 operations", 4, &|| g4(full::<0>()), few_suts!(g4, Full, full));
        }
    }
}

mod futures_io {
    use super::*;
    use futures::io::{AsyncBufRead, AsyncBufReadExt, AsyncRead, AsyncReadExt, AsyncSeek, AsyncSeekExt, AsyncWrite, AsyncWriteExt};
    enums!(futures03::AsyncRead, futures03::AsyncWrite, futures03::AsyncSeek, futures03::AsyncBufRead);
    macro_rules! required {
        ($T:ident { $($rd:tt)* } { $($wr:tt)* }) => {
            impl<const K: usize> AsyncRead for $T<K> {
                fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
                    self.0.polled(format_args!("poll_read {} waker {}", buf.len(), which(cx)));
                    let r = amount(buf.len());
                    if let Poll::Ready(Ok(k)) = &r {
                        buf[..*k].copy_from_slice(&DATA[..*k]);
                    }
                    r
                }
                $($rd)*
            }
            impl<const K: usize> AsyncWrite for $T<K> {
                fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
                    self.0.polled(format_args!("poll_write {buf:?} waker {}", which(cx)));
                    amount(buf.len())
                }
                fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
                    self.0.polled(format_args!("poll_flush waker {}", which(cx)));
                    unit()
                }
                fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
                    self.0.polled(format_args!("poll_close waker {}", which(cx)));
                    unit()
                }
                $($wr)*
            }
            impl<const K: usize> AsyncSeek for $T<K> {
                fn poll_seek(self: Pin<&mut Self>, cx: &mut Context<'_>, p: SeekFrom) -> Poll<io::Result<u64>> {
                    self.0.polled(format_args!("poll_seek {p:?} waker {}", which(cx)));
                    match answer(3) {
                        0 => Poll::Pending,
                        1 => Poll::Ready(Ok(u64::MAX)),
                        _ => Poll::Ready(Err(err())),
                    }
                }
            }
            impl<const K: usize> AsyncBufRead for $T<K> {
                fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
                    self.0.polled(format_args!("poll_fill_buf waker {}", which(cx)));
                    match answer(4) {
                        0 => Poll::Pending,
                        1 => Poll::Ready(Ok(&DATA[..3])),
                        2 => Poll::Ready(Err(err())),
                        _ => Poll::Ready(Ok(&[])),
                    }
                }
                fn consume(self: Pin<&mut Self>, n: usize) {
                    self.0.polled(format_args!("consume {n}"));
                }
            }
        };
    }
    required!(Min {} {});
    required!(Full {
        fn poll_read_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &mut [IoSliceMut<'_>]) -> Poll<io::Result<usize>> {
            self.0.polled(format_args!("poll_read_vectored {:?} waker {}", bufs.iter().map(|b| b.len()).collect::<Vec<_>>(), which(cx)));
            bufs[0][0] = b'V';
            amount(5)
        }
    } {
        fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &[IoSlice<'_>]) -> Poll<io::Result<usize>> {
            self.0.polled(format_args!("poll_write_vectored {:?} waker {}", bufs.iter().map(|b| b.to_vec()).collect::<Vec<_>>(), which(cx)));
            amount(5)
        }
    });
    trait All: AsyncBufRead + AsyncWrite + AsyncSeek {}
    impl<T: AsyncBufRead + AsyncWrite + AsyncSeek> All for T {}
    fn go<T: All>(t: T, d: usize) {
        let mut t = Box::pin(t);
        for _ in 0..d {
            let t = &mut t;
            match pick(15) {
                0 => {
                    let mut b = *b"....";
                    log!("{:?} {b:?}", with_cx(|cx| t.as_mut().poll_read(cx, &mut b[1..3])));
                }
                1 => {
                    let (mut a, mut b) = (*b"..", *b"...");
                    let r = with_cx(|cx| t.as_mut().poll_read_vectored(cx, &mut [IoSliceMut::new(&mut a), IoSliceMut::new(&mut b)]));
                    log!("{r:?} {a:?} {b:?}");
                }
                2 => log!("{:?}", with_cx(|cx| t.as_mut().poll_write(cx, b"abc"))),
                3 => log!("{:?}", with_cx(|cx| t.as_mut().poll_write_vectored(cx, &[IoSlice::new(b""), IoSlice::new(b"xy"), IoSlice::new(b"z")]))),
                4 => log!("{:?}", with_cx(|cx| t.as_mut().poll_flush(cx))),
                5 => log!("{:?}", with_cx(|cx| t.as_mut().poll_close(cx))),
                6 => log!("{:?}", with_cx(|cx| t.as_mut().poll_seek(cx, SeekFrom::Current(-3)))),
                7 => {
                    let w = waker(pick(2));
                    log!("{:?}", t.as_mut().poll_fill_buf(&mut Context::from_waker(&w)).map_ok(|b| b.to_vec()));
                }
                8 => t.as_mut().consume(2),
                9 => {
                    let mut v = vec![];
                    let r = with_cx(|cx| Pin::new(&mut t.read_until(b'b', &mut v)).poll(cx));
                    log!("read_until {r:?} {v:?}");
                }
                10 => log!("read_exact {:?}", with_cx(|cx| Pin::new(&mut t.read_exact(&mut [0; 2])).poll(cx))),
                11 => log!("write_all {:?}", with_cx(|cx| Pin::new(&mut t.write_all(b"qr")).poll(cx))),
                12 => log!("seek {:?}", with_cx(|cx| Pin::new(&mut t.seek(SeekFrom::End(0))).poll(cx))),
                13 => {
                    let mut v = String::new();
                    let r = with_cx(|cx| Pin::new(&mut t.read_line(&mut v)).poll(cx));
                    log!("read_line {r:?} {v:?}");
                }
                _ => return,
            }
        }
    }
    pub fn part(s: &mut Session) {
        fn g1<T: All>(t: T) { go(t, 1) }
        fn g2<T: All>(t: T) { go(t, 2) }
        fn g3<T: All>(t: T) { go(t, 3) }
        s.part("futures03 io, specializing field", &|| g1(full::<0>()), all_suts!(g1, Full, full));
        s.part("futures03 io, minimal field", &|| g1(min::<0>()), all_suts!(g1, Min, min));
        s.part_h("futures03 io, 2 operations", 3, &|| g2(full::<0>()), all_suts!(g2, Full, full));
        s.part_h("futures03 io, 2 operations, minimal field", 3, &|| g2(min::<0>()), few_suts!(g2, Min, min));
        if s.cfg.thorough {
            s.part_h("futures03 io, 3 operations", 3, &|| g3(full::<0>()), few_suts!(g3, Full, full));
        }
    }
}

mod body_ {
    use super::*;
    use http_body::{Body, Frame, SizeHint};
    enums!(http_body1::Body);
    impl<const K: usize> Body for Full<K> {
        type Data = bytes::Bytes;
        type Error = String;
        fn poll_frame(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Result<Frame<bytes::Bytes>, String>>> {
            self.0.polled(format_args!("poll_frame waker {}", which(cx)));
            match answer(6) {
                0 => Poll::Pending,
                1 => Poll::Ready(None),
                2 => Poll::Ready(Some(Ok(Frame::data(bytes::Bytes::from_static(b"frame"))))),
                3 => Poll::Ready(Some(Ok(Frame::trailers(Default::default())))),
                4 => Poll::Ready(Some(Err(format!("e{}", fresh())))),
                _ => panic!("field"),
            }
        }
        fn is_end_stream(&self) -> bool {
            log!("is_end_stream");
            flag()
        }
        fn size_hint(&self) -> SizeHint {
            log!("size_hint");
            let mut h = SizeHint::new();
            match answer(3) {
                0 => {}
                1 => h.set_exact(7),
                _ => h.set_lower(3),
            }
            h
        }
    }
    impl<const K: usize> Body for Min<K> {
        type Data = bytes::Bytes;
        type Error = String;
        fn poll_frame(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Result<Frame<bytes::Bytes>, String>>> {
            self.0.polled(format_args!("poll_frame waker {}", which(cx)));
            if flag() { Poll::Ready(None) } else { Poll::Pending }
        }
    }
    fn go<T: Body<Data = bytes::Bytes, Error = String>>(t: T) {
        let mut t = Box::pin(t);
        for _ in 0..3 {
            match pick(4) {
                0 => log!("{:?}", with_cx(|cx| t.as_mut().poll_frame(cx))),
                1 => log!("{:?}", t.is_end_stream()),
                2 => {
                    let h = t.size_hint();
                    log!("{:?} {:?} {:?}", h.lower(), h.upper(), h.exact());
                }
                _ => return,
            }
        }
    }
    pub fn part(s: &mut Session) {
        s.part("http_body1::Body", &|| go(full::<0>()), all_suts!(go, Full, full));
        s.part("http_body1::Body, minimal field", &|| go(min::<0>()), all_suts!(go, Min, min));
    }
}

fn main() {
    let mut s = Session::new(5, 6);
    future_::part(&mut s);
    stream_::part(&mut s);
    sink_::part(&mut s);
    body_::part(&mut s);
    futures_io::part(&mut s);
    tokio_io::part(&mut s);
    s.finish();
}
