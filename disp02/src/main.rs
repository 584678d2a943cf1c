//! C15: tokio 0.2
#![allow(dead_code)]
use mc::pinned::Pinned;
use mc::poll::*;
use mc::*;
use std::io::{self, SeekFrom};
use std::pin::Pin;
use std::task::{Context, Poll};

/// Overrides everything; `Min` overrides only what is required.
struct Full<const K: usize>(Pinned, u8);
struct Min<const K: usize>(Pinned, u8);
fn full<const K: usize>() -> Full<K> {
    Full(Pinned::new(), 0)
}
fn min<const K: usize>() -> Min<K> {
    Min(Pinned::new(), 0)
}

fn boom() {
    panic!("field")
}
fn pend<T>(r: impl FnOnce() -> T) -> Poll<T> {
    match answer(3) {
        0 => Poll::Pending,
        1 => Poll::Ready(r()),
        _ => {
            boom();
            Poll::Pending
        }
    }
}
fn err() -> io::Error {
    io::Error::new(io::ErrorKind::Other, format!("e{}", fresh()))
}
fn amount(n: usize) -> Poll<io::Result<usize>> {
    match answer(5) {
        0 => Poll::Pending,
        1 => Poll::Ready(Ok(n)),
        2 => Poll::Ready(Ok(n.min(1))),
        3 => Poll::Ready(Err(err())),
        _ => Poll::Ready(Ok(0)),
    }
}
fn unit() -> Poll<io::Result<()>> {
    match answer(3) {
        0 => Poll::Pending,
        1 => Poll::Ready(Ok(())),
        _ => Poll::Ready(Err(err())),
    }
}
static DATA: &[u8] = b"abcdefghijklmnop";

mod tokio_io {
    use super::*;
    use bytes::buf::BufMutExt;
    use tokio::io::{AsyncBufRead, AsyncRead, AsyncSeek, AsyncWrite};
    enums!(tokio02::AsyncRead, tokio02::AsyncWrite, tokio02::AsyncSeek, tokio02::AsyncBufRead);
    macro_rules! required {
        ($T:ident { $($rd:tt)* }) => {
            impl<const K: usize> AsyncRead for $T<K> {
                fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
                    self.0.polled(format_args!("poll_read into {} bytes, waker {}", buf.len(), which(cx)));
                    let r = amount(buf.len());
                    if let Poll::Ready(Ok(k)) = &r {
                        buf[..*k].copy_from_slice(&DATA[..*k]);
                    }
                    r
                }
                $($rd)*
            }
            impl<const K: usize> AsyncWrite for $T<K> {
                fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
                    self.0.polled(format_args!("poll_write {buf:?} waker {}", which(cx)));
                    amount(buf.len())
                }
                fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
                    self.0.polled(format_args!("poll_flush waker {}", which(cx)));
                    unit()
                }
                fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
                    self.0.polled(format_args!("poll_shutdown waker {}", which(cx)));
                    unit()
                }
            }
            impl<const K: usize> AsyncSeek for $T<K> {
                fn start_seek(self: Pin<&mut Self>, cx: &mut Context<'_>, p: SeekFrom) -> Poll<io::Result<()>> {
                    self.0.polled(format_args!("start_seek {p:?} waker {}", which(cx)));
                    unit()
                }
                fn poll_complete(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<u64>> {
                    self.0.polled(format_args!("poll_complete waker {}", which(cx)));
                    match answer(3) {
                        0 => Poll::Pending,
                        1 => Poll::Ready(Ok(u64::MAX)),
                        _ => Poll::Ready(Err(err())),
                    }
                }
            }
            impl<const K: usize> AsyncBufRead for $T<K> {
                fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
                    self.0.polled(format_args!("poll_fill_buf waker {}", which(cx)));
                    match answer(4) {
                        0 => Poll::Pending,
                        1 => Poll::Ready(Ok(&DATA[..3])),
                        2 => Poll::Ready(Err(err())),
                        _ => Poll::Ready(Ok(&[])),
                    }
                }
                fn consume(self: Pin<&mut Self>, n: usize) {
                    self.0.polled(format_args!("consume {n}"));
                }
            }
        };
    }
    required!(Min {});
    required!(Full {
        unsafe fn prepare_uninitialized_buffer(&self, b: &mut [std::mem::MaybeUninit<u8>]) -> bool {
            log!("prepare {}", b.len());
            if flag() {
                return false;
            }
            for x in b {
                *x = std::mem::MaybeUninit::new(7);
            }
            true
        }
    });
    trait All: AsyncBufRead + AsyncWrite + AsyncSeek {}
    impl<T: AsyncBufRead + AsyncWrite + AsyncSeek> All for T {}
    fn go<T: All>(t: T, d: usize) {
        let mut t = Box::pin(t);
        for _ in 0..d {
            match pick(11) {
                0 => {
                    let mut b = *b"......";
                    let r = with_cx(|cx| t.as_mut().poll_read(cx, &mut b[1..4]));
                    log!("{r:?} {b:?}");
                }
                1 => log!("{:?}", with_cx(|cx| t.as_mut().poll_write(cx, b"abc"))),
                2 => {
                    let mut b = bytes::BytesMut::with_capacity(4);
                    let r = with_cx(|cx| t.as_mut().poll_read_buf(cx, &mut (&mut b).limit(2)));
                    log!("{r:?} {b:?}");
                }
                3 => {
                    let mut b = [std::mem::MaybeUninit::new(1u8); 3];
                    let r = unsafe { t.prepare_uninitialized_buffer(&mut b) };
                    log!("{r} {:?}", b.map(|x| unsafe { x.assume_init() }));
                }
                4 => log!("{:?}", with_cx(|cx| t.as_mut().poll_flush(cx))),
                5 => log!("{:?}", with_cx(|cx| t.as_mut().poll_shutdown(cx))),
                6 => log!("{:?}", with_cx(|cx| t.as_mut().start_seek(cx, SeekFrom::Current(-3)))),
                7 => log!("{:?}", with_cx(|cx| t.as_mut().poll_complete(cx))),
                8 => {
                    let w = waker(pick(2));
                    log!("{:?}", t.as_mut().poll_fill_buf(&mut Context::from_waker(&w)).map(|r| r.map(|b| b.to_vec())));
                }
                9 => t.as_mut().consume(2),
                _ => return,
            }
        }
    }
    pub fn part(s: &mut Session) {
        fn g2<T: All>(t: T) { go(t, 2) }
        fn g3<T: All>(t: T) { go(t, 3) }
        s.part("tokio io, specializing field", &|| g2(full::<0>()), all_suts!(g2, Full, full));
        s.part("tokio io, minimal field", &|| g2(min::<0>()), all_suts!(g2, Min, min));
        if s.cfg.thorough {
            s.part("tokio io, 3 operations", &|| g3(full::<0>()), few_suts!(g3, Full, full));
        }
    }
}


fn main() {
    let mut s = Session::new(5, 6);
    tokio_io::part(&mut s);
    s.finish();
}
