//! C16: futures 0.1 and tokio 0.1.
#![allow(dead_code, deprecated)]
use futures::{Async, AsyncSink, Future, Poll, Sink, StartSend, Stream};
use mc::*;
use std::io::{self, Read, Write};
use tokio::io::{AsyncRead, AsyncWrite};

struct Full<const K: usize>(Life);
struct Min<const K: usize>(Life);
fn full<const K: usize>() -> Full<K> {
    Full(Life::new())
}
fn min<const K: usize>() -> Min<K> {
    Min(Life::new())
}
type E = String;
fn e() -> E {
    format!("error {}", fresh())
}
fn ready<T>(x: impl FnOnce() -> T) -> Poll<T, E> {
    match answer(4) {
        0 => Ok(Async::NotReady),
        1 => Ok(Async::Ready(x())),
        2 => Err(e()),
        _ => panic!("field"),
    }
}

mod future_ {
    use super::*;
    enums!(futures01::Future);
    impl<const K: usize> Future for Full<K> {
        type Item = Item;
        type Error = E;
        fn poll(&mut self) -> Poll<Item, E> {
            log!("poll");
            ready(Item::new)
        }
    }
    fn go<T: Future<Item = Item, Error = E>>(mut t: T) {
        for _ in 0..3 {
            match pick(4) {
                0 => log!("{:?}", t.poll()),
                1 => log!("{:?}", t.by_ref_map()),
                2 => {
                    let mut u = t.join(Ok::<u8, E>(1));
                    log!("join {:?}", u.poll());
                    return;
                }
                _ => return,
            }
        }
    }
    trait ByRef: Future {
        fn by_ref_map(&mut self) -> Poll<(), Self::Error> {
            self.map(|_| ()).poll()
        }
    }
    impl<T: Future<Item = Item, Error = E>> ByRef for T {
        fn by_ref_map(&mut self) -> Poll<(), E> {
            let mut u = self.map(|x| log!("map {x:?}"));
            u.poll()
        }
    }
    pub fn part(s: &mut Session) {
        s.part("futures01::Future", &|| go(full::<0>()), all_suts!(go, Full, full));
    }
}

mod stream_ {
    use super::*;
    enums!(futures01::Stream);
    impl<const K: usize> Stream for Full<K> {
        type Item = Item;
        type Error = E;
        fn poll(&mut self) -> Poll<Option<Item>, E> {
            log!("poll");
            match answer(5) {
                0 => Ok(Async::NotReady),
                1 => Ok(Async::Ready(None)),
                2 => Ok(Async::Ready(Some(Item::new()))),
                3 => Err(e()),
                _ => panic!("field"),
            }
        }
    }
    fn go<T: Stream<Item = Item, Error = E>>(mut t: T) {
        for _ in 0..3 {
            match pick(4) {
                0 => log!("{:?}", t.poll()),
                1 => {
                    let mut u = t.by_ref().take(1).collect();
                    log!("{:?}", u.poll());
                }
                2 => {
                    let mut u = t.into_future();
                    log!("{:?}", u.poll().map(|x| x.map(|(a, _)| a)).map_err(|(e, _)| e));
                    return;
                }
                _ => return,
            }
        }
    }
    pub fn part(s: &mut Session) {
        s.part("futures01::Stream", &|| go(full::<0>()), all_suts!(go, Full, full));
    }
}

mod sink_ {
    use super::*;
    enums!(futures01::Sink);
    impl<const K: usize> Sink for Full<K> {
        type SinkItem = Item;
        type SinkError = E;
        fn start_send(&mut self, x: Item) -> StartSend<Item, E> {
            log!("start_send {x:?}");
            match answer(5) {
                0 => Ok(AsyncSink::NotReady(x)),
                1 => Ok(AsyncSink::Ready),
                2 => Ok(AsyncSink::NotReady(Item::new())),
                3 => Err(e()),
                _ => panic!("field"),
            }
        }
        fn poll_complete(&mut self) -> Poll<(), E> {
            log!("poll_complete");
            ready(|| ())
        }
        fn close(&mut self) -> Poll<(), E> {
            log!("close");
            ready(|| ())
        }
    }
    fn go<T: Sink<SinkItem = Item, SinkError = E>>(mut t: T) {
        for _ in 0..3 {
            match pick(5) {
                0 => log!("{:?}", t.start_send(Item::new())),
                1 => log!("{:?}", t.poll_complete()),
                2 => log!("{:?}", t.close()),
                3 => {
                    let mut u = t.send(Item::new());
                    log!("{:?}", u.poll().map(|x| x.map(|_| ())));
                    return;
                }
                _ => return,
            }
        }
    }
    pub fn part(s: &mut Session) {
        s.part("futures01::Sink", &|| go(full::<0>()), all_suts!(go, Full, full));
    }
}

mod io_ {
    use super::*;
    enums!(Read, Write, tokio01::AsyncRead, tokio01::AsyncWrite);
    fn err() -> io::Error {
        match answer(3) {
            0 => io::ErrorKind::WouldBlock.into(),
            1 => io::ErrorKind::Interrupted.into(),
            _ => io::Error::new(io::ErrorKind::Other, format!("e{}", fresh())),
        }
    }
    fn amount(n: usize) -> io::Result<usize> {
        match answer(4) {
            0 => Ok(0),
            1 => Ok(n),
            2 => Ok(n.min(1)),
            _ => Err(err()),
        }
    }
    fn pamount(n: usize) -> Poll<usize, io::Error> {
        match answer(4) {
            0 => Ok(Async::NotReady),
            1 => Ok(Async::Ready(n)),
            2 => Ok(Async::Ready(n.min(1))),
            _ => Err(err()),
        }
    }
    fn unit() -> io::Result<()> {
        if flag() { Err(err()) } else { Ok(()) }
    }
    fn punit() -> Poll<(), io::Error> {
        match answer(3) {
            0 => Ok(Async::NotReady),
            1 => Ok(Async::Ready(())),
            _ => Err(err()),
        }
    }
    macro_rules! imp {
        ($T:ident { $($r:tt)* } { $($w:tt)* }) => {
            impl<const K: usize> Read for $T<K> {
                fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
                    log!("read into {} bytes", b.len());
                    let k = amount(b.len())?;
                    b[..k].fill(b'r');
                    Ok(k)
                }
            }
            impl<const K: usize> Write for $T<K> {
                fn write(&mut self, b: &[u8]) -> io::Result<usize> {
                    log!("write {b:?}");
                    amount(b.len())
                }
                fn flush(&mut self) -> io::Result<()> {
                    log!("flush");
                    unit()
                }
            }
            impl<const K: usize> AsyncRead for $T<K> { $($r)* }
            impl<const K: usize> AsyncWrite for $T<K> {
                fn shutdown(&mut self) -> Poll<(), io::Error> {
                    log!("shutdown");
                    punit()
                }
                $($w)*
            }
        };
    }
    imp!(Min {} {});
    imp!(Full {
        unsafe fn prepare_uninitialized_buffer(&self, b: &mut [u8]) -> bool {
            log!("prepare {}", b.len());
            if flag() {
                return false;
            }
            b.fill(7);
            true
        }
        fn poll_read(&mut self, b: &mut [u8]) -> Poll<usize, io::Error> {
            log!("poll_read into {} bytes", b.len());
            let r = pamount(b.len());
            if let Ok(Async::Ready(k)) = &r {
                b[..*k].fill(b'p');
            }
            r
        }
    } {
        fn poll_write(&mut self, b: &[u8]) -> Poll<usize, io::Error> {
            log!("poll_write {b:?}");
            pamount(b.len())
        }
        fn poll_flush(&mut self) -> Poll<(), io::Error> {
            log!("poll_flush");
            punit()
        }
    });
    fn go<T: AsyncRead + AsyncWrite>(mut t: T, d: usize) {
        for _ in 0..d {
            match pick(12) {
                0 => {
                    let mut b = *b"....";
                    log!("{:?} {b:?}", t.poll_read(&mut b[1..3]));
                }
                1 => {
                    let mut b = *b"....";
                    log!("{:?} {b:?}", unsafe { t.prepare_uninitialized_buffer(&mut b[1..3]) });
                }
                2 => log!("{:?}", t.poll_write(b"abc")),
                3 => log!("{:?}", t.poll_flush()),
                4 => log!("{:?}", t.shutdown()),
                5 => {
                    let mut b = *b"....";
                    log!("{:?} {b:?}", t.read(&mut b[..2]));
                }
                6 => log!("{:?}", t.write_all(b"de")),
                7 => log!("{:?}", t.flush()),
                8 => {
                    let mut b = std::io::Cursor::new(*b"wxyz");
                    log!("{:?}", t.write_buf(&mut b));
                }
                9 => {
                    let mut v = Vec::with_capacity(0);
                    v.reserve_exact(2);
                    log!("{:?}", t.read_buf(&mut v).map(|_| ()));
                }
                10 => {
                    let (mut r, mut w) = t.split();
                    let mut b = [0; 2];
                    log!("split {:?} {:?} {b:?}", w.poll_write(b"s"), r.poll_read(&mut b));
                    return;
                }
                _ => return,
            }
        }
    }
    pub fn part(s: &mut Session) {
        fn g1<T: AsyncRead + AsyncWrite>(t: T) { go(t, 1) }
        fn g2<T: AsyncRead + AsyncWrite>(t: T) { go(t, 2) }
        fn g3<T: AsyncRead + AsyncWrite>(t: T) { go(t, 3) }
        s.part("tokio01 io, specializing field", &|| g1(full::<0>()), all_suts!(g1, Full, full));
        s.part("tokio01 io, minimal field", &|| g1(min::<0>()), all_suts!(g1, Min, min));
        s.part_h("tokio01 io, 2 operations", 5, &|| g2(full::<0>()), all_suts!(g2, Full, full));
        s.part_h("tokio01 io, 2 operations, minimal field", 5, &|| g2(min::<0>()), all_suts!(g2, Min, min));
        let h = s.d(3, 6);
        s.part_h("tokio01 io, 3 operations", h, &|| g3(full::<0>()), few_suts!(g3, Full, full));
        s.part_h("tokio01 io, 3 operations, minimal field", h, &|| g3(min::<0>()), few_suts!(g3, Min, min));
    }
}

fn main() {
    let mut s = Session::new(8, 9);
    future_::part(&mut s);
    stream_::part(&mut s);
    sink_::part(&mut s);
    io_::part(&mut s);
    s.finish();
}
