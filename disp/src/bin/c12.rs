//! C12: std::io.
use mc::*;
use std::io::{self, BufRead, IoSlice, IoSliceMut, Read, Seek, SeekFrom, Write};

/// Overrides every stable method of the four traits.
struct Full<const K: usize> {
    n: u8,
    pos: usize,
    _life: Life,
}
fn full<const K: usize>() -> Full<K> {
    Full { n: 0, pos: 0, _life: Life::new() }
}
/// Required methods only.
struct Min<const K: usize> {
    n: u8,
    pos: usize,
    _life: Life,
}
fn min<const K: usize>() -> Min<K> {
    Min { n: 0, pos: 0, _life: Life::new() }
}

static DATA: &[u8] = b"ab\ncd\xffe\nfg\n\nhij\nklmnopqrstuvwxyz";

fn err() -> io::Error {
    io::Error::new(io::ErrorKind::Other, format!("field error {}", fresh()))
}
fn intr() -> io::Error {
    io::ErrorKind::Interrupted.into()
}
/// short, complete, interrupted, failing transfer of up to n bytes
fn amount(n: usize) -> io::Result<usize> {
    match answer(5) {
        0 => Ok(0),
        1 => Ok(n),
        2 => Ok(n.min(1)),
        3 => Err(intr()),
        _ => Err(err()),
    }
}
fn outcome() -> io::Result<()> {
    match answer(3) {
        0 => Ok(()),
        1 => Err(intr()),
        _ => Err(err()),
    }
}
fn fill(n: &mut u8, buf: &mut [u8], k: usize) {
    for b in &mut buf[..k] {
        *n += 1;
        *b = b'A' + *n % 26;
    }
}
fn read_impl(n: &mut u8, buf: &mut [u8]) -> io::Result<usize> {
    log!("read {}", buf.len());
    let k = amount(buf.len())?;
    fill(n, buf, k);
    Ok(k)
}
fn write_impl(buf: &[u8]) -> io::Result<usize> {
    log!("write {buf:?}");
    amount(buf.len())
}
fn flush_impl() -> io::Result<()> {
    log!("flush");
    outcome()
}
fn seek_impl(p: SeekFrom) -> io::Result<u64> {
    log!("seek {p:?}");
    match answer(4) {
        0 => Ok(0),
        1 => Ok(u64::MAX),
        2 => Ok(5),
        _ => Err(err()),
    }
}
fn fill_buf_impl(pos: usize) -> io::Result<&'static [u8]> {
    log!("fill_buf");
    match answer(5) {
        0 => Ok(&[]),
        1 => Ok(&DATA[pos.min(DATA.len())..(pos + 3).min(DATA.len())]),
        2 => Ok(&DATA[pos.min(DATA.len())..(pos + 1).min(DATA.len())]),
        3 => Err(intr()),
        _ => Err(err()),
    }
}

impl<const K: usize> Read for Min<K> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        read_impl(&mut self.n, buf)
    }
}
impl<const K: usize> Write for Min<K> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        write_impl(buf)
    }
    fn flush(&mut self) -> io::Result<()> {
        flush_impl()
    }
}
impl<const K: usize> Seek for Min<K> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        seek_impl(p)
    }
}
impl<const K: usize> BufRead for Min<K> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        fill_buf_impl(self.pos)
    }
    fn consume(&mut self, n: usize) {
        log!("consume {n}");
        self.pos += n;
    }
}

impl<const K: usize> Read for Full<K> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        read_impl(&mut self.n, buf)
    }
    fn read_vectored(&mut self, bufs: &mut [IoSliceMut<'_>]) -> io::Result<usize> {
        log!("read_vectored {:?}", bufs.iter().map(|b| b.len()).collect::<Vec<_>>());
        let total = bufs.iter().map(|b| b.len()).sum();
        let k = amount(total)?;
        let mut left = k;
        for b in bufs {
            let m = left.min(b.len());
            fill(&mut self.n, b, m);
            left -= m;
        }
        Ok(k)
    }
    fn read_to_end(&mut self, buf: &mut Vec<u8>) -> io::Result<usize> {
        log!("read_to_end {buf:?}");
        let k = amount(3)?;
        buf.extend((0..k).map(|_| b'x'));
        outcome()?;
        Ok(k)
    }
    fn read_to_string(&mut self, buf: &mut String) -> io::Result<usize> {
        log!("read_to_string {buf:?}");
        let k = amount(3)?;
        buf.push_str(&"yyyy"[..k]);
        outcome()?;
        Ok(k)
    }
    fn read_exact(&mut self, buf: &mut [u8]) -> io::Result<()> {
        log!("read_exact {}", buf.len());
        let k = amount(buf.len())?;
        fill(&mut self.n, buf, k);
        outcome()
    }
}
impl<const K: usize> Write for Full<K> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        write_impl(buf)
    }
    fn flush(&mut self) -> io::Result<()> {
        flush_impl()
    }
    fn write_vectored(&mut self, bufs: &[IoSlice<'_>]) -> io::Result<usize> {
        log!("write_vectored {:?}", bufs.iter().map(|b| b.to_vec()).collect::<Vec<_>>());
        amount(bufs.iter().map(|b| b.len()).sum())
    }
    fn write_all(&mut self, buf: &[u8]) -> io::Result<()> {
        log!("write_all {buf:?}");
        outcome()
    }
    fn write_fmt(&mut self, a: std::fmt::Arguments<'_>) -> io::Result<()> {
        log!("write_fmt {a}");
        outcome()
    }
}
impl<const K: usize> Seek for Full<K> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        seek_impl(p)
    }
}
impl<const K: usize> BufRead for Full<K> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        fill_buf_impl(self.pos)
    }
    fn consume(&mut self, n: usize) {
        log!("consume {n}");
        self.pos += n;
    }
    fn read_until(&mut self, byte: u8, buf: &mut Vec<u8>) -> io::Result<usize> {
        log!("read_until {byte} {buf:?}");
        let k = amount(2)?;
        buf.extend((0..k).map(|_| byte));
        outcome()?;
        Ok(k + 10)
    }
    fn read_line(&mut self, buf: &mut String) -> io::Result<usize> {
        log!("read_line {buf:?}");
        let k = amount(2)?;
        buf.push_str(&"z\n"[..k]);
        outcome()?;
        Ok(k + 20)
    }
}

mod rw {
    use super::*;
    enums!(BufRead, Write, Seek);

    fn hist<T: BufRead + Write + Seek>(mut t: T, depth: usize) {
        for _ in 0..depth {
            op(&mut t);
        }
        log!("end");
    }
    fn op<T: BufRead + Write + Seek>(t: &mut T) {
        match pick(26) {
            0 => {
                let mut b = *b"....";
                let r = t.read(&mut b[..3]);
                log!("read -> {r:?} {b:?}");
            }
            1 => {
                let r = t.read(&mut []);
                log!("read empty -> {r:?}");
            }
            2 => {
                let (mut a, mut b, mut c) = (*b"..", [0u8; 0], *b"..");
                let r = t.read_vectored(&mut [IoSliceMut::new(&mut a), IoSliceMut::new(&mut b), IoSliceMut::new(&mut c)]);
                log!("read_vectored -> {r:?} {a:?} {c:?}");
            }
            3 => {
                let mut v = b"pre".to_vec();
                let r = t.read_to_end(&mut v);
                log!("read_to_end -> {r:?} {v:?}");
            }
            4 => {
                let mut v = String::from("pre");
                let r = t.read_to_string(&mut v);
                log!("read_to_string -> {r:?} {v:?}");
            }
            5 => {
                let mut b = *b"....";
                let r = t.read_exact(&mut b[1..3]);
                log!("read_exact -> {r:?} {b:?}");
            }
            6 => {
                let mut v = vec![];
                let r = Read::by_ref(t).take(2).read_to_end(&mut v);
                log!("take.read_to_end -> {r:?} {v:?}");
            }
            7 => log!("bytes.next -> {:?}", Read::by_ref(t).bytes().next()),
            8 => {
                let mut v = vec![];
                let r = Read::by_ref(t).chain(&b"Q"[..]).read_to_end(&mut v);
                log!("chain -> {r:?} {v:?}");
            }
            9 => log!("write -> {:?}", t.write(b"12")),
            10 => log!("write_vectored -> {:?}", t.write_vectored(&[IoSlice::new(b"1"), IoSlice::new(b""), IoSlice::new(b"23")])),
            11 => log!("flush -> {:?}", t.flush()),
            12 => log!("write_all -> {:?}", t.write_all(b"456")),
            13 => log!("write_fmt -> {:?}", write!(t, "a{}b{:>3}", 1, "c")),
            14 => log!("writeln -> {:?}", writeln!(t)),
            15 => log!("seek -> {:?}", t.seek(SeekFrom::Start(3))),
            16 => log!("seek -> {:?}", t.seek(SeekFrom::End(-2))),
            17 => log!("seek -> {:?}", t.seek(SeekFrom::Current(i64::MIN))),
            18 => log!("rewind -> {:?}", t.rewind()),
            19 => log!("stream_position -> {:?}", t.stream_position()),
            20 => {
                let r = t.fill_buf().map(|b| b.to_vec());
                log!("fill_buf -> {r:?}");
            }
            21 => {
                t.consume(pick(3));
            }
            22 => {
                let mut v = b"pre".to_vec();
                let r = t.read_until(b'\n', &mut v);
                log!("read_until -> {r:?} {v:?}");
            }
            23 => {
                let mut v = String::from("pre");
                let r = t.read_line(&mut v);
                log!("read_line -> {r:?} {v:?}");
            }
            24 => log!("lines.next -> {:?}", t.by_ref_lines()),
            _ => log!("copy -> {:?}", io::copy(t, &mut io::sink())),
        }
    }
    trait Lines: BufRead {
        fn by_ref_lines(&mut self) -> Option<io::Result<String>> {
            self.lines_of().next()
        }
        fn lines_of(&mut self) -> io::Lines<&mut Self> {
            self.lines()
        }
    }
    impl<T: BufRead> Lines for T {}

    fn h1<T: BufRead + Write + Seek>(t: T) { hist(t, 1) }
    fn h2<T: BufRead + Write + Seek>(t: T) { hist(t, 2) }
    fn h3<T: BufRead + Write + Seek>(t: T) { hist(t, 3) }

    pub fn part(s: &mut Session) {
        s.part("specializing field, depth 1", &|| h1(full::<0>()), all_suts!(h1, Full, full));
        s.part("minimal field, depth 1", &|| h1(min::<0>()), all_suts!(h1, Min, min));
        let h = s.d(3, 4);
        s.part_h("specializing field, depth 2", h, &|| h2(full::<0>()), all_suts!(h2, Full, full));
        s.part_h("minimal field, depth 2", h, &|| h2(min::<0>()), all_suts!(h2, Min, min));
        let h = s.d(2, 3);
        s.part_h("specializing field, depth 3", h, &|| h3(full::<0>()), few_suts!(h3, Full, full));
        s.part_h("minimal field, depth 3", h, &|| h3(min::<0>()), few_suts!(h3, Min, min));
    }
}

/// Each trait alone, under both spellings, with concrete field types.
mod alone {
    use super::*;
    macro_rules! two {
        ($m:ident: $tr:path, $a:path, $b:path, $body:expr) => {
            pub mod $m {
                use super::*;
                #[auto_enums::enum_derive($a)]
                enum P<A, B> { A(A), B(B) }
                #[auto_enums::enum_derive($b)]
                enum Q { A(Full<3>), B(Full<4>), C(Full<5>) }
                fn go<T: $tr>(mut t: T) {
                    let f: fn(&mut T) = $body;
                    for _ in 0..2 {
                        f(&mut t);
                    }
                }
                pub fn part(s: &mut Session) {
                    s.part(stringify!($m), &|| go(full::<0>()), &[
                        ("P::A", &|| go(P::<Full<0>, Full<1>>::A(full()))),
                        ("P::B", &|| go(P::<Full<0>, Full<1>>::B(full()))),
                        ("Q::A", &|| go(Q::A(full()))),
                        ("Q::B", &|| go(Q::B(full()))),
                        ("Q::C", &|| go(Q::C(full()))),
                    ]);
                }
            }
        };
    }
    two!(read_only: Read, Read, io::Read, |t| {
        let mut v = vec![];
        log!("{:?} {v:?}", if pick(2) == 0 { t.read_to_end(&mut v) } else { let mut b = [0; 2]; t.read(&mut b) });
    });
    two!(write_only: Write, Write, io::Write, |t| {
        log!("{:?}", if pick(2) == 0 { t.write_all(b"w") } else { t.write(b"xy").map(|_| ()) });
    });
    two!(seek_only: Seek, Seek, io::Seek, |t| log!("{:?}", t.seek(SeekFrom::Start(pick(2) as u64))));
    two!(bufread_only: BufRead, BufRead, io::BufRead, |t| {
        let mut v = String::new();
        if pick(2) == 0 {
            log!("{:?} {v:?}", t.read_line(&mut v));
        } else {
            let n = t.fill_buf().map_or(0, |b| b.len());
            t.consume(n);
        }
    });
    pub fn all(s: &mut Session) {
        read_only::part(s);
        write_only::part(s);
        seek_only::part(s);
        bufread_only::part(s);
    }
}

fn main() {
    let mut s = Session::new(5, 7);
    alone::all(&mut s);
    rw::part(&mut s);
    s.finish();
}
