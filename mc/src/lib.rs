//! Stateless exhaustive explorer for derived implementations.
//!
//! A harness is a function that performs a history of operations on a value and logs everything
//! observable. All nondeterminism goes through `pick` (which operation the user performs next) and
//! `answer` (what the environment -- the field, a callback, a writer -- does). The explorer runs the
//! harness on the bare field (the specification) and, with the same choices, on every
//! (enum, active variant), and compares the complete logs. It backtracks over all choices, so every
//! history up to the depth and every environment behaviour up to the horizon is executed.
pub mod pinned;
mod shapes;
pub mod poll;

use std::cell::RefCell;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Default)]
struct Tl {
    path: Vec<(u16, u16)>,
    pos: usize,
    answers: usize,
    horizon: usize,
    cut: bool,
    replay: bool,
    diverged: Option<String>,
    log: String,
    next_id: u32,
    live: i64,
    muted: bool,
    steps: u64,
    stash: Vec<usize>,
}

thread_local!(static TL: RefCell<Tl> = RefCell::new(Tl::default()));

fn with<R>(f: impl FnOnce(&mut Tl) -> R) -> R {
    TL.with(|t| f(&mut t.borrow_mut()))
}

fn choose(n: usize) -> usize {
    assert!(n > 0);
    with(|t| {
        t.steps += 1;
        let i = t.pos;
        t.pos += 1;
        if i < t.path.len() {
            let (c, m) = t.path[i];
            if m as usize != n && t.diverged.is_none() {
                t.diverged = Some(format!("choice {i}: {n} alternatives instead of {m}"));
            }
            return (c as usize).min(n - 1);
        }
        if t.replay {
            if t.diverged.is_none() {
                t.diverged = Some(format!("choice {i}: additional environment interaction"));
            }
            return 0;
        }
        t.path.push((0, n as u16));
        0
    })
}

/// A choice of the user of the value: which operation, which argument.
pub fn pick(n: usize) -> usize {
    choose(n)
}

/// A choice of the environment. After the horizon the environment always answers 0.
pub fn answer(n: usize) -> usize {
    if with(|t| {
        t.answers += 1;
        if t.answers > t.horizon {
            t.cut = true;
            true
        } else {
            false
        }
    }) {
        return 0;
    }
    choose(n)
}

pub fn flag() -> bool {
    answer(2) == 1
}

pub fn log(a: std::fmt::Arguments<'_>) {
    with(|t| {
        if !t.muted {
            let _ = t.log.write_fmt(a);
            t.log.push('\n');
        }
    })
}

#[macro_export]
macro_rules! log {
    ($($t:tt)*) => { $crate::log(format_args!($($t)*)) };
}

pub fn fresh() -> u32 {
    with(|t| {
        t.next_id += 1;
        t.next_id
    })
}

/// A payload whose moves can be counted: creation, drop (exactly once) are logged.
#[derive(PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Item(pub u32);
impl Item {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        with(|t| t.live += 1);
        Item(fresh())
    }
}
impl Drop for Item {
    fn drop(&mut self) {
        with(|t| t.live -= 1);
        log!("drop #{}", self.0);
    }
}
impl std::fmt::Debug for Item {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "#{}", self.0)
    }
}

/// Remember an address handed out by the field ...
pub fn stash<T: ?Sized>(p: *const T) {
    with(|t| t.stash.push(p as *const () as usize));
}
/// ... and compare what arrived at the user: is it the address handed out last?
pub fn is_stashed<T: ?Sized>(p: *const T) -> bool {
    with(|t| t.stash.last() == Some(&(p as *const () as usize)))
}

/// Part of every mock field: logs the drop of the field.
pub struct Life(());
impl Life {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        with(|t| t.live += 1);
        Life(())
    }
}
impl Drop for Life {
    fn drop(&mut self) {
        with(|t| t.live -= 1);
        log!("drop field");
    }
}

/// Address identity: logs whether the address is the one seen first under this key.
#[derive(Default)]
pub struct Addr(std::cell::Cell<usize>);
impl Addr {
    pub const fn new() -> Self {
        Addr(std::cell::Cell::new(0))
    }
    /// true while every call sees the same address
    pub fn same<T: ?Sized>(&self, p: *const T) -> bool {
        let p = p as *const () as usize;
        if self.0.get() == 0 {
            self.0.set(p);
        }
        self.0.get() == p
    }
}

pub struct Config {
    pub horizon: usize,
    pub secs: f64,
    pub thorough: bool,
}

struct Run {
    log: String,
    diverged: Option<String>,
}

fn run(f: &dyn Fn(), horizon: usize, replay: bool) -> Run {
    with(|t| {
        t.pos = 0;
        t.answers = 0;
        t.horizon = horizon;
        t.replay = replay;
        t.diverged = None;
        t.log.clear();
        t.next_id = 0;
        t.live = 0;
        t.muted = false;
        t.stash.clear();
    });
    let r = catch_unwind(AssertUnwindSafe(f));
    if let Err(e) = r {
        let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned()).unwrap_or_else(|| "?".into());
        log!("panicked: {m}");
    }
    with(|t| {
        if t.live != 0 {
            let l = t.live;
            let _ = writeln!(t.log, "leaked or double-dropped: {l}");
        }
        if replay && t.pos < t.path.len() && t.diverged.is_none() {
            t.diverged = Some(format!("only {} of {} choices consumed", t.pos, t.path.len()));
        }
        Run { log: std::mem::take(&mut t.log), diverged: t.diverged.take() }
    })
}

pub struct Session {
    pub cfg: Config,
    t0: Instant,
    execs: u64,
    steps: u64,
    runs: u64,
    complete: bool,
    horizon_hit: bool,
    viol: Vec<String>,
    nviol: u64,
    parts: Vec<String>,
    samples: Vec<String>,
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub type Sut<'a> = (&'a str, &'a (dyn Fn() + Sync));

impl Session {
    /// args: quick|thorough [horizon] [secs]
    pub fn new(quick_horizon: usize, thorough_horizon: usize) -> Self {
        std::panic::set_hook(Box::new(|_| {}));
        let a: Vec<String> = std::env::args().collect();
        let thorough = a.get(1).map_or(false, |s| s == "thorough");
        let horizon = if thorough { thorough_horizon } else { quick_horizon };
        let secs = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(if thorough { 600.0 } else { 100.0 });
        Session {
            cfg: Config { horizon, secs, thorough },
            t0: Instant::now(),
            execs: 0,
            steps: 0,
            runs: 0,
            complete: true,
            horizon_hit: false,
            viol: vec![],
            nviol: 0,
            parts: vec![],
            samples: vec![],
        }
    }

    /// depth by tier
    pub fn d(&self, quick: usize, thorough: usize) -> usize {
        if self.cfg.thorough { thorough } else { quick }
    }

    /// Explore all executions of `spec`, replaying each on every `suts`.
    pub fn part(&mut self, name: &str, spec: &(dyn Fn() + Sync), suts: &[Sut<'_>]) {
        let h = self.cfg.horizon;
        self.part_h(name, h, spec, suts)
    }

    pub fn part_h(&mut self, name: &str, horizon: usize, spec: &(dyn Fn() + Sync), suts: &[Sut<'_>]) {
        // root expansion: one work item per value of the first two choices
        let roots = Mutex::new(prefixes(spec, horizon));
        let t0 = self.t0;
        let secs = self.cfg.secs;
        let stop = AtomicBool::new(false);
        let out = Mutex::new((0u64, 0u64, 0u64, true, false, Vec::<String>::new(), 0u64, Vec::<String>::new()));
        let nthreads = std::thread::available_parallelism().map_or(4, |n| n.get()).min(8);
        std::thread::scope(|s| {
            for _ in 0..nthreads {
                s.spawn(|| {
                    let (mut execs, mut runs, mut steps, mut complete, mut cut) = (0u64, 0u64, 0u64, true, false);
                    let mut viol = vec![];
                    let mut nviol = 0u64;
                    let mut samples = vec![];
                    loop {
                        let Some(prefix) = roots.lock().unwrap().pop() else { break };
                        
                        let fixed = prefix.len();
                        with(|t| {
                            t.path = prefix;
                            t.cut = false;
                            t.steps = 0;
                        });
                        loop {
                            if stop.load(Ordering::Relaxed) || (execs % 64 == 0 && t0.elapsed().as_secs_f64() > secs) {
                                complete = false;
                                break;
                            }
                            let a = run(spec, horizon, false);
                            execs += 1;
                            if a.log.contains("leaked or double-dropped") {
                                panic_out(&format!("harness {name}: the reference run leaks: {}", a.log));
                            }
                            if samples.is_empty() && with(|t| t.path.len()) > 4 {
                                samples.push(a.log.clone());
                            }
                            for (sn, sut) in suts {
                                let b = run(*sut, horizon, true);
                                runs += 1;
                                if b.log != a.log || b.diverged.is_some() {
                                    nviol += 1;
                                    if viol.len() < 3 {
                                        let (d, i) = first_diff(&a.log, &b.log);
                                        viol.push(format!(
                                            "{{\"part\":{},\"sut\":{},\"choices\":{},\"first_difference\":{},\"diverged\":{},\"field\":{},\"enum\":{}}}",
                                            esc(name),
                                            esc(sn),
                                            esc(&with(|t| t.path.iter().map(|c| c.0.to_string()).collect::<Vec<_>>().join(","))),
                                            esc(&format!("event {i}: {d}")),
                                            esc(&b.diverged.clone().unwrap_or_default()),
                                            esc(&clip(&a.log)),
                                            esc(&clip(&b.log)),
                                        ));
                                    }
                                    if nviol > 200 {
                                        stop.store(true, Ordering::Relaxed);
                                    }
                                }
                            }
                            // backtrack
                            let more = with(|t| {
                                while t.path.len() > fixed {
                                    let l = t.path.len() - 1;
                                    let (c, n) = t.path[l];
                                    if c + 1 < n {
                                        t.path[l].0 = c + 1;
                                        return true;
                                    }
                                    t.path.pop();
                                }
                                false
                            });
                            if !more {
                                break;
                            }
                        }
                        with(|t| {
                            steps += t.steps;
                            cut |= t.cut;
                        });
                    }
                    let mut o = out.lock().unwrap();
                    o.0 += execs;
                    o.1 += runs;
                    o.2 += steps;
                    o.3 &= complete;
                    o.4 |= cut;
                    o.5.extend(viol);
                    o.6 += nviol;
                    o.7.extend(samples);
                });
            }
        });
        let (execs, runs, steps, complete, cut, viol, nviol, samples) = out.into_inner().unwrap();
        self.execs += execs;
        self.runs += runs;
        self.steps += steps;
        self.complete &= complete;
        self.horizon_hit |= cut;
        self.nviol += nviol;
        self.viol.extend(viol.into_iter().take(4));
        if let Some(s) = samples.into_iter().next() {
            if self.samples.len() < 6 {
                self.samples.push(format!("{name}: {}", clip(&s).replace('\n', " | ")));
            }
        }
        self.parts.push(format!(
            "{{\"part\":{},\"executions\":{execs},\"replays_on_enums\":{runs},\"choices\":{steps},\"suts\":{},\"complete\":{complete},\"horizon\":{horizon},\"horizon_reached\":{cut},\"violations\":{nviol}}}",
            esc(name),
            suts.len()
        ));
    }

    /// An additional fact decided by the harness itself.
    pub fn fact(&mut self, name: &str, ok: bool, detail: String) {
        self.execs += 1;
        if !ok {
            self.nviol += 1;
            self.viol.push(format!("{{\"part\":{},\"sut\":\"\",\"choices\":\"\",\"first_difference\":{}}}", esc(name), esc(&detail)));
        }
    }

    pub fn finish(self) {
        println!(
            "RESULT {{\"executions\":{},\"replays\":{},\"choices\":{},\"complete\":{},\"horizon\":{},\"nviolations\":{},\"violations\":[{}],\"parts\":[{}],\"samples\":[{}],\"secs\":{:.2}}}",
            self.execs,
            self.runs,
            self.steps,
            self.complete,
            self.cfg.horizon,
            self.nviol,
            self.viol.join(","),
            self.parts.join(","),
            self.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","),
            self.t0.elapsed().as_secs_f64()
        );
    }
}

fn panic_out(m: &str) -> ! {
    println!("BROKEN {}", m.replace('\n', " | "));
    std::process::exit(3);
}

fn clip(s: &str) -> String {
    if s.len() > 1500 {
        let mut i = 1500;
        while !s.is_char_boundary(i) {
            i -= 1;
        }
        format!("{}...", &s[..i])
    } else {
        s.to_string()
    }
}

fn first_diff(a: &str, b: &str) -> (String, usize) {
    let mut x = a.lines();
    let mut y = b.lines();
    let mut i = 0;
    loop {
        let (p, q) = (x.next(), y.next());
        if p.is_none() && q.is_none() {
            return ("(logs equal)".into(), i);
        }
        if p != q {
            return (format!("field: {} / enum: {}", p.unwrap_or("(end)"), q.unwrap_or("(end)")), i);
        }
        i += 1;
    }
}

/// All prefixes of length <= 2 that partition the choice tree.
fn prefixes(spec: &dyn Fn(), horizon: usize) -> Vec<Vec<(u16, u16)>> {
    fn ext(spec: &dyn Fn(), horizon: usize, p: Vec<(u16, u16)>, depth: usize, out: &mut Vec<Vec<(u16, u16)>>) {
        let k = p.len();
        with(|t| t.path = p.clone());
        run(spec, horizon, false);
        let path = with(|t| t.path.clone());
        if path.len() == k || depth == 0 {
            out.push(p);
            return;
        }
        let n = path[k].1;
        for c in 0..n {
            let mut q = p.clone();
            q.push((c, n));
            ext(spec, horizon, q, depth - 1, out);
        }
    }
    let mut out = vec![];
    ext(spec, horizon, vec![], 2, &mut out);
    out.reverse();
    out
}

/// `suts!(f, E1::A(x0), E2::A(x0), E2::B(x1), ...)`: list of (name, closure) pairs.
#[macro_export]
macro_rules! suts {
    ($f:expr; $($e:expr),+ $(,)?) => {
        &[$((stringify!($e), &(|| $f($e)) as &(dyn Fn() + Sync))),+]
    };
}
