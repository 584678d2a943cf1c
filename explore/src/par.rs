//! Parallel enumeration of an indexed universe with violation collection and a hang watch.
use std::{
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc, Mutex,
    },
    time::{Duration, Instant},
};

use crate::esc;

#[derive(Default)]
pub struct Acc {
    pub states: u64,
    pub transitions: u64,
    pub accepted: u64,
    pub rejected: u64,
    pub digest: u64,
    pub viol: Vec<(String, String)>,
    pub nviol: u64,
    pub samples: Vec<String>,
}

impl Acc {
    pub fn bad(&mut self, program: impl Into<String>, why: impl Into<String>) {
        self.nviol += 1;
        if self.viol.len() < 50 {
            self.viol.push((program.into(), why.into()));
        }
    }
    fn merge(&mut self, o: Acc) {
        self.states += o.states;
        self.transitions += o.transitions;
        self.accepted += o.accepted;
        self.rejected += o.rejected;
        self.digest = self.digest.wrapping_add(o.digest);
        self.nviol += o.nviol;
        self.viol.extend(o.viol);
        self.viol.sort_by_key(|v| (v.0.len(), v.0.clone()));
        self.viol.truncate(20);
        self.samples.extend(o.samples);
        self.samples.truncate(3);
    }
    pub fn json(&self, name: &str, complete: bool, secs: f64) -> String {
        let list: Vec<String> = self
            .viol
            .iter()
            .map(|(a, b)| format!("{{\"program\":{},\"why\":{}}}", esc(a), esc(b)))
            .collect();
        format!(
            "{{\"part\":{},\"complete\":{complete},\"states\":{},\"transitions\":{},\"accepted\":{},\"rejected\":{},\"digest\":{},\"nviolations\":{},\"violations\":[{}],\"samples\":[{}],\"secs\":{secs:.2}}}",
            esc(name),
            self.states,
            self.transitions,
            self.accepted,
            self.rejected,
            self.digest >> 12,
            self.nviol,
            list.join(","),
            self.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",")
        )
    }
}

/// what each worker is working on
#[derive(Clone)]
pub struct Now(Arc<Mutex<Option<(Instant, String)>>>);
impl Now {
    pub fn set(&self, s: &str) {
        *self.0.lock().unwrap() = Some((Instant::now(), s.to_string()));
    }
}

/// Calls `f(i)` for every i < n; returns whether all were done before the deadline.
pub fn par(name: &str, n: u64, secs: u64, f: impl Fn(u64, &mut Acc, &Now) + Send + Sync) -> (Acc, bool) {
    let t0 = Instant::now();
    let next = AtomicU64::new(0);
    let done = AtomicU64::new(0);
    let total = Mutex::new(Acc::default());
    let threads = 8;
    let nows: Vec<Now> = (0..threads).map(|_| Now(Arc::default())).collect();
    let watch = nows.clone();
    let stop = Arc::new(AtomicU64::new(0));
    let (stop2, name2) = (stop.clone(), name.to_string());
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_secs(1));
        if stop2.load(Ordering::Relaxed) == 1 {
            return;
        }
        for c in &watch {
            if let Some((t, p)) = &*c.0.lock().unwrap() {
                if t.elapsed() > Duration::from_secs(60) {
                    let mut a = Acc::default();
                    a.states = 1;
                    a.bad(p.clone(), "the macro does not terminate");
                    println!("{}", a.json(&name2, false, 60.0));
                    std::process::exit(0);
                }
            }
        }
    });
    let chunk = (n / 4096).clamp(1, 512);
    std::thread::scope(|s| {
        for now in &nows {
            let (next, done, total, f) = (&next, &done, &total, &f);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    let mut acc = Acc::default();
                    loop {
                        let a = next.fetch_add(chunk, Ordering::Relaxed);
                        if a >= n || t0.elapsed() > Duration::from_secs(secs) {
                            break;
                        }
                        for i in a..(a + chunk).min(n) {
                            f(i, &mut acc, now);
                            done.fetch_add(1, Ordering::Relaxed);
                        }
                    }
                    *now.0.lock().unwrap() = None;
                    total.lock().unwrap().merge(acc);
                })
                .unwrap();
        }
    });
    stop.store(1, Ordering::Relaxed);
    (total.into_inner().unwrap(), done.into_inner() == n)
}

pub fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}
