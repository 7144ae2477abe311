//! Case loop: deterministic cases, panics are failures, the current case is on disk so that a
//! hang or an abort can be attributed.
use crate::rings::Rng;
use std::io::{Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

pub struct Run {
    pub property: String,
    pub seed: u64,
    pub scale: f64,
    pub only: Option<(String, u64)>,
    pub cases: u64,
    pub distinct: std::collections::HashSet<u64>,
    pub groups: Vec<(String, u64)>,
    pub fails: Vec<String>,
    pub start: Instant,
    pub budget: f64,
    pub out_of_time: u64,
    progress: Option<std::fs::File>,
}

fn hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

pub type R = Result<(), String>;

#[macro_export]
macro_rules! chk {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
#[macro_export]
macro_rules! chk_eq {
    ($l:expr, $r:expr, $($a:tt)*) => {{
        let (l, r) = (&$l, &$r);
        if !(l == r) { return Err(format!("{}: expected {:?}, got {:?}", format!($($a)*), r, l)); }
    }};
}

impl Run {
    /// args: PROPERTY.. --seed N --scale X --budget SECONDS --progress FILE [--case GROUP ITER]
    pub fn from_args(property: &str) -> Run {
        let a: Vec<String> = std::env::args().collect();
        let get = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
        std::panic::set_hook(Box::new(|_| {}));
        Run {
            property: property.into(),
            seed: get("--seed").and_then(|x| x.parse().ok()).unwrap_or(0),
            scale: get("--scale").and_then(|x| x.parse().ok()).unwrap_or(1.0),
            budget: get("--budget").and_then(|x| x.parse().ok()).unwrap_or(1e9),
            only: a.iter().position(|x| x == "--case").map(|i| (a[i + 1].clone(), a[i + 2].parse().unwrap_or(0))),
            cases: 0,
            distinct: Default::default(),
            groups: vec![],
            fails: vec![],
            start: Instant::now(),
            out_of_time: 0,
            progress: get("--progress").and_then(|p| std::fs::File::create(p).ok()),
        }
    }
    fn note(&mut self, g: &str, i: u64) {
        if let Some(f) = &mut self.progress {
            let _ = f.seek(SeekFrom::Start(0));
            let line = format!("{g} {i}");
            let _ = f.write_all(format!("{line:<400}\n").as_bytes());
        }
    }
    /// run `iters` cases of one group
    pub fn group(&mut self, name: &str, iters: u64, mut f: impl FnMut(&mut Rng, u64) -> R) {
        let n = if iters <= 1 { iters } else { ((iters as f64 * self.scale).ceil() as u64).max(1) };
        let mut done = 0;
        for i in 0..n {
            if let Some((g, k)) = &self.only {
                if g != name || *k != i {
                    continue;
                }
            } else if self.start.elapsed().as_secs_f64() > self.budget && done > 0 {
                self.out_of_time += 1;
                break;
            }
            self.note(name, i);
            let mut r = Rng::new(self.seed ^ hash(name) ^ i.wrapping_mul(0x1234_5678_9ABC_DEF1));
            let start = r.0;
            let res = catch_unwind(AssertUnwindSafe(|| f(&mut r, i)));
            done += 1;
            // distinct: the draws made differ; non-trivial: operands were drawn or a finite set was enumerated
            if r.0 != start || n <= 1 {
                self.distinct.insert(r.0 ^ hash(name));
            }
            let err = match res {
                Ok(Ok(())) => continue,
                Ok(Err(e)) => e,
                Err(p) => {
                    let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    format!("panic: {m}")
                }
            };
            let mut e = err;
            if e.len() > 1500 {
                let mut k = 1500;
                while !e.is_char_boundary(k) {
                    k -= 1;
                }
                e.truncate(k);
            }
            println!("FAIL property={} case={} iter={} :: {}", self.property, name, i, e.replace('\n', " "));
            self.fails.push(name.to_string());
            if self.fails.len() >= 5 {
                self.finish();
            }
            break;
        }
        self.cases += done;
        self.groups.push((name.to_string(), done));
    }
    pub fn finish(&mut self) -> ! {
        println!(
            "DONE property={} cases={} distinct={} groups={} failed={} cut={} wall={:.1}",
            self.property,
            self.cases,
            self.distinct.len(),
            self.groups.len(),
            self.fails.len(),
            self.out_of_time,
            self.start.elapsed().as_secs_f64()
        );
        let step = (self.groups.len() / 8).max(1);
        for (g, n) in self.groups.iter().step_by(step) {
            println!("SAMPLE {g} x{n}");
        }
        std::process::exit(if self.fails.is_empty() { 0 } else { 1 });
    }
}
