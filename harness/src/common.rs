use chrono::{Datelike, NaiveDate};
use serde_json::Value;
use std::fs::File;
use std::io::{BufWriter, Write};
use std::sync::Mutex;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::panic::{AssertUnwindSafe, catch_unwind};

/// A panic of the code under test is an observation, not a failure of the harness.
pub fn quiet_panics() {
    if std::env::var_os("FQ_PANICS").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
}

/// Runs a call; None when it panicked.
pub fn guard<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

/// Days since 0000-12-31: the specification's date serial.
pub fn ser(d: NaiveDate) -> i32 {
    d.num_days_from_ce()
}

pub fn date(s: i32) -> NaiveDate {
    NaiveDate::from_num_days_from_ce_opt(s).expect("date serial in range")
}

pub fn ymd(y: i32, m: u32, d: u32) -> NaiveDate {
    NaiveDate::from_ymd_opt(y, m, d).expect("valid date")
}

/// One JSON object per line.
pub struct Out {
    w: Box<dyn Write + Send>,
    pub n: usize,
}

impl Out {
    pub fn new(path: &str) -> Self {
        Out { w: Box::new(BufWriter::new(File::create(path).expect("create trace"))), n: 0 }
    }
    pub fn put(&mut self, v: Value) {
        self.n += 1;
        writeln!(self.w, "{v}").expect("write trace");
    }
    /// The jobs 1 to n, each with its own numbers, on all processors; what
    /// they record is in the order of the jobs.
    pub fn jobs(&mut self, seed: u64, n: usize, job: impl Fn(&mut Rng) -> Vec<Value> + Sync) {
        let next = AtomicUsize::new(0);
        let done: Vec<Mutex<Vec<Value>>> = (0..n).map(|_| Mutex::new(vec![])).collect();
        std::thread::scope(|s| {
            for _ in 0..std::thread::available_parallelism().map_or(4, |p| p.get()) {
                s.spawn(|| loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= n {
                        break;
                    }
                    *done[i].lock().unwrap() = job(&mut Rng(Rng(seed ^ (i as u64).wrapping_mul(0xD134_2543_DE82_EF95)).next()));
                });
            }
        });
        for v in done {
            for r in v.into_inner().unwrap() {
                self.put(r);
            }
        }
    }
}

/// Deterministic generator (SplitMix64): the harness needs no crate for it.
pub struct Rng(pub u64);

impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn real(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.unit()
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
}

pub fn days_in_month(y: i32, m: u32) -> u32 {
    (28..=31).rev().find(|d| NaiveDate::from_ymd_opt(y, m, *d).is_some()).unwrap()
}

/// Arguments common to every recorder: the seed, and whether to go deep.
pub fn seed_deep(args: &[String]) -> (u64, bool) {
    let seed = args.first().and_then(|s| s.parse().ok()).unwrap_or(1);
    (seed, args.get(1).map(String::as_str) == Some("thorough"))
}

/// A real number as the specification reads it: its shortest decimal form.
pub fn num(x: Option<f64>) -> String {
    match x {
        None => "panic".into(),
        Some(v) => format!("{v:?}"),
    }
}
