//! Case driver: deterministic random numbers, panic and hang capture, reporting.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use crate::raw::*;
use cbm::disk::{self, Disk, DiskError};

thread_local! { pub static LAST_PANIC: RefCell<String> = RefCell::new(String::new()); }

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(a: u64, b: u64) -> Rng {
        let mut r = Rng(a.wrapping_mul(0x9E3779B97F4A7C15) ^ b.wrapping_mul(0xD1B54A32D192ED03) ^ 0x5555);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn byte(&mut self) -> u8 {
        self.next() as u8
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.next().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

pub type R = Result<(), String>;

#[macro_export]
macro_rules! ck {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub scale: f64,
    pub scratch: String,
    only: Option<u64>,
    case: u64,
    started: Instant,
    pub stats: BTreeMap<String, u64>,
    failures: Vec<(u64, String, String)>,
    pub notes: Vec<String>,
    watch: Arc<(AtomicU64, Mutex<String>)>,
}

impl Ctx {
    pub fn new(prop: String, seed: u64, scale: f64, scratch: String, only: Option<u64>) -> Ctx {
        let watch = Arc::new((AtomicU64::new(0), Mutex::new(String::new())));
        let w = watch.clone();
        let p = prop.clone();
        // Watchdog: a case that makes no progress for 60 s is a hang.
        std::thread::spawn(move || {
            let mut last = (0, Instant::now());
            loop {
                std::thread::sleep(Duration::from_millis(500));
                let v = w.0.load(Ordering::Relaxed);
                if v != last.0 {
                    last = (v, Instant::now());
                } else if last.1.elapsed() > Duration::from_secs(60) {
                    let d = w.1.lock().unwrap().clone();
                    println!("FAIL {} {{\"case\":{},\"what\":{},\"message\":\"operation did not return within 60 s\"}}", p, v / 1000, json(&d));
                    println!("DONE {{\"property\":\"{}\",\"cases\":{},\"failures\":1,\"hang\":true}}", p, v / 1000);
                    use std::io::Write;
                    std::io::stdout().flush().unwrap();
                    std::process::exit(1);
                }
            }
        });
        Ctx { prop, seed, scale, scratch, only, case: 0, started: Instant::now(), stats: BTreeMap::new(), failures: vec![], notes: vec![], watch }
    }
    pub fn n(&self, base: usize) -> usize {
        ((base as f64 * self.scale) as usize).max(1)
    }
    pub fn stat(&mut self, k: &str, n: u64) {
        *self.stats.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn wants(&self, p: &str) -> bool {
        self.prop == p
    }
    pub fn path(&self, name: &str) -> String {
        format!("{}/{}", self.scratch, name)
    }
    /// Run one case.  A returned error or a panic is a failure of the property.
    pub fn case<F: FnOnce(&mut Ctx, &mut Rng) -> R>(&mut self, what: &str, f: F) {
        self.case += 1;
        let id = self.case;
        if let Some(o) = self.only {
            if o != id {
                return;
            }
        }
        if self.failures.len() >= 5 {
            return;
        }
        self.watch.0.store(id * 1000, Ordering::Relaxed);
        *self.watch.1.lock().unwrap() = what.to_string();
        let mut rng = Rng::new(self.seed, id);
        let this = &mut *self;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || f(this, &mut rng)));
        self.stat("cases", 1);
        match r {
            Ok(Ok(())) => {}
            Ok(Err(m)) => self.failures.push((id, what.to_string(), m)),
            Err(_) => {
                let m = LAST_PANIC.with(|p| p.borrow().clone());
                self.failures.push((id, what.to_string(), format!("panic: {}", m)));
            }
        }
    }
    pub fn tick(&mut self) {
        self.watch.0.fetch_add(1, Ordering::Relaxed);
    }
    pub fn finish(self) {
        for (id, what, m) in &self.failures {
            println!("FAIL {} {{\"case\":{},\"what\":{},\"message\":{}}}", self.prop, id, json(what), json(m));
        }
        for n in &self.notes {
            println!("NOTE {}", n);
        }
        let st: Vec<String> = self.stats.iter().map(|(k, v)| format!("{}:{}", json(k), v)).collect();
        println!(
            "DONE {{\"property\":\"{}\",\"seed\":{},\"failures\":{},\"wall_s\":{:.2},\"stats\":{{{}}}}}",
            self.prop,
            self.seed,
            self.failures.len(),
            self.started.elapsed().as_secs_f64(),
            st.join(",")
        );
        std::process::exit(if self.failures.is_empty() { 0 } else { 1 });
    }
}

pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// The library's error, or None for other I/O errors.
pub fn derr(e: &std::io::Error) -> Option<DiskError> {
    DiskError::from_io_error(e)
}

pub fn save(path: &str, img: &Img) {
    std::fs::write(path, &img.b).unwrap();
}
pub fn load(path: &str, k: Kind) -> Img {
    Img { k, b: std::fs::read(path).unwrap() }
}
pub fn open(path: &str, w: bool) -> Result<Box<dyn Disk>, String> {
    disk::open(path, w).map_err(|e| format!("open {}: {}", path, e))
}

/// A value of the crate's (unnameable) sector address type.
#[macro_export]
macro_rules! loc {
    ($d:expr, $l:expr) => {{
        let l: (u8, u8) = $l;
        let mut x = $d.native_disk_format().first_directory_location();
        x.0 = l.0;
        x.1 = l.1;
        x
    }};
}
