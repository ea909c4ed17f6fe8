//! JSON output, random numbers, panic capture.
use std::cell::RefCell;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// A tiny JSON object writer: one object per line of the trace.
pub struct Obj(pub String);
impl Obj {
    pub fn new(kind: &str) -> Self {
        let mut s = String::with_capacity(256);
        write!(s, "{{\"k\":\"{}\"", kind).unwrap();
        Obj(s)
    }
    pub fn bare() -> Self {
        Obj(String::from("{\"_\":0"))
    }
    fn key(&mut self, k: &str) {
        write!(self.0, ",\"{}\":", k).unwrap();
    }
    pub fn i(mut self, k: &str, v: i64) -> Self {
        self.key(k);
        write!(self.0, "{}", v).unwrap();
        self
    }
    pub fn s(mut self, k: &str, v: &str) -> Self {
        self.key(k);
        write!(self.0, "{:?}", v).unwrap();
        self
    }
    pub fn raw(mut self, k: &str, v: &str) -> Self {
        self.key(k);
        self.0.push_str(v);
        self
    }
    pub fn ints<I: IntoIterator<Item = i64>>(mut self, k: &str, v: I) -> Self {
        self.key(k);
        self.0.push_str(&arr(v));
        self
    }
    pub fn rows(mut self, k: &str, v: &[Vec<i64>]) -> Self {
        self.key(k);
        self.0.push('[');
        for (i, r) in v.iter().enumerate() {
            if i > 0 {
                self.0.push(',');
            }
            self.0.push_str(&arr(r.iter().copied()));
        }
        self.0.push(']');
        self
    }
    pub fn objs(mut self, k: &str, v: &[String]) -> Self {
        self.key(k);
        self.0.push('[');
        self.0.push_str(&v.join(","));
        self.0.push(']');
        self
    }
    pub fn end(mut self) -> String {
        self.0.push('}');
        self.0
    }
}
pub fn arr<I: IntoIterator<Item = i64>>(v: I) -> String {
    let mut s = String::from("[");
    for (i, x) in v.into_iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        write!(s, "{}", x).unwrap();
    }
    s.push(']');
    s
}
/// The bit pattern of a float as a TLC integer.
pub fn fb(v: f32) -> i64 {
    i64::from(v.to_bits() as i32)
}
pub fn fbs(v: &[f32]) -> Vec<i64> {
    v.iter().map(|x| fb(*x)).collect()
}

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64, stream: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ stream.wrapping_mul(0xD1B5_4A32_D192_ED03));
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn u16(&mut self) -> u16 {
        self.next() as u16
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn chance(&mut self, n: u64, d: u64) -> bool {
        self.below(d) < n
    }
    pub fn unit(&mut self) -> f32 {
        (self.below(1 << 24) as f32) / (1 << 24) as f32
    }
    pub fn frange(&mut self, lo: f32, hi: f32) -> f32 {
        lo + (hi - lo) * self.unit()
    }
}

/// The latest panic of any thread.
pub static LAST_ANY: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
thread_local! { pub static LAST_PANIC: RefCell<String> = RefCell::new(String::new()); }
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let s = format!("{}", info);
        if let Ok(mut l) = LAST_ANY.lock() {
            *l = s.clone();
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = s);
    }));
}
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

/// Apply f to every element on all cores, keeping the order.
pub fn par<T: Sync, R: Send>(xs: &[T], f: impl Fn(&T) -> R + Sync) -> Vec<R> {
    let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
    let next = std::sync::atomic::AtomicUsize::new(0);
    let mut parts: Vec<Vec<(usize, R)>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..n)
            .map(|_| {
                sc.spawn(|| {
                    let mut v = vec![];
                    loop {
                        let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                        if i >= xs.len() {
                            return v;
                        }
                        v.push((i, f(&xs[i])));
                    }
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut all: Vec<(usize, R)> = parts.drain(..).flatten().collect();
    all.sort_by_key(|x| x.0);
    all.into_iter().map(|x| x.1).collect()
}
