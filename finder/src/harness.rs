//! Case bookkeeping: every explored input is a `Case` that can be stored, replayed and judged on its own.
#![allow(dead_code)]
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---- allocation accounting -------------------------------------------------------------------
pub struct Counting;
thread_local! { static LIVE: Cell<usize> = const { Cell::new(0) }; static PEAK: Cell<usize> = const { Cell::new(0) }; }
const CAP: usize = 3 << 30;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let n = LIVE.try_with(|c| { let n = c.get().wrapping_add(l.size()); c.set(n); n }).unwrap_or(0);
        let _ = PEAK.try_with(|p| if n > p.get() && n < usize::MAX / 2 { p.set(n) });
        if l.size() > CAP { let _ = LIVE.try_with(|c| c.set(c.get().wrapping_sub(l.size()))); return std::ptr::null_mut() }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { let _ = LIVE.try_with(|c| c.set(c.get().wrapping_sub(l.size()))); System.dealloc(p, l) }
}
#[global_allocator]
static A: Counting = Counting;
/// peak of additional memory requested while running f
pub fn peak_of<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let base = LIVE.with(|c| c.get());
    PEAK.with(|p| p.set(base));
    let r = f();
    (r, PEAK.with(|p| p.get()).saturating_sub(base))
}

// ---- slices that end at an inaccessible page -------------------------------------------------
extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
    fn munmap(a: *mut u8, n: usize) -> i32;
}
const PAGE: usize = 4096;
thread_local! { static SLAB: Cell<(usize, usize)> = const { Cell::new((0, 0)) }; }
/// copy of `b` directly in front of an inaccessible page; valid until the next call
pub fn guarded(b: &[u8]) -> &'static [u8] {
    let need = (b.len() + PAGE - 1) / PAGE * PAGE + PAGE;
    let (mut at, mut n) = SLAB.get();
    unsafe {
        if n < need {
            if n != 0 { munmap(at as *mut u8, n + PAGE); }
            n = need.max(1 << 16);
            let p = mmap(std::ptr::null_mut(), n + PAGE, 3, 0x22, -1, 0);
            assert!(p as isize != -1, "mmap");
            assert!(mprotect(p.add(n), PAGE, 0) == 0, "mprotect");
            at = p as usize;
            SLAB.set((at, n));
        }
        let dst = (at as *mut u8).add(n - b.len());
        std::ptr::copy(b.as_ptr(), dst, b.len());
        std::slice::from_raw_parts(dst, b.len())
    }
}

// ---- random numbers --------------------------------------------------------------------------
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Self { let mut r = Rng(s.wrapping_mul(0x9e3779b97f4a7c15) ^ 0x1234_5678_9abc_def1); for _ in 0..8 { r.next(); } r }
    pub fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9); z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb); z ^ (z >> 31) }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n.max(1) as u64) as usize }
    pub fn one_in(&mut self, n: usize) -> bool { self.below(n) == 0 }
    pub fn pick<'a, T>(&mut self, l: &'a [T]) -> &'a T { &l[self.below(l.len())] }
}

// ---- cases -----------------------------------------------------------------------------------
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Case { pub prop: String, pub kind: String, pub ty: String, pub hex: Vec<u8>, pub nums: Vec<i64> }
impl Case {
    pub fn new(prop: &str, kind: &str, ty: &str, hex: Vec<u8>, nums: Vec<i64>) -> Self { Case { prop: prop.into(), kind: kind.into(), ty: ty.into(), hex, nums } }
    pub fn text(&self) -> String {
        let mut h = String::with_capacity(self.hex.len() * 2);
        for b in &self.hex { h.push(char::from_digit((b >> 4) as u32, 16).unwrap()); h.push(char::from_digit((b & 15) as u32, 16).unwrap()); }
        format!("prop={}\nkind={}\nty={}\nnums={}\nhex={}\n", self.prop, self.kind, self.ty, self.nums.iter().map(|n| n.to_string()).collect::<Vec<_>>().join(","), h)
    }
    pub fn parse(t: &str) -> Case {
        let mut c = Case::default();
        for l in t.lines() {
            let Some((k, v)) = l.split_once('=') else { continue };
            match k {
                "prop" => c.prop = v.into(), "kind" => c.kind = v.into(), "ty" => c.ty = v.into(),
                "nums" => c.nums = v.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(),
                "hex" => c.hex = (0..v.len() / 2).map(|i| u8::from_str_radix(&v[2 * i..2 * i + 2], 16).unwrap()).collect(),
                _ => {}
            }
        }
        c
    }
}

pub type Check = fn(&Case) -> Result<(), String>;
pub struct Ctx { pub prop: String, pub thorough: bool, pub rng: Rng, pub end: Instant, pub out: String, trace: Option<std::fs::File>, pub n: u64, pub nontrivial: u64, check: Check, pub skips: Vec<String>, seen: std::collections::HashSet<u64> }
static STEP: AtomicU64 = AtomicU64::new(0);
static CUR: Mutex<String> = Mutex::new(String::new());
thread_local! { pub static NONTRIVIAL: Cell<u64> = const { Cell::new(0) }; pub static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
/// called by checks when a case actually decided something
pub fn decided() { NONTRIVIAL.with(|c| c.set(c.get() + 1)) }

impl Ctx {
    pub fn time_left(&self) -> bool { Instant::now() < self.end }
    pub fn scale(&self, quick: usize, thorough: usize) -> usize { if self.thorough { thorough } else { quick } }
    pub fn case(&mut self, kind: &str, ty: &str, hex: Vec<u8>, nums: Vec<i64>) {
        let c = Case::new(&self.prop.clone(), kind, ty, hex, nums);
        self.run(&c)
    }
    pub fn run(&mut self, c: &Case) {
        if self.skips.iter().any(|s| *s == c.kind) { return }
        self.n += 1;
        STEP.store(self.n, Ordering::Relaxed);
        if let Some(f) = &mut self.trace {
            use std::io::{Seek, SeekFrom};
            let t = c.text();
            let _ = f.seek(SeekFrom::Start(0)); let _ = f.write_all(t.as_bytes()); let _ = f.set_len(t.len() as u64);
        }
        let _ = &CUR;
        let before = NONTRIVIAL.with(|c| c.get());
        let r = guard(self.check, c);
        if NONTRIVIAL.with(|c| c.get()) != before && self.seen.len() < 3_000_000 {
            use std::hash::{Hash, Hasher};
            let mut h = std::collections::hash_map::DefaultHasher::new();
            (&c.kind, &c.ty, &c.hex, &c.nums).hash(&mut h);
            self.seen.insert(h.finish());
        }
        if let Err(e) = r { report(&self.out, c, &e); std::process::exit(1) }
    }
}
pub fn guard(check: Check, c: &Case) -> Result<(), String> {
    match catch_unwind(AssertUnwindSafe(|| check(c))) {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", PANIC.with(|p| p.borrow().clone()))),
    }
}
pub fn report(out: &str, c: &Case, e: &str) {
    let path = format!("{out}/{}-{}-{}.case", c.prop, std::env::args().next().unwrap().rsplit('/').next().unwrap(), std::process::id());
    let mut t = c.text();
    t.push_str(&format!("what={}\n", e.replace('\n', " ")));
    let _ = std::fs::write(&path, t);
    println!("FAIL {path} {}", e.replace('\n', " "));
}

/// `<bin> run PROP quick|thorough SEED OUTDIR SECONDS` or `<bin> replay FILE`
pub fn main(check: Check, explore: fn(&mut Ctx)) {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| { let s = i.to_string(); PANIC.with(|p| *p.borrow_mut() = s) }));
    match a.get(1).map(|s| s.as_str()) {
        Some("replay") => {
            let c = Case::parse(&std::fs::read_to_string(&a[2]).expect("case file"));
            match std::thread::Builder::new().stack_size(8 << 20).spawn(move || guard(check, &c)).unwrap().join().unwrap() {
                Ok(()) => println!("PASS"),
                Err(e) => { println!("FAIL {e}"); std::process::exit(1) }
            }
        }
        Some("run") => {
            let seed: u64 = a[4].parse().unwrap_or(1);
            let secs: u64 = a[6].parse().unwrap();
            let trace = a.get(7).filter(|s| !s.is_empty()).map(|p| std::fs::File::create(p).unwrap());
            let limit = Duration::from_secs(120);
            std::thread::spawn(move || {
                let (mut last, mut since) = (0, Instant::now());
                loop {
                    std::thread::sleep(Duration::from_millis(500));
                    let s = STEP.load(Ordering::Relaxed);
                    if s != last { last = s; since = Instant::now() } else if since.elapsed() > limit { println!("HANG case {s}"); std::process::exit(7) }
                }
            });
            let mut ctx = Ctx { prop: a[2].clone(), thorough: a[3] == "thorough", rng: Rng::new(seed), end: Instant::now() + Duration::from_secs(secs), out: a[5].clone(), trace, n: 0, nontrivial: 0, check, seen: Default::default(),
                skips: std::env::var("FINDER_SKIP").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect() };
            let r = std::thread::Builder::new().stack_size(8 << 20).spawn(move || { explore(&mut ctx); (ctx.n, ctx.seen.len() as u64) }).unwrap().join();
            match r { Ok((n, d)) => println!("OK cases={n} decided={d}"), Err(_) => { println!("ERROR {}", "explorer panicked"); std::process::exit(3) } }
        }
        _ => std::process::exit(2),
    }
}

// ---- readers and writers ---------------------------------------------------------------------
pub struct Src { pub b: Vec<u8>, pub p: usize, pub chunk: usize, pub interrupt: bool, pub fail_at: Option<(usize, std::io::ErrorKind)>, pub calls: usize, flip: bool, pub failed: bool }
impl Src {
    pub fn new(b: &[u8]) -> Self { Src { b: b.to_vec(), p: 0, chunk: usize::MAX, interrupt: false, fail_at: None, calls: 0, flip: false, failed: false } }
    pub fn slow(b: &[u8]) -> Self { Src { chunk: 1, interrupt: true, ..Src::new(b) } }
}
impl Read for Src {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if out.is_empty() { return Ok(0) }
        if self.interrupt { self.flip = !self.flip; if self.flip { return Err(std::io::ErrorKind::Interrupted.into()) } }
        let mut n = out.len().min(self.chunk).min(self.b.len() - self.p);
        if let Some((at, k)) = self.fail_at { if self.p >= at { self.failed = true; return Err(k.into()) } n = n.min(at - self.p) }
        out[..n].copy_from_slice(&self.b[self.p..self.p + n]);
        self.p += n;
        Ok(n)
    }
}
pub struct Dst { pub b: Vec<u8>, pub chunk: usize, pub interrupt: bool, pub fail_at: Option<(usize, std::io::ErrorKind)>, pub zero: bool, flip: bool, pub failed: bool }
impl Dst {
    pub fn new() -> Self { Dst { b: vec![], chunk: usize::MAX, interrupt: false, fail_at: None, zero: false, flip: false, failed: false } }
}
impl Write for Dst {
    fn write(&mut self, d: &[u8]) -> std::io::Result<usize> {
        if d.is_empty() { return Ok(0) }
        if self.interrupt { self.flip = !self.flip; if self.flip { return Err(std::io::ErrorKind::Interrupted.into()) } }
        let mut n = d.len().min(self.chunk);
        if let Some((at, k)) = self.fail_at { if self.b.len() >= at { self.failed = true; if self.zero { return Ok(0) } return Err(k.into()) } n = n.min(at - self.b.len()) }
        self.b.extend_from_slice(&d[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
static _U: AtomicUsize = AtomicUsize::new(0);
