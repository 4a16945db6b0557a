//! Exhaustive explorer: index-addressable finite spaces, every case executed on the real code.
use std::cell::RefCell;
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type R = Result<(), String>;
pub type CheckFn = fn(&[u8], u64, &mut Ctx) -> R;
pub struct Ctx { pub steps: u64, pub execs: u64, st: Vec<u64> }
impl Ctx {
    pub fn new() -> Self { Ctx { steps: 0, execs: 0, st: Vec::new() } }
    /// `n` more observed units (characters, tokens, nodes, scheduler steps) compared with the model.
    pub fn steps(&mut self, n: usize) { self.steps += n as u64 }
    /// one more execution of the implementation compared with the model
    pub fn exec(&mut self) { self.execs += 1 }
    pub fn state(&mut self, h: u64) { self.st.push(h) }
}
pub struct Space {
    pub name: String,
    pub n: u64,
    /// writes the input of case `i`, returns its auxiliary parameter (options, position ...)
    pub gen: Box<dyn Fn(u64, &mut Vec<u8>) -> u64 + Sync + Send>,
    pub check: CheckFn,
}
#[derive(Clone)]
pub struct Words { pub syms: Vec<Vec<u8>>, pub min: usize, pub max: usize }
impl Words {
    pub fn new<S: AsRef<[u8]>>(syms: &[S], min: usize, max: usize) -> Self {
        Words { syms: syms.iter().map(|s| s.as_ref().to_vec()).collect(), min, max }
    }
    pub fn count(&self) -> u64 { (self.min..=self.max).map(|l| (self.syms.len() as u64).pow(l as u32)).sum() }
    pub fn write(&self, mut i: u64, out: &mut Vec<u8>) {
        let k = self.syms.len() as u64;
        for l in self.min..=self.max {
            let c = k.pow(l as u32);
            if i < c {
                // most significant symbol first
                let mut div = c;
                for _ in 0..l { div /= k; out.extend_from_slice(&self.syms[(i / div) as usize]); i %= div; }
                return;
            }
            i -= c;
        }
        panic!("index out of range");
    }
}
pub fn ctxs(c: &[(&str, &str)]) -> Vec<(Vec<u8>, Vec<u8>)> { c.iter().map(|(a, b)| (a.as_bytes().to_vec(), b.as_bytes().to_vec())).collect() }
impl Space {
    /// all words x all contexts x aux in 0..naux
    pub fn words(name: &str, w: Words, contexts: Vec<(Vec<u8>, Vec<u8>)>, naux: u64, check: CheckFn) -> Space {
        let (nw, nc) = (w.count(), contexts.len() as u64);
        Space {
            name: format!("{name}: words of length {}..={} over {} symbols x {} contexts x {} parameter values", w.min, w.max, w.syms.len(), nc, naux),
            n: nw * nc * naux,
            gen: Box::new(move |i, out| {
                let aux = i % naux; let i = i / naux;
                let c = &contexts[(i % nc) as usize];
                out.extend_from_slice(&c.0);
                w.write(i / nc, out);
                out.extend_from_slice(&c.1);
                aux
            }),
            check,
        }
    }
    pub fn list(name: &str, items: Vec<Vec<u8>>, naux: u64, check: CheckFn) -> Space {
        Space { name: format!("{name}: {} inputs x {} parameter values", items.len(), naux), n: items.len() as u64 * naux, gen: Box::new(move |i, out| { out.extend_from_slice(&items[(i / naux) as usize]); i % naux }), check }
    }
    pub fn func(name: &str, n: u64, check: CheckFn, gen: impl Fn(u64, &mut Vec<u8>) -> u64 + Sync + Send + 'static) -> Space {
        Space { name: name.to_string(), n, gen: Box::new(gen), check }
    }
}
/// readable, cut to a reasonable length
pub fn show(b: &[u8]) -> String {
    if b.len() > 400 { return format!("{} ... ({} bytes) ... {}", show_all(&b[..60]), b.len(), show_all(&b[b.len() - 60..])) }
    show_all(b)
}
pub fn show_all(b: &[u8]) -> String {
    let mut s = String::new();
    match std::str::from_utf8(b) {
        Ok(t) => for c in t.chars() { match c { '\\' => s.push_str("\\\\"), '\n' => s.push_str("\\n"), '\r' => s.push_str("\\r"), '\t' => s.push_str("\\t"), c if c.is_control() || (c as u32) > 0x7e => s.push_str(&format!("\\u{{{:x}}}", c as u32)), c => s.push(c) } },
        Err(_) => for &c in b { match c { b'\\' => s.push_str("\\\\"), 0x20..=0x7e => s.push(c as char), c => s.push_str(&format!("\\x{c:02x}")) } },
    }
    s
}
pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 0x20 || c as u32 > 0x7e => { let mut b = [0u16; 2]; for u in c.encode_utf16(&mut b) { o.push_str(&format!("\\u{:04x}", u)) } } c => o.push(c) } }
    o.push('"'); o
}
pub fn hex(b: &[u8]) -> String { b.iter().map(|c| format!("{c:02x}")).collect() }

thread_local! { static LAST: RefCell<String> = RefCell::new(String::new()); }
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { String::new() };
        LAST.with(|x| *x.borrow_mut() = format!("panicked at {l}: {}", m.chars().take(200).collect::<String>()));
    }));
}
/// Runs one case; a panic (of the implementation or of an assertion of the model) is a failure.
pub fn run_case(sp: &Space, i: u64, buf: &mut Vec<u8>, cx: &mut Ctx) -> R {
    buf.clear();
    let aux = (sp.gen)(i, buf);
    let b: &[u8] = buf;
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (sp.check)(b, aux, cx))) {
        Ok(r) => r,
        Err(_) => Err(LAST.with(|x| x.borrow().clone())),
    }
}

extern "C" { fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8; }
pub const NT: usize = 8;
/// status slots shared with the supervising parent: per thread (space, index+1)
pub struct Status(*mut u8);
unsafe impl Sync for Status {}
unsafe impl Send for Status {}
impl Status {
    pub fn open(path: Option<&str>) -> Status {
        use std::os::fd::AsRawFd;
        let p = match path {
            Some(p) => { let f = std::fs::OpenOptions::new().read(true).write(true).open(p).unwrap(); unsafe { mmap(std::ptr::null_mut(), 4096, 3, 1, f.as_raw_fd(), 0) } }
            None => Box::leak(vec![0u64; 512].into_boxed_slice()).as_mut_ptr() as *mut u8,
        };
        Status(p)
    }
    fn slot(&self, k: usize) -> &AtomicU64 { unsafe { &*(self.0 as *const AtomicU64).add(k) } }
    fn set(&self, t: usize, space: u64, idx: u64) { self.slot(2 * t).store(space, Relaxed); self.slot(2 * t + 1).store(idx + 1, Relaxed) }
    fn clear(&self, t: usize) { self.slot(2 * t + 1).store(0, Relaxed) }
    pub fn read(path: &str) -> Vec<(u64, u64)> {
        let b = std::fs::read(path).unwrap_or_default();
        let g = |k: usize| b.get(8 * k..8 * k + 8).map_or(0, |x| u64::from_ne_bytes(x.try_into().unwrap()));
        (0..NT).filter(|t| g(2 * t + 1) > 0).map(|t| (g(2 * t), g(2 * t + 1) - 1)).collect()
    }
}
struct Seen { bits: Vec<AtomicU64>, count: AtomicU64 }
const SEEN_BITS: u64 = 1 << 30;
impl Seen {
    fn new() -> Self { Seen { bits: (0..SEEN_BITS / 64).map(|_| AtomicU64::new(0)).collect(), count: AtomicU64::new(0) } }
    fn add(&self, h: u64) {
        let h = h.wrapping_mul(0x9e3779b97f4a7c15); let k = (h >> 34) % SEEN_BITS;
        let m = 1u64 << (k & 63); let w = &self.bits[(k >> 6) as usize];
        if w.load(Relaxed) & m == 0 && w.fetch_or(m, Relaxed) & m == 0 { self.count.fetch_add(1, Relaxed); }
    }
}
pub struct Failure { pub space: usize, pub idx: u64, pub msg: String }
pub struct Outcome { pub fail: Option<Failure>, pub states: u64, pub steps: u64, pub execs: u64, pub cases: u64, pub per_space: Vec<(String, u64, u64)>, pub samples: Vec<String>, pub complete: bool, pub wall: f64 }
pub struct Limits { pub wall: Duration, pub hang: Duration, pub threads: usize }

pub fn explore(spaces: &[Space], st: &Status, lim: Limits, on_hang: impl Fn(Failure) + Sync, known: impl Fn(&[u8], &str) -> bool + Sync) -> Outcome {
    let t0 = Instant::now();
    let seen = Seen::new();
    let (steps, execs, cases) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
    let mut per_space = vec![]; let mut samples = vec![]; let mut complete = true; let mut fail = None;
    let done = AtomicBool::new(false);
    let clocks: Vec<AtomicU64> = (0..NT).map(|_| AtomicU64::new(0)).collect();
    let cur_space = AtomicU64::new(0);
    std::thread::scope(|s| {
        s.spawn(|| { // watchdog
            let mut last = vec![(0u64, Instant::now()); NT];
            while !done.load(Relaxed) {
                std::thread::sleep(Duration::from_millis(100));
                for t in 0..NT {
                    let v = st.slot(2 * t + 1).load(Relaxed);
                    let k = clocks[t].load(Relaxed);
                    if v == 0 || last[t].0 != k { last[t] = (k, Instant::now()); continue }
                    if last[t].1.elapsed() > lim.hang { on_hang(Failure { space: cur_space.load(Relaxed) as usize, idx: v - 1, msg: format!("no result after {} s", lim.hang.as_secs()) }); }
                }
            }
        });
        for (si, sp) in spaces.iter().enumerate() {
            cur_space.store(si as u64, Relaxed);
            let next = AtomicU64::new(0); let best = AtomicU64::new(u64::MAX); let msg = Mutex::new(String::new());
            let ran = AtomicU64::new(0);
            let chunk = (sp.n / (NT as u64 * 64)).clamp(1, 1024);
            std::thread::scope(|s2| {
                for t in 0..lim.threads {
                    let (next, best, msg, ran, seen, steps, execs, cases, clocks, known) = (&next, &best, &msg, &ran, &seen, &steps, &execs, &cases, &clocks, &known);
                    std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s2, move || {
                        let mut cx = Ctx::new(); let mut buf = Vec::new(); let mut n = 0u64;
                        'o: loop {
                            let a = next.fetch_add(chunk, Relaxed);
                            if a >= sp.n || a > best.load(Relaxed) || t0.elapsed() > lim.wall { break }
                            for i in a..(a + chunk).min(sp.n) {
                                st.set(t, si as u64, i);
                                clocks[t].fetch_add(1, Relaxed);
                                let r = run_case(sp, i, &mut buf, &mut cx);
                                n += 1;
                                for h in cx.st.drain(..) { seen.add(h) }
                                if let Err(m) = r {
                                    if known(&buf, &m) { continue }
                                    let mut g = msg.lock().unwrap();
                                    if i < best.load(Relaxed) { best.store(i, Relaxed); *g = m; }
                                    continue 'o;
                                }
                            }
                        }
                        st.clear(t);
                        ran.fetch_add(n, Relaxed); steps.fetch_add(cx.steps, Relaxed); execs.fetch_add(cx.execs, Relaxed); cases.fetch_add(n, Relaxed);
                    }).unwrap();
                }
            });
            let r = ran.load(Relaxed);
            per_space.push((sp.name.clone(), sp.n, r));
            if sp.n > 0 { for i in [sp.n / 3, sp.n - 1] { let mut b = vec![]; let aux = (sp.gen)(i, &mut b); samples.push(format!("{} #{i}: {} (parameter {aux})", sp.name.split(':').next().unwrap(), show(&b))); } }
            if best.load(Relaxed) != u64::MAX { fail = Some(Failure { space: si, idx: best.load(Relaxed), msg: msg.into_inner().unwrap() }); break }
            if r < sp.n { complete = false }
        }
        done.store(true, Relaxed);
    });
    Outcome { fail, states: seen.count.load(Relaxed), steps: steps.load(Relaxed), execs: execs.load(Relaxed), cases: cases.load(Relaxed), per_space, samples, complete, wall: t0.elapsed().as_secs_f64() }
}
pub fn flush() { std::io::stdout().flush().ok(); }

#[derive(Clone, Copy)]
pub struct H(pub u64);
impl H {
    pub fn new() -> H { H(0xcbf29ce484222325) }
    pub fn u(&mut self, v: u64) { self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95) }
    pub fn b(&mut self, b: &[u8]) { self.u(b.len() as u64); for c in b.chunks(8) { let mut x = [0u8; 8]; x[..c.len()].copy_from_slice(c); self.u(u64::from_ne_bytes(x)) } }
}
