//! C20: call histories, and interleavings of two calls under a controlled scheduler.
//! Every allocation, reallocation and release made by the code under test is a scheduling point.
use crate::asts::quirks;
use crate::engine::*;
use crate::inv::make;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::*};
use std::sync::OnceLock;
use std::time::{Duration, Instant};
use wolfram_parser::source::*;
use wolfram_parser::*;

// ------------------------------------------------------------------ scheduler
struct Run { turn: AtomicU32, n: [AtomicU32; 2], at: [[u32; 2]; 2], switches: AtomicU32, blocked: AtomicU64 }
thread_local! { static CTRL: Cell<*const Run> = const { Cell::new(std::ptr::null()) }; static ME: Cell<u32> = const { Cell::new(0) }; static COUNT: Cell<u64> = const { Cell::new(0) }; }
pub struct Points;
#[inline] fn point() {
    COUNT.with(|c| c.set(c.get() + 1));
    let r = CTRL.with(|c| c.get());
    if !r.is_null() { unsafe { (*r).point(ME.with(|m| m.get())) } }
}
unsafe impl GlobalAlloc for Points {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { point(); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { point(); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { point(); System.realloc(p, l, n) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { point(); System.alloc_zeroed(l) }
}
impl Run {
    fn wait(&self, me: u32) {
        let mut k = 0u32; let mut t0 = None;
        while self.turn.load(Acquire) != me {
            k += 1;
            if k < 300 { std::hint::spin_loop() } else {
                std::thread::yield_now();
                // the other thread waits for something this one holds: the schedule is not feasible, let both run
                if t0.get_or_insert_with(Instant::now).elapsed() > Duration::from_millis(500) { self.blocked.fetch_add(1, Relaxed); self.turn.store(me, Release); return }
            }
        }
    }
    fn point(&self, me: u32) {
        let k = self.n[me as usize].fetch_add(1, Relaxed) + 1;
        if self.at[me as usize].contains(&k) && self.turn.load(Relaxed) == me { self.switches.fetch_add(1, Relaxed); self.turn.store(1 - me, Release); self.wait(me) }
    }
    fn done(&self, me: u32) { self.turn.store(1 - me, Release) }
}

// ------------------------------------------------------------------ calls
pub struct Call { pub entry: u8, pub input: &'static [u8], pub o: ParseOptions, pub opts: String }
fn mk(entry: u8, input: &'static [u8], first: u64, conv: u64, tab: u32, mode: u64, q: u64) -> Call { Call { entry, input, o: make(first, conv, tab, mode, q), opts: format!("options {first}/{conv}/{tab}/{mode}/{q}") } }
const INPUTS: [&[u8]; 10] = [b"a+Plus@b", b"a/b/c*d", b"f@@@x-(-0)", b"\"a\tb\n\" (*\t\n*) c", b"f[x_, {1", b"a \\\n b::\"\xff\" \xef\xbb\xbf", b"#!x\n\\[Alpha] \\[Foo] \\:d800 2^^3", b")a;;b~c d", b"a\nb\r\nc", b""];
const ENTRIES: u8 = 9;
pub fn calls() -> &'static Vec<Call> {
    static C: OnceLock<Vec<Call>> = OnceLock::new();
    C.get_or_init(|| {
        let mut v = vec![];
        // every quirk setting on the inputs that have a quirk
        for i in 0..3 { for q in 0..8 { v.push(mk(0, INPUTS[i], 0, 0, 4, 0, q)) } }
        // every entry point on every input, with two different option sets
        for i in 0..INPUTS.len() { for e in 0..ENTRIES { for w in 0..2 {
            let (x, y) = (i as u64 + w, e as u64);
            v.push(mk(e, INPUTS[i], (x + y) % 3, (y + w) % 2, [4, 1, 8][(i + e as usize + w as usize) % 3], x % 2, (x + y + 3 * w) % 8))
        } } }
        assert_eq!(v.len(), CORE);
        // one expression of every sort, near twins of one another
        for (i, x) in TWINS.iter().enumerate() { for e in [0, 2, 4] { v.push(mk(e, x, i as u64 / 7 % 3, i as u64 / 2 % 2, [4, 1, 8][i / 3 % 3], i as u64 / 5 % 2, [0, 7, 2][i % 3])) } }
        v
    })
}
/// number of the calls that the histories of any length and the schedules are made of
const CORE: usize = 24 + 2 * INPUTS.len() * ENTRIES as usize;
/// Pairs of inputs that differ in little: same length, same first or last characters, same construct.
static TWINS: [&[u8]; 102] = [
    b"\\[Alpha]", b"\\[Gamma]", b"\\[Kappa]", b"\\[Alpa]", b"\\[Alpx]", b"\\[Abcd]", b"\\[Alpah]", b"\\[Gamm]", b"\\[Gama]", b"\\[alpha]", b"\\[Rule]", b"\\[Star]", b"\\:03b1", b"\\:03b3", b"\\|01d400", b"\\101", b"\\.41", b"a\\[Alpha]",
    b"abc", b"abd", b"abcd", b"ab`c", b"a", b"Null", b"True", b"12", b"13", b"1.2", b"1.2`3", b"1`3.4", b"2^^10", b"3^^10", b"2^^12", b"36^^zz", b"16^^ff", b"1*^5", b"1*^-5", b"1.2.3",
    b"\"ab\"", b"\"ac\"", b"\"a\\\nb\"", b"\"a\nb\"", b"\"ab", b"\"a\tb\"", b"(*a*)", b"(*a*)b", b"(*a", b"(*a\n*)", b"a(*b*)c",
    b"#", b"#1", b"#ab", b"##2", b"%", b"%%", b"%12", b"_", b"a_", b"a_b", b"a_.", b"a:b", b"a_:b", b"a:b:c", b"a::b", b"a::\"b\"", b"<<a", b"<<a`b", b"a>>b",
    b"f[x]", b"f[y]", b"f[x][y]", b"f[[x]]", b"f[x,]", b"f[", b"{a}", b"{b}", b"{a", b"a}", b"(a)", b"<|a->b|>",
    b"a+b", b"a+c", b"a-b", b"-a", b"-1", b"a b", b"a*b", b"a/b", b"a//b", b"a<b<c", b"a<b>c", b"a=.", b"a;b;", b"a;;b", b"a&", b"a~b~c", b"a@@@b", b"\\[Integral]a\\[DifferentialD]b",
    b"a\nb", b"a\rb", b"\xe9", b"\xc3\xa9",
];
fn sorted<T: std::fmt::Debug>(s: impl Iterator<Item = T>) -> Vec<String> { let mut v: Vec<String> = s.map(|x| format!("{x:?}")).collect(); v.sort(); v }
macro_rules! res { ($r:expr) => {{ let r = $r; format!("{:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?}", r.syntax, r.unsafe_character_encoding, r.fatal_issues, r.non_fatal_issues, sorted(r.tracked.simple_line_continuations.iter()), sorted(r.tracked.complex_line_continuations.iter()), sorted(r.tracked.embedded_newlines.iter()), sorted(r.tracked.embedded_tabs.iter())) }} }
/// result of a call, written out
pub fn call(c: &Call) -> String {
    let (b, o) = (c.input, &c.o);
    let s = std::str::from_utf8(b).unwrap_or("a /b");
    match c.entry {
        0 => res!(parse_bytes_ast_seq(b, o)),
        1 => res!(parse_bytes_cst_seq(b, o)),
        2 => format!("{:?}", tokenize_bytes(b, o)),
        3 => format!("{:?}", tokenize(s, o)),
        4 => { let r = parse_cst_seq(s, o); let q = abstract_cst::aggregate_cst_seq(r.syntax.clone()); format!("{:?}", q.0.into_iter().map(|x| abstract_cst::abstract_cst(x, quirks((b.len() % 8) as u64))).collect::<Vec<_>>()) }
        5 => format!("{:?} {:?}", safe_string(b, o), res!(parse_to_token(b, o, StringifyMode::File))),
        6 => format!("{:?} {:?}", iter::wolfram_chars(s, o).collect::<Vec<_>>(), iter::tokens(s, o).collect::<Vec<_>>()),
        7 => res!(parse_ast(s, o)), // panics unless there is exactly one expression
        _ => res!(parse_bytes_cst(b, o)),
    }
}
pub fn digest(c: &Call) -> u64 {
    let s = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| call(c))).unwrap_or_else(|_| "panic".into());
    let mut h = H::new(); h.b(s.as_bytes()); h.0
}
/// what each call returns when it is the only one of its process
pub fn baseline() -> &'static Vec<u64> {
    static B: OnceLock<Vec<u64>> = OnceLock::new();
    B.get_or_init(|| {
        let exe = std::env::current_exe().unwrap();
        let next = AtomicU64::new(0); let n = calls().len();
        let out: Vec<AtomicU64> = (0..n).map(|_| AtomicU64::new(0)).collect();
        std::thread::scope(|s| for _ in 0..NT { s.spawn(|| loop {
            let i = next.fetch_add(1, Relaxed) as usize;
            if i >= n { break }
            let o = std::process::Command::new(&exe).args(["baseline", &i.to_string()]).output().unwrap();
            let v = std::str::from_utf8(&o.stdout).ok().and_then(|x| x.trim().parse::<u64>().ok()).unwrap_or_else(|| { let mut h = H::new(); h.b(b"crash"); h.0 });
            out[i].store(v, Relaxed);
        }); });
        out.into_iter().map(|x| x.into_inner()).collect()
    })
}
/// scheduling points of each call
pub fn points() -> &'static Vec<u32> {
    static P: OnceLock<Vec<u32>> = OnceLock::new();
    P.get_or_init(|| calls().iter().map(|c| { digest(c); let a = COUNT.with(|c| c.get()); digest(c); (COUNT.with(|c| c.get()) - a) as u32 }).collect())
}
fn name(k: usize) -> String { let c = &calls()[k]; format!("entry {} on {:?} with {}", c.entry, show(c.input), c.opts) }
fn diff(k: usize, got: u64) -> R {
    if got == baseline()[k] { return Ok(()) }
    Err(format!("{} does not return what it returns in a fresh process", name(k)))
}
// ------------------------------------------------------------------ checks
/// Input: call numbers, made one after the other on a fresh thread.
pub fn history(b: &[u8], _: u64, cx: &mut Ctx) -> R {
    let r = std::thread::scope(|s| s.spawn(|| b.iter().map(|k| digest(&calls()[*k as usize])).collect::<Vec<_>>()).join()).map_err(|_| "the thread died".to_string())?;
    let mut h = H::new();
    for (i, (k, d)) in b.iter().zip(&r).enumerate() { cx.exec(); cx.steps(1); h.u(*d); cx.state(h.0); diff(*k as usize, *d).map_err(|m| format!("call {} of history {b:?}: {m}", i + 1))? }
    Ok(())
}
/// Input: call numbers of 16 bits, made one after the other, then the whole repeated `aux` times, on a fresh thread.
pub fn long_history(b: &[u8], aux: u64, cx: &mut Ctx) -> R {
    let c: Vec<usize> = b.chunks(2).map(|x| u16::from_le_bytes([x[0], x[1]]) as usize).collect();
    let r = std::thread::scope(|s| s.spawn(|| { for k in 0..=aux { for &i in &c { let d = digest(&calls()[i]); if d != baseline()[i] { return Some((k, i, d)) } } } None }).join()).map_err(|_| "the thread died".to_string())?;
    for _ in 0..=aux { cx.exec() } cx.steps(c.len() * (aux as usize + 1));
    let mut h = H::new(); for &i in &c { h.u(baseline()[i]) } cx.state(h.0);
    match r { None => Ok(()), Some((k, i, d)) => diff(i, d).map_err(|m| format!("round {} of history {c:?}: {m}", k + 1)) }
}
/// Input: a, b, then three 16-bit points: a runs to point i, b to point j, a to point k, b to its end.
pub fn interleave(b: &[u8], _: u64, cx: &mut Ctx) -> R {
    let p = |i: usize| u16::from_le_bytes([b[2 + 2 * i], b[3 + 2 * i]]) as u32;
    let run = Run { turn: AtomicU32::new(0), n: Default::default(), at: [[p(0), p(2)], [p(1), 0]], switches: AtomicU32::new(0), blocked: AtomicU64::new(0) };
    let r: Vec<u64> = std::thread::scope(|s| {
        let h: Vec<_> = (0..2u32).map(|me| { let run = &run; let k = b[me as usize] as usize; s.spawn(move || {
            ME.with(|m| m.set(me));
            run.wait(me);
            CTRL.with(|c| c.set(run));
            let d = digest(&calls()[k]);
            CTRL.with(|c| c.set(std::ptr::null()));
            run.done(me);
            d
        }) }).collect();
        h.into_iter().map(|h| h.join().unwrap_or(0)).collect()
    });
    cx.exec(); cx.steps(run.switches.load(Relaxed) as usize + 2);
    let mut h = H::new(); h.b(b); cx.state(h.0);
    for me in 0..2 { diff(b[me] as usize, r[me]).map_err(|m| format!("calls {} and {} preempted at points {} / {} / {}: {m}", b[0], b[1], p(0), p(1), p(2)))? }
    Ok(())
}
fn enc(a: usize, b: usize, i: u32, j: u32, k: u32, o: &mut Vec<u8>) { o.extend_from_slice(&[a as u8, b as u8]); for x in [i, j, k] { o.extend_from_slice(&(x as u16).to_le_bytes()) } }
fn cap(n: u32) -> u32 { n.min(60000) }
/// every pair of calls, one preemption at every point
fn one_preemption(sel: Vec<usize>) -> Space {
    let mut starts = vec![]; let mut n = 0u64;
    for &a in &sel { for &b in &sel { starts.push((n, a, b)); n += cap(points()[a]) as u64 } }
    Space::func(&format!("one preemption at each scheduling point of the first call: {} pairs of calls", starts.len()), n, interleave, move |i, o| {
        let (s, a, b) = starts[starts.partition_point(|x| x.0 <= i) - 1];
        enc(a, b, (i - s) as u32 + 1, 0, 0, o); 0
    })
}
/// two preemptions: at each point of a and at each point of b
fn two_preemptions(pairs: Vec<(usize, usize)>) -> Space {
    let mut starts = vec![]; let mut n = 0u64;
    for &(a, b) in &pairs { starts.push((n, a, b)); n += cap(points()[a]) as u64 * cap(points()[b]) as u64 }
    Space::func(&format!("two preemptions at each pair of scheduling points: {} pairs of calls", starts.len()), n, interleave, move |i, o| {
        let (s, a, b) = starts[starts.partition_point(|x| x.0 <= i) - 1];
        let m = cap(points()[b]) as u64;
        enc(a, b, ((i - s) / m) as u32 + 1, ((i - s) % m) as u32 + 1, 0, o); 0
    })
}
pub fn spaces(t: bool) -> Vec<Space> {
    baseline();
    let n = CORE;
    let all: Vec<usize> = (0..n).collect();
    let hist = |sel: Vec<usize>, len: usize| { let w = Words { syms: sel.iter().map(|k| vec![*k as u8]).collect(), min: 1, max: len }; Space::func(&format!("call histories of length 1..={len} over {} calls", sel.len()), w.count(), history, move |i, o| { w.write(i, o); 0 }) };
    // a few calls of each sort
    let few: Vec<usize> = all.iter().copied().filter(|k| *k % 11 == 2 || *k < 24 && [0, 1, 2, 4, 7, 8, 10, 15, 16, 20].contains(k)).collect();
    let m = calls().len() as u64;
    let two = move |i: u64, o: &mut Vec<u8>| for x in [i / m, i % m] { o.extend_from_slice(&(x as u16).to_le_bytes()) };
    let mut v = vec![Space::func(&format!("every pair of {m} calls, in this order"), m * m, long_history, move |i, o| { two(i, o); 0 }),
        Space::func(&format!("each of {m} calls, many times"), m, long_history, move |i, o| { o.extend_from_slice(&(i as u16).to_le_bytes()); if i % 16 == 3 { 3000 } else { 300 } }),
        hist(all.clone(), 2), hist(few.clone(), if t { 4 } else { 3 }), one_preemption(if t { all.clone() } else { few.clone() })];
    let short: Vec<usize> = few.iter().copied().filter(|k| points()[*k] < 400).collect();
    let mut pairs = vec![];
    for &a in &short { for &b in &short { let w = points()[a] as u64 * points()[b] as u64; if calls()[a].entry == 0 && calls()[b].entry == 0 && w < if t { 200_000 } else { 60_000 } { pairs.push((a, b)) } } }
    if !t { pairs.truncate(6) }
    v.push(two_preemptions(pairs));
    v
}
#[allow(unused)] fn _u(_: SourceConvention) {}
