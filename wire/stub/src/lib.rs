//! Stand-in for the parts of wolfram-library-link and wstp that codeparser uses. What is put on a
//! link is recorded as a stream of tokens, what is read from it comes from such a stream.
pub use wll_macros_standin::export;
pub use wolfram_expr as expr;

pub fn evaluate(_: &expr::Expr) -> expr::Expr { unimplemented!("no kernel") }

pub mod sys {
    #![allow(non_camel_case_types, non_upper_case_globals)]
    pub type mint = i64;
    pub const WolframLibraryVersion: u32 = 6;
}

/// The callbacks into the kernel.
pub mod rtl {
    #![allow(non_snake_case)]
    use std::cell::{Cell, RefCell};
    thread_local! {
        /// calls of AbortQ that still answer "no"
        pub static ABORT_AFTER: Cell<u64> = Cell::new(u64::MAX);
        pub static ABORT_CALLS: Cell<u64> = Cell::new(0);
        pub static PATH_OK: Cell<bool> = Cell::new(true);
        pub static PATHS: RefCell<Vec<(Vec<u8>, u8)>> = RefCell::new(vec![]);
    }
    pub unsafe fn AbortQ() -> i64 {
        ABORT_CALLS.with(|c| { let n = c.get(); c.set(n + 1); (n >= ABORT_AFTER.with(|a| a.get())) as i64 })
    }
    pub unsafe fn validatePath(path: *mut std::ffi::c_char, mode: std::ffi::c_char) -> i32 {
        let p = std::ffi::CStr::from_ptr(path).to_bytes().to_vec();
        PATHS.with(|v| v.borrow_mut().push((p, mode as u8)));
        PATH_OK.with(|x| x.get()) as i32
    }
}

pub mod wstp {
    use crate::expr::{Expr, ExprKind, Number, Symbol, F64};
    use std::collections::VecDeque;

    pub mod sys { pub const WSEGSEQ: i32 = 9; pub const WSEOK: i32 = 0; }

    #[derive(Clone, Debug, PartialEq)]
    pub enum Tok { Func(usize), Sym(String), Str(String), Int(i64), Real(f64), Bytes(Vec<u8>) }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum TokenType { Integer, Real, Symbol, String, Function }
    #[derive(Clone, Debug, PartialEq)]
    pub struct Error { code: Option<i32>, message: String }
    impl Error { pub fn code(&self) -> Option<i32> { self.code } }
    impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.message) } }
    fn err<T>(m: &str) -> Result<T, Error> { Err(Error { code: Some(sys::WSEGSEQ), message: m.to_string() }) }
    type R<T> = Result<T, Error>;

    /// Tokens to be read, and tokens that were put. An error stays until it is cleared.
    #[derive(Default)]
    pub struct Link { pub input: VecDeque<Tok>, pub output: Vec<Tok>, pub failed: bool }
    pub struct Array<T> { data: Vec<T> }
    impl<T> Array<T> { pub fn rank(&self) -> usize { 1 } pub fn data(&self) -> &[T] { &self.data } pub fn dimensions(&self) -> Vec<usize> { vec![self.data.len()] } }

    impl Link {
        pub fn reading(input: Vec<Tok>) -> Link { Link { input: input.into(), ..Link::default() } }
        fn ok(&self) -> R<()> { if self.failed { err("the link has an error") } else { Ok(()) } }
        fn out(&mut self, t: Tok) -> R<()> { self.ok()?; self.output.push(t); Ok(()) }
        fn fail<T>(&mut self, m: &str) -> R<T> { self.failed = true; err(m) }

        pub fn put_function<'h, H: Into<Option<&'h str>>>(&mut self, head: H, n: usize) -> R<()> { self.out(Tok::Func(n))?; match head.into() { Some(h) => self.put_symbol(h), None => Ok(()) } }
        pub fn put_symbol(&mut self, s: &str) -> R<()> { self.out(Tok::Sym(s.to_string())) }
        pub fn put_str(&mut self, s: &str) -> R<()> { self.out(Tok::Str(s.to_string())) }
        pub fn put_i64(&mut self, i: i64) -> R<()> { self.out(Tok::Int(i)) }
        pub fn put_i32(&mut self, i: i32) -> R<()> { self.out(Tok::Int(i.into())) }
        pub fn put_i16(&mut self, i: i16) -> R<()> { self.out(Tok::Int(i.into())) }
        pub fn put_u8(&mut self, i: u8) -> R<()> { self.out(Tok::Int(i.into())) }
        pub fn put_f64(&mut self, x: f64) -> R<()> { self.out(Tok::Real(x)) }
        pub fn put_f32(&mut self, x: f32) -> R<()> { self.out(Tok::Real(x.into())) }
        pub fn put_expr(&mut self, e: &Expr) -> R<()> {
            match e.kind() {
                ExprKind::Normal(n) => { self.put_function(None, n.elements().len())?; self.put_expr(n.head())?; for x in n.elements() { self.put_expr(x)? } Ok(()) }
                ExprKind::Symbol(s) => self.put_symbol(s.as_str()),
                ExprKind::String(s) => self.put_str(s.as_str()),
                ExprKind::Integer(i) => self.put_i64(*i),
                ExprKind::Real(x) => self.put_f64(**x),
            }
        }

        pub fn is_ready(&self) -> bool { !self.input.is_empty() }
        pub fn clear_error(&mut self) { self.failed = false }
        pub fn new_packet(&mut self) -> R<()> { self.ok()?; self.input.clear(); Ok(()) }
        pub fn flush(&mut self) -> R<()> { self.ok() }
        pub fn get_type(&self) -> R<TokenType> { self.ok()?; match self.input.front() { Some(Tok::Func(_)) => Ok(TokenType::Function), Some(Tok::Sym(_)) => Ok(TokenType::Symbol), Some(Tok::Str(_)) => Ok(TokenType::String), Some(Tok::Int(_)) => Ok(TokenType::Integer), Some(Tok::Real(_)) => Ok(TokenType::Real), Some(Tok::Bytes(_)) => Ok(TokenType::Function), None => err("nothing to read") } }
        /// the head is read only when it is the expected one
        pub fn test_head(&mut self, head: &str) -> R<usize> {
            self.ok()?;
            match (self.input.get(0).cloned(), self.input.get(1)) { (Some(Tok::Func(n)), Some(Tok::Sym(s))) if s == head => { self.input.drain(..2); Ok(n) } _ => self.fail("the next expression has another head") }
        }
        pub fn get_arg_count(&mut self) -> R<usize> { match self.next()? { Tok::Func(n) => Ok(n), _ => self.fail("not a function") } }
        fn next(&mut self) -> R<Tok> { self.ok()?; match self.input.pop_front() { Some(t) => Ok(t), None => self.fail("nothing to read") } }
        pub fn get_i64(&mut self) -> R<i64> { match self.next()? { Tok::Int(i) => Ok(i), _ => self.fail("not an integer") } }
        pub fn get_i32(&mut self) -> R<i32> { match self.next()? { Tok::Int(i) if i32::try_from(i).is_ok() => Ok(i as i32), _ => self.fail("not a 32-bit integer") } }
        pub fn get_f64(&mut self) -> R<f64> { match self.next()? { Tok::Real(x) => Ok(x), _ => self.fail("not a real") } }
        pub fn get_string(&mut self) -> R<String> { match self.next()? { Tok::Str(s) => Ok(s), _ => self.fail("not a string") } }
        pub fn get_u8_array(&mut self) -> R<Array<u8>> { match self.next()? { Tok::Bytes(data) => Ok(Array { data }), _ => self.fail("not a byte array") } }
        pub fn get_expr(&mut self) -> R<Expr> { self.get_expr_with_resolver(&mut |_| None) }
        pub fn get_expr_with_resolver(&mut self, resolver: &mut dyn FnMut(&str) -> Option<Symbol>) -> R<Expr> {
            Ok(match self.next()? {
                Tok::Int(i) => Expr::from(i),
                Tok::Real(x) => match F64::new(x) { Ok(x) => Expr::number(Number::Real(x)), Err(_) => return self.fail("NaN") },
                Tok::Str(s) => Expr::string(s),
                Tok::Sym(s) => match Symbol::try_new(&s).or_else(|| resolver(&s)) { Some(s) => Expr::symbol(s), None => return self.fail("symbol without context") },
                Tok::Func(n) => { let h = self.get_expr_with_resolver(resolver)?; let mut v = Vec::with_capacity(n); for _ in 0..n { v.push(self.get_expr_with_resolver(resolver)?) } Expr::normal(h, v) }
                Tok::Bytes(_) => return self.fail("byte array in an expression"),
            })
        }
    }
}
