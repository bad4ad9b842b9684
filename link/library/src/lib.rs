//! Stands in for `wolfram-library-link`: a link is two queues of tokens, and the kernel is the harness.
pub use link_macros::export;
pub use wolfram_expr as expr;

pub mod sys {
    #![allow(non_camel_case_types, non_upper_case_globals)]
    pub type mint = i64;
    pub const WolframLibraryVersion: u32 = 7;
}

pub mod rtl {
    #![allow(non_snake_case)]
    use std::cell::Cell;
    use std::ffi::c_char;

    thread_local! {
        /// how often it has been asked whether to abort, and from which time on the answer is yes
        pub static POLLS: Cell<(u64, u64)> = Cell::new((0, u64::MAX));
    }

    pub unsafe fn AbortQ() -> i64 {
        POLLS.with(|p| {
            let (n, limit) = p.get();
            p.set((n + 1, limit));
            (n + 1 >= limit) as i64
        })
    }

    thread_local! {
        /// whether files may be read, and the path that was last asked about
        pub static READABLE: Cell<bool> = Cell::new(true);
        pub static ASKED: std::cell::RefCell<Vec<u8>> = Default::default();
    }

    pub unsafe fn validatePath(path: *mut c_char, _: c_char) -> i32 {
        let path = std::ffi::CStr::from_ptr(path).to_bytes().to_vec();
        ASKED.with(|a| *a.borrow_mut() = path);
        READABLE.with(|r| r.get()) as i32
    }
}

pub fn evaluate(_: &expr::Expr) -> expr::Expr {
    expr::Expr::null()
}
pub fn try_evaluate(_: &expr::Expr) -> Result<expr::Expr, String> {
    Ok(expr::Expr::null())
}
pub fn aborted() -> bool {
    unsafe { rtl::AbortQ() != 0 }
}

pub mod wstp {
    use super::expr::{symbol::Symbol, Expr, ExprKind, Number, F64};
    use std::collections::VecDeque;
    use std::fmt;

    pub mod sys {
        #![allow(non_upper_case_globals)]
        pub const WSEGSEQ: i32 = 3;
        pub const WSTKFUNC: u8 = b'F';
        pub const WSTKSTR: u8 = b'"';
        pub const WSTKSYM: u8 = 35;
        pub const WSTKINT: u8 = b'+';
        pub const WSTKREAL: u8 = b'*';
    }

    #[derive(Debug, Clone, PartialEq)]
    pub enum Tk {
        Function(String, usize),
        Symbol(String),
        Str(String),
        Int(i64),
        Real(f64),
        Bytes(Vec<u8>),
    }

    #[derive(Debug, Clone, PartialEq)]
    pub struct Error(Option<i32>, String);
    impl Error {
        pub fn code(&self) -> Option<i32> {
            self.0
        }
    }
    impl fmt::Display for Error {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.write_str(&self.1)
        }
    }
    type R<T> = Result<T, Error>;
    fn bad<T>(what: &str, got: Option<&Tk>) -> R<T> {
        Err(Error(Some(sys::WSEGSEQ), format!("{what}, got {got:?}")))
    }

    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum TokenType {
        Integer,
        Real,
        Symbol,
        String,
        Function,
    }

    pub struct Array<T>(Vec<T>);
    impl<T> Array<T> {
        pub fn rank(&self) -> usize {
            1
        }
        pub fn data(&self) -> &[T] {
            &self.0
        }
        pub fn length(&self) -> usize {
            self.0.len()
        }
    }

    pub struct LinkStr(String);
    impl LinkStr {
        pub fn as_str(&self) -> &str {
            &self.0
        }
        pub fn to_str(&self) -> &str {
            &self.0
        }
        pub fn get(&self) -> &str {
            &self.0
        }
    }

    #[derive(Default)]
    pub struct Link {
        /// a call whose head is still to come, written piece by piece
        pending: Option<usize>,
        pub incoming: VecDeque<Tk>,
        pub outgoing: Vec<Tk>,
    }

    impl Link {
        pub fn is_ready(&self) -> bool {
            !self.incoming.is_empty()
        }
        pub fn clear_error(&mut self) {}
        /// what is left of the request is dropped
        pub fn new_packet(&mut self) -> R<()> {
            self.incoming.clear();
            Ok(())
        }
        pub fn get_type(&self) -> R<TokenType> {
            match self.incoming.front() {
                Some(Tk::Function(..)) => Ok(TokenType::Function),
                Some(Tk::Symbol(_)) => Ok(TokenType::Symbol),
                Some(Tk::Str(_)) => Ok(TokenType::String),
                Some(Tk::Int(_)) => Ok(TokenType::Integer),
                Some(Tk::Real(_)) => Ok(TokenType::Real),
                t => bad("no type", t),
            }
        }
        pub fn test_head(&mut self, head: &str) -> R<usize> {
            match self.incoming.front() {
                Some(Tk::Function(h, n)) if h == head => {
                    let n = *n;
                    self.incoming.pop_front();
                    Ok(n)
                },
                t => bad(head, t),
            }
        }
        pub fn get_i64(&mut self) -> R<i64> {
            match self.incoming.pop_front() {
                Some(Tk::Int(i)) => Ok(i),
                t => bad("integer", t.as_ref()),
            }
        }
        pub fn get_i32(&mut self) -> R<i32> {
            self.get_i64().map(|i| i as i32)
        }
        pub fn get_string(&mut self) -> R<String> {
            match self.incoming.pop_front() {
                Some(Tk::Str(s)) => Ok(s),
                t => bad("string", t.as_ref()),
            }
        }
        pub fn get_u8_array(&mut self) -> R<Array<u8>> {
            match self.incoming.pop_front() {
                Some(Tk::Bytes(b)) => Ok(Array(b)),
                t => bad("bytes", t.as_ref()),
            }
        }
        pub fn get_expr_with_resolver(&mut self, resolver: &mut dyn FnMut(&str) -> Option<Symbol>) -> R<Expr> {
            let mut symbol = |s: &str| resolver(s).ok_or_else(|| Error(None, format!("unresolved symbol {s}")));
            match self.incoming.pop_front() {
                Some(Tk::Int(i)) => Ok(Expr::from(i)),
                Some(Tk::Real(r)) => Ok(Expr::number(Number::Real(F64::new(r).unwrap()))),
                Some(Tk::Str(s)) => Ok(Expr::string(s)),
                Some(Tk::Symbol(s)) => Ok(Expr::symbol(symbol(&s)?)),
                Some(Tk::Function(h, n)) => {
                    let head = Expr::symbol(symbol(&h)?);
                    let mut args = Vec::with_capacity(n);
                    for _ in 0..n {
                        args.push(self.get_expr_with_resolver(resolver)?);
                    }
                    Ok(Expr::normal(head, args))
                },
                t => bad("expression", t.as_ref()),
            }
        }

        pub fn get_expr(&mut self) -> R<Expr> {
            self.get_expr_with_resolver(&mut |_| None)
        }
        pub fn get_f64(&mut self) -> R<f64> {
            match self.incoming.pop_front() {
                Some(Tk::Real(r)) => Ok(r),
                Some(Tk::Int(i)) => Ok(i as f64),
                t => bad("number", t.as_ref()),
            }
        }
        pub fn get_i16(&mut self) -> R<i16> {
            self.get_i64().map(|i| i as i16)
        }
        pub fn get_u8(&mut self) -> R<u8> {
            self.get_i64().map(|i| i as u8)
        }
        pub fn get_string_ref(&mut self) -> R<LinkStr> {
            self.get_string().map(LinkStr)
        }
        pub fn get_symbol_ref(&mut self) -> R<LinkStr> {
            match self.incoming.pop_front() {
                Some(Tk::Symbol(s)) => Ok(LinkStr(s)),
                t => bad("symbol", t.as_ref()),
            }
        }
        /// the number of arguments; the head comes next
        pub fn get_arg_count(&mut self) -> R<usize> {
            match self.incoming.pop_front() {
                Some(Tk::Function(h, n)) => {
                    self.incoming.push_front(Tk::Symbol(h));
                    Ok(n)
                },
                t => bad("function", t.as_ref()),
            }
        }
        pub fn error(&self) -> Option<Error> {
            None
        }
        pub fn error_message(&self) -> Option<String> {
            None
        }
        pub fn flush(&mut self) -> R<()> {
            Ok(())
        }
        pub fn end_packet(&mut self) -> R<()> {
            Ok(())
        }

        pub fn put_raw_type(&mut self, _: i32) -> R<()> {
            Ok(())
        }
        pub fn put_arg_count(&mut self, count: usize) -> R<()> {
            self.pending = Some(count);
            Ok(())
        }
        pub fn put_utf8_str(&mut self, utf8: &[u8]) -> R<()> {
            match std::str::from_utf8(utf8) {
                Ok(s) => self.put_str(s),
                Err(_) => bad("UTF-8", None),
            }
        }
        pub fn put_i16(&mut self, i: i16) -> R<()> {
            self.put(Tk::Int(i.into()))
        }
        pub fn put_u8(&mut self, i: u8) -> R<()> {
            self.put(Tk::Int(i.into()))
        }
        pub fn put_f32(&mut self, r: f32) -> R<()> {
            self.put(Tk::Real(r.into()))
        }
        fn put(&mut self, t: Tk) -> R<()> {
            self.outgoing.push(t);
            Ok(())
        }
        pub fn put_function<'h, H: Into<Option<&'h str>>>(&mut self, head: H, count: usize) -> R<()> {
            let head = head.into().unwrap_or("").to_string();
            self.put(Tk::Function(head, count))
        }
        pub fn put_symbol(&mut self, s: &str) -> R<()> {
            if let Some(n) = self.pending.take() {
                return self.put(Tk::Function(s.to_string(), n));
            }
            self.put(Tk::Symbol(s.to_string()))
        }
        pub fn put_str(&mut self, s: &str) -> R<()> {
            self.put(Tk::Str(s.to_string()))
        }
        pub fn put_i64(&mut self, i: i64) -> R<()> {
            self.put(Tk::Int(i))
        }
        pub fn put_i32(&mut self, i: i32) -> R<()> {
            self.put(Tk::Int(i.into()))
        }
        pub fn put_f64(&mut self, r: f64) -> R<()> {
            self.put(Tk::Real(r))
        }
        pub fn put_expr(&mut self, e: &Expr) -> R<()> {
            match e.kind() {
                ExprKind::Normal(n) => {
                    let head = n.head().try_as_symbol().map(|s| s.as_str().to_string()).unwrap_or_default();
                    self.put(Tk::Function(head, n.elements().len()))?;
                    n.elements().iter().try_for_each(|x| self.put_expr(x))
                },
                ExprKind::Symbol(s) => self.put_symbol(s.as_str()),
                ExprKind::String(s) => self.put_str(s),
                ExprKind::Integer(i) => self.put_i64(*i),
                ExprKind::Real(r) => self.put_f64(**r),
            }
        }
    }
}
