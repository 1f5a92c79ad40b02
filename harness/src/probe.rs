//! Online monitors: `Probe` observes every entry and exit of the pattern it
//! wraps, `Rec` numbers and logs every handler invocation.
use crate::ast::{Ev, Rej, Val, e_func, e_handler, spy_outcome};
use neure::ctor::{Ctor, Handler};
use neure::ctx::{Context, Match};
use neure::err::Error;
use neure::regex::Regex;
use neure::span::Span;
use std::cell::RefCell;

#[derive(Default, Clone, Debug)]
pub struct Mon {
    /// entries and exits observed
    pub events: u64,
    pub budget: u64,
    pub oks: u64,
    pub errs: u64,
    /// successes / failures of patterns that had moved before failing inside
    pub nonempty_oks: u64,
    /// first violation of "a success reports exactly what it consumed"
    pub span_viol: Option<String>,
    /// first violation of "a failure restores the position"
    pub restore_viol: Option<String>,
    /// first violation of "lookahead never moves"
    pub zero_viol: Option<String>,
    pub rejects: u64,
    pub depth: u32,
    pub max_depth: u32,
    /// furthest offset ever observed during the run
    pub far: usize,
    /// failures of patterns entered below which the position had advanced
    pub rollbacks: u64,
}

thread_local! {
    pub static MON: RefCell<Mon> = RefCell::new(Mon::default());
}

thread_local! {
    static TRACE: RefCell<Option<Vec<Ev>>> = const { RefCell::new(None) };
}
/// from now on calls into user code are recorded
pub fn trace_on() {
    TRACE.with(|t| *t.borrow_mut() = Some(vec![]))
}
pub fn trace_take() -> Vec<Ev> {
    TRACE.with(|t| t.borrow_mut().take()).unwrap_or_default()
}
pub fn trace(e: Ev) {
    TRACE.with(|t| {
        if let Some(t) = t.borrow_mut().as_mut() {
            t.push(e)
        }
    })
}

/// a leaf whose outcome is decided by its number and the position
pub struct Spy(pub u32, pub bool);
impl<'a, C: Match<'a>> Regex<C> for Spy {
    fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
        let (pos, len) = (ctx.offset(), ctx.len());
        let x = spy_outcome(self.0, self.1, pos, len.saturating_sub(pos));
        trace(Ev::Part(self.0, pos, x));
        let n = x.ok_or_else(e_func)?;
        ctx.inc(n);
        Ok(Span::new(pos, n))
    }
}
impl<'a, C: Match<'a>> Ctor<C, Val, Rec> for Spy {
    fn construct(&self, ctx: &mut C, h: &mut Rec) -> Result<Val, Error> {
        let s = ctx.try_mat(self)?;
        h.invoke(ctx, &s)
    }
}

pub const BUDGET_MSG: &str = "nverif: step budget exhausted";

pub fn mon_reset(budget: u64) {
    MON.with(|m| {
        *m.borrow_mut() = Mon { budget, ..Default::default() };
    })
}

pub fn mon_take() -> Mon {
    MON.with(|m| m.borrow().clone())
}

pub type Dyn<'a, C> = Box<dyn Ctor<C, Val, Rec> + 'a>;

pub struct Probe<'a, C> {
    pub inner: Dyn<'a, C>,
    pub name: &'static str,
    pub zero: bool,
}

fn enter(off: usize) -> u64 {
    MON.with(|m| {
        let mut m = m.borrow_mut();
        m.events += 1;
        m.depth += 1;
        m.max_depth = m.max_depth.max(m.depth);
        m.far = m.far.max(off);
        if m.budget > 0 && m.events > m.budget {
            drop(m);
            panic!("{}", BUDGET_MSG);
        }
        m.rejects
    })
}

fn exit<F: FnOnce(&mut Mon)>(f: F) {
    MON.with(|m| {
        let mut m = m.borrow_mut();
        m.events += 1;
        m.depth = m.depth.saturating_sub(1);
        f(&mut m);
    })
}

impl<'a, C: Match<'a>> Regex<C> for Probe<'a, C> {
    fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
        let beg = ctx.offset();
        enter(beg);
        let ret = self.inner.try_parse(ctx);
        let end = ctx.offset();
        let name = self.name;
        match &ret {
            Ok(s) => {
                let len = ctx.len();
                let inside = ctx.orig_sub(s.beg, s.len).is_ok();
                exit(|m| {
                    m.oks += 1;
                    if s.len > 0 {
                        m.nonempty_oks += 1;
                    }
                    m.far = m.far.max(end);
                    let bad = s.beg < beg
                        || s.beg.checked_add(s.len) != Some(end)
                        || !inside
                        || end > len
                        || end < beg;
                    if bad && m.span_viol.is_none() {
                        m.span_viol = Some(format!(
                            "{name}: matched at {beg}, reports span beg={} len={}, position afterwards {end} (input length {len}, extractable {inside})",
                            s.beg, s.len
                        ));
                    }
                    if self.zero && (end != beg || s.len != 0) && m.zero_viol.is_none() {
                        m.zero_viol = Some(format!(
                            "{name}: zero-width pattern entered at {beg} left at {end}, span beg={} len={}",
                            s.beg, s.len
                        ));
                    }
                });
            }
            Err(e) => exit(|m| {
                m.errs += 1;
                if end != beg && m.restore_viol.is_none() {
                    m.restore_viol = Some(format!(
                        "{name}: failed with {e:?}, entered at {beg} left at {end}"
                    ));
                }
                if m.far > beg {
                    m.rollbacks += 1;
                }
            }),
        }
        ret
    }
}

impl<'a, C: Match<'a>> Ctor<C, Val, Rec> for Probe<'a, C> {
    fn construct(&self, ctx: &mut C, h: &mut Rec) -> Result<Val, Error> {
        let beg = ctx.offset();
        let rejects = enter(beg);
        let ret = self.inner.construct(ctx, h);
        let end = ctx.offset();
        let name = self.name;
        match &ret {
            Ok(_) => {
                let len = ctx.len();
                exit(|m| {
                    m.oks += 1;
                    m.far = m.far.max(end);
                    if end > beg {
                        m.nonempty_oks += 1;
                    }
                    if (end < beg || end > len) && m.span_viol.is_none() {
                        m.span_viol = Some(format!(
                            "{name}: constructed at {beg}, position afterwards {end} (input length {len})"
                        ));
                    }
                })
            }
            Err(e) => exit(|m| {
                m.errs += 1;
                // a value rejected after its match is not a failed match
                if end != beg && m.rejects == rejects && m.restore_viol.is_none() {
                    m.restore_viol = Some(format!(
                        "{name}: construction failed with {e:?}, entered at {beg} left at {end}"
                    ));
                }
                if m.far > beg {
                    m.rollbacks += 1;
                }
            }),
        }
        ret
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Inv {
    pub beg: usize,
    pub len: usize,
    pub rejected: bool,
    /// position of the context when the handler ran
    pub off: usize,
    pub extractable: bool,
}

/// Recording handler.
#[derive(Clone, Debug)]
pub struct Rec {
    pub log: Vec<Inv>,
    pub rej: Rej,
    /// hand out values whose lifetime is accounted for, and keep no log
    pub live: bool,
}

impl Rec {
    pub fn new(rej: Rej) -> Rec {
        Rec { log: vec![], rej, live: false }
    }
    pub fn live(rej: Rej) -> Rec {
        Rec { log: vec![], rej, live: true }
    }
}

// ------------------------------------------------------------ live instances

#[derive(Default)]
pub struct Ledger {
    /// per token: 1 live, 2 dropped
    pub state: Vec<u8>,
    pub live: usize,
    pub made: u64,
    pub dropped: u64,
    pub viol: Option<String>,
}
thread_local! {
    pub static LEDGER: RefCell<Ledger> = RefCell::new(Ledger::default());
    /// calls into user code until one of them panics
    static FUSE: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

/// a value that knows when it is made and dropped
#[derive(Debug, PartialEq)]
pub struct Token(usize);
impl Token {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Token {
        LEDGER.with(|l| {
            let mut l = l.borrow_mut();
            l.state.push(1);
            l.live += 1;
            l.made += 1;
            Token(l.state.len() - 1)
        })
    }
    pub fn id(&self) -> usize {
        self.0
    }
}
impl Clone for Token {
    fn clone(&self) -> Self {
        Token::new()
    }
}
impl Drop for Token {
    fn drop(&mut self) {
        LEDGER.with(|l| {
            let mut l = l.borrow_mut();
            match l.state.get(self.0) {
                Some(1) => {
                    let i = self.0;
                    l.state[i] = 2;
                    l.live -= 1;
                    l.dropped += 1;
                }
                x => {
                    let s = format!("value {} dropped although {}", self.0, if x.is_none() { "it was never made" } else { "it had been dropped before" });
                    l.viol.get_or_insert(s);
                }
            }
        })
    }
}

/// forgets all tokens, keeping the memory of the ledger
pub fn ledger_reset() {
    LEDGER.with(|l| {
        let mut l = l.borrow_mut();
        l.state.clear();
        l.live = 0;
        l.viol = None;
    })
}

/// the n-th call into user code from now panics; 0: none does
pub fn set_fuse(n: u64) {
    FUSE.with(|f| f.set(n))
}

/// what is left of the fuse
pub fn fuse_left() -> u64 {
    FUSE.with(|f| f.get())
}

/// called wherever the library calls the user's code
pub fn user_call() {
    FUSE.with(|f| match f.get() {
        0 => {}
        1 => {
            f.set(0);
            panic!("nverif:injected");
        }
        n => f.set(n - 1),
    })
}

impl<'a, C: Context<'a> + Match<'a>> Handler<C> for Rec {
    type Out = Val;
    type Error = Error;
    fn invoke(&mut self, ctx: &C, span: &Span) -> Result<Val, Error> {
        let rejected = self.rej.rejects(span.beg, span.len);
        trace(Ev::Handle(span.beg, span.len, !rejected));
        user_call();
        if self.live {
            if rejected {
                count_reject();
                return Err(e_handler());
            }
            return Ok(Val::Live(Token::new(), span.beg, span.len));
        }
        let n = self.log.len() as u32;
        self.log.push(Inv {
            beg: span.beg,
            len: span.len,
            rejected,
            off: ctx.offset(),
            extractable: ctx.orig_sub(span.beg, span.len).is_ok(),
        });
        if rejected {
            count_reject();
            Err(e_handler())
        } else {
            Ok(Val::Leaf(n, span.beg, span.len))
        }
    }
}

pub fn count_reject() {
    MON.with(|m| m.borrow_mut().rejects += 1)
}
