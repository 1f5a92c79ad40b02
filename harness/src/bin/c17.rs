//! C17: a wrapped, referenced, cloned or re-assembled parser against the bare one.
use neure::ctor::{
    self, Ctor, CtorIntoHelper, CtorOps, CtorRefAsDynCtor, Handler,
};
use neure::ctx::{BytesCtx, CharsCtx, Context, Match};
use neure::err::Error;
use neure::neu::{CRange, Condition, Neu, NeuCond, NeuIntoRegexOps, NeuOp};
use neure::regex::{self, Regex, RegexIntoHelper, RegexRefAsCtor, RegexRefAsDynRegex};
use neure::span::Span;
use nverif::ast::*;
use neure::ctor::DynamicCtorThenBuilderHelper;
use nverif::build::{build, conv, dyn_next, test_fn, wrap};
use nverif::case::*;
use nverif::ctxs::*;
use nverif::drv::{guarded, run, Obs, Plan};
use nverif::generate::*;
use nverif::probe::*;
use nverif::rng::Rng;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::{Arc, Mutex, OnceLock};

/// what one match and one construction did
#[derive(Clone, Debug, PartialEq)]
struct Seen {
    res: Result<Val, Error>,
    span: Option<(usize, usize)>,
    off: usize,
    log: Vec<Inv>,
    /// some value was turned down on the way
    rejected: bool,
}

impl Seen {
    /// where a rejected value leaves the position is not specified
    fn agrees(&self, want: &Seen) -> bool {
        self.res == want.res
            && self.span == want.span
            && self.log == want.log
            && (self.off == want.off || (want.rejected && want.res.is_err()))
    }
}

const BUDGET: u64 = 400_000;

fn see_match<'a, C: HCtx<'a>, P: Regex<C> + ?Sized>(p: &P, ctx: &mut C, start: usize) -> Seen {
    ctx.set_offset(start);
    mon_reset(BUDGET);
    let r = ctx.try_mat(p);
    Seen {
        span: r.as_ref().ok().map(|s| (s.beg, s.len)),
        res: r.map(|s| Val::Leaf(0, s.beg, s.len)),
        off: ctx.offset(),
        log: vec![],
        rejected: false,
    }
}

fn see_ctor<'a, C: HCtx<'a>, P: Ctor<C, Val, Rec> + ?Sized>(
    p: &P,
    ctx: &mut C,
    start: usize,
    rej: &Rej,
) -> Seen {
    ctx.set_offset(start);
    mon_reset(BUDGET);
    let mut h = Rec::new(rej.clone());
    let res = p.construct(ctx, &mut h);
    Seen { res: res.map(|v| v.erase()), span: None, off: ctx.offset(), log: h.log, rejected: mon_take().rejects > 0 }
}

struct Set {
    inputs: Vec<(Vec<u8>, usize)>,
    order: Vec<(usize, bool)>,
    rej: Rej,
    kind: u64,
    salt: Vec<usize>,
    /// a parser made on the way has no matching side
    ctor_only: bool,
}

/// runs `p` over the whole history and compares with the bare results
fn follow<'a, C: HCtx<'a>, P: Ctor<C, Val, Rec> + ?Sized>(
    what: &str,
    p: &P,
    s: &'a Set,
    mk: &dyn Fn(&'a [u8]) -> C,
    want: &[(Seen, Seen)],
    o: &mut Obs,
) -> Result<(), String> {
    for (n, (i, m)) in s.order.iter().enumerate() {
        let (inp, start) = &s.inputs[*i];
        let mut ctx = mk(inp);
        let (got, want) = if *m {
            (guarded(|| see_match(p, &mut ctx, *start))?, &want[*i].0)
        } else {
            (guarded(|| see_ctor(p, &mut ctx, *start, &s.rej))?, &want[*i].1)
        };
        o.events += 1;
        if !got.agrees(want) {
            return Err(format!(
                "{what}: use {n} ({} of input {} from {start}) gives {got:?}\nbare parser gives {want:?}",
                if *m { "match" } else { "construction" },
                show_input(inp, C::TEXT)
            ));
        }
    }
    Ok(())
}

/// a parser that can be cloned
struct Sh<'a, C>(Rc<Dyn<'a, C>>);
impl<C> Clone for Sh<'_, C> {
    fn clone(&self) -> Self {
        Sh(self.0.clone())
    }
}
impl<C> Regex<C> for Sh<'_, C> {
    fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
        self.0.try_parse(ctx)
    }
}
impl<C> Ctor<C, Val, Rec> for Sh<'_, C> {
    fn construct(&self, ctx: &mut C, h: &mut Rec) -> Result<Val, Error> {
        self.0.construct(ctx, h)
    }
}

// ------------------------------------------------------------ value wrappers

const VALUE_WRAPS: u64 = 22;

/// a wrapper around a value-producing parser, made from a fresh bare one
fn value_wrap<'a, C: HCtx<'a>>(kind: u64, p: Dyn<'a, C>) -> (&'static str, Dyn<'a, C>) {
    type A<C, I> = ctor::Adapter<C, I>;
    match kind {
        0 => ("Adapter::box", Box::new(A::<C, _>::r#box(p))),
        1 => ("clone of Adapter::rc", {
            let a = A::<C, _>::rc(p);
            Box::new(a.clone())
        }),
        2 => ("clone of Adapter::arc", {
            let a = A::<C, _>::arc(p);
            let b = a.clone();
            drop(a);
            Box::new(b)
        }),
        3 => ("Adapter::refcell", Box::new(A::<C, _>::refcell(p))),
        4 => ("Adapter::mutex", Box::new(A::<C, _>::mutex(p))),
        5 => ("Adapter::dyn_box", Box::new(A::<C, Box<dyn Ctor<C, Val, Rec> + 'a>>::dyn_box(p))),
        6 => ("Adapter::dyn_arc", Box::new(A::<C, Arc<dyn Ctor<C, Val, Rec> + 'a>>::dyn_arc(p))),
        7 => ("Adapter::dyn_rc", Box::new(A::<C, Rc<dyn Ctor<C, Val, Rec> + 'a>>::dyn_rc(p).clone())),
        8 => ("into_box", Box::new(CtorIntoHelper::<C>::into_box(p))),
        9 => ("into_refcell", Box::new(CtorIntoHelper::<C>::into_refcell(p))),
        10 => ("into_mutex", Box::new(CtorIntoHelper::<C>::into_mutex(p))),
        11 => ("Adapter::new of Some", Box::new(A::<C, _>::new(Some(p)))),
        12 => ("clone of Some(Rc)", {
            let a = Some(Rc::new(p));
            let b = a.clone();
            drop(a);
            Box::new(b)
        }),
        13 => ("Adapter::from + set_inner", {
            let mut a = A::<C, Sh<'a, C>>::from(Sh(Rc::new(Box::new(regex::fail()))));
            a.set_inner(Sh(Rc::new(p)));
            let b = a.clone();
            Box::new(b)
        }),
        14 => ("Adapter::with_inner, into_inner", {
            let a = A::<C, Sh<'a, C>>::new(Sh(Rc::new(Box::new(regex::empty())))).with_inner(Sh(Rc::new(p)));
            let mut b = A::<C, Sh<'a, C>>::new(a.inner().clone());
            *b.inner_mut() = a.into_inner();
            Box::new(b.into_inner())
        }),
        15 => ("OnceLock set late", {
            let l: OnceLock<Dyn<'a, C>> = OnceLock::new();
            let _ = l.set(p);
            let _ = l.set(Box::new(regex::fail()));
            Box::new(l)
        }),
        16 => ("Cell of Copy reference", {
            struct K<'a, C>(Dyn<'a, C>);
            impl<'a, C: HCtx<'a>> Regex<C> for K<'a, C> {
                fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
                    CtorIntoHelper::<C>::into_cell(self.0.as_dyn_ctor()).try_parse(ctx)
                }
            }
            impl<'a, C: HCtx<'a>> Ctor<C, Val, Rec> for K<'a, C> {
                fn construct(&self, ctx: &mut C, h: &mut Rec) -> Result<Val, Error> {
                    let a = ctor::Adapter::<C, _>::cell(self.0.as_dyn_ctor());
                    let r = a.construct(ctx, h);
                    // the cell must still hold the parser
                    let at = ctx.offset();
                    let _ = a.try_parse(&mut ctx.clone());
                    ctx.set_offset(at);
                    r
                }
            }
            Box::new(K(p))
        }),
        17 => ("copied as_dyn_ctor", {
            struct K<'a, C>(Dyn<'a, C>);
            impl<'a, C: HCtx<'a>> Regex<C> for K<'a, C> {
                fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
                    let a = self.0.as_dyn_ctor();
                    let b = a;
                    b.try_parse(ctx)
                }
            }
            impl<'a, C: HCtx<'a>> Ctor<C, Val, Rec> for K<'a, C> {
                fn construct(&self, ctx: &mut C, h: &mut Rec) -> Result<Val, Error> {
                    let a = self.0.as_dyn_ctor();
                    let b = a.clone();
                    b.construct(ctx, h)
                }
            }
            Box::new(K(p))
        }),
        18 => ("clone of into_rc", {
            let a = CtorIntoHelper::<C>::into_rc(p);
            let b = a.clone();
            drop(a);
            Box::new(b)
        }),
        19 => ("clone of into_dyn_arc", Box::new(CtorIntoHelper::<C>::into_dyn_arc::<Val, Rec>(p).clone())),
        20 => ("clone of into_box", {
            let a = CtorIntoHelper::<C>::into_box(Sh(Rc::new(p)));
            let b = a.clone();
            drop(a);
            Box::new(b)
        }),
        _ => ("Mutex in Arc in Some", Box::new(Some(Arc::new(Mutex::new(p))))),
    }
}

// ------------------------------------------------------------ match wrappers

const MATCH_WRAPS: u64 = 24;

/// a wrapper that treats its pattern as one token
fn match_wrap<'a, C: HCtx<'a>>(kind: u64, p: Dyn<'a, C>) -> (&'static str, Dyn<'a, C>) {
    type A<C, I> = regex::Adapter<C, I>;
    macro_rules! refd {
        ($name:literal, |$s:ident| $e:expr) => {{
            struct K<'a, C>(Dyn<'a, C>);
            impl<'a, C: HCtx<'a>> Regex<C> for K<'a, C> {
                fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
                    let $s = &self.0;
                    $e.try_parse(ctx)
                }
            }
            impl<'a, C: HCtx<'a>> Ctor<C, Val, Rec> for K<'a, C> {
                fn construct(&self, ctx: &mut C, h: &mut Rec) -> Result<Val, Error> {
                    let $s = &self.0;
                    $e.construct(ctx, h)
                }
            }
            ($name, Box::new(K(p)) as Dyn<'a, C>)
        }};
    }
    match kind {
        0 => ("into_ctor", Box::new(RegexIntoHelper::<C>::into_ctor(p))),
        1 => ("into_box_regex", Box::new(RegexIntoHelper::<C>::into_box_regex(p))),
        2 => ("into_rc_regex", Box::new(RegexIntoHelper::<C>::into_rc_regex(p).clone())),
        3 => ("into_arc_regex", Box::new(RegexIntoHelper::<C>::into_arc_regex(p).clone())),
        4 => ("into_refcell_regex", Box::new(RegexIntoHelper::<C>::into_refcell_regex(p))),
        5 => ("into_mutex_regex", Box::new(RegexIntoHelper::<C>::into_mutex_regex(p))),
        6 => ("into_dyn_regex", Box::new(RegexIntoHelper::<C>::into_dyn_regex(p))),
        7 => ("into_dyn_arc_regex", Box::new(RegexIntoHelper::<C>::into_dyn_arc_regex(p).clone())),
        8 => ("into_dyn_rc_regex", Box::new(RegexIntoHelper::<C>::into_dyn_rc_regex(p).clone())),
        9 => ("regex Adapter::box", Box::new(A::<C, _>::r#box(p))),
        10 => ("regex Adapter::rc", Box::new(A::<C, _>::rc(p))),
        11 => ("regex Adapter::arc", Box::new(A::<C, _>::arc(p))),
        12 => ("regex Adapter::refcell", Box::new(A::<C, _>::refcell(p))),
        13 => ("regex Adapter::mutex", Box::new(A::<C, _>::mutex(p))),
        14 => ("regex Adapter::dyn_box", Box::new(A::<C, Box<dyn Regex<C> + 'a>>::dyn_box(p))),
        15 => ("regex Adapter::dyn_arc", Box::new(A::<C, Arc<dyn Regex<C> + 'a>>::dyn_arc(p))),
        16 => ("regex Adapter::dyn_rc", Box::new(A::<C, Rc<dyn Regex<C> + 'a>>::dyn_rc(p))),
        17 => ("regex Adapter from, set_inner, clone", {
            let mut a = A::<C, Sh<'a, C>>::from(Sh(Rc::new(Box::new(regex::fail()))));
            a.set_inner(Sh(Rc::new(p)));
            Box::new(a.clone())
        }),
        18 => ("Box<dyn Regex>", {
            let b: Box<dyn Regex<C> + 'a> = Box::new(p);
            Box::new(b)
        }),
        19 => ("Rc<dyn Regex>", {
            let b: Rc<dyn Regex<C> + 'a> = Rc::new(p);
            Box::new(b)
        }),
        20 => ("clone of pat()", {
            let a = CtorOps::<'a, C>::pat(Sh(Rc::new(p)));
            let b = a.clone();
            drop(a);
            Box::new(b)
        }),
        21 => refd!("as_ctor", |s| s.as_ctor()),
        22 => refd!("into_cell_regex of as_dyn_regex", |s| RegexIntoHelper::<C>::into_cell_regex(
            s.as_dyn_regex()
        )),
        _ => refd!("copied as_dyn_regex", |s| {
            let a = s.as_dyn_regex();
            let b = a;
            b
        }),
    }
}

// ------------------------------------------- combinators cloned and re-made

fn pairv(v: (Val, Val)) -> Val {
    Val::Pair(Box::new(v.0), Box::new(v.1))
}
fn arrv<const N: usize>(v: [Option<Val>; N]) -> Val {
    Val::Arr(v.into_iter().collect())
}
fn optv(v: Option<Val>) -> Val {
    Val::Opt(v.map(Box::new))
}

/// the same combinator over the same parts: a clone that outlives its
/// original, and one put together through the setters
fn twins<'a, C: HCtx<'a>>(a: &Ast, via: u64) -> Option<Dyn<'a, C>> {
    type S<'a, C> = Sh<'a, C>;
    let b = |x: &Ast| -> S<'a, C> { Sh(Rc::new(build::<C>(x))) };
    let d = || -> S<'a, C> { Sh(Rc::new(Box::new(regex::fail()))) };
    macro_rules! tw {
        ($f:expr, $plain:expr, $set:expr) => {
            tw!($f, $plain, $set, $set)
        };
        ($f:expr, $plain:expr, $set:expr, $muts:expr) => {{
            if via == 1 {
                conv($set, $f)
            } else if via == 2 {
                conv($muts, $f)
            } else {
                let p = $plain;
                let q = p.clone();
                drop(p);
                conv(q, $f)
            }
        }};
    }
    macro_rules! mutd {
        ($e:expr, |$x:ident| $($body:expr);*) => {{
            let mut $x = $e;
            $($body;)*
            $x
        }};
    }
    let id = |v: Val| v;
    Some(match &a.k {
        K::Then(x, y) => tw!(
            pairv,
            CtorOps::<'a, C>::then(b(x), b(y)),
            mutd!(CtorOps::<'a, C>::then(d(), d()), |t| t.set_right(b(y)); t.set_left(b(x))),
            mutd!(CtorOps::<'a, C>::then(d(), d()), |t| *t.left_mut() = b(x); *t.right_mut() = b(y))
        ),
        K::Or(x, y) => tw!(
            id,
            CtorOps::<'a, C>::or(b(x), b(y)),
            mutd!(CtorOps::<'a, C>::or(d(), d()), |t| t.set_right(b(y)); t.set_left(b(x))),
            mutd!(CtorOps::<'a, C>::or(d(), d()), |t| *t.left_mut() = b(x); *t.right_mut() = b(y))
        ),
        K::Ltm(x, y) => tw!(
            id,
            CtorOps::<'a, C>::longest(b(x), b(y)),
            mutd!(CtorOps::<'a, C>::longest(d(), d()), |t| t.set_left(b(x)); *t.right_mut() = b(y)),
            mutd!(CtorOps::<'a, C>::longest(d(), d()), |t| t.set_right(b(y)); *t.left_mut() = b(x))
        ),
        K::Opt(x) => tw!(
            optv,
            CtorOps::<'a, C>::opt(b(x)),
            mutd!(CtorOps::<'a, C>::opt(d()), |t| t.set_pat(b(x))),
            mutd!(CtorOps::<'a, C>::opt(d()), |t| *t.pat_mut() = b(x))
        ),
        K::Repeat(r, x) => tw!(
            Val::List,
            CtorOps::<'a, C>::repeat(b(x), CRange::from(*r)).with_capacity(3),
            mutd!(CtorOps::<'a, C>::repeat(d(), 5..9), |t| t.set_range(CRange::from(*r)); t.set_pat(b(x)); t.set_capacity(1)),
            mutd!(CtorOps::<'a, C>::repeat(d(), 5..9), |t| t = t.with_capacity(10); *t.pat_mut() = b(x); t = t.with_range(CRange::from(*r)))
        ),
        K::Repeat2(1, x) => tw!(
            arrv::<1>,
            CtorOps::<'a, C>::repeat2::<1, 1>(b(x)),
            mutd!(CtorOps::<'a, C>::repeat2::<1, 1>(d()), |t| t.set_pat(b(x))),
            mutd!(CtorOps::<'a, C>::repeat2::<1, 1>(d()), |t| *t.pat_mut() = b(x))
        ),
        K::Repeat2(3, x) => tw!(
            arrv::<4>,
            CtorOps::<'a, C>::repeat2::<2, 4>(b(x)),
            mutd!(CtorOps::<'a, C>::repeat2::<2, 4>(d()), |t| *t.pat_mut() = b(x)),
            mutd!(CtorOps::<'a, C>::repeat2::<2, 4>(d()), |t| t.set_pat(b(x)))
        ),
        K::Collect(m, x) => tw!(
            Val::List,
            CtorOps::<'a, C>::collect::<Val, Vec<Val>>(b(x)).at_least(*m),
            mutd!(CtorOps::<'a, C>::collect::<Val, Vec<Val>>(d()), |t| t.set_min(*m); t.set_pat(b(x))),
            mutd!(CtorOps::<'a, C>::collect::<Val, Vec<Val>>(d()), |t| *t.pat_mut() = b(x); t = t.at_least(*m))
        ),
        K::Sep(m, k, x, y) => tw!(
            Val::List,
            CtorOps::<'a, C>::sep(b(x), b(y)).at_least(*m).with_skip(*k).with_capacity(2),
            mutd!(CtorOps::<'a, C>::sep(d(), d()), |t| t.set_min(*m); t.set_skip(*k); t.set_sep(b(y)); t.set_pat(b(x))),
            mutd!(CtorOps::<'a, C>::sep(d(), d()), |t| *t.pat_mut() = b(x); *t.sep_mut() = b(y); t = t.with_skip(*k); t = t.at_least(*m))
        ),
        K::SepC(m, k, x, y) => tw!(
            Val::List,
            CtorOps::<'a, C>::sep_collect::<_, Val, Vec<Val>>(b(x), b(y)).at_least(*m).with_skip(*k),
            mutd!(CtorOps::<'a, C>::sep_collect::<_, Val, Vec<Val>>(d(), d()), |t| t.set_min(*m); t.set_skip(*k); t.set_sep(b(y)); t.set_pat(b(x))),
            mutd!(CtorOps::<'a, C>::sep_collect::<_, Val, Vec<Val>>(d(), d()), |t| *t.pat_mut() = b(x); *t.sep_mut() = b(y); t = t.with_skip(*k); t = t.at_least(*m))
        ),
        K::Sep2(0, k, x, y) => tw!(
            arrv::<3>,
            CtorOps::<'a, C>::sep2::<_, 0, 3>(b(x), b(y)).with_skip(*k),
            mutd!(CtorOps::<'a, C>::sep2::<_, 0, 3>(d(), d()), |t| t.set_skip(*k); t.set_sep(b(y)); t.set_pat(b(x))),
            mutd!(CtorOps::<'a, C>::sep2::<_, 0, 3>(d(), d()), |t| *t.pat_mut() = b(x); *t.sep_mut() = b(y); t = t.with_skip(*k))
        ),
        K::SepOnce(x, s, y) => tw!(
            pairv,
            CtorOps::<'a, C>::sep_once(b(x), b(s), b(y)),
            mutd!(CtorOps::<'a, C>::sep_once(d(), d(), d()), |t| t.set_left(b(x)); t.set_sep(b(s)); t.set_right(b(y))),
            mutd!(CtorOps::<'a, C>::sep_once(d(), d(), d()), |t| *t.right_mut() = b(y); *t.sep_mut() = b(s); *t.left_mut() = b(x))
        ),
        K::Enclose(l, x, r) => tw!(
            id,
            CtorOps::<'a, C>::enclose(b(x), b(l), b(r)),
            mutd!(CtorOps::<'a, C>::enclose(d(), d(), d()), |t| t.set_close(b(r)); t.set_open(b(l)); t.set_pat(b(x))),
            mutd!(CtorOps::<'a, C>::enclose(d(), d(), d()), |t| *t.pat_mut() = b(x); *t.open_mut() = b(l); *t.close_mut() = b(r))
        ),
        K::Prefix(p, x) => tw!(
            id,
            CtorOps::<'a, C>::prefix(b(x), b(p)),
            mutd!(CtorOps::<'a, C>::prefix(d(), d()), |t| t.set_prefix(b(p)); t.set_pat(b(x))),
            mutd!(CtorOps::<'a, C>::prefix(d(), d()), |t| *t.pat_mut() = b(x); *t.prefix_mut() = b(p))
        ),
        K::Suffix(x, p) => tw!(
            id,
            CtorOps::<'a, C>::suffix(b(x), b(p)),
            mutd!(CtorOps::<'a, C>::suffix(d(), d()), |t| t.set_suffix(b(p)); t.set_pat(b(x))),
            mutd!(CtorOps::<'a, C>::suffix(d(), d()), |t| *t.pat_mut() = b(x); *t.suffix_mut() = b(p))
        ),
        K::IfThen(l, t, r) => tw!(
            |v: (Val, Option<Val>)| Val::Pair(Box::new(v.0), Box::new(optv(v.1))),
            CtorOps::<'a, C>::if_then(b(l), b(t), b(r)),
            mutd!(CtorOps::<'a, C>::if_then(d(), d(), d()), |z| z.set_test(b(t)); z.set_left(b(l)); z.set_right(b(r))),
            mutd!(CtorOps::<'a, C>::if_then(d(), d(), d()), |z| *z.right_mut() = b(r); *z.left_mut() = b(l); *z.test_mut() = b(t))
        ),
        K::Branch(t, x, y) => {
            let f = Rc::new(test_fn::<C>(t));
            let f = move |c: &C| f(c);
            tw!(
                id,
                CtorOps::<'a, C>::if_else(b(x), f.clone(), b(y)),
                mutd!(CtorOps::<'a, C>::if_else(d(), f.clone(), d()), |z| z.set_pat(b(x)); z.set_other(b(y)); z.set_test(f.clone())),
                mutd!(CtorOps::<'a, C>::if_else(d(), f.clone(), d()), |z| *z.test_mut() = f.clone(); *z.other_mut() = b(y); *z.pat_mut() = b(x))
            )
        }
        K::DynC(x, dk) => {
            let dk = dk.clone();
            let f = Rc::new(move |ctx: &mut C, v: &Val| {
                let (beg, len) = v.first_leaf().unwrap_or((0, 0));
                dyn_next::<C>(&dk, ctx, beg, len)
            });
            // the same type for every instance
            let f: Rc<dyn Fn(&mut C, &Val) -> Result<Dyn<'a, C>, Error> + 'a> = f;
            let m = |f: Rc<dyn Fn(&mut C, &Val) -> Result<Dyn<'a, C>, Error> + 'a>| move |c: &mut C, v: &Val| f(c, v);
            let wrong = m(Rc::new(|_: &mut C, _: &Val| Err(Error::Uid(3))));
            tw!(
                pairv,
                b(x).into_ctor_then_builder(m(f.clone())),
                mutd!(d().into_ctor_then_builder(wrong), |z| z.set_func(m(f.clone())); z.set_pat(b(x))),
                mutd!(d().into_ctor_then_builder(wrong), |z| *z.pat_mut() = b(x); *z.func_mut() = m(f.clone()))
            )
        }
        K::Pat(x) => tw!(
            id,
            CtorOps::<'a, C>::pat(b(x)),
            mutd!(CtorOps::<'a, C>::pat(d()), |z| z.set_pat(b(x))),
            mutd!(CtorOps::<'a, C>::pat(d()), |z| *z.pat_mut() = b(x))
        ),
        K::Map(tag, x) => {
            let tag = *tag;
            let f = move |v: Val| Val::Mapped(tag, Box::new(v));
            tw!(
                id,
                CtorOps::<'a, C>::map::<_, Val>(b(x), f),
                {
                    // every way to replace the mapper
                    let wrong = move |v: Val| Val::Mapped(tag.wrapping_add(1), Box::new(v));
                    let z = CtorOps::<'a, C>::map::<_, Val>(d(), wrong);
                    let mut z = z.map_to::<_, Val>(neure::map::mapper(f));
                    z.set_pat(b(x));
                    let again = neure::map::mapper(f);
                    z.set_mapper(again);
                    *z.mapper_mut() = z.mapper().clone();
                    z
                }
            )
        }
        K::Not(x) => tw!(
            id,
            regex::not(b(x)),
            mutd!(regex::peek(d()), |z| z.set_pat(b(x)); z.set_value(false))
        ),
        K::Peek(x) => tw!(id, regex::peek(b(x)), {
            let mut z = regex::not(d());
            z.set_pat(b(x));
            z.with_value(true)
        }),
        K::Table(0, ltm, false, v) => {
            let parts: Vec<S<'a, C>> = v.iter().map(b).collect();
            if *ltm {
                tw!(id, regex::vector_ltm(parts.clone()), regex::vector(parts).with_longest(true))
            } else {
                tw!(id, regex::vector(parts.clone()), {
                    let mut z = regex::vector_ltm(parts);
                    z.set_longest(false);
                    z
                })
            }
        }
        K::Table(1, ltm, false, v) if v.len() == 3 => {
            let arr = [b(&v[0]), b(&v[1]), b(&v[2])];
            if *ltm {
                tw!(id, regex::array_ltm(arr.clone()), {
                    let mut z = regex::array(arr);
                    z.set_longest(true);
                    z
                })
            } else {
                tw!(id, regex::array(arr.clone()), regex::array_ltm(arr).with_longest(false))
            }
        }
        K::Table(f, ltm, true, v) if *f == 0 || (*f == 1 && v.len() == 3) => {
            let parts: Vec<(S<'a, C>, u32)> =
                v.iter().enumerate().map(|(i, x)| (b(x), i as u32)).collect();
            let conv_f = |v: (Val, u32)| Val::Key(v.1, Box::new(v.0));
            match (f, ltm) {
                (0, true) => tw!(conv_f, regex::pair_vector_ltm(parts.clone()), {
                    let mut z = regex::pair_vector(parts);
                    z.set_longest(true);
                    z
                }),
                (0, false) => tw!(
                    conv_f,
                    regex::pair_vector(parts.clone()),
                    regex::pair_vector_ltm(parts).with_longest(false)
                ),
                (_, ltm) => {
                    let arr = [parts[0].clone(), parts[1].clone(), parts[2].clone()];
                    if *ltm {
                        tw!(conv_f, regex::pair_array_ltm(arr.clone()), regex::pair_array(arr).with_longest(true))
                    } else {
                        tw!(conv_f, regex::pair_array(arr.clone()), {
                            let mut z = regex::pair_array_ltm(arr);
                            z.set_longest(false);
                            z
                        })
                    }
                }
            }
        }
        _ => return None,
    })
}

// ---------------------------------------------------------------- units

#[derive(Clone, Copy)]
struct CondC(usize);
impl<'a, T: HItem, C: Match<'a> + Context<'a, Item = T>> NeuCond<'a, C> for CondC {
    fn check(&self, _: &C, item: &(usize, T)) -> Result<bool, Error> {
        Ok(self.0 == 0 || (item.0 + item.1.cp() as usize) % 5 != self.0)
    }
}

#[derive(Clone, Copy, Debug)]
struct CopyU(u32, u32);
impl<T: HItem> Neu<T> for CopyU {
    fn is_match(&self, x: &T) -> bool {
        x.cp() % self.0 != self.1
    }
    fn min_length(&self) -> usize {
        1
    }
}

/// the bare unit, one of the ways to hold it, and the repetition made of it
fn units<'a, C, T>(s: &'a Set, cls: &Cls, mk: &dyn Fn(&'a [u8]) -> C, o: &mut Obs) -> Result<(), String>
where
    T: HItem,
    C: HCtx<'a> + Context<'a, Item = T>,
{
    let copy = CopyU(3 + (s.salt[0] % 3) as u32, (s.salt[1] % 3) as u32);
    let cond = CondC(s.salt[2] % 4);
    let copied = s.salt[3] % 2 == 0;
    let form = s.salt[4] % 13;
    let op = s.salt[5] % 8;
    let way = s.salt[6] % 3;
    // which unit, and how it is held
    let bare = || -> Box<dyn Neu<T>> { if copied { Box::new(copy) } else { T::unit(cls) } };
    let held: Box<dyn Neu<T>> = match form {
        0 => Box::new(bare()),
        1 => Box::new(RefCell::new(bare())),
        2 => Box::new(Arc::new(bare())),
        3 => Box::new(Rc::new(bare())),
        4 => {
            let a: Arc<dyn Neu<T>> = Arc::from(bare());
            Box::new(a.clone())
        }
        5 => {
            let a: Rc<dyn Neu<T>> = Rc::from(bare());
            Box::new(a.clone())
        }
        6 if copied => Box::new(Cell::new(copy)),
        7 if copied => Box::new(Mutex::new(copy)),
        9..=12 => {
            // compounds that are the same unit once their parts are in place
            let no = || -> Box<dyn Neu<T>> { Box::new(neure::neu::never::<T>()) };
            let all = || -> Box<dyn Neu<T>> { Box::new(neure::neu::always::<T>()) };
            let muts = s.salt[9] % 2 == 0;
            macro_rules! parts {
                ($e:expr, $a:expr, $b:expr) => {{
                    let mut z = $e;
                    if muts {
                        *z.left_mut() = $a;
                        *z.right_mut() = $b;
                    } else {
                        z.set_left($a);
                        z.set_right($b);
                    }
                    Box::new(z)
                }};
            }
            match (form, s.salt[10] % 2) {
                (9, 0) => parts!(NeuOp::or(all(), all()), bare(), no()),
                (9, _) => parts!(NeuOp::or(all(), all()), no(), bare()),
                (10, 0) => parts!(NeuOp::and(no(), no()), bare(), all()),
                (10, _) => parts!(NeuOp::and(no(), no()), all(), bare()),
                _ => {
                    let mut z = NeuOp::not(all());
                    if muts {
                        *z.unit_mut() = Box::new(NeuOp::not(bare()));
                    } else {
                        z.set_unit(Box::new(NeuOp::not(bare())));
                    }
                    Box::new(z)
                }
            }
        }
        _ => {
            // a clone of a compound that is the same unit
            let a: Rc<dyn Neu<T>> = Rc::from(bare());
            let z = NeuOp::or(NeuOp::and(a.clone(), a.clone()), NeuOp::not(NeuOp::not(a)));
            Box::new(z.clone())
        }
    };
    for (inp, _) in &s.inputs {
        let ctx = mk(inp);
        let Ok(it) = ctx.peek_at(0) else { continue };
        let b = bare();
        for (_, x) in it {
            o.events += 1;
            let (w, g) = (b.is_match(&x), guarded(|| held.is_match(&x))?);
            if w != g {
                return Err(format!("held unit (form {form}) says {g} on {x:?}, the bare one {w}"));
            }
        }
    }
    let make = |u: Box<dyn Neu<T>>| -> Dyn<'a, C> {
        let u: Rc<dyn Neu<T>> = Rc::from(u);
        macro_rules! fin {
            ($e:expr) => {{
                let e = $e;
                let f = e.clone();
                drop(e);
                let g = f.set_cond(cond);
                let h = g.clone();
                drop(g);
                Box::new(h)
            }};
        }
        match op {
            0 => fin!(NeuIntoRegexOps::<'a, C>::once(u)),
            1 => fin!(NeuIntoRegexOps::<'a, C>::opt(u)),
            2 => fin!(NeuIntoRegexOps::<'a, C>::many0(u)),
            3 => fin!(NeuIntoRegexOps::<'a, C>::many1(u)),
            4 => fin!(NeuIntoRegexOps::<'a, C>::times(u, 1..3)),
            5 => fin!(NeuIntoRegexOps::<'a, C>::times(u, 2..)),
            6 => fin!(NeuIntoRegexOps::<'a, C>::between::<2, 3>(u)),
            _ => fin!(NeuIntoRegexOps::<'a, C>::then(u.clone(), u)),
        }
    };
    // the reference is put together without any clone or holder
    let plain = |u: Box<dyn Neu<T>>, v: Box<dyn Neu<T>>| -> Dyn<'a, C> {
        macro_rules! fin {
            ($e:expr) => {
                Box::new($e.set_cond(cond))
            };
        }
        match op {
            0 => fin!(NeuIntoRegexOps::<'a, C>::once(u)),
            1 => fin!(NeuIntoRegexOps::<'a, C>::opt(u)),
            2 => fin!(NeuIntoRegexOps::<'a, C>::many0(u)),
            3 => fin!(NeuIntoRegexOps::<'a, C>::many1(u)),
            4 => fin!(NeuIntoRegexOps::<'a, C>::times(u, 1..3)),
            5 => fin!(NeuIntoRegexOps::<'a, C>::times(u, 2..)),
            6 => fin!(NeuIntoRegexOps::<'a, C>::between::<2, 3>(u)),
            _ => fin!(NeuIntoRegexOps::<'a, C>::then(u, v)),
        }
    };
    // or through the setters
    let set = |u: Box<dyn Neu<T>>| -> Dyn<'a, C> {
        let u: Rc<dyn Neu<T>> = Rc::from(u);
        let n: Rc<dyn Neu<T>> = Rc::new(neure::neu::never::<T>());
        macro_rules! fin {
            ($e:expr) => {{
                let mut e = $e.set_cond(cond);
                e.set_unit(u);
                Box::new(e)
            }};
        }
        match op {
            0 => fin!(NeuIntoRegexOps::<'a, C>::once(n)),
            1 => fin!(NeuIntoRegexOps::<'a, C>::opt(n)),
            2 => fin!(NeuIntoRegexOps::<'a, C>::many0(n)),
            3 => fin!(NeuIntoRegexOps::<'a, C>::many1(n)),
            4 => {
                let mut e = NeuIntoRegexOps::<'a, C>::times(n, 4..9).set_cond(cond);
                e.set_unit(u);
                e.set_range(1..3);
                Box::new(e)
            }
            5 => fin!(NeuIntoRegexOps::<'a, C>::times(n, 2..)),
            6 => fin!(NeuIntoRegexOps::<'a, C>::between::<2, 3>(n)),
            _ => {
                let mut e = NeuIntoRegexOps::<'a, C>::then(n.clone(), n).set_cond(cond);
                e.set_left(u.clone());
                e.set_right(u);
                Box::new(e)
            }
        }
    };
    // or through the mutable parts
    let put = |u: Box<dyn Neu<T>>| -> Dyn<'a, C> {
        let u: Rc<dyn Neu<T>> = Rc::from(u);
        let n: Rc<dyn Neu<T>> = Rc::new(neure::neu::never::<T>());
        macro_rules! fin {
            ($e:expr) => {{
                let mut e = $e.set_cond(cond);
                *e.unit_mut() = u;
                Box::new(e)
            }};
        }
        match op {
            0 => fin!(NeuIntoRegexOps::<'a, C>::once(n)),
            1 => fin!(NeuIntoRegexOps::<'a, C>::opt(n)),
            2 => fin!(NeuIntoRegexOps::<'a, C>::many0(n)),
            3 => fin!(NeuIntoRegexOps::<'a, C>::many1(n)),
            4 => {
                let mut e = NeuIntoRegexOps::<'a, C>::times(n, 4..9).set_cond(cond);
                *e.unit_mut() = u;
                *e.range_mut() = (1..3).into();
                Box::new(e)
            }
            5 => fin!(NeuIntoRegexOps::<'a, C>::times(n, 2..)),
            6 => fin!(NeuIntoRegexOps::<'a, C>::between::<2, 3>(n)),
            _ => {
                let mut e = NeuIntoRegexOps::<'a, C>::then(n.clone(), n).set_cond(cond);
                *e.right_mut() = u.clone();
                *e.left_mut() = u;
                Box::new(e)
            }
        }
    };
    let want = bare_results(&|| plain(bare(), bare()), s, mk)?;
    let p = match way {
        0 => make(held),
        1 => set(held),
        _ => put(held),
    };
    o.count(&format!("held_unit:{form}"));
    follow(&format!("repetition {op} of a held unit (form {form}, cond {})", cond.0), &p, s, mk, &want, o)
}

fn bare_results<'a, C: HCtx<'a>>(
    fresh: &dyn Fn() -> Dyn<'a, C>,
    s: &'a Set,
    mk: &dyn Fn(&'a [u8]) -> C,
) -> Result<Vec<(Seen, Seen)>, String> {
    let mut v = vec![];
    for (inp, start) in &s.inputs {
        v.push((
            if s.ctor_only {
                Seen { res: Err(Error::Fail), span: None, off: 0, log: vec![], rejected: false }
            } else {
                guarded(|| see_match(&fresh(), &mut mk(inp), *start))?
            },
            guarded(|| see_ctor(&fresh(), &mut mk(inp), *start, &s.rej))?,
        ));
    }
    Ok(v)
}

/// what a token of this pattern gives
fn token_results<'a, C: HCtx<'a>>(
    fresh: &dyn Fn() -> Dyn<'a, C>,
    s: &'a Set,
    mk: &dyn Fn(&'a [u8]) -> C,
) -> Result<Vec<(Seen, Seen)>, String> {
    let mut v = bare_results(fresh, s, mk)?;
    for (i, (m, k)) in v.iter_mut().enumerate() {
        let mut ctx = mk(&s.inputs[i].0);
        *k = m.clone();
        k.span = None;
        if let Some((b, l)) = m.span {
            let mut h = Rec::new(s.rej.clone());
            ctx.set_offset(m.off);
            let r = guarded(|| Handler::<C>::invoke(&mut h, &ctx, &Span::new(b, l)))?;
            k.res = r.map(|v| v.erase()).map_err(Into::into);
            k.rejected = k.res.is_err();
            k.log = h.log;
        }
    }
    Ok(v)
}

/// literal forms and wrappers that ask for `Send` and `Sync`
macro_rules! typed {
    ($name:ident, $c:ident, $own:ty, $mk:expr) => {
        fn $name<'a>(s: &'a Set, lit: &[u8], lit2: &[u8], o: &mut Obs) -> Result<(), String> {
            type C<'a> = $c<'a>;
            let mk = |d: &'a [u8]| <C<'a> as HCtx>::mk(d);
            let own: fn(&[u8]) -> $own = $mk;
            let (l1, l2) = (own(lit), own(lit2));
            let (w1, w2) = (lit.to_vec(), lit2.to_vec());
            // reference: a hand-written comparison
            let reference = |two: bool| {
                let (w1, w2) = (w1.clone(), w2.clone());
                let b: Dyn<'a, C<'a>> = Box::new(move |ctx: &mut C<'a>| -> Result<Span, Error> {
                    let at = ctx.offset();
                    let rest = ctx.bytes_of(at, ctx.len() - at).unwrap_or_default();
                    for w in [&w1, &w2].into_iter().take(1 + two as usize) {
                        if rest.starts_with(w) {
                            ctx.inc(w.len());
                            return Ok(Span::new(at, w.len()));
                        }
                    }
                    Err(Error::Literal)
                });
                b
            };
            let one = bare_results(&|| reference(false), s, &mk)?;
            let two = bare_results(&|| reference(true), s, &mk)?;
            let p = || CtorOps::<'a, C<'a>>::or(l1.clone(), l2.clone());
            type KA<'a, I> = ctor::Adapter<C<'a>, I>;
            type RA<'a, I> = regex::Adapter<C<'a>, I>;
            let d: (&str, Dyn<'a, C<'a>>) = match s.kind % 18 {
                0 => ("dyn_box_send", Box::new(KA::<Box<dyn Ctor<C<'a>, Val, Rec> + Send + 'a>>::dyn_box_send(p()))),
                1 => ("dyn_box_sync", Box::new(KA::<Box<dyn Ctor<C<'a>, Val, Rec> + Send + Sync + 'a>>::dyn_box_sync(p()))),
                2 => ("dyn_arc_send", Box::new(KA::<Arc<dyn Ctor<C<'a>, Val, Rec> + Send + 'a>>::dyn_arc_send(p()))),
                3 => ("dyn_arc_sync", Box::new(KA::<Arc<dyn Ctor<C<'a>, Val, Rec> + Send + Sync + 'a>>::dyn_arc_sync(p()).clone())),
                4 => ("dyn_rc_send", Box::new(KA::<Rc<dyn Ctor<C<'a>, Val, Rec> + Send + 'a>>::dyn_rc_send(p()))),
                5 => ("regex dyn_box_send", Box::new(RA::<Box<dyn Regex<C<'a>> + Send + 'a>>::dyn_box_send(p()))),
                6 => ("regex dyn_box_sync", Box::new(RA::<Box<dyn Regex<C<'a>> + Send + Sync + 'a>>::dyn_box_sync(p()))),
                7 => ("regex dyn_arc_send", Box::new(RA::<Arc<dyn Regex<C<'a>> + Send + 'a>>::dyn_arc_send(p()))),
                8 => ("regex dyn_arc_sync", Box::new(RA::<Arc<dyn Regex<C<'a>> + Send + Sync + 'a>>::dyn_arc_sync(p()).clone())),
                9 => ("regex dyn_rc_send", Box::new(RA::<Rc<dyn Regex<C<'a>> + Send + 'a>>::dyn_rc_send(p()))),
                10 => ("Box<dyn Ctor + Send + Sync>", {
                    let b: Box<dyn Ctor<C<'a>, Val, Rec> + Send + Sync + 'a> = Box::new(p());
                    Box::new(b)
                }),
                11 => ("Box<dyn Regex + Send>", {
                    let b: Box<dyn Regex<C<'a>> + Send + 'a> = Box::new(p());
                    Box::new(b)
                }),
                12 => ("Box<dyn Regex + Send + Sync>", {
                    let b: Box<dyn Regex<C<'a>> + Send + Sync + 'a> = Box::new(p());
                    Box::new(b)
                }),
                13 => ("Rc<dyn Regex + Send>", {
                    let b: Rc<dyn Regex<C<'a>> + Send + 'a> = Rc::new(p());
                    Box::new(b)
                }),
                14 => ("Arc<dyn Ctor + Send>", {
                    let b: Arc<dyn Ctor<C<'a>, Val, Rec> + Send + 'a> = Arc::new(p());
                    Box::new(b)
                }),
                15 => ("Rc<dyn Ctor + Send>", {
                    let b: Rc<dyn Ctor<C<'a>, Val, Rec> + Send + 'a> = Rc::new(p());
                    Box::new(b)
                }),
                16 => ("Arc<dyn Ctor + Send + Sync>", {
                    let b: Arc<dyn Ctor<C<'a>, Val, Rec> + Send + Sync + 'a> = Arc::new(p());
                    Box::new(b.clone())
                }),
                _ => ("Box<dyn Ctor + Send>", {
                    let b: Box<dyn Ctor<C<'a>, Val, Rec> + Send + 'a> = Box::new(p());
                    Box::new(b)
                }),
            };
            o.count(&format!("shareable:{}", d.0));
            follow(d.0, &d.1, s, &mk, &two, o)?;
            // literal forms
            for f in 0..5u8 {
                let p = <C<'a> as HCtx>::lit(lit, f);
                follow(&format!("literal form {f}"), &p, s, &mk, &one, o)?;
            }
            // a literal value, cloned, used inside a choice
            let l = regex::literal(&l1[..]);
            let (a, b) = (l, l.clone());
            for (i, (inp, start)) in s.inputs.iter().enumerate() {
                for x in [&a, &b] {
                    let got = guarded(|| see_match::<C<'a>, _>(x, &mut mk(inp), *start))?;
                    if got != one[i].0 {
                        return Err(format!("copied literal gives {got:?}, want {:?}", one[i].0));
                    }
                }
            }
            Ok(())
        }
    };
}
typed!(typed_text, CharsCtx, String, |b| String::from_utf8(b.to_vec()).unwrap());
typed!(typed_bytes, BytesCtx, Vec<u8>, |b| b.to_vec());

// ------------------------------------------------------------------- absent

fn absent<'a, C: HCtx<'a>>(s: &'a Set, p: &Ast, mk: &dyn Fn(&'a [u8]) -> C, o: &mut Obs) -> Result<(), String> {
    let none: Option<Dyn<'a, C>> = None;
    let unset: OnceLock<Dyn<'a, C>> = OnceLock::new();
    for (n, (i, m)) in s.order.iter().enumerate() {
        let (inp, start) = &s.inputs[*i];
        let run = |p: &Dyn<'a, C>| {
            let mut c = mk(inp);
            if *m { see_match(p, &mut c, *start) } else { see_ctor(p, &mut c, *start, &s.rej) }
        };
        let got = guarded(|| {
            let mut c = mk(inp);
            if *m {
                (see_match(&none, &mut c, *start), see_match(&unset, &mut c, *start))
            } else {
                (see_ctor(&none, &mut c, *start, &s.rej), see_ctor(&unset, &mut c, *start, &s.rej))
            }
        })?;
        for (name, g) in [("None", &got.0), ("unset OnceLock", &got.1)] {
            o.events += 1;
            if g.res.is_ok() || g.off != *start || !g.log.is_empty() {
                return Err(format!("{name} on use {n} gives {g:?} from {start}"));
            }
        }
        // absent on one side of a choice: the other side decides
        let one = guarded(|| run(&build::<C>(p)))?;
        let with = guarded(|| {
            let z: Dyn<'a, C> = Box::new(CtorOps::<'a, C>::or(
                Sh(Rc::new(Box::new(None::<Dyn<'a, C>>) as Dyn<'a, C>)),
                Sh(Rc::new(build::<C>(p))),
            ));
            run(&z)
        })?;
        if !with.agrees(&one) {
            return Err(format!("absent or P gives {with:?}, P gives {one:?}"));
        }
    }
    // filling the lock makes it the parser
    let want = bare_results(&|| build::<C>(p), s, mk)?;
    let _ = unset.set(build::<C>(p));
    follow("OnceLock set after use", &unset, s, mk, &want, o)
}

fn check<'a, C, T>(c: &Case, s: &'a Set, mk: &dyn Fn(&'a [u8]) -> C, g: &Cfg, r: &mut Rng, o: &mut Obs) -> Result<bool, String>
where
    T: HItem,
    C: HCtx<'a> + Context<'a, Item = T>,
{
    let fresh = || build::<C>(&c.ast);
    match s.salt[7] % 8 {
        0 | 1 => {
            let want = bare_results(&fresh, s, mk)?;
            let (name, mut p) = value_wrap(s.kind % VALUE_WRAPS, fresh());
            let extra = s.salt[8] % 3;
            for i in 0..extra {
                p = wrap(s.salt[i] as u8 % WRAPS, p);
            }
            o.count(&format!("value_wrapper:{name}"));
            follow(name, &p, s, mk, &want, o)?;
            Ok(want.iter().any(|w| w.0.res.is_ok()) && want.iter().any(|w| w.0.res.is_err()))
        }
        2 | 3 => {
            let want = token_results(&fresh, s, mk)?;
            let (name, p) = match_wrap(s.kind % MATCH_WRAPS, fresh());
            o.count(&format!("token_wrapper:{name}"));
            follow(name, &p, s, mk, &want, o)?;
            Ok(want.iter().any(|w| w.0.res.is_ok()) && want.iter().any(|w| w.0.res.is_err()))
        }
        4 | 5 => {
            let via = s.kind % 3;
            let how = ["cloned", "put together by setters", "put together through mutable parts"][via as usize];
            let Some(p) = twins::<C>(&c.ast, via) else { return Ok(false) };
            let want = bare_results(&fresh, s, mk)?;
            o.count(&format!("{how}:{}", c.ast.name()));
            follow(how, &p, s, mk, &want, o)?;
            Ok(want.iter().any(|w| w.0.res.is_ok()) && want.iter().any(|w| w.0.res.is_err()))
        }
        6 => {
            let cls = gen_cls(r, g, 2);
            units::<C, T>(s, &cls, mk, o)?;
            Ok(true)
        }
        _ => {
            absent::<C>(s, &c.ast, mk, o)?;
            Ok(true)
        }
    }
}

fn case(r: &mut Rng, o: &mut Obs) -> Result<(), String> {
    let w = Want {
        rej: r.chance(1, 3),
        try_map: true,
        dync: true,
        depth: if o.thorough { 4 } else { 3 },
        ..Want::new(ALL)
    };
    let (c, g) = gen_case(r, &w);
    let mut s = Set {
        inputs: vec![(c.inp.clone(), c.start)],
        order: vec![],
        rej: c.rej.clone(),
        kind: r.next(),
        ctor_only: false,
        salt: (0..12).map(|_| r.below(1 << 20)).collect(),
    };
    let skip = if c.kind.policy() { Some(&c.skip) } else { None };
    for _ in 0..r.range(2, 5) {
        let (i, at) = gen_input(r, &g, &c.ast, skip);
        // an empty match skips or not: leave policies to runs that are specified
        s.inputs.push((i, at));
    }
    c.ast.walk(&mut |a| s.ctor_only |= matches!(a.k, K::DynC(..)));
    if s.ctor_only {
        s.salt[7] = 4;
    }
    for _ in 0..s.inputs.len() * 2 + 2 {
        s.order.push((r.below(s.inputs.len()), !s.ctor_only && r.chance(1, 2)));
    }
    // grammars whose reference run is too long are left out
    for (i, at) in &s.inputs {
        let x = Case { inp: i.clone(), start: *at, ..c.clone() };
        let mut m = x.model();
        let _ = m.k(&c.ast, *at);
        if !s.ctor_only {
            let _ = m.tm(&c.ast, *at, 0);
        }
        if m.over || m.steps > 4_000 {
            return Ok(());
        }
    }
    o.note(|| format!("{}\nfurther inputs {:?} history {:?} salt {:?} kind {}", c.show(), &s.inputs[1..], s.order, s.salt, s.kind));
    if s.salt[7] % 8 == 7 && s.salt[9] % 2 == 0 && matches!(c.kind, Kind::Chars | Kind::Bytes) {
        s.rej = Rej::None;
        // literals and shareable wrappers: cut from an input so that they occur
        let pick = |r: &mut Rng| -> Vec<u8> {
            let (i, at) = r.pick(&s.inputs).clone();
            let b = bounds(&i, c.kind.text());
            let k = b.iter().position(|x| *x >= at).unwrap_or(0);
            let e = (k + r.range(0, 3)).min(b.len() - 1);
            i[b[k]..b[e]].to_vec()
        };
        let (l1, l2) = (pick(r), pick(r));
        o.nontrivial(&format!("{l1:?}{l2:?}{}", c.key()));
        return if c.kind == Kind::Chars { typed_text(&s, &l1, &l2, o) } else { typed_bytes(&s, &l1, &l2, o) };
    }
    let skip = c.skip.clone();
    let nt = match c.kind {
        Kind::Chars => check::<CharsCtx, char>(&c, &s, &|d| HCtx::mk(d), &g, r, o),
        Kind::Bytes => check::<BytesCtx, u8>(&c, &s, &|d| HCtx::mk(d), &g, r, o),
        Kind::UText => check::<UText, char>(&c, &s, &|d| HCtx::mk(d), &g, r, o),
        Kind::UBytes => check::<UBytes, u8>(&c, &s, &|d| HCtx::mk(d), &g, r, o),
        Kind::PText => check::<PText, char>(&c, &s, &|d| pol_text(d, &skip), &g, r, o),
        Kind::PBytes => check::<PBytes, u8>(&c, &s, &|d| pol_bytes(d, &skip), &g, r, o),
    }?;
    if nt {
        o.nontrivial(&c.key());
    }
    Ok(())
}

fn main() {
    run(
        Plan {
            quick: 1_000_000,
            ..Plan::new("C17", "a random grammar run bare on a history of inputs, then in one wrapper, as a clone or re-assembled by setters over the same history; non-trivial when the history has both a success and a failure, or a held unit, an absent parser or a literal form was compared")
        },
        case,
    )
}
