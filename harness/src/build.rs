//! Builds real neure parsers from grammar descriptions, through the public API.
use crate::ast::*;
use crate::ctxs::*;
use crate::probe::*;
use neure::ctor::{self, Adapter, Ctor, CtorIntoHelper, CtorOps, CtorRefAsDynCtor};
use neure::ctor::DynamicCtorThenBuilderHelper;
use neure::err::Error;
use neure::neu::CRange;
use neure::regex::{self, Regex, RegexIntoHelper, RegexRefAsCtor, RegexRefAsDynRegex};
use neure::span::Span;
use std::cell::RefCell;
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::{Arc, Mutex, OnceLock};

/// forwards, turning the constructed value into a `Val`
pub struct Conv<P, I, F> {
    p: P,
    f: F,
    _m: PhantomData<fn() -> I>,
}

impl<P, I, F> Conv<P, I, F> {
    pub fn new(p: P, f: F) -> Self {
        Conv { p, f, _m: PhantomData }
    }
}
impl<C, P: Regex<C>, I, F> Regex<C> for Conv<P, I, F> {
    fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
        self.p.try_parse(ctx)
    }
}
impl<C, P: Ctor<C, I, H>, I, F: Fn(I) -> Val, H> Ctor<C, Val, H> for Conv<P, I, F> {
    fn construct(&self, ctx: &mut C, h: &mut H) -> Result<Val, Error> {
        self.p.construct(ctx, h).map(&self.f)
    }
}

pub fn conv<'a, C: HCtx<'a>, P, I, F>(p: P, f: F) -> Dyn<'a, C>
where
    P: Ctor<C, I, Rec> + 'a,
    F: Fn(I) -> Val + 'a,
    I: 'a,
{
    Box::new(Conv { p, f, _m: PhantomData })
}

/// owns what a borrowed table points to
struct SliceT<'a, C>(Vec<Dyn<'a, C>>, bool);
struct SliceP<'a, C>(Vec<(Dyn<'a, C>, u32)>, bool);

impl<'a, C: HCtx<'a>> Regex<C> for SliceT<'a, C> {
    fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
        if self.1 { regex::slice_ltm(&self.0).try_parse(ctx) } else { regex::slice(&self.0).try_parse(ctx) }
    }
}
impl<'a, C: HCtx<'a>> Ctor<C, Val, Rec> for SliceT<'a, C> {
    fn construct(&self, ctx: &mut C, h: &mut Rec) -> Result<Val, Error> {
        if self.1 { regex::slice_ltm(&self.0).construct(ctx, h) } else { regex::slice(&self.0).construct(ctx, h) }
    }
}
impl<'a, C: HCtx<'a>> Regex<C> for SliceP<'a, C> {
    fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
        if self.1 {
            regex::pair_slice_ltm(&self.0).try_parse(ctx)
        } else {
            regex::pair_slice(&self.0).try_parse(ctx)
        }
    }
}
impl<'a, C: HCtx<'a>> Ctor<C, (Val, u32), Rec> for SliceP<'a, C> {
    fn construct(&self, ctx: &mut C, h: &mut Rec) -> Result<(Val, u32), Error> {
        if self.1 {
            regex::pair_slice_ltm(&self.0).construct(ctx, h)
        } else {
            regex::pair_slice(&self.0).construct(ctx, h)
        }
    }
}

/// a copyable view of a parser kept alive beside it
struct CellP<'a, C> {
    inner: Dyn<'a, C>,
}
impl<'a, C: HCtx<'a>> Regex<C> for CellP<'a, C> {
    fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
        std::cell::Cell::new(self.inner.as_dyn_ctor()).try_parse(ctx)
    }
}
impl<'a, C: HCtx<'a>> Ctor<C, Val, Rec> for CellP<'a, C> {
    fn construct(&self, ctx: &mut C, h: &mut Rec) -> Result<Val, Error> {
        std::cell::Cell::new(self.inner.as_dyn_ctor()).construct(ctx, h)
    }
}

/// borrowed views of a pattern made for each use
struct View<'a, C>(Dyn<'a, C>, bool);
impl<'a, C: HCtx<'a>> Regex<C> for View<'a, C> {
    fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
        if self.1 { self.0.as_dyn_regex().try_parse(ctx) } else { self.0.as_ctor().try_parse(ctx) }
    }
}
impl<'a, C: HCtx<'a>> Ctor<C, Val, Rec> for View<'a, C> {
    fn construct(&self, ctx: &mut C, h: &mut Rec) -> Result<Val, Error> {
        if self.1 { self.0.as_dyn_regex().construct(ctx, h) } else { self.0.as_ctor().construct(ctx, h) }
    }
}

/// the forms that make one token of a pattern
fn one_token<'a, C: HCtx<'a>>(form: usize, p: Dyn<'a, C>) -> Dyn<'a, C> {
    match form % 17 {
        0 => Box::new(RegexIntoHelper::<C>::into_ctor(p)),
        1 => Box::new(RegexIntoHelper::<C>::into_box_regex(p)),
        2 => Box::new(RegexIntoHelper::<C>::into_rc_regex(p)),
        3 => Box::new(RegexIntoHelper::<C>::into_arc_regex(p)),
        4 => Box::new(RegexIntoHelper::<C>::into_refcell_regex(p)),
        5 => Box::new(RegexIntoHelper::<C>::into_dyn_regex(p)),
        6 => Box::new(RegexIntoHelper::<C>::into_dyn_arc_regex(p)),
        7 => Box::new(RegexIntoHelper::<C>::into_dyn_rc_regex(p)),
        8 => {
            let p: Box<dyn Regex<C> + 'a> = Box::new(p);
            Box::new(p)
        }
        9 => {
            let p: Rc<dyn Regex<C> + 'a> = Rc::new(p);
            Box::new(p)
        }
        10 => Box::new(View(p, true)),
        11 => Box::new(View(p, false)),
        _ => Box::new(CtorOps::<'a, C>::pat(p)),
    }
}

pub fn build<'a, C: HCtx<'a>>(a: &Ast) -> Dyn<'a, C> {
    let zero = matches!(a.k, K::Not(_) | K::Peek(_) | K::Start | K::End | K::Empty);
    Box::new(Probe { inner: raw(a), name: a.name(), zero })
}

fn bx(v: Val) -> Box<Val> {
    Box::new(v)
}

fn pairv(v: (Val, Val)) -> Val {
    Val::Pair(bx(v.0), bx(v.1))
}

fn arrv<const N: usize>(v: [Option<Val>; N]) -> Val {
    Val::Arr(v.into_iter().collect())
}

pub fn test_fn<'a, C: HCtx<'a>>(t: &TestK) -> impl Fn(&C) -> Result<bool, Error> + 'a {
    let t = t.clone();
    move |ctx: &C| {
        user_call();
        let x = match &t {
            TestK::Const(b) => Some(*b),
            TestK::Peek(c) => Some(ctx.next_item().is_some_and(|x| c.has(x.0))),
            TestK::Off(n) => Some(ctx.offset() % 2 == *n),
            TestK::Err => None,
        };
        trace(Ev::Test(ctx.offset(), x));
        x.ok_or_else(e_test)
    }
}

/// the parser a builder function makes of what was matched
pub fn dyn_next<'a, C: HCtx<'a>>(
    d: &DynK,
    ctx: &mut C,
    beg: usize,
    len: usize,
) -> Result<Dyn<'a, C>, Error> {
    user_call();
    trace(Ev::Build(ctx.offset()));
    Ok(match d {
        DynK::Backref => {
            let b = ctx.bytes_of(beg, len).ok_or(Error::OutOfBound)?;
            build::<C>(&Ast::new(K::Lit(b, 1)))
        }
        DynK::Count(c) => {
            let n = std::ops::Bound::Included(len % 4);
            build::<C>(&Ast::new(K::Unit(c.clone(), Op::Times((n, n)), CondK::None)))
        }
        DynK::Fixed(a) => build::<C>(a),
        DynK::Move(a) => {
            if let Some((_, w)) = ctx.next_item() {
                ctx.inc(w);
            }
            build::<C>(a)
        }
        DynK::Err => return Err(e_build()),
    })
}

pub fn raw<'a, C: HCtx<'a>>(a: &Ast) -> Dyn<'a, C> {
    let b = |x: &Ast| build::<C>(x);
    // method syntax would be ambiguous for boxed parsers
    type Op_<'a, C> = Dyn<'a, C>;
    match &a.k {
        K::Lit(v, f) => C::lit(v, *f),
        K::Unit(c, op, cond) => C::unit(c, op, cond),
        K::Unit2(x, y, c) => C::unit2(x, y, c),
        K::Start => Box::new(regex::start()),
        K::End => Box::new(regex::end()),
        K::Consume(n) => Box::new(regex::consume(*n)),
        K::ConsumeAll => Box::new(regex::consume_all()),
        K::Empty => Box::new(regex::empty()),
        K::Fail => Box::new(regex::fail()),
        K::Func(c) => C::func(c),
        K::NoneP => {
            let n: Option<Dyn<'a, C>> = None;
            Box::new(n)
        }
        K::Spy(id, solid) => Box::new(Spy(*id, *solid)),
        K::SelfRef => self_ref::<C>(),
        K::Not(x) => Box::new(regex::not(b(x))),
        K::Peek(x) => Box::new(regex::peek(b(x))),
        K::Then(x, y) => conv(<Op_<'a, C> as CtorOps<'a, C>>::then(b(x), b(y)), pairv),
        K::Or(x, y) => Box::new(<Op_<'a, C> as CtorOps<'a, C>>::or(b(x), b(y))),
        K::Ltm(x, y) => Box::new(<Op_<'a, C> as CtorOps<'a, C>>::longest(b(x), b(y))),
        K::Opt(x) => conv(<Op_<'a, C> as CtorOps<'a, C>>::opt(b(x)), |v: Option<Val>| {
            Val::Opt(v.map(bx))
        }),
        K::Repeat(r, x) => conv(
            <Op_<'a, C> as CtorOps<'a, C>>::repeat(b(x), CRange::from(*r)),
            |v: Vec<Val>| Val::List(v),
        ),
        K::Repeat2(i, x) => {
            let x = b(x);
            match i {
                0 => conv(<Op_<'a, C> as CtorOps<'a, C>>::repeat2::<0, 2>(x), arrv::<2>),
                1 => conv(<Op_<'a, C> as CtorOps<'a, C>>::repeat2::<1, 1>(x), arrv::<1>),
                2 => conv(<Op_<'a, C> as CtorOps<'a, C>>::repeat2::<1, 3>(x), arrv::<3>),
                3 => conv(<Op_<'a, C> as CtorOps<'a, C>>::repeat2::<2, 4>(x), arrv::<4>),
                4 => conv(<Op_<'a, C> as CtorOps<'a, C>>::repeat2::<0, 20>(x), arrv::<20>),
                5 => conv(<Op_<'a, C> as CtorOps<'a, C>>::repeat2::<17, 40>(x), arrv::<40>),
                _ => panic!("harness: repeat2 index"),
            }
        }
        K::Collect(m, x) => conv(
            <Op_<'a, C> as CtorOps<'a, C>>::collect::<Val, Vec<Val>>(b(x)).at_least(*m),
            |v: Vec<Val>| Val::List(v),
        ),
        K::Sep(m, skip, e, s) => conv(
            <Op_<'a, C> as CtorOps<'a, C>>::sep(b(e), b(s)).at_least(*m).with_skip(*skip),
            |v: Vec<Val>| Val::List(v),
        ),
        K::Sep2(i, skip, e, s) => {
            let (e, s) = (b(e), b(s));
            macro_rules! s2 {
                ($m:literal, $n:literal) => {
                    conv(
                        <Op_<'a, C> as CtorOps<'a, C>>::sep2::<_, $m, $n>(e, s).with_skip(*skip),
                        arrv::<$n>,
                    )
                };
            }
            match i {
                0 => s2!(0, 3),
                1 => s2!(1, 2),
                2 => s2!(2, 2),
                3 => s2!(1, 4),
                4 => s2!(0, 20),
                5 => s2!(17, 40),
                _ => panic!("harness: sep2 index"),
            }
        }
        K::SepC(m, skip, e, s) => {
            use std::collections::VecDeque;
            let p = <Op_<'a, C> as CtorOps<'a, C>>::sep_collect::<_, Val, VecDeque<Val>>(b(e), b(s))
                .at_least(*m)
                .with_skip(*skip);
            conv(p, |v: VecDeque<Val>| Val::List(v.into_iter().collect()))
        }
        K::SepOnce(x, s, y) => {
            conv(<Op_<'a, C> as CtorOps<'a, C>>::sep_once(b(x), b(s), b(y)), pairv)
        }
        K::Enclose(o, x, c) => {
            Box::new(<Op_<'a, C> as CtorOps<'a, C>>::enclose(b(x), b(o), b(c)))
        }
        K::Prefix(p, x) => Box::new(<Op_<'a, C> as CtorOps<'a, C>>::prefix(b(x), b(p))),
        K::Suffix(x, s) => Box::new(<Op_<'a, C> as CtorOps<'a, C>>::suffix(b(x), b(s))),
        K::IfThen(l, t, r) => conv(
            <Op_<'a, C> as CtorOps<'a, C>>::if_then(b(l), b(t), b(r)),
            |v: (Val, Option<Val>)| Val::Pair(bx(v.0), bx(Val::Opt(v.1.map(bx)))),
        ),
        K::Branch(t, x, y) => {
            if let TestK::Const(_) = t {
                Box::new(ctor::branch(test_fn::<C>(t), b(x), b(y)))
            } else {
                Box::new(<Op_<'a, C> as CtorOps<'a, C>>::if_else(b(x), test_fn::<C>(t), b(y)))
            }
        }
        K::Pat(x) => one_token(x.size() * 5 + x.name().len(), b(x)),
        K::Map(tag, x) => {
            let tag = *tag;
            Box::new(<Op_<'a, C> as CtorOps<'a, C>>::map::<_, Val>(b(x), move |v: Val| {
                user_call();
                trace(Ev::Map(tag));
                Val::Mapped(tag, bx(v))
            }))
        }
        K::TryMap(r, x) => {
            let r = r.clone();
            Box::new(<Op_<'a, C> as CtorOps<'a, C>>::try_map::<_, Val>(b(x), move |v: Val| {
                user_call();
                trace(Ev::TryMap(!r.rejects(&v)));
                if r.rejects(&v) {
                    count_reject();
                    Err(e_map())
                } else {
                    Ok(Val::Mapped(0, bx(v)))
                }
            }))
        }
        K::Sel0(x, y) => conv(
            <Op_<'a, C> as CtorOps<'a, C>>::then(b(x), b(y))._0::<(Val, Val)>(),
            |v: Val| Val::Mapped(100, bx(v)),
        ),
        K::Sel1(x, y) => conv(
            <Op_<'a, C> as CtorOps<'a, C>>::then(b(x), b(y))._1::<(Val, Val)>(),
            |v: Val| Val::Mapped(101, bx(v)),
        ),
        K::Table(form, ltm, pair, v) => table(*form, *ltm, *pair, v.iter().map(b).collect()),
        K::Wrap(kind, x) => wrap(*kind, b(x)),
        K::DynR(x, d) => {
            let d = d.clone();
            let p = regex::into_regex_builder(b(x), move |ctx: &mut C, s: &Span| {
                dyn_next::<C>(&d, ctx, s.beg, s.len)
            });
            Box::new(CtorOps::<'a, C>::pat(p))
        }
        K::DynC(x, d) => {
            let d = d.clone();
            let p = b(x).into_ctor_then_builder(move |ctx: &mut C, v: &Val| {
                let (beg, len) = v.first_leaf().unwrap_or((0, 0));
                dyn_next::<C>(&d, ctx, beg, len)
            });
            conv(p, pairv)
        }
    }
}

fn key(v: (Val, u32)) -> Val {
    Val::Key(v.1, bx(v.0))
}

fn table<'a, C: HCtx<'a>>(form: u8, ltm: bool, pair: bool, v: Vec<Dyn<'a, C>>) -> Dyn<'a, C> {
    let form = form % TABLE_FORMS;
    let n = v.len();
    macro_rules! array {
        ($v:expr, $n:expr, $plain:path, $ltm:path, |$p:ident| $fin:expr) => {{
            let a: [_; $n] = $v.try_into().ok().unwrap();
            if ltm {
                let $p = $ltm(a);
                $fin
            } else {
                let $p = $plain(a);
                $fin
            }
        }};
    }
    if pair {
        let v: Vec<(Dyn<'a, C>, u32)> =
            v.into_iter().enumerate().map(|(i, x)| (x, i as u32)).collect();
        match form {
            0 if ltm => conv(regex::pair_vector_ltm(v), key),
            0 => conv(regex::pair_vector(v), key),
            1 if n == 3 => array!(v, 3, regex::pair_array, regex::pair_array_ltm, |p| conv(p, key)),
            1 if n == BIG_ARRAY => {
                array!(v, BIG_ARRAY, regex::pair_array, regex::pair_array_ltm, |p| conv(p, key))
            }
            1 => panic!("harness: array table"),
            _ => conv(SliceP(v, ltm), key),
        }
    } else {
        match form {
            0 if ltm => Box::new(regex::vector_ltm(v)),
            0 => Box::new(regex::vector(v)),
            1 if n == 3 => array!(v, 3, regex::array, regex::array_ltm, |p| Box::new(p)),
            1 if n == BIG_ARRAY => array!(v, BIG_ARRAY, regex::array, regex::array_ltm, |p| Box::new(p)),
            1 => panic!("harness: array table"),
            _ => Box::new(SliceT(v, ltm)),
        }
    }
}

pub fn wrap<'a, C: HCtx<'a>>(kind: u8, p: Dyn<'a, C>) -> Dyn<'a, C> {
    match kind % WRAPS {
        0 => Box::new(CtorIntoHelper::<C>::into_box(p)),
        1 => Box::new(CtorIntoHelper::<C>::into_rc(p)),
        2 => Box::new(CtorIntoHelper::<C>::into_arc(p)),
        3 => Box::new(RefCell::new(p)),
        #[cfg(feature = "std")]
        4 => Box::new(Mutex::new(p)),
        5 => Box::new(Some(p)),
        #[cfg(feature = "std")]
        6 => {
            let o = OnceLock::new();
            let _ = o.set(p);
            Box::new(o)
        }
        7 => Box::new(CtorIntoHelper::<C>::into_dyn::<Val, Rec>(p)),
        8 => Box::new(CtorIntoHelper::<C>::into_dyn_arc::<Val, Rec>(p)),
        9 => Box::new(CtorIntoHelper::<C>::into_dyn_rc::<Val, Rec>(p)),
        10 => {
            let r: Rc<dyn Ctor<C, Val, Rec> + 'a> = Rc::from(p);
            Box::new(r)
        }
        11 => {
            let r: Arc<dyn Ctor<C, Val, Rec> + 'a> = Arc::from(p);
            Box::new(r)
        }
        12 => Box::new(CellP { inner: p }),
        #[cfg(not(feature = "std"))]
        _ => Box::new(Some(p)),
        #[cfg(feature = "std")]
        _ => {
            let a: Adapter<C, Mutex<Dyn<'a, C>>> = CtorIntoHelper::<C>::into_mutex(p);
            let r = Box::new(Rc::new(a));
            r
        }
    }
}

// ---------------------------------------------------------------- recursion

thread_local! {
    /// points to the `RecSlot` of the recursive parser being built
    static SELF: std::cell::Cell<*const ()> = const { std::cell::Cell::new(std::ptr::null()) };
}

/// A self reference that can be cut, so that a recursive parser, which
/// refers to itself, can be dropped.
/// Every copy holds a reference of its own, as in a grammar that clones its
/// argument wherever it refers to itself.
pub struct Knot<T>(Hold<T>, Arc<Mutex<Vec<Hold<T>>>>);
type Hold<T> = Arc<Mutex<Option<T>>>;
impl<T: Clone> Clone for Knot<T> {
    fn clone(&self) -> Self {
        let h = Arc::new(Mutex::new(Some(self.get())));
        self.1.lock().unwrap().push(h.clone());
        Knot(h, self.1.clone())
    }
}
impl<T: Clone> Knot<T> {
    pub fn new(t: T) -> Knot<T> {
        let h = Arc::new(Mutex::new(Some(t)));
        Knot(h.clone(), Arc::new(Mutex::new(vec![h])))
    }
    pub fn cut(&self) {
        let all = std::mem::take(&mut *self.1.lock().unwrap());
        for h in all {
            let t = h.lock().unwrap().take();
            drop(t);
        }
    }
    fn get(&self) -> T {
        self.0.lock().unwrap().clone().expect("harness: cut knot")
    }
}
impl<C, T: Regex<C> + Clone> Regex<C> for Knot<T> {
    fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
        self.get().try_parse(ctx)
    }
}
impl<C, O, H, T: Ctor<C, O, H> + Clone> Ctor<C, O, H> for Knot<T> {
    fn construct(&self, ctx: &mut C, h: &mut H) -> Result<O, Error> {
        self.get().construct(ctx, h)
    }
}

pub enum RecSlot<'a, C> {
    Plain(Knot<regex::RecursiveCtor<'a, C, Val, Rec>>),
    #[cfg(feature = "std")]
    Shared(Knot<regex::RecursiveCtorSync<'a, C, Val, Rec>>),
}

fn self_ref<'a, C: HCtx<'a>>() -> Dyn<'a, C> {
    let p = SELF.with(|s| s.get()) as *const RecSlot<'a, C>;
    assert!(!p.is_null(), "harness: self reference outside of a recursive parser");
    // set by `rec_build` below for the same context type, for the time of the build
    match unsafe { &*p } {
        RecSlot::Plain(r) => Box::new(r.clone()),
        #[cfg(feature = "std")]
        RecSlot::Shared(r) => Box::new(r.clone()),
    }
}

/// only ever used by the thread that made it
struct Here<T>(T);
unsafe impl<T> Send for Here<T> {}
unsafe impl<T> Sync for Here<T> {}
impl<C, T: Regex<C>> Regex<C> for Here<T> {
    fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
        self.0.try_parse(ctx)
    }
}
impl<C, O, H, T: Ctor<C, O, H>> Ctor<C, O, H> for Here<T> {
    fn construct(&self, ctx: &mut C, h: &mut H) -> Result<O, Error> {
        self.0.construct(ctx, h)
    }
}

/// owns a recursive parser and cuts it loose when dropped
pub struct RecOwner<'a, C>(Dyn<'a, C>, Box<dyn Fn() + 'a>);
impl<'a, C: HCtx<'a>> Regex<C> for RecOwner<'a, C> {
    fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
        self.0.try_parse(ctx)
    }
}
impl<'a, C: HCtx<'a>> Ctor<C, Val, Rec> for RecOwner<'a, C> {
    fn construct(&self, ctx: &mut C, h: &mut Rec) -> Result<Val, Error> {
        self.0.construct(ctx, h)
    }
}
impl<C> Drop for RecOwner<'_, C> {
    fn drop(&mut self) {
        (self.1)()
    }
}

/// the recursive parser whose self references stand for the whole of it
pub fn rec_build<'a, C: HCtx<'a>>(a: &Ast, form: u8) -> RecOwner<'a, C> {
    use neure::regex::RecursiveParser;
    #[cfg(feature = "std")]
    use neure::regex::RecursiveParserSync;
    let with = |slot: RecSlot<'a, C>| -> Dyn<'a, C> {
        let old = SELF.with(|s| s.replace(&slot as *const _ as *const ()));
        let d = build::<C>(a);
        SELF.with(|s| s.set(old));
        d
    };
    macro_rules! mk {
        ($slot:ident, $wrap:expr, $($f:tt)+) => {{
            let knot = RefCell::new(None);
            let p = $($f)+(|c| {
                let k = Knot::new(c);
                *knot.borrow_mut() = Some(k.clone());
                $wrap(with(RecSlot::$slot(k)))
            });
            let k = knot.into_inner().expect("harness: knot");
            RecOwner(Box::new(p), Box::new(move || k.cut()))
        }};
    }
    let form = if cfg!(feature = "std") { form % 5 } else { form % 2 };
    match form {
        0 => mk!(Plain, |x| x, regex::rec_parser),
        #[cfg(not(feature = "std"))]
        _ => mk!(Plain, |x| x, <regex::RecParser as RecursiveParser<'a, C>>::build),
        #[cfg(feature = "std")]
        1 => mk!(Plain, |x| x, <regex::RecParser as RecursiveParser<'a, C>>::build),
        #[cfg(feature = "std")]
        2 => mk!(Shared, Here, regex::rec_parser_sync),
        #[cfg(feature = "std")]
        3 => mk!(Shared, Here, <regex::RecParserSync as RecursiveParserSync<'a, C>>::build),
        #[cfg(feature = "std")]
        _ => mk!(Shared, Here, <regex::RecParserSync as RecursiveParserSync<'a, C>>::build_with),
    }
}
