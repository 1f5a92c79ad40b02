//! C19: one parser shared by threads; every thread must see what a
//! sequential run sees.  Probes around the nodes inject yields and record
//! the interleaving; counters inside locks watch mutual exclusion.
use neure::ctor::{self, Ctor, CtorOps};
use neure::ctx::{BytesCtx, CharsCtx, Context, Match};
use neure::err::Error;
use neure::neu::{self, CRange, Condition, Neu, NeuCond, NeuIntoRegexOps, NeuOp};
use neure::regex::{self, Regex};
use neure::span::Span;
use nverif::ast::*;
use nverif::build::{Conv, Knot};
use nverif::case::*;
use nverif::ctxs::*;
use nverif::drv::{guarded, run, Obs, Plan};
use nverif::generate::*;
use nverif::probe::*;
use nverif::rng::Rng;
use std::cell::Cell;
use std::marker::PhantomData;
use std::sync::atomic::{AtomicU32, AtomicU8, AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Barrier, Mutex, OnceLock};

type SD<'a, C> = Box<dyn Ctor<C, Val, Rec> + Send + Sync + 'a>;

const LOG: usize = 192;

/// what the probes of one case saw
struct Seen {
    at: AtomicUsize,
    log: [AtomicU8; LOG],
    inside: AtomicU32,
    max_inside: AtomicU32,
    /// entries of a locked parser while another thread was in it
    broken_locks: AtomicU32,
    locked_entries: AtomicU32,
}

thread_local! {
    static TID: Cell<u8> = const { Cell::new(0) };
    static YIELD: Cell<u64> = const { Cell::new(0) };
}

impl Seen {
    fn new() -> Arc<Seen> {
        Arc::new(Seen {
            at: AtomicUsize::new(0),
            log: [const { AtomicU8::new(0) }; LOG],
            inside: AtomicU32::new(0),
            max_inside: AtomicU32::new(0),
            broken_locks: AtomicU32::new(0),
            locked_entries: AtomicU32::new(0),
        })
    }
    fn touch(&self) {
        let t = TID.with(|t| t.get());
        if t == 0 {
            return;
        }
        let i = self.at.fetch_add(1, Relaxed);
        if i < LOG {
            self.log[i].store(t, Relaxed);
        }
        let y = YIELD.with(|y| {
            let mut s = y.get();
            s ^= s << 13;
            s ^= s >> 7;
            s ^= s << 17;
            y.set(s);
            s
        });
        match y % 32 {
            0..=5 => std::thread::yield_now(),
            6..=8 => (0..y % 200).for_each(|_| std::hint::spin_loop()),
            9 if y % 17 == 0 => std::thread::sleep(std::time::Duration::from_micros(20)),
            _ => {}
        }
    }
    fn interleaving(&self) -> Vec<u8> {
        let n = self.at.load(Relaxed).min(LOG);
        self.log[..n].iter().map(|x| x.load(Relaxed)).collect()
    }
}

struct Node<'a, C> {
    p: SD<'a, C>,
    seen: Arc<Seen>,
}
impl<C> Node<'_, C> {
    fn go<T>(&self, f: impl FnOnce() -> T) -> T {
        self.seen.touch();
        let n = self.seen.inside.fetch_add(1, Relaxed) + 1;
        self.seen.max_inside.fetch_max(n, Relaxed);
        let r = f();
        self.seen.inside.fetch_sub(1, Relaxed);
        self.seen.touch();
        r
    }
}
impl<C> Regex<C> for Node<'_, C> {
    fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
        self.go(|| self.p.try_parse(ctx))
    }
}
impl<C> Ctor<C, Val, Rec> for Node<'_, C> {
    fn construct(&self, ctx: &mut C, h: &mut Rec) -> Result<Val, Error> {
        self.go(|| self.p.construct(ctx, h))
    }
}

/// lives inside a lock: not shareable, counts its entries in a plain cell
struct Inside<'a, C> {
    p: SD<'a, C>,
    seen: Arc<Seen>,
    here: Arc<AtomicU32>,
    count: Cell<u32>,
}
impl<C> Inside<'_, C> {
    fn go<T>(&self, f: impl FnOnce() -> T) -> T {
        if self.here.fetch_add(1, Relaxed) != 0 {
            self.seen.broken_locks.fetch_add(1, Relaxed);
        }
        self.seen.locked_entries.fetch_add(1, Relaxed);
        let n = self.count.get();
        self.seen.touch();
        self.count.set(n + 1);
        let r = f();
        self.here.fetch_sub(1, Relaxed);
        r
    }
}
impl<C> Regex<C> for Inside<'_, C> {
    fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
        self.go(|| self.p.try_parse(ctx))
    }
}
impl<C> Ctor<C, Val, Rec> for Inside<'_, C> {
    fn construct(&self, ctx: &mut C, h: &mut Rec) -> Result<Val, Error> {
        self.go(|| self.p.construct(ctx, h))
    }
}

struct SU(Cls);
impl<T: HItem> Neu<T> for SU {
    fn is_match(&self, x: &T) -> bool {
        self.0.has(x.cp())
    }
    fn min_length(&self) -> usize {
        1
    }
}
#[derive(Clone)]
struct SCond(CondK);
impl<'a, T: HItem, C: Match<'a> + Context<'a, Item = T>> NeuCond<'a, C> for SCond {
    fn check(&self, _: &C, item: &(usize, T)) -> Result<bool, Error> {
        Ok(match &self.0 {
            CondK::Even => item.0 % 2 == 0,
            CondK::Lt(n) => item.0 < *n,
            CondK::Cls(c) => c.has(item.1.cp()),
            CondK::ErrAt(n) if item.0 >= *n => return Err(e_cond()),
            _ => true,
        })
    }
}

trait SCtx<'a>: HCtx<'a> {
    fn s_unit(c: &Cls, op: &Op, k: &CondK) -> SD<'a, Self>;
    fn s_lit(b: &[u8]) -> SD<'a, Self>;
}

fn unit<'a, C, T>(c: &Cls, op: &Op, k: &CondK) -> SD<'a, C>
where
    T: HItem + Send + Sync,
    C: HCtx<'a> + Context<'a, Item = T> + Send + Sync,
{
    macro_rules! ops {
        ($u:expr) => {{
            let u = $u;
            macro_rules! fin {
                ($x:expr) => {
                    if *k == CondK::None { Box::new($x) as SD<'a, C> } else { Box::new($x.set_cond(SCond(k.clone()))) }
                };
            }
            match op {
                Op::Once => fin!(NeuIntoRegexOps::<'a, C>::once(u)),
                Op::Opt => fin!(NeuIntoRegexOps::<'a, C>::opt(u)),
                Op::Many0 => fin!(NeuIntoRegexOps::<'a, C>::many0(u)),
                Op::Many1 => fin!(NeuIntoRegexOps::<'a, C>::many1(u)),
                Op::Times(r) => fin!(NeuIntoRegexOps::<'a, C>::times(u, CRange::from(*r))),
                Op::Between(i) => fin!(NeuIntoRegexOps::<'a, C>::times(u, BETWEEN[*i].0..=BETWEEN[*i].1)),
            }
        }};
    }
    match c {
        Cls::Or(a, b) => ops!(Arc::new(NeuOp::or(SU((**a).clone()), SU((**b).clone())))),
        Cls::And(a, b) => ops!(NeuOp::and(SU((**a).clone()), SU((**b).clone()))),
        Cls::Not(a) => ops!(NeuOp::not(Arc::new(SU((**a).clone())))),
        Cls::Always => ops!(neu::always::<T>()),
        c => ops!(SU(c.clone())),
    }
}

impl<'a> SCtx<'a> for CharsCtx<'a> {
    fn s_unit(c: &Cls, op: &Op, k: &CondK) -> SD<'a, Self> {
        match c {
            Cls::AsciiDigit if *k == CondK::None && *op == Op::Many1 => Box::new(neu::ascii_digit::<char>().many1()),
            c => unit::<Self, char>(c, op, k),
        }
    }
    fn s_lit(b: &[u8]) -> SD<'a, Self> {
        Box::new(String::from_utf8(b.to_vec()).expect("harness: literal"))
    }
}
impl<'a> SCtx<'a> for BytesCtx<'a> {
    fn s_unit(c: &Cls, op: &Op, k: &CondK) -> SD<'a, Self> {
        unit::<Self, u8>(c, op, k)
    }
    fn s_lit(b: &[u8]) -> SD<'a, Self> {
        Box::new(b.to_vec())
    }
}
impl<'a> SCtx<'a> for PAsciiT<'a> {
    fn s_unit(c: &Cls, op: &Op, k: &CondK) -> SD<'a, Self> {
        unit::<Self, char>(c, op, k)
    }
    fn s_lit(b: &[u8]) -> SD<'a, Self> {
        Box::new(String::from_utf8(b.to_vec()).expect("harness: literal"))
    }
}

fn conv<'a, C: 'a, P, I: 'a, F>(p: P, f: F) -> SD<'a, C>
where
    P: Ctor<C, I, Rec> + Send + Sync + 'a,
    F: Fn(I) -> Val + Send + Sync + 'a,
{
    struct K<P, I, F>(Conv<P, I, F>);
    // the value type is only produced, never held
    impl<C, P: Regex<C>, I, F> Regex<C> for K<P, I, F> {
        fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
            self.0.try_parse(ctx)
        }
    }
    impl<C, P: Ctor<C, I, Rec>, I, F: Fn(I) -> Val> Ctor<C, Val, Rec> for K<P, I, F> {
        fn construct(&self, ctx: &mut C, h: &mut Rec) -> Result<Val, Error> {
            self.0.construct(ctx, h)
        }
    }
    Box::new(K(Conv::new(p, f)))
}

struct Env<'a, C> {
    seen: Arc<Seen>,
    me: Option<Knot<regex::RecursiveCtorSync<'a, C, Val, Rec>>>,
    /// a locked parser used in several places
    shared: Option<Arc<Mutex<Inside<'a, C>>>>,
    _m: PhantomData<C>,
}

fn bx(v: Val) -> Box<Val> {
    Box::new(v)
}
fn pairv(v: (Val, Val)) -> Val {
    Val::Pair(bx(v.0), bx(v.1))
}
fn arrv<const N: usize>(v: [Option<Val>; N]) -> Val {
    Val::Arr(v.into_iter().collect())
}

fn inside<'a, C>(p: SD<'a, C>, e: &Env<'a, C>) -> Inside<'a, C> {
    Inside { p, seen: e.seen.clone(), here: Arc::new(AtomicU32::new(0)), count: Cell::new(0) }
}

fn sbuild<'a, C: SCtx<'a> + Send + Sync>(a: &Ast, e: &Env<'a, C>) -> SD<'a, C> {
    Box::new(Node { p: sraw(a, e), seen: e.seen.clone() })
}

fn sraw<'a, C: SCtx<'a> + Send + Sync>(a: &Ast, e: &Env<'a, C>) -> SD<'a, C> {
    let b = |x: &Ast| sbuild::<C>(x, e);
    type O<'a, C> = SD<'a, C>;
    match &a.k {
        K::Lit(v, _) => C::s_lit(v),
        K::Unit(c, op, k) => C::s_unit(c, op, k),
        K::Start => Box::new(regex::start()),
        K::End => Box::new(regex::end()),
        K::Consume(n) => Box::new(regex::consume(*n)),
        K::ConsumeAll => Box::new(regex::consume_all()),
        K::Empty => Box::new(regex::empty()),
        K::Fail => Box::new(regex::fail()),
        K::NoneP => {
            let n: Option<SD<'a, C>> = None;
            Box::new(n)
        }
        K::SelfRef => Box::new(e.me.clone().expect("harness: self reference")),
        K::Not(x) => Box::new(regex::not(b(x))),
        K::Peek(x) => Box::new(regex::peek(b(x))),
        K::Then(x, y) => conv(<O<'a, C> as CtorOps<'a, C>>::then(b(x), b(y)), pairv),
        K::Or(x, y) => Box::new(<O<'a, C> as CtorOps<'a, C>>::or(b(x), b(y))),
        K::Ltm(x, y) => Box::new(<O<'a, C> as CtorOps<'a, C>>::longest(b(x), b(y))),
        K::Opt(x) => conv(<O<'a, C> as CtorOps<'a, C>>::opt(b(x)), |v: Option<Val>| Val::Opt(v.map(bx))),
        K::Repeat(r, x) => conv(<O<'a, C> as CtorOps<'a, C>>::repeat(b(x), CRange::from(*r)), Val::List),
        K::Repeat2(_, x) => conv(<O<'a, C> as CtorOps<'a, C>>::repeat2::<1, 3>(b(x)), arrv::<3>),
        K::Collect(m, x) => conv(<O<'a, C> as CtorOps<'a, C>>::repeat(b(x), *m..), Val::List),
        K::Sep(m, k, x, s) | K::SepC(m, k, x, s) => {
            conv(<O<'a, C> as CtorOps<'a, C>>::sep(b(x), b(s)).at_least(*m).with_skip(*k), Val::List)
        }
        K::Sep2(_, k, x, s) => conv(<O<'a, C> as CtorOps<'a, C>>::sep2::<_, 1, 3>(b(x), b(s)).with_skip(*k), arrv::<3>),
        K::SepOnce(x, s, y) => conv(<O<'a, C> as CtorOps<'a, C>>::sep_once(b(x), b(s), b(y)), pairv),
        K::Enclose(o, x, c) => Box::new(<O<'a, C> as CtorOps<'a, C>>::enclose(b(x), b(o), b(c))),
        K::Prefix(p, x) => Box::new(<O<'a, C> as CtorOps<'a, C>>::prefix(b(x), b(p))),
        K::Suffix(x, p) => Box::new(<O<'a, C> as CtorOps<'a, C>>::suffix(b(x), b(p))),
        K::IfThen(l, t, r) => conv(
            <O<'a, C> as CtorOps<'a, C>>::if_then(b(l), b(t), b(r)),
            |v: (Val, Option<Val>)| Val::Pair(bx(v.0), bx(Val::Opt(v.1.map(bx)))),
        ),
        K::Pat(x) => Box::new(<O<'a, C> as CtorOps<'a, C>>::pat(b(x))),
        K::Map(tag, x) => {
            let tag = *tag;
            Box::new(Mapped(b(x), move |v| Ok(Val::Mapped(tag, bx(v)))))
        }
        K::TryMap(r, x) => {
            let r = r.clone();
            Box::new(Mapped(b(x), move |v| if r.rejects(&v) { Err(e_map()) } else { Ok(Val::Mapped(0, bx(v))) }))
        }
        K::Table(f, ltm, _, v) => {
            let v: Vec<SD<'a, C>> = v.iter().map(b).collect();
            match (f, ltm, v.len()) {
                (1, false, 3) => Box::new(regex::array::<3, _>(v.try_into().ok().unwrap())),
                (1, true, 3) => Box::new(regex::array_ltm::<3, _>(v.try_into().ok().unwrap())),
                (_, true, _) => Box::new(regex::vector_ltm(v)),
                _ => Box::new(regex::vector(v)),
            }
        }
        K::Wrap(k, x) => {
            let locked = has_self(x);
            match k % 9 {
                // a lock may not be entered again while it is held
                0 | 1 if !locked => Box::new(Mutex::new(inside(b(x), e))),
                2 if !locked => {
                    let m: ctor::Adapter<C, Mutex<Inside<'a, C>>> = ctor::Adapter::mutex(inside(b(x), e));
                    Box::new(Arc::new(m))
                }
                3 if e.shared.is_some() => {
                    let s = e.shared.clone().unwrap();
                    Box::new(<O<'a, C> as CtorOps<'a, C>>::or(b(x), Shared(s)))
                }
                4 => Box::new(ctor::Adapter::<C, Arc<dyn Ctor<C, Val, Rec> + Send + Sync + 'a>>::dyn_arc_sync(b(x))),
                5 => Box::new(ctor::Adapter::<C, Box<dyn Ctor<C, Val, Rec> + Send + Sync + 'a>>::dyn_box_sync(b(x))),
                6 => {
                    let l = OnceLock::new();
                    let _ = l.set(b(x));
                    Box::new(l)
                }
                7 => Box::new(Some(Arc::new(b(x)))),
                _ => {
                    let d: Arc<dyn Ctor<C, Val, Rec> + Send + Sync + 'a> = Arc::from(b(x));
                    Box::new(d)
                }
            }
        }
        k => panic!("harness: {k:?} has no shareable form"),
    }
}

struct Shared<'a, C>(Arc<Mutex<Inside<'a, C>>>);
impl<C> Regex<C> for Shared<'_, C> {
    fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
        self.0.try_parse(ctx)
    }
}
impl<C> Ctor<C, Val, Rec> for Shared<'_, C> {
    fn construct(&self, ctx: &mut C, h: &mut Rec) -> Result<Val, Error> {
        self.0.construct(ctx, h)
    }
}

struct Mapped<P, F>(P, F);
impl<C, P: Regex<C>, F> Regex<C> for Mapped<P, F> {
    fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
        self.0.try_parse(ctx)
    }
}
impl<C, P: Ctor<C, Val, Rec>, F: Fn(Val) -> Result<Val, Error>> Ctor<C, Val, Rec> for Mapped<P, F> {
    fn construct(&self, ctx: &mut C, h: &mut Rec) -> Result<Val, Error> {
        (self.1)(self.0.construct(ctx, h)?)
    }
}

fn has_self(a: &Ast) -> bool {
    let mut y = false;
    a.walk(&mut |x| y |= matches!(x.k, K::SelfRef));
    y
}

/// guarded recursion at some leaves
fn recursive(r: &mut Rng, a: &Ast, n: &mut u32) -> Ast {
    if a.children().is_empty() && *n < 2 && r.chance(1, 2) {
        *n += 1;
        let me = Box::new(Ast::new(K::SelfRef));
        let l = |s: &str| Box::new(Ast::new(K::Lit(s.as_bytes().to_vec(), 0)));
        return Ast::new(K::Or(Box::new(Ast::new(K::Enclose(l("("), me, l(")")))), Box::new(a.clone())));
    }
    map_parts(a, &mut |x, _| recursive(r, x, n))
}

#[derive(Clone, Debug, PartialEq)]
struct Res {
    m: (Result<(usize, usize), Error>, usize),
    k: (Result<Val, Error>, usize, Vec<Inv>),
}

fn once<'a, C: HCtx<'a>>(p: &SD<'a, C>, inp: &'a [u8], start: usize, rej: &Rej) -> Res {
    let mut ctx = C::mk(inp);
    ctx.set_offset(start);
    mon_reset(0);
    let m = (ctx.try_mat(p).map(|s| (s.beg, s.len)), ctx.offset());
    ctx.set_offset(start);
    let mut h = Rec::new(rej.clone());
    let k = p.construct(&mut ctx, &mut h).map(|v| v.erase());
    Res { m, k: (k, ctx.offset(), h.log) }
}

fn check<'a, C: SCtx<'a> + Send + Sync>(c: &Case, threads: &'a [Vec<(Vec<u8>, usize)>], seed: u64, rounds: usize, o: &mut Obs) -> Result<bool, String> {
    let mk = || {
        let seen = Seen::new();
        let mut e = Env::<'a, C> { seen: seen.clone(), me: None, shared: None, _m: PhantomData };
        let digit = C::s_unit(&Cls::AsciiAlnum, &Op::Once, &CondK::None);
        e.shared = Some(Arc::new(Mutex::new(inside(digit, &e))));
        let mut knot = None;
        let p: SD<'a, C> = if has_self(&c.ast) {
            let p = regex::rec_parser_sync(|me| {
                let k = Knot::new(me);
                knot = Some(k.clone());
                let e = Env { seen: seen.clone(), me: Some(k), shared: e.shared.clone(), _m: PhantomData };
                sbuild::<C>(&c.ast, &e)
            });
            Box::new(p)
        } else {
            sbuild::<C>(&c.ast, &e)
        };
        (p, seen, knot)
    };
    // the sequential run, on a parser of its own
    let (p, _, knot) = mk();
    let mut want: Vec<Vec<Res>> = vec![];
    for t in threads {
        let mut v = vec![];
        for (i, at) in t {
            v.push(guarded(|| once::<C>(&p, i, *at, &c.rej))?);
        }
        want.push(v);
    }
    drop(p);
    if let Some(k) = knot {
        k.cut();
    }
    let (p, seen, knot) = mk();
    let barrier = Barrier::new(threads.len());
    let results: Vec<Result<Vec<Res>, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = threads
            .iter()
            .enumerate()
            .map(|(n, t)| {
                let (p, b, w) = (&p, &barrier, &want[n]);
                s.spawn(move || {
                    if rounds > 1 {
                        // at full speed, probes off: windows of a few instructions
                        b.wait();
                        for round in 0..rounds {
                            for (k, (i, at)) in t.iter().enumerate() {
                                let g = guarded(|| once::<C>(p, i, *at, &c.rej))?;
                                if g != w[k] {
                                    return Err(format!("round {round}, parse {k} of {} from {at}: {g:?}\nsequentially {:?}", show_input(i, C::TEXT), w[k]));
                                }
                            }
                        }
                        return Ok(w.clone());
                    }
                    TID.with(|x| x.set(n as u8 + 1));
                    YIELD.with(|y| y.set(seed.wrapping_mul(n as u64 * 2 + 3) | 1));
                    b.wait();
                    let mut v = vec![];
                    for (i, at) in t {
                        v.push(guarded(|| once::<C>(p, i, *at, &c.rej))?);
                    }
                    Ok(v)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("harness: worker")).collect()
    });
    let inter = seen.interleaving();
    for (n, (got, want)) in results.iter().zip(&want).enumerate() {
        let got = got.as_ref().map_err(|e| format!("thread {n}: {e}"))?;
        for (i, (g, w)) in got.iter().zip(want).enumerate() {
            o.events += 1;
            if g != w {
                return Err(format!(
                    "thread {n}, parse {i} of {} from {}: with {} threads {g:?}\nsequentially {w:?}\ninterleaving {inter:?}",
                    show_input(&threads[n][i].0, C::TEXT),
                    threads[n][i].1,
                    threads.len()
                ));
            }
        }
    }
    if seen.broken_locks.load(Relaxed) > 0 {
        return Err(format!("{} entries of a locked parser while it was held", seen.broken_locks.load(Relaxed)));
    }
    // and the parser is as good as before
    for (t, w) in threads.iter().zip(&want).take(1) {
        for ((i, at), w) in t.iter().zip(w) {
            let g = guarded(|| once::<C>(&p, i, *at, &c.rej))?;
            if g != *w {
                return Err(format!("after the threads are done {} gives {g:?}, before {w:?}", show_input(i, C::TEXT)));
            }
        }
    }
    drop(p);
    if let Some(k) = knot {
        k.cut();
    }
    let switches = inter.windows(2).filter(|w| w[0] != w[1]).count();
    o.events += seen.at.load(Relaxed) as u64;
    o.max("threads_inside_nodes_at_once", seen.max_inside.load(Relaxed) as u64);
    o.add("locked_parser_entries", seen.locked_entries.load(Relaxed) as u64);
    o.add("observed_thread_switches", switches as u64);
    if has_self(&c.ast) {
        o.count("recursive_shared_parsers");
    }
    if rounds > 1 {
        o.add("parses_at_full_speed", (rounds * threads.iter().map(|t| t.len() * 2).sum::<usize>()) as u64);
        o.events += (rounds * threads.len()) as u64;
        return Ok(false);
    }
    if switches > threads.len() {
        o.nontrivial(&format!("{inter:?}"));
    }
    Ok(switches > threads.len())
}

fn case_n(r: &mut Rng, o: &mut Obs, small: bool) -> Result<(), String> {
    const KINDS: &[Kind] = &[Kind::Chars, Kind::Bytes, Kind::PText];
    // the threads below have palettes of their own
    set_palette(0);
    let hot = !small && r.chance(1, 30);
    let w = Want { rej: !hot && r.chance(1, 3), try_map: true, dync: false, depth: if hot { 1 + r.below(2) as u32 } else { 3 }, conds: false, far: 0, ..Want::new(KINDS) };
    let (mut c, g) = gen_case(r, &w);
    c.ast = shareable(&c.ast);
    if hot && r.flip() {
        // literals of different lengths, each its own moment
        let lits = (1..5).map(|n| {
            let t: Vec<u8> = (0..n * r.range(1, 4)).map(|_| b'a' + r.below(3) as u8).collect();
            Ast::new(K::Lit(t, r.below(2) as u8))
        });
        c.ast = lits.fold(c.ast, |a, l| Ast::new(K::Or(Box::new(l), Box::new(a))));
    }
    if r.chance(1, 3) {
        let mut n = 0;
        c.ast = recursive(r, &c.ast, &mut n);
    }
    if r.chance(1, 2) {
        c.ast = Ast::new(K::Wrap(r.below(9) as u8, Box::new(c.ast.clone())));
    }
    if !terminates(&c.ast) {
        return Ok(());
    }
    let plain = map_self(&c.ast);
    c.skip = Ast::new(K::Unit(Cls::AsciiWs, Op::Many0, CondK::None));
    let skip = if c.kind.policy() { Some(&c.skip) } else { None };
    let n = if small { 3 } else if hot { r.range(3, 5) } else { r.range(2, 6) };
    let mut threads = vec![];
    for _ in 0..n {
        let mut v = vec![];
        for _ in 0..if small { 2 } else { r.range(2, 6) } {
            let (mut i, at) = gen_input(r, &g, &plain, skip);
            if has_self(&c.ast) && at == 0 && r.flip() {
                i.insert(0, b'(');
                i.push(b')');
            }
            v.push((i, at));
        }
        threads.push(v);
    }
    for t in &threads {
        for (i, at) in t {
            let x = Case { inp: i.clone(), start: *at, ..c.clone() };
            let mut m = x.model();
            m.rec = Some(&c.ast);
            let _ = m.k(&c.ast, *at);
            // matching alone may go where construction stops
            let mut t = x.model();
            t.rec = Some(&c.ast);
            let _ = t.tm(&c.ast, *at, 0);
            if m.over || t.over || m.steps.max(t.steps) > 1_000 {
                return Ok(());
            }
        }
    }
    o.note(|| format!("{}\nthreads and their inputs {threads:?}", c.show()));
    let seed = r.next();
    let rounds = if hot { 250 } else { 1 };
    match c.kind {
        Kind::Bytes => check::<BytesCtx>(&c, &threads, seed, rounds, o),
        Kind::PText => check::<PAsciiT>(&c, &threads, seed, rounds, o),
        _ => check::<CharsCtx>(&c, &threads, seed, rounds, o),
    }?;
    Ok(())
}

/// only nodes that have a shareable form here
fn shareable(a: &Ast) -> Ast {
    let a = map_parts(a, &mut |x, _| shareable(x));
    let one = |c: &Cls| Box::new(Ast::new(K::Unit(c.clone(), Op::Once, CondK::None)));
    Ast::new(match a.k {
        K::Unit2(x, y, _) => K::Then(one(&x), one(&y)),
        K::Func(c) => one(&c).k,
        K::Sel0(x, y) | K::Sel1(x, y) => K::Then(x, y),
        K::Branch(_, x, y) => K::Or(x, y),
        K::DynR(x, _) | K::DynC(x, _) => shareable(&x).k,
        k => k,
    })
}

fn map_self(a: &Ast) -> Ast {
    match a.k {
        K::SelfRef => Ast::new(K::Lit(b"a".to_vec(), 0)),
        _ => map_parts(a, &mut |x, _| map_self(x)),
    }
}

fn case(r: &mut Rng, o: &mut Obs) -> Result<(), String> {
    case_n(r, o, false)
}

/// what threads share or hand over: judged by the compiler (see check.sh)
fn shareable_types() {
    use neure::neu::{And, Not, Or, PrefixSync, CRange, NeureThen, EmptyCond};
    fn s<T: Send + Sync>() {}
    s::<PrefixSync<char, neure::neu::AsciiDigit<char>, char>>();
    s::<PrefixSync<u8, CRange<u8>, u8>>();
    s::<And<char, Or<char, Not<char, char>, char>, char>>();
    s::<NeureThen<CharsCtx, char, char, char, EmptyCond>>();
    s::<CharsCtx>();
    s::<BytesCtx>();
    s::<neure::span::Span>();
    s::<neure::err::Error>();
    s::<neure::span::VecStorer>();
    s::<neure::span::ArrayStorer<2, 3>>();
    s::<neure::ctor::Extract<&str>>();
}

fn main() {
    shareable_types();
    // under the interpreter: a few cases, no supervisor
    if let Ok(n) = std::env::var("NVERIF_MIRI") {
        let n: u64 = std::str::FromStr::from_str(n.as_str()).expect("number");
        let mut o = Obs::default();
        let base: u64 = std::env::var("NVERIF_MIRI_BASE")
            .ok()
            .and_then(|v| std::str::FromStr::from_str(v.as_str()).ok())
            .unwrap_or(1_000);
        for i in 0..n {
            let mut r = Rng::new(base + i);
            if let Err(e) = case_n(&mut r, &mut o, true) {
                println!("MIRI-CASE-FAILED {i}: {e}");
                std::process::exit(1);
            }
        }
        println!("MIRI-CASES {n} events {}", o.events);
        return;
    }
    run(
        Plan {
            quick: 30_000,
            threads: 3,
            ..Plan::new("C19", "a random shareable parser (locks, shared locks, shareable recursion, atomically counted and dynamic parts) run by 2 to 6 threads with injected yields; non-trivial when more thread switches than threads were observed between its nodes, distinct by the observed interleaving")
        },
        case,
    )
}
