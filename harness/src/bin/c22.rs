//! C22: per-element conditions are asked about the right element.
//! Conditions log every call (element, distance, position of the context);
//! the log is judged against the specification of each call.
use neure::ctx::{Context};
use neure::err::Error;
use neure::neu::{self, CRange, Condition, Neu, NeuCond, NeuIntoRegexOps};
use neure::regex::{self, Regex};
use neure::span::Span;
use nverif::ast::*;
use nverif::build::*;
use nverif::case::*;
use nverif::ctxs::*;
use nverif::drv::{guarded, run, Obs, Plan};
use nverif::generate::*;
use nverif::model::{decode, Model};
use nverif::on_kind;
use nverif::probe::*;
use nverif::rng::Rng;
use std::cell::RefCell;
use std::ops::Bound;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
struct Call {
    dist: usize,
    elem: u32,
    /// where the context stood
    off: usize,
}
/// what a pattern used as condition saw
#[derive(Clone, Debug, PartialEq)]
struct Seen {
    rest: Vec<u8>,
    at_start: bool,
}
#[derive(Default)]
struct Log {
    calls: Vec<Call>,
    seen: Vec<Seen>,
}
type L = Rc<RefCell<Log>>;

/// conditions: what to answer about the element at a distance
#[derive(Clone, Debug, PartialEq)]
enum Cd {
    Fun(CondK),
    /// an arbitrary subset of (distance, element)
    Salt(u32, u32),
    /// position in the whole input
    Abs(usize),
    /// error for an element
    ErrOn(Cls),
    /// looks at the input behind the element
    Follow(Cls, bool),
}

/// logs the calls of a condition
struct RecCond<'a, C> {
    k: Cd,
    rx: Option<neu::RegexCond<'a, C, LogRx<'a, C>>>,
    log: L,
}

fn salt(m: u32, k: u32, dist: usize, e: u32) -> bool {
    let h = (dist as u32).wrapping_mul(2654435761).wrapping_add(e.wrapping_mul(40503)).wrapping_add(k);
    (h ^ (h >> 15)) % m != 0
}

impl<'a, C, T> NeuCond<'a, C> for RecCond<'a, C>
where
    T: HItem,
    C: HCtx<'a> + Context<'a, Item = T>,
{
    fn check(&self, ctx: &C, item: &(usize, T)) -> Result<bool, Error> {
        let (dist, elem) = (item.0, item.1.cp());
        self.log.borrow_mut().calls.push(Call { dist, elem, off: ctx.offset() });
        Ok(match &self.k {
            Cd::Fun(k) => match k {
                CondK::None => true,
                CondK::Even => dist % 2 == 0,
                CondK::Lt(n) => dist < *n,
                CondK::Cls(c) => c.has(elem),
                CondK::ErrAt(n) if dist >= *n => return Err(e_cond()),
                CondK::ErrAt(_) => true,
                _ => return self.rx.as_ref().expect("harness: regex").check(ctx, item),
            },
            Cd::Salt(m, k) => salt(*m, *k, dist, elem),
            Cd::Abs(m) => (ctx.offset() + dist) % m != 0,
            Cd::ErrOn(c) if c.has(elem) => return Err(e_cond()),
            Cd::ErrOn(_) => true,
            Cd::Follow(c, want) => {
                let at = ctx.offset() + dist + item.1.width();
                let rest = ctx.bytes_of(at, ctx.len().checked_sub(at).ok_or(Error::OutOfBound)?);
                let rest = rest.ok_or(Error::OutOfBound)?;
                decode(&rest, 0, C::TEXT).is_some_and(|x| c.has(x.0)) == *want
            }
        })
    }
}

/// a pattern that logs what it was run on
struct LogRx<'a, C> {
    inner: Dyn<'a, C>,
    log: L,
}
impl<'a, C: HCtx<'a>> Regex<C> for LogRx<'a, C> {
    fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
        let off = ctx.offset();
        let rest = ctx.bytes_of(off, ctx.len() - off).unwrap_or_default();
        let at_start = regex::start().try_parse(ctx).is_ok();
        self.log.borrow_mut().seen.push(Seen { rest, at_start });
        self.inner.try_parse(ctx)
    }
}

fn with_cond<'a, C, T, F>(u: Box<dyn Neu<T>>, op: &Op, f: F) -> Dyn<'a, C>
where
    T: HItem,
    C: HCtx<'a> + Context<'a, Item = T>,
    F: NeuCond<'a, C> + 'a,
{
    macro_rules! fin {
        ($n:ident) => { Box::new(NeuIntoRegexOps::<'a, C>::$n(u).set_cond(f)) };
        ($n:ident, $($t:tt)+) => { Box::new(NeuIntoRegexOps::<'a, C>::$n::<$($t)+>(u).set_cond(f)) };
    }
    match op {
        Op::Once => fin!(once),
        Op::Opt => fin!(opt),
        Op::Many0 => fin!(many0),
        Op::Many1 => fin!(many1),
        Op::Times(r) => Box::new(NeuIntoRegexOps::<'a, C>::times(u, CRange::from(*r)).set_cond(f)),
        Op::Between(i) => match i {
            0 => fin!(between, 0, 1),
            1 => fin!(at_most, 3),
            2 => fin!(count, 1),
            3 => fin!(between, 1, 2),
            4 => fin!(between, 2, 4),
            5 => fin!(count, 3),
            6 => fin!(at_least, 0),
            7 => fin!(at_least, 2),
            8 => fin!(at_most, 20),
            9 => fin!(between, 250, 260),
            10 => fin!(at_least, 17),
            _ => panic!("harness: between index"),
        },
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Form {
    One(Cls, Op),
    Two(Cls, Cls),
}

/// `how`: the condition as an object, a closure, or the pattern itself
fn make<'a, C, T>(form: &Form, cd: &Cd, how: u8, log: &L) -> Dyn<'a, C>
where
    T: HItem,
    C: HCtx<'a> + Context<'a, Item = T>,
{
    let pat = match cd {
        Cd::Fun(CondK::Rx(a)) => Some((**a).clone()),
        Cd::Fun(CondK::RxNot(a)) => Some(Ast::new(K::Not(a.clone()))),
        _ => None,
    };
    let lrx = |a: &Ast| LogRx { inner: build::<C>(a), log: log.clone() };
    if how == 2 && pat.is_some() {
        let rx = neu::regex_cond(lrx(pat.as_ref().unwrap()));
        return match form {
            Form::One(c, op) => with_cond(T::unit(c), op, rx),
            Form::Two(a, b) => Box::new(NeuIntoRegexOps::<'a, C>::then(T::unit(a), T::unit(b)).set_cond(rx)),
        };
    }
    let obj = RecCond { k: cd.clone(), rx: pat.as_ref().map(|a| neu::regex_cond(lrx(a))), log: log.clone() };
    if how == 1 {
        let f = move |ctx: &C, item: &(usize, T)| obj.check(ctx, item);
        match form {
            Form::One(c, op) => with_cond(T::unit(c), op, f),
            Form::Two(a, b) => Box::new(NeuIntoRegexOps::<'a, C>::then(T::unit(a), T::unit(b)).set_cond(f)),
        }
    } else {
        match form {
            Form::One(c, op) => with_cond(T::unit(c), op, obj),
            Form::Two(a, b) => Box::new(NeuIntoRegexOps::<'a, C>::then(T::unit(a), T::unit(b)).set_cond(obj)),
        }
    }
}

struct Exp {
    calls: Vec<Call>,
    end: Option<usize>,
    /// the condition itself failed
    err: bool,
    /// steps the reference took for the patterns in the condition
    steps: u64,
}

fn ask(c: &Case, cd: &Cd, start: usize, at: usize, e: u32, w: usize, steps: &mut u64) -> Result<bool, ()> {
    let dist = at - start;
    Ok(match cd {
        Cd::Fun(k) => match k {
            CondK::None => true,
            CondK::Even => dist % 2 == 0,
            CondK::Lt(n) => dist < *n,
            CondK::Cls(c) => c.has(e),
            CondK::ErrAt(n) if dist >= *n => return Err(()),
            CondK::ErrAt(_) => true,
            CondK::Rx(a) | CondK::RxNot(a) => {
                // as if the input began here
                let mut m = Model::new(&c.inp[at..], c.kind.text());
                if c.kind.policy() {
                    m.skip = Some(&c.skip);
                }
                let ok = m.tm(a, 0, 0).is_ok();
                *steps += m.steps;
                ok == matches!(k, CondK::Rx(_))
            }
        },
        Cd::Salt(m, k) => salt(*m, *k, dist, e),
        Cd::Abs(m) => at % m != 0,
        Cd::ErrOn(c) if c.has(e) => return Err(()),
        Cd::ErrOn(_) => true,
        Cd::Follow(cl, want) => decode(&c.inp, at + w, c.kind.text()).is_some_and(|x| cl.has(x.0)) == *want,
    })
}

fn expect(c: &Case, form: &Form, cd: &Cd, start: usize) -> Exp {
    let text = c.kind.text();
    let mut x = Exp { calls: vec![], end: None, err: false, steps: 0 };
    let (lo, hi, second) = match form {
        Form::One(_, op) => {
            let (lo, hi) = match op {
                Op::Once => (1, Some(1)),
                Op::Opt => (0, Some(1)),
                Op::Many0 => (0, None),
                Op::Many1 => (1, None),
                Op::Between(i) => (BETWEEN[*i].0, Some(BETWEEN[*i].1)),
                Op::Times(r) => (rng_lo(r), rng_hi(r)),
            };
            (lo, hi, None)
        }
        Form::Two(_, b) => (2, Some(2), Some(b)),
    };
    let first = match form {
        Form::One(c, _) | Form::Two(c, _) => c,
    };
    let mut n = 0;
    let mut p = start;
    while hi.is_none_or(|h| n < h) {
        let Some((e, w)) = decode(&c.inp, p, text) else { break };
        let cls = if n == 1 { second.unwrap_or(first) } else { first };
        if !cls.has(e) {
            break;
        }
        x.calls.push(Call { dist: p - start, elem: e, off: start });
        match ask(c, cd, start, p, e, w, &mut x.steps) {
            Ok(true) => {}
            Ok(false) => break,
            Err(()) => {
                x.err = true;
                break;
            }
        }
        n += 1;
        p += w;
    }
    if !x.err && n >= lo {
        x.end = Some(p);
    }
    x
}

fn judge(c: &Case, form: &Form, cd: &Cd, how: u8, start: usize, x: &Exp, got: &Log, res: Result<(usize, usize), Error>, off: usize) -> Result<(), String> {
    let what = |s: String| format!("run at {start}: {s}");
    match (x.end, &res) {
        (Some(e), Ok((b, l))) => {
            if *b != start || b + l != e || off != e {
                return Err(what(format!("takes {b}..{} and stands at {off}, expected {start}..{e}", b + l)));
            }
        }
        (None, Err(e)) => {
            if off != start {
                return Err(what(format!("fails with {e:?} at position {off}")));
            }
            // a failing condition is reported, unless the input was seen to be
            // too short before the condition was asked
            if x.err && got.calls == x.calls && *e != e_cond() {
                return Err(what(format!("the condition's error was replaced by {e:?}")));
            }
        }
        (w, r) => return Err(what(format!("gives {r:?}, expected end {w:?}"))),
    }
    let rx = matches!(cd, Cd::Fun(CondK::Rx(_) | CondK::RxNot(_)));
    if !(how == 2 && rx) {
        let ok = if res.is_err() {
            x.calls.starts_with(&got.calls)
        } else {
            x.calls == got.calls
        };
        if !ok {
            return Err(what(format!("the condition was asked {:?}, expected {:?}", got.calls, x.calls)));
        }
    }
    if rx {
        let exp: Vec<Seen> = x
            .calls
            .iter()
            .map(|k| Seen { rest: c.inp[start + k.dist..].to_vec(), at_start: true })
            .collect();
        // a skipping context steps forward first, even at the start of its data
        if !c.kind.policy() && (if res.is_err() { !exp.starts_with(&got.seen) } else { exp != got.seen }) {
            return Err(what(format!("the pattern in the condition saw {:?}, expected {exp:?}", got.seen)));
        }
    }
    let _ = form;
    Ok(())
}

fn drive<'a, C, T>(ctx: &mut C, c: &Case, form: &Form, cd: &Cd, how: u8, o: &mut Obs) -> Result<bool, String>
where
    T: HItem,
    C: HCtx<'a> + Context<'a, Item = T>,
{
    let log: L = Default::default();
    let p = guarded(|| make::<C, T>(form, cd, how, &log))?;
    let bs = bounds(&c.inp, c.kind.text());
    let mut refused = false;
    // the parser is used again at several places
    for (i, at) in [c.start, bs[bs.len() / 2], 0, c.start].into_iter().enumerate() {
        let mut m = c.model();
        let Ok(start) = m.skipped(at) else { continue };
        let x = expect(c, form, cd, start);
        if x.steps > 200_000 {
            continue;
        }
        *log.borrow_mut() = Log::default();
        let ctor = i % 2 == 1;
        let mut h = Rec::new(Rej::None);
        let (res, off) = guarded(|| {
            ctx.set_offset(at);
            mon_reset(budget_for(200_000));
            let res = if ctor {
                ctor_with(ctx, &p, &mut h).map(|v| v.first_leaf().expect("harness: leaf"))
            } else {
                ctx.try_mat(&p).map(|s| (s.beg, s.len))
            };
            (res, ctx.offset())
        })?;
        // a context that skips blanks returns to where it was before them
        let off = if res.is_err() && off == at { start } else { off };
        let got = log.borrow();
        o.events += got.calls.len() as u64 + got.seen.len() as u64;
        judge(c, form, cd, how, start, &x, &got, res, off)?;
        o.add("condition_calls", got.calls.len() as u64);
        o.add("patterns_run_as_condition", got.seen.len() as u64);
        o.max("condition_calls_in_one_repetition", got.calls.len() as u64);
        if x.err {
            o.count("condition_failed");
        }
        // an element the unit accepts and the condition does not
        let taken = x.end.map_or(0, |e| decode_count(&c.inp[start..e], c.kind.text()));
        refused |= x.calls.len() > taken;
    }
    Ok(refused)
}

fn decode_count(b: &[u8], text: bool) -> usize {
    let (mut p, mut n) = (0, 0);
    while let Some((_, w)) = decode(b, p, text) {
        p += w;
        n += 1;
    }
    n
}

fn gen_cd(r: &mut Rng, g: &Cfg) -> Cd {
    match r.below(12) {
        0 => Cd::Fun(CondK::None),
        1 => Cd::Fun(CondK::Even),
        2 => Cd::Fun(CondK::Lt(r.below(8))),
        3 => Cd::Fun(CondK::Cls(gen_cls(r, g, 1))),
        4 => Cd::Fun(CondK::ErrAt(r.below(8))),
        5 | 6 => Cd::Fun(CondK::Rx(Box::new(gen_pat(r, g)))),
        7 | 8 => Cd::Fun(CondK::RxNot(Box::new(gen_pat(r, g)))),
        9 => match r.below(3) {
            0 => Cd::ErrOn(gen_cls(r, g, 0)),
            1 => Cd::Abs(r.range(2, 6)),
            _ => Cd::Salt(r.range(2, 7) as u32, r.below(1000) as u32),
        },
        10 => Cd::Salt(r.range(3, 9) as u32, r.below(1000) as u32),
        _ => Cd::Follow(gen_cls(r, g, 0), r.chance(1, 2)),
    }
}

fn gen_pat(r: &mut Rng, g: &Cfg) -> Ast {
    match r.below(6) {
        0 => Ast::new(K::Then(Box::new(Ast::new(K::Start)), Box::new(gen_r(r, g, 1, false)))),
        1 => {
            let a = Ast::new(K::Unit(gen_cls(r, g, 0), Op::Once, CondK::None));
            let b = Ast::new(K::Unit(gen_cls(r, g, 0), Op::Once, CondK::None));
            Ast::new(K::Then(Box::new(a), Box::new(b)))
        }
        _ => gen_r(r, g, 2, false),
    }
}

fn case(r: &mut Rng, o: &mut Obs) -> Result<(), String> {
    if r.chance(1, 4) {
        // conditions inside whole grammars
        let w = Want { conds: true, depth: 3, ..Want::new(ALL) };
        let (c, _) = gen_case(r, &w);
        return verdict(o, c, &composed);
    }
    let kind = *r.pick(ALL);
    let g = cfg_for(r, kind, &Want::new(ALL));
    let form = if r.chance(1, 7) {
        Form::Two(gen_cls(r, &g, 1), gen_cls(r, &g, 1))
    } else {
        let op = match r.below(8) {
            0 => Op::Once,
            1 => Op::Opt,
            2 => Op::Many0,
            3 => Op::Many1,
            4 | 5 => Op::Times({
                let lo = r.below(4);
                let hi = lo + r.below(5);
                match r.below(5) {
                    0 => (Bound::Included(lo), Bound::Unbounded),
                    1 => (Bound::Unbounded, Bound::Included(hi)),
                    2 => (Bound::Included(lo), Bound::Excluded(hi + 1)),
                    _ => (Bound::Included(lo), Bound::Included(hi)),
                }
            }),
            _ => Op::Between(r.below(if g.big { BETWEEN.len() } else { SMALL_BETWEEN })),
        };
        let c = if r.chance(1, 3) { Cls::Always } else { gen_cls(r, &g, 1) };
        Form::One(c, op)
    };
    let mut cd = gen_cd(r, &g);
    let how = r.below(3) as u8;
    // input: mostly elements of the unit
    let ast = match &form {
        Form::One(c, op) => Ast::new(K::Unit(c.clone(), if r.chance(1, 2) { Op::Many1 } else { op.clone() }, CondK::None)),
        Form::Two(a, b) => Ast::new(K::Unit2(a.clone(), b.clone(), CondK::None)),
    };
    let skip = gen_skip(r);
    let (mut inp, mut start) = gen_input(r, &g, &ast, if kind.policy() { Some(&skip) } else { None });
    // a condition asked very many times
    if let Form::One(u, _) = &form {
        let members: Vec<char> = g.alpha.iter().copied().filter(|x| u.has(*x as u32)).collect();
        if let Some(n) = gen_huge(r, 1500, 40_000).filter(|_| !members.is_empty()) {
            let text = kind.text();
            let mut put = |x: char, v: &mut Vec<u8>| match text {
                true => v.extend_from_slice(x.encode_utf8(&mut [0; 4]).as_bytes()),
                false => v.push(x as u32 as u8),
            };
            inp.clear();
            if r.flip() {
                put(*r.pick(&g.alpha), &mut inp);
            }
            start = inp.len();
            let x = *r.pick(&members);
            for _ in 0..n {
                put(x, &mut inp);
            }
            let far = inp.len() - start - r.below(n.min(5));
            put(*r.pick(&g.alpha), &mut inp);
            match r.below(5) {
                0 | 1 => cd = Cd::Fun(CondK::Lt(far)),
                2 => cd = Cd::Fun(CondK::ErrAt(far)),
                _ => {}
            }
        }
    }
    let c = Case { ast, inp, start, rej: Rej::None, kind, skip };
    o.note(|| format!("{}\nrepetition {form:?} condition {cd:?} given as {how}", c.show()));
    let nt = on_kind!(&c, |ctx| drive(ctx, &c, &form, &cd, how, o))
        .map_err(|e| format!("{e}\n{}\nrepetition {form:?} condition {cd:?} given as {how}", c.show()))?;
    if nt {
        o.nontrivial(&(c.key(), format!("{form:?}{cd:?}{how}")));
    }
    Ok(())
}

fn composed(c: &Case, o: &mut Obs) -> Result<bool, String> {
    let mut conds = 0;
    c.ast.walk(&mut |a| {
        if let K::Unit(_, _, d) | K::Unit2(_, _, d) = &a.k {
            conds += (*d != CondK::None) as u32;
        }
    });
    if conds == 0 {
        return Ok(false);
    }
    let mut m = c.model();
    let want = m.tm(&c.ast, c.start, 0);
    if m.over {
        return Ok(false);
    }
    let k = run_match(c, budget_for(m.steps))?;
    observe(o, c, &k.mon);
    let got = k.res.map(|s| (s.0, s.0 + s.1)).ok();
    let exp = want.map(|m| (m.beg, m.end)).ok();
    if got != exp {
        return Err(format!("matches {got:?}, reference {exp:?}"));
    }
    Ok(k.mon.nonempty_oks > 0)
}

fn main() {
    run(
        Plan {
            quick: 4_000_000,
            ..Plan::new("C22", "a random unit repetition with a logging condition (by distance, element, absolute position, what follows, pattern, failing) run at several places; non-trivial when the condition refused an element the unit accepts, or a grammar with conditions matched something")
        },
        case,
    )
}
