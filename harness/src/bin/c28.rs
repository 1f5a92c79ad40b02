//! C28: counted-prefix units accept the prefix first, then the unit.
//! Element histories are fed to real units, one element at a time and through
//! repetitions, against an explicit automaton.
use neure::ctx::{Context, Match};
use neure::neu::{self, Neu, NeuIntoRegexOps, Prefix, PrefixSync};
use nverif::ast::*;
use nverif::case::{cfg_for, show_input, Kind, Want, PLAIN};
use nverif::ctxs::*;
use nverif::drv::{guarded, run, Obs, Plan};
use nverif::generate::*;
use nverif::model::decode;
use nverif::rng::Rng;
use std::ops::Bound;
use std::sync::Arc;

/// description of a unit
#[derive(Clone, Debug, PartialEq)]
enum D {
    Cls(Cls),
    /// shareable form, prefix, count, unit
    Pre(bool, Box<D>, usize, Box<D>),
}

/// the automaton: what has been required so far, kept beside the description
#[derive(Clone, Debug)]
enum A {
    Cls(Cls),
    Pre { prefix: Box<A>, left: usize, alive: bool, unit: Box<A> },
}
impl A {
    fn new(d: &D) -> A {
        match d {
            D::Cls(c) => A::Cls(c.clone()),
            D::Pre(_, p, n, u) => A::Pre { prefix: Box::new(A::new(p)), left: *n, alive: true, unit: Box::new(A::new(u)) },
        }
    }
    fn step(&mut self, e: u32) -> bool {
        match self {
            A::Cls(c) => c.has(e),
            A::Pre { prefix, left, alive, unit } => {
                if !*alive {
                    return false;
                }
                if *left > 0 {
                    *left -= 1;
                    *alive = prefix.step(e);
                    return *alive;
                }
                unit.step(e)
            }
        }
    }
}

/// the real unit
enum U<T: HItem> {
    Cls(Arc<Cls>),
    Pre(Box<Prefix<U<T>, U<T>, T>>),
    Sync(Box<PrefixSync<U<T>, U<T>, T>>),
}
impl<T: HItem> Clone for U<T> {
    fn clone(&self) -> Self {
        match self {
            U::Cls(c) => U::Cls(c.clone()),
            U::Pre(p) => U::Pre(p.clone()),
            U::Sync(p) => U::Sync(p.clone()),
        }
    }
}
impl<T: HItem> Neu<T> for U<T> {
    fn is_match(&self, x: &T) -> bool {
        match self {
            U::Cls(c) => c.has(x.cp()),
            U::Pre(p) => p.as_ref().is_match(x),
            U::Sync(p) => p.as_ref().is_match(x),
        }
    }
    fn min_length(&self) -> usize {
        match self {
            U::Cls(_) => 0,
            U::Pre(p) => p.as_ref().min_length(),
            U::Sync(p) => p.as_ref().min_length(),
        }
    }
}

/// `how`: constructor used, and whether parts are replaced before use
fn mk<T: HItem>(d: &D, how: u8) -> U<T> {
    match d {
        D::Cls(c) => U::Cls(Arc::new(c.clone())),
        D::Pre(sync, p, n, u) => {
            let (pp, uu) = (mk::<T>(p, how), mk::<T>(u, how));
            let never = || U::<T>::Cls(Arc::new(Cls::Never));
            macro_rules! go {
                ($k:ident, $ty:ident, $one:ident, $cnt:ident) => {
                    match (how % 5, *n) {
                        (0, 1) => U::$k(Box::new(neu::$one(pp, uu))),
                        (1, n) => {
                            let mut x = neu::$cnt(never(), n, never());
                            x.set_unit(uu);
                            x.set_prefix(pp);
                            U::$k(Box::new(x))
                        }
                        (2, n) => {
                            let mut x = $ty::new(never(), n, never());
                            *x.unit_mut() = uu;
                            *x.prefix_mut() = pp;
                            U::$k(Box::new(x))
                        }
                        (3, n) => U::$k(Box::new($ty::new(pp, n, uu))),
                        (_, n) => U::$k(Box::new(neu::$cnt(pp, n, uu))),
                    }
                };
            }
            if *sync {
                go!(Sync, PrefixSync, prefix_sync, prefix_sync_cnt)
            } else {
                go!(Pre, Prefix, prefix, prefix_cnt)
            }
        }
    }
}

fn feed<T: HItem>(u: &dyn Neu<T>, a: &mut A, es: &[T], o: &mut Obs, what: &str) -> Result<(), String> {
    for (i, e) in es.iter().enumerate() {
        let want = a.step(e.cp());
        let got = u.is_match(e);
        o.events += 1;
        if got != want {
            return Err(format!("{what}: element {i} ({e:?}) is {}, expected {}", word(got), word(want)));
        }
    }
    Ok(())
}

fn word(b: bool) -> &'static str {
    if b { "accepted" } else { "refused" }
}

/// element by element
fn history<T: HItem + Send>(d: &D, how: u8, es: &[T], other: &[T], o: &mut Obs) -> Result<(), String> {
    let u = mk::<T>(d, how);
    // copies made before use are independent of each other
    let (c1, c2) = (u.clone(), u.clone());
    let mut a1 = A::new(d);
    // interleave the histories of the original and a copy
    let mut a0 = A::new(d);
    for i in 0..es.len().max(other.len()) {
        if let Some(e) = es.get(i) {
            feed(&u, &mut a0, &[*e], o, "original").map_err(|e| format!("{e}, step {i}"))?;
        }
        if let Some(e) = other.get(i) {
            feed(&c1, &mut a1, &[*e], o, "copy used beside it").map_err(|e| format!("{e}, step {i}"))?;
        }
    }
    // through the forms a unit may be held in
    let mut a2 = A::new(d);
    match how % 4 {
        0 => feed(&c2, &mut a2, es, o, "late copy")?,
        1 => {
            let b: Box<dyn Neu<T>> = Box::new(c2);
            feed(&b, &mut a2, es, o, "boxed copy")?
        }
        2 => feed(&std::rc::Rc::new(c2), &mut a2, es, o, "counted copy")?,
        _ => feed(&std::cell::RefCell::new(c2), &mut a2, es, o, "copy in a cell")?,
    }
    Ok(())
}

/// through a repetition
fn pattern<'a, C, T>(mut ctx: C, d: &D, how: u8, op: &Op, at: usize, inp: &[u8], o: &mut Obs) -> Result<bool, String>
where
    T: HItem,
    C: HCtx<'a> + Context<'a, Item = T>,
{
    let u = mk::<T>(d, how);
    let (lo, hi) = match op {
        Op::Once => (1, Some(1)),
        Op::Opt => (0, Some(1)),
        Op::Many0 => (0, None),
        Op::Many1 => (1, None),
        Op::Between(i) => (BETWEEN[*i].0, Some(BETWEEN[*i].1)),
        Op::Times(r) => (rng_lo(r), rng_hi(r)),
    };
    let mut a = A::new(d);
    let (mut n, mut p) = (0, at);
    while hi.is_none_or(|h| n < h) {
        let Some((e, w)) = decode(inp, p, C::TEXT) else { break };
        if !a.step(e) {
            break;
        }
        n += 1;
        p += w;
    }
    let want = if n < lo { None } else { Some((at, p)) };
    // the type a repetition sees is the unit's own
    let run = |ctx: &mut C| {
        let u = u.clone();
        macro_rules! by {
            ($u:expr) => {
                match op {
                    Op::Once => NeuIntoRegexOps::<'a, C>::once($u).try_p(ctx),
                    Op::Opt => NeuIntoRegexOps::<'a, C>::opt($u).try_p(ctx),
                    Op::Many0 => NeuIntoRegexOps::<'a, C>::many0($u).try_p(ctx),
                    Op::Many1 => NeuIntoRegexOps::<'a, C>::many1($u).try_p(ctx),
                    Op::Times(r) => NeuIntoRegexOps::<'a, C>::times($u, neu::CRange::from(*r)).try_p(ctx),
                    Op::Between(0) => NeuIntoRegexOps::<'a, C>::between::<0, 1>($u).try_p(ctx),
                    Op::Between(1) => NeuIntoRegexOps::<'a, C>::at_most::<3>($u).try_p(ctx),
                    Op::Between(2) => NeuIntoRegexOps::<'a, C>::count::<1>($u).try_p(ctx),
                    Op::Between(3) => NeuIntoRegexOps::<'a, C>::between::<1, 2>($u).try_p(ctx),
                    Op::Between(4) => NeuIntoRegexOps::<'a, C>::between::<2, 4>($u).try_p(ctx),
                    Op::Between(5) => NeuIntoRegexOps::<'a, C>::count::<3>($u).try_p(ctx),
                    Op::Between(6) => NeuIntoRegexOps::<'a, C>::at_least::<0>($u).try_p(ctx),
                    _ => NeuIntoRegexOps::<'a, C>::at_least::<2>($u).try_p(ctx),
                }
            };
        }
        match u {
            U::Pre(p) => by!(*p),
            U::Sync(p) => by!(*p),
            c => by!(c),
        }
    };
    for round in 0..2 {
        // a fresh copy for every match
        ctx.set_offset(at);
        let got = guarded(|| run(&mut ctx).map(|s| (s.beg, s.beg + s.len)))?.ok();
        o.events += (n + 1) as u64;
        if got != want {
            return Err(format!("repetition {op:?} at {at} (copy {round}) takes {got:?}, expected {want:?}"));
        }
        let off = ctx.offset();
        if off != want.map_or(at, |w| w.1) {
            return Err(format!("repetition {op:?} at {at} stands at {off} after {got:?}"));
        }
    }
    Ok(n > 0)
}

/// `ctx.try_mat(&p)` as a method of the pattern
trait TryP<C> {
    fn try_p(&self, ctx: &mut C) -> Result<neure::span::Span, neure::err::Error>;
}
impl<'a, C: Match<'a>, P: neure::regex::Regex<C>> TryP<C> for P {
    fn try_p(&self, ctx: &mut C) -> Result<neure::span::Span, neure::err::Error> {
        ctx.try_mat(self)
    }
}

fn gen_d(r: &mut Rng, g: &Cfg, depth: u32) -> D {
    if depth == 0 {
        return D::Cls(gen_cls(r, g, 1));
    }
    let part = |r: &mut Rng| {
        let deep = r.chance(1, 4);
        Box::new(if deep { gen_d(r, g, depth - 1) } else { D::Cls(gen_cls(r, g, 1)) })
    };
    let p = part(r);
    let u = part(r);
    let n = match r.below(30) {
        0 => *r.pick(COUNTS),
        1 => r.range(5, 40),
        2 => gen_huge(r, 8, 5000).unwrap_or(5),
        3 | 4 => usize::MAX - r.below(2),
        _ => *r.pick(&[0, 1, 1, 1, 2, 2, 3, 4, 7]),
    };
    D::Pre(r.chance(1, 2), p, n, u)
}

/// elements needed to satisfy the prefixes that can be satisfied
fn longest(d: &D) -> usize {
    match d {
        D::Cls(_) => 0,
        D::Pre(_, p, n, u) => {
            let n = if *n > 7 && *n < 6000 { *n } else { 0 };
            longest(p).max(n + longest(u))
        }
    }
}

/// elements that mostly keep the automaton alive
fn gen_elems(r: &mut Rng, g: &Cfg, d: &D) -> Vec<char> {
    let mut a = A::new(d);
    let mut v = vec![];
    // long enough to get through a long prefix, most of the time
    let reach = if r.chance(9, 10) { longest(d) } else { 0 };
    let slip = if reach > 20 { reach } else { 6 };
    for _ in 0..reach + r.below(12) {
        let mut pick = *r.pick(&g.alpha);
        if !r.chance(1, slip) {
            let start = r.below(g.alpha.len());
            for i in 0..g.alpha.len() {
                let c = g.alpha[(start + i) % g.alpha.len()];
                if a.clone().step(c as u32) {
                    pick = c;
                    break;
                }
            }
        }
        a.step(pick as u32);
        v.push(pick);
    }
    v
}

fn case(r: &mut Rng, o: &mut Obs) -> Result<(), String> {
    let kind = *r.pick(PLAIN);
    let g = cfg_for(r, kind, &Want::new(PLAIN));
    let d = gen_d(r, &g, 2);
    let how = r.below(20) as u8;
    let text = kind.text();
    let a = gen_elems(r, &g, &d);
    let b = gen_elems(r, &g, &d);
    let bytes = |v: &[char]| -> Vec<u8> {
        if text { v.iter().collect::<String>().into_bytes() } else { v.iter().map(|c| *c as u32 as u8).collect() }
    };
    let mut inp = gen_lead(r, &g);
    inp.extend(bytes(&b[..b.len().min(2)]));
    let at = inp.len();
    inp.extend(bytes(&a));
    o.note(|| format!("unit {d:?} built as {how}, elements {a:?} and {b:?}, {kind:?}"));
    let fail = |e: String| format!("{e}\nunit {d:?} built as {how}, input {} at {at}, elements {a:?}, for the copy {b:?}", show_input(&inp, text));
    guarded(|| {
        if text {
            history::<char>(&d, how, &a, &b, o)
        } else {
            let to = |v: &[char]| v.iter().map(|c| *c as u32 as u8).collect::<Vec<u8>>();
            history::<u8>(&d, how, &to(&a), &to(&b), o)
        }
    })?
    .map_err(fail)?;
    let op = match r.below(7) {
        0 => Op::Once,
        1 => Op::Opt,
        2 => Op::Many0,
        3 => Op::Many1,
        4 => {
            let lo = r.below(4);
            Op::Times((Bound::Included(lo), Bound::Included(lo + r.below(4))))
        }
        5 => Op::Times((Bound::Included(r.below(3)), Bound::Unbounded)),
        _ => Op::Between(r.below(SMALL_BETWEEN)),
    };
    let nt = match kind {
        Kind::Chars => pattern(CharsCtx_::mk(&inp), &d, how, &op, at, &inp, o),
        Kind::Bytes => pattern(BytesCtx_::mk(&inp), &d, how, &op, at, &inp, o),
        Kind::UText => pattern(UText::mk(&inp), &d, how, &op, at, &inp, o),
        _ => pattern(UBytes::mk(&inp), &d, how, &op, at, &inp, o),
    }
    .map_err(fail)?;
    // the shareable form handed from thread to thread
    if o.index % 512 == 0 && text {
        if let D::Pre(_, p, n, u) = &d {
            if let (D::Cls(p), D::Cls(u)) = (&**p, &**u) {
                let (pc, uc) = (p.clone(), u.clone());
                let unit = neu::prefix_sync_cnt(move |c: &char| pc.has(*c as u32), *n, move |c: &char| uc.has(*c as u32));
                let mut m = A::new(&d);
                let unit = Arc::new(unit);
                for (i, e) in a.iter().enumerate() {
                    let (x, e) = (unit.clone(), *e);
                    let got = std::thread::spawn(move || x.is_match(&e)).join().map_err(|_| "a thread panicked".to_string())?;
                    let want = m.step(e as u32);
                    if got != want {
                        return Err(fail(format!("handed between threads: element {i} is {}, expected {}", word(got), word(want))));
                    }
                }
                o.count("handed_between_threads");
            }
        }
    }
    if let D::Pre(sync, _, n, _) = &d {
        o.count(if *sync { "shareable_form" } else { "plain_form" });
        o.count(match n {
            0 => "count_0",
            1 => "count_1",
            2..=7 => "count_2_to_7",
            8..=6000 => "count_8_to_6000",
            _ => "count_huge",
        });
        let mut m = A::new(&d);
        let oks = a.iter().filter(|e| m.step(**e as u32)).count();
        if nt || (oks > 0 && oks < a.len()) {
            o.nontrivial(&format!("{d:?}{a:?}{op:?}{how}"));
        }
    }
    Ok(())
}

type CharsCtx_<'a> = neure::ctx::CharsCtx<'a>;
type BytesCtx_<'a> = neure::ctx::BytesCtx<'a>;

fn main() {
    run(
        Plan {
            quick: 1_500_000,
            ..Plan::new("C28", "a random counted-prefix unit (plain or shareable, nested, any count) fed two interleaved element histories and run in a repetition; non-trivial when it took elements and, in its history, refused some")
        },
        case,
    )
}
