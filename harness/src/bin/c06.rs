//! C06: a repetition of a unit takes the longest run its upper bound allows,
//! fails exactly when the run is shorter than its lower bound.  The expected
//! span is computed from the run length alone, for every way of writing one.
use nverif::ast::*;
use nverif::ctxs::*;
use nverif::drv::{guarded, run, Obs, Plan};
use nverif::generate::*;
use nverif::rng::Rng;
use neure::ctor::Ctor;
use neure::ctx::{BytesCtx, CharsCtx, Context};
use neure::err::Error;
use neure::neu::{self, Between, CRange, Condition, EmptyCond, Many0, Many1, Neu, NeuIntoRegexOps, NeureThen, Once, Opt, Times};
use neure::regex::{self, Regex};
use neure::span::Span;
use std::ops::Bound;

type P<'a, C> = Box<dyn Regex<C> + 'a>;
type U<T> = Box<dyn Neu<T>>;

struct Form<'a, C> {
    p: P<'a, C>,
    lo: usize,
    hi: Option<usize>,
    name: String,
}

macro_rules! consts {
    ($m:ident, $k:expr, $($v:literal),*) => { match $k { $($v => $m!($v),)* _ => panic!("harness: const") } };
}

/// every way a count range can be given
fn times_of<'a, C, T>(r: &mut Rng, u: U<T>, near: usize) -> Form<'a, C>
where
    T: HItem,
    C: HCtx<'a> + Context<'a, Item = T>,
{
    let big = r.chance(1, 12);
    // a long run is measured with bounds around its length
    let around = !big && near > 20 && r.chance(3, 4);
    let a = if around { near.saturating_sub(2) + r.below(4) } else if big { *r.pick(&[usize::MAX, usize::MAX - 1, usize::MAX / 2, 1 << 40]) } else { r.below(5) };
    let b = if big {
        if r.flip() { usize::MAX } else { a.saturating_add(r.below(3)) }
    } else {
        a + r.below(4)
    };
    let b1 = b.saturating_add(1).max(a.saturating_add(1));
    if a >= b1 {
        // no half-open range can be written
        let f = a..=a;
        return Form { p: Box::new(u.times(f), ), lo: a, hi: Some(a), name: format!("times({a}..={a})") };
    }
    macro_rules! f {
        ($e:expr, $lo:expr, $hi:expr) => {{
            let e = $e;
            let name = format!("times({})", stringify!($e));
            Form { p: Box::new(u.times(e)), lo: $lo, hi: $hi, name: format!("{name} a={a} b={b} b1={b1}") }
        }};
    }
    // counts come in every integer type, and from values or references
    macro_rules! int {
        ($t:ty) => {{
            let n = a.min(<$t>::MAX as usize);
            if r.flip() {
                f!(n as $t, n, Some(n))
            } else {
                f!(&(n as $t), n, Some(n))
            }
        }};
    }
    use core::range as new;
    match r.below(32) {
        0 => f!(a, a, Some(a)),
        1 => f!(&a, a, Some(a)),
        2 => int!(u8),
        3 => int!(i8),
        4 => int!(u16),
        5 => int!(i16),
        6 => int!(u32),
        7 => int!(i32),
        8 => int!(u64),
        9 => int!(i64),
        10 => int!(isize),
        11 => int!(usize),
        26 => f!(new::Range::from(a..b1), a, Some(b1 - 1)),
        27 => f!(new::RangeInclusive::from(a..=b), a, Some(b)),
        28 => f!(new::RangeFrom::from(a..), a, None),
        29 => f!(new::RangeToInclusive { last: b }, 0, Some(b)),
        30 => f!(CRange::<usize>::clone_from(a..=b), a, Some(b)),
        31 => f!(CRange::<usize>::clone_from(CRange::from((Bound::Included(a), Bound::Included(b)))), a, Some(b)),
        12 => f!(a..b1, a, Some(b1 - 1)),
        13 => f!(a..=b, a, Some(b)),
        14 => f!(a.., a, None),
        15 => f!(.., 0, None),
        16 => f!(..b1, 0, Some(b1 - 1)),
        17 => f!(..=b, 0, Some(b)),
        18 => f!((Bound::Included(a), Bound::Included(b)), a, Some(b)),
        19 => f!((Bound::Included(a), Bound::Excluded(b1)), a, Some(b1 - 1)),
        20 => f!((Bound::Excluded(a), Bound::<usize>::Unbounded), a.saturating_add(1), None),
        21 if !big => f!((Bound::Excluded(a), Bound::Included(b + 1)), a + 1, Some(b + 1)),
        22 if !big => f!((Bound::Excluded(a), Bound::Excluded(b + 2)), a + 1, Some(b + 1)),
        23 => f!(neu::range(a..=b), a, Some(b)),
        24 => f!(CRange::new(Bound::Included(a), Bound::Included(b)), a, Some(b)),
        25 => f!(CRange::<usize>::clone_from(a..b1), a, Some(b1 - 1)),
        _ => f!(a..=b, a, Some(b)),
    }
}

fn form<'a, C, T>(r: &mut Rng, u: U<T>, other: U<T>, near: usize) -> Form<'a, C>
where
    T: HItem,
    C: HCtx<'a> + Context<'a, Item = T>,
{
    let yes = |_: &C, _: &(usize, T)| -> Result<bool, Error> { Ok(true) };
    let no = |_: &C, _: &(usize, T)| -> Result<bool, Error> { Ok(false) };
    macro_rules! f {
        ($e:expr, $lo:expr, $hi:expr, $n:expr) => {
            Form { p: Box::new($e), lo: $lo, hi: $hi, name: $n.to_string() }
        };
    }
    // spelled through a mutator half of the time
    let mutate = r.chance(1, 3);
    macro_rules! m {
        ($e:expr, $lo:expr, $hi:expr, $n:expr) => {{
            if mutate {
                let mut p = {
                    let u = other;
                    $e(u)
                };
                let way = r.flip();
                if way { p.set_unit(u); } else { *p.unit_mut() = u; }
                f!(p, $lo, $hi, concat!($n, " unit replaced"))
            } else {
                f!($e(u), $lo, $hi, $n)
            }
        }};
    }
    match r.below(24) {
        0 => m!(|u| NeuIntoRegexOps::<'a, C>::once(u), 1, Some(1), "once"),
        1 => m!(|u| NeuIntoRegexOps::<'a, C>::opt(u), 0, Some(1), "opt"),
        2 => m!(|u| NeuIntoRegexOps::<'a, C>::many0(u), 0, None, "many0"),
        3 => m!(|u| NeuIntoRegexOps::<'a, C>::many1(u), 1, None, "many1"),
        4 => m!(regex::once::<C, U<T>>, 1, Some(1), "regex::once"),
        5 => m!(regex::opt::<C, U<T>>, 0, Some(1), "regex::opt"),
        6 => m!(regex::many0::<C, U<T>>, 0, None, "regex::many0"),
        7 => m!(regex::many1::<C, U<T>>, 1, None, "regex::many1"),
        8 => {
            let k = r.below(8);
            macro_rules! c { ($v:literal) => { m!(|u| NeuIntoRegexOps::<'a, C>::count::<$v>(u), $v, Some($v), concat!("count ", $v)) } }
            consts!(c, k, 0, 1, 2, 3, 4, 5, 6, 7)
        }
        9 => {
            let k = r.below(8);
            macro_rules! c { ($v:literal) => { m!(|u| NeuIntoRegexOps::<'a, C>::at_least::<$v>(u), $v, None, concat!("at_least ", $v)) } }
            consts!(c, k, 0, 1, 2, 3, 4, 5, 6, 7)
        }
        10 => {
            let k = r.below(8);
            macro_rules! c { ($v:literal) => { m!(|u| NeuIntoRegexOps::<'a, C>::at_most::<$v>(u), 0, Some($v), concat!("at_most ", $v)) } }
            consts!(c, k, 0, 1, 2, 3, 4, 5, 6, 7)
        }
        11 => match r.below(7) {
            0 => m!(|u| NeuIntoRegexOps::<'a, C>::between::<0, 0>(u), 0, Some(0), "between 0 0"),
            1 => m!(|u| NeuIntoRegexOps::<'a, C>::between::<1, 2>(u), 1, Some(2), "between 1 2"),
            2 => m!(|u| NeuIntoRegexOps::<'a, C>::between::<2, 5>(u), 2, Some(5), "between 2 5"),
            3 => m!(|u| NeuIntoRegexOps::<'a, C>::between::<4, 4>(u), 4, Some(4), "between 4 4"),
            4 => m!(|u| NeuIntoRegexOps::<'a, C>::between::<{ usize::MAX }, { usize::MAX }>(u), usize::MAX, None, "between max max"),
            5 => m!(|u| NeuIntoRegexOps::<'a, C>::between::<{ usize::MAX / 2 + 1 }, { usize::MAX }>(u), usize::MAX / 2 + 1, None, "between max/2 max"),
            _ => m!(|u| NeuIntoRegexOps::<'a, C>::between::<3, { usize::MAX }>(u), 3, None, "between 3 max"),
        },
        12 => match r.below(3) {
            0 => m!(regex::count::<0, 3, C, U<T>>, 0, Some(3), "regex::count 0 3"),
            1 => m!(regex::count::<2, 6, C, U<T>>, 2, Some(6), "regex::count 2 6"),
            _ => m!(regex::count::<3, 3, C, U<T>>, 3, Some(3), "regex::count 3 3"),
        },
        13 => {
            let (lo, hi) = (2, 4);
            f!(regex::count_if::<2, 4, C, U<T>, _>(u, yes), lo, Some(hi), "count_if true 2 4")
        }
        14 => f!(regex::count_if::<1, 4, C, U<T>, _>(u, no), 1, Some(0), "count_if false 1 4"),
        15 => f!(u.many0().set_cond(no), 0, Some(0), "many0 cond false"),
        16 => {
            let f: P<'a, C> = match r.below(7) {
                0 => Box::new(u.many1().set_cond(yes)),
                1 => Box::new(Many1::<C, U<T>, T, _>::new(u, yes)),
                2 => Box::new(u.at_least::<1>().set_cond(yes)),
                3 => Box::new(u.times(1..).set_cond(yes)),
                4 => Box::new(Between::<1, { usize::MAX }, C, U<T>, _>::new(u, EmptyCond)),
                5 => Box::new(Times::<C, U<T>, _>::new(u, CRange::from(1..), EmptyCond)),
                _ => Box::new(Many1::<C, U<T>, T, _>::new(u, EmptyCond)),
            };
            Form { p: f, lo: 1, hi: None, name: "one or more, seven spellings".into() }
        }
        17 => {
            let f: P<'a, C> = match r.below(6) {
                0 => Box::new(u.opt().set_cond(yes)),
                1 => Box::new(Opt::<C, U<T>, T, _>::new(u, EmptyCond)),
                2 => Box::new(u.times(..=1)),
                3 => Box::new(u.at_most::<1>().set_cond(yes)),
                4 => Box::new(u.between::<0, 1>()),
                _ => Box::new(Opt::<C, U<T>, T, _>::new(u, yes)),
            };
            Form { p: f, lo: 0, hi: Some(1), name: "optional, six spellings".into() }
        }
        18 => {
            let f: P<'a, C> = match r.below(4) {
                0 => Box::new(u.once().set_cond(yes)),
                1 => Box::new(Once::<C, U<T>, T, _>::new(u, EmptyCond)),
                2 => Box::new(u.times(1)),
                _ => Box::new(u.count::<1>()),
            };
            Form { p: f, lo: 1, hi: Some(1), name: "once, four spellings".into() }
        }
        19 => {
            let f: P<'a, C> = match r.below(4) {
                0 => Box::new(u.many0().set_cond(yes)),
                1 => Box::new(Many0::<C, U<T>, T, _>::new(u, EmptyCond)),
                2 => Box::new(u.times(..)),
                _ => Box::new(u.at_least::<0>()),
            };
            Form { p: f, lo: 0, hi: None, name: "zero or more, four spellings".into() }
        }
        20 => {
            // replaced range
            let (a, b) = (r.below(4), r.below(4));
            let mut t = u.times(7..9);
            match r.below(3) {
                0 => {
                    t.set_range(a..=a + b);
                }
                1 => *t.range_mut() = CRange::from(a..=a + b),
                _ => {
                    t.set_range(a..a + b + 1);
                }
            }
            Form { p: Box::new(t), lo: a, hi: Some(a + b), name: format!("times with range set to {a}..={}", a + b) }
        }
        _ => times_of(r, u, near),
    }
}

/// positions and code points of the elements from `start`
fn elems(inp: &[u8], text: bool, start: usize) -> Vec<(u32, usize)> {
    if text {
        std::str::from_utf8(&inp[start..]).unwrap().chars().map(|c| (c as u32, c.len_utf8())).collect()
    } else {
        inp[start..].iter().map(|b| (*b as u32, 1)).collect()
    }
}

fn judge<'a, C: HCtx<'a>>(
    ctx: &mut C,
    p: &P<'a, C>,
    start: usize,
    want: Option<usize>,
    twice: bool,
) -> Result<(), String> {
    for _ in 0..if twice { 2 } else { 1 } {
        ctx.set_offset(start);
        let got = guarded(|| ctx.try_mat(p))?;
        match (want, &got) {
            (Some(n), Ok(s)) if s.beg == start && s.len == n && ctx.offset() == start + n => {}
            (None, Err(_)) if ctx.offset() == start => {}
            _ => return Err(format!("expected {want:?} bytes from {start}, got {got:?} and the position {}", ctx.offset())),
        }
        // negation is the opposite, without moving
        ctx.set_offset(start);
        let neg = guarded(|| ctx.try_mat(&regex::not(|c: &mut C| p.try_parse(c))))?;
        if neg.is_ok() != got.is_err() || ctx.offset() != start {
            return Err(format!("negated: {neg:?}, plain: {got:?}"));
        }
        // construction hands the handler the same span
        ctx.set_offset(start);
    }
    Ok(())
}

fn go<'a, C, T>(ctx: &mut C, r: &mut Rng, o: &mut Obs, cls: &Cls, oth: &Cls, inp: &[u8], start: usize) -> Result<bool, String>
where
    T: HItem,
    C: HCtx<'a> + Context<'a, Item = T>,
{
    let el = elems(inp, C::TEXT, start);
    if r.chance(1, 8) {
        // two units in sequence
        let want = match (el.first(), el.get(1)) {
            (Some(a), Some(b)) if cls.has(a.0) && oth.has(b.0) => Some(a.1 + b.1),
            _ => None,
        };
        let p: P<'a, C> = match r.below(4) {
            0 => Box::new(NeuIntoRegexOps::<'a, C>::then(T::unit(cls), T::unit(oth))),
            1 => Box::new(NeureThen::<C, U<T>, U<T>, T, EmptyCond>::new(T::unit(cls), T::unit(oth), EmptyCond)),
            2 => {
                let mut t = NeuIntoRegexOps::<'a, C>::then(T::unit(oth), T::unit(cls));
                t.set_left(T::unit(cls));
                t.set_right(T::unit(oth));
                Box::new(t)
            }
            _ => {
                let mut t = NeuIntoRegexOps::<'a, C>::then(T::unit(oth), T::unit(cls));
                *t.left_mut() = T::unit(cls);
                *t.right_mut() = T::unit(oth);
                Box::new(t)
            }
        };
        o.note(|| format!("two units {cls:?} {oth:?} on {inp:?} from {start}"));
        judge(ctx, &p, start, want, r.flip())?;
        o.count("form two units");
        return Ok(want.is_some());
    }
    let runlen = el.iter().take_while(|x| cls.has(x.0)).count();
    let f = form::<C, T>(r, T::unit(cls), T::unit(oth), runlen);
    let n = f.hi.map_or(runlen, |h| runlen.min(h));
    // a condition that never holds stops at zero elements
    let want = if n < f.lo { None } else { Some(el[..n].iter().map(|x| x.1).sum()) };
    o.note(|| format!("{} of {cls:?} (text {}) on {inp:?} from {start}: run of {runlen}, expected {want:?}", f.name, C::TEXT));
    judge(ctx, &f.p, start, want, r.flip()).map_err(|e| format!("{}: {e}", f.name))?;
    if o.index % 16 == 0 {
        o.count(&format!("sampled_1_in_16:form {}", f.name.split(" a=").next().unwrap()));
        o.count(match want {
            None => "sampled_1_in_16:run shorter than the lower bound",
            Some(_) if n < runlen => "sampled_1_in_16:stopped by the upper bound",
            Some(_) if start + el[..n].iter().map(|x| x.1).sum::<usize>() == inp.len() => "sampled_1_in_16:stopped by the end of input",
            Some(_) => "sampled_1_in_16:stopped by an element outside the class",
        });
        o.max("run_length", runlen as u64);
    }
    Ok(runlen > 0)
}

/// construction: the handler is given exactly the run
fn go_ctor<'a, C, T>(ctx: &mut C, r: &mut Rng, o: &mut Obs, cls: &Cls, inp: &[u8], start: usize) -> Result<bool, String>
where
    T: HItem,
    C: HCtx<'a> + Context<'a, Item = T>,
{
    let el = elems(inp, C::TEXT, start);
    let runlen = el.iter().take_while(|x| cls.has(x.0)).count();
    let u = T::unit(cls);
    struct H(Vec<Span>);
    impl<C> neure::ctor::Handler<C> for H {
        type Out = usize;
        type Error = Error;
        fn invoke(&mut self, _: &C, s: &Span) -> Result<usize, Error> {
            self.0.push(*s);
            Ok(s.len)
        }
    }
    let mut h = H(vec![]);
    ctx.set_offset(start);
    let (a, b) = (if runlen > 20 { runlen - r.below(3) } else { r.below(3) }, r.below(4));
    let (lo, hi, res) = guarded(|| match r.below(6) {
        0 => (1, Some(1), Ctor::<C, usize, H>::construct(&u.once(), ctx, &mut h)),
        1 => (0, Some(1), u.opt().construct(ctx, &mut h)),
        2 => (0, None, u.many0().construct(ctx, &mut h)),
        3 => (1, None, u.many1().construct(ctx, &mut h)),
        4 => (2, Some(3), u.between::<2, 3>().construct(ctx, &mut h)),
        _ => (a, Some(a + b), u.times(a..=a + b).construct(ctx, &mut h)),
    })?;
    let n = hi.map_or(runlen, |h| runlen.min(h));
    let want = if n < lo { None } else { Some(el[..n].iter().map(|x| x.1).sum::<usize>()) };
    o.note(|| format!("constructing {lo}..{hi:?} of {cls:?} on {inp:?} from {start}"));
    let ok = match want {
        Some(w) => res == Ok(w) && ctx.offset() == start + w && h.0.len() == 1 && h.0[0].beg == start && h.0[0].len == w,
        None => res.is_err() && h.0.is_empty() && ctx.offset() == start,
    };
    if !ok {
        return Err(format!("constructing: expected {want:?}, got {res:?}, handler saw {:?}, position {}", h.0, ctx.offset()));
    }
    o.count("constructions");
    Ok(runlen > 0)
}

/// runs of millions: no counter on the way may be narrower than a length
fn millions(n: usize, o: &mut Obs) -> Result<(), String> {
    o.note(|| format!("every unbounded form on {n} elements"));
    let s = "a".repeat(n);
    fn go<'a, C>(mut ctx: C, n: usize, o: &mut Obs) -> Result<(), String>
    where
        C: HCtx<'a>,
        char: Neu<C::Item>,
    {
        let u = 'a';
        let yes = |_: &C, _: &(usize, C::Item)| -> Result<bool, Error> { Ok(true) };
        let k = n - 3;
        let forms: Vec<(&str, usize, P<'a, C>)> = vec![
            ("many0", n, Box::new(u.many0())),
            ("many1", n, Box::new(u.many1())),
            ("many0 with a condition", n, Box::new(u.many0().set_cond(yes))),
            ("at_least", n, Box::new(u.at_least::<2>())),
            ("at_most", n, Box::new(u.at_most::<{ usize::MAX }>())),
            ("between", n, Box::new(u.between::<1_000_000, { usize::MAX }>())),
            ("at_most a million", 1_000_000, Box::new(u.at_most::<1_000_000>())),
            ("count a million", 1_000_000, Box::new(u.count::<1_000_000>())),
            ("times(1..)", n, Box::new(u.times(1..))),
            ("times(..)", n, Box::new(u.times(..))),
            ("times(k..)", n, Box::new(u.times(k..))),
            ("times(..k)", k - 1, Box::new(u.times(..k))),
            ("times(..=k)", k, Box::new(u.times(..=k))),
            ("times(k)", k, Box::new(u.times(k))),
        ];
        for (name, want, p) in &forms {
            ctx.set_offset(0);
            let res = guarded(|| ctx.try_mat(p))?;
            o.events += 1;
            if res != Ok(Span::new(0, *want)) || ctx.offset() != *want {
                return Err(format!("{name} over {n} elements gives {res:?}, position {}, expected {want}", ctx.offset()));
            }
        }
        ctx.set_offset(0);
        match guarded(|| ctx.try_mat(&u.times(n + 1..)))? {
            Err(_) if ctx.offset() == 0 => {}
            x => return Err(format!("more than {n} elements of {n}: {x:?}")),
        }
        o.max("run_length", n as u64);
        Ok(())
    }
    go(<CharsCtx as HCtx>::mk(s.as_bytes()), n, o)
}

fn case(r: &mut Rng, o: &mut Obs) -> Result<(), String> {
    if o.index < 2 {
        millions(if o.index == 0 { 1_100_000 } else if o.thorough { (1 << 24) + 5 } else { (1 << 22) + 5 }, o)?;
    }
    let text = r.chance(2, 3);
    let g = match (text, r.chance(1, 4)) {
        (t, true) => Cfg::ascii(1, t),
        (true, _) => Cfg::text(1),
        (false, _) => Cfg::bytes(1),
    };
    let g = if r.chance(3, 4) { g.narrow(r) } else { g };
    let cls = gen_cls(r, &g, 2);
    let oth = gen_cls(r, &g, 1);
    // an input made of a lead-in, a run of members and a rest
    let members: Vec<char> = g.alpha.iter().copied().filter(|c| cls.has(*c as u32)).collect();
    let mut items: Vec<char> = vec![];
    let lead = r.below(4);
    for _ in 0..lead {
        items.push(*r.pick(&g.alpha));
    }
    let runlen = match r.below(20) {
        0 => r.range(30, 300),
        1..=3 => r.range(6, 20),
        _ => r.below(7),
    };
    let runlen = gen_huge(r, 1500, usize::MAX).unwrap_or(runlen);
    if !members.is_empty() {
        for _ in 0..runlen {
            items.push(*r.pick(&members));
        }
    }
    for _ in 0..r.below(4) {
        items.push(*r.pick(&g.alpha));
    }
    let mut inp: Vec<u8> = gen_lead(r, &g);
    let mut start = inp.len();
    for (i, c) in items.iter().enumerate() {
        if i == lead {
            start = inp.len();
        }
        if text {
            let mut b = [0; 4];
            inp.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
        } else {
            inp.push(*c as u32 as u8);
        }
    }
    if items.len() <= lead {
        start = inp.len();
    }
    let ctor = r.chance(1, 8);
    let nt = match (text, r.below(4)) {
        (true, 0) => {
            let c = &mut UText::mk(&inp);
            if ctor { go_ctor(c, r, o, &cls, &inp, start)? } else { go(c, r, o, &cls, &oth, &inp, start)? }
        }
        (true, _) => {
            let c = &mut <CharsCtx as HCtx>::mk(&inp);
            if ctor { go_ctor(c, r, o, &cls, &inp, start)? } else { go(c, r, o, &cls, &oth, &inp, start)? }
        }
        (false, 0) => {
            let c = &mut UBytes::mk(&inp);
            if ctor { go_ctor(c, r, o, &cls, &inp, start)? } else { go(c, r, o, &cls, &oth, &inp, start)? }
        }
        (false, _) => {
            let c = &mut <BytesCtx as HCtx>::mk(&inp);
            if ctor { go_ctor(c, r, o, &cls, &inp, start)? } else { go(c, r, o, &cls, &oth, &inp, start)? }
        }
    };
    o.events += 1;
    if nt {
        o.nontrivial(&(format!("{cls:?}"), &inp, start, o.note.len()));
    }
    Ok(())
}

fn main() {
    run(
        Plan {
            quick: 3_000_000,
            ..Plan::new("C06", "a random class, form of repetition and input with a run of members at the start position; non-trivial when the run is not empty")
        },
        case,
    )
}
