//! C13: no input, offset or bound makes a parse panic, overflow or hang.
use neure::ctor::*;
use neure::ctx::{Assert, BytesCtx, CharsCtx, Context, Match, MatchExt, MatchMulti, PolicyMatch};
use neure::err::Error;
use neure::iter::IndexBySpan;
use neure::map;
use neure::neu::{self, CRange, NeuIntoRegexOps};
use neure::regex::{self, Regex};
use neure::span::{ArrayStorer, Span, VecStorer};
use nverif::ast::*;
use nverif::build::build;
use nverif::case::*;
use nverif::ctxs::HCtx;
use nverif::drv::{guarded, run, Obs, Plan};
use nverif::generate::*;
use nverif::on_kind;
use nverif::probe::*;
use nverif::rng::Rng;
use std::ops::Bound;

const MAX: usize = usize::MAX;

fn huge(r: &mut Rng) -> usize {
    *r.pick(&[MAX, MAX - 1, MAX - 2, MAX / 2, MAX / 2 + 1, MAX / 4 + 1, 1 << 32, isize::MAX as usize, 1 << 20])
}

fn huge_range(r: &mut Rng, nullable: bool) -> BndRange {
    // a body that may match nothing is not repeated more than a few times
    let lo = match r.below(5) {
        0 => Bound::Unbounded,
        1 | 2 if !nullable => Bound::Included(huge(r)),
        3 if !nullable => Bound::Excluded(huge(r)),
        _ => Bound::Included(r.below(3)),
    };
    let hi = match (r.below(4), nullable) {
        (_, true) => Bound::Included(4),
        (0, _) => Bound::Included(MAX),
        (1, _) => Bound::Excluded(MAX),
        (2, _) => Bound::Included(huge(r)),
        _ => Bound::Unbounded,
    };
    let rg = (lo, hi);
    // an empty range is refused by a debug assertion
    if CRange::<usize>::from(rg).is_empty() { (lo, Bound::Unbounded) } else { rg }
}

/// puts extreme bounds into a grammar
fn inflate(r: &mut Rng, a: &Ast, text: bool) -> Ast {
    let rc = std::cell::RefCell::new(r);
    let a = map_parts(a, &mut |x, _| inflate(&mut rc.borrow_mut(), x, text));
    let r = rc.into_inner();
    if !r.chance(1, 3) {
        return a;
    }
    Ast::new(match a.k {
        K::Repeat(_, x) => {
            let n = x.nullable();
            let g = huge_range(r, n);
            // a huge upper bound is an unbounded loop
            K::Repeat(if n && rng_hi(&g).is_none() { (Bound::Unbounded, Bound::Included(3)) } else { g }, x)
        }
        K::Collect(_, x) => K::Collect(huge(r), x),
        K::Sep(_, k, x, s) => K::Sep(huge(r), k, x, s),
        K::SepC(_, k, x, s) => K::SepC(huge(r), k, x, s),
        K::Unit(c, Op::Times(_) | Op::Between(_) | Op::Many1, d) => K::Unit(c, Op::Times(huge_range(r, false)), d),
        K::Consume(_) => K::Consume(huge(r)),
        k => k,
    })
}

/// no fewer than the steps a run can take: repetitions of what may match
/// nothing go round as often as their bound allows
fn cost(a: &Ast, len: usize) -> u64 {
    let kids = a.children().iter().fold(2u64, |s, x| s.saturating_add(cost(x, len).saturating_mul(2)));
    let hi = match &a.k {
        K::Repeat(r, _) => rng_hi(r),
        K::Repeat2(i, _) => Some(REPEAT2[*i].1),
        K::Sep2(i, ..) => Some(SEP2[*i].1),
        K::Collect(..) | K::Sep(..) | K::SepC(..) | K::Unit(..) => None,
        _ => Some(0),
    };
    let nullable = matches!(&a.k, K::Repeat(..) | K::Repeat2(..) | K::Sep2(..)) && a.children()[0].nullable();
    let turns = hi.unwrap_or(len + 1);
    let turns = if nullable { turns } else { turns.min(len + 1) };
    kids.saturating_mul(turns as u64 + 1)
}

/// every entry point at a hostile position
fn hostile<'a, C: HCtx<'a> + PolicyMaybe<'a>>(ctx: &mut C, c: &Case, at: usize, o: &mut Obs) -> Result<(), String> {
    let len = c.inp.len();
    let p = build::<C>(&c.ast);
    let pat = |x: &mut C| -> Result<Span, Error> { p.try_parse(x) };
    let beyond = at > len;
    for api in 0..10 {
        mon_reset(3_000_000);
        ctx.set_offset(at);
        let ok = guarded(|| match api {
            0 => ctx.try_mat(&p).is_ok(),
            1 => {
                let mut h = Rec::new(c.rej.clone());
                ctor_with(ctx, &p, &mut h).is_ok()
            }
            2 => ctx.is_mat(&p),
            3 => ctx.assert(&p),
            4 => ctx.map_span(&pat, |s: Span| Ok::<_, Error>(s)).is_ok(),
            5 => ctx.find::<Span>(&pat).is_some(),
            6 => ctx.find_all::<Span>(&pat).take(300).count() > 0,
            7 => ctx.match_seq::<Span>(&pat).take(300).count() > 0,
            8 => {
                let mut v = VecStorer::new(1);
                let ok = v.try_cap(0, ctx, &pat).is_ok();
                ok as usize == v.spans(0).map_or(0, |x| x.len()) && ok
            }
            _ => ctx.policy(&pat),
        });
        // a search tries the pattern everywhere: on long inputs it may take longer than this
        if (5..8).contains(&api) && len > 100 && ok.as_ref().is_err_and(|e| e.contains("step budget")) {
            o.count("long_searches_cut_short");
            continue;
        }
        if ok.as_ref().is_err_and(|e| e.contains("step budget")) && cost(&c.ast, if beyond { 0 } else { len }).saturating_mul(8) > 3_000_000 {
            o.count("long_repetitions_cut_short");
            continue;
        }
        let ok = ok.map_err(|e| format!("entry point {api} at position {at}: {e}"))?;
        o.count(if ok { "entry_points_succeeding" } else { "entry_points_failing" });
        if beyond && ok && ctx.offset() != at {
            return Err(format!("entry point {api} at position {at} of {len} moved to {}", ctx.offset()));
        }
        if beyond && ok && (5..8).contains(&api) {
            return Err(format!("a search beginning at {at} of {len} found something"));
        }
        o.events += mon_take().events;
    }
    Ok(())
}

trait PolicyMaybe<'a>: HCtx<'a> {
    fn policy(&mut self, p: &dyn Regex<Self>) -> bool;
}
macro_rules! pm {
    ($($t:ty),*) => {$(
        impl<'a> PolicyMaybe<'a> for $t {
            fn policy(&mut self, p: &dyn Regex<Self>) -> bool {
                let p = |c: &mut Self| p.try_parse(c);
                self.try_mat_before(&p, &p).is_ok() | self.try_mat_after(&p, &p).is_ok()
            }
        }
    )*};
}
pm!(CharsCtx<'a>, BytesCtx<'a>, nverif::ctxs::PText<'a>, nverif::ctxs::PBytes<'a>);
impl<'a> PolicyMaybe<'a> for nverif::ctxs::UText<'a> {
    fn policy(&mut self, p: &dyn Regex<Self>) -> bool {
        p.try_parse(self).is_ok()
    }
}
impl<'a> PolicyMaybe<'a> for nverif::ctxs::UBytes<'a> {
    fn policy(&mut self, p: &dyn Regex<Self>) -> bool {
        p.try_parse(self).is_ok()
    }
}

fn offsets(r: &mut Rng, inp: &[u8]) -> usize {
    let n = inp.len();
    match r.below(8) {
        0 => MAX,
        1 => MAX - r.below(8),
        2 => n + 1,
        3 => n + r.below(5),
        4 => isize::MAX as usize + r.below(3),
        5 => huge(r),
        // any byte, including inside a character
        _ => r.below(n + 1),
    }
}

fn grammar(r: &mut Rng, o: &mut Obs) -> Result<(), String> {
    let w = Want { rej: true, try_map: true, dync: false, depth: 4, far: 8000, ..Want::new(ALL) };
    let (mut c, g) = gen_case(r, &w);
    if r.chance(1, 2) {
        c.ast = inflate(r, &c.ast, c.kind.text());
    }
    if r.chance(1, 4) {
        c.inp = random_input(r, &g, 30);
        c.start = 0;
    }
    if r.chance(1, 6) && !c.kind.text() {
        c.inp = (0..r.below(30)).map(|_| r.next() as u8).collect();
        c.start = 0;
    }
    let at = offsets(r, &c.inp);
    verdict(o, c, &|c, o| {
        if !terminates(&c.ast) {
            return Ok(false);
        }
        o.note(|| format!("{}\nhostile position {at}", c.show()));
        on_kind!(c, |ctx| hostile(ctx, c, at, o))?;
        // in range, extreme bounds do not change the meaning
        let mut m = c.model();
        let want = m.tm(&c.ast, c.start, 0);
        if m.over {
            return Ok(false);
        }
        let g = run_match(c, budget_for(m.steps))?;
        observe(o, c, &g.mon);
        match (want, &g.res) {
            (Ok(w), Ok(s)) if (w.beg, w.end - w.beg) == *s => {}
            (Err(_), Err(_)) => {}
            _ => return Err(format!("matching gives {:?}, reference {want:?}", g.res)),
        }
        let mut mk = c.model();
        let wk = mk.k(&c.ast, c.start);
        if !mk.over {
            let k = run_ctor(c, budget_for(mk.steps))?;
            if wk.is_ok() != k.res.is_ok() {
                return Err(format!("construction gives {:?}, reference {wk:?}", k.res));
            }
        }
        o.count(if at > c.inp.len() { "positions_beyond_the_data" } else { "positions_inside_the_data" });
        if c.kind.text() && at <= c.inp.len() && std::str::from_utf8(&c.inp).is_ok_and(|s| !s.is_char_boundary(at)) {
            o.count("positions_inside_a_character");
        }
        Ok(true)
    })
}

/// the primitive accessors agree with the standard library's checked ones
fn access(r: &mut Rng, o: &mut Obs) -> Result<(), String> {
    let g = Cfg::text(1);
    let inp = random_input(r, &g, 12);
    let s = std::str::from_utf8(&inp).unwrap();
    let (off, sub, len) = (offsets(r, &inp), offsets(r, &inp), offsets(r, &inp));
    o.note(|| format!("accessors of {s:?}: position {off}, sub {sub} {len}"));
    let end = sub.checked_add(len);
    let ws = end.and_then(|e| s.get(sub..e));
    let wb = end.and_then(|e| inp.get(sub..e));
    let mut c = CharsCtx::new(s);
    let mut b = BytesCtx::new(&inp);
    c.set_offset(off);
    b.set_offset(off);
    let p = c.skip_ascii_whitespace();
    let e = Error::OutOfBound;
    let span = Span::new(sub, len);
    let mut bad = vec![];
    macro_rules! chk {
        ($x:expr, $w:expr) => {
            let (x, w) = ($x, $w);
            if x != w {
                bad.push(format!("{} = {x:?}, expected {w:?}", stringify!($x)));
            }
        };
    }
    chk!(c.orig_sub(sub, len), ws.ok_or(e));
    chk!(b.orig_sub(sub, len), wb.ok_or(e));
    chk!(p.orig_sub(sub, len), ws.ok_or(e));
    chk!(span.orig(&c), ws.ok_or(e));
    chk!(span.orig(&b), wb.ok_or(e));
    chk!(c.orig(), s.get(off..).ok_or(e));
    chk!(b.orig(), inp.get(off..).ok_or(e));
    chk!(p.orig(), s.get(off..).ok_or(e));
    chk!(c.orig_at(sub), s.get(sub..).ok_or(e));
    chk!(b.orig_at(sub), inp.get(sub..).ok_or(e));
    chk!(p.orig_at(sub), s.get(sub..).ok_or(e));
    chk!(c.peek_at(sub).map(|i| i.collect::<Vec<_>>()), s.get(sub..).map(|x| x.char_indices().collect::<Vec<_>>()).ok_or(e));
    chk!(b.peek_at(sub).map(|i| i.collect::<Vec<_>>()), inp.get(sub..).map(|x| x.iter().copied().enumerate().collect::<Vec<_>>()).ok_or(e));
    chk!(p.peek_at(sub).map(|i| i.count()), s.get(sub..).map(|x| x.chars().count()).ok_or(e));
    chk!(c.clone_at(sub).map(|x| (x.dat(), Context::offset(&x))), s.get(sub..).map(|x| (x, 0)).ok_or(e));
    chk!(b.clone_at(sub).map(|x| (x.dat(), Context::offset(&x))), inp.get(sub..).map(|x| (x, 0)).ok_or(e));
    chk!(p.clone_at(sub).map(|x| (x.inner().dat(), Context::offset(&x))), s.get(sub..).map(|x| (x, 0)).ok_or(e));
    chk!(s.get_by_span(&span), ws);
    chk!(inp[..].get_by_span(&span), wb);
    chk!(inp.get_by_span(&span), wb);
    chk!(<&str as IndexBySpan>::get_by_span(&s, &span), ws);
    let bs = &inp[..];
    chk!(<&[u8] as IndexBySpan>::get_by_span(&bs, &span), wb);
    chk!(<Vec<u8> as IndexBySpan>::get_by_span(&inp.to_vec(), &span).map(<[u8]>::to_vec), wb.map(<[u8]>::to_vec));
    chk!(<&Vec<u8> as IndexBySpan>::get_by_span(&&inp.to_vec(), &span).map(<[u8]>::to_vec), wb.map(<[u8]>::to_vec));
    chk!(c.get_by_span(&span), ws);
    chk!(b.get_by_span(&span), wb);
    chk!(p.get_by_span(&span), ws);
    chk!(Context::is_empty(&c), s.is_empty());
    // storers
    let mut v = VecStorer::new(2);
    v.add_span(1, span);
    let mut a = ArrayStorer::<2, 2>::new();
    a.set_span(1, 1, span);
    let (i, j) = (offsets(r, &inp) & MAX, offsets(r, &inp));
    chk!(v.slice(s, 1, 0), ws);
    chk!(v.span(i, j).is_some(), i == 1 && j == 0);
    chk!(v.contain(i), i == 1);
    chk!(v.slice(s, i, j), if i == 1 && j == 0 { ws } else { None });
    chk!(v.slice_iter(s, 1).unwrap().next(), ws);
    chk!(v.spans_iter(i).is_some(), i == 1);
    v.clr_span(i);
    chk!(v.contain(1), i != 1);
    chk!(a.span(i, j).is_some(), i == 1 && j == 1);
    chk!(a.contain(i), i == 1);
    chk!(a.slice(s, i, j), if i == 1 && j == 1 { ws } else { None });
    chk!(a.slice_iter(s, 1).unwrap().next(), ws);
    a.clr_span(i);
    chk!(a.contain(1), i != 1);
    if let Some(x) = bad.first() {
        return Err(format!("position {off}, sub {sub}, length {len} of {s:?}: {x}"));
    }
    o.add("accessor_comparisons", 36);
    o.nontrivial(&(s, off, sub, len));
    Ok(())
}

/// compile-time and run-time bounds near the integer maximum
fn extreme(r: &mut Rng, o: &mut Obs) -> Result<(), String> {
    let alpha = ['a', 'b', 'é', '你', '\u{10ffff}', ' '];
    let n = r.below(12);
    let s: String = (0..n).map(|_| if r.chance(3, 4) { 'é' } else { *r.pick(&alpha) }).collect();
    let bd = bounds(s.as_bytes(), true);
    let at = *r.pick(&bd);
    o.note(|| format!("extreme bounds on {s:?} at {at}"));
    let run = s[at..].chars().take_while(|c| *c == 'é').count();
    let brun = s.as_bytes()[at..].iter().take_while(|c| **c >= 128).count();
    let mut bad = vec![];
    let mut n = 0;
    let mut judge = |what: String, got: Result<Span, Error>, off: usize, m: usize, max: usize, width: usize, run: usize| {
        n += 1;
        let k = run.min(max);
        let want = if k >= m { Some((at, k * width)) } else { None };
        let g = got.ok().map(|s| (s.beg, s.len));
        let woff = want.map_or(at, |w| at + w.1);
        if g != want || off != woff {
            bad.push(format!("{what} gives {g:?} at {off}, expected {want:?} at {woff}"));
        }
    };
    macro_rules! con {
        ($m:expr, $n:expr) => {{
            let mut c = CharsCtx::new(&s).with_offset(at);
            let x = c.try_mat(&NeuIntoRegexOps::between::<{ $m }, { $n }>('é'));
            judge(format!("between {} {}", $m, $n), x, c.offset(), $m, $n, 2, run);
            let mut c = CharsCtx::new(&s).with_offset(at);
            let x = c.try_mat(&regex::count::<{ $m }, { $n }, _, _>('é'));
            judge(format!("regex::count {} {}", $m, $n), x, c.offset(), $m, $n, 2, run);
            let mut c = BytesCtx::new(s.as_bytes()).with_offset(at);
            let x = c.try_mat(&NeuIntoRegexOps::between::<{ $m }, { $n }>(neu::range(128u8..=255)));
            judge(format!("between {} {} bytes", $m, $n), x, c.offset(), $m, $n, 1, brun);
        }};
    }
    con!(0, MAX);
    con!(1, MAX);
    con!(MAX, MAX);
    con!(MAX - 1, MAX);
    con!(MAX / 2 + 1, MAX);
    con!(MAX / 4 + 1, MAX - 1);
    con!(MAX / 3, MAX / 2);
    con!(2, MAX / 2);
    con!(0, 0);
    {
        let mut c = CharsCtx::new(&s).with_offset(at);
        let x = c.try_mat(&NeuIntoRegexOps::at_least::<MAX>('é'));
        judge("at_least".into(), x, c.offset(), MAX, MAX, 2, run);
        let x = c.try_mat(&NeuIntoRegexOps::count::<MAX>('é'));
        judge("count".into(), x, c.offset(), MAX, MAX, 2, run);
        let x = c.try_mat(&NeuIntoRegexOps::at_most::<MAX>('é'));
        judge("at_most".into(), x, c.offset(), 0, MAX, 2, run);
        // both characters of a pair are measured in the minimum length
        let mut c = CharsCtx::new(&s).with_offset(at);
        let x = c.try_mat(&neure::neu::prefix_cnt('é', MAX, 'é').many0());
        judge("prefix".into(), x, c.offset(), 0, MAX, 2, run);
    }
    for _ in 0..6 {
        let rg = huge_range(r, false);
        let (m, x) = (rng_lo(&rg), rng_hi(&rg).unwrap_or(MAX));
        if matches!(rg.0, Bound::Excluded(MAX)) {
            continue;
        }
        let what = format!("{rg:?}");
        let cr = || CRange::from(rg);
        let mut c = CharsCtx::new(&s).with_offset(at);
        let g = c.try_mat(&NeuIntoRegexOps::times('é', cr()));
        judge(format!("times {what}"), g, c.offset(), m, x, 2, run);
        let mut c = CharsCtx::new(&s).with_offset(at);
        let g = c.try_mat(&CtorOps::repeat("é", cr()));
        judge(format!("repeat {what}"), g, c.offset(), m, x, 2, run);
        let mut c = CharsCtx::new(&s).with_offset(at);
        let g = c.ctor::<_, Vec<&str>>(&CtorOps::repeat("é", cr()).with_capacity(*r.pick(&[0, 3, MAX, MAX / 16])));
        let off = c.offset();
        judge(format!("repeat {what} constructed"), g.map(|v| Span::new(at, 2 * v.len())), off, m, x, 2, run);
        let h = huge(r);
        let mut c = CharsCtx::new(&s).with_offset(at);
        let g = c.ctor::<_, Vec<&str>>(&CtorOps::sep("é", regex::empty()).at_least(h).with_capacity(*r.pick(&[0, MAX, MAX / 24])));
        let off = c.offset();
        judge(format!("sep at least {h}"), g.map(|v| Span::new(at, 2 * v.len())), off, h, MAX, 2, run);
        let mut c = CharsCtx::new(&s).with_offset(at);
        let g = c.ctor::<_, Vec<&str>>(&CtorOps::collect::<&str, Vec<&str>>("é").at_least(h));
        let off = c.offset();
        judge(format!("collect at least {h}"), g.map(|v| Span::new(at, 2 * v.len())), off, h, MAX, 2, run);
        let mut c = CharsCtx::new(&s).with_offset(at);
        let g = c.try_mat(&regex::consume(h));
        let off = c.offset();
        judge(format!("consume {h}"), g, off, h, MAX, 2, 0);
    }
    if let Some(x) = bad.first() {
        return Err(format!("on {s:?} at {at}: {x}"));
    }
    o.add("extreme_bounds_judged", n);
    o.nontrivial(&(s, at));
    Ok(())
}

/// hostile bytes through the value mappers
fn mapped(r: &mut Rng, o: &mut Obs) -> Result<(), String> {
    let n = r.below(40);
    let b: Vec<u8> = match r.below(3) {
        0 => (0..n).map(|_| r.next() as u8).collect(),
        1 => (0..n).map(|_| *r.pick(b"0123456789-+eE.infNa_ ")).collect(),
        _ => (0..n).map(|_| *r.pick(&[b'9', 0xc3, 0xa9, 0xff, 0xe4, 0xf4, 0x8f, 0xbf])).collect(),
    };
    o.note(|| format!("mappers on {b:?}"));
    let mut c = BytesCtx::new(&b);
    let all = regex::consume_all();
    let mut oks = 0u64;
    macro_rules! go {
        ($m:expr => $t:ty) => {{
            c.reset();
            let x: Result<$t, Error> = c.map(&all, $m);
            oks += x.is_ok() as u64;
        }};
    }
    go!(map::from_le_bytes::<u8>() => u8);
    go!(map::from_le_bytes::<u64>() => u64);
    go!(map::from_be_bytes::<i128>() => i128);
    go!(map::from_ne_bytes::<usize>() => usize);
    go!(map::from_be_bytes::<f64>() => f64);
    go!(map::from_utf8::<&str>() => &str);
    go!(map::from_utf8_lossy() => std::borrow::Cow<'_, str>);
    if let Ok(s) = std::str::from_utf8(&b) {
        let mut c = CharsCtx::new(s);
        macro_rules! go {
            ($m:expr => $t:ty) => {{
                c.reset();
                let x: Result<$t, Error> = c.map(&all, $m);
                oks += x.is_ok() as u64;
            }};
        }
        go!(map::from_str::<u8>() => u8);
        go!(map::from_str::<i64>() => i64);
        go!(map::from_str::<f64>() => f64);
        go!(map::from_str_radix::<u32>(2) => u32);
        go!(map::from_str_radix::<i8>(36) => i8);
        go!(map::from_str_radix::<usize>(16) => usize);
    }
    o.add("mappings_succeeding", oks);
    o.nontrivial(&b);
    Ok(())
}

fn case(r: &mut Rng, o: &mut Obs) -> Result<(), String> {
    match r.below(20) {
        0..=13 => grammar(r, o),
        14..=16 => access(r, o),
        17 | 18 => extreme(r, o),
        _ => mapped(r, o),
    }
}

fn main() {
    run(
        Plan {
            quick: 1_500_000,
            ..Plan::new("C13", "hostile positions (outside the data, inside a character, near the integer maximum), hostile bounds and hostile data through every entry point of random parsers; non-trivial when the parser's repeated parts consume input; panics, overflows, aborts, endless parses and wrong accesses are observed")
        },
        case,
    )
}
