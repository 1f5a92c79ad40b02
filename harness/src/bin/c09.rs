//! C09: tables of alternatives pick the first, or the longest (earliest on
//! ties) entry.  The entries are run alone, from the same place, on copies of
//! the context; every table form has to agree with what they do.
use nverif::ast::*;
use nverif::build::{build, conv};
use nverif::case::*;
use nverif::ctxs::HCtx;
use nverif::drv::{guarded, run, Obs, Plan};
use nverif::generate::*;
use nverif::on_kind;
use nverif::probe::*;
use nverif::rng::Rng;
use neure::ctor::{Array, Ctor, CtorOps, PairArray, PairSlice, PairVector, Slice, Vector};
use neure::err::Error;
use neure::regex::{self, Regex};
use neure::span::Span;

fn grammar(c: &Case, o: &mut Obs) -> Result<bool, String> {
    let mut m = c.model();
    let want = m.k(&c.ast, c.start);
    if m.over {
        return Ok(false);
    }
    let k = run_ctor(c, budget_for(m.steps))?;
    match (&want, &k.res) {
        (Ok((v, e)), Ok(r)) => {
            if *v != r.erase() {
                return Err(format!("value {:?}, reference {:?}", r.erase(), v));
            }
            if *e != k.off {
                return Err(format!("construction ends at {}, reference at {e}", k.off));
            }
        }
        (Err(_), Err(_)) => {}
        (w, r) => return Err(format!("construction gives {r:?}, reference {w:?}")),
    }
    let mut m = c.model();
    let want = m.tm(&c.ast, c.start, 0);
    if m.over {
        return Ok(false);
    }
    let g = run_match(c, budget_for(m.steps))?;
    match (&want, &g.res) {
        (Ok(w), Ok((b, l))) if w.end == g.off && w.beg == *b && w.end - w.beg == *l => {}
        (Err(_), Err(_)) => {}
        (w, r) => return Err(format!("matching gives {r:?} and stands at {}, reference {w:?}", g.off)),
    }
    observe(o, c, &k.mon);
    let mut t = false;
    c.ast.walk(&mut |a| t |= matches!(a.k, K::Table(..) | K::Or(..) | K::Ltm(..)));
    Ok(t && k.res.is_ok())
}

struct SlT<'a, C>(Vec<Dyn<'a, C>>, u8);
impl<'a, C: HCtx<'a>> Regex<C> for SlT<'a, C> {
    fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
        match self.1 {
            0 => regex::slice(&self.0).try_parse(ctx),
            1 => regex::slice_ltm(&self.0).try_parse(ctx),
            2 => Slice::new(&self.0, true).with_longest(false).try_parse(ctx),
            _ => Slice::new(&self.0, false).set_longest(true).try_parse(ctx),
        }
    }
}
impl<'a, C: HCtx<'a>> Ctor<C, Val, Rec> for SlT<'a, C> {
    fn construct(&self, ctx: &mut C, h: &mut Rec) -> Result<Val, Error> {
        match self.1 {
            0 => regex::slice(&self.0).construct(ctx, h),
            1 => regex::slice_ltm(&self.0).construct(ctx, h),
            2 => Slice::new(&self.0, true).with_longest(false).construct(ctx, h),
            _ => Slice::new(&self.0, false).set_longest(true).construct(ctx, h),
        }
    }
}
struct SlP<'a, C>(Vec<(Dyn<'a, C>, String)>, u8);
impl<'a, C: HCtx<'a>> Regex<C> for SlP<'a, C> {
    fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
        match self.1 {
            0 => regex::pair_slice(&self.0).try_parse(ctx),
            1 => regex::pair_slice_ltm(&self.0).try_parse(ctx),
            2 => PairSlice::new(&self.0, true).with_longest(false).try_parse(ctx),
            _ => PairSlice::new(&self.0, false).set_longest(true).try_parse(ctx),
        }
    }
}
impl<'a, C: HCtx<'a>> Ctor<C, (Val, String), Rec> for SlP<'a, C> {
    fn construct(&self, ctx: &mut C, h: &mut Rec) -> Result<(Val, String), Error> {
        match self.1 {
            0 => regex::pair_slice(&self.0).construct(ctx, h),
            1 => regex::pair_slice_ltm(&self.0).construct(ctx, h),
            2 => PairSlice::new(&self.0, true).with_longest(false).construct(ctx, h),
            _ => PairSlice::new(&self.0, false).set_longest(true).construct(ctx, h),
        }
    }
}

fn name(i: usize) -> String {
    format!("value-{i}")
}
fn keyed(v: (Val, String)) -> Val {
    let n: u32 = v.1.strip_prefix("value-").and_then(|x| x.parse().ok()).unwrap_or(u32::MAX);
    Val::Key(n, Box::new(v.0))
}

/// a table of the entries; `how` picks among equivalent constructions
fn table<'a, C: HCtx<'a>>(es: &[Ast], form: usize, ltm: bool, pair: bool, how: usize) -> Option<Dyn<'a, C>> {
    let b = |x: &Ast| build::<C>(x);
    let ds = || es.iter().map(b).collect::<Vec<_>>();
    let ps = || es.iter().map(b).enumerate().map(|(i, x)| (x, name(i))).collect::<Vec<_>>();
    macro_rules! arr {
        ($n:literal) => {{
            if pair {
                let a: [(Dyn<'a, C>, String); $n] = ps().try_into().ok().unwrap();
                match (how % 3, ltm) {
                    (0, false) => conv(regex::pair_array(a), keyed),
                    (0, true) => conv(regex::pair_array_ltm(a), keyed),
                    (1, l) => conv(PairArray::new(a, l), keyed),
                    (_, l) => conv(PairArray::new(a, !l).with_longest(l), keyed),
                }
            } else {
                let a: [Dyn<'a, C>; $n] = ds().try_into().ok().unwrap();
                match (how % 3, ltm) {
                    (0, false) => Box::new(regex::array(a)),
                    (0, true) => Box::new(regex::array_ltm(a)),
                    (1, l) => Box::new(Array::new(a, l)),
                    (_, l) => Box::new(Array::new(a, !l).with_longest(l)),
                }
            }
        }};
    }
    Some(match form {
        0 if pair => match (how % 4, ltm) {
            (0, false) => conv(regex::pair_vector(ps()), keyed),
            (0, true) => conv(regex::pair_vector_ltm(ps()), keyed),
            (1, l) => conv(PairVector::new(ps(), l), keyed),
            (2, l) => {
                let mut t = PairVector::new(vec![], !l);
                t.set_longest(l);
                for p in ps() {
                    t.push(p);
                }
                conv(t, keyed)
            }
            (_, l) => conv(PairVector::new(ps(), !l).with_longest(l), keyed),
        },
        0 => match (how % 4, ltm) {
            (0, false) => Box::new(regex::vector(ds())),
            (0, true) => Box::new(regex::vector_ltm(ds())),
            (1, l) => Box::new(Vector::new(ds(), l)),
            (2, l) => {
                let mut t = Vector::new(vec![], !l);
                t.set_longest(l);
                for p in ds() {
                    t.push(p);
                }
                Box::new(t)
            }
            (_, l) => Box::new(Vector::new(ds(), !l).with_longest(l)),
        },
        1 => match es.len() {
            0 => arr!(0),
            1 => arr!(1),
            2 => arr!(2),
            3 => arr!(3),
            4 => arr!(4),
            5 => arr!(5),
            _ => return None,
        },
        2 if pair => conv(SlP(ps(), (how % 2 * 2) as u8 + ltm as u8), keyed),
        2 => Box::new(SlT(ds(), (how % 2 * 2) as u8 + ltm as u8)),
        _ => {
            // the binary operators
            if es.len() != 2 || pair {
                return None;
            }
            type D<'a, C> = Dyn<'a, C>;
            if ltm {
                Box::new(<D<'a, C> as CtorOps<'a, C>>::longest(b(&es[0]), b(&es[1])))
            } else {
                Box::new(<D<'a, C> as CtorOps<'a, C>>::or(b(&es[0]), b(&es[1])))
            }
        }
    })
}

fn entries<'a, C: HCtx<'a>>(ctx: &mut C, r: &mut Rng, o: &mut Obs, c: &Case, es: &[Ast]) -> Result<bool, String> {
    let at = c.start;
    let run_one = |p: &Dyn<'a, C>, ctx: &C| -> Result<_, String> {
        guarded(|| {
            mon_reset(3_000_000);
            let mut x = ctx.clone();
            x.set_offset(at);
            let m = x.try_mat(p).map(|s| (s.beg, s.len));
            let mo = x.offset();
            let mut x = ctx.clone();
            x.set_offset(at);
            let mut h = Rec::new(c.rej.clone());
            let k = ctor_with(&mut x, p, &mut h).map(|v| v.erase());
            (m, mo, k, x.offset(), h.log)
        })
    };
    let mut alone = vec![];
    for e in es {
        alone.push(run_one(&build::<C>(e), ctx)?);
    }
    let pick = |ltm: bool, end: &dyn Fn(usize) -> Option<usize>| -> Option<usize> {
        let mut best: Option<usize> = None;
        for i in 0..alone.len() {
            if let Some(e) = end(i) {
                match best {
                    None => best = Some(i),
                    Some(b) if ltm && e > end(b).unwrap() => best = Some(i),
                    _ => {}
                }
            }
        }
        best
    };
    let mut seen = false;
    for ltm in [false, true] {
        let wm = pick(ltm, &|i| alone[i].0.is_ok().then(|| alone[i].1));
        let wk = pick(ltm, &|i| alone[i].2.is_ok().then(|| alone[i].3));
        for form in 0..4 {
            for pair in [false, true] {
                let how = r.below(12);
                let Some(p) = table::<C>(es, form, ltm, pair, how) else { continue };
                let g = run_one(&p, ctx)?;
                let what = ["vector", "array", "slice", "binary operator"][form];
                let lab = format!("{what}{}{}", if ltm { " longest" } else { " first" }, if pair { " with values" } else { "" });
                let okm = match wm {
                    Some(i) => g.0 == alone[i].0 && g.1 == alone[i].1,
                    None => g.0.is_err() && g.1 == at,
                };
                if !okm {
                    return Err(format!("{lab}: matching gives {:?} at {}, alone the entries give {:?}", g.0, g.1, alone.iter().map(|a| (&a.0, a.1)).collect::<Vec<_>>()));
                }
                let okk = match wk {
                    Some(i) => {
                        let want = match &alone[i].2 {
                            Ok(v) if pair => Val::Key(i as u32, Box::new(v.clone())),
                            Ok(v) => v.clone(),
                            Err(_) => return Err("harness".into()),
                        };
                        g.2 == Ok(want) && g.3 == alone[i].3
                    }
                    None => g.2.is_err(),
                };
                if !okk {
                    return Err(format!(
                        "{lab}: construction gives {:?} at {}, alone the entries give {:?}",
                        g.2,
                        g.3,
                        alone.iter().map(|a| (&a.2, a.3)).collect::<Vec<_>>()
                    ));
                }
                o.events += 2;
                seen |= wm.is_some();
                if o.index % 16 == 0 {
                    o.count(&format!("sampled_1_in_16:{lab}"));
                    if let Some(i) = wm {
                        o.count(&format!("sampled_1_in_16:chosen entry {i} of {}", es.len()));
                        if ltm && alone.iter().filter(|a| a.0.is_ok() && a.1 == alone[i].1).count() > 1 {
                            o.count("sampled_1_in_16:tie of longest entries");
                        }
                    } else {
                        o.count("sampled_1_in_16:no entry");
                    }
                }
            }
        }
    }
    Ok(seen)
}

fn case(r: &mut Rng, o: &mut Obs) -> Result<(), String> {
    if r.chance(1, 2) {
        let w = Want {
            rej: r.chance(1, 3),
            try_map: r.chance(1, 3),
            depth: if o.thorough { 4 } else { 3 },
            focus: Some(Focus::Tables),
            ..Want::new(PLAIN)
        };
        let (c, _) = gen_case(r, &w);
        return verdict(o, c, &grammar);
    }
    let many = r.chance(1, 150);
    let w = Want { rej: r.chance(1, 4), try_map: r.chance(1, 4), depth: if many { 1 } else { 2 }, ..Want::new(ALL) };
    let (mut c, g) = gen_case(r, &w);
    let n = match r.below(30) {
        _ if many => r.range(6, 70),
        0 => 0,
        _ => r.range(1, 5),
    };
    let mut es: Vec<Ast> = (0..n).map(|_| gen_ast(r, &g)).collect();
    // entries related to one another: prefixes of a literal, copies
    if n > 1 && r.flip() {
        let k = r.below(n);
        let e = es[k].clone();
        let j = r.below(n);
        es[j] = match r.below(3) {
            0 => e,
            1 => Ast::new(K::Opt(Box::new(e))),
            _ => Ast::new(K::Pat(Box::new(e))),
        };
    }
    if n > 0 {
        let all = Ast::new(K::Table(0, false, false, es.clone()));
        if !terminates(&all) {
            return Ok(());
        }
        let ws = if c.kind.policy() { Some(&c.skip) } else { None };
        let k = r.below(n);
        let (inp, start) = gen_input(r, &g, &es[k], ws);
        c.inp = inp;
        c.start = start;
        c.ast = all;
    }
    // the reference bounds the work
    for e in &es {
        let mut m = c.model();
        let _ = m.tm(e, c.start, 0);
        if m.over {
            return Ok(());
        }
    }
    o.note(|| c.show());
    let nt = on_kind!(&c, |ctx| entries(ctx, r, o, &c, &es))?;
    if nt {
        o.nontrivial(&c.key());
    }
    Ok(())
}

fn main() {
    run(
        Plan {
            quick: 500_000,
            ..Plan::new("C09", "up to five random entries, run alone and in every table form and operator at the same place, or a random grammar rich in tables against the reference; non-trivial when some entry matches")
        },
        case,
    )
}
