//! C10: lookahead and anchors never move; conditionals follow their test.
use neure::ctx::Assert;
use neure::err::Error;
use nverif::ast::*;
use nverif::build::build;
use nverif::case::*;
use nverif::ctxs::HCtx;
use nverif::drv::{guarded, run, Obs, Plan};
use nverif::generate::*;
use nverif::on_kind;
use nverif::probe::*;
use nverif::rng::Rng;

type Got = (Result<(usize, usize), Error>, usize);

fn alone<'a, C: HCtx<'a>>(ctx: &C, a: &Ast, at: usize) -> Got {
    let mut c = ctx.clone();
    c.set_offset(at);
    let p = build::<C>(a);
    let r = c.try_mat(&p).map(|s| (s.beg, s.len));
    (r, c.offset())
}

fn alone_k<'a, C: HCtx<'a>>(ctx: &C, a: &Ast, at: usize) -> (Result<Val, Error>, usize) {
    let mut c = ctx.clone();
    c.set_offset(at);
    let p = build::<C>(a);
    let mut h = Rec::new(Rej::None);
    let r = ctor_with(&mut c, &p, &mut h).map(|v| v.erase());
    (r, c.offset())
}

/// judges the outermost pattern by running its parts on copies of the context
fn top<'a, C: HCtx<'a>>(ctx: &mut C, c: &Case) -> Result<Result<bool, String>, String> {
    guarded(|| {
        mon_reset(3_000_000);
        let at = c.start;
        ctx.set_offset(at);
        let g = alone(ctx, &c.ast, at);
        let k = alone_k(ctx, &c.ast, at);
        let leaf = |b: usize, l: usize| Val::Leaf(0, b, l);
        match &c.ast.k {
            K::Not(x) | K::Peek(x) => {
                let neg = matches!(c.ast.k, K::Not(_));
                let inner = alone(ctx, x, at).0.is_ok();
                let want = inner != neg;
                if g.0.is_ok() != want || k.0.is_ok() != want {
                    return Err(format!("the looked-at pattern matches: {inner}; lookahead gives {g:?} / {k:?}"));
                }
                if g.1 != at || k.1 != at || (want && g.0 != Ok((at, 0))) {
                    return Err(format!("lookahead entered at {at} gives {g:?} / {k:?}"));
                }
                if want && k.0 != Ok(leaf(at, 0)) {
                    return Err(format!("lookahead at {at} hands {:?} to the handler", k.0));
                }
                // the context's own assertion agrees
                let p = build::<C>(x);
                ctx.set_offset(at);
                let a = ctx.assert(&p);
                let off = ctx.offset();
                let t = ctx.try_assert(&p);
                if a != inner || off != at || ctx.offset() != at || t.unwrap_or(false) != inner {
                    return Err(format!("assert says {a}, try_assert {t:?}, the pattern matches: {inner}; position {at} -> {off}, {}", ctx.offset()));
                }
                Ok(true)
            }
            K::Start | K::End => {
                let want = if matches!(c.ast.k, K::Start) { at == 0 } else { at == c.inp.len() };
                let w = if want { Ok((at, 0)) } else { g.0 };
                if g.0.is_ok() != want || g.1 != at || g.0 != w || k.0.is_ok() != want || k.1 != at {
                    return Err(format!("anchor at {at} of {} gives {g:?} / {k:?}", c.inp.len()));
                }
                Ok(true)
            }
            K::IfThen(l, t, r) => {
                let want = (|| -> Got {
                    let a = alone(ctx, l, at);
                    let Ok((b, _)) = a.0 else { return (a.0, at) };
                    let b2 = alone(ctx, t, a.1);
                    if b2.0.is_err() {
                        return (Ok((b, a.1 - b)), a.1);
                    }
                    let r2 = alone(ctx, r, b2.1);
                    match r2.0 {
                        Ok(_) => (Ok((b, r2.1 - b)), r2.1),
                        Err(e) => (Err(e), at),
                    }
                })();
                if want.0.is_ok() != g.0.is_ok() || want.1 != g.1 || (want.0.is_ok() && want.0 != g.0) {
                    return Err(format!("if_then gives {g:?}, its parts one after the other {want:?}"));
                }
                let wk = (|| {
                    let a = alone_k(ctx, l, at);
                    let lv = a.0?;
                    let b2 = alone(ctx, t, a.1);
                    if b2.0.is_err() {
                        return Ok((Val::Pair(Box::new(lv), Box::new(Val::Opt(None))), a.1));
                    }
                    let r2 = alone_k(ctx, r, b2.1);
                    let rv = r2.0?;
                    Ok::<_, Error>((Val::Pair(Box::new(lv), Box::new(Val::Opt(Some(Box::new(rv))))), r2.1))
                })();
                match (&wk, &k.0) {
                    (Ok((v, e)), Ok(x)) if v == x && *e == k.1 => {}
                    (Err(_), Err(_)) if k.1 == at => {}
                    _ => return Err(format!("if_then constructs {k:?}, its parts one after the other {wk:?}")),
                }
                Ok(true)
            }
            K::Branch(t, x, y) => {
                let item = ctx.set_offset(at).next_item();
                let sel = match t {
                    TestK::Const(b) => Some(*b),
                    TestK::Peek(cl) => Some(item.is_some_and(|i| cl.has(i.0))),
                    TestK::Off(n) => Some(at % 2 == *n),
                    TestK::Err => None,
                };
                let (w, wk) = match sel {
                    None => ((Err(e_test()), at), (Err(e_test()), at)),
                    Some(b) => {
                        let a = if b { x } else { y };
                        (alone(ctx, a, at), alone_k(ctx, a, at))
                    }
                };
                if w != g || wk != k {
                    return Err(format!("the test says {sel:?}; the chosen branch gives {w:?} / {wk:?}, the conditional {g:?} / {k:?}"));
                }
                Ok(true)
            }
            _ => Ok(false),
        }
    })
}

fn check(c: &Case, o: &mut Obs) -> Result<bool, String> {
    let mut m = c.model();
    let want = m.tm(&c.ast, c.start, 0);
    if m.over {
        return Ok(false);
    }
    let mut mk = c.model();
    let wk = mk.k(&c.ast, c.start);
    if mk.over {
        return Ok(false);
    }
    let looks = {
        let mut n = 0;
        c.ast.walk(&mut |a| n += matches!(a.k, K::Not(_) | K::Peek(_) | K::Start | K::End | K::IfThen(..) | K::Branch(..)) as u64);
        n
    };
    if looks == 0 {
        return Ok(false);
    }
    let g = run_match(c, budget_for(m.steps))?;
    observe(o, c, &g.mon);
    if let Some(v) = g.mon.zero_viol {
        return Err(v);
    }
    if want.is_ok() != g.res.is_ok() || matches!((want, &g.res), (Ok(w), Ok(_)) if w.end != g.off) {
        return Err(format!("matching gives {:?} at {}, reference {want:?}", g.res, g.off));
    }
    let k = run_ctor(c, budget_for(mk.steps))?;
    observe(o, c, &k.mon);
    if let Some(v) = k.mon.zero_viol {
        return Err(v);
    }
    match (&wk, &k.res) {
        (Ok((v, e)), Ok(x)) if *v == x.erase() && *e == k.off => {}
        (Err(_), Err(_)) => {}
        _ => return Err(format!("construction gives {:?} at {}, reference {wk:?}", k.res, k.off)),
    }
    if on_kind!(c, |ctx| top(ctx, c))?? {
        o.count("judged_by_running_the_parts");
    }
    o.add("lookarounds_and_conditionals", looks);
    Ok(true)
}

fn case(r: &mut Rng, o: &mut Obs) -> Result<(), String> {
    let w = Want { focus: Some(Focus::Look), depth: 3, ..Want::new(PLAIN) };
    let (mut c, g) = gen_case(r, &w);
    if r.flip() {
        // put the construct outermost
        let d = Cfg { depth: 2, ..g.clone() };
        let b = |r: &mut Rng| Box::new(gen_r(r, &d, 2, true));
        let n = |r: &mut Rng| Box::new(gen_r(r, &d, 2, false));
        let k = match r.below(8) {
            0 => K::Not(n(r)),
            1 => K::Peek(n(r)),
            2 => K::Start,
            3 => K::End,
            4 | 5 => K::IfThen(b(r), n(r), b(r)),
            _ => {
                let t = match r.below(5) {
                    0 => TestK::Const(r.flip()),
                    1 => TestK::Off(r.below(2)),
                    2 if r.chance(1, 3) => TestK::Err,
                    _ => TestK::Peek(gen_cls(r, &g, 0)),
                };
                K::Branch(t, b(r), b(r))
            }
        };
        c.ast = Ast::new(k);
        let (inp, start) = gen_input(r, &g, &c.ast, None);
        c.inp = inp;
        c.start = start;
    }
    verdict(o, c, &check)
}

fn main() {
    run(
        Plan {
            quick: 1_200_000,
            ..Plan::new("C10", "a random grammar holding lookahead, anchors or conditionals (half of them outermost); non-trivial when it holds at least one; judged by monitors at every sub-pattern, by running the parts on copies of the context, and by the reference")
        },
        case,
    )
}
