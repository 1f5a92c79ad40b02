//! C02: a failing match leaves the position where it was.
use neure::ctx::{Assert, BytesCtx, CharsCtx, Context, Match, MatchExt, PolicyCtx, PolicyMatch};
use neure::err::Error;
use neure::regex::Regex;
use neure::span::Span;
use nverif::ast::*;
use nverif::build::build;
use nverif::case::*;
use nverif::on_kind;
use nverif::ctxs::*;
use nverif::drv::{guarded, run, Obs, Plan};
use nverif::generate::gen_ast;
use nverif::model::Model;
use nverif::probe::*;
use nverif::rng::Rng;
use std::rc::Rc;

fn has_dync(a: &Ast) -> bool {
    let mut f = false;
    a.walk(&mut |a| f |= matches!(a.k, K::DynC(..)));
    f
}

/// the boolean and asserting entry points
fn tops<'a, C: HCtx<'a>>(ctx: &mut C, c: &Case, budget: u64) -> Result<Result<u32, String>, String> {
    guarded(|| {
        let p = build::<C>(&c.ast);
        let mut fails = 0;
        let start = c.start;
        mon_reset(budget * 8);
        let ok = ctx.set_offset(start).try_mat(&p).is_ok();
        let end = ctx.offset();
        if !ok && end != start {
            return Err(format!("try_mat failed and moved from {start} to {end}"));
        }
        let b = ctx.set_offset(start).is_mat(&p);
        if b != ok || ctx.offset() != end {
            return Err(format!("is_mat says {b} and stands at {}, try_mat ok={ok} stands at {end}", ctx.offset()));
        }
        ctx.set_offset(start);
        let a = ctx.assert(&p);
        if a != ok || ctx.offset() != start {
            return Err(format!("assert says {a} (match ok={ok}) and stands at {} instead of {start}", ctx.offset()));
        }
        let t = ctx.try_assert(&p);
        if ctx.offset() != start || t.unwrap_or(false) != ok {
            return Err(format!("try_assert gives {t:?} (match ok={ok}) and stands at {} instead of {start}", ctx.offset()));
        }
        if !ok {
            fails += 1;
        }
        // entry points that hand the span to a handler
        let r: Result<Span, Error> = ctx.ctor_span(&Leaf(&p));
        if r.is_err() && ctx.offset() != start {
            return Err(format!("ctor_span failed with {r:?} and moved from {start} to {}", ctx.offset()));
        }
        ctx.set_offset(start);
        let r: Result<Span, Error> = ctx.map_span(&Leaf(&p), |s: Span| Ok(s));
        if r.is_err() && ctx.offset() != start {
            return Err(format!("map_span failed with {r:?} and moved from {start} to {}", ctx.offset()));
        }
        Ok(fails)
    })
}

struct Leaf<'p, P>(&'p P);
impl<C, P: Regex<C>> Regex<C> for Leaf<'_, P> {
    fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
        self.0.try_parse(ctx)
    }
}
impl<'a, C: Match<'a>, P: Regex<C>, H: neure::ctor::Handler<C>> neure::ctor::Ctor<C, H::Out, H> for Leaf<'_, P> {
    fn construct(&self, ctx: &mut C, h: &mut H) -> Result<H::Out, Error> {
        let s = ctx.try_mat(self.0)?;
        h.invoke(ctx, &s).map_err(Into::into)
    }
}

fn check(c: &Case, o: &mut Obs) -> Result<bool, String> {
    let mut rolled = false;
    if !has_dync(&c.ast) {
        let mut m = c.model();
        let _ = m.tm(&c.ast, c.start, 0);
        if m.over {
            return Ok(false);
        }
        let got = run_match(c, budget_for(m.steps))?;
        observe(o, c, &got.mon);
        if let Some(v) = got.mon.restore_viol {
            return Err(v);
        }
        if got.res.is_err() && got.off != c.start {
            return Err(format!("failed match moved from {} to {}", c.start, got.off));
        }
        rolled |= got.mon.rollbacks > 0;
        if o.index % 4 == 0 {
            let n = on_kind!(c, |ctx| tops(ctx, c, budget_for(m.steps)))??;
            o.add("failing_entry_points", n as u64);
        }
    }
    let mut m = c.model();
    let _ = m.k(&c.ast, c.start);
    if m.over {
        return Ok(false);
    }
    let got = run_ctor(c, budget_for(m.steps))?;
    observe(o, c, &got.mon);
    if let Some(v) = got.mon.restore_viol {
        return Err(v);
    }
    if got.res.is_err() && got.mon.rejects == 0 && got.off != c.start {
        return Err(format!("failed construction moved from {} to {}", c.start, got.off));
    }
    Ok(rolled || got.mon.rollbacks > 0)
}

/// a policy that can fail after it has moved
fn bad_policy<'a, I>(ctx0: I, c: &Case, pol: &Ast, budget: u64) -> Result<Result<bool, String>, String>
where
    I: HCtx<'a> + Clone,
    PolicyCtx<I, Rc<dyn Regex<I> + 'a>>: HCtx<'a>,
{
    guarded(|| {
        let r: Rc<dyn Regex<I> + 'a> = Rc::new(build::<I>(pol));
        let mut ctx = PolicyCtx::new(ctx0.clone(), r);
        let p = build::<PolicyCtx<I, Rc<dyn Regex<I> + 'a>>>(&c.ast);
        ctx.set_offset(c.start);
        mon_reset(budget);
        let res = ctx.try_mat(&p);
        if res.is_err() && ctx.offset() != c.start {
            return Err(format!(
                "under policy {}: try_mat failed with {res:?} and moved from {} to {}",
                show(pol),
                c.start,
                ctx.offset()
            ));
        }
        if let Some(v) = mon_take().restore_viol {
            return Err(format!("under policy {}: {v}", show(pol)));
        }
        Ok(res.is_err())
    })
}

/// try_mat_policy / _before / _after
fn policied<'a, C: HCtx<'a> + PolicyMatch<'a>>(
    ctx: &mut C,
    c: &Case,
    b: &Ast,
    a: &Ast,
) -> Result<Result<bool, String>, String> {
    let text = C::TEXT;
    guarded(|| {
        let (pb, pp, pa) = (build::<C>(b), build::<C>(&c.ast), build::<C>(a));
        let mut failed = false;
        for form in 0..3 {
            ctx.set_offset(c.start);
            mon_reset(2_000_000);
            let r = match form {
                0 => ctx.try_mat_policy(&pp, &pb, &pa),
                1 => ctx.try_mat_before(&pp, &pb),
                _ => ctx.try_mat_after(&pp, &pa),
            };
            let end = ctx.offset();
            if r.is_err() {
                failed = true;
                if end != c.start {
                    return Err(format!(
                        "try_mat_{} failed with {r:?} and moved from {} to {end}; before {} after {}",
                        ["policy", "before", "after"][form],
                        c.start,
                        show(b),
                        show(a)
                    ));
                }
            }
            // and the success is what the parts give one after the other
            if c.kind.policy() {
                continue;
            }
            let mut m = Model::new(&c.inp, text);
            let want = (|| {
                let mut p = c.start;
                if form != 2 {
                    p = m.tm(b, p, 0)?.end;
                }
                let x = m.tm(&c.ast, p, 0)?;
                p = x.end;
                if form != 1 {
                    p = m.tm(a, p, 0)?.end;
                }
                Ok::<_, Error>((x.beg, x.end - x.beg, p))
            })();
            if m.over {
                return Ok(false);
            }
            let got = r.map(|s| (s.beg, s.len, end));
            if got.is_ok() != want.is_ok() || (got.is_ok() && got != want) {
                return Err(format!(
                    "try_mat_{}: got {got:?}, the parts in sequence give {want:?}; before {} after {}",
                    ["policy", "before", "after"][form],
                    show(b),
                    show(a)
                ));
            }
        }
        Ok(failed)
    })
}

/// three grammars nested in each other: nothing says how long that takes
fn over<T>(r: &Result<T, String>) -> bool {
    r.as_ref().is_err_and(|e| e.contains("step budget"))
}

fn case(r: &mut Rng, o: &mut Obs) -> Result<(), String> {
    match r.below(10) {
        0 => {
            let w = Want { depth: 3, big: 0, ..Want::new(&[Kind::Chars, Kind::Bytes]) };
            let (c, mut g) = gen_case(r, &w);
            g.depth = 2;
            let pol = gen_ast(r, &g);
            o.note(|| format!("policy {} {}", show(&pol), c.show()));
            // the policy may consume without end or not at all; both are bounded by the model
            let res = match c.kind {
                Kind::Chars => bad_policy(CharsCtx::mk(&c.inp), &c, &pol, 2_000_000),
                _ => bad_policy(BytesCtx::mk(&c.inp), &c, &pol, 2_000_000),
            };
            if over(&res) {
                o.count("arbitrary_policies_cut_short");
                return Ok(());
            }
            if res?? {
                o.count("failures_under_arbitrary_policy");
                o.nontrivial(&(c.key(), show(&pol)));
            }
            Ok(())
        }
        1 => {
            let w = Want { depth: 3, big: 0, ..Want::new(&[Kind::Chars, Kind::Bytes, Kind::PText]) };
            let (c, mut g) = gen_case(r, &w);
            g.depth = 2;
            let (b, a) = (gen_ast(r, &g), gen_ast(r, &g));
            o.note(|| format!("before {} after {} {}", show(&b), show(&a), c.show()));
            let res = match c.kind {
                Kind::Chars => policied(&mut CharsCtx::mk(&c.inp), &c, &b, &a),
                Kind::Bytes => policied(&mut BytesCtx::mk(&c.inp), &c, &b, &a),
                _ => policied(&mut pol_text(&c.inp, &c.skip), &c, &b, &a),
            };
            if over(&res) {
                o.count("arbitrary_policies_cut_short");
                return Ok(());
            }
            if res?? {
                o.count("failures_of_try_mat_policy");
                o.nontrivial(&(c.key(), show(&b), show(&a)));
            }
            Ok(())
        }
        _ => {
            let w = Want { rej: r.chance(1, 4), try_map: true, dync: r.flip(), ..Want::new(ALL) };
            let (c, _) = gen_case(r, &w);
            verdict(o, c, &check)
        }
    }
}

fn main() {
    run(
        Plan {
            quick: 1_500_000,
            ..Plan::new("C02", "a random grammar on an input derived from it, in six contexts (also under arbitrary, failing policies and try_mat_policy); every entry and exit of every sub-pattern is an event; non-trivial when a sub-pattern failed after the position had advanced below it")
        },
        case,
    )
}
