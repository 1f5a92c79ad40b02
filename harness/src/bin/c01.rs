//! C01: every successful match reports exactly the input it consumed.
use neure::ctx::{Match, MatchExt};
use neure::span::Span;
use nverif::ast::*;
use nverif::build::build;
use nverif::case::*;
use nverif::on_kind;
use nverif::ctxs::HCtx;
use nverif::drv::{guarded, run, Obs, Plan};
use nverif::probe::*;
use nverif::rng::Rng;

/// what the public entry points report about the whole match
fn tops<'a, C: HCtx<'a>>(ctx: &mut C, c: &Case, budget: u64) -> Result<Result<(usize, usize), String>, String> {
    guarded(|| {
        let p = build::<C>(&c.ast);
        ctx.set_offset(c.start);
        mon_reset(budget);
        let a = ctx.try_mat(&p);
        let off = ctx.offset();
        let Ok(s) = a else { return Ok((0, 0)) };
        let bytes = ctx.bytes_of(s.beg, s.len);
        if bytes.as_deref() != c.inp.get(s.beg..s.beg + s.len) {
            return Err(format!("the slice of span {}+{} is {:?}", s.beg, s.len, bytes));
        }
        if s.beg < c.start || s.beg + s.len != off {
            return Err(format!("span {}+{} but the position went from {} to {off}", s.beg, s.len, c.start));
        }
        ctx.set_offset(c.start);
        let b: Result<Span, _> = ctx.ctor_span(&CtorSpan(&p));
        if b != Ok(s) || ctx.offset() != off {
            return Err(format!("ctor_span of the pattern gives {b:?} at {}, matching gave {s:?} at {off}", ctx.offset()));
        }
        Ok((s.beg, s.len))
    })
}

/// a leaf that hands its span to the handler
struct CtorSpan<'p, P>(&'p P);
impl<'a, C: Match<'a>, P: neure::regex::Regex<C>> neure::regex::Regex<C> for CtorSpan<'_, P> {
    fn try_parse(&self, ctx: &mut C) -> Result<Span, neure::err::Error> {
        self.0.try_parse(ctx)
    }
}
impl<'a, C: Match<'a>, P: neure::regex::Regex<C>, H: neure::ctor::Handler<C>>
    neure::ctor::Ctor<C, H::Out, H> for CtorSpan<'_, P>
{
    fn construct(&self, ctx: &mut C, h: &mut H) -> Result<H::Out, neure::err::Error> {
        let s = ctx.try_mat(self.0)?;
        h.invoke(ctx, &s).map_err(Into::into)
    }
}

fn check(c: &Case, o: &mut Obs) -> Result<bool, String> {
    let mut nontrivial = false;
    let mut m = c.model();
    let has_dync = {
        let mut f = false;
        c.ast.walk(&mut |a| f |= matches!(a.k, K::DynC(..)));
        f
    };
    if !has_dync {
        let want = m.tm(&c.ast, c.start, 0);
        if m.over {
            return Ok(false);
        }
        let got = run_match(c, budget_for(m.steps))?;
        observe(o, c, &got.mon);
        if let Some(v) = got.mon.span_viol {
            return Err(v);
        }
        nontrivial |= got.mon.nonempty_oks > 0;
        if let (Ok(w), Ok((b, l))) = (want, got.res) {
            if (w.beg, w.end) != (b, b + l) {
                return Err(format!("reference consumes {}..{}, reported {b}..{}", w.beg, w.end, b + l));
            }
        }
        if o.index % 4 == 0 {
            on_kind!(c, |ctx| tops(ctx, c, budget_for(m.steps)))??;
        }
    }
    let mut m = c.model();
    let want = m.k(&c.ast, c.start);
    if m.over {
        return Ok(false);
    }
    let got = run_ctor(c, budget_for(m.steps))?;
    observe(o, c, &got.mon);
    if let Some(v) = got.mon.span_viol {
        return Err(v);
    }
    nontrivial |= got.mon.nonempty_oks > 0;
    for i in &got.log {
        let end = i.beg + i.len;
        if i.beg < c.start || end != i.off || end > c.inp.len() || !i.extractable {
            return Err(format!(
                "handler given span {}+{} while the context stands at {} (start {})",
                i.beg, i.len, i.off, c.start
            ));
        }
    }
    if let (Ok((_, e)), Ok(_)) = (want, &got.res) {
        if e != got.off {
            return Err(format!("reference construction ends at {e}, the context stands at {}", got.off));
        }
    }
    Ok(nontrivial)
}

fn case(r: &mut Rng, o: &mut Obs) -> Result<(), String> {
    let w = Want { rej: r.chance(1, 4), try_map: true, dync: r.flip(), long: true, ..Want::new(ALL) };
    let (c, _) = gen_case(r, &w);
    verdict(o, c, &check)
}

fn main() {
    run(
        Plan {
            quick: 1_500_000,
            ..Plan::new("C01", "a random grammar on an input derived from it, in six contexts, matched and constructed; every entry and exit of every sub-pattern is an event; non-trivial when some sub-pattern matched something non-empty")
        },
        case,
    )
}
