//! C03: matching is the ordered-choice reading of the grammar.
use nverif::case::*;
use nverif::drv::{run, Obs, Plan};
use nverif::rng::Rng;

fn check(c: &Case, o: &mut Obs) -> Result<bool, String> {
    let mut m = c.model();
    let want = m.tm(&c.ast, c.start, 0);
    if m.over {
        return Ok(false);
    }
    let got = run_match(c, budget_for(m.steps))?;
    observe(o, c, &got.mon);
    match (&want, &got.res) {
        (Ok(w), Ok((b, l))) => {
            if w.end != got.off || w.beg != *b || w.end - w.beg != *l {
                return Err(format!(
                    "reference matches {}..{}, the library matches {}..{} and stands at {}",
                    w.beg,
                    w.end,
                    b,
                    b + l,
                    got.off
                ));
            }
        }
        (Err(_), Err(_)) => {}
        (Ok(w), Err(e)) => {
            return Err(format!("reference matches {}..{}, the library fails with {e:?}", w.beg, w.end));
        }
        (Err(e), Ok((b, l))) => {
            return Err(format!("reference fails ({e:?}), the library matches {}..{}", b, b + l));
        }
    }
    Ok(got.mon.rollbacks > 0 || matches!(want, Ok(w) if w.end > w.beg))
}

fn case(r: &mut Rng, o: &mut Obs) -> Result<(), String> {
    let w = Want { depth: if o.thorough { 5 } else { 4 }, long: true, ..Want::new(ALL) };
    let (c, _) = gen_case(r, &w);
    verdict(o, c, &check)
}

fn main() {
    run(
        Plan {
            assumptions: &["the reference interpreter in harness/src/model.rs reads the combinators as documented"],
            ..Plan::new("C03", "a random grammar of public combinators on an input derived from it, in a text, byte or user-implemented context; non-trivial when the match is not empty or some sub-pattern was rolled back")
        },
        case,
    )
}
