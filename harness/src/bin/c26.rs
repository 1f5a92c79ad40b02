//! C26: the error names the part that failed.
use nverif::ast::*;
use nverif::case::*;
use nverif::drv::{run, Obs, Plan};
use nverif::rng::Rng;

fn has_dync(a: &Ast) -> bool {
    let mut f = false;
    a.walk(&mut |a| f |= matches!(a.k, K::DynC(..)));
    f
}

fn check(c: &Case, o: &mut Obs) -> Result<bool, String> {
    let mut seen = false;
    if !has_dync(&c.ast) {
        let mut m = c.model();
        let want = m.tm(&c.ast, c.start, 0);
        if m.over {
            return Ok(false);
        }
        let g = run_match(c, budget_for(m.steps))?;
        observe(o, c, &g.mon);
        if let (Err(w), Err(e), false) = (want, g.res, m.ambiguous) {
            if w != e {
                return Err(format!("matching fails with {e:?}, the part that failed gives {w:?}"));
            }
            if o.index % 16 == 0 {
                o.count(&format!("sampled_1_in_16:match {e:?}"));
            }
            seen = true;
        }
    }
    let mut m = c.model();
    let want = m.k(&c.ast, c.start);
    if m.over {
        return Ok(false);
    }
    let k = run_ctor(c, budget_for(m.steps))?;
    observe(o, c, &k.mon);
    if let (Err(w), Err(e), false) = (&want, &k.res, m.ambiguous) {
        if w != e {
            return Err(format!("construction fails with {e:?}, the part that failed gives {w:?}"));
        }
        if o.index % 16 == 0 {
            o.count(&format!("sampled_1_in_16:construct {e:?}"));
        }
        seen = true;
    }
    Ok(seen && c.ast.size() > 1)
}

fn case(r: &mut Rng, o: &mut Obs) -> Result<(), String> {
    let w = Want { rej: r.chance(1, 3), try_map: true, dync: r.chance(1, 4), long: true, ..Want::new(ALL) };
    let (c, _) = gen_case(r, &w);
    verdict(o, c, &check)
}

fn main() {
    run(
        Plan {
            quick: 1_500_000,
            assumptions: &["where a condition's error and a length shortage coincide the documentation does not say which is reported; such runs are not judged"],
            ..Plan::new("C26", "a random grammar on an input derived from it, matched and constructed; non-trivial when a composed grammar fails both by the reference and for real")
        },
        case,
    )
}
