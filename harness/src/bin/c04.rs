//! C04: constructing accepts what matching accepts, and yields the documented value tree.
use nverif::case::*;
use nverif::drv::{run, Obs, Plan};
use nverif::rng::Rng;

fn check(c: &Case, o: &mut Obs) -> Result<bool, String> {
    let mut m = c.model();
    let want = m.k(&c.ast, c.start);
    let steps = m.steps;
    let mut m2 = c.model();
    let wm = m2.tm(&c.ast, c.start, 0);
    if m.over || m2.over {
        return Ok(false);
    }
    let k = run_ctor(c, budget_for(steps))?;
    let g = run_match(c, budget_for(m2.steps))?;
    observe(o, c, &k.mon);
    observe(o, c, &g.mon);
    // the two real paths agree; with input skipped before patterns and tokens
    // they do where the reference says so
    let same = !c.kind.policy() || (want.as_ref().ok().map(|x| x.1) == wm.as_ref().ok().map(|x| x.end));
    if same && k.res.is_ok() != g.res.is_ok() {
        return Err(format!("construction gives {:?}, matching gives {:?}", k.res, g.res));
    }
    if same && (k.res.is_ok() || !c.kind.policy()) && k.off != g.off {
        return Err(format!("construction ends at {}, matching at {}", k.off, g.off));
    }
    // and agree with the reference
    match (&want, &k.res) {
        (Ok((v, e)), Ok(r)) => {
            if *v != r.erase() {
                return Err(format!("value {:?}, reference {:?}", r.erase(), v));
            }
            if *e != k.off {
                return Err(format!("construction ends at {}, reference at {e}", k.off));
            }
        }
        (Err(_), Err(_)) => {}
        (w, r) => return Err(format!("construction gives {r:?}, reference {w:?}")),
    }
    match (&wm, &g.res) {
        (Ok(w), Ok((b, l))) if (w.beg, w.end) == (*b, b + l) && w.end == g.off => {}
        (Err(_), Err(_)) => {}
        _ => return Err(format!("matching gives {:?} at {}, reference {wm:?}", g.res, g.off)),
    }
    let mut leaves = vec![];
    if let Ok(v) = &k.res {
        v.leaves(&mut leaves);
    }
    if o.index % 64 == 0 {
        o.add("sampled_1_in_64:leaves_in_results", leaves.len() as u64);
        o.add("sampled_1_in_64:constructed", k.res.is_ok() as u64);
        o.add("sampled_1_in_64:failed", k.res.is_err() as u64);
    }
    Ok(leaves.iter().any(|l| l.2 > 0) && c.ast.size() > 1 || k.mon.rollbacks > 0)
}

fn case(r: &mut Rng, o: &mut Obs) -> Result<(), String> {
    let w = Want {
        depth: if o.thorough { 5 } else { 4 },
        focus: if r.chance(1, 3) { Some(nverif::generate::Focus::Lists) } else { None },
        long: true, ..Want::new(ALL)
    };
    let (c, _) = gen_case(r, &w);
    verdict(o, c, &check)
}

fn main() {
    run(
        Plan {
            quick: 1_500_000,
            assumptions: &["handlers and mappers accept everything here (rejections: C16)"],
            ..Plan::new("C04", "a random value-producing grammar on an input derived from it, constructed with a numbering handler and matched; non-trivial when the result holds a non-empty leaf of a composed grammar, or a sub-pattern was rolled back")
        },
        case,
    )
}
