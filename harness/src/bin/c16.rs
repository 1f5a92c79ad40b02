//! C16: rejection by a handler or mapper is failure of that element.
use nverif::ast::*;
use nverif::case::*;
use nverif::drv::{run, Obs, Plan};
use nverif::rng::Rng;

fn check(c: &Case, o: &mut Obs) -> Result<bool, String> {
    let mut m = c.model();
    let want = m.k(&c.ast, c.start);
    if m.over {
        return Ok(false);
    }
    let k = run_ctor(c, budget_for(m.steps))?;
    observe(o, c, &k.mon);
    match (&want, &k.res) {
        (Ok((v, e)), Ok(r)) => {
            if *v != r.erase() {
                return Err(format!("value {:?}, reference {:?}", r.erase(), v));
            }
            if *e != k.off {
                return Err(format!("construction ends at {}, reference at {e}", k.off));
            }
        }
        (Err(w), Err(r)) => {
            if (*w == e_handler() || *w == e_map()) && w != r {
                return Err(format!("the rejection's own error is {w:?}, the caller sees {r:?}"));
            }
        }
        (w, r) => return Err(format!("construction gives {r:?}, reference {w:?}")),
    }
    if o.index % 64 == 0 && k.mon.rejects > 0 {
        o.count(if k.res.is_ok() {
            "sampled_1_in_64:recovered_after_rejection"
        } else {
            "sampled_1_in_64:failed_after_rejection"
        });
    }
    Ok(k.mon.rejects > 0)
}

fn case(r: &mut Rng, o: &mut Obs) -> Result<(), String> {
    let w = Want {
        rej: r.chance(3, 4),
        try_map: true,
        dync: r.chance(1, 3),
        depth: if o.thorough { 5 } else { 4 },
        focus: if r.chance(1, 3) { Some(nverif::generate::Focus::Lists) } else { None },
        long: true, ..Want::new(ALL)
    };
    let (c, _) = gen_case(r, &w);
    verdict(o, c, &check)
}

fn main() {
    run(
        Plan {
            quick: 2_500_000,
            ..Plan::new("C16", "a random value-producing grammar with handlers and mappers that reject by span; non-trivial when some value was rejected during the run")
        },
        case,
    )
}
