//! C25: text and bytes agree on ASCII data.
use neure::ctx::{BytesCtx, CharsCtx, Context, Match};
use neure::map;
use nverif::case::*;
use nverif::ctxs::*;
use nverif::drv::{guarded, run, Obs, Plan};
use nverif::generate::*;
use nverif::rng::Rng;
use neure::map::FallibleMap;

fn has_dync(a: &nverif::ast::Ast) -> bool {
    let mut f = false;
    a.walk(&mut |a| f |= matches!(a.k, nverif::ast::K::DynC(..)));
    f
}

fn check(c: &Case, o: &mut Obs) -> Result<bool, String> {
    let (kt, kb) = if c.kind.policy() { (Kind::PText, Kind::PBytes) } else { (Kind::Chars, Kind::Bytes) };
    let t = Case { kind: kt, ..c.clone() };
    let b = Case { kind: kb, ..c.clone() };
    let mut m = t.model();
    let _ = m.k(&c.ast, c.start);
    let mut budget = m.steps;
    if m.over {
        return Ok(false);
    }
    if !has_dync(&c.ast) {
        let mut m = t.model();
        let _ = m.tm(&c.ast, c.start, 0);
        if m.over {
            return Ok(false);
        }
        budget = budget.max(m.steps);
        let x = run_match(&t, budget_for(budget))?;
        let y = run_match(&b, budget_for(budget))?;
        observe(o, &t, &x.mon);
        observe(o, &b, &y.mon);
        if (&x.res, x.off) != (&y.res, y.off) {
            return Err(format!("text gives {:?} at {}, bytes {:?} at {}", x.res, x.off, y.res, y.off));
        }
    }
    let x = run_ctor(&t, budget_for(budget))?;
    let y = run_ctor(&b, budget_for(budget))?;
    observe(o, &t, &x.mon);
    observe(o, &b, &y.mon);
    if (&x.res, x.off, &x.log) != (&y.res, y.off, &y.log) {
        return Err(format!(
            "text constructs {:?} at {} log {:?}\nbytes {:?} at {} log {:?}",
            x.res, x.off, x.log, y.res, y.off, y.log
        ));
    }
    // captured text and captured bytes, validated
    guarded(|| {
        let (ct, cb) = (CharsCtx::mk(&c.inp), BytesCtx::mk(&c.inp));
        let mut parsed = 0u64;
        for i in &x.log {
            let s: &str = ct.orig_sub(i.beg, i.len).map_err(|e| format!("{e:?}"))?;
            let u: &[u8] = cb.orig_sub(i.beg, i.len).map_err(|e| format!("{e:?}"))?;
            let v: &str = map::from_utf8().try_map(u).map_err(|e| format!("from_utf8 {e:?}"))?;
            let w: String = map::from_utf8().try_map(u).map(|x: &str| x.to_string()).map_err(|e| format!("{e:?}"))?;
            let l: std::borrow::Cow<str> = map::from_utf8_lossy().try_map(u).map_err(|e| format!("{e:?}"))?;
            if s != v || s != w || s != l {
                return Err(format!("span {}+{}: text {s:?}, bytes validated {v:?} {l:?}", i.beg, i.len));
            }
            // parsing validated text is parsing the text
            let mut a = CharsCtx::new(v);
            let mut d = CharsCtx::new(s);
            let p = nverif::build::build::<CharsCtx>(&c.ast);
            // each of these is a parse of its own
            if parsed > 3_000 || has_dync(&c.ast) {
                continue;
            }
            let sub = Case { kind: Kind::Chars, inp: v.as_bytes().to_vec(), start: 0, ..c.clone() };
            let mut m = sub.model();
            m.max = 3_000;
            let _ = m.tm(&c.ast, 0, 0);
            parsed += m.steps + 10;
            if m.over {
                continue;
            }
            nverif::probe::mon_reset(2 * budget_for(m.steps));
            if a.try_mat(&p) != d.try_mat(&p) || a.offset() != d.offset() {
                return Err("validated text parses differently".into());
            }
        }
        Ok(())
    })??;
    if o.index % 64 == 0 {
        o.add("sampled_1_in_64:captured_slices", x.log.len() as u64);
    }
    Ok(x.mon.nonempty_oks > 0)
}

fn case(r: &mut Rng, o: &mut Obs) -> Result<(), String> {
    let mut g = Cfg::ascii(r.range(1, 4) as u32, true);
    if r.chance(3, 4) {
        g = g.narrow(r);
    }
    g.big = r.chance(1, 30);
    g.long = true;
    if g.big {
        g.depth = g.depth.min(3);
    }
    g.try_map = r.flip();
    g.dync = r.chance(1, 3);
    let ast = gen_ast(r, &g);
    let kind = if r.chance(1, 4) { Kind::PText } else { Kind::Chars };
    let skip = gen_skip(r);
    let (mut inp, mut start) = gen_input(r, &g, &ast, if kind.policy() { Some(&skip) } else { None });
    if r.chance(1, 300) {
        let mut far = vec![b'a'; *r.pick(&[255, 256, 300, 65_535, 65_536, 65_600])];
        start += far.len();
        far.extend_from_slice(&inp);
        inp = far;
    }
    let rej = if r.chance(1, 3) { gen_rej(r) } else { nverif::ast::Rej::None };
    verdict(o, Case { ast, inp, start, rej, kind, skip }, &check)
}

fn main() {
    run(
        Plan {
            quick: 1_000_000,
            ..Plan::new("C25", "a random grammar expressible over both, run over the same ASCII data as text and as bytes (plain and skipping contexts); non-trivial when something non-empty matched")
        },
        case,
    )
}
