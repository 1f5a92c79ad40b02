//! C05: the handler log and the leaves of the result.
use neure::ctor::{extract, Ctor, Extract, Handler};
use neure::ctx::{BytesCtx, CharsCtx, Context, MatchExt};
use neure::span::Span;
use nverif::case::*;
use nverif::ctxs::*;
use nverif::drv::{guarded, run, Obs, Plan};
use nverif::rng::Rng;
use std::collections::HashSet;

/// every handler the library offers hands out what the span covers
fn extracts(c: &Case, b: usize, n: usize) -> Result<(), String> {
    let sp = Span::new(b, n);
    macro_rules! same {
        ($ctx:expr, $pat:expr, $($t:ty => $want:expr),+) => {$({
            let mut ctx = $ctx;
            ctx.set_offset(b);
            let want = $want;
            let got = extract::<$t>().invoke(&ctx, &sp);
            if got.as_ref().ok() != Some(&want) {
                return Err(format!("{} of {b}+{n} is {got:?}, the input there is {want:?}", stringify!($t)));
            }
            // with the context elsewhere
            ctx.set_offset(0);
            let got = Extract::<$t>::default().invoke(&ctx, &sp);
            if got.as_ref().ok() != Some(&want) {
                return Err(format!("{} of {b}+{n} is {got:?} from position 0, the input there is {want:?}", stringify!($t)));
            }
            if let Some(p) = $pat {
                ctx.set_offset(b);
                let got = p.construct(&mut ctx, &mut Extract::<$t>::new());
                if got.as_ref().ok() != Some(&want) || ctx.offset() != b + n {
                    return Err(format!("{} of a literal at {b}+{n} is {got:?}, position {}, expected {want:?}", stringify!($t), ctx.offset()));
                }
                ctx.set_offset(b);
                let got = ctx.ctor_with(&p, |c: &_, s: &Span| Extract::<$t>::new().invoke(c, s));
                if got.as_ref().ok() != Some(&want) || ctx.offset() != b + n {
                    return Err(format!("ctor_with {} of a literal at {b}+{n} is {got:?}, position {}, expected {want:?}", stringify!($t), ctx.offset()));
                }
            }
        })+};
    }
    guarded(|| {
        let w = &c.inp[b..b + n];
        if let (true, Ok(s), Ok(all)) = (c.kind.text(), std::str::from_utf8(w), std::str::from_utf8(&c.inp)) {
            if all.is_char_boundary(b) && all.is_char_boundary(b + n) {
                let lit = || Some(neure::regex::literal(s));
                same!(CharsCtx::new(all), lit(), &str => s, String => s.to_string(), Span => sp, () => ());
                same!(<UText as HCtx>::mk(&c.inp), lit(), Span => sp, () => ());
            }
        }
        if !c.kind.text() {
            let lit = || Some(neure::regex::literal(w));
            same!(BytesCtx::new(&c.inp), lit(), &[u8] => w, Span => sp, () => ());
        }
        Ok(())
    })?
}

fn check(c: &Case, o: &mut Obs) -> Result<bool, String> {
    let mut m = c.model();
    let want = m.k(&c.ast, c.start);
    if m.over {
        return Ok(false);
    }
    let k = run_ctor(c, budget_for(m.steps))?;
    observe(o, c, &k.mon);
    o.events += k.log.len() as u64;
    // a handler is only invoked where a leaf matched
    let may: HashSet<(usize, usize)> = m.calls.iter().copied().collect();
    for i in &k.log {
        if !may.contains(&(i.beg, i.len)) {
            return Err(format!("handler invoked with span {}+{}, no leaf matches there", i.beg, i.len));
        }
        if i.beg + i.len != i.off {
            return Err(format!("handler invoked with span {}+{} while the context stands at {}", i.beg, i.len, i.off));
        }
    }
    for (i, x) in k.log.iter().enumerate() {
        if i < 4 && x.len < 500 {
            extracts(c, x.beg, x.len)?;
        }
    }
    if o.index % 4 == 0 {
        let t = run_ctor_taken(c, budget_for(m.steps))?;
        if t.res != k.res || t.off != k.off {
            return Err(format!(
                "ctor_handler gives {:?} at {}, construct gave {:?} at {}",
                t.res, t.off, k.res, k.off
            ));
        }
        o.count("ctor_handler_runs");
    }
    let mut leaves = vec![];
    if let Ok(v) = &k.res {
        v.leaves(&mut leaves);
        let mut seen = HashSet::new();
        let mut end = 0;
        for (id, b, l) in &leaves {
            if !seen.insert(*id) {
                return Err(format!("the value of handler call #{id} occurs twice in {v:?}"));
            }
            match k.log.get(*id as usize) {
                Some(i) if i.beg == *b && i.len == *l && !i.rejected => {}
                i => return Err(format!("leaf ({b}+{l}) does not stem from call #{id} {i:?}")),
            }
            if *b < end {
                return Err(format!("leaf {b}+{l} begins before the end {end} of an earlier leaf: {v:?}"));
            }
            end = b + l;
        }
        if end > k.off {
            return Err(format!("a leaf ends at {end}, after the final position {}", k.off));
        }
        // the leaves are the reference's
        if let Ok((w, _)) = &want {
            let mut wl = vec![];
            w.leaves(&mut wl);
            let a: Vec<_> = leaves.iter().map(|x| (x.1, x.2)).collect();
            let b: Vec<_> = wl.iter().map(|x| (x.1, x.2)).collect();
            if a != b {
                return Err(format!("leaves {a:?}, reference {b:?}"));
            }
        }
    }
    if o.index % 64 == 0 {
        o.add("sampled_1_in_64:handler_calls", k.log.len() as u64);
        o.add("sampled_1_in_64:calls_abandoned", (k.log.len() - leaves.len()) as u64);
    }
    Ok(leaves.len() > 1 || k.log.len() > leaves.len())
}

fn case(r: &mut Rng, o: &mut Obs) -> Result<(), String> {
    let w = Want { rej: r.chance(1, 2), try_map: true, dync: true, long: true, ..Want::new(ALL) };
    let (c, _) = gen_case(r, &w);
    verdict(o, c, &check)
}

fn main() {
    run(
        Plan {
            quick: 2_000_000,
            ..Plan::new("C05", "a random value-producing grammar run with a handler that numbers and logs every call, often rejecting some; non-trivial when the result has several leaves or some call's value was abandoned")
        },
        case,
    )
}
