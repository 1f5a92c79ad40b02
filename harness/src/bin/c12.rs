//! C12: a skipping context is the plain context with the skip before every token.
use nverif::ast::*;
use nverif::case::*;
use nverif::ctxs::*;
use nverif::drv::{run, Obs, Plan};
use nverif::generate::*;
use nverif::model::decode;
use nverif::rng::Rng;

type Tops = (Result<(usize, usize), neure::err::Error>, usize);

/// against the reference interpreter that skips before every match
fn by_reference(c: &Case, o: &mut Obs) -> Result<bool, String> {
    let mut m = c.model();
    let want = m.tm(&c.ast, c.start, 0);
    if m.over {
        return Ok(false);
    }
    let g = run_match(c, budget_for(m.steps))?;
    observe(o, c, &g.mon);
    match (&want, &g.res) {
        (Ok(w), Ok((b, l))) if (w.beg, w.end) == (*b, b + l) && w.end == g.off => {}
        (Err(_), Err(_)) => {}
        _ => return Err(format!("matching gives {:?} at {}, reference {want:?}", g.res, g.off)),
    }
    let mut m = c.model();
    let want = m.k(&c.ast, c.start);
    if m.over {
        return Ok(false);
    }
    let k = run_ctor(c, budget_for(m.steps))?;
    observe(o, c, &k.mon);
    match (&want, &k.res) {
        (Ok((v, e)), Ok(x)) if *v == x.erase() && *e == k.off => {}
        (Err(_), Err(_)) => {}
        _ => return Err(format!("construction gives {:?} at {}, reference {want:?}", k.res, k.off)),
    }
    Ok(g.mon.nonempty_oks > 0 || k.mon.nonempty_oks > 0)
}

/// the grammar with the skip written out before everything that is matched
fn explicit_r(a: &Ast, skip: &Ast) -> Ast {
    let inner = map_parts(a, &mut |x, _| explicit_r(x, skip));
    Ast::new(K::Prefix(Box::new(skip.clone()), Box::new(inner)))
}

fn explicit_v(a: &Ast, skip: &Ast) -> Ast {
    if is_token(a) {
        return explicit_r(a, skip);
    }
    map_parts(a, &mut |x, value| if value { explicit_v(x, skip) } else { explicit_r(x, skip) })
}

fn by_spelling_out(c: &Case, o: &mut Obs) -> Result<bool, String> {
    let plain = if c.kind.text() { Kind::Chars } else { Kind::Bytes };
    let er = Case { ast: explicit_r(&c.ast, &c.skip), kind: plain, ..c.clone() };
    let ev = Case { ast: explicit_v(&c.ast, &c.skip), kind: plain, ..c.clone() };
    let mut m = er.model();
    let _ = m.tm(&er.ast, c.start, 0);
    let mut m2 = ev.model();
    let _ = m2.k(&ev.ast, c.start);
    if m.over || m2.over {
        return Ok(false);
    }
    let b = budget_for(m.steps.max(m2.steps));
    let g = run_match(c, b)?;
    let e = run_match(&er, b)?;
    observe(o, c, &g.mon);
    observe(o, &er, &e.mon);
    // the span of the whole begins after the skipped input in the skipping
    // context; written out, the skip is part of the pattern
    if g.res.is_ok() != e.res.is_ok() || g.off != e.off {
        return Err(format!(
            "skipping context: {:?} at {}; plain context with the skip written out: {:?} at {}",
            g.res, g.off, e.res, e.off
        ));
    }
    let k = run_ctor(c, b)?;
    let x = run_ctor(&ev, b)?;
    observe(o, c, &k.mon);
    observe(o, &ev, &x.mon);
    let (kv, xv) = (k.res.as_ref().map(|v| v.erase()), x.res.as_ref().map(|v| v.erase()));
    if kv.is_ok() != xv.is_ok() || (kv.is_ok() && (kv != xv || k.off != x.off)) {
        return Err(format!(
            "skipping context constructs {kv:?} at {}; plain context with the skip written out: {xv:?} at {}",
            k.off, x.off
        ));
    }
    // spans given to the handler never begin inside skippable input
    Ok(k.mon.nonempty_oks > 0)
}

const BLANKS: [char; 4] = [' ', '\t', '\n', '\r'];

/// tokens can never match what is skipped, and nothing depends on offsets
fn blankless(a: &Ast) -> bool {
    let cls = |c: &Cls| BLANKS.iter().all(|b| !c.has(*b as u32));
    let cond = |c: &CondK| !matches!(c, CondK::Rx(_) | CondK::RxNot(_)) && match c { CondK::Cls(_) | _ => true };
    let mut ok = true;
    a.walk(&mut |x| {
        ok &= match &x.k {
            K::Lit(b, _) => !b.is_empty() && b.iter().all(|x| !BLANKS.contains(&(*x as char))),
            K::Unit(c, _, k) => cls(c) && cond(k),
            K::Unit2(c, d, k) => cls(c) && cls(d) && cond(k),
            K::Func(c) => cls(c),
            K::Branch(TestK::Peek(c), ..) => cls(c),
            K::Branch(TestK::Off(_), ..) => false,
            K::Consume(_) | K::ConsumeAll | K::Start => false,
            K::DynR(..) | K::DynC(..) | K::TryMap(..) => false,
            _ => true,
        }
    });
    ok
}

/// the value with its leaves replaced by the matched text without blanks
fn texts(v: &Val, inp: &[u8]) -> String {
    match v {
        Val::Leaf(_, b, l) | Val::Live(_, b, l) => format!(
            "{:?}",
            inp[*b..b + l].iter().filter(|x| !BLANKS.contains(&(**x as char))).collect::<Vec<_>>()
        ),
        Val::Pair(a, b) => format!("({},{})", texts(a, inp), texts(b, inp)),
        Val::Opt(o) => format!("opt({})", o.as_ref().map(|v| texts(v, inp)).unwrap_or_default()),
        Val::List(v) => format!("{:?}", v.iter().map(|x| texts(x, inp)).collect::<Vec<_>>()),
        Val::Arr(v) => format!("a{:?}", v.iter().map(|x| x.as_ref().map(|x| texts(x, inp))).collect::<Vec<_>>()),
        Val::Key(k, v) | Val::Mapped(k, v) => format!("{k}:{}", texts(v, inp)),
    }
}

/// the same tokens with other amounts of blanks between them
fn respace(r: &mut Rng, inp: &[u8], text: bool) -> Vec<u8> {
    let mut out = vec![];
    let mut p = 0;
    let mut in_run = false;
    while let Some((c, l)) = decode(inp, p, text) {
        let blank = char::from_u32(c).is_some_and(|c| BLANKS.contains(&c));
        if !blank {
            out.extend_from_slice(&inp[p..p + l]);
        } else if !in_run {
            for _ in 0..r.range(1, 4) {
                out.push(*r.pick(&BLANKS) as u8);
            }
        }
        in_run = blank;
        p += l;
    }
    out
}

fn by_respacing(c: &Case, other: &[u8], o: &mut Obs) -> Result<bool, String> {
    let d = Case { inp: other.to_vec(), ..c.clone() };
    let (mut m, mut n) = (c.model(), c.model());
    let _ = m.k(&c.ast, 0);
    let _ = n.tm(&c.ast, 0, 0);
    if m.over || n.over {
        return Ok(false);
    }
    let b = budget_for(m.steps.max(n.steps)) * 2;
    let (x, y) = (run_ctor(c, b)?, run_ctor(&d, b)?);
    observe(o, c, &x.mon);
    observe(o, &d, &y.mon);
    let t = |r: &Result<Val, neure::err::Error>, i: &[u8]| r.as_ref().ok().map(|v| texts(v, i));
    if t(&x.res, &c.inp) != t(&y.res, &d.inp) {
        return Err(format!(
            "the value depends on the amount of skipped input: {:?} / {:?} gives {:?}",
            t(&x.res, &c.inp),
            show_input(&d.inp, true),
            t(&y.res, &d.inp)
        ));
    }
    let (x, y) = (run_match(c, b)?, run_match(&d, b)?);
    let rest = |i: &[u8], at: usize| i[..at].iter().filter(|x| !BLANKS.contains(&(**x as char))).count();
    if x.res.is_ok() != y.res.is_ok() || rest(&c.inp, x.off) != rest(&d.inp, y.off) {
        return Err(format!(
            "matching depends on the amount of skipped input: {:?} / {:?} gives {:?}",
            x.res,
            show_input(&d.inp, true),
            y.res
        ));
    }
    Ok(x.mon.nonempty_oks > 0)
}

/// the ready-made skipping contexts
fn ready<'a, C: HCtx<'a>>(ctx: &mut C, c: &Case, cls: Cls, o: &mut Obs) -> Result<bool, String> {
    let skip = Ast::new(K::Unit(cls, Op::Many0, CondK::None));
    let d = Case { skip, kind: if C::TEXT { Kind::PText } else { Kind::PBytes }, ..c.clone() };
    let mut m = d.model();
    let want = m.tm(&c.ast, c.start, 0);
    let mut m2 = d.model();
    let wk = m2.k(&c.ast, c.start);
    if m.over || m2.over {
        return Ok(false);
    }
    let b = budget_for(m.steps.max(m2.steps));
    let g = match_on(ctx, &c.ast, c.start, b)?;
    let k = ctor_on(ctx, &c.ast, c.start, &c.rej, b)?;
    observe(o, &d, &g.mon);
    observe(o, &d, &k.mon);
    let gt: Tops = (g.res, g.off);
    match (&want, &gt.0) {
        (Ok(w), Ok((b, l))) if (w.beg, w.end) == (*b, b + l) && w.end == g.off => {}
        (Err(_), Err(_)) => {}
        _ => return Err(format!("ready-made skipping context: {gt:?}, reference {want:?}")),
    }
    match (&wk, &k.res) {
        (Ok((v, e)), Ok(x)) if *v == x.erase() && *e == k.off => {}
        (Err(_), Err(_)) => {}
        _ => return Err(format!("ready-made skipping context: {:?}, reference {wk:?}", k.res)),
    }
    Ok(g.mon.nonempty_oks > 0)
}

fn case(r: &mut Rng, o: &mut Obs) -> Result<(), String> {
    let kinds = &[Kind::PText, Kind::PBytes];
    match r.below(10) {
        0..=3 => {
            let w = Want { try_map: true, rej: r.chance(1, 5), long: true, ..Want::new(kinds) };
            let (c, _) = gen_case(r, &w);
            o.count("judged_by_reference");
            verdict(o, c, &by_reference)
        }
        4..=6 => {
            let kind = *r.pick(kinds);
            let w = Want { try_map: true, ..Want::new(kinds) };
            let mut g = cfg_for(r, kind, &w);
            g.dynr = false;
            let ast = gen_ast(r, &g);
            let skip = gen_skip(r);
            let (inp, start) = gen_input(r, &g, &ast, Some(&skip));
            let rej = if r.chance(1, 5) { gen_rej(r) } else { Rej::None };
            o.count("judged_by_spelling_the_skip_out");
            verdict(o, Case { ast, inp, start, rej, kind, skip }, &by_spelling_out)
        }
        7..=8 => {
            let kind = *r.pick(kinds);
            let w = Want::new(kinds);
            let mut g = cfg_for(r, kind, &w);
            g.alpha.retain(|c| !BLANKS.contains(c));
            g.dynr = false;
            g.text_classes = false;
            g.conds = r.flip();
            g.policy = true;
            let mut ast = gen_ast(r, &g);
            let mut n = 0;
            while !blankless(&ast) {
                n += 1;
                if n > 40 {
                    return Ok(());
                }
                g.depth = g.depth.min(3);
                ast = gen_ast(r, &g);
            }
            let skip = Ast::new(K::Unit(Cls::AsciiWs, Op::Many0, CondK::None));
            let ws = Ast::new(K::Unit(Cls::One(' '), Op::Many1, CondK::None));
            let (inp, _) = gen_input(r, &g, &ast, Some(&ws));
            let c = Case { ast, inp, start: 0, rej: Rej::None, kind, skip };
            let other = respace(r, &c.inp, kind.text());
            o.count("judged_by_varying_the_skipped_input");
            let seen = std::cell::Cell::new(0);
            let first = c.inp.clone();
            verdict(o, c, &|c, o| {
                // shrinking must keep both inputs in step
                if c.inp != first {
                    return Ok(false);
                }
                seen.set(seen.get() + 1);
                by_respacing(c, &other, o)
            })
        }
        _ => {
            let text = r.chance(2, 3);
            let kind = if text { Kind::PText } else { Kind::PBytes };
            let mut g = cfg_for(r, kind, &Want::new(kinds));
            if text {
                g.consume = false;
                g.alpha.push(*r.pick(&['\u{a0}', '\u{2003}', '\u{3000}', '\t', '\u{b}', '\u{c}']));
            }
            let ast = gen_ast(r, &g);
            let which = r.below(2);
            let cls = if text && which == 0 { Cls::Ws } else { Cls::AsciiWs };
            let skip = Ast::new(K::Unit(cls.clone(), Op::Many0, CondK::None));
            let (inp, start) = gen_input(r, &g, &ast, Some(&skip));
            o.count("ready_made_skipping_contexts");
            let c = Case { ast, inp, start, rej: Rej::None, kind, skip };
            verdict(o, c, &|c, o| match (text, which) {
                (true, 0) => ready(&mut PWs::mk(&c.inp), c, Cls::Ws, o),
                (true, _) => ready(&mut PAsciiT::mk(&c.inp), c, Cls::AsciiWs, o),
                _ => ready(&mut PAsciiB::mk(&c.inp), c, Cls::AsciiWs, o),
            })
        }
    }
}

fn main() {
    run(
        Plan {
            quick: 900_000,
            assumptions: &["policies skip everything they can at once (skipping twice is skipping once)"],
            ..Plan::new("C12", "a random grammar under a skip policy (blanks, sets, comments, the ready-made ones) on input with skippable text sprinkled in; judged by the reference, by the plain context with the skip written out, and by varying the skipped text; non-trivial when something non-empty matched")
        },
        case,
    )
}
