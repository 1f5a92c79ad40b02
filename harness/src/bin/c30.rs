//! C30: user code is called in the written order, and only when its outcome
//! can matter.
use nverif::ast::*;
use neure::ctor::Ctor;
use nverif::case::*;
use nverif::ctxs::*;
use nverif::build::rec_build;
use nverif::drv::{guarded, run, Obs, Plan};
use nverif::generate::terminates;
use nverif::on_kind;
use nverif::probe::*;
use nverif::rng::Rng;
use std::collections::HashMap;

/// every leaf becomes a spy with a number of its own
fn spied(a: &Ast, r: &mut Rng, n: &mut u32) -> Ast {
    let k = match &a.k {
        // a leaf, or one whose only parts are conditions
        K::Lit(..) | K::Unit(..) | K::Unit2(..) | K::Start | K::End | K::Consume(_) | K::ConsumeAll
        | K::Empty | K::Fail | K::Func(_) | K::NoneP | K::Spy(..) => {
            *n += 1;
            K::Spy(*n << 18 | (r.next() as u32 & 0xffff) << 2 | r.below(4) as u32, !a.nullable())
        }
        K::DynR(x, d) => K::DynR(Box::new(spied(x, r, n)), dynk(d, r, n)),
        K::DynC(x, d) => K::DynC(Box::new(spied(x, r, n)), dynk(d, r, n)),
        _ => return map_parts(a, &mut |x, _| spied(x, r, n)),
    };
    Ast::new(k)
}

fn dynk(d: &DynK, r: &mut Rng, n: &mut u32) -> DynK {
    match d {
        DynK::Fixed(a) => DynK::Fixed(Box::new(spied(a, r, n))),
        DynK::Move(a) => DynK::Move(Box::new(spied(a, r, n))),
        d => d.clone(),
    }
}

fn differ(want: &[Ev], got: &[Ev], how: &str) -> Result<(), String> {
    if want == got {
        return Ok(());
    }
    let i = want.iter().zip(got).take_while(|(a, b)| a == b).count();
    let show = |v: &[Ev]| match v.get(i) {
        Some(e) => format!("{e:?}"),
        None => "nothing more".to_string(),
    };
    Err(format!(
        "{how}: call {} into user code is {}, the written order asks for {} (after {:?}; {} calls, {} expected)",
        i + 1,
        show(got),
        show(want),
        &want[i.saturating_sub(3)..i],
        got.len(),
        want.len()
    ))
}

/// same part twice at one place, untried parts: what the trace looked like
fn shape(o: &mut Obs, c: &Case, t: &[Ev]) -> bool {
    let mut at: HashMap<(u32, usize), u64> = HashMap::new();
    let mut tried = std::collections::HashSet::new();
    let mut failed = 0;
    for e in t {
        o.events += 1;
        match e {
            Ev::Part(id, p, x) => {
                *at.entry((*id, *p)).or_default() += 1;
                tried.insert(*id);
                failed += x.is_none() as u64;
                o.count(if x.is_some() { "parts matched" } else { "parts failed" });
            }
            Ev::Test(..) => o.count("tests asked"),
            Ev::Build(_) => o.count("builders called"),
            Ev::Handle(.., ok) => o.count(if *ok { "handler calls" } else { "handler refusals" }),
            Ev::Map(_) => o.count("mappers called"),
            Ev::TryMap(ok) => o.count(if *ok { "refusing mappers called" } else { "mapper refusals" }),
        }
    }
    let mut all = 0;
    c.ast.walk(&mut |x| all += matches!(x.k, K::Spy(..)) as u64);
    o.add("parts never tried", all.saturating_sub(tried.len() as u64));
    o.max("calls in one run", t.len() as u64);
    failed > 0 && tried.len() > 1
}

type Runs = (Option<(Out<(usize, usize)>, Vec<Ev>)>, Option<(Out<Val>, Vec<Ev>)>);

/// both ways of running a recursive parser
fn run_rec<'a, C: HCtx<'a>>(ctx: &mut C, c: &Case, form: u8, b: (u64, u64)) -> Result<Runs, String> {
    guarded(|| {
        let p = rec_build::<C>(&c.ast, form);
        ctx.set_offset(c.start);
        mon_reset(b.0);
        trace_on();
        let res = ctx.try_mat(&p).map(|s| (s.beg, s.len));
        let m = Out { res, off: ctx.offset(), mon: mon_take(), log: vec![] };
        let tm = trace_take();
        ctx.set_offset(c.start);
        mon_reset(b.1);
        let mut h = Rec::new(c.rej.clone());
        trace_on();
        let res = p.construct(ctx, &mut h);
        let k = Out { res, off: ctx.offset(), mon: mon_take(), log: h.log };
        (Some((m, tm)), Some((k, trace_take())))
    })
}

fn check(c: &Case, form: u8, o: &mut Obs) -> Result<bool, String> {
    let mut hit = false;
    let mut dync = false;
    c.ast.walk(&mut |x| dync |= matches!(x.k, K::DynC(..)));
    let rec = has_self(&c.ast);
    let traced = || {
        let mut m = c.model();
        m.trace = Some(vec![]);
        m.rec = rec.then_some(&c.ast);
        m
    };
    let (mut m, mut k) = (traced(), traced());
    let want_m = if dync { None } else { Some(m.tm(&c.ast, c.start, 0)) };
    let want_k = k.k(&c.ast, c.start);
    let b = (budget_for(m.steps), budget_for(k.steps));
    let (runs_m, runs_k) = if rec {
        if m.over || k.over {
            return Ok(false);
        }
        o.max("recursion depth", m.max_rec.max(k.max_rec) as u64);
        on_kind!(c, |ctx| run_rec(ctx, c, form, b))?
    } else {
        let x = if dync || m.over {
            None
        } else {
            trace_on();
            let got = run_match(c, b.0);
            let t = trace_take();
            Some((got?, t))
        };
        let y = if k.over {
            None
        } else {
            trace_on();
            let got = run_ctor(c, b.1);
            let t = trace_take();
            Some((got?, t))
        };
        (x, y)
    };
    if let (Some((got, t)), Some(want)) = (runs_m, want_m) {
        observe(o, c, &got.mon);
        hit |= shape(o, c, &t);
        differ(m.trace.as_ref().unwrap(), &t, "matching")?;
        if want.as_ref().ok().map(|w| w.end) != got.res.as_ref().ok().map(|_| got.off) {
            return Err(format!("reference {want:?}, the library {:?} at {}", got.res, got.off));
        }
    }
    if let Some((got, t)) = runs_k {
        observe(o, c, &got.mon);
        hit |= shape(o, c, &t);
        differ(k.trace.as_ref().unwrap(), &t, "construction")?;
        let (w, g) = (want_k.map(|(v, p)| (v.erase(), p)), got.res.map(|v| (v.erase(), got.off)));
        if w.as_ref().ok() != g.as_ref().ok() {
            return Err(format!("reference constructs {w:?}, the library {g:?}"));
        }
    }
    Ok(hit)
}

fn case(r: &mut Rng, o: &mut Obs) -> Result<(), String> {
    let w = Want {
        depth: if o.thorough { 6 } else { 5 },
        rej: true,
        try_map: true,
        dync: r.chance(1, 3),
        ..Want::new(ALL)
    };
    let rec = r.chance(1, 6);
    let w = if rec { Want { depth: 3, dync: false, ..w } } else { w };
    let (mut c, g) = gen_case(r, &w);
    let form = r.below(5) as u8;
    if rec {
        let mut n = 0;
        let a = unlock(&recursive(r, &g, &c.ast, true, 4, &mut n));
        if has_self(&a) && terminates(&a) {
            c.ast = a;
            o.count("recursive grammars");
        }
    }
    for b in c.inp.iter_mut() {
        if *b >= 0x80 {
            *b = b'x';
        }
    }
    let mut n = 0;
    c.ast = spied(&c.ast, r, &mut n);
    verdict(o, c, &|c, o| check(c, form, o))
}

fn main() {
    run(
        Plan {
            assumptions: &[
                "the reference interpreter in harness/src/model.rs tries parts in the order they are written, stops where the outcome is decided, and asks each once",
            ],
            ..Plan::new("C30", "a random grammar whose leaves are user-implemented parsers with outcomes of their own, matched and constructed with every call into user code recorded; non-trivial when some part failed and more than one was tried")
        },
        case,
    )
}
