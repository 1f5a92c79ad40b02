//! C21: dynamically built parsers see and continue from the right place.
//! The builder functions record what they are given and where the context
//! stands; the log and the outcome are judged against the reference.
use neure::ctor::{CtorOps, DynamicCtorThenBuilderHelper};
use neure::ctx::{Context, Match};
use neure::err::Error;
use neure::regex::{self, DynamicRegexBuilderHelper};
use neure::span::Span;
use nverif::ast::*;
use nverif::build::*;
use nverif::case::*;
use nverif::ctxs::HCtx;
use nverif::drv::{guarded, run, Obs, Plan};
use nverif::generate::*;
use nverif::model::Model;
use nverif::on_kind;
use nverif::probe::*;
use nverif::rng::Rng;
use std::cell::RefCell;
use std::ops::Bound;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
enum B {
    /// a literal equal to what was matched
    Backref,
    /// as many elements as what was matched is long
    Count(Cls),
    /// as many elements as the first matched byte says, modulo 5
    Prefixed(Cls),
    Fixed(Ast),
    /// one of two, by what was matched
    Pick(Ast, Ast),
    /// moves over one more element
    Forward(Ast),
    /// goes back to where the match began
    Back(Ast),
    /// goes to where the input ends
    Last(Ast),
    Err,
    /// moves, then fails
    MoveErr,
}

/// what the builder makes of a match `beg..end` when it stands at `pos`
fn plan(b: &B, inp: &[u8], text: bool, beg: usize, end: usize, pos: usize) -> (usize, Option<Ast>) {
    let step = |p: usize| nverif::model::decode(inp, p, text).map_or(p, |x| p + x.1);
    let times = |c: &Cls, n: usize| {
        let n = Bound::Included(n);
        Ast::new(K::Unit(c.clone(), Op::Times((n, n)), CondK::None))
    };
    match b {
        B::Backref => (pos, Some(Ast::new(K::Lit(inp[beg..end].to_vec(), 1)))),
        B::Count(c) => (pos, Some(times(c, end - beg))),
        B::Prefixed(c) => (pos, Some(times(c, inp[beg..end].first().map_or(0, |x| *x as usize % 5)))),
        B::Fixed(a) => (pos, Some(a.clone())),
        B::Pick(x, y) => (pos, Some(if (end - beg) % 2 == 0 { x.clone() } else { y.clone() })),
        B::Forward(a) => (step(pos), Some(a.clone())),
        B::Back(a) => (beg, Some(a.clone())),
        B::Last(a) => (inp.len(), Some(a.clone())),
        B::Err => (pos, None),
        B::MoveErr => (step(pos), None),
    }
}

#[derive(Clone, Debug, PartialEq)]
struct Call {
    beg: usize,
    len: usize,
    /// where the context stood
    off: usize,
    value: Option<Val>,
}
type Log = Rc<RefCell<Vec<Call>>>;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Form {
    /// plain matching of the regex builder, by function or method
    Match(bool),
    /// its construction
    MatchCtor(bool),
    /// through `pat`
    Pat,
    Pair,
    Sel0,
    Sel1,
}
const FORMS: &[Form] = &[
    Form::Match(false),
    Form::Match(true),
    Form::MatchCtor(false),
    Form::MatchCtor(true),
    Form::Pat,
    Form::Pair,
    Form::Pair,
    Form::Pair,
    Form::Sel0,
    Form::Sel1,
];

fn build_dyn<'a, C: HCtx<'a>>(first: &Ast, b: &B, inp: Rc<Vec<u8>>, form: Form, log: Log) -> Dyn<'a, C> {
    let make = {
        let b = b.clone();
        move |ctx: &mut C, beg: usize, len: usize| -> Result<Dyn<'a, C>, Error> {
            let here = ctx.offset();
            let end = (beg + len).min(inp.len());
            let (to, next) = plan(&b, &inp, C::TEXT, beg.min(end), end, here);
            if to != here {
                ctx.set_offset(to);
            }
            match next {
                Some(a) => Ok(build::<C>(&a)),
                None => Err(e_build()),
            }
        }
    };
    let p = build::<C>(first);
    match form {
        Form::Match(m) | Form::MatchCtor(m) => {
            let f = move |ctx: &mut C, s: &Span| {
                log.borrow_mut().push(Call { beg: s.beg, len: s.len, off: ctx.offset(), value: None });
                make(ctx, s.beg, s.len)
            };
            if m {
                Box::new(DynamicRegexBuilderHelper::<'a, C>::into_regex_builder(p, f))
            } else {
                Box::new(regex::into_regex_builder(p, f))
            }
        }
        Form::Pat => {
            let f = move |ctx: &mut C, s: &Span| {
                log.borrow_mut().push(Call { beg: s.beg, len: s.len, off: ctx.offset(), value: None });
                make(ctx, s.beg, s.len)
            };
            Box::new(CtorOps::<'a, C>::pat(regex::into_regex_builder(p, f)))
        }
        Form::Pair | Form::Sel0 | Form::Sel1 => {
            let f = move |ctx: &mut C, v: &Val| {
                let (beg, len) = v.first_leaf().unwrap_or((0, 0));
                log.borrow_mut().push(Call { beg, len, off: ctx.offset(), value: Some(v.clone()) });
                make(ctx, beg, len)
            };
            let d = DynamicCtorThenBuilderHelper::<'a, C>::into_ctor_then_builder::<_, Val, Dyn<'a, C>>(p, f);
            let pair = |v: (Val, Val)| Val::Pair(Box::new(v.0), Box::new(v.1));
            match form {
                Form::Pair => conv(d, pair),
                Form::Sel0 => conv(d._0::<(Val, Val)>(), |v: Val| v),
                _ => conv(d._1::<(Val, Val)>(), |v: Val| v),
            }
        }
    }
}

#[derive(Debug)]
struct Want_ {
    call: Option<Call>,
    /// span of a match
    span: Option<(usize, usize)>,
    value: Option<Val>,
    /// position afterwards, when determined
    off: Option<usize>,
    /// spans handed to the handler
    built: bool,
}

fn expect(m: &mut Model, c: &Case, b: &B, form: Form, start: usize) -> Want_ {
    let text = c.kind.text();
    let fail = |call: Option<Call>, off: Option<usize>| Want_ { call, span: None, value: None, off, built: false };
    match form {
        Form::Match(_) | Form::MatchCtor(_) | Form::Pat => {
            let Ok(s) = m.tm(&c.ast, start, 0) else { return fail(None, Some(start)) };
            let call = Some(Call { beg: s.beg, len: s.end - s.beg, off: s.end, value: None });
            let (to, next) = plan(b, &c.inp, text, s.beg, s.end, s.end);
            let Some(next) = next else { return fail(call, Some(start)) };
            let Ok(t) = m.tm(&next, to, 0) else { return fail(call, Some(start)) };
            let (beg, len) = (t.beg, t.end - t.beg);
            if form == Form::Match(true) || form == Form::Match(false) {
                return Want_ { call, span: Some((beg, len)), value: None, off: Some(t.end), built: true };
            }
            if c.rej.rejects(beg, len) {
                // rejected after the match: where a lone construction then
                // stands is not stated
                return Want_ { built: true, ..fail(call, None) };
            }
            Want_ { call, span: None, value: Some(Val::Leaf(0, beg, len)), off: Some(t.end), built: true }
        }
        Form::Pair | Form::Sel0 | Form::Sel1 => {
            let Ok((v, e)) = m.k(&c.ast, start) else { return fail(None, Some(start)) };
            let (beg, len) = v.first_leaf().unwrap_or((0, 0));
            let call = Some(Call { beg, len, off: e, value: Some(v.clone()) });
            let (to, next) = plan(b, &c.inp, text, beg, beg + len, e);
            let Some(next) = next else { return fail(call, Some(start)) };
            let Ok((w, e2)) = m.k(&next, to) else { return fail(call, Some(start)) };
            let value = match form {
                Form::Pair => Val::Pair(Box::new(v), Box::new(w)),
                Form::Sel0 => v,
                _ => w,
            };
            Want_ { call, span: None, value: Some(value), off: Some(e2), built: true }
        }
    }
}

fn check(c: &Case, b: &B, form: Form, o: &mut Obs) -> Result<bool, String> {
    // two runs of one parser: at the start, then from where it ended (or at 0)
    let mut starts = vec![c.start];
    let inp = Rc::new(c.inp.clone());
    let log: Log = Default::default();
    let mut nontrivial = false;
    on_kind!(c, |ctx| {
        let p = guarded(|| build_dyn(&c.ast, b, inp.clone(), form, log.clone()))?;
        let mut i = 0;
        while i < starts.len() {
            let start = starts[i];
            i += 1;
            let mut m = c.model();
            let want = expect(&mut m, c, b, form, start);
            if m.over {
                return Ok(false);
            }
            log.borrow_mut().clear();
            let mut h = Rec::new(c.rej.clone());
            let plain = matches!(form, Form::Match(_));
            let (span, value, off) = guarded(|| {
                ctx.set_offset(start);
                mon_reset(budget_for(m.steps));
                if plain {
                    let s = ctx.try_mat(&p);
                    (Some(s.map(|s| (s.beg, s.len))), None, ctx.offset())
                } else {
                    let v = ctor_with(ctx, &p, &mut h);
                    (None, Some(v.map(|v| v.erase())), ctx.offset())
                }
            })?;
            let mon = mon_take();
            o.events += mon.events + log.borrow().len() as u64 + h.log.len() as u64;
            let calls: Vec<Call> = log
                .borrow()
                .iter()
                .map(|c| Call { value: c.value.as_ref().map(|v| v.erase()), ..c.clone() })
                .collect();
            let expected: Vec<Call> = want
                .call
                .iter()
                .map(|c| Call { value: c.value.as_ref().map(|v| v.erase()), ..c.clone() })
                .collect();
            if calls != expected {
                return Err(format!("run at {start}: the builder was called with {calls:?}, expected {expected:?}"));
            }
            let ok = match (&span, &value) {
                (Some(s), _) => {
                    let got = s.ok();
                    if got != want.span {
                        return Err(format!("run at {start}: matches {s:?}, expected {:?}", want.span));
                    }
                    got.is_some()
                }
                (_, Some(v)) => {
                    let got = v.clone().ok();
                    let exp = want.value.as_ref().map(|v| v.erase());
                    if got != exp {
                        return Err(format!("run at {start}: constructs {v:?}, expected {exp:?}"));
                    }
                    got.is_some()
                }
                _ => panic!("harness: no outcome"),
            };
            if let Some(e) = want.off {
                if off != e {
                    return Err(format!(
                        "run at {start}: {} and stands at {off}, expected {e}",
                        if ok { "succeeds" } else { "fails" }
                    ));
                }
            }
            if matches!(form, Form::MatchCtor(_) | Form::Pat) && h.log.len() != want.built as usize {
                return Err(format!("run at {start}: {} values handed to the handler, expected {}", h.log.len(), want.built as usize));
            }
            if !calls.is_empty() {
                nontrivial = true;
                o.count(match (ok, want.built) {
                    (true, _) => "built_and_continued",
                    (false, true) => "built_and_rejected",
                    _ if matches!(b, B::Err | B::MoveErr) => "builder_failed",
                    _ => "built_and_failed_to_continue",
                });
            }
            if starts.len() < 3 {
                let bs = bounds(&c.inp, c.kind.text());
                starts.push(if ok { off } else { bs[(start + i) % bs.len()] });
            }
        }
        Ok(nontrivial)
    })
}

fn gen_b(r: &mut Rng, g: &Cfg, value: bool) -> B {
    match r.below(14) {
        0 | 1 => B::Backref,
        2 => B::Count(gen_cls(r, g, 1)),
        3 => B::Prefixed(gen_cls(r, g, 1)),
        4 | 5 => B::Fixed(gen_r(r, g, 2, value)),
        6 | 7 => B::Pick(gen_r(r, g, 2, value), gen_r(r, g, 1, value)),
        8 | 9 => B::Forward(gen_r(r, g, 2, value)),
        10 => B::Back(gen_r(r, g, 2, value)),
        11 => B::Last(gen_r(r, g, 1, value)),
        12 => B::Err,
        _ => B::MoveErr,
    }
}

/// whole grammars with dynamic parts anywhere
fn composed(c: &Case, o: &mut Obs) -> Result<bool, String> {
    let mut has = false;
    let mut dync = false;
    c.ast.walk(&mut |a| {
        has |= matches!(a.k, K::DynR(..) | K::DynC(..));
        dync |= matches!(a.k, K::DynC(..));
    });
    let mut m = c.model();
    let want = m.k(&c.ast, c.start);
    if m.over {
        return Ok(false);
    }
    let k = run_ctor(c, budget_for(m.steps))?;
    observe(o, c, &k.mon);
    match (&want, &k.res) {
        (Ok((v, e)), Ok(r)) => {
            if *v != r.erase() || *e != k.off {
                return Err(format!("constructs {:?} up to {}, reference {:?} up to {e}", r.erase(), k.off, v));
            }
        }
        (Err(_), Err(_)) => {}
        (w, r) => return Err(format!("construction gives {r:?}, reference {w:?}")),
    }
    if let Some(v) = &k.mon.restore_viol {
        return Err(format!("position not restored: {v}"));
    }
    if !dync {
        let mut m = c.model();
        let want = m.tm(&c.ast, c.start, 0);
        if m.over {
            return Ok(false);
        }
        let k = run_match(c, budget_for(m.steps))?;
        let got = k.res.map(|s| (s.0, s.0 + s.1)).ok();
        let exp = want.map(|m| (m.beg, m.end)).ok();
        if got != exp {
            return Err(format!("matches {got:?}, reference {exp:?}"));
        }
        if let Some(v) = &k.mon.restore_viol {
            return Err(format!("position not restored: {v}"));
        }
    }
    Ok(has && k.mon.nonempty_oks > 0)
}

fn case(r: &mut Rng, o: &mut Obs) -> Result<(), String> {
    if r.chance(1, 3) {
        let w = Want {
            rej: r.chance(1, 3),
            try_map: false,
            dync: r.chance(1, 2),
            depth: if o.thorough { 5 } else { 4 },
            focus: Some(Focus::Dyn),
            ..Want::new(ALL)
        };
        let (c, _) = gen_case(r, &w);
        return verdict(o, c, &composed);
    }
    let form = *r.pick(FORMS);
    let value = matches!(form, Form::Pair | Form::Sel0 | Form::Sel1);
    let w = Want { rej: r.chance(1, 3), depth: 2, dync: false, ..Want::new(ALL) };
    let kind = *r.pick(w.kinds);
    let g = cfg_for(r, kind, &w);
    let first = gen_r(r, &g, 2, value);
    let b = gen_b(r, &g, value);
    // the input is made for the first pattern and what is likely to follow it
    let follow = match &b {
        B::Fixed(a) | B::Forward(a) | B::Back(a) | B::Last(a) | B::Pick(a, _) => a.clone(),
        B::Backref => first.clone(),
        B::Count(c) | B::Prefixed(c) => Ast::new(K::Unit(c.clone(), Op::Many0, CondK::None)),
        _ => first.clone(),
    };
    let skip = gen_skip(r);
    let both = Ast::new(K::Then(Box::new(first.clone()), Box::new(follow)));
    let (inp, start) = gen_input(r, &g, &both, if kind.policy() { Some(&skip) } else { None });
    let mut inp = inp;
    if b == B::Backref && r.chance(2, 3) {
        // repeat what the first pattern matches
        let mut m = Model::new(&inp, kind.text());
        if let Ok(s) = m.tm(&first, start, 0) {
            let part = inp[s.beg..s.end].to_vec();
            inp.splice(s.end..s.end, part);
        }
    }
    let rej = if w.rej { gen_rej(r) } else { Rej::None };
    let c = Case { ast: first, inp, start, rej, kind, skip };
    let show = |c: &Case| format!("{}\nform {form:?} builder {b:?}", c.show());
    o.note(|| show(&c));
    match check(&c, &b, form, o) {
        Ok(nt) => {
            if nt {
                o.nontrivial(&(c.key(), format!("{b:?}{form:?}")));
            }
            Ok(())
        }
        Err(e) => {
            if !o.trace {
                return Err(e);
            }
            let scratch = RefCell::new(Obs::default());
            let s = shrink(&c, &|x| check(x, &b, form, &mut scratch.borrow_mut()).is_err());
            let e2 = check(&s, &b, form, &mut scratch.borrow_mut()).err().unwrap_or(e);
            Err(format!("{e2}\nshrunk to: {}", show(&s)))
        }
    }
}

fn main() {
    run(
        Plan {
            quick: 1_500_000,
            ..Plan::new("C21", "a random first pattern and builder function (back-reference, counted, length-prefixed, moving, failing), matched and constructed, alone and inside random grammars; non-trivial when the builder function was called")
        },
        case,
    )
}
