//! C23: parsing depends only on the parser, the input and the position.
//! Random histories of parses and context operations on long-lived parsers
//! and contexts; every step is compared with a fresh parser in a fresh
//! context at the same (data, offset).
use neure::ctx::{Assert, BytesCtx, CharsCtx, Context, CtxGuard, Match, MatchExt, PolicyMatch};
use neure::err::Error;
use neure::iter::IndexBySpan;
use neure::regex::Regex;
use neure::span::Span;
use nverif::ast::*;
use nverif::build::*;
use nverif::case::*;
use nverif::ctxs::*;
use nverif::drv::{guarded, run, Obs, Plan};
use nverif::generate::*;
use nverif::model::{decode, Model};
use nverif::on_kind;
use nverif::probe::*;
use nverif::rng::Rng;

type Outcome = (Result<(usize, usize), Error>, Option<Result<Val, Error>>, usize);

/// operations of one kind of context
trait Hist<'a>: HCtx<'a> {
    fn fresh(data: &'a [u8], skip: &Ast) -> Self;
    /// points an existing context at other data, in some way the type offers;
    /// returns where it then stands
    fn retarget(self, how: usize, data: &'a [u8], at: usize, skip: &Ast) -> (Self, usize);
    /// moves it, in some way the type offers
    fn rewind(self, how: usize, at: usize) -> (Self, usize);
    fn policy<P: Regex<Self> + ?Sized, B: Regex<Self> + ?Sized, A: Regex<Self> + ?Sized>(
        &mut self,
        _how: usize,
        _p: &P,
        _b: &B,
        _a: &A,
    ) -> Option<Result<Span, Error>> {
        None
    }
    fn by_span(&self, _s: &Span) -> Option<Option<Vec<u8>>> {
        None
    }
}

macro_rules! policy_mat {
    () => {
        fn policy<P: Regex<Self> + ?Sized, B: Regex<Self> + ?Sized, A: Regex<Self> + ?Sized>(
            &mut self,
            how: usize,
            p: &P,
            b: &B,
            a: &A,
        ) -> Option<Result<Span, Error>> {
            Some(match how % 3 {
                0 => self.try_mat_before(p, b),
                1 => self.try_mat_after(p, a),
                _ => self.try_mat_policy(p, b, a),
            })
        }
    };
}

macro_rules! regex_hist {
    ($t:ident, $conv:expr, $bytes:expr) => {
        impl<'a> Hist<'a> for $t<'a> {
            fn fresh(data: &'a [u8], _: &Ast) -> Self {
                $t::new($conv(data))
            }
            fn retarget(mut self, how: usize, data: &'a [u8], at: usize, _: &Ast) -> (Self, usize) {
                let old = self.offset();
                let ok = old <= data.len() && (!Self::TEXT || std::str::from_utf8(&data[..old]).is_ok());
                match how % 5 {
                    // keeps the position, which has to make sense in the new data
                    0 if ok => (self.with_dat($conv(data)), old),
                    1 => {
                        self.reset_with($conv(data));
                        (self, 0)
                    }
                    2 => ($t::with($conv(data), |c| c), 0),
                    3 => (self.with_dat($conv(data)).with_offset(at), at),
                    _ => ($t::new($conv(data)).with_offset(at), at),
                }
            }
            fn rewind(mut self, how: usize, at: usize) -> (Self, usize) {
                match how % 3 {
                    0 => {
                        self.reset();
                        (self, 0)
                    }
                    1 => (self.with_offset(at), at),
                    _ => {
                        self.set_offset(at);
                        (self, at)
                    }
                }
            }
            policy_mat!();
            fn by_span(&self, s: &Span) -> Option<Option<Vec<u8>>> {
                Some(self.get_by_span(s).map($bytes))
            }
        }
    };
}
regex_hist!(CharsCtx, text, |s: &str| s.as_bytes().to_vec());
regex_hist!(BytesCtx, |b| b, |s: &[u8]| s.to_vec());

macro_rules! user_hist {
    ($t:ident) => {
        impl<'a> Hist<'a> for $t<'a> {
            fn fresh(data: &'a [u8], _: &Ast) -> Self {
                $t::mk(data)
            }
            fn retarget(self, _: usize, data: &'a [u8], at: usize, _: &Ast) -> (Self, usize) {
                let mut n = $t::mk(data);
                n.off = at;
                (n, at)
            }
            fn rewind(mut self, _: usize, at: usize) -> (Self, usize) {
                self.off = at;
                (self, at)
            }
        }
    };
}
user_hist!(UText);
user_hist!(UBytes);

macro_rules! pol_hist {
    ($t:ident, $i:ident, $mk:ident, $conv:expr, $bytes:expr) => {
        impl<'a> Hist<'a> for $t<'a> {
            fn fresh(data: &'a [u8], skip: &Ast) -> Self {
                $mk(data, skip)
            }
            fn retarget(mut self, how: usize, data: &'a [u8], at: usize, skip: &Ast) -> (Self, usize) {
                let n = || $i::new($conv(data)).with_offset(at);
                match how % 6 {
                    0 => {
                        self.set_inner(n());
                        (self, at)
                    }
                    1 => (self.with_inner(n()), at),
                    2 => {
                        self.reset_with(n());
                        (self, at)
                    }
                    3 => {
                        self.inner_mut().reset_with($conv(data));
                        (self, 0)
                    }
                    4 => {
                        // another policy, then the old one again
                        let r: PolR<'a, $i<'a>> = std::rc::Rc::new(build::<$i<'a>>(skip));
                        (self.with_inner(n()).with_regex(neure::regex::empty()).with_regex(r), at)
                    }
                    _ => ($mk(data, skip).with_inner(n()), at),
                }
            }
            fn rewind(mut self, how: usize, at: usize) -> (Self, usize) {
                match how % 3 {
                    0 => {
                        self.inner_mut().reset();
                        (self, 0)
                    }
                    1 => {
                        self.inner_mut().set_offset(at);
                        (self, at)
                    }
                    _ => {
                        self.set_offset(at);
                        (self, at)
                    }
                }
            }
            policy_mat!();
            fn by_span(&self, s: &Span) -> Option<Option<Vec<u8>>> {
                Some(self.get_by_span(s).map($bytes))
            }
        }
    };
}
pol_hist!(PText, CharsCtx, pol_text, text, |s: &str| s.as_bytes().to_vec());
pol_hist!(PBytes, BytesCtx, pol_bytes, |b| b, |s: &[u8]| s.to_vec());

/// everything a parse of `p` at the context's position shows
fn outcome<'a, C: HCtx<'a>>(ctx: &mut C, p: &Dyn<'a, C>, rej: &Rej, both: bool, budget: u64) -> Result<Outcome, String> {
    guarded(|| {
        let at = ctx.offset();
        mon_reset(budget);
        let m = ctx.try_mat(p).map(|s| (s.beg, s.len));
        let end = ctx.offset();
        if !both {
            return (m, None, end);
        }
        ctx.set_offset(at);
        mon_reset(budget);
        let mut h = Rec::new(rej.clone());
        let v = ctor_with(ctx, p, &mut h);
        // what a lone rejected value leaves behind is not stated
        if v.is_err() {
            ctx.set_offset(at);
        }
        (m, Some(v), ctx.offset())
    })
}

struct World<'a> {
    asts: &'a [Ast],
    data: &'a [Vec<u8>],
    skip: &'a Ast,
    rej: Rej,
    text: bool,
    policy: bool,
}

impl<'a> World<'a> {
    fn model(&self, data: &'a [u8]) -> Model<'a> {
        let mut m = Model::new(data, self.text);
        if self.policy {
            m.skip = Some(self.skip);
        }
        m.rej = self.rej.clone();
        m
    }
    /// steps the reference needs; none when it does not end in time
    fn steps(&self, i: usize, data: &'a [u8], at: usize) -> Option<(u64, usize)> {
        let mut m = self.model(data);
        let _ = m.tm(&self.asts[i], at, 0);
        let _ = m.k(&self.asts[i], at);
        if m.over { None } else { Some((m.steps, m.reach)) }
    }
}

fn queries<'a, C: Hist<'a>>(ctx: &C, data: &[u8], at: usize, r: &mut Rng) -> Result<(), String> {
    let bs = bounds(data, C::TEXT);
    let fail = |w: String| Err(format!("context over {} at {at}: {w}", show_input(data, C::TEXT)));
    if ctx.len() != data.len() || ctx.is_empty() != data.is_empty() || ctx.offset() != at {
        return fail(format!("len {} is_empty {} offset {}", ctx.len(), ctx.is_empty(), ctx.offset()));
    }
    let rest = ctx.bytes_of(at, data.len() - at);
    if rest.as_deref() != Some(&data[at..]) {
        return fail(format!("rest is {rest:?}"));
    }
    let b = *r.pick(&bs);
    let e = *r.pick(&bs);
    let (b, e) = (b.min(e), b.max(e));
    if ctx.bytes_of(b, e - b).as_deref() != Some(&data[b..e]) {
        return fail(format!("part {b}..{e} is {:?}", ctx.bytes_of(b, e - b)));
    }
    if ctx.bytes_of(b, data.len() - b + 1).is_some() || ctx.bytes_of(data.len() + 1, 0).is_some() || ctx.bytes_of(1, usize::MAX).is_some() {
        return fail("gives data outside of itself".into());
    }
    if let Some(got) = ctx.by_span(&Span::new(b, e - b)) {
        if got.as_deref() != Some(&data[b..e]) {
            return fail(format!("by span {b}..{e} is {got:?}"));
        }
    }
    if let Some(Some(x)) = ctx.by_span(&Span::new(b, data.len() + 1 - b)) {
        return fail(format!("gives {x:?} for a span outside of itself"));
    }
    match (ctx.next_item(), decode(data, at, C::TEXT)) {
        (a, b) if a == b => {}
        (a, b) => return fail(format!("next element {a:?}, expected {b:?}")),
    }
    Ok(())
}

/// all elements an iterator yields
fn elements<'a, C, T>(ctx: &C, data: &[u8], from: usize) -> Result<(), String>
where
    T: HItem,
    C: HCtx<'a> + Context<'a, Item = T>,
{
    let mut want = vec![];
    let mut p = from;
    while let Some((c, w)) = decode(data, p, C::TEXT) {
        want.push((p - from, c));
        p += w;
    }
    let got: Vec<(usize, u32)> = ctx.peek_at(from).map_err(|e| format!("peek at {from}: {e:?}"))?.map(|x| (x.0, x.1.cp())).collect();
    if got != want {
        return Err(format!("elements from {from}: {got:?}, expected {want:?}"));
    }
    if ctx.peek_at(data.len() + 1).is_ok() {
        return Err("elements beyond the end".into());
    }
    Ok(())
}

fn history<'a, C, T>(w: &World<'a>, mut ctx: C, r: &mut Rng, o: &mut Obs, trace: &mut Vec<String>) -> Result<usize, String>
where
    T: HItem,
    C: Hist<'a> + Context<'a, Item = T>,
{
    let ps: Vec<Dyn<'a, C>> = w.asts.iter().map(|a| build::<C>(a)).collect();
    let mut data: &'a [u8] = &w.data[0];
    let mut at = 0;
    let mut parses = 0;
    let steps = r.range(4, 14);
    for _ in 0..steps {
        let bs = bounds(data, C::TEXT);
        let b = *r.pick(&bs);
        o.events += 1;
        match r.below(15) {
            0 => {
                let how = r.below(8);
                trace.push(format!("move {how} to {b}"));
                let n = ctx.rewind(how, b);
                (ctx, at) = n;
            }
            1 => {
                trace.push(format!("step to {b}"));
                if b >= at {
                    ctx.inc(b - at);
                } else {
                    ctx.dec(at - b);
                }
                at = b;
            }
            2 => {
                let d = &w.data[r.below(w.data.len())][..];
                let to = *r.pick(&bounds(d, C::TEXT));
                let how = r.below(12);
                trace.push(format!("retarget {how} to {} at {to}", show_input(d, C::TEXT)));
                (ctx, at) = ctx.retarget(how, d, to, w.skip);
                data = d;
            }
            3 => {
                // a copy goes its own way
                trace.push("copy".into());
                let mut c = ctx.clone();
                let i = r.below(ps.len());
                if let Some((s, _)) = w.steps(i, data, at) {
                    let x = outcome(&mut c, &ps[i], &w.rej, true, budget_for(s))?;
                    if c.offset() != x.2 {
                        return Err("harness: offset".into());
                    }
                }
                if r.chance(1, 2) {
                    c.set_offset(at);
                    ctx = c;
                } else {
                    c.set_offset(b);
                }
            }
            4 => {
                trace.push(format!("clone_at {b}"));
                let c = ctx.clone_at(b).map_err(|e| format!("clone_at {b}: {e:?}"))?;
                queries(&c, &data[b..], 0, r)?;
                if ctx.clone_at(data.len() + 1).is_ok() {
                    return Err("clone_at beyond the end succeeds".into());
                }
                if r.chance(1, 2) {
                    ctx = c;
                    data = &data[b..];
                    at = 0;
                }
            }
            5 => {
                // asking leaves everything as it was
                let i = r.below(ps.len());
                trace.push(format!("assert {i}"));
                let Some((s, _)) = w.steps(i, data, at) else { continue };
                let want = w.model(data).tm(&w.asts[i], at, 0).is_ok();
                let got = guarded(|| {
                    mon_reset(budget_for(s));
                    if r.chance(1, 2) { ctx.try_assert(&ps[i]) } else { Ok(ctx.assert(&ps[i])) }
                })?;
                if got != Ok(want) {
                    return Err(format!("assertion of parser {i} at {at}: {got:?}, reference {want}"));
                }
            }
            6 => {
                // a guard that fails gives back its input, one that does not keeps it
                let i = r.below(ps.len());
                trace.push(format!("guarded {i} from {at} via {b}"));
                let Some((s, _)) = w.steps(i, data, b) else { continue };
                let mode = r.below(4);
                let end = guarded(|| {
                    let mut g = CtxGuard::new(&mut ctx);
                    if g.beg() != at || g.end() != at || g.len() != data.len() || g.is_empty() != data.is_empty() {
                        return Err(format!("guard says beg {} end {} len {}", g.beg(), g.end(), g.len()));
                    }
                    let mut here = at;
                    if b > at {
                        let sp = g.inc(b - at);
                        if sp != Span::new(at, b - at) {
                            return Err(format!("guard stepped {sp:?}"));
                        }
                        here = b;
                    } else if b < at {
                        // the guarded part may move back as well
                        g.ctx().set_offset(b);
                        here = b;
                    }
                    if g.end() != here || g.beg() != at {
                        return Err(format!("guard at {} from {}", g.end(), g.beg()));
                    }
                    match mode {
                        0 => {
                            mon_reset(budget_for(s));
                            match g.try_mat(&ps[i]) {
                                Ok(s) => here = s.beg + s.len,
                                Err(_) => here = at,
                            }
                        }
                        1 => {
                            let _ = g.process_ret::<()>(Err(Error::Fail));
                            here = at;
                        }
                        2 => {
                            let _ = g.process_ret(Ok(()));
                        }
                        _ => {
                            g.reset();
                            here = at;
                        }
                    }
                    Ok(here)
                })??;
                if ctx.offset() != end {
                    return Err(format!("after the guard the context stands at {}, expected {end}", ctx.offset()));
                }
                at = end;
            }
            7 => {
                // match with something before and after, against a fresh run
                let (i, j, k) = (r.below(ps.len()), r.below(ps.len()), r.below(ps.len()));
                let how = r.below(3);
                trace.push(format!("policy match {how} of {i} with {j} before and {k} after"));
                let ok = |x: usize| bs.iter().all(|p| w.steps(x, data, *p).is_some());
                if data.len() > 12 || !(ok(i) && ok(j) && ok(k)) {
                    continue;
                }
                let got = guarded(|| {
                    mon_reset(5_000_000);
                    ctx.policy(how, &ps[i], &ps[j], &ps[k])
                })?;
                let Some(got) = got else { continue };
                let end = ctx.offset();
                let mut f = C::fresh(data, w.skip);
                f.set_offset(at);
                let (p, q, s) = (build::<C>(&w.asts[i]), build::<C>(&w.asts[j]), build::<C>(&w.asts[k]));
                let want = guarded(|| {
                    mon_reset(5_000_000);
                    let go = |f: &mut C| -> Result<Span, Error> {
                        if how != 1 {
                            q.try_parse(f)?;
                        }
                        let x = p.try_parse(f)?;
                        if how != 0 {
                            s.try_parse(f)?;
                        }
                        Ok(x)
                    };
                    go(&mut f)
                })?;
                let stop = if want.is_ok() { f.offset() } else { at };
                if got != want || end != stop {
                    return Err(format!("gives {got:?} and stands at {end}, spelled out {want:?} and {stop}"));
                }
                at = end;
                parses += 1;
            }
            8 => {
                trace.push("elements".into());
                elements(&ctx, data, b)?;
                elements(&ctx, data, at)?;
            }
            _ => {
                let i = r.below(ps.len());
                let both = r.chance(2, 3);
                trace.push(format!("parse {i} at {at}"));
                let Some((s, reach)) = w.steps(i, data, at) else { continue };
                let got = outcome(&mut ctx, &ps[i], &w.rej, both, budget_for(s))?;
                let mut f = C::fresh(data, w.skip);
                f.set_offset(at);
                let p = build::<C>(&w.asts[i]);
                let want = outcome(&mut f, &p, &w.rej, both, budget_for(s))?;
                if got != want {
                    return Err(format!("parser {i} used again at {at} of {} gives {got:?}, a fresh one {want:?}", show_input(data, C::TEXT)));
                }
                // what lies behind everything inspected does not matter
                if reach < data.len() {
                    let cut = *bs.iter().find(|b| **b >= reach.max(at)).expect("harness: boundary");
                    if cut < data.len() {
                        let mut other = data[..cut].to_vec();
                        let d = &w.data[r.below(w.data.len())];
                        match r.below(3) {
                            0 => {
                                // at least one element stays
                                let (_, l) = decode(data, cut, C::TEXT).expect("harness: element");
                                other.extend(&data[cut..cut + l]);
                                other.extend(d);
                            }
                            1 => other.extend(d.iter().chain(data[cut..].iter())),
                            _ => other.extend(data[cut..].iter().chain(d)),
                        }
                        other_suffix::<C>(w, i, &other, at, &got, both, s)?;
                        o.count("rest_of_input_replaced");
                    }
                }
                parses += 1;
                at = got.2;
                ctx.set_offset(at);
            }
        }
        queries(&ctx, data, at, r).map_err(|e| format!("after {:?}: {e}", trace.last()))?;
    }
    Ok(parses)
}

/// the same parse with another text behind what is inspected
fn other_suffix<'a, C: Hist<'a>>(w: &World, i: usize, other: &[u8], at: usize, got: &Outcome, both: bool, s: u64) -> Result<(), String> {
    let c = Case {
        ast: w.asts[i].clone(),
        inp: other.to_vec(),
        start: at,
        rej: w.rej.clone(),
        kind: match (w.text, w.policy) {
            (true, false) => Kind::Chars,
            (true, true) => Kind::PText,
            (false, false) => Kind::Bytes,
            (false, true) => Kind::PBytes,
        },
        skip: w.skip.clone(),
    };
    let res: Outcome = on_kind!(&c, |ctx| {
        let p = build(&c.ast);
        ctx.set_offset(at);
        outcome(ctx, &p, &c.rej, both, budget_for(4 * s))
    })?;
    // a length looked up early may refuse for another reason than the element would
    let mute = |o: &Outcome| (o.0.clone().ok(), o.1.clone().map(|x| x.ok()), o.2);
    if mute(&res) != mute(got) {
        return Err(format!(
            "parser {i} at {at}: with {} the result is {res:?}, and it was {got:?}",
            show_input(other, w.text)
        ));
    }
    Ok(())
}

/// the entry points of a context agree with each other
fn entries(c: &Case, o: &mut Obs) -> Result<bool, String> {
    let mut m = c.model();
    let want = m.tm(&c.ast, c.start, 0);
    if m.over {
        return Ok(false);
    }
    let b = budget_for(m.steps);
    on_kind!(c, |ctx| {
        let p = build(&c.ast);
        guarded(|| {
            let exp = want.map(|m| Span::new(m.beg, m.end - m.beg)).ok();
            let stop = exp.map_or(c.start, |s| s.beg + s.len);
            macro_rules! one {
                ($what:expr, $e:expr) => {{
                    ctx.set_offset(c.start);
                    mon_reset(b);
                    let got = $e;
                    o.events += mon_take().events;
                    if got != exp {
                        return Err(format!("{} gives {:?}, reference {:?}", $what, got, exp));
                    }
                    if ctx.offset() != stop {
                        return Err(format!("{} stands at {}, expected {stop}", $what, ctx.offset()));
                    }
                }};
            }
            one!("try_mat", ctx.try_mat(&p).ok());
            one!("is_mat", if ctx.is_mat(&p) { exp } else { None });
            one!("map_handler", ctx.map_handler(&p, neure::ctor::extract::<Span>()).ok());
            one!("map_with", ctx.map_with(&p, |_: &_, s: &Span| Ok(*s)).ok());
            one!("map_span", ctx.map_span(&p, |s: Span| Ok(s)).ok());
            let seen = std::cell::Cell::new(None);
            one!("map", ctx.map(&p, |v| { seen.set(Some(v)); Ok(()) }).ok().and(exp));
            if let (Some(s), Some(v)) = (exp, seen.get()) {
                let v: &[u8] = v.as_ref();
                if v != &c.inp[s.beg..s.beg + s.len] {
                    return Err(format!("map hands over {v:?} for {s:?}"));
                }
            }
            let pat = neure::ctor::CtorOps::pat(p);
            one!("ctor_span", ctx.ctor_span::<_, Span>(&pat_as(&pat)).ok());
            Ok(exp.is_some_and(|s| s.len > 0))
        })?
    })
}

/// only the matching side of a parser, as a value
struct PatAs<'p, P>(&'p P);
fn pat_as<P>(p: &P) -> PatAs<'_, P> {
    PatAs(p)
}
impl<C, P: Regex<C>> Regex<C> for PatAs<'_, P> {
    fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
        self.0.try_parse(ctx)
    }
}
impl<'a, C: Match<'a>, P: Regex<C>, O, H: neure::ctor::Handler<C, Out = O>> neure::ctor::Ctor<C, O, H> for PatAs<'_, P> {
    fn construct(&self, ctx: &mut C, h: &mut H) -> Result<O, Error> {
        let s = ctx.try_mat(self)?;
        h.invoke(ctx, &s).map_err(Into::into)
    }
}

/// one grammar in the built-in and in a user's context
fn user(c: &Case, o: &mut Obs) -> Result<bool, String> {
    let mut m = c.model();
    let _ = m.k(&c.ast, c.start);
    let _ = m.tm(&c.ast, c.start, 0);
    if m.over {
        return Ok(false);
    }
    let b = budget_for(m.steps);
    let u = Case { kind: if c.kind.text() { Kind::UText } else { Kind::UBytes }, ..c.clone() };
    let (x, y) = (run_match(c, b)?, run_match(&u, b)?);
    o.events += x.mon.events + y.mon.events;
    if x.res != y.res || x.off != y.off {
        return Err(format!("built-in context {:?} at {}, user's context {:?} at {}", x.res, x.off, y.res, y.off));
    }
    let (x, y) = (run_ctor(c, b)?, run_ctor(&u, b)?);
    o.events += x.mon.events + y.mon.events;
    if x.res != y.res || x.log != y.log || (x.res.is_ok() && x.off != y.off) {
        return Err(format!("built-in context constructs {:?} up to {}, user's context {:?} up to {}", x.res, x.off, y.res, y.off));
    }
    o.count("grammars_in_a_users_context");
    Ok(x.mon.nonempty_oks > 0)
}

fn case(r: &mut Rng, o: &mut Obs) -> Result<(), String> {
    match r.below(8) {
        0 => {
            let w = Want { rej: r.chance(1, 3), try_map: true, ..Want::new(&[Kind::Chars, Kind::Bytes]) };
            let (c, _) = gen_case(r, &w);
            return verdict(o, c, &user);
        }
        1 => {
            let (c, _) = gen_case(r, &Want::new(ALL));
            return verdict(o, c, &entries);
        }
        _ => {}
    }
    let kind = *r.pick(ALL);
    let want = Want { rej: false, try_map: r.chance(1, 4), depth: 3, ..Want::new(ALL) };
    let g = cfg_for(r, kind, &want);
    let skip = gen_skip(r);
    let mut asts = vec![];
    let mut data = vec![];
    for _ in 0..r.range(1, 3) {
        let a = gen_ast(r, &g);
        let (inp, _) = gen_input(r, &g, &a, if kind.policy() { Some(&skip) } else { None });
        asts.push(a);
        data.push(inp);
    }
    let rej = if r.chance(1, 3) { gen_rej(r) } else { Rej::None };
    let w = World { asts: &asts, data: &data, skip: &skip, rej, text: kind.text(), policy: kind.policy() };
    let show = |t: &[String]| {
        format!(
            "context {kind:?}{} handler {:?}\nparsers {}\ndata {}\nhistory {}",
            if kind.policy() { format!(" skipping {}", show(&skip)) } else { String::new() },
            w.rej,
            asts.iter().map(show).collect::<Vec<_>>().join(" ;; "),
            data.iter().map(|d| show_input(d, kind.text())).collect::<Vec<_>>().join(" "),
            t.join(" / ")
        )
    };
    let mut trace = vec![];
    macro_rules! go {
        ($t:ident) => {
            history(&w, $t::fresh(&data[0], &skip), r, o, &mut trace)
        };
    }
    let res = match kind {
        Kind::Chars => go!(CharsCtx),
        Kind::Bytes => go!(BytesCtx),
        Kind::UText => go!(UText),
        Kind::UBytes => go!(UBytes),
        Kind::PText => go!(PText),
        Kind::PBytes => go!(PBytes),
    };
    o.note(|| show(&trace));
    match res {
        Ok(n) => {
            o.add("parses_by_reused_parsers", n as u64);
            o.max("history_length", trace.len() as u64);
            if n >= 2 {
                o.nontrivial(&show(&trace));
            }
            Ok(())
        }
        Err(e) => Err(format!("{e}\n{}", show(&trace))),
    }
}

fn main() {
    run(
        Plan {
            quick: 1_400_000,
            ..Plan::new("C23", "a random history of parses, copies, moves, retargets and guards over one to three long-lived parsers and inputs, each parse compared with a fresh parser and context; non-trivial when at least two parses were made (or, for single runs in a user's context, something matched)")
        },
        case,
    )
}
