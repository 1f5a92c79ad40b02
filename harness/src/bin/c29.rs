//! C29: every shorthand means what it abbreviates.
//! Each case picks one family of shorthands, builds it over random
//! sub-patterns, and judges it against the longer form: its parts run one
//! after the other on the same context by code of this harness.
use neure::ctor::{Adapter, Ctor, CtorOps, DynamicCtorThenBuilderHelper};
use neure::ctx::{BytesCtx, CharsCtx, Context, CtxGuard, Match, MatchExt, PolicyMatch};
use neure::err::Error;
use neure::neu::{self, NeuIntoRegexOps};
use neure::regex::{self, Regex, RegexRefAsCtor};
use neure::span::Span;
use nverif::ast::*;
use nverif::build::build;
use nverif::case::*;
use nverif::ctxs::{text, HItem};
use nverif::drv::{guarded, run, Obs, Plan};
use nverif::generate::*;
use nverif::probe::*;
use nverif::rng::Rng;

#[derive(Clone, Debug)]
struct Sc {
    text: bool,
    data: Vec<u8>,
    at: usize,
    p: Ast,
    q: Ast,
    s: Ast,
    cls: Cls,
    lit: Vec<u8>,
    family: usize,
    form: usize,
    pick: u64,
}

impl Sc {
    fn show(&self) -> String {
        format!(
            "family {} form {} on {} at {}, p={} q={} s={} class {:?} literal {:?}",
            self.family,
            self.form,
            show_input(&self.data, self.text),
            self.at,
            show(&self.p),
            show(&self.q),
            show(&self.s),
            self.cls,
            String::from_utf8_lossy(&self.lit),
        )
    }
}

type M = (Result<(usize, usize), Error>, usize);

fn mat<'a, C: Match<'a>, P: Regex<C> + ?Sized>(ctx: &mut C, at: usize, p: &P) -> M {
    ctx.set_offset(at);
    let r = ctx.try_mat(p).map(|s| (s.beg, s.len));
    (r, ctx.offset())
}

fn val<'a, C: Match<'a>, V, P: Ctor<C, V, Rec>>(ctx: &mut C, at: usize, p: &P) -> (Result<V, Error>, usize) {
    ctx.set_offset(at);
    let mut h = Rec::new(Rej::None);
    let r = p.construct(ctx, &mut h);
    (r, ctx.offset())
}

/// moves over the longest run of elements of the class
fn run_of<'a, C: Context<'a>>(ctx: &mut C, f: impl Fn(&C::Item) -> bool) -> Result<usize, Error>
where
    C::Item: HItem,
{
    let at = ctx.offset();
    let mut n = 0;
    // inside a character there is no element
    let Ok(items) = ctx.peek() else { return Ok(0) };
    for (_, x) in items {
        if !f(&x) {
            break;
        }
        n += x.width();
    }
    ctx.set_offset(at + n);
    Ok(n)
}

fn same<T: PartialEq + std::fmt::Debug>(what: &str, short: T, long: T) -> Result<(), String> {
    if short == long { Ok(()) } else { Err(format!("{what} gives {short:?}, spelled out {long:?}")) }
}

fn lit_at(data: &[u8], at: usize, lit: &[u8]) -> Option<(usize, usize)> {
    data.get(at..)?.starts_with(lit).then_some((at, lit.len()))
}

trait Ws: HItem {
    fn ws(self) -> bool;
    fn ascii_ws(self) -> bool;
}
impl Ws for char {
    fn ws(self) -> bool {
        self.is_whitespace()
    }
    fn ascii_ws(self) -> bool {
        self.is_ascii_whitespace()
    }
}
impl Ws for u8 {
    fn ws(self) -> bool {
        self.is_ascii_whitespace()
    }
    fn ascii_ws(self) -> bool {
        self.is_ascii_whitespace()
    }
}

/// a whitespace shortcut: how it matches and constructs, spelled out
fn skip_long<'a, C: Match<'a>>(ctx: &mut C, c: &Sc, lead: bool, f: impl Fn(&C::Item) -> bool, p: &Dyn<'a, C>) -> (M, (Result<Val, Error>, usize))
where
    C::Item: HItem,
{
    let at = c.at;
    let body = |ctx: &mut C| -> Result<(usize, usize), Error> {
        ctx.set_offset(at);
        let mut beg = at;
        if lead {
            run_of(ctx, &f)?;
        }
        let s = ctx.try_mat(p)?;
        if !lead {
            beg = s.beg;
            run_of(ctx, &f)?;
        }
        Ok((beg, ctx.offset() - beg))
    };
    let m = body(ctx);
    let mo = if m.is_ok() { ctx.offset() } else { at };
    ctx.set_offset(at);
    let mut h = Rec::new(Rej::None);
    let k = (|| {
        if lead {
            run_of(ctx, &f)?;
        }
        let v = p.construct(ctx, &mut h)?;
        if !lead {
            run_of(ctx, &f)?;
        }
        Ok(v)
    })();
    let ko = if k.is_ok() { ctx.offset() } else { at };
    ((m, mo), (k, ko))
}

/// results of a lookahead written with the operator
fn negated<'a, C: Match<'a>, N: Regex<C> + Ctor<C, Val, Rec>, L: Regex<C>>(
    ctx: &mut C,
    at: usize,
    name: &str,
    base: M,
    short: N,
    long: L,
) -> Result<(), String> {
    let got = mat(ctx, at, &short);
    if got.0.is_ok() == base.0.is_ok() {
        return Err(format!("!{name} gives {got:?} where {name} gives {base:?}"));
    }
    same(&format!("!{name}"), got.clone(), mat(ctx, at, &long))?;
    if got.1 != at || got.0.is_ok_and(|s| s != (at, 0)) {
        return Err(format!("!{name} at {at} gives {got:?}"));
    }
    let k = val(ctx, at, &short);
    let want = if base.0.is_ok() { None } else { Some(Val::Leaf(0, at, 0)) };
    if k.0.clone().ok() != want || k.1 != at {
        return Err(format!("!{name} constructs {k:?} where {name} gives {base:?}"));
    }
    Ok(())
}

const NEGS: usize = 42;

macro_rules! families {
    ($fname:ident, $ctx:ident, $item:ty, $orig:ty, $conv:expr, $lits:ident) => {
        fn $fname<'a>(c: &'a Sc, o: &mut Obs) -> Result<bool, String> {
            type X<'a> = $ctx<'a>;
            let data: &'a $orig = $conv(&c.data);
            let mut cx = X::new(data);
            let ctx = &mut cx;
            let at = c.at;
            let p = || build::<X>(&c.p);
            let q = || build::<X>(&c.q);
            let s = || build::<X>(&c.s);
            let u = || <$item as HItem>::unit(&c.cls);
            let mut h = Rec::new(Rej::None);
            mon_reset(400_000);
            o.count(["whitespace", "operator !", "selection", "literals", "entry points", "policies", "guard", "functions", "free functions"][c.family]);
            match c.family {
                0 => $lits::skips(c, ctx),
                1 => {
                    macro_rules! neg {
                        ($e:expr) => {{
                            let e = $e;
                            let base = mat(ctx, at, &e);
                            let ok = base.0.is_ok();
                            negated(ctx, at, stringify!($e), base, !e, regex::not($e))?;
                            Ok(ok)
                        }};
                    }
                    match c.form {
                        0 => neg!(NeuIntoRegexOps::<X>::once(u())),
                        1 => neg!(NeuIntoRegexOps::<X>::opt(u())),
                        2 => neg!(NeuIntoRegexOps::<X>::many0(u())),
                        3 => neg!(NeuIntoRegexOps::<X>::many1(u())),
                        4 => neg!(NeuIntoRegexOps::<X>::times(u(), 2..4)),
                        5 => neg!(NeuIntoRegexOps::<X>::between::<1, 2>(u())),
                        6 => neg!(NeuIntoRegexOps::<X>::then(u(), u())),
                        7 => neg!(CtorOps::<X>::or(p(), q())),
                        8 => neg!(CtorOps::<X>::then(p(), q())),
                        9 => neg!(CtorOps::<X>::if_then(p(), s(), q())),
                        10 => neg!(CtorOps::<X>::longest(p(), q())),
                        11 => neg!(CtorOps::<X>::pat(p())),
                        12 => neg!(CtorOps::<X>::sep_once(p(), s(), q())),
                        13 => neg!(CtorOps::<X>::opt(p())),
                        14 => neg!(CtorOps::<X>::enclose(p(), q(), s())),
                        15 => neg!(CtorOps::<X>::repeat(p(), 1..3)),
                        16 => neg!(CtorOps::<X>::repeat2::<1, 3>(p())),
                        17 => neg!(CtorOps::<X>::suffix(p(), q())),
                        18 => neg!(CtorOps::<X>::prefix(p(), q())),
                        19 => {
                            let t = c.pick & 1 == 0;
                            neg!(CtorOps::<X>::if_else(p(), move |_: &$ctx<'a>| Ok::<bool, Error>(t), q()))
                        }
                        20 => neg!(CtorOps::<X>::map::<_, Val>(p(), |v: Val| v)),
                        21 => neg!(regex::array([p(), q()])),
                        22 => neg!(regex::array_ltm([p(), q(), s()])),
                        23 => neg!(regex::vector(vec![p(), q()])),
                        24 => neg!(regex::vector_ltm(vec![p(), q()])),
                        25 => {
                            let t = [p(), q()];
                            neg!(regex::slice(&t))
                        }
                        26 => {
                            let t = [p(), q(), s()];
                            neg!(regex::slice_ltm(&t))
                        }
                        27 => neg!(regex::start()),
                        28 => neg!(regex::end()),
                        29 => neg!(regex::consume(c.pick as usize % 4)),
                        30 => neg!(regex::consume_all()),
                        31 => neg!(regex::empty()),
                        32 => neg!(regex::fail()),
                        33 => neg!(regex::not(p())),
                        34 => neg!(regex::peek(p())),
                        35 => neg!(CtorOps::<X>::sep2::<_, 1, 2>(NeuIntoRegexOps::<X>::once(u()), s())),
                        36 => neg!(neure::regex::Adapter::<X, _>::new(p())),
                        37 => $lits::neg_lit(c, ctx),
                        38 => neg!(CtorOps::<X>::sep(NeuIntoRegexOps::<X>::once(u()), q()).at_least(2)),
                        39 => $lits::neg_pairs(c, ctx),
                        40 => {
                            // the complement of a unit, by operator and by function
                            let a = mat(ctx, at, &NeuIntoRegexOps::<X>::many0(!neu::or(u(), neu::never())));
                            let b = mat(ctx, at, &NeuIntoRegexOps::<X>::many0(neu::not(u())));
                            let d = mat(ctx, at, &NeuIntoRegexOps::<X>::many0(!neu::and(neu::always(), u())));
                            let n = { ctx.set_offset(at); run_of(ctx, |x| !neure::neu::Neu::is_match(&u(), x)) };
                            let want: M = (n.clone().map(|n| (at, n)), at + n.unwrap_or(0));
                            same("!or(unit, never)", a, want.clone())?;
                            same("neu::not(unit)", b, want.clone())?;
                            same("!and(always, unit)", d, want)?;
                            Ok(true)
                        }
                        _ => neg!(CtorOps::<X>::collect::<Val, Vec<Val>>(NeuIntoRegexOps::<X>::once(u())).at_least(2)),
                    }
                }
                2 => {
                    // selection from a pair
                    macro_rules! select {
                        ($mk:expr, $what:expr) => {{
                            let pair = val(ctx, at, &$mk);
                            let a = val(ctx, at, &$mk._0());
                            let b = val(ctx, at, &$mk._1());
                            let off = pair.1;
                            match pair.0 {
                                Ok((x, y)) => {
                                    same(concat!($what, "._0()"), a, (Ok(x), off))?;
                                    same(concat!($what, "._1()"), b, (Ok(y), off))?;
                                    Ok(true)
                                }
                                Err(e) => {
                                    if a.0.as_ref().err() != Some(&e) || b.0.as_ref().err() != Some(&e) || a.1 != at || b.1 != at {
                                        return Err(format!("the pair of {} fails with {e:?}, its selections give {a:?} / {b:?}", $what));
                                    }
                                    Ok(false)
                                }
                            }
                        }};
                    }
                    match c.form % 6 {
                        0 => select!(CtorOps::<X>::then(p(), q()), "then"),
                        1 => select!(CtorOps::<X>::if_then(p(), s(), q()), "if_then"),
                        2 => select!(CtorOps::<X>::sep_once(p(), s(), q()), "sep_once"),
                        3 => select!(p().into_ctor_then_builder(|_: &mut $ctx<'a>, _: &Val| Ok(q())), "into_ctor_then_builder"),
                        k => {
                            // equality of the two parts
                            let run = || NeuIntoRegexOps::<X>::times(u(), 1..3);
                            ctx.set_offset(at);
                            let (pair, eq): (Result<(&$orig, &$orig), Error>, Result<(&$orig, &$orig), Error>) = if k == 4 {
                                let a = ctx.ctor(&CtorOps::<X>::then(run(), run()));
                                ctx.set_offset(at);
                                (a, ctx.ctor(&CtorOps::<X>::then(run(), run())._eq()))
                            } else {
                                let a = ctx.ctor(&CtorOps::<X>::sep_once(run(), s(), run()));
                                ctx.set_offset(at);
                                (a, ctx.ctor(&CtorOps::<X>::sep_once(run(), s(), run())._eq()))
                            };
                            let want = match pair {
                                Ok((x, y)) if x != y => Err(Error::SelectEq),
                                r => r,
                            };
                            same("_eq()", eq, want)?;
                            Ok(true)
                        }
                    }
                }
                3 => $lits::literals(c, ctx),
                4 => {
                    let pat = p();
                    let m = mat(ctx, at, &pat);
                    let off = m.1;
                    let end = |ctx: &$ctx<'a>, what: &str| {
                        if ctx.offset() == off { Ok(()) } else { Err(format!("{what} leaves the position at {}, matching at {off}", ctx.offset())) }
                    };
                    ctx.set_offset(at);
                    same("is_mat", ctx.is_mat(&pat), m.0.is_ok())?;
                    end(ctx, "is_mat")?;
                    ctx.set_offset(at);
                    same("Regex::parse", Regex::parse(&pat, ctx), m.0.is_ok())?;
                    end(ctx, "Regex::parse")?;
                    let slice: Result<Option<&$orig>, Error> = m.0.clone().map(|(b, l)| data.get(b..b + l));
                    let whole = !matches!(slice, Ok(None));
                    let span = m.0.clone().map(|(b, l)| Span::new(b, l));
                    macro_rules! entry {
                        ($what:expr, $e:expr, $want:expr) => {{
                            ctx.set_offset(at);
                            let r = $e;
                            same($what, r, $want)?;
                            end(ctx, $what)?;
                        }};
                    }
                    let w = pat.as_ctor();
                    entry!("ctor_span", ctx.ctor_span(&w), span.clone());
                    entry!("map_span", ctx.map_span(&w, |s: Span| Ok::<_, Error>(s)), span.clone());
                    entry!("map_span failing", ctx.map_span(&w, |_: Span| Err::<Span, _>(Error::Uid(7))), span.clone().and(Err(Error::Uid(7))));
                    entry!("map_handler", ctx.map_handler(&w, neure::ctor::extract::<Span>()), span.clone());
                    entry!("map_with", ctx.map_with(&w, |_: &$ctx<'a>, s: &Span| Ok(*s)), span.clone());
                    entry!("map_with failing", ctx.map_with(&w, |_: &$ctx<'a>, _: &Span| Err::<Span, _>(Error::Uid(8))), span.clone().and(Err(Error::Uid(8))));
                    entry!("ctor_with", ctx.ctor_with(&w, |_: &$ctx<'a>, s: &Span| Ok(*s)), span.clone());
                    entry!("ctor_handler", ctx.ctor_handler(&w, neure::ctor::extract::<Span>()), span.clone());
                    if whole {
                        let slice = slice.map(|s| s.unwrap());
                        entry!("ctor", ctx.ctor::<_, &$orig>(&w), slice.clone());
                        entry!("map", ctx.map(&w, |s: &$orig| Ok::<_, Error>(s.len())), slice.clone().map(|s| s.len()));
                        entry!("map failing", ctx.map(&w, |_: &$orig| Err::<u8, _>(Error::Uid(9))), slice.clone().and(Err(Error::Uid(9))));
                    } else {
                        for r in [{ ctx.set_offset(at); ctx.ctor::<_, &$orig>(&w).is_ok() }, { ctx.set_offset(at); ctx.map(&w, |s: &$orig| Ok::<_, Error>(s.len())).is_ok() }] {
                            same("taking a slice that is none", r, false)?;
                        }
                    }
                    Ok(m.0.is_ok())
                }
                5 => {
                    let (a, b, d) = (q(), p(), s());
                    let mut long = |before: bool, after: bool| -> M {
                        ctx.set_offset(at);
                        let r = (|| {
                            if before {
                                ctx.try_mat(&a)?;
                            }
                            let r = ctx.try_mat(&b)?;
                            if after {
                                ctx.try_mat(&d)?;
                            }
                            Ok((r.beg, r.len))
                        })();
                        if r.is_err() {
                            ctx.set_offset(at);
                        }
                        (r, ctx.offset())
                    };
                    let want = [long(true, false), long(false, true), long(true, true)];
                    for (k, w) in want.iter().enumerate() {
                        ctx.set_offset(at);
                        let r = match k {
                            0 => ctx.try_mat_before(&b, &a),
                            1 => ctx.try_mat_after(&b, &d),
                            _ => ctx.try_mat_policy(&b, &a, &d),
                        };
                        same(["try_mat_before", "try_mat_after", "try_mat_policy"][k], (r.map(|s| (s.beg, s.len)), ctx.offset()), w.clone())?;
                    }
                    Ok(want.iter().any(|w| w.0.is_ok()))
                }
                6 => {
                    // a guard is the context with a way back
                    let mut r = Rng::new(c.pick);
                    let pats = [p(), q(), s()];
                    ctx.set_offset(at);
                    let mut twin = ctx.clone();
                    let mut back = false;
                    {
                        let mut g = CtxGuard::new(ctx);
                        for _ in 0..r.range(1, 7) {
                            let pos = twin.offset();
                            match r.below(7) {
                                0 | 1 => {
                                    let k = r.below(3);
                                    let a = g.try_mat(&pats[k]);
                                    let b = twin.try_mat(&pats[k]);
                                    back |= b.is_err();
                                    same("a guard's try_mat", a, b)?;
                                }
                                2 if pos < data.len() => {
                                    let w = twin.peek().ok().and_then(|mut i| i.next()).map_or(1, |x| x.1.width());
                                    same("a guard's inc", g.inc(w), Span::new(pos, w))?;
                                    twin.inc(w);
                                }
                                3 => {
                                    let e: Result<u8, Error> = if r.flip() { Ok(1) } else { Err(Error::Uid(3)) };
                                    back |= e.is_err();
                                    same("process_ret", g.process_ret(e.clone()), e)?;
                                }
                                4 => {
                                    g.reset();
                                    twin.set_offset(at);
                                }
                                5 => {
                                    let k = r.below(3);
                                    let a = g.ctx().try_mat(&pats[k]);
                                    same("matching through a guard's context", a, twin.try_mat(&pats[k]))?;
                                }
                                _ => {
                                    let at = r.below(data.len() + 2);
                                    let f = |x: Result<Vec<_>, Error>| x;
                                    let a = f(g.peek().map(|i| i.take(4).collect()));
                                    same("a guard's peek", a, f(twin.peek().map(|i| i.take(4).collect())))?;
                                    let a = f(g.peek_at(at).map(|i| i.take(4).collect()));
                                    same("a guard's peek_at", a, f(twin.peek_at(at).map(|i| i.take(4).collect())))?;
                                }
                            }
                            same("a guard's begin, end, length", (g.beg(), g.end(), g.len(), g.is_empty()), (at, twin.offset(), data.len(), twin.is_empty()))?;
                        }
                    }
                    let want = if back { at } else { twin.offset() };
                    same("the position a dropped guard leaves", ctx.offset(), want)?;
                    Ok(back)
                }
                7 => {
                    // functions as parsers
                    let (a, b) = (p(), q());
                    let want = mat(ctx, at, &CtorOps::<X>::then(p(), q()));
                    let f = |ctx: &mut $ctx<'a>| a.try_parse(ctx);
                    let g = |ctx: &mut $ctx<'a>| b.try_parse(ctx);
                    same("functions in sequence", mat(ctx, at, &CtorOps::<X>::then(f, g)), want.clone())?;
                    ctx.set_offset(at);
                    let k = CtorOps::<X>::then(p(), q()).construct(ctx, &mut h);
                    let ko = ctx.offset();
                    let fa = Adapter::func(|ctx: &mut $ctx<'a>, h: &mut Rec| a.construct(ctx, h));
                    let fb = Adapter::func(|ctx: &mut $ctx<'a>, h: &mut Rec| b.construct(ctx, h));
                    let pair = |x: &mut $ctx<'a>, h: &mut Rec| -> Result<(Val, Val), Error> {
                        x.set_offset(at);
                        let v = fa.clone().construct(x, h)?;
                        Ok((v, fb.construct(x, h)?))
                    };
                    let mut h2 = Rec::new(Rej::None);
                    let got = pair(ctx, &mut h2);
                    let go = if got.is_ok() { ctx.offset() } else { at };
                    if k != got || (k.is_ok() && ko != go) || (k.is_ok() && h.log != h2.log) {
                        return Err(format!("construction functions in sequence give {got:?} at {go}, the parsers {k:?} at {ko}"));
                    }
                    // mapping a value
                    let m = val(ctx, at, &CtorOps::<X>::map(p(), |v: Val| (1u8, v)));
                    let w = val(ctx, at, &p());
                    same("map", m, (w.0.clone().map(|v| (1u8, v)), w.1))?;
                    let odd = |v: Val| if c.pick & 1 == 0 { Ok(v) } else { Err(Error::Uid(5)) };
                    let m = val(ctx, at, &CtorOps::<X>::try_map(p(), odd));
                    let w = val(ctx, at, &p());
                    let e = w.0.and_then(odd);
                    if m.0 != e || (e.is_ok() && m.1 != w.1) {
                        return Err(format!("try_map gives {m:?}, the function {e:?} at {}", w.1));
                    }
                    Ok(want.0.is_ok())
                }
                _ => {
                    // free functions and units as patterns
                    let forms = [
                        ("once", mat(ctx, at, &regex::once::<X, _>(u())), mat(ctx, at, &NeuIntoRegexOps::<X>::times(u(), 1))),
                        ("opt", mat(ctx, at, &regex::opt::<X, _>(u())), mat(ctx, at, &NeuIntoRegexOps::<X>::times(u(), 0..=1))),
                        ("many0", mat(ctx, at, &regex::many0::<X, _>(u())), mat(ctx, at, &NeuIntoRegexOps::<X>::times(u(), ..))),
                        ("many1", mat(ctx, at, &regex::many1::<X, _>(u())), mat(ctx, at, &NeuIntoRegexOps::<X>::times(u(), 1..))),
                        ("count", mat(ctx, at, &regex::count::<1, 3, X, _>(u())), mat(ctx, at, &NeuIntoRegexOps::<X>::times(u(), 1..4))),
                        ("count<2>", mat(ctx, at, &NeuIntoRegexOps::<X>::count::<2>(u())), mat(ctx, at, &NeuIntoRegexOps::<X>::times(u(), 2))),
                        ("at_least<2>", mat(ctx, at, &NeuIntoRegexOps::<X>::at_least::<2>(u())), mat(ctx, at, &NeuIntoRegexOps::<X>::times(u(), 2..))),
                        ("at_most<3>", mat(ctx, at, &NeuIntoRegexOps::<X>::at_most::<3>(u())), mat(ctx, at, &NeuIntoRegexOps::<X>::times(u(), ..=3))),
                        ("between<0,2>", mat(ctx, at, &NeuIntoRegexOps::<X>::between::<0, 2>(u())), mat(ctx, at, &NeuIntoRegexOps::<X>::times(u(), 0..3))),
                    ];
                    for (n, a, b) in &forms {
                        if (a.0.as_ref().ok(), a.1) != (b.0.as_ref().ok(), b.1) {
                            return Err(format!("{n} gives {a:?}, spelled with times {b:?}"));
                        }
                    }
                    // ordered tables and their spelling with `or`
                    let or = mat(ctx, at, &CtorOps::<X>::or(p(), CtorOps::<X>::or(q(), s())));
                    let t = [p(), q(), s()];
                    let tabs = [
                        mat(ctx, at, &regex::array([p(), q(), s()])),
                        mat(ctx, at, &regex::vector([p(), q(), s()])),
                        mat(ctx, at, &regex::slice(&t)),
                    ];
                    for x in tabs {
                        if (x.0.clone().ok(), x.1) != (or.0.clone().ok(), or.1) {
                            return Err(format!("a table gives {x:?}, its entries in `or` {or:?}"));
                        }
                    }
                    Ok(or.0.is_ok())
                }
            }
        }
    };
}

macro_rules! skip_form {
    ($c:expr, $ctx:expr, $x:ty, $m:ident, $lead:expr, $f:ident) => {{
        let p = build::<$x>(&$c.p);
        let short = CtorOps::<$x>::$m(build::<$x>(&$c.p));
        let m = mat($ctx, $c.at, &short);
        let k = val($ctx, $c.at, &short);
        let (wm, wk) = skip_long($ctx, $c, $lead, |x| x.$f(), &p);
        let ok = wm.0.is_ok();
        same(stringify!($m), m, wm)?;
        same(concat!(stringify!($m), " (construction)"), k, wk)?;
        Ok(ok)
    }};
}

macro_rules! neg_one {
    ($ctx:expr, $at:expr, $e:expr) => {{
        let e = $e;
        let base = mat($ctx, $at, &e);
        let ok = base.0.is_ok();
        negated($ctx, $at, stringify!($e), base, !e, regex::not($e))?;
        Ok(ok)
    }};
}

macro_rules! pairs {
    ($x:ident) => {
        pub fn neg_pairs<'a>(c: &Sc, ctx: &mut $x<'a>) -> Result<bool, String> {
            let p = || build::<$x<'a>>(&c.p);
            let q = || build::<$x<'a>>(&c.q);
            match c.pick % 4 {
                0 => neg_one!(ctx, c.at, regex::pair_array([(p(), 1u32), (q(), 2)])),
                1 => neg_one!(ctx, c.at, regex::pair_vector([(p(), 1u32), (q(), 2)])),
                2 => neg_one!(ctx, c.at, regex::pair_array_ltm([(p(), 1u32), (q(), 2)])),
                _ => {
                    let t = [(p(), 1u32), (q(), 2)];
                    neg_one!(ctx, c.at, regex::pair_slice(&t))
                }
            }
        }
    };
}

/// the literal in each of its forms: matched, and its slice constructed
macro_rules! lit_forms {
    ($ctx:expr, $at:expr, $want:expr, $orig:ty, $data:expr, [$($e:expr),* $(,)?]) => {{
        $({
            let e = $e;
            let m = mat($ctx, $at, &e);
            let off = $want.map_or($at, |w: (usize, usize)| w.0 + w.1);
            if m.0.clone().ok() != $want || m.1 != off {
                return Err(format!("{} gives {m:?}, a comparison says {:?}", stringify!($e), $want));
            }
            $ctx.set_offset($at);
            let k: Result<&$orig, Error> = $ctx.ctor(&e);
            if k.clone().ok() != $want.map(|w| &$data[w.0..w.0 + w.1]) || $ctx.offset() != off {
                return Err(format!("{} constructs {k:?}, a comparison says {:?}", stringify!($e), $want));
            }
        })*
    }};
}

mod in_text {
    use super::*;
    pairs!(CharsCtx);
    pub fn skips<'a>(c: &Sc, ctx: &mut CharsCtx<'a>) -> Result<bool, String> {
        match c.form % 4 {
            0 => skip_form!(c, ctx, CharsCtx<'a>, skip_ws, false, ws),
            1 => skip_form!(c, ctx, CharsCtx<'a>, skip_ascii_ws, false, ascii_ws),
            2 => skip_form!(c, ctx, CharsCtx<'a>, skip_ws_leading, true, ws),
            _ => skip_form!(c, ctx, CharsCtx<'a>, skip_ascii_ws_leading, true, ascii_ws),
        }
    }
    pub fn neg_lit<'a>(c: &Sc, ctx: &mut CharsCtx<'a>) -> Result<bool, String> {
        let l = text(&c.lit);
        neg_one!(ctx, c.at, regex::literal(l))
    }
    pub fn literals<'a>(c: &Sc, ctx: &mut CharsCtx<'a>) -> Result<bool, String> {
        let l = text(&c.lit);
        let owned = l.to_string();
        let want = lit_at(&c.data, c.at, &c.lit);
        let data = text(&c.data);
        lit_forms!(ctx, c.at, want, str, data, [l, owned.clone(), &owned, regex::literal(l), regex::literal(&owned)]);
        Ok(want.is_some())
    }
}

mod in_bytes {
    use super::*;
    pairs!(BytesCtx);
    pub fn skips<'a>(c: &Sc, ctx: &mut BytesCtx<'a>) -> Result<bool, String> {
        if c.form & 1 == 0 {
            skip_form!(c, ctx, BytesCtx<'a>, skip_ascii_ws, false, ascii_ws)
        } else {
            skip_form!(c, ctx, BytesCtx<'a>, skip_ascii_ws_leading, true, ascii_ws)
        }
    }
    pub fn neg_lit<'a>(c: &Sc, ctx: &mut BytesCtx<'a>) -> Result<bool, String> {
        neg_one!(ctx, c.at, regex::literal(c.lit.as_slice()))
    }
    pub fn literals<'a>(c: &Sc, ctx: &mut BytesCtx<'a>) -> Result<bool, String> {
        let l = c.lit.as_slice();
        let owned = c.lit.clone();
        let want = lit_at(&c.data, c.at, &c.lit);
        let data = c.data.as_slice();
        lit_forms!(ctx, c.at, want, [u8], data, [l, owned.clone(), &owned, regex::literal(l)]);
        macro_rules! fixed {
            ($($n:literal)*) => { $(if let Ok(a) = <[u8; $n]>::try_from(l) {
                lit_forms!(ctx, c.at, want, [u8], data, [a, &a, regex::literal(&a)]);
            })* };
        }
        fixed!(0 1 2 3 4 5);
        Ok(want.is_some())
    }
}

families!(on_text, CharsCtx, char, str, text, in_text);
families!(on_bytes, BytesCtx, u8, [u8], |x| x, in_bytes);

const BLANKS: [&str; 16] =
    [" ", "\t", "\n", "\r", "\x0c", "\x0b", "\u{85}", "\u{a0}", "\u{2003}", "\u{3000}", "\u{2028}", "\u{1680}", "\u{200b}", "\u{feff}", "\u{1c}", "\u{180e}"];

fn blanks(r: &mut Rng, text: bool) -> Vec<u8> {
    let n = if r.chance(1, 40) { r.range(20, 300) } else { r.below(4) };
    let mut v = vec![];
    for _ in 0..n {
        let m = if r.flip() { 5 } else { BLANKS.len() };
        let k = r.below(m);
        if text {
            v.extend_from_slice(BLANKS[k].as_bytes());
        } else if BLANKS[k].chars().count() == 1 {
            v.push(BLANKS[k].chars().next().unwrap() as u32 as u8);
        }
    }
    v
}

fn case(r: &mut Rng, o: &mut Obs) -> Result<(), String> {
    let w = Want { depth: 3, big: 60, ..Want::new(&[Kind::Chars, Kind::Bytes]) };
    let kind = *r.pick(w.kinds);
    let g = Cfg { depth: 2, ..cfg_for(r, kind, &w) };
    let text = kind.text();
    let depth = r.range(0, 2) as u32;
    let sub = |r: &mut Rng, v: bool| gen_r(r, &Cfg { depth, ..g.clone() }, depth, v);
    let (p, q, s) = (sub(r, true), sub(r, true), sub(r, true));
    let cls = gen_cls(r, &g, 1);
    let family = r.weighted(&[3, 6, 3, 3, 3, 3, 3, 3, 3]);
    let form = r.below(NEGS);
    let b = |a: &Ast| Box::new(a.clone());
    let whole = match family {
        0 => p.clone(),
        5 => Ast::new(K::Then(b(&Ast::new(K::Then(b(&q), b(&p)))), b(&s))),
        2 if form % 6 >= 4 => Ast::new(K::Unit(cls.clone(), Op::Many1, CondK::None)),
        2 if form % 6 == 2 => Ast::new(K::Then(b(&Ast::new(K::Then(b(&p), b(&s)))), b(&q))),
        8 => Ast::new(K::Unit(cls.clone(), Op::Many0, CondK::None)),
        _ if r.flip() => p.clone(),
        _ => Ast::new(K::Then(b(&p), b(&q))),
    };
    let (mut data, mut at) = gen_input(r, &g, &whole, None);
    if family == 0 {
        let lead = blanks(r, text);
        data.splice(at..at, lead);
        data.extend(blanks(r, text));
        if r.flip() {
            data.extend(random_input(r, &g, 3));
        }
    }
    let mut lit = random_input(r, &g, 5);
    if family == 3 || form == 37 {
        let bs = bounds(&data, text);
        match r.below(4) {
            0 => {}
            k => {
                // what stands there, whole or with its last element replaced
                let i = bs.iter().position(|x| *x == at).unwrap_or(0);
                at = bs[i];
                let j = (i + r.below(6)).min(bs.len() - 1);
                let mut x = data[bs[i]..bs[j]].to_vec();
                if k == 3 && j > i {
                    x.truncate(bs[j - 1] - bs[i]);
                    x.extend(random_input(r, &g, 1));
                }
                lit = x;
            }
        }
    }
    let c = Sc { text, data, at, p, q, s, cls, lit, family, form, pick: r.next() };
    o.note(|| c.show());
    let ret = guarded(|| if c.text { on_text(&c, o) } else { on_bytes(&c, o) });
    o.events += mon_take().events;
    match ret {
        Ok(Ok(nt)) => {
            if nt {
                o.nontrivial(&format!("{}{}{:?}{}{}", c.family, c.form, c.data, c.at, show(&c.p)));
            }
            Ok(())
        }
        Ok(Err(e)) => Err(format!("{e}\n{}", c.show())),
        // sub-patterns over nullable loops: judged by C13
        Err(e) if e.contains("budget exhausted") => {
            o.count("given up: too many steps");
            Ok(())
        }
        Err(e) => Err(format!("{e}\n{}", c.show())),
    }
}

fn main() {
    run(
        Plan {
            quick: 1_500_000,
            ..Plan::new("C29", "one family of shorthands (whitespace shortcuts, the negation operator of every parser type, selections, literal forms, context entry points, before/after policies, the guard, functions as parsers, free functions) over random sub-patterns and inputs; non-trivial when the spelled-out form succeeds")
        },
        case,
    )
}
