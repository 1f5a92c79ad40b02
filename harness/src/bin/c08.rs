//! C08: lists collect exactly the permitted elements, in order, and stop after
//! the last one.  Half of the cases judge list combinators inside random
//! grammars by the reference interpreter; the other half compute the list with
//! a plain loop and compare every form and collection.
use nverif::ast::*;
use nverif::case::*;
use nverif::ctxs::*;
use nverif::drv::{guarded, run, Obs, Plan};
use nverif::generate::{gen_huge, COUNTS};
use nverif::generate::Focus;
use nverif::rng::Rng;
use neure::ctor::{Collect, Ctor, CtorOps, Handler, Repeat, Repeat2, SepCollect, Separate, Separate2};
use neure::ctx::{BytesCtx, CharsCtx, Context};
use neure::err::Error;
use neure::neu::{CRange, NeuIntoRegexOps};
use neure::regex::Regex;
use neure::span::Span;
use std::collections::*;

fn grammar(c: &Case, o: &mut Obs) -> Result<bool, String> {
    let mut m = c.model();
    let want = m.k(&c.ast, c.start);
    if m.over {
        return Ok(false);
    }
    let k = run_ctor(c, budget_for(m.steps))?;
    match (&want, &k.res) {
        (Ok((v, e)), Ok(r)) => {
            if *v != r.erase() {
                return Err(format!("value {:?}, reference {:?}", r.erase(), v));
            }
            if *e != k.off {
                return Err(format!("construction ends at {}, reference at {e}", k.off));
            }
        }
        (Err(_), Err(_)) => {}
        (w, r) => return Err(format!("construction gives {r:?}, reference {w:?}")),
    }
    let mut m = c.model();
    let want = m.tm(&c.ast, c.start, 0);
    if m.over {
        return Ok(false);
    }
    let g = run_match(c, budget_for(m.steps))?;
    match (&want, &g.res) {
        (Ok(w), Ok((b, l))) if w.end == g.off && w.beg == *b && w.end - w.beg == *l => {}
        (Err(_), Err(_)) => {}
        (w, r) => return Err(format!("matching gives {r:?} and stands at {}, reference {w:?}", g.off)),
    }
    observe(o, c, &k.mon);
    let mut lists = false;
    c.ast.walk(&mut |a| {
        lists |= matches!(a.k, K::Repeat(..) | K::Repeat2(..) | K::Collect(..) | K::Sep(..) | K::Sep2(..) | K::SepC(..))
    });
    Ok(lists && k.res.is_ok())
}

/// remembers and refuses
struct H {
    rej: Rej,
}
impl<C> Handler<C> for H {
    type Out = (usize, usize);
    type Error = Error;
    fn invoke(&mut self, _: &C, s: &Span) -> Result<(usize, usize), Error> {
        if self.rej.rejects(s.beg, s.len) { Err(e_handler()) } else { Ok((s.beg, s.len)) }
    }
}

/// asks again after the end
#[derive(Debug)]
struct Nosy(Vec<(usize, usize)>, bool);
impl FromIterator<(usize, usize)> for Nosy {
    fn from_iter<I: IntoIterator<Item = (usize, usize)>>(it: I) -> Self {
        let mut it = it.into_iter();
        let mut v = vec![];
        while let Some(x) = it.next() {
            v.push(x);
        }
        let more = it.next().is_some() || it.next().is_some();
        Nosy(v, more)
    }
}

/// element description: total length and what the handler is shown
#[derive(Clone, Debug)]
enum E {
    One(Cls),
    Many(Cls),
    Lit(Vec<u8>),
    Dash(Cls),
    Pair(Cls, Cls),
}
#[derive(Clone, Debug)]
enum S {
    Lit(Vec<u8>),
    Spaces,
    Cls(Cls),
    Opt(Cls),
}

fn item(inp: &[u8], text: bool, at: usize) -> Option<(u32, usize)> {
    nverif::model::decode(inp, at, text)
}
fn many(inp: &[u8], text: bool, at: usize, c: &Cls) -> usize {
    let mut n = 0;
    while let Some((x, w)) = item(inp, text, at + n) {
        if !c.has(x) {
            break;
        }
        n += w;
    }
    n
}
fn elem(inp: &[u8], text: bool, at: usize, e: &E) -> Option<(usize, (usize, usize))> {
    match e {
        E::One(c) => item(inp, text, at).filter(|x| c.has(x.0)).map(|x| (x.1, (at, x.1))),
        E::Many(c) => Some(many(inp, text, at, c)).filter(|n| *n > 0).map(|n| (n, (at, n))),
        E::Lit(l) => inp[at..].starts_with(l).then_some((l.len(), (at, l.len()))),
        E::Dash(c) => {
            if inp.get(at) != Some(&b'-') {
                return None;
            }
            Some(many(inp, text, at + 1, c)).filter(|n| *n > 0).map(|n| (n + 1, (at + 1, n)))
        }
        E::Pair(a, b) => {
            let x = item(inp, text, at).filter(|x| a.has(x.0))?;
            let y = item(inp, text, at + x.1).filter(|x| b.has(x.0))?;
            Some((x.1 + y.1, (at, x.1 + y.1)))
        }
    }
}
fn sepl(inp: &[u8], text: bool, at: usize, s: &S) -> Option<usize> {
    match s {
        S::Lit(l) => inp[at..].starts_with(l).then_some(l.len()),
        S::Spaces => Some(many(inp, text, at, &Cls::One(' '))).filter(|n| *n > 0),
        S::Cls(c) => item(inp, text, at).filter(|x| c.has(x.0)).map(|x| x.1),
        S::Opt(c) => Some(item(inp, text, at).filter(|x| c.has(x.0)).map_or(0, |x| x.1)),
    }
}

type Pe<'a, C> = Box<dyn Ctor<C, (usize, usize), H> + 'a>;
type Ps<'a, C> = Box<dyn Regex<C> + 'a>;

fn mk_elem<'a, C, T: HItem>(e: &E) -> Pe<'a, C>
where
    C: HCtx<'a> + Context<'a, Item = T>,
{
    match e {
        E::One(c) => Box::new(NeuIntoRegexOps::<'a, C>::once(T::unit(c))),
        E::Many(c) => Box::new(NeuIntoRegexOps::<'a, C>::many1(T::unit(c))),
        E::Lit(l) => {
            let p = C::lit(l, 0);
            Box::new(LitP::<'a, C>(p))
        }
        E::Dash(c) => {
            let d = NeuIntoRegexOps::<'a, C>::once(T::unit(&Cls::One('-')));
            let m = NeuIntoRegexOps::<'a, C>::many1(T::unit(c));
            Box::new(CtorOps::<'a, C>::prefix(m, d))
        }
        E::Pair(a, b) => Box::new(NeuIntoRegexOps::<'a, C>::then(T::unit(a), T::unit(b))),
    }
}
/// a literal as a value
struct LitP<'a, C>(nverif::probe::Dyn<'a, C>);
impl<'a, C: HCtx<'a>> Regex<C> for LitP<'a, C> {
    fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
        self.0.try_parse(ctx)
    }
}
impl<'a, C: HCtx<'a>> Ctor<C, (usize, usize), H> for LitP<'a, C> {
    fn construct(&self, ctx: &mut C, h: &mut H) -> Result<(usize, usize), Error> {
        let s = ctx.try_mat(&self.0)?;
        h.invoke(ctx, &s)
    }
}

fn mk_sep<'a, C, T: HItem>(s: &S) -> Ps<'a, C>
where
    C: HCtx<'a> + Context<'a, Item = T>,
{
    match s {
        S::Lit(l) => Box::new(C::lit(l, 1)),
        S::Spaces => Box::new(NeuIntoRegexOps::<'a, C>::many1(T::unit(&Cls::One(' ')))),
        S::Cls(c) => Box::new(NeuIntoRegexOps::<'a, C>::once(T::unit(c))),
        S::Opt(c) => Box::new(NeuIntoRegexOps::<'a, C>::opt(T::unit(c))),
    }
}

struct L {
    els: Vec<(usize, usize)>,
    end: usize,
    ok: bool,
}

#[allow(clippy::too_many_arguments)]
fn reference(
    inp: &[u8],
    text: bool,
    start: usize,
    e: &E,
    s: Option<(&S, bool)>,
    rej: &Rej,
    lo: usize,
    hi: Option<usize>,
) -> L {
    let mut pos = start;
    let mut els = vec![];
    while hi.is_none_or(|h| els.len() < h) {
        let Some((n, v)) = elem(inp, text, pos, e) else { break };
        if rej.rejects(v.0, v.1) {
            break;
        }
        match s {
            None => {
                els.push(v);
                pos += n;
            }
            Some((s, skip)) => match sepl(inp, text, pos + n, s) {
                Some(m) => {
                    els.push(v);
                    pos += n + m;
                }
                None => {
                    if skip {
                        els.push(v);
                        pos += n;
                    }
                    break;
                }
            },
        }
    }
    let ok = els.len() >= lo;
    L { end: if ok { pos } else { start }, ok, els }
}

struct Got {
    form: String,
    val: Option<Result<Vec<(usize, usize)>, Error>>,
    span: Option<Result<(usize, usize), Error>>,
    off: usize,
    /// only as a set
    set: bool,
    bad: Option<String>,
}

fn lists<'a, C, T: HItem>(ctx: &mut C, r: &mut Rng, o: &mut Obs, inp: &[u8], start: usize, e: &E, s: &S, rej: &Rej, size: usize) -> Result<bool, String>
where
    C: HCtx<'a> + Context<'a, Item = T>,
{
    let text = C::TEXT;
    let mut h = H { rej: rej.clone() };
    let pe = || mk_elem::<C, T>(e);
    let ps = || mk_sep::<C, T>(s);
    ctx.set_offset(start);
    let skip = r.flip();
    // bounds around the size of a long list
    let min = if size > 15 && r.flip() { size.saturating_sub(2) + r.below(4) } else { r.below(4) };
    let by_match = r.chance(1, 3);
    let mut got = Got { form: String::new(), val: None, span: None, off: 0, set: false, bad: None };
    let (lo, hi, sep);
    macro_rules! go {
        ($p:expr, $t:ty, $conv:expr) => {{
            let p = $p;
            got.form.push_str(&format!("{} into {}", stringify!($p).replace('\n', " "), stringify!($t)));
            if by_match {
                got.span = Some(guarded(|| ctx.try_mat(&p))?.map(|s: Span| (s.beg, s.len)));
            } else {
                let v: Result<$t, Error> = guarded(|| Ctor::<C, $t, H>::construct(&p, ctx, &mut h))?;
                got.val = Some(v.map($conv));
            }
        }};
    }
    macro_rules! into_coll {
        ($mk:ident) => {
            match r.below(8) {
                0 => go!($mk!(Vec<(usize, usize)>), Vec<(usize, usize)>, |v| v),
                1 => go!($mk!(VecDeque<(usize, usize)>), VecDeque<(usize, usize)>, |v| v.into_iter().collect()),
                2 => go!($mk!(LinkedList<(usize, usize)>), LinkedList<(usize, usize)>, |v| v.into_iter().collect()),
                3 => go!($mk!(BTreeSet<(usize, usize)>), BTreeSet<(usize, usize)>, |v| v.into_iter().collect()),
                4 => {
                    got.set = true;
                    go!($mk!(HashMap<usize, usize>), HashMap<usize, usize>, |v| v.into_iter().collect())
                }
                5 => go!($mk!(BTreeMap<usize, usize>), BTreeMap<usize, usize>, |v| v.into_iter().collect()),
                6 => go!($mk!(Box<[(usize, usize)]>), Box<[(usize, usize)]>, |v| v.into_vec()),
                _ => {
                    let mut more = false;
                    go!($mk!(Nosy), Nosy, |v| {
                        more = v.1;
                        v.0
                    });
                    if more {
                        got.bad = Some("an element was produced after the end of the list".into());
                    }
                }
            }
        };
    }
    macro_rules! arr {
        ($p:expr, $n:literal) => {{
            let p = $p;
            got.form.push_str(&format!("{}", stringify!($p).replace('\n', " ")));
            if by_match {
                got.span = Some(guarded(|| ctx.try_mat(&p))?.map(|s: Span| (s.beg, s.len)));
            } else {
                let v: Result<[Option<(usize, usize)>; $n], Error> = guarded(|| Ctor::<C, _, H>::construct(&p, ctx, &mut h))?;
                if let Ok(v) = &v {
                    let n = v.iter().take_while(|x| x.is_some()).count();
                    if v[n..].iter().any(|x| x.is_some()) {
                        got.bad = Some(format!("array is not filled from the front: {v:?}"));
                    }
                }
                got.val = Some(v.map(|v| v.into_iter().flatten().collect()));
            }
        }};
    }
    type B<'a, C> = Pe<'a, C>;
    let other = || mk_elem::<C, T>(&E::One(Cls::One('Z')));
    match r.below(8) {
        // repeat
        0 => {
            sep = None;
            let (a, b) = (min, min + r.below(4));
            match r.below(11) {
                0 => {
                    (lo, hi) = (a, Some(b));
                    go!(<B<C> as CtorOps<C>>::repeat(pe(), a..=b), Vec<(usize, usize)>, |v| v)
                }
                1 => {
                    (lo, hi) = (a, Some(b));
                    go!(<B<C> as CtorOps<C>>::repeat(pe(), a..b + 1), Vec<(usize, usize)>, |v| v)
                }
                2 => {
                    (lo, hi) = (a, None);
                    go!(<B<C> as CtorOps<C>>::repeat(pe(), a..), Vec<(usize, usize)>, |v| v)
                }
                3 => {
                    (lo, hi) = (0, Some(b));
                    go!(<B<C> as CtorOps<C>>::repeat(pe(), ..=b), Vec<(usize, usize)>, |v| v)
                }
                4 => {
                    (lo, hi) = (0, Some(b));
                    go!(<B<C> as CtorOps<C>>::repeat(pe(), ..b + 1), Vec<(usize, usize)>, |v| v)
                }
                5 => {
                    (lo, hi) = (a, Some(a));
                    go!(<B<C> as CtorOps<C>>::repeat(pe(), a), Vec<(usize, usize)>, |v| v)
                }
                6 => {
                    (lo, hi) = (0, None);
                    go!(<B<C> as CtorOps<C>>::repeat(pe(), ..), Vec<(usize, usize)>, |v| v)
                }
                7 => {
                    (lo, hi) = (a, Some(b));
                    let cap = r.below(100);
                    go!(Repeat::new(pe(), 1..).with_range(a..=b).with_capacity(cap), Vec<(usize, usize)>, |v| v)
                }
                8 => {
                    (lo, hi) = (a, Some(b));
                    let mut p = Repeat::new(other(), 9..);
                    p.set_range(a..=b).set_pat(pe()).set_capacity(3);
                    go!(p, Vec<(usize, usize)>, |v| v)
                }
                9 => {
                    (lo, hi) = (a + 1, None);
                    go!(
                        Repeat::new(other(), CRange::new(std::ops::Bound::Excluded(a), std::ops::Bound::Unbounded)).with_pat(pe()),
                        Vec<(usize, usize)>,
                        |v| v
                    )
                }
                _ => {
                    // bounds nobody can reach
                    (lo, hi) = (usize::MAX - a, None);
                    go!(<B<C> as CtorOps<C>>::repeat(pe(), usize::MAX - a..), Vec<(usize, usize)>, |v| v)
                }
            }
        }
        1 => {
            sep = None;
            macro_rules! rp {
                ($m:literal, $n:literal) => {{
                    (lo, hi) = ($m, Some($n));
                    match r.below(3) {
                        0 => arr!(Repeat2::<C, B<C>, $m, $n>::new(pe()), $n),
                        1 => arr!(Repeat2::<C, B<C>, $m, $n>::new(other()).with_pat(pe()), $n),
                        _ => arr!(<B<C> as CtorOps<C>>::repeat2::<$m, $n>(pe()), $n),
                    }
                }};
            }
            match r.below(if size > 15 { 12 } else { 8 }) {
                7.. => match r.below(5) {
                    0 => rp!(0, 16),
                    1 => rp!(9, 17),
                    2 => rp!(33, 40),
                    3 => rp!(2, 65),
                    _ => rp!(0, 260),
                },
                0 => rp!(0, 1),
                1 => rp!(0, 4),
                2 => rp!(1, 1),
                3 => rp!(1, 5),
                4 => rp!(2, 2),
                5 => rp!(3, 6),
                _ => rp!(0, 0),
            }
        }
        2 => {
            sep = None;
            let dflt = r.chance(1, 4);
            (lo, hi) = (if dflt { 1 } else { min }, None);
            match r.below(3) {
                0 if !dflt => {
                    macro_rules! c { ($t:ty) => { <B<C> as CtorOps<C>>::collect::<(usize, usize), $t>(pe()).at_least(min) } }
                    into_coll!(c)
                }
                1 if !dflt => {
                    macro_rules! c { ($t:ty) => {{ let mut p = Collect::<C, B<C>, (usize, usize), $t>::new(other()); p.set_min(min).set_pat(pe()); p }} }
                    into_coll!(c)
                }
                _ if dflt => {
                    macro_rules! c { ($t:ty) => { <B<C> as CtorOps<C>>::collect::<(usize, usize), $t>(pe()) } }
                    into_coll!(c)
                }
                _ => {
                    macro_rules! c { ($t:ty) => {{ let mut p = Collect::<C, B<C>, (usize, usize), $t>::new(other()).at_least(min); *p.pat_mut() = pe(); p }} }
                    into_coll!(c)
                }
            }
        }
        3 | 4 => {
            let dflt = r.chance(1, 4);
            sep = Some(if dflt { true } else { skip });
            (lo, hi) = (if dflt { 1 } else { min }, None);
            match r.below(3) {
                _ if dflt => go!(<B<C> as CtorOps<C>>::sep(pe(), ps()), Vec<(usize, usize)>, |v| v),
                0 => go!(<B<C> as CtorOps<C>>::sep(pe(), ps()).at_least(min).with_skip(skip), Vec<(usize, usize)>, |v| v),
                1 => {
                    let cap = r.below(60);
                    go!(Separate::<C, _, _>::new(pe(), ps()).with_skip(skip).with_capacity(cap).at_least(min), Vec<(usize, usize)>, |v| v)
                }
                _ => {
                    let mut p = Separate::<C, B<C>, Ps<C>>::new(other(), Box::new(neure::regex::fail()));
                    p.set_pat(pe()).set_sep(ps()).set_skip(skip).set_min(min).set_capacity(2);
                    go!(p, Vec<(usize, usize)>, |v| v)
                }
            }
        }
        5 => {
            sep = Some(skip);
            macro_rules! rp {
                ($m:literal, $n:literal) => {{
                    (lo, hi) = ($m, Some($n));
                    match r.below(2) {
                        0 => arr!(<B<C> as CtorOps<C>>::sep2::<_, $m, $n>(pe(), ps()).with_skip(skip), $n),
                        _ => {
                            let mut p = Separate2::<C, B<C>, Ps<C>, $m, $n>::new(other(), Box::new(neure::regex::fail()));
                            p.set_pat(pe()).set_sep(ps()).set_skip(skip);
                            arr!(p, $n)
                        }
                    }
                }};
            }
            match r.below(if size > 15 { 12 } else { 8 }) {
                7.. => match r.below(5) {
                    0 => rp!(0, 16),
                    1 => rp!(9, 17),
                    2 => rp!(33, 40),
                    3 => rp!(2, 65),
                    _ => rp!(0, 260),
                },
                0 => rp!(0, 1),
                1 => rp!(0, 4),
                2 => rp!(1, 1),
                3 => rp!(1, 5),
                4 => rp!(2, 2),
                5 => rp!(3, 6),
                _ => rp!(0, 0),
            }
        }
        _ => {
            let dflt = r.chance(1, 4);
            sep = Some(if dflt { true } else { skip });
            (lo, hi) = (if dflt { 1 } else { min }, None);
            match r.below(2) {
                _ if dflt => {
                    macro_rules! c { ($t:ty) => { <B<C> as CtorOps<C>>::sep_collect::<_, (usize, usize), $t>(pe(), ps()) } }
                    into_coll!(c)
                }
                0 => {
                    macro_rules! c { ($t:ty) => { <B<C> as CtorOps<C>>::sep_collect::<_, (usize, usize), $t>(pe(), ps()).with_skip(skip).at_least(min) } }
                    into_coll!(c)
                }
                _ => {
                    macro_rules! c { ($t:ty) => {{
                        let mut p = SepCollect::<C, B<C>, Ps<C>, (usize, usize), $t>::new(other(), Box::new(neure::regex::fail()));
                        p.set_pat(pe()).set_sep(ps()).set_skip(skip).set_min(min);
                        p
                    }} }
                    into_coll!(c)
                }
            }
        }
    }
    got.off = ctx.offset();
    let none = Rej::None;
    let w = reference(inp, text, start, e, sep.map(|k| (s, k)), if by_match { &none } else { rej }, lo, hi);
    o.note(|| {
        format!(
            "{} min={min} skip={skip}: element {e:?} separator {s:?} handler {rej:?} on {} from {start}\nexpected {:?} ending at {}",
            got.form,
            show_input(inp, text),
            if w.ok { Some(&w.els) } else { None },
            w.end
        )
    });
    if let Some(b) = got.bad {
        return Err(b);
    }
    let mut bad = got.off != w.end;
    if let Some(v) = &got.val {
        bad |= match v {
            Ok(v) => {
                let mut v = v.clone();
                if got.set {
                    v.sort();
                }
                !w.ok || v != w.els
            }
            Err(_) => w.ok,
        };
    }
    if let Some(s) = &got.span {
        bad |= match s {
            Ok((b, l)) => !w.ok || *b != start || b + l != w.end,
            Err(_) => w.ok,
        };
    }
    if bad {
        return Err(format!(
            "{}: expected {:?} ending at {}, got value {:?} span {:?} and the position {}",
            got.form,
            if w.ok { Some(&w.els) } else { None },
            w.end,
            got.val,
            got.span,
            got.off
        ));
    }
    o.events += w.els.len() as u64 + 1;
    if o.index % 16 == 0 {
        let f = got.form.split(" into ").next().unwrap().split_whitespace().collect::<Vec<_>>().join(" ");
        let f: String = f.chars().take(60).collect();
        o.count(&format!("sampled_1_in_16:{f}"));
        o.count(if w.ok { "sampled_1_in_16:list accepted" } else { "sampled_1_in_16:list too short" });
        if hi == Some(w.els.len()) {
            o.count("sampled_1_in_16:list stopped by its maximum");
        }
        o.max("elements", w.els.len() as u64);
    }
    Ok(!w.els.is_empty())
}

fn plain(r: &mut Rng, o: &mut Obs) -> Result<(), String> {
    let text = r.chance(2, 3);
    let wide = text && r.flip();
    let a = if wide { Cls::Set(vec!['é', 'a', '😀'], 3) } else { Cls::Range('a', 'b', r.below(6) as u8) };
    let b = if r.flip() { Cls::One('x') } else { Cls::AsciiDigit };
    let e = match r.below(5) {
        0 => E::One(a.clone()),
        1 => E::Many(a.clone()),
        2 => E::Lit(if wide { "aé".as_bytes().to_vec() } else { b"ab".to_vec() }),
        3 => E::Dash(a.clone()),
        _ => E::Pair(a.clone(), b.clone()),
    };
    let s = match r.below(5) {
        0 | 1 => S::Lit(if r.flip() { b",".to_vec() } else { b", ".to_vec() }),
        2 => S::Spaces,
        3 => S::Cls(Cls::Set(vec![',', ';'], 0)),
        _ => S::Opt(Cls::One(',')),
    };
    let chars: &[&str] = if wide { &["é", "a", "😀"] } else { &["a", "b"] };
    let mut t = String::new();
    for _ in 0..r.below(3) {
        t.push_str(*r.pick(&["a", "é", ",", "-"][..]));
    }
    if r.chance(1, 40) {
        t.push_str(&"aé,".repeat(r.range(2, 100)));
    }
    if !text {
        t = t.replace('é', "b");
    }
    let start = t.len();
    let n = match r.below(60) {
        0 => r.range(20, 200),
        1 => *r.pick(COUNTS),
        _ => gen_huge(r, 1500, 70_000).unwrap_or(r.below(8)),
    };
    // a slip in the input ends the list
    let slip = if n > 15 { n } else { 8 };
    for i in 0..n {
        match &e {
            E::One(_) => t.push_str(*r.pick(chars)),
            E::Many(_) => {
                for _ in 0..r.range(1, 3) {
                    t.push_str(*r.pick(chars))
                }
            }
            E::Lit(l) => t.push_str(std::str::from_utf8(l).unwrap()),
            E::Dash(_) => {
                t.push('-');
                for _ in 0..r.range(1, 3) {
                    t.push_str(*r.pick(chars))
                }
            }
            E::Pair(..) => {
                t.push_str(*r.pick(chars));
                t.push(if matches!(b, Cls::One(_)) { 'x' } else { '7' });
            }
        }
        if i + 1 < n || r.flip() {
            if r.chance(1, slip) {
                t.push_str(*r.pick(&["", ",", " ", ";", ",,", "-"]));
            } else {
                match &s {
                    S::Lit(l) => t.push_str(std::str::from_utf8(l).unwrap()),
                    S::Spaces => t.push_str(*r.pick(&[" ", "  "])),
                    S::Cls(_) => t.push_str(*r.pick(&[",", ";"])),
                    S::Opt(_) => t.push_str(*r.pick(&[",", ""])),
                }
            }
        }
    }
    for _ in 0..r.below(3) {
        t.push_str(*r.pick(&["a", "b", ",", "-", " ", "x", "7"]));
    }
    let inp = t.into_bytes();
    let rej = if r.chance(1, if n > 15 { 9 } else { 3 }) { gen_rej(r) } else { Rej::None };
    let nt = match (text, r.below(3)) {
        (true, 0) => lists(&mut UText::mk(&inp), r, o, &inp, start, &e, &s, &rej, n)?,
        (true, _) => lists(&mut <CharsCtx as HCtx>::mk(&inp), r, o, &inp, start, &e, &s, &rej, n)?,
        (false, 0) => lists(&mut UBytes::mk(&inp), r, o, &inp, start, &e, &s, &rej, n)?,
        (false, _) => lists(&mut <BytesCtx as HCtx>::mk(&inp), r, o, &inp, start, &e, &s, &rej, n)?,
    };
    if nt {
        o.nontrivial(&(format!("{e:?}{s:?}{rej:?}"), &inp, start));
    }
    Ok(())
}

/// lists of more than a million elements: no counter on the way may be narrower than a length
fn millions(o: &mut Obs) -> Result<(), String> {
    let n = if o.thorough { (1 << 22) + 5 } else { 1_100_000 };
    o.note(|| format!("every unbounded list of {n} elements"));
    let (plain, seps) = ("a".repeat(n), "a,".repeat(n));
    type C<'a> = CharsCtx<'a>;
    fn go<'a, P, V>(name: &str, s: &'a str, end: usize, n: usize, p: P, len: fn(V) -> usize, o: &mut Obs) -> Result<(), String>
    where
        P: Ctor<C<'a>, V, neure::ctor::Extract<Span>> + Regex<C<'a>>,
    {
        use neure::ctx::{Match, MatchExt};
        let mut c = CharsCtx::new(s);
        let m = guarded(|| c.try_mat(&p))?;
        if m != Ok(Span::new(0, end)) || c.offset() != end {
            return Err(format!("{name} of {n} matches {m:?} to {}", c.offset()));
        }
        c.set_offset(0);
        let v = guarded(|| c.ctor_span::<_, V>(&p))?.map(len);
        if v != Ok(n) || c.offset() != end {
            return Err(format!("{name} of {n} elements constructs {v:?} elements, to {}", c.offset()));
        }
        o.events += 2;
        Ok(())
    }
    let e = NeuIntoRegexOps::<C>::once('a');
    let (len, last) = (plain.len(), seps.len());
    go("repeat(1..)", &plain, len, n, CtorOps::repeat(e, 1..), |v: Vec<Span>| v.len(), o)?;
    go("repeat(n..)", &plain, len, n, CtorOps::repeat(e, n..), |v: Vec<Span>| v.len(), o)?;
    go("repeat(..)", &plain, len, n, CtorOps::repeat(e, ..), |v: Vec<Span>| v.len(), o)?;
    go("repeat(..=n - 7)", &plain, len - 7, n - 7, CtorOps::repeat(e, ..=n - 7), |v: Vec<Span>| v.len(), o)?;
    go("collect", &plain, len, n, CtorOps::collect::<Span, Vec<Span>>(e).at_least(n), |v: Vec<Span>| v.len(), o)?;
    go("sep", &seps, last, n, CtorOps::sep(e, ","), |v: Vec<Span>| v.len(), o)?;
    go("sep at_least", &seps, last, n, CtorOps::sep(e, ",").at_least(n), |v: Vec<Span>| v.len(), o)?;
    go("sep with every separator", &seps, last, n, CtorOps::sep(e, ",").with_skip(false), |v: Vec<Span>| v.len(), o)?;
    go("sep_collect", &seps, last, n, CtorOps::sep_collect::<_, Span, Vec<Span>>(e, ","), |v: Vec<Span>| v.len(), o)?;
    for p in [CtorOps::repeat(e, n + 1..), CtorOps::repeat(e, n + 1..=n + 1)] {
        use neure::ctx::{Match, MatchExt};
        let mut c = CharsCtx::new(&plain);
        let (m, v) = (c.try_mat(&p), c.ctor_span::<_, Vec<Span>>(&p));
        if m.is_ok() || v.is_ok() || c.offset() != 0 {
            return Err(format!("more than {n} of {n}: {m:?}, position {}", c.offset()));
        }
    }
    o.count("lists_of_more_than_a_million");
    Ok(())
}

fn case(r: &mut Rng, o: &mut Obs) -> Result<(), String> {
    if o.index == 0 {
        millions(o)?;
    }
    if r.flip() {
        return plain(r, o);
    }
    let w = Want {
        rej: r.chance(1, 3),
        try_map: r.chance(1, 3),
        depth: if o.thorough { 4 } else { 3 },
        focus: Some(Focus::Lists),
        ..Want::new(PLAIN)
    };
    let (c, _) = gen_case(r, &w);
    verdict(o, c, &grammar)
}

fn main() {
    run(
        Plan {
            quick: 2_500_000,
            ..Plan::new("C08", "a random list (element, separator, bounds, form, collection, handler refusals) on an input made of elements and separators, or a random grammar rich in lists; non-trivial when at least one element was returned (plain lists) or the grammar contains a list and constructs")
        },
        case,
    )
}
