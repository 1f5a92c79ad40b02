//! Running one grammar on one input, for real and by the reference.
use crate::ast::*;
use crate::build::build;
use crate::ctxs::*;
use crate::drv::guarded;
use crate::generate::*;
use crate::model::*;
use crate::probe::*;
use crate::rng::Rng;

use neure::err::Error;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Chars,
    Bytes,
    UText,
    UBytes,
    PText,
    PBytes,
}

impl Kind {
    pub fn text(self) -> bool {
        matches!(self, Kind::Chars | Kind::UText | Kind::PText)
    }
    pub fn policy(self) -> bool {
        matches!(self, Kind::PText | Kind::PBytes)
    }
}

#[derive(Clone, Debug)]
pub struct Case {
    pub ast: Ast,
    pub inp: Vec<u8>,
    pub start: usize,
    pub rej: Rej,
    pub kind: Kind,
    pub skip: Ast,
}

impl Case {
    pub fn show(&self) -> String {
        format!(
            "context {:?}{} input {} start {} handler {:?}\ngrammar {}",
            self.kind,
            if self.kind.policy() { format!(" skipping {}", show(&self.skip)) } else { String::new() },
            show_input(&self.inp, self.kind.text()),
            self.start,
            self.rej,
            show(&self.ast)
        )
    }
    pub fn key(&self) -> String {
        format!("{:?}|{:?}|{}|{:?}|{:?}", self.ast, self.inp, self.start, self.rej, self.kind)
    }
    pub fn model(&self) -> Model<'_> {
        let mut m = Model::new(&self.inp, self.kind.text());
        if self.kind.policy() {
            m.skip = Some(&self.skip);
        }
        m.rej = self.rej.clone();
        m
    }
}

pub fn show_input(b: &[u8], text: bool) -> String {
    match (text, std::str::from_utf8(b)) {
        (true, Ok(s)) => format!("{s:?}"),
        _ => format!("{b:?}"),
    }
}

/// compact rendering of a grammar
pub fn show(a: &Ast) -> String {
    format!("{:?}", a).replace("Ast { k: ", "").replace(" }", "")
}

#[derive(Clone, Debug)]
pub struct Out<T> {
    pub res: Result<T, Error>,
    pub off: usize,
    pub mon: Mon,
    pub log: Vec<Inv>,
}

/// plain matching of a fresh parser
pub fn match_on<'a, C: HCtx<'a>>(
    ctx: &mut C,
    ast: &Ast,
    start: usize,
    budget: u64,
) -> Result<Out<(usize, usize)>, String> {
    guarded(|| {
        let p = build::<C>(ast);
        ctx.set_offset(start);
        mon_reset(budget);
        let res = ctx.try_mat(&p).map(|s| (s.beg, s.len));
        Out { res, off: ctx.offset(), mon: mon_take(), log: vec![] }
    })
}

pub fn ctor_on<'a, C: HCtx<'a>>(
    ctx: &mut C,
    ast: &Ast,
    start: usize,
    rej: &Rej,
    budget: u64,
) -> Result<Out<Val>, String> {
    guarded(|| {
        let p = build::<C>(ast);
        ctx.set_offset(start);
        mon_reset(budget);
        let mut h = Rec::new(rej.clone());
        let res = ctor_with(ctx, &p, &mut h);
        Out { res, off: ctx.offset(), mon: mon_take(), log: h.log }
    })
}

/// enters construction with a handler that outlives it
pub fn ctor_with<'a, C: HCtx<'a>>(ctx: &mut C, p: &Dyn<'a, C>, h: &mut Rec) -> Result<Val, Error> {
    use neure::ctor::Ctor;
    p.construct(ctx, h)
}

/// the same construction through the entry point that takes the handler away
pub fn ctor_taken_on<'a, C: HCtx<'a> + neure::ctx::MatchExt<'a>>(
    ctx: &mut C,
    ast: &Ast,
    start: usize,
    rej: &Rej,
    budget: u64,
) -> Result<Out<Val>, String> {
    guarded(|| {
        let p = build::<C>(ast);
        ctx.set_offset(start);
        mon_reset(budget);
        let res = ctx.ctor_handler(&p, Rec::new(rej.clone()));
        Out { res, off: ctx.offset(), mon: mon_take(), log: vec![] }
    })
}

#[macro_export]
macro_rules! on_kind {
    ($case:expr, |$ctx:ident| $body:expr) => {{
        let case: &$crate::case::Case = $case;
        use $crate::case::Kind::*;
        use $crate::ctxs::*;
        match case.kind {
            Chars => {
                let $ctx = &mut <::neure::ctx::CharsCtx as HCtx>::mk(&case.inp);
                $body
            }
            Bytes => {
                let $ctx = &mut <::neure::ctx::BytesCtx as HCtx>::mk(&case.inp);
                $body
            }
            UText => {
                let $ctx = &mut <$crate::ctxs::UText as HCtx>::mk(&case.inp);
                $body
            }
            UBytes => {
                let $ctx = &mut <$crate::ctxs::UBytes as HCtx>::mk(&case.inp);
                $body
            }
            PText => {
                let $ctx = &mut pol_text(&case.inp, &case.skip);
                $body
            }
            PBytes => {
                let $ctx = &mut pol_bytes(&case.inp, &case.skip);
                $body
            }
        }
    }};
}

pub fn run_match(c: &Case, budget: u64) -> Result<Out<(usize, usize)>, String> {
    on_kind!(c, |ctx| match_on(ctx, &c.ast, c.start, budget))
}

pub fn run_ctor(c: &Case, budget: u64) -> Result<Out<Val>, String> {
    on_kind!(c, |ctx| ctor_on(ctx, &c.ast, c.start, &c.rej, budget))
}

pub fn run_ctor_taken(c: &Case, budget: u64) -> Result<Out<Val>, String> {
    on_kind!(c, |ctx| ctor_taken_on(ctx, &c.ast, c.start, &c.rej, budget))
}

/// events a run may produce before it counts as not ending
pub fn budget_for(steps: u64) -> u64 {
    40 * steps + 20_000
}

pub fn gen_rej(r: &mut Rng) -> Rej {
    match r.below(4) {
        0 => Rej::LenIs(r.below(4)),
        1 => {
            let m = r.range(2, 4);
            Rej::BegMod(m, r.below(m))
        }
        2 => {
            let m = r.range(2, 4);
            Rej::EndMod(m, r.below(m))
        }
        _ => Rej::LenIs(1),
    }
}

#[derive(Clone, Debug)]
pub struct Want {
    pub kinds: &'static [Kind],
    pub rej: bool,
    pub try_map: bool,
    pub dync: bool,
    pub depth: u32,
    pub conds: bool,
    pub focus: Option<Focus>,
    /// one case in so many is far beyond the usual size
    pub big: usize,
    pub long: bool,
    /// one case in so many starts far into its input
    pub far: usize,
}

pub const PLAIN: &[Kind] = &[Kind::Chars, Kind::Chars, Kind::Bytes, Kind::UText, Kind::UBytes];
pub const ALL: &[Kind] =
    &[Kind::Chars, Kind::Bytes, Kind::Chars, Kind::UText, Kind::PText, Kind::PBytes, Kind::PText];

impl Want {
    pub const fn new(kinds: &'static [Kind]) -> Want {
        Want { kinds, rej: false, try_map: false, dync: false, depth: 4, conds: true, focus: None, big: 30, long: false, far: 300 }
    }
}

pub fn cfg_for(r: &mut Rng, kind: Kind, w: &Want) -> Cfg {
    let depth = r.range(1, w.depth as usize) as u32;
    let ascii = r.chance(1, 4);
    let mut g = match (kind.text(), ascii) {
        (t, true) => Cfg::ascii(depth, t),
        (true, _) => Cfg::text(depth),
        (false, _) => Cfg::bytes(depth),
    };
    if r.chance(3, 4) {
        g = g.narrow(r);
    }
    // a blank that can be skipped must be able to occur
    if kind.policy() && !g.alpha.contains(&' ') {
        g.alpha.push(' ');
    }
    g.try_map = w.try_map;
    g.dync = w.dync;
    g.conds = w.conds;
    g.focus = w.focus;
    g.big = w.big > 0 && r.chance(1, w.big);
    g.long = w.long;
    if g.big {
        g.depth = g.depth.min(3);
    }
    g
}

/// a policy that skips everything it can at once
pub fn gen_skip(r: &mut Rng) -> Ast {
    let c = r.pick(&[Cls::AsciiWs, Cls::AsciiWs, Cls::One(' '), Cls::Set(vec![' ', ','], 3)]).clone();
    let many0 = |c: Cls| Ast::new(K::Unit(c, Op::Many0, CondK::None));
    let lit = |s: &str| Ast::new(K::Lit(s.as_bytes().to_vec(), 0));
    match r.below(4) {
        // blanks and comments `#...#`
        0 => {
            let body = many0(Cls::Not(Box::new(Cls::One('#'))));
            let com = Ast::new(K::Enclose(Box::new(lit("#")), Box::new(body), Box::new(lit("#"))));
            let ws = Ast::new(K::Unit(c, Op::Many1, CondK::None));
            let any = Ast::new(K::Or(Box::new(ws), Box::new(com)));
            Ast::new(K::Repeat((std::ops::Bound::Unbounded, std::ops::Bound::Unbounded), Box::new(any)))
        }
        _ => many0(c),
    }
}

pub fn gen_case(r: &mut Rng, w: &Want) -> (Case, Cfg) {
    let kind = *r.pick(w.kinds);
    let g = cfg_for(r, kind, w);
    let ast = gen_ast(r, &g);
    let skip = gen_skip(r);
    let ws = if kind.policy() { Some(&skip) } else { None };
    let (mut inp, mut start) = gen_input(r, &g, &ast, ws);
    // a match far into the input: no position may be narrowed on the way
    if w.far > 0 && r.chance(1, w.far) {
        let n = *r.pick(&[254, 255, 256, 256, 257, 300, 4096, 65535, 65536, 65536, 65537, 65600, 70_001, 140_003]);
        let mut far = vec![b'a'; n];
        far.extend_from_slice(&inp);
        inp = far;
        start += n;
    }
    let rej = if w.rej && r.chance(2, 3) { gen_rej(r) } else { Rej::None };
    (Case { ast, inp, start, rej, kind, skip }, g)
}

/// every direct sub-pattern replaced; the flag says whether it constructs a value
pub fn map_parts(a: &Ast, f: &mut dyn FnMut(&Ast, bool) -> Ast) -> Ast {
    let mut v = |x: &Ast| Box::new(f(x, true));
    let k = match &a.k {
        K::Then(x, y) => K::Then(v(x), v(y)),
        K::Or(x, y) => K::Or(v(x), v(y)),
        K::Ltm(x, y) => K::Ltm(v(x), v(y)),
        K::Sel0(x, y) => K::Sel0(v(x), v(y)),
        K::Sel1(x, y) => K::Sel1(v(x), v(y)),
        K::Branch(t, x, y) => K::Branch(t.clone(), v(x), v(y)),
        K::Opt(x) => K::Opt(v(x)),
        K::Repeat(r, x) => K::Repeat(*r, v(x)),
        K::Repeat2(r, x) => K::Repeat2(*r, v(x)),
        K::Collect(r, x) => K::Collect(*r, v(x)),
        K::Map(r, x) => K::Map(*r, v(x)),
        K::TryMap(r, x) => K::TryMap(r.clone(), v(x)),
        K::Wrap(r, x) => K::Wrap(*r, v(x)),
        K::Table(a, b, c, xs) => K::Table(*a, *b, *c, xs.iter().map(|x| *v(x)).collect()),
        K::Sep(m, k, x, y) => K::Sep(*m, *k, v(x), Box::new(f(y, false))),
        K::SepC(m, k, x, y) => K::SepC(*m, *k, v(x), Box::new(f(y, false))),
        K::Sep2(m, k, x, y) => K::Sep2(*m, *k, v(x), Box::new(f(y, false))),
        K::SepOnce(x, s, y) => K::SepOnce(v(x), Box::new(f(s, false)), Box::new(f(y, true))),
        K::Enclose(o, x, c) => K::Enclose(Box::new(f(o, false)), Box::new(f(x, true)), Box::new(f(c, false))),
        K::Prefix(p, x) => K::Prefix(Box::new(f(p, false)), Box::new(f(x, true))),
        K::Suffix(x, s) => K::Suffix(Box::new(f(x, true)), Box::new(f(s, false))),
        K::IfThen(l, t, r) => K::IfThen(Box::new(f(l, true)), Box::new(f(t, false)), Box::new(f(r, true))),
        K::Not(x) => K::Not(Box::new(f(x, false))),
        K::Peek(x) => K::Peek(Box::new(f(x, false))),
        K::Pat(x) => K::Pat(Box::new(f(x, false))),
        K::Unit(c, op, CondK::Rx(x)) => K::Unit(c.clone(), op.clone(), CondK::Rx(Box::new(f(x, false)))),
        K::Unit(c, op, CondK::RxNot(x)) => K::Unit(c.clone(), op.clone(), CondK::RxNot(Box::new(f(x, false)))),
        K::Unit2(c, d, CondK::Rx(x)) => K::Unit2(c.clone(), d.clone(), CondK::Rx(Box::new(f(x, false)))),
        K::Unit2(c, d, CondK::RxNot(x)) => K::Unit2(c.clone(), d.clone(), CondK::RxNot(Box::new(f(x, false)))),
        k => k.clone(),
    };
    Ast::new(k)
}

/// does construction treat this as one token handed to the handler?
pub fn is_token(a: &Ast) -> bool {
    matches!(
        a.k,
        K::Lit(..) | K::Unit(..) | K::Unit2(..) | K::Start | K::End | K::Consume(_) | K::ConsumeAll
            | K::Empty | K::Fail | K::Func(_) | K::Spy(..) | K::Not(_) | K::Peek(_) | K::Pat(_) | K::DynR(..)
    )
}

pub fn hash_case(c: &Case) -> u64 {
    use std::hash::{DefaultHasher, Hash, Hasher};
    let mut h = DefaultHasher::new();
    c.key().hash(&mut h);
    h.finish()
}

/// smaller variants of a grammar
pub fn smaller(a: &Ast) -> Vec<Ast> {
    let mut out: Vec<Ast> = a.children().into_iter().cloned().collect();
    let bx = |x: Ast| Box::new(x);
    match &a.k {
        K::Then(x, y) => {
            out.extend(smaller(x).into_iter().map(|s| Ast::new(K::Then(bx(s), y.clone()))));
            out.extend(smaller(y).into_iter().map(|s| Ast::new(K::Then(x.clone(), bx(s)))));
        }
        K::Or(x, y) => {
            out.extend(smaller(x).into_iter().map(|s| Ast::new(K::Or(bx(s), y.clone()))));
            out.extend(smaller(y).into_iter().map(|s| Ast::new(K::Or(x.clone(), bx(s)))));
        }
        K::Ltm(x, y) => {
            out.extend(smaller(x).into_iter().map(|s| Ast::new(K::Ltm(bx(s), y.clone()))));
            out.extend(smaller(y).into_iter().map(|s| Ast::new(K::Ltm(x.clone(), bx(s)))));
        }
        K::Opt(x) => out.extend(smaller(x).into_iter().map(|s| Ast::new(K::Opt(bx(s))))),
        K::Not(x) => out.extend(smaller(x).into_iter().map(|s| Ast::new(K::Not(bx(s))))),
        K::Peek(x) => out.extend(smaller(x).into_iter().map(|s| Ast::new(K::Peek(bx(s))))),
        K::Pat(x) => out.extend(smaller(x).into_iter().map(|s| Ast::new(K::Pat(bx(s))))),
        K::Wrap(k, x) => out.extend(smaller(x).into_iter().map(|s| Ast::new(K::Wrap(*k, bx(s))))),
        K::Map(k, x) => out.extend(smaller(x).into_iter().map(|s| Ast::new(K::Map(*k, bx(s))))),
        K::TryMap(k, x) => {
            out.extend(smaller(x).into_iter().map(|s| Ast::new(K::TryMap(k.clone(), bx(s)))))
        }
        K::Repeat(r, x) => {
            out.extend(smaller(x).into_iter().map(|s| Ast::new(K::Repeat(*r, bx(s)))))
        }
        K::Repeat2(r, x) => {
            out.extend(smaller(x).into_iter().map(|s| Ast::new(K::Repeat2(*r, bx(s)))))
        }
        K::Collect(r, x) => {
            out.extend(smaller(x).into_iter().map(|s| Ast::new(K::Collect(*r, bx(s)))))
        }
        K::Sep(m, k, x, y) => {
            out.extend(smaller(x).into_iter().map(|s| Ast::new(K::Sep(*m, *k, bx(s), y.clone()))));
            out.extend(smaller(y).into_iter().map(|s| Ast::new(K::Sep(*m, *k, x.clone(), bx(s)))));
        }
        K::SepC(m, k, x, y) => {
            out.extend(smaller(x).into_iter().map(|s| Ast::new(K::SepC(*m, *k, bx(s), y.clone()))));
            out.extend(smaller(y).into_iter().map(|s| Ast::new(K::SepC(*m, *k, x.clone(), bx(s)))));
        }
        K::Sep2(m, k, x, y) => {
            out.extend(smaller(x).into_iter().map(|s| Ast::new(K::Sep2(*m, *k, bx(s), y.clone()))));
            out.extend(smaller(y).into_iter().map(|s| Ast::new(K::Sep2(*m, *k, x.clone(), bx(s)))));
        }
        K::Prefix(x, y) => {
            out.extend(smaller(x).into_iter().map(|s| Ast::new(K::Prefix(bx(s), y.clone()))));
            out.extend(smaller(y).into_iter().map(|s| Ast::new(K::Prefix(x.clone(), bx(s)))));
        }
        K::Suffix(x, y) => {
            out.extend(smaller(x).into_iter().map(|s| Ast::new(K::Suffix(bx(s), y.clone()))));
            out.extend(smaller(y).into_iter().map(|s| Ast::new(K::Suffix(x.clone(), bx(s)))));
        }
        K::Table(f, l, p, v) => {
            for i in 0..v.len() {
                if *f != 1 {
                    let mut w = v.clone();
                    w.remove(i);
                    out.push(Ast::new(K::Table(*f, *l, *p, w)));
                }
                for s in smaller(&v[i]) {
                    let mut w = v.clone();
                    w[i] = s;
                    out.push(Ast::new(K::Table(*f, *l, *p, w)));
                }
            }
        }
        _ => {}
    }
    out
}

/// greedy shrinking of a failing case
pub fn shrink(c: &Case, fails: &dyn Fn(&Case) -> bool) -> Case {
    let mut best = c.clone();
    let mut left = 800;
    let until = std::time::Instant::now() + std::time::Duration::from_secs(5);
    let mut again = true;
    while again {
        again = false;
        let mut attempt = |n: Case, best: &mut Case| {
            if left == 0 || std::time::Instant::now() > until {
                return false;
            }
            left -= 1;
            let bad = fails(&n);
            if bad {
                *best = n;
            }
            bad
        };
        // pieces of the input, long ones first
        let elements = bounds(&best.inp, best.kind.text()).len() - 1;
        let mut chunk = elements.max(1);
        while chunk > 0 {
            let mut at = 0;
            loop {
                let b = bounds(&best.inp, best.kind.text());
                if at + chunk >= b.len() {
                    break;
                }
                let (from, to) = (b[at], b[at + chunk]);
                let mut n = best.clone();
                n.inp.drain(from..to);
                if to <= n.start {
                    n.start -= to - from;
                } else if n.start > from {
                    at += chunk;
                    continue;
                }
                if attempt(n, &mut best) {
                    again = true;
                } else {
                    at += chunk;
                }
                // not every place of a long input
                if chunk < elements / 64 && at > 64 * chunk {
                    break;
                }
            }
            chunk /= 2;
        }
        for a in smaller(&best.ast) {
            if terminates(&a) && !(matches!(a.k, K::DynC(..)) && !matches!(c.ast.k, K::DynC(..))) {
                let n = Case { ast: a, ..best.clone() };
                if attempt(n, &mut best) {
                    again = true;
                    break;
                }
            }
        }
    }
    best
}

/// runs a check; a failing case is shrunk when it is described
pub fn verdict(
    o: &mut crate::drv::Obs,
    c: Case,
    check: &dyn Fn(&Case, &mut crate::drv::Obs) -> Result<bool, String>,
) -> Result<(), String> {
    o.note(|| c.show());
    match check(&c, o) {
        Ok(nt) => {
            if nt {
                o.nontrivial(&c.key());
            }
            Ok(())
        }
        Err(e) => {
            if !o.trace {
                return Err(e);
            }
            let scratch = std::cell::RefCell::new(crate::drv::Obs::default());
            let s = shrink(&c, &|x| check(x, &mut scratch.borrow_mut()).is_err());
            let e2 = check(&s, &mut scratch.borrow_mut()).err().unwrap_or(e);
            Err(format!("{e2}\nshrunk to: {}", s.show()))
        }
    }
}

/// what the monitors of one run saw
pub fn observe(o: &mut crate::drv::Obs, c: &Case, m: &Mon) {
    o.events += m.events;
    if o.index % 64 == 0 {
        o.add("sampled_1_in_64:exits_ok", m.oks);
        o.add("sampled_1_in_64:exits_failed", m.errs);
        o.add("sampled_1_in_64:rollbacks", m.rollbacks);
        o.add("sampled_1_in_64:rejections", m.rejects);
        o.max("nesting", m.max_depth as u64);
        o.max("grammar_size", c.ast.size() as u64);
        o.count(match c.kind {
            Kind::Chars => "sampled_1_in_64:context CharsCtx",
            Kind::Bytes => "sampled_1_in_64:context BytesCtx",
            Kind::UText => "sampled_1_in_64:context user text",
            Kind::UBytes => "sampled_1_in_64:context user bytes",
            Kind::PText => "sampled_1_in_64:context PolicyCtx text",
            Kind::PBytes => "sampled_1_in_64:context PolicyCtx bytes",
        });
        c.ast.walk(&mut |a| o.count(&format!("sampled_1_in_64:node {}", a.name())));
    }
}

// ------------------------------------------------- random recursive grammars

pub fn lit(s: &str) -> Ast {
    Ast::new(K::Lit(s.as_bytes().to_vec(), 1))
}

/// puts guarded self references into a grammar
pub fn recursive(r: &mut Rng, g: &Cfg, a: &Ast, value: bool, odds: usize, n: &mut usize) -> Ast {
    let leaf = a.children().is_empty();
    if *n < 4 && (r.chance(1, odds) || (leaf && r.chance(1, 3))) {
        *n += 1;
        let me = Box::new(Ast::new(K::SelfRef));
        let (o, c) = *r.pick(&[("(", ")"), ("[", "]"), ("a", "b"), ("((", "))"), ("x", "x")]);
        let orig = Box::new(a.clone());
        let k = match r.below(9) {
            0 => K::Prefix(Box::new(lit(o)), me),
            1 => K::Enclose(Box::new(lit(o)), me, Box::new(lit(c))),
            2 => K::Or(Box::new(Ast::new(K::Enclose(Box::new(lit(o)), me, Box::new(lit(c))))), orig),
            3 => K::Or(orig, Box::new(Ast::new(K::Prefix(Box::new(lit(o)), me)))),
            4 => K::Enclose(
                Box::new(lit(o)),
                Box::new(Ast::new(K::Repeat(
                    (std::ops::Bound::Included(0), std::ops::Bound::Included(r.range(1, 3))),
                    me,
                ))),
                Box::new(lit(c)),
            ),
            5 => K::Ltm(Box::new(Ast::new(K::Then(Box::new(lit(o)), me))), Box::new(Ast::new(K::Sel0(Box::new(lit(o)), Box::new(lit(c)))))),
            6 => K::Prefix(Box::new(lit(o)), Box::new(Ast::new(K::Opt(me)))),
            7 => K::Table(0, r.flip(), r.flip(), vec![Ast::new(K::Enclose(Box::new(lit(o)), me, Box::new(lit(c)))), (*orig).clone()]),
            _ => K::Enclose(
                Box::new(lit(o)),
                Box::new(Ast::new(K::Or(
                    Box::new(Ast::new(K::Then(me.clone(), Box::new(lit(","))))),
                    Box::new(Ast::new(K::Opt(me))),
                ))),
                Box::new(lit(c)),
            ),
        };
        let _ = g;
        return Ast::new(k);
    }
    map_parts(a, &mut |x, v| recursive(r, g, x, value && v, odds, n))
}

pub fn has_self(a: &Ast) -> bool {
    let mut y = false;
    a.walk(&mut |x| y |= matches!(x.k, K::SelfRef));
    y
}

/// a lock may not be entered again while it is held
pub fn unlock(a: &Ast) -> Ast {
    let b = map_parts(a, &mut |x, _| unlock(x));
    match &b.k {
        K::Wrap(k, x) if (*k % WRAPS == 4 || *k % WRAPS == 13) && has_self(x) => Ast::new(K::Wrap(0, x.clone())),
        _ => b,
    }
}

pub fn unroll(a: &Ast, body: &Ast, depth: u32) -> Ast {
    match &a.k {
        K::SelfRef if depth == 0 => Ast::new(K::Empty),
        K::SelfRef => unroll(body, body, depth - 1),
        _ => map_parts(a, &mut |x, _| unroll(x, body, depth)),
    }
}

pub fn size_unrolled(a: &Ast, depth: u32) -> usize {
    let (mut selfs, mut size) = (0usize, 0usize);
    a.walk(&mut |x| {
        size += 1;
        selfs += matches!(x.k, K::SelfRef) as usize;
    });
    (0..depth).fold(size, |s, _| size.saturating_add(selfs.saturating_mul(s)))
}
