//! Reference interpreter: ordered-choice grammar semantics on explicit
//! positions.  It shares nothing with neure but the `Error` enum.
use crate::ast::*;
use neure::err::Error;

pub type R<T> = Result<T, Error>;

/// a plain match: `beg..end`
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct M {
    pub beg: usize,
    pub end: usize,
}

pub struct Model<'i> {
    pub inp: &'i [u8],
    pub text: bool,
    /// what a skipping context steps over before every match
    pub skip: Option<&'i Ast>,
    pub rej: Rej,
    pub steps: u64,
    pub max: u64,
    pub over: bool,
    /// furthest position whose content (or absence) was looked at
    pub reach: usize,
    /// the exact error is not determined by the documentation
    pub ambiguous: bool,
    /// number of rejections by handler or mapper
    pub rejections: u64,
    /// spans offered to the handler
    pub calls: Vec<(usize, usize)>,
    /// calls into user code, when asked for
    pub trace: Option<Vec<Ev>>,
    /// what a self reference stands for
    pub rec: Option<&'i Ast>,
    pub rec_depth: u32,
    pub max_rec: u32,
}

impl<'i> Model<'i> {
    pub fn new(inp: &'i [u8], text: bool) -> Self {
        Model {
            inp,
            text,
            skip: None,
            rej: Rej::None,
            steps: 0,
            max: 200_000,
            over: false,
            reach: 0,
            ambiguous: false,
            rejections: 0,
            calls: vec![],
            trace: None,
            rec: None,
            rec_depth: 0,
            max_rec: 0,
        }
    }

    fn log(&mut self, e: Ev) {
        if let Some(t) = &mut self.trace {
            t.push(e)
        }
    }

    fn touch(&mut self, p: usize) {
        self.reach = self.reach.max(p);
    }

    /// element at `pos`: code point (or byte) and its width
    pub fn item(&mut self, pos: usize) -> Option<(u32, usize)> {
        match decode(self.inp, pos, self.text) {
            Some((c, l)) => {
                self.touch(pos + l);
                Some((c, l))
            }
            None => {
                self.touch(usize::MAX);
                None
            }
        }
    }

    pub fn skipped(&mut self, pos: usize) -> R<usize> {
        let Some(s) = self.skip.take() else { return Ok(pos) };
        let r = self.parse(s, pos, 0);
        self.skip = Some(s);
        Ok(r?.end)
    }

    fn step(&mut self) -> R<()> {
        self.steps += 1;
        if self.steps > self.max {
            self.over = true;
        }
        if self.over { Err(Error::Fail) } else { Ok(()) }
    }

    /// match a pattern in a context (skipping applies)
    pub fn tm(&mut self, a: &Ast, pos: usize, base: usize) -> R<M> {
        let p = self.skipped(pos)?;
        self.parse(a, p, base)
    }

    fn cond(&mut self, c: &CondK, start: usize, at: usize, item: u32) -> R<bool> {
        let rel = at - start;
        Ok(match c {
            CondK::None => true,
            CondK::Even => rel % 2 == 0,
            CondK::Lt(n) => rel < *n,
            CondK::Cls(c) => c.has(item),
            CondK::ErrAt(n) => {
                if rel >= *n {
                    return Err(e_cond());
                }
                true
            }
            CondK::Rx(a) => self.tm(a, at, at).is_ok(),
            CondK::RxNot(a) => self.tm(a, at, at).is_err(),
        })
    }

    /// longest permitted run: number of elements and its end
    fn run(&mut self, cls: &Cls, c: &CondK, pos: usize, hi: Option<usize>) -> R<(usize, usize)> {
        let mut n = 0;
        let mut p = pos;
        while hi.is_none_or(|h| n < h) {
            self.step()?;
            let Some((ch, l)) = self.item(p) else { break };
            if !cls.has(ch) || !self.cond(c, pos, p, ch)? {
                break;
            }
            n += 1;
            p += l;
        }
        Ok((n, p))
    }

    fn unit(&mut self, cls: &Cls, op: &Op, c: &CondK, pos: usize) -> R<M> {
        let (lo, hi, err) = match op {
            Op::Once => (1, Some(1), Error::Once),
            Op::Opt => (0, Some(1), Error::Fail),
            Op::Many0 => (0, None, Error::Fail),
            Op::Many1 => (1, None, Error::Many1),
            Op::Between(i) => (BETWEEN[*i].0, Some(BETWEEN[*i].1), Error::Between),
            Op::Times(r) => (rng_lo(r), rng_hi(r), Error::Times),
        };
        let r = self.run(cls, c, pos, hi);
        if r.is_err() && lo > 1 {
            // too little input may be noticed before the condition is asked
            self.ambiguous = true;
        }
        let (n, end) = r?;
        if n < lo { Err(err) } else { Ok(M { beg: pos, end }) }
    }

    fn lit(&mut self, b: &[u8], pos: usize) -> R<M> {
        let end = pos + b.len();
        if end > self.inp.len() {
            self.touch(usize::MAX);
            return Err(Error::Literal);
        }
        self.touch(end);
        if &self.inp[pos..end] == b {
            Ok(M { beg: pos, end })
        } else {
            Err(Error::Literal)
        }
    }

    fn test(&mut self, t: &TestK, pos: usize, base: usize) -> R<bool> {
        let x = match t {
            TestK::Const(b) => Some(*b),
            TestK::Peek(c) => Some(self.item(pos).is_some_and(|x| c.has(x.0))),
            TestK::Off(n) => Some((pos - base) % 2 == *n),
            TestK::Err => None,
        };
        self.log(Ev::Test(pos, x));
        x.ok_or_else(e_test)
    }

    /// what a builder function makes of what was matched: where to continue,
    /// and with which pattern
    fn dynk(&mut self, d: &DynK, beg: usize, end: usize, pos: usize) -> R<(Ast, usize)> {
        self.log(Ev::Build(pos));
        Ok(match d {
            DynK::Backref => (Ast::new(K::Lit(self.inp[beg..end].to_vec(), 1)), pos),
            DynK::Count(c) => {
                let n = (end - beg) % 4;
                let r = (std::ops::Bound::Included(n), std::ops::Bound::Included(n));
                (Ast::new(K::Unit(c.clone(), Op::Times(r), CondK::None)), pos)
            }
            DynK::Fixed(a) => ((**a).clone(), pos),
            DynK::Move(a) => {
                let p = self.item(pos).map_or(pos, |x| pos + x.1);
                ((**a).clone(), p)
            }
            DynK::Err => return Err(e_build()),
        })
    }

    fn seq(&mut self, parts: &[&Ast], pos: usize, base: usize) -> R<M> {
        let mut p = pos;
        let mut beg = None;
        for a in parts {
            let m = self.tm(a, p, base)?;
            beg.get_or_insert(m.beg);
            p = m.end;
        }
        Ok(M { beg: beg.unwrap_or(pos), end: p })
    }

    fn rep(&mut self, a: &Ast, pos: usize, base: usize, hi: Option<usize>) -> R<(usize, usize)> {
        let (mut n, mut p) = (0, pos);
        while hi.is_none_or(|h| n < h) {
            self.step()?;
            match self.tm(a, p, base) {
                Ok(m) => {
                    n += 1;
                    p = m.end;
                }
                Err(_) => break,
            }
        }
        Ok((n, p))
    }

    fn seps(
        &mut self,
        e: &Ast,
        s: &Ast,
        skip: bool,
        hi: Option<usize>,
        pos: usize,
        base: usize,
    ) -> R<(usize, usize)> {
        let (mut n, mut p) = (0, pos);
        while hi.is_none_or(|h| n < h) {
            self.step()?;
            let Ok(m) = self.tm(e, p, base) else { break };
            match self.tm(s, m.end, base) {
                Ok(sm) => {
                    n += 1;
                    p = sm.end;
                }
                Err(_) => {
                    if skip {
                        n += 1;
                        p = m.end;
                    }
                    break;
                }
            }
        }
        Ok((n, p))
    }

    pub fn parse(&mut self, a: &Ast, pos: usize, base: usize) -> R<M> {
        self.step()?;
        let at = M { beg: pos, end: pos };
        match &a.k {
            K::Lit(b, _) => self.lit(b, pos),
            K::Unit(c, op, cond) => self.unit(c, op, cond, pos),
            K::Unit2(x, y, c) => {
                let (Some((c1, l1)), true) = (self.item(pos), true) else {
                    return Err(Error::NeureThen);
                };
                let Some((c2, l2)) = self.item(pos + l1) else {
                    return Err(Error::NeureThen);
                };
                let mut go = || -> R<bool> {
                    Ok(x.has(c1)
                        && self.cond(c, pos, pos, c1)?
                        && y.has(c2)
                        && self.cond(c, pos, pos + l1, c2)?)
                };
                let r = go();
                if r.is_err() {
                    self.ambiguous = true;
                }
                if r? { Ok(M { beg: pos, end: pos + l1 + l2 }) } else { Err(Error::NeureThen) }
            }
            K::Start => {
                if pos == base {
                    Ok(at)
                } else {
                    Err(Error::AnchorStart)
                }
            }
            K::End => {
                if pos == self.inp.len() {
                    self.touch(usize::MAX);
                    Ok(at)
                } else {
                    self.touch(pos + 1);
                    Err(Error::AnchorEnd)
                }
            }
            K::Consume(n) => {
                if pos.saturating_add(*n) <= self.inp.len() {
                    self.touch(pos + n);
                    Ok(M { beg: pos, end: pos + n })
                } else {
                    self.touch(usize::MAX);
                    Err(Error::Consume)
                }
            }
            K::ConsumeAll => {
                self.touch(usize::MAX);
                Ok(M { beg: pos, end: self.inp.len() })
            }
            K::Empty => Ok(at),
            K::Fail => Err(Error::Fail),
            K::Func(c) => match self.item(pos) {
                Some((ch, l)) if c.has(ch) => Ok(M { beg: pos, end: pos + l }),
                _ => Err(e_func()),
            },
            K::NoneP => Err(Error::Option),
            K::Spy(id, solid) => {
                let x = spy_outcome(*id, *solid, pos, self.inp.len() - pos);
                self.log(Ev::Part(*id, pos, x));
                let n = x.ok_or_else(e_func)?;
                Ok(M { beg: pos, end: pos + n })
            }
            K::SelfRef => {
                let a = self.rec.expect("harness: no recursion");
                self.rec_depth += 1;
                self.max_rec = self.max_rec.max(self.rec_depth);
                let r = self.parse(a, pos, base);
                self.rec_depth -= 1;
                r
            }
            K::Not(x) => match self.tm(x, pos, base) {
                Ok(_) => Err(Error::AssertFalse),
                Err(_) => Ok(at),
            },
            K::Peek(x) => match self.tm(x, pos, base) {
                Ok(_) => Ok(at),
                Err(_) => Err(Error::AssertTrue),
            },
            K::Then(x, y) | K::Sel0(x, y) | K::Sel1(x, y) => self.seq(&[x, y], pos, base),
            K::Prefix(x, y) => self.seq(&[x, y], pos, base),
            K::Suffix(x, y) => self.seq(&[x, y], pos, base),
            K::Enclose(o, p, c) => self.seq(&[o, p, c], pos, base),
            K::SepOnce(x, s, y) => {
                let m = self.seq(&[x, s, y], pos, base)?;
                Ok(M { beg: pos, end: m.end })
            }
            K::Or(x, y) => match self.tm(x, pos, base) {
                Ok(m) => Ok(m),
                Err(_) => self.tm(y, pos, base),
            },
            K::Ltm(x, y) => match (self.tm(x, pos, base), self.tm(y, pos, base)) {
                (Ok(l), Ok(r)) => Ok(if r.end > l.end { r } else { l }),
                (Ok(l), Err(_)) => Ok(l),
                (Err(_), r) => r,
            },
            K::Opt(x) => Ok(self.tm(x, pos, base).unwrap_or(at)),
            K::Repeat(r, x) => {
                let (n, end) = self.rep(x, pos, base, rng_hi(r))?;
                if rng_contains(r, n) { Ok(M { beg: pos, end }) } else { Err(Error::Repeat) }
            }
            K::Repeat2(i, x) => {
                let (lo, hi) = REPEAT2[*i];
                let (n, end) = self.rep(x, pos, base, Some(hi))?;
                if n >= lo { Ok(M { beg: pos, end }) } else { Err(Error::Repeat2) }
            }
            K::Collect(min, x) => {
                let (n, end) = self.rep(x, pos, base, None)?;
                if n >= *min { Ok(M { beg: pos, end }) } else { Err(Error::Collect) }
            }
            K::Sep(min, skip, e, s) => {
                let (n, end) = self.seps(e, s, *skip, None, pos, base)?;
                if n >= *min { Ok(M { beg: pos, end }) } else { Err(Error::Separate) }
            }
            K::SepC(min, skip, e, s) => {
                let (n, end) = self.seps(e, s, *skip, None, pos, base)?;
                if n >= *min { Ok(M { beg: pos, end }) } else { Err(Error::SepCollect) }
            }
            K::Sep2(i, skip, e, s) => {
                let (lo, hi) = SEP2[*i];
                let (n, end) = self.seps(e, s, *skip, Some(hi), pos, base)?;
                if n >= lo { Ok(M { beg: pos, end }) } else { Err(Error::Separate2) }
            }
            K::IfThen(l, t, r) => {
                let lm = self.tm(l, pos, base)?;
                match self.tm(t, lm.end, base) {
                    Ok(tm) => {
                        let rm = self.tm(r, tm.end, base)?;
                        Ok(M { beg: lm.beg, end: rm.end })
                    }
                    Err(_) => Ok(lm),
                }
            }
            K::Branch(t, x, y) => {
                if self.test(t, pos, base)? {
                    self.tm(x, pos, base)
                } else {
                    self.tm(y, pos, base)
                }
            }
            K::Pat(x) | K::Map(_, x) | K::TryMap(_, x) => self.tm(x, pos, base),
            K::Wrap(_, x) => self.parse(x, pos, base),
            K::Table(form, ltm, pair, v) => {
                let mut best: Option<M> = None;
                for x in v {
                    if let Ok(m) = self.tm(x, pos, base) {
                        if best.is_none_or(|b| m.end > b.end) {
                            best = Some(m);
                        }
                        if !*ltm {
                            break;
                        }
                    }
                }
                best.ok_or(table_err(*form, *pair))
            }
            K::DynR(x, d) => {
                let m = self.tm(x, pos, base)?;
                let (b, p) = self.dynk(d, m.beg, m.end, m.end)?;
                self.tm(&b, p, base)
            }
            K::DynC(..) => panic!("harness: DynC has no matching side"),
        }
    }

    fn handler(&mut self, m: M) -> R<Val> {
        self.calls.push((m.beg, m.end - m.beg));
        self.log(Ev::Handle(m.beg, m.end - m.beg, !self.rej.rejects(m.beg, m.end - m.beg)));
        if self.rej.rejects(m.beg, m.end - m.beg) {
            self.rejections += 1;
            Err(e_handler())
        } else {
            Ok(Val::Leaf(0, m.beg, m.end - m.beg))
        }
    }

    /// construct a value
    pub fn k(&mut self, a: &Ast, pos: usize) -> R<(Val, usize)> {
        self.step()?;
        let bx = |v: Val| Box::new(v);
        match &a.k {
            K::NoneP => Err(Error::Option),
            K::SelfRef => {
                let a = self.rec.expect("harness: no recursion");
                self.rec_depth += 1;
                self.max_rec = self.max_rec.max(self.rec_depth);
                let r = self.k(a, pos);
                self.rec_depth -= 1;
                r
            }
            K::Then(x, y) => {
                let (l, p) = self.k(x, pos)?;
                let (r, p) = self.k(y, p)?;
                Ok((Val::Pair(bx(l), bx(r)), p))
            }
            K::Sel0(x, y) => {
                let (l, p) = self.k(x, pos)?;
                let (_, p) = self.k(y, p)?;
                Ok((Val::Mapped(100, bx(l)), p))
            }
            K::Sel1(x, y) => {
                let (_, p) = self.k(x, pos)?;
                let (r, p) = self.k(y, p)?;
                Ok((Val::Mapped(101, bx(r)), p))
            }
            K::Prefix(x, y) => {
                let m = self.tm(x, pos, 0)?;
                self.k(y, m.end)
            }
            K::Suffix(x, y) => {
                let (v, p) = self.k(x, pos)?;
                let m = self.tm(y, p, 0)?;
                Ok((v, m.end))
            }
            K::Enclose(o, x, c) => {
                let m = self.tm(o, pos, 0)?;
                let (v, p) = self.k(x, m.end)?;
                let m = self.tm(c, p, 0)?;
                Ok((v, m.end))
            }
            K::SepOnce(x, s, y) => {
                let (l, p) = self.k(x, pos)?;
                let m = self.tm(s, p, 0)?;
                let (r, p) = self.k(y, m.end)?;
                Ok((Val::Pair(bx(l), bx(r)), p))
            }
            K::Or(x, y) => match self.k(x, pos) {
                Ok(v) => Ok(v),
                Err(_) => self.k(y, pos),
            },
            K::Ltm(x, y) => match (self.k(x, pos), self.k(y, pos)) {
                (Ok(l), Ok(r)) => Ok(if r.1 > l.1 { r } else { l }),
                (Ok(l), Err(_)) => Ok(l),
                (Err(_), r) => r,
            },
            K::Opt(x) => match self.k(x, pos) {
                Ok((v, p)) => Ok((Val::Opt(Some(bx(v))), p)),
                Err(_) => Ok((Val::Opt(None), pos)),
            },
            K::Repeat(r, x) => {
                let (v, p) = self.k_rep(x, pos, rng_hi(r))?;
                if rng_contains(r, v.len()) { Ok((Val::List(v), p)) } else { Err(Error::Repeat) }
            }
            K::Repeat2(i, x) => {
                let (lo, hi) = REPEAT2[*i];
                let (v, p) = self.k_rep(x, pos, Some(hi))?;
                if v.len() >= lo { Ok((arr(v, hi), p)) } else { Err(Error::Repeat2) }
            }
            K::Collect(min, x) => {
                let (v, p) = self.k_rep(x, pos, None)?;
                if v.len() >= *min { Ok((Val::List(v), p)) } else { Err(Error::Collect) }
            }
            K::Sep(min, skip, e, s) => {
                let (v, p) = self.k_seps(e, s, *skip, None, pos)?;
                if v.len() >= *min { Ok((Val::List(v), p)) } else { Err(Error::Separate) }
            }
            K::SepC(min, skip, e, s) => {
                let (v, p) = self.k_seps(e, s, *skip, None, pos)?;
                if v.len() >= *min { Ok((Val::List(v), p)) } else { Err(Error::SepCollect) }
            }
            K::Sep2(i, skip, e, s) => {
                let (lo, hi) = SEP2[*i];
                let (v, p) = self.k_seps(e, s, *skip, Some(hi), pos)?;
                if v.len() >= lo { Ok((arr(v, hi), p)) } else { Err(Error::Separate2) }
            }
            K::IfThen(l, t, r) => {
                let (lv, p) = self.k(l, pos)?;
                match self.tm(t, p, 0) {
                    Ok(m) => {
                        let (rv, p) = self.k(r, m.end)?;
                        Ok((Val::Pair(bx(lv), bx(Val::Opt(Some(bx(rv))))), p))
                    }
                    Err(_) => Ok((Val::Pair(bx(lv), bx(Val::Opt(None))), p)),
                }
            }
            K::Branch(t, x, y) => {
                if self.test(t, pos, 0)? { self.k(x, pos) } else { self.k(y, pos) }
            }
            K::Map(tag, x) => {
                let (v, p) = self.k(x, pos)?;
                self.log(Ev::Map(*tag));
                Ok((Val::Mapped(*tag, bx(v)), p))
            }
            K::TryMap(r, x) => {
                let (v, p) = self.k(x, pos)?;
                self.log(Ev::TryMap(!r.rejects(&v)));
                if r.rejects(&v) {
                    self.rejections += 1;
                    return Err(e_map());
                }
                Ok((Val::Mapped(0, bx(v)), p))
            }
            K::Table(form, ltm, pair, v) => {
                let mut best: Option<(Val, usize)> = None;
                for (i, x) in v.iter().enumerate() {
                    if let Ok((v, p)) = self.k(x, pos) {
                        if best.as_ref().is_none_or(|b| p > b.1) {
                            let v = if *pair { Val::Key(i as u32, bx(v)) } else { v };
                            best = Some((v, p));
                        }
                        if !*ltm {
                            break;
                        }
                    }
                }
                best.ok_or(table_err(*form, *pair))
            }
            K::Wrap(_, x) => self.k(x, pos),
            K::DynC(x, d) => {
                let (l, p) = self.k(x, pos)?;
                let (b, n) = l.first_leaf().unwrap_or((0, 0));
                let (x, p) = self.dynk(d, b, b + n, p)?;
                let (r, p) = self.k(&x, p)?;
                Ok((Val::Pair(bx(l), bx(r)), p))
            }
            // leaves: what matches is handed to the handler
            _ => {
                let m = self.tm(a, pos, 0)?;
                let v = self.handler(m)?;
                Ok((v, m.end))
            }
        }
    }

    fn k_rep(&mut self, a: &Ast, pos: usize, hi: Option<usize>) -> R<(Vec<Val>, usize)> {
        let (mut v, mut p) = (vec![], pos);
        while hi.is_none_or(|h| v.len() < h) {
            self.step()?;
            match self.k(a, p) {
                Ok((x, q)) => {
                    v.push(x);
                    p = q;
                }
                Err(_) => break,
            }
        }
        Ok((v, p))
    }

    fn k_seps(
        &mut self,
        e: &Ast,
        s: &Ast,
        skip: bool,
        hi: Option<usize>,
        pos: usize,
    ) -> R<(Vec<Val>, usize)> {
        let (mut v, mut p) = (vec![], pos);
        while hi.is_none_or(|h| v.len() < h) {
            self.step()?;
            let Ok((x, q)) = self.k(e, p) else { break };
            match self.tm(s, q, 0) {
                Ok(m) => {
                    v.push(x);
                    p = m.end;
                }
                Err(_) => {
                    if skip {
                        v.push(x);
                        p = q;
                    }
                    break;
                }
            }
        }
        Ok((v, p))
    }
}

fn arr(v: Vec<Val>, n: usize) -> Val {
    let mut a: Vec<Option<Val>> = v.into_iter().map(Some).collect();
    a.resize(n, None);
    Val::Arr(a)
}

pub fn table_err(form: u8, pair: bool) -> Error {
    match (form % TABLE_FORMS, pair) {
        (0, false) => Error::Vector,
        (1, false) => Error::Array,
        (_, false) => Error::Slice,
        (0, true) => Error::PairVector,
        (1, true) => Error::PairArray,
        (_, true) => Error::PairSlice,
    }
}

/// independent UTF-8 decoding of one element
pub fn decode(inp: &[u8], pos: usize, text: bool) -> Option<(u32, usize)> {
    let b = *inp.get(pos)? as u32;
    if !text {
        return Some((b, 1));
    }
    let cont = |i: usize| (inp[pos + i] & 0x3f) as u32;
    Some(if b < 0x80 {
        (b, 1)
    } else if b < 0xe0 {
        ((b & 0x1f) << 6 | cont(1), 2)
    } else if b < 0xf0 {
        ((b & 0xf) << 12 | cont(1) << 6 | cont(2), 3)
    } else {
        ((b & 7) << 18 | cont(1) << 12 | cont(2) << 6 | cont(3), 4)
    })
}
