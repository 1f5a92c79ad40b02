//! Grammars, and inputs derived from grammars.
use crate::ast::*;
use crate::model::decode;
use crate::rng::Rng;
use std::ops::Bound;

#[derive(Clone, Debug)]
pub struct Cfg {
    pub text: bool,
    pub alpha: Vec<char>,
    pub depth: u32,
    /// patterns only construction can run
    pub dync: bool,
    pub dynr: bool,
    pub conds: bool,
    pub try_map: bool,
    pub wraps: bool,
    /// restrict to what stays comparable when a policy skips input
    pub policy: bool,
    /// stepping over elements by byte count is legal everywhere
    pub consume: bool,
    /// a leaf that always or never matches is likely
    pub odd: bool,
    /// classes only defined over text may be used
    pub text_classes: bool,
    /// favour one combinator
    pub focus: Option<Focus>,
    /// tables, bounds, runs and inputs far beyond the usual size
    pub big: bool,
    /// inputs beyond 64 KiB too
    pub long: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Focus {
    Lists,
    Tables,
    Look,
    Dyn,
}

pub const ALPHA_TEXT: &[char] = &['a', 'b', '1', '_', 'é', '你', '😀', ' ', ',', 'ß', 'A', '\n'];
/// the ends of what encodings and classes tell apart
pub const EXOTIC: &[char] = &[
    '\0', '\t', '\r', '\u{b}', '\u{1f}', '\u{7f}', '\u{80}', '\u{85}', '\u{a0}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{feff}',
    '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{301}', '\u{200d}', '\u{2028}', '\u{3000}', '٣', 'ſ', 'İ', '½', '_', '\\', '"', '~',
];
pub const ALPHA_ASCII: &[char] = &['a', 'b', 'c', '1', '2', '_', ' ', ',', 'A', '\n', '\0', '~'];
pub const ALPHA_BYTES: &[char] = &['a', 'b', '1', '_', ' ', ',', '\u{0}', '\u{80}', '\u{ff}', 'A'];

impl Cfg {
    pub fn text(depth: u32) -> Cfg {
        Cfg {
            text: true,
            alpha: ALPHA_TEXT.to_vec(),
            depth,
            dync: false,
            dynr: true,
            conds: true,
            try_map: false,
            wraps: true,
            policy: false,
            consume: false,
            odd: true,
            text_classes: true,
            focus: None,
            big: false,
            long: false,
        }
    }
    pub fn bytes(depth: u32) -> Cfg {
        Cfg {
            text: false,
            alpha: ALPHA_BYTES.to_vec(),
            consume: true,
            text_classes: false,
            ..Cfg::text(depth)
        }
    }
    pub fn ascii(depth: u32, text: bool) -> Cfg {
        Cfg {
            text,
            alpha: ALPHA_ASCII.to_vec(),
            consume: true,
            text_classes: false,
            ..Cfg::text(depth)
        }
    }
    /// a small random sub-alphabet makes overlaps and backtracking likely
    pub fn narrow(mut self, rng: &mut Rng) -> Cfg {
        let n = rng.range(2, 5);
        let mut v = self.alpha.clone();
        rng.shuffle(&mut v);
        v.truncate(n);
        if !v.contains(&'a') {
            v.push('a');
        }
        // any element at all, now and then
        if rng.chance(1, 10) {
            let ascii = self.alpha.iter().all(char::is_ascii);
            let c = match (ascii, self.text) {
                (true, _) => rng.below(128) as u8 as char,
                (_, false) => rng.next() as u8 as char,
                _ if rng.flip() => *rng.pick(EXOTIC),
                _ => char::from_u32(rng.below(0x11_0000) as u32).unwrap_or('\u{fffd}'),
            };
            if !v.contains(&c) {
                v.push(c);
            }
        }
        self.alpha = v;
        self
    }
}

fn bx(a: Ast) -> Box<Ast> {
    Box::new(a)
}

pub fn bytes_of(c: char, text: bool, out: &mut Vec<u8>) {
    if text {
        let mut b = [0; 4];
        out.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
    } else {
        out.push(c as u32 as u8);
    }
}

pub fn gen_cls(r: &mut Rng, g: &Cfg, depth: u32) -> Cls {
    let pick = |r: &mut Rng| *r.pick(&g.alpha);
    let n = if depth == 0 { 12 } else { 16 };
    match r.below(n) {
        0 | 1 => Cls::One(pick(r)),
        2 | 3 => {
            let (a, b) = (pick(r), pick(r));
            let (a, b) = if a <= b { (a, b) } else { (b, a) };
            Cls::Range(a, b, r.below(6) as u8)
        }
        4 | 5 => {
            let n = r.range(1, 4);
            let v: Vec<char> = (0..n).map(|_| pick(r)).collect();
            Cls::Set(v, r.below(4) as u8)
        }
        6 | 7 | 8 => r
            .pick(&[
                Cls::AsciiAlpha,
                Cls::AsciiDigit,
                Cls::AsciiAlnum,
                Cls::AsciiUpper,
                Cls::AsciiLower,
                Cls::AsciiWs,
                Cls::AsciiPunct,
                Cls::Word,
            ])
            .clone(),
        9 if g.text_classes => {
            r.pick(&[Cls::Alpha, Cls::Numeric, Cls::Ws, Cls::Wild, Cls::Upper]).clone()
        }
        10 if r.chance(1, 3) => Cls::Never,
        10 => Cls::Always,
        11 => {
            let m = r.range(2, 3) as u32;
            Cls::Clo(m, r.below(m as usize) as u32)
        }
        12 => Cls::Not(Box::new(gen_cls(r, g, depth - 1))),
        13 => Cls::And(Box::new(gen_cls(r, g, depth - 1)), Box::new(gen_cls(r, g, depth - 1))),
        14 => Cls::Or(Box::new(gen_cls(r, g, depth - 1)), Box::new(gen_cls(r, g, depth - 1))),
        _ => Cls::One(pick(r)),
    }
}

/// counts around which widths and buffers change
pub const COUNTS: &[usize] = &[7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 100, 127, 128, 200, 255, 256, 257, 300];

/// sizes around which blocks, pages and narrow counters end
pub const HUGE: &[usize] = &[
    511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10_000, 16_383, 16_384, 16_385,
    32_767, 32_768, 32_769, 65_534, 65_535, 65_536, 65_537, 70_000, 100_000, 131_071, 131_073,
];

/// now and then one of the sizes in `HUGE` up to `cap`
pub fn gen_huge(r: &mut Rng, one_in: usize, cap: usize) -> Option<usize> {
    if !r.chance(1, one_in) {
        return None;
    }
    let n = HUGE.iter().take_while(|x| **x <= cap).count();
    // the smaller ones more often: they are cheaper
    let a = r.below(n);
    let b = r.below(n);
    Some(HUGE[a.min(b)])
}

/// a bound, mostly small
pub fn gen_count(r: &mut Rng, big: bool, below: usize) -> usize {
    if big && r.chance(1, 2) { *r.pick(COUNTS) } else { r.below(below) }
}

/// ranges for repeating a pattern: those no count is in are allowed too
fn gen_rep_range(r: &mut Rng, g: &Cfg) -> BndRange {
    if !r.chance(1, 25) {
        return gen_range(r, g.big);
    }
    let a = r.below(4);
    *r.pick(&[
        (Bound::Included(0), Bound::Excluded(0)),
        (Bound::Unbounded, Bound::Excluded(0)),
        (Bound::Unbounded, Bound::Included(0)),
        (Bound::Included(0), Bound::Included(0)),
        (Bound::Included(a), Bound::Excluded(a)),
        (Bound::Excluded(a), Bound::Included(a)),
        (Bound::Included(a + 2), Bound::Included(a)),
        (Bound::Included(a + 2), Bound::Excluded(a)),
        (Bound::Included(a), Bound::Excluded(0)),
    ])
}

pub fn gen_range(r: &mut Rng, big: bool) -> BndRange {
    let a = gen_count(r, big, 4);
    let b = a + gen_count(r, big, 4);
    match r.below(8) {
        0 => (Bound::Included(a), Bound::Included(b)),
        1 => (Bound::Included(a), Bound::Excluded(b + 1)),
        2 => (Bound::Included(a), Bound::Unbounded),
        3 => (Bound::Unbounded, Bound::Unbounded),
        4 => (Bound::Unbounded, Bound::Included(b)),
        5 => (Bound::Unbounded, Bound::Excluded(b + 1)),
        6 => (Bound::Excluded(a), Bound::Included(a + 1 + (b - a))),
        _ => (Bound::Included(b), Bound::Included(b)),
    }
}

fn gen_op(r: &mut Rng, g: &Cfg) -> Op {
    match r.below(9) {
        0 | 1 => Op::Once,
        2 => Op::Opt,
        3 | 4 => Op::Many0,
        5 | 6 => Op::Many1,
        7 => Op::Between(if g.big { r.below(BETWEEN.len()) } else { r.below(SMALL_BETWEEN) }),
        _ => Op::Times(gen_range(r, g.big)),
    }
}

fn gen_cond(r: &mut Rng, g: &Cfg, depth: u32) -> CondK {
    if !g.conds || !r.chance(1, 5) {
        return CondK::None;
    }
    match r.below(7) {
        0 => CondK::Even,
        1 => CondK::Lt(r.below(5)),
        2 | 3 => CondK::Cls(gen_cls(r, g, 0)),
        4 => CondK::ErrAt(r.below(5)),
        5 => CondK::Rx(bx(gen_r(r, g, depth.min(1), false))),
        _ => CondK::RxNot(bx(gen_r(r, g, depth.min(1), false))),
    }
}

pub fn gen_leaf(r: &mut Rng, g: &Cfg, depth: u32) -> Ast {
    let k = match r.below(24) {
        0..=5 => {
            let n = match () {
                _ if g.big && r.chance(1, 4) => *r.pick(COUNTS),
                _ if r.chance(1, 24) => r.range(4, 24),
                _ => r.range(1, 3),
            };
            let mut b = vec![];
            for _ in 0..n {
                bytes_of(*r.pick(&g.alpha), g.text, &mut b);
            }
            if r.chance(1, 25) {
                b.clear();
            }
            K::Lit(b, r.below(5) as u8)
        }
        6..=15 => {
            let c = gen_cls(r, g, 1);
            let op = gen_op(r, g);
            K::Unit(c, op, gen_cond(r, g, depth))
        }
        16 => K::Unit2(gen_cls(r, g, 1), gen_cls(r, g, 1), gen_cond(r, g, depth)),
        17 => K::Func(gen_cls(r, g, 0)),
        18 if !g.policy => K::Start,
        18 => K::Func(gen_cls(r, g, 0)),
        19 => K::End,
        20 if g.consume && !g.policy => K::Consume(r.below(3)),
        20 => K::Func(gen_cls(r, g, 0)),
        21 if g.odd => r.pick(&[K::Empty, K::Fail, K::NoneP, K::ConsumeAll]).clone(),
        _ => K::Lit(
            {
                let mut b = vec![];
                bytes_of(*r.pick(&g.alpha), g.text, &mut b);
                b
            },
            r.below(5) as u8,
        ),
    };
    Ast::new(k)
}

/// an element that always consumes something
fn gen_solid(r: &mut Rng, g: &Cfg, depth: u32, value: bool) -> Ast {
    for _ in 0..6 {
        let a = gen_r(r, g, depth, value);
        if !a.nullable() {
            return a;
        }
    }
    let l = Ast::new(K::Unit(gen_cls(r, g, 0), Op::Once, CondK::None));
    if r.flip() {
        return l;
    }
    let a = gen_r(r, g, depth, value);
    if r.flip() { Ast::new(K::Then(bx(l), bx(a))) } else { Ast::new(K::Then(bx(a), bx(l))) }
}

fn gen_dynk(r: &mut Rng, g: &Cfg, depth: u32, value: bool) -> DynK {
    match r.below(9) {
        0 | 1 => DynK::Backref,
        2 | 3 => DynK::Count(gen_cls(r, g, 1)),
        4 | 5 => DynK::Fixed(bx(gen_r(r, g, depth, value))),
        6 | 7 => DynK::Move(bx(gen_r(r, g, depth, value))),
        _ => DynK::Err,
    }
}

pub fn gen_r(r: &mut Rng, g: &Cfg, depth: u32, value: bool) -> Ast {
    if depth == 0 || r.chance(1, 8) {
        return gen_leaf(r, g, depth);
    }
    let d = depth - 1;
    let d = if g.big { d.min(2) } else { d };
    // weights: [seq, choice, ltm, opt, repeats, seps, delimited, look, cond, maps, tables, wraps, dyn, sel, leaf]
    let mut w: [u32; 15] = [10, 8, 4, 6, 9, 9, 8, 4, 6, 4, 7, 4, 2, 2, 4];
    match g.focus {
        Some(Focus::Lists) => {
            w[4] += 20;
            w[5] += 25;
        }
        Some(Focus::Tables) => {
            w[10] += 40;
            w[2] += 10;
        }
        Some(Focus::Look) => {
            w[7] += 25;
            w[8] += 20;
        }
        Some(Focus::Dyn) => w[12] += 40,
        None => {}
    }
    if !g.wraps {
        w[11] = 0;
    }
    if !g.dynr && !g.dync {
        w[12] = 0;
    }
    let k = match r.weighted(&w) {
        0 => K::Then(bx(gen_r(r, g, d, value)), bx(gen_r(r, g, d, value))),
        1 => K::Or(bx(gen_r(r, g, d, value)), bx(gen_r(r, g, d, value))),
        2 => {
            let (a, b) = if g.policy {
                (gen_solid(r, g, d, value), gen_solid(r, g, d, value))
            } else {
                (gen_r(r, g, d, value), gen_r(r, g, d, value))
            };
            K::Ltm(bx(a), bx(b))
        }
        3 => K::Opt(bx(gen_r(r, g, d, value))),
        4 => {
            let rg = gen_rep_range(r, g);
            match r.below(3) {
                0 => {
                    let e = if rng_hi(&rg).is_none() {
                        gen_solid(r, g, d, value)
                    } else {
                        gen_r(r, g, d, value)
                    };
                    K::Repeat(rg, bx(e))
                }
                1 => K::Repeat2(if g.big { r.below(REPEAT2.len()) } else { r.below(SMALL_REPEAT2) }, bx(gen_r(r, g, d, value))),
                _ => K::Collect(gen_count(r, g.big, 3), bx(gen_solid(r, g, d, value))),
            }
        }
        5 => {
            let skip = r.chance(2, 3);
            let min = gen_count(r, g.big, 3);
            let e = gen_r(r, g, d, value);
            let mut s = if r.flip() { gen_leaf(r, g, 0) } else { gen_r(r, g, d, false) };
            let form = r.below(3);
            if form != 1 && e.nullable() && s.nullable() {
                s = gen_solid(r, g, d, false);
            }
            match form {
                0 => K::Sep(min, skip, bx(e), bx(s)),
                1 => K::Sep2(if g.big { r.below(SEP2.len()) } else { r.below(SMALL_SEP2) }, skip, bx(e), bx(s)),
                _ => K::SepC(min, skip, bx(e), bx(s)),
            }
        }
        6 => match r.below(4) {
            0 => K::Enclose(
                bx(gen_leaf(r, g, 0)),
                bx(gen_r(r, g, d, value)),
                bx(gen_r(r, g, d.min(1), false)),
            ),
            1 => K::Prefix(bx(gen_r(r, g, d, false)), bx(gen_r(r, g, d, value))),
            2 => K::Suffix(bx(gen_r(r, g, d, value)), bx(gen_r(r, g, d, false))),
            _ => K::SepOnce(
                bx(gen_r(r, g, d, value)),
                bx(gen_r(r, g, d.min(1), false)),
                bx(gen_r(r, g, d, value)),
            ),
        },
        7 => {
            if r.flip() {
                K::Not(bx(gen_r(r, g, d, false)))
            } else {
                K::Peek(bx(gen_r(r, g, d, false)))
            }
        }
        8 => {
            if r.flip() {
                K::IfThen(
                    bx(gen_r(r, g, d, value)),
                    bx(gen_r(r, g, d.min(1), false)),
                    bx(gen_r(r, g, d, value)),
                )
            } else {
                let t = match r.below(if g.policy { 3 } else { 8 }) {
                    0 | 1 => TestK::Const(r.flip()),
                    2 => TestK::Err,
                    3 | 4 | 5 => TestK::Peek(gen_cls(r, g, 0)),
                    _ => TestK::Off(r.below(2)),
                };
                K::Branch(t, bx(gen_r(r, g, d, value)), bx(gen_r(r, g, d, value)))
            }
        }
        9 => {
            if g.try_map && r.chance(2, 3) {
                let m = r.range(2, 3);
                K::TryMap(RejK::Len(m, r.below(m)), bx(gen_r(r, g, d, value)))
            } else if r.flip() {
                K::Map(r.below(100) as u32, bx(gen_r(r, g, d, value)))
            } else {
                K::Pat(bx(gen_r(r, g, d, false)))
            }
        }
        10 => {
            let form = r.below(3) as u8;
            let n = match form {
                1 if g.big && r.flip() => BIG_ARRAY,
                1 => 3,
                _ if g.big => *r.pick(&[5, 9, 16, 17, 20, 33, 40, 64, 65]),
                _ => r.below(5),
            };
            // many entries, each of them small
            let d = if n > 4 { d.min(1) } else { d };
            let ltm = r.flip();
            let v = (0..n)
                .map(|_| {
                    if g.policy && ltm {
                        gen_solid(r, g, d, value)
                    } else {
                        gen_r(r, g, d, value)
                    }
                })
                .collect();
            K::Table(form, ltm, r.flip(), v)
        }
        11 => K::Wrap(r.below(WRAPS as usize) as u8, bx(gen_r(r, g, d, value))),
        12 => {
            if value && g.dync && (!g.dynr || r.chance(2, 3)) {
                let k = gen_dynk(r, g, d, true);
                K::DynC(bx(gen_r(r, g, d, true)), k)
            } else if g.dynr {
                let k = gen_dynk(r, g, d, false);
                K::DynR(bx(gen_r(r, g, d, false)), k)
            } else {
                K::Then(bx(gen_r(r, g, d, value)), bx(gen_r(r, g, d, value)))
            }
        }
        13 => {
            if r.flip() {
                K::Sel0(bx(gen_r(r, g, d, value)), bx(gen_r(r, g, d, value)))
            } else {
                K::Sel1(bx(gen_r(r, g, d, value)), bx(gen_r(r, g, d, value)))
            }
        }
        _ => return gen_leaf(r, g, d),
    };
    Ast::new(k)
}

pub fn gen_ast(r: &mut Rng, g: &Cfg) -> Ast {
    gen_r(r, g, g.depth, true)
}

/// every unbounded loop consumes something per turn
pub fn terminates(a: &Ast) -> bool {
    let mut ok = true;
    a.walk(&mut |x| match &x.k {
        K::Repeat(r, e) if rng_hi(r).is_none() => ok &= !e.nullable(),
        K::Collect(_, e) => ok &= !e.nullable(),
        K::Sep(_, _, e, s) | K::SepC(_, _, e, s) => ok &= !(e.nullable() && s.nullable()),
        _ => {}
    });
    ok
}

// -------------------------------------------------------------------- inputs

fn sample_cls(r: &mut Rng, g: &Cfg, c: &Cls, out: &mut Vec<u8>) {
    for _ in 0..10 {
        let x = *r.pick(&g.alpha);
        if c.has(x as u32) {
            bytes_of(x, g.text, out);
            return;
        }
    }
    for x in ['a', '1', 'Z', ' ', '_', ',', '\n'] {
        if c.has(x as u32) {
            bytes_of(x, g.text, out);
            return;
        }
    }
    match c {
        Cls::Range(a, ..) => bytes_of(*a, g.text, out),
        Cls::One(a) => bytes_of(*a, g.text, out),
        _ => bytes_of(*r.pick(&g.alpha), g.text, out),
    }
}

pub struct Sampler<'g> {
    pub g: &'g Cfg,
    /// skippable input sprinkled before tokens
    pub ws: Option<&'g Ast>,
    pub cap: usize,
}

impl Sampler<'_> {
    fn space(&self, r: &mut Rng, out: &mut Vec<u8>) {
        if let Some(c) = self.ws {
            let s = Sampler { ws: None, ..*self };
            for _ in 0..r.below(3) {
                s.go(r, c, out);
            }
        }
    }

    fn rep(&self, r: &mut Rng, lo: usize, hi: Option<usize>) -> usize {
        let (most, more) = if self.g.big { (600, *r.pick(&[0, 1, 2, 3, 14, 20, 60, 130, 255, 300, 500])) } else { (5, 3) };
        let lo = lo.min(most);
        let hi = hi.unwrap_or(lo + more).min(lo + more);
        let n = r.range(lo, hi.max(lo));
        // one too many or too few, now and then
        match r.below(10) {
            0 => n + 1,
            1 => n.saturating_sub(1),
            _ => n,
        }
    }

    pub fn go(&self, r: &mut Rng, a: &Ast, out: &mut Vec<u8>) {
        if out.len() > self.cap {
            return;
        }
        match &a.k {
            K::Lit(b, _) => {
                self.space(r, out);
                let at = out.len();
                out.extend_from_slice(b);
                // a long literal with one element wrong, anywhere
                if b.len() > 3 && r.chance(1, 4) {
                    let e = bounds(b, self.g.text);
                    let i = r.below(e.len() - 1);
                    let mut one = vec![];
                    bytes_of(*r.pick(&self.g.alpha), self.g.text, &mut one);
                    out.splice(at + e[i]..at + e[i + 1], one);
                }
            }
            K::Unit(c, op, _) => {
                self.space(r, out);
                let n = match op {
                    Op::Once => 1,
                    Op::Opt => r.below(2),
                    Op::Many0 if self.g.big => self.rep(r, 0, None),
                    Op::Many1 if self.g.big => self.rep(r, 1, None),
                    Op::Many0 => r.below(4),
                    Op::Many1 => r.range(1, 4),
                    Op::Between(i) => self.rep(r, BETWEEN[*i].0, Some(BETWEEN[*i].1)),
                    Op::Times(x) => self.rep(r, rng_lo(x), rng_hi(x)),
                };
                for _ in 0..n {
                    sample_cls(r, self.g, c, out);
                }
            }
            K::Unit2(x, y, _) => {
                self.space(r, out);
                sample_cls(r, self.g, x, out);
                sample_cls(r, self.g, y, out);
            }
            K::Func(c) => {
                self.space(r, out);
                sample_cls(r, self.g, c, out)
            }
            K::Consume(n) => {
                for _ in 0..*n {
                    bytes_of(*r.pick(&self.g.alpha), self.g.text, out);
                }
            }
            K::ConsumeAll => {
                for _ in 0..if self.g.big { r.below(400) } else { r.below(4) } {
                    bytes_of(*r.pick(&self.g.alpha), self.g.text, out);
                }
            }
            K::Start | K::End | K::Empty | K::Fail | K::NoneP | K::SelfRef | K::Spy(..) => {}
            K::Not(_) => {}
            K::Peek(x) => {
                if r.chance(1, 3) {
                    self.go(r, x, out)
                }
            }
            K::Then(x, y) | K::Prefix(x, y) | K::Suffix(x, y) | K::Sel0(x, y) | K::Sel1(x, y) => {
                self.go(r, x, out);
                self.go(r, y, out);
            }
            K::Or(x, y) | K::Ltm(x, y) | K::Branch(_, x, y) => {
                if r.flip() {
                    self.go(r, x, out)
                } else {
                    self.go(r, y, out)
                }
            }
            K::Opt(x) => {
                if r.chance(2, 3) {
                    self.go(r, x, out)
                }
            }
            K::Repeat(rg, x) => {
                for _ in 0..self.rep(r, rng_lo(rg), rng_hi(rg)) {
                    if out.len() > self.cap {
                        break;
                    }
                    self.go(r, x, out)
                }
            }
            K::Repeat2(i, x) => {
                for _ in 0..self.rep(r, REPEAT2[*i].0, Some(REPEAT2[*i].1)) {
                    if out.len() > self.cap {
                        break;
                    }
                    self.go(r, x, out)
                }
            }
            K::Collect(m, x) => {
                for _ in 0..self.rep(r, *m, None) {
                    if out.len() > self.cap {
                        break;
                    }
                    self.go(r, x, out)
                }
            }
            K::Sep(m, _, e, s) | K::SepC(m, _, e, s) => {
                let n = self.rep(r, *m, None);
                self.list(r, n, e, s, out)
            }
            K::Sep2(i, _, e, s) => {
                let n = self.rep(r, SEP2[*i].0, Some(SEP2[*i].1));
                self.list(r, n, e, s, out)
            }
            K::SepOnce(a, b, c) | K::Enclose(a, b, c) => {
                self.go(r, a, out);
                self.go(r, b, out);
                self.go(r, c, out);
            }
            K::IfThen(a, b, c) => {
                self.go(r, a, out);
                if r.chance(2, 3) {
                    self.go(r, b, out);
                    if r.chance(4, 5) {
                        self.go(r, c, out);
                    }
                }
            }
            K::Pat(x) | K::Map(_, x) | K::TryMap(_, x) | K::Wrap(_, x) => self.go(r, x, out),
            K::Table(_, _, _, v) => {
                if !v.is_empty() {
                    let x = r.pick(v).clone();
                    self.go(r, &x, out)
                }
            }
            K::DynR(x, d) | K::DynC(x, d) => {
                let at = out.len();
                self.go(r, x, out);
                match d {
                    DynK::Backref => {
                        let s = out[at..].to_vec();
                        out.extend(s)
                    }
                    DynK::Count(c) => {
                        for _ in 0..(out.len() - at) % 4 {
                            sample_cls(r, self.g, c, out)
                        }
                    }
                    DynK::Fixed(y) => self.go(r, y, out),
                    DynK::Move(y) => {
                        bytes_of(*r.pick(&self.g.alpha), self.g.text, out);
                        self.go(r, y, out)
                    }
                    DynK::Err => {}
                }
            }
        }
    }

    fn list(&self, r: &mut Rng, n: usize, e: &Ast, s: &Ast, out: &mut Vec<u8>) {
        for i in 0..n {
            if out.len() > self.cap {
                break;
            }
            if i > 0 {
                self.go(r, s, out);
                if r.chance(1, 12) {
                    self.go(r, s, out);
                }
            }
            self.go(r, e, out);
        }
        if r.chance(1, 3) {
            self.go(r, s, out);
        }
    }
}

/// boundaries of elements
pub fn bounds(inp: &[u8], text: bool) -> Vec<usize> {
    let mut v = vec![0];
    let mut p = 0;
    while let Some((_, l)) = decode(inp, p, text) {
        p += l;
        v.push(p);
    }
    v
}

pub fn mutate(r: &mut Rng, g: &Cfg, inp: &mut Vec<u8>) {
    for _ in 0..r.range(1, 3) {
        let b = bounds(inp, g.text);
        let n = b.len() - 1;
        let mut ins = vec![];
        bytes_of(*r.pick(&g.alpha), g.text, &mut ins);
        match r.below(6) {
            0 if n > 0 => {
                let i = r.below(n);
                inp.drain(b[i]..b[i + 1]);
            }
            1 => {
                let at = *r.pick(&b);
                inp.splice(at..at, ins);
            }
            2 if n > 0 => {
                let i = r.below(n);
                inp.splice(b[i]..b[i + 1], ins);
            }
            3 => {
                let at = *r.pick(&b);
                inp.truncate(at);
            }
            4 if n > 0 => {
                let i = r.below(n);
                let j = r.range(i, n);
                let s = inp[b[i]..b[j]].to_vec();
                if s.len() < 40 {
                    inp.splice(b[j]..b[j], s);
                }
            }
            _ => inp.extend(ins),
        }
    }
}

pub fn random_input(r: &mut Rng, g: &Cfg, max: usize) -> Vec<u8> {
    let n = r.below(max + 1);
    let mut v = vec![];
    for _ in 0..n {
        bytes_of(*r.pick(&g.alpha), g.text, &mut v);
    }
    v
}

/// what stands before the place where a parse starts, now and then a lot
pub fn gen_lead(r: &mut Rng, g: &Cfg) -> Vec<u8> {
    let n = match r.below(400) {
        0 => *r.pick(&[255, 256, 257, 300, 1000, 4096]),
        1..=15 => r.range(4, 200),
        _ => return vec![],
    };
    let mut v = vec![];
    for _ in 0..n {
        bytes_of(*r.pick(&g.alpha), g.text, &mut v);
    }
    v
}

/// an input for the grammar, and where to start
pub fn gen_input(r: &mut Rng, g: &Cfg, a: &Ast, ws: Option<&Ast>) -> (Vec<u8>, usize) {
    let s = Sampler { g, ws, cap: if g.big { 2500 } else { 60 } };
    let mut out;
    let mut start;
    if r.chance(1, 3) {
        out = random_input(r, g, 4);
        // positions of two or more bytes
        if g.big && r.chance(1, 2) {
            let n = *r.pick(if g.long { &[250, 255, 256, 300, 4_000, 65_530, 65_536] } else { &[250, 255, 256, 300] });
            let mut one = vec![];
            bytes_of(*r.pick(&g.alpha), g.text, &mut one);
            while out.len() < n {
                out.extend_from_slice(&one);
            }
        }
        start = out.len();
    } else {
        out = gen_lead(r, g);
        start = out.len();
    }
    match r.below(10) {
        0 => {
            let x = random_input(r, g, if g.big { 600 } else { 9 });
            out.extend(x);
        }
        k => {
            let mut x = vec![];
            s.go(r, a, &mut x);
            if k < 5 {
                mutate(r, g, &mut x);
            }
            out.extend(x);
            if r.flip() {
                let x = random_input(r, g, 4);
                out.extend(x);
            }
        }
    }
    if r.chance(1, 12) {
        let b = bounds(&out, g.text);
        start = *r.pick(&b);
    }
    (out, start)
}
