//! Grammar descriptions shared by the reference interpreter and the builder
//! of real parsers, and the value tree both produce.
use neure::err::Error;
use std::ops::Bound;

#[derive(Clone, Debug, PartialEq)]
pub enum Cls {
    One(char),
    /// inclusive range, built in one of several forms
    Range(char, char, u8),
    Set(Vec<char>, u8),
    AsciiAlpha,
    AsciiDigit,
    AsciiAlnum,
    AsciiUpper,
    AsciiLower,
    AsciiWs,
    AsciiPunct,
    Word,
    /// text only
    Alpha,
    Numeric,
    Ws,
    Wild,
    Upper,
    Always,
    Never,
    Not(Box<Cls>),
    And(Box<Cls>, Box<Cls>),
    Or(Box<Cls>, Box<Cls>),
    /// closure over the code point
    Clo(u32, u32),
}

impl Cls {
    pub fn text_only(&self) -> bool {
        match self {
            Cls::Alpha | Cls::Numeric | Cls::Ws | Cls::Wild | Cls::Upper => true,
            Cls::Not(a) => a.text_only(),
            Cls::And(a, b) | Cls::Or(a, b) => a.text_only() || b.text_only(),
            _ => false,
        }
    }

    /// `c` is a scalar value in text and a byte value in bytes
    pub fn has(&self, c: u32) -> bool {
        let ch = char::from_u32(c);
        let asc = c < 128;
        match self {
            Cls::One(x) => *x as u32 == c,
            Cls::Range(a, b, _) => *a as u32 <= c && c <= *b as u32,
            Cls::Set(v, _) => v.iter().any(|x| *x as u32 == c),
            Cls::AsciiAlpha => asc && (c as u8).is_ascii_alphabetic(),
            Cls::AsciiDigit => asc && (c as u8).is_ascii_digit(),
            Cls::AsciiAlnum => asc && (c as u8).is_ascii_alphanumeric(),
            Cls::AsciiUpper => asc && (c as u8).is_ascii_uppercase(),
            Cls::AsciiLower => asc && (c as u8).is_ascii_lowercase(),
            Cls::AsciiWs => asc && (c as u8).is_ascii_whitespace(),
            Cls::AsciiPunct => asc && (c as u8).is_ascii_punctuation(),
            Cls::Word => asc && ((c as u8).is_ascii_alphanumeric() || c == '_' as u32),
            Cls::Alpha => ch.is_some_and(|c| c.is_alphabetic()),
            Cls::Numeric => ch.is_some_and(|c| c.is_numeric()),
            Cls::Ws => ch.is_some_and(|c| c.is_whitespace()),
            Cls::Upper => ch.is_some_and(|c| c.is_uppercase()),
            Cls::Wild => c != '\n' as u32,
            Cls::Always => true,
            Cls::Never => false,
            Cls::Not(a) => !a.has(c),
            Cls::And(a, b) => a.has(c) && b.has(c),
            Cls::Or(a, b) => a.has(c) || b.has(c),
            Cls::Clo(m, r) => c % m == *r,
        }
    }
}

pub type BndRange = (Bound<usize>, Bound<usize>);

pub fn rng_contains(r: &BndRange, n: usize) -> bool {
    (match r.0 {
        Bound::Included(a) => n >= a,
        Bound::Excluded(a) => n > a,
        Bound::Unbounded => true,
    }) && (match r.1 {
        Bound::Included(a) => n <= a,
        Bound::Excluded(a) => n < a,
        Bound::Unbounded => true,
    })
}

pub fn rng_lo(r: &BndRange) -> usize {
    match r.0 {
        Bound::Included(a) => a,
        Bound::Excluded(a) => a.saturating_add(1),
        Bound::Unbounded => 0,
    }
}

/// largest permitted count
pub fn rng_hi(r: &BndRange) -> Option<usize> {
    match r.1 {
        Bound::Included(a) => Some(a),
        Bound::Excluded(a) => Some(a.saturating_sub(1)),
        Bound::Unbounded => None,
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Once,
    Opt,
    Many0,
    Many1,
    /// index into BETWEEN
    Between(usize),
    Times(BndRange),
}

pub const BETWEEN: &[(usize, usize)] = &[
    (0, 1),
    (0, 3),
    (1, 1),
    (1, 2),
    (2, 4),
    (3, 3),
    (0, usize::MAX),
    (2, usize::MAX),
    (0, 20),
    (250, 260),
    (17, usize::MAX),
];
/// how many of these a small grammar uses
pub const SMALL_BETWEEN: usize = 8;
pub const SMALL_REPEAT2: usize = 4;
pub const SMALL_SEP2: usize = 4;
pub const BIG_ARRAY: usize = 20;
pub const REPEAT2: &[(usize, usize)] = &[(0, 2), (1, 1), (1, 3), (2, 4), (0, 20), (17, 40)];
pub const SEP2: &[(usize, usize)] = &[(0, 3), (1, 2), (2, 2), (1, 4), (0, 20), (17, 40)];

#[derive(Clone, Debug, PartialEq)]
pub enum CondK {
    None,
    /// distance of the element from the start is even
    Even,
    Lt(usize),
    Cls(Cls),
    /// error once the distance reaches n
    ErrAt(usize),
    Rx(Box<Ast>),
    RxNot(Box<Ast>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum TestK {
    Const(bool),
    /// next element is in the class
    Peek(Cls),
    Off(usize),
    Err,
}

#[derive(Clone, Debug, PartialEq)]
pub enum DynK {
    /// literal equal to what was matched
    Backref,
    /// as many elements of class as the matched length modulo 4
    Count(Cls),
    Fixed(Box<Ast>),
    /// builder steps over one more element first
    Move(Box<Ast>),
    Err,
}

#[derive(Clone, Debug, PartialEq)]
pub enum RejK {
    /// hull length modulo m equals r
    Len(usize, usize),
    Never,
}

pub const TABLE_FORMS: u8 = 3; // 0 vector 1 array(3) 2 slice

#[derive(Clone, Debug, PartialEq)]
pub enum K {
    Lit(Vec<u8>, u8),
    Unit(Cls, Op, CondK),
    Unit2(Cls, Cls, CondK),
    Start,
    End,
    Consume(usize),
    ConsumeAll,
    Empty,
    Fail,
    Func(Cls),
    NoneP,
    /// outcome decided by its number and the position alone, observed; the
    /// flag: never matches nothing
    Spy(u32, bool),
    /// the whole recursive parser again
    SelfRef,
    Not(Box<Ast>),
    Peek(Box<Ast>),
    Then(Box<Ast>, Box<Ast>),
    Or(Box<Ast>, Box<Ast>),
    Ltm(Box<Ast>, Box<Ast>),
    Opt(Box<Ast>),
    Repeat(BndRange, Box<Ast>),
    Repeat2(usize, Box<Ast>),
    Collect(usize, Box<Ast>),
    Sep(usize, bool, Box<Ast>, Box<Ast>),
    Sep2(usize, bool, Box<Ast>, Box<Ast>),
    SepC(usize, bool, Box<Ast>, Box<Ast>),
    SepOnce(Box<Ast>, Box<Ast>, Box<Ast>),
    Enclose(Box<Ast>, Box<Ast>, Box<Ast>),
    /// prefix, pattern
    Prefix(Box<Ast>, Box<Ast>),
    /// pattern, suffix
    Suffix(Box<Ast>, Box<Ast>),
    /// left, test, right
    IfThen(Box<Ast>, Box<Ast>, Box<Ast>),
    Branch(TestK, Box<Ast>, Box<Ast>),
    Pat(Box<Ast>),
    Map(u32, Box<Ast>),
    TryMap(RejK, Box<Ast>),
    Sel0(Box<Ast>, Box<Ast>),
    Sel1(Box<Ast>, Box<Ast>),
    /// form, longest, attached values, entries
    Table(u8, bool, bool, Vec<Ast>),
    Wrap(u8, Box<Ast>),
    /// plain matching only: wrapped in `.pat()` by the builder
    DynR(Box<Ast>, DynK),
    /// construction only
    DynC(Box<Ast>, DynK),
}

pub const WRAPS: u8 = 14;

#[derive(Clone, Debug, PartialEq)]
pub struct Ast {
    pub k: K,
}

impl Ast {
    pub fn new(k: K) -> Ast {
        Ast { k }
    }

    pub fn size(&self) -> usize {
        let mut n = 0;
        self.walk(&mut |_| n += 1);
        n
    }

    pub fn walk(&self, f: &mut dyn FnMut(&Ast)) {
        f(self);
        for c in self.children() {
            c.walk(f);
        }
    }

    pub fn children(&self) -> Vec<&Ast> {
        fn dynk(d: &DynK) -> Option<&Ast> {
            match d {
                DynK::Fixed(a) | DynK::Move(a) => Some(a),
                _ => None,
            }
        }
        fn cond(c: &CondK) -> Option<&Ast> {
            match c {
                CondK::Rx(a) | CondK::RxNot(a) => Some(a),
                _ => None,
            }
        }
        match &self.k {
            K::Unit(_, _, c) | K::Unit2(_, _, c) => cond(c).into_iter().collect(),
            K::Not(a)
            | K::Peek(a)
            | K::Opt(a)
            | K::Repeat(_, a)
            | K::Repeat2(_, a)
            | K::Collect(_, a)
            | K::Pat(a)
            | K::Map(_, a)
            | K::TryMap(_, a)
            | K::Wrap(_, a) => vec![a],
            K::Then(a, b)
            | K::Or(a, b)
            | K::Ltm(a, b)
            | K::Sep(_, _, a, b)
            | K::Sep2(_, _, a, b)
            | K::SepC(_, _, a, b)
            | K::Prefix(a, b)
            | K::Suffix(a, b)
            | K::Branch(_, a, b)
            | K::Sel0(a, b)
            | K::Sel1(a, b) => vec![a, b],
            K::SepOnce(a, b, c) | K::Enclose(a, b, c) | K::IfThen(a, b, c) => vec![a, b, c],
            K::Table(_, _, _, v) => v.iter().collect(),
            K::DynR(a, d) | K::DynC(a, d) => {
                let mut v: Vec<&Ast> = vec![a];
                v.extend(dynk(d));
                v
            }
            _ => vec![],
        }
    }

    /// may succeed without consuming (conservative)
    pub fn nullable(&self) -> bool {
        match &self.k {
            K::Lit(b, _) => b.is_empty(),
            K::Unit(_, op, _) => match op {
                Op::Once | Op::Many1 => false,
                Op::Opt | Op::Many0 => true,
                Op::Between(i) => BETWEEN[*i].0 == 0,
                Op::Times(r) => rng_lo(r) == 0,
            },
            K::Unit2(..) | K::Fail | K::NoneP | K::Func(_) => false,
            K::Spy(_, solid) => !solid,
            // only placed behind something that consumes
            K::SelfRef => true,
            K::Start | K::End | K::Empty | K::ConsumeAll | K::Not(_) | K::Peek(_) => true,
            K::Consume(n) => *n == 0,
            K::Then(a, b) | K::Prefix(a, b) | K::Suffix(a, b) | K::Sel0(a, b) | K::Sel1(a, b) => {
                a.nullable() && b.nullable()
            }
            K::Or(a, b) | K::Ltm(a, b) | K::Branch(_, a, b) => a.nullable() || b.nullable(),
            K::Opt(_) => true,
            K::Repeat(r, a) => rng_lo(r) == 0 || a.nullable(),
            K::Repeat2(i, a) => REPEAT2[*i].0 == 0 || a.nullable(),
            K::Collect(m, a) => *m == 0 || a.nullable(),
            K::Sep(m, _, a, _) | K::SepC(m, _, a, _) => *m == 0 || a.nullable(),
            K::Sep2(i, _, a, _) => SEP2[*i].0 == 0 || a.nullable(),
            K::SepOnce(a, b, c) | K::Enclose(a, b, c) => {
                a.nullable() && b.nullable() && c.nullable()
            }
            K::IfThen(a, _, _) => a.nullable(),
            K::Pat(a) | K::Map(_, a) | K::TryMap(_, a) | K::Wrap(_, a) => a.nullable(),
            K::Table(_, _, _, v) => v.iter().any(|a| a.nullable()),
            K::DynR(a, _) | K::DynC(a, _) => a.nullable(),
        }
    }

    pub fn name(&self) -> &'static str {
        match &self.k {
            K::Lit(..) => "Lit",
            K::Unit(_, op, _) => match op {
                Op::Once => "Once",
                Op::Opt => "UOpt",
                Op::Many0 => "Many0",
                Op::Many1 => "Many1",
                Op::Between(_) => "Between",
                Op::Times(_) => "Times",
            },
            K::Unit2(..) => "Unit2",
            K::Start => "Start",
            K::End => "End",
            K::Consume(_) => "Consume",
            K::ConsumeAll => "ConsumeAll",
            K::Empty => "Empty",
            K::Fail => "Fail",
            K::Func(_) => "Func",
            K::NoneP => "NoneP",
            K::Spy(..) => "Spy",
            K::SelfRef => "SelfRef",
            K::Not(_) => "Not",
            K::Peek(_) => "Peek",
            K::Then(..) => "Then",
            K::Or(..) => "Or",
            K::Ltm(..) => "Ltm",
            K::Opt(_) => "Opt",
            K::Repeat(..) => "Repeat",
            K::Repeat2(..) => "Repeat2",
            K::Collect(..) => "Collect",
            K::Sep(..) => "Sep",
            K::Sep2(..) => "Sep2",
            K::SepC(..) => "SepC",
            K::SepOnce(..) => "SepOnce",
            K::Enclose(..) => "Enclose",
            K::Prefix(..) => "Prefix",
            K::Suffix(..) => "Suffix",
            K::IfThen(..) => "IfThen",
            K::Branch(..) => "Branch",
            K::Pat(_) => "Pat",
            K::Map(..) => "Map",
            K::TryMap(..) => "TryMap",
            K::Sel0(..) => "Sel0",
            K::Sel1(..) => "Sel1",
            K::Table(..) => "Table",
            K::Wrap(..) => "Wrap",
            K::DynR(..) => "DynR",
            K::DynC(..) => "DynC",
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    /// invocation number, begin, length
    Leaf(u32, usize, usize),
    Pair(Box<Val>, Box<Val>),
    Opt(Option<Box<Val>>),
    List(Vec<Val>),
    Arr(Vec<Option<Val>>),
    Key(u32, Box<Val>),
    Mapped(u32, Box<Val>),
    /// a leaf whose lifetime is accounted for
    Live(crate::probe::Token, usize, usize),
}

impl Val {
    pub fn leaves(&self, out: &mut Vec<(u32, usize, usize)>) {
        match self {
            Val::Leaf(i, b, l) => out.push((*i, *b, *l)),
            Val::Live(t, b, l) => out.push((t.id() as u32, *b, *l)),
            Val::Pair(a, b) => {
                a.leaves(out);
                b.leaves(out);
            }
            Val::Opt(o) => {
                if let Some(v) = o {
                    v.leaves(out)
                }
            }
            Val::List(v) => v.iter().for_each(|x| x.leaves(out)),
            Val::Arr(v) => v.iter().flatten().for_each(|x| x.leaves(out)),
            Val::Key(_, v) | Val::Mapped(_, v) => v.leaves(out),
        }
    }
    pub fn first_leaf(&self) -> Option<(usize, usize)> {
        let mut v = vec![];
        self.leaves(&mut v);
        v.first().map(|x| (x.1, x.2))
    }
    /// same tree with invocation numbers erased
    pub fn erase(&self) -> Val {
        match self {
            Val::Leaf(_, b, l) | Val::Live(_, b, l) => Val::Leaf(0, *b, *l),
            Val::Pair(a, b) => Val::Pair(Box::new(a.erase()), Box::new(b.erase())),
            Val::Opt(o) => Val::Opt(o.as_ref().map(|v| Box::new(v.erase()))),
            Val::List(v) => Val::List(v.iter().map(|x| x.erase()).collect()),
            Val::Arr(v) => Val::Arr(v.iter().map(|x| x.as_ref().map(|x| x.erase())).collect()),
            Val::Key(k, v) => Val::Key(*k, Box::new(v.erase())),
            Val::Mapped(k, v) => Val::Mapped(*k, Box::new(v.erase())),
        }
    }
    /// total length of the leaves
    pub fn total(&self) -> usize {
        let mut v = vec![];
        self.leaves(&mut v);
        v.iter().map(|x| x.2).sum()
    }
}

impl RejK {
    pub fn rejects(&self, v: &Val) -> bool {
        match self {
            RejK::Len(m, r) => v.total() % m == *r,
            RejK::Never => false,
        }
    }
}

/// Which leaf spans the recording handler refuses.
#[derive(Clone, Debug, PartialEq)]
pub enum Rej {
    None,
    LenIs(usize),
    BegMod(usize, usize),
    EndMod(usize, usize),
}

impl Rej {
    pub fn rejects(&self, beg: usize, len: usize) -> bool {
        match self {
            Rej::None => false,
            Rej::LenIs(n) => len == *n,
            Rej::BegMod(m, r) => beg % m == *r,
            Rej::EndMod(m, r) => (beg + len) % m == *r,
        }
    }
}

// The errors of user code, chosen per case: a library has no business with
// what they are.
thread_local! {
    static PALETTE: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
pub const OWN_PALETTES: usize = 7;
pub const PALETTES: usize = 20;
/// the ones below OWN_PALETTES are user error numbers, the rest the library's own errors
pub fn set_palette(n: usize) {
    PALETTE.with(|p| p.set(n));
}
fn user_error(k: usize) -> Error {
    const UIDS: [usize; 6] = [0, 1, usize::MAX, 255, 256, 1 << 40];
    const OWN: [Error; 13] = [
        Error::Fail, Error::OutOfBound, Error::FromStr, Error::TryInto, Error::Option, Error::Mutex, Error::SelectEq,
        Error::Utf8Error, Error::Once, Error::AssertFalse, Error::Literal, Error::Repeat, Error::Bounded,
    ];
    match PALETTE.with(|p| p.get()) {
        0 => Error::Uid([7, 8, 9, 11, 13, 17][k]),
        n if n < OWN_PALETTES => Error::Uid(UIDS[(n + k) % 6]),
        n => OWN[(n + k) % OWN.len()],
    }
}
pub fn e_func() -> Error { user_error(0) }
pub fn e_test() -> Error { user_error(1) }
pub fn e_cond() -> Error { user_error(2) }
pub fn e_build() -> Error { user_error(3) }
pub fn e_handler() -> Error { user_error(4) }
pub fn e_map() -> Error { user_error(5) }

/// what a spy does: how much it matches, if it does
pub fn spy_outcome(id: u32, solid: bool, pos: usize, left: usize) -> Option<usize> {
    let mut x = (id as u64) << 32 ^ (pos as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    x = (x ^ (x >> 31)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    x = (x ^ (x >> 29)).wrapping_mul(0x94d0_49bb_1331_11eb);
    x ^= x >> 32;
    let fails = [5, 20, 45, 75][(id % 4) as usize];
    if x % 100 < fails {
        return None;
    }
    let n = [0, 1, 1, 1, 2, 3][(x / 100 % 6) as usize].max(solid as usize);
    (n <= left).then_some(n)
}

/// one call into user code
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ev {
    /// a part: number, position, what it matched
    Part(u32, usize, Option<usize>),
    /// a test function: position, answer
    Test(usize, Option<bool>),
    /// a builder function: position
    Build(usize),
    /// the handler: span, accepted
    Handle(usize, usize, bool),
    /// a mapper: tag
    Map(u32),
    /// a mapper that may refuse: accepted
    TryMap(bool),
}
