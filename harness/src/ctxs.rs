//! The contexts parsers are run in.
use crate::ast::*;
use crate::probe::*;
use neure::ctor::{Ctor, CtorOps, Handler};
use neure::ctx::{BytesCtx, CharsCtx, Context, Match, PolicyCtx};
use neure::err::Error;
use neure::neu::{self, CRange, Condition, Neu, NeuCond, NeuIntoRegexOps, NeuOp};
use neure::regex::{self, Regex};
use neure::span::Span;
use std::fmt::Debug;
use std::ops::Bound;
use std::rc::Rc;

/// Element of an input.
pub trait HItem: Copy + PartialOrd + Debug + 'static {
    fn cp(&self) -> u32;
    fn width(&self) -> usize;
    fn unit(c: &Cls) -> Box<dyn Neu<Self>>;
}

fn from_set<T: PartialEq + Debug + Copy + 'static>(v: Vec<T>, form: u8) -> Box<dyn Neu<T>> {
    match (form % 4, v.len()) {
        (0, 1) => Box::new([v[0]]),
        (0, 2) => Box::new([v[0], v[1]]),
        (0, 3) => Box::new([v[0], v[1], v[2]]),
        (1, _) => {
            // a borrowed slice
            struct Sl<T>(Vec<T>);
            impl<T: PartialEq + Debug> Neu<T> for Sl<T> {
                fn is_match(&self, o: &T) -> bool {
                    (&self.0[..]).is_match(o)
                }
                fn min_length(&self) -> usize {
                    Neu::<T>::min_length(&&self.0[..])
                }
            }
            Box::new(Sl(v))
        }
        (2, n) if n > 0 => {
            let mut b: Box<dyn Neu<T>> = Box::new(neu::equal(v[0]));
            for x in &v[1..] {
                b = Box::new(NeuOp::or(b, neu::equal(*x)));
            }
            b
        }
        _ => Box::new(v),
    }
}

fn from_range<T: PartialOrd + Debug + Copy + 'static>(
    a: T,
    b: T,
    next: Option<T>,
    form: u8,
) -> Box<dyn Neu<T>> {
    match form % 6 {
        0 => Box::new(a..=b),
        1 => Box::new(CRange::from(a..=b)),
        2 => Box::new((Bound::Included(a), Bound::Included(b))),
        3 if next.is_some() => Box::new(a..next.unwrap()),
        4 => Box::new(neu::range(a..=b)),
        _ => Box::new(NeuOp::and(a.., ..=b)),
    }
}

macro_rules! common_unit {
    ($t:ty, $c:expr, $conv:expr, $next:expr) => {{
        let conv = $conv;
        match $c {
            Cls::One(x) => Box::new(conv(*x)),
            Cls::Range(a, b, f) => from_range::<$t>(conv(*a), conv(*b), $next(*b), *f),
            Cls::Set(v, f) => from_set(v.iter().map(|x| conv(*x)).collect::<Vec<$t>>(), *f),
            Cls::AsciiAlpha => Box::new(neu::ascii_alphabetic::<$t>()),
            Cls::AsciiDigit => Box::new(neu::ascii_digit::<$t>()),
            Cls::AsciiAlnum => Box::new(neu::ascii_alphanumeric::<$t>()),
            Cls::AsciiUpper => Box::new(neu::ascii_uppercase::<$t>()),
            Cls::AsciiLower => Box::new(neu::ascii_lowercase::<$t>()),
            Cls::AsciiWs => Box::new(neu::ascii_whitespace::<$t>()),
            Cls::AsciiPunct => Box::new(neu::ascii_punctuation::<$t>()),
            Cls::Word => Box::new(neu::word::<$t>()),
            Cls::Always => Box::new(neu::always::<$t>()),
            Cls::Never => Box::new(neu::never::<$t>()),
            Cls::Not(a) => Box::new(NeuOp::not(<$t>::unit(a))),
            Cls::And(a, b) => Box::new(NeuOp::and(<$t>::unit(a), <$t>::unit(b))),
            Cls::Or(a, b) => Box::new(NeuOp::or(<$t>::unit(a), <$t>::unit(b))),
            Cls::Clo(m, r) => {
                let (m, r) = (*m, *r);
                Box::new(move |x: &$t| x.cp() % m == r)
            }
            c => <$t>::special(c),
        }
    }};
}

trait Special: Sized {
    fn special(c: &Cls) -> Box<dyn Neu<Self>>;
}
impl Special for char {
    fn special(c: &Cls) -> Box<dyn Neu<char>> {
        match c {
            Cls::Alpha => Box::new(neu::alphabetic()),
            Cls::Numeric => Box::new(neu::numeric()),
            Cls::Ws => Box::new(neu::whitespace()),
            Cls::Wild => Box::new(neu::wild()),
            Cls::Upper => Box::new(neu::uppercase()),
            _ => panic!("harness: class {c:?}"),
        }
    }
}
impl Special for u8 {
    fn special(c: &Cls) -> Box<dyn Neu<u8>> {
        panic!("harness: class {c:?} is for text only")
    }
}

impl HItem for char {
    fn cp(&self) -> u32 {
        *self as u32
    }
    fn width(&self) -> usize {
        self.len_utf8()
    }
    fn unit(c: &Cls) -> Box<dyn Neu<char>> {
        common_unit!(char, c, |x: char| x, |b: char| char::from_u32(b as u32 + 1))
    }
}
impl HItem for u8 {
    fn cp(&self) -> u32 {
        *self as u32
    }
    fn width(&self) -> usize {
        1
    }
    fn unit(c: &Cls) -> Box<dyn Neu<u8>> {
        common_unit!(u8, c, |x: char| x as u32 as u8, |b: char| (b as u32 as u8).checked_add(1))
    }
}

/// A context the builder of real parsers knows.
pub trait HCtx<'a>: Match<'a> + Clone + Sized + 'a {
    const TEXT: bool;
    fn lit(bytes: &[u8], form: u8) -> Dyn<'a, Self>;
    fn unit(c: &Cls, op: &Op, cond: &CondK) -> Dyn<'a, Self>;
    fn unit2(a: &Cls, b: &Cls, cond: &CondK) -> Dyn<'a, Self>;
    fn func(c: &Cls) -> Dyn<'a, Self>;
    /// next element
    fn next_item(&self) -> Option<(u32, usize)>;
    fn bytes_of(&self, beg: usize, len: usize) -> Option<Vec<u8>>;
    /// a context over the data (text contexts get valid UTF-8)
    fn mk(data: &'a [u8]) -> Self;
}

// ---------------------------------------------------------------- conditions

pub enum CondObj<'a, C> {
    Fun(CondK),
    Rx(neu::RegexCond<'a, C, Dyn<'a, C>>),
}

impl<'a, C, T> NeuCond<'a, C> for CondObj<'a, C>
where
    T: HItem,
    C: Match<'a> + Context<'a, Item = T>,
{
    fn check(&self, ctx: &C, item: &(usize, T)) -> Result<bool, Error> {
        user_call();
        match self {
            CondObj::Fun(k) => Ok(match k {
                CondK::Even => item.0 % 2 == 0,
                CondK::Lt(n) => item.0 < *n,
                CondK::Cls(c) => c.has(item.1.cp()),
                CondK::ErrAt(n) => {
                    if item.0 >= *n {
                        return Err(e_cond());
                    }
                    true
                }
                _ => true,
            }),
            CondObj::Rx(r) => r.check(ctx, item),
        }
    }
}

fn cond_obj<'a, C: HCtx<'a>>(k: &CondK) -> CondObj<'a, C> {
    match k {
        CondK::Rx(a) => CondObj::Rx(neu::regex_cond(crate::build::build::<C>(a))),
        CondK::RxNot(a) => {
            let n = Ast::new(K::Not(a.clone()));
            CondObj::Rx(neu::regex_cond(crate::build::build::<C>(&n)))
        }
        k => CondObj::Fun(k.clone()),
    }
}

pub fn unit_dyn<'a, C, T>(c: &Cls, op: &Op, cond: &CondK) -> Dyn<'a, C>
where
    T: HItem,
    C: HCtx<'a> + Context<'a, Item = T>,
{
    let u = T::unit(c);
    macro_rules! fin {
        ($x:expr) => {{
            let x = $x;
            if *cond == CondK::None { Box::new(x) } else { Box::new(x.set_cond(cond_obj::<C>(cond))) }
        }};
    }
    match op {
        Op::Once => fin!(NeuIntoRegexOps::<'a, C>::once(u)),
        Op::Opt => fin!(NeuIntoRegexOps::<'a, C>::opt(u)),
        Op::Many0 => fin!(NeuIntoRegexOps::<'a, C>::many0(u)),
        Op::Many1 => fin!(NeuIntoRegexOps::<'a, C>::many1(u)),
        Op::Times(r) => fin!(NeuIntoRegexOps::<'a, C>::times(u, CRange::from(*r))),
        Op::Between(i) => match i {
            0 => fin!(NeuIntoRegexOps::<'a, C>::between::<0, 1>(u)),
            1 => fin!(NeuIntoRegexOps::<'a, C>::at_most::<3>(u)),
            2 => fin!(NeuIntoRegexOps::<'a, C>::count::<1>(u)),
            3 => fin!(NeuIntoRegexOps::<'a, C>::between::<1, 2>(u)),
            4 => fin!(regex::count::<2, 4, C, _>(u)),
            5 => fin!(NeuIntoRegexOps::<'a, C>::count::<3>(u)),
            6 => fin!(NeuIntoRegexOps::<'a, C>::at_least::<0>(u)),
            7 => fin!(NeuIntoRegexOps::<'a, C>::at_least::<2>(u)),
            8 => fin!(NeuIntoRegexOps::<'a, C>::at_most::<20>(u)),
            9 => fin!(NeuIntoRegexOps::<'a, C>::between::<250, 260>(u)),
            10 => fin!(NeuIntoRegexOps::<'a, C>::at_least::<17>(u)),
            _ => panic!("harness: between index"),
        },
    }
}

fn unit2_dyn<'a, C, T>(a: &Cls, b: &Cls, cond: &CondK) -> Dyn<'a, C>
where
    T: HItem,
    C: HCtx<'a> + Context<'a, Item = T>,
{
    let x = NeuIntoRegexOps::<'a, C>::then(T::unit(a), T::unit(b));
    if *cond == CondK::None { Box::new(x) } else { Box::new(x.set_cond(cond_obj::<C>(cond))) }
}

fn func_dyn<'a, C, T>(c: &Cls) -> Dyn<'a, C>
where
    T: HItem,
    C: HCtx<'a> + Context<'a, Item = T>,
{
    let c = c.clone();
    Box::new(move |ctx: &mut C| -> Result<Span, Error> {
        user_call();
        match ctx.peek()?.next() {
            Some((_, x)) if c.has(x.cp()) => {
                let s = Span::new(ctx.offset(), x.width());
                ctx.inc(x.width());
                Ok(s)
            }
            _ => Err(e_func()),
        }
    })
}

fn next_of<'a, C, T>(ctx: &C) -> Option<(u32, usize)>
where
    T: HItem,
    C: Context<'a, Item = T>,
{
    ctx.peek().ok()?.next().map(|x| (x.1.cp(), x.1.width()))
}

// ------------------------------------------------------------------ literals

pub struct LitT(String, u8);
pub struct LitB(Vec<u8>, u8);

impl<'a, C: Match<'a, Orig<'a> = &'a str>> Regex<C> for LitT {
    fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
        match self.1 % 4 {
            0 => self.0.as_str().try_parse(ctx),
            1 => self.0.try_parse(ctx),
            2 => regex::literal(self.0.as_str()).try_parse(ctx),
            _ => (&self.0).try_parse(ctx),
        }
    }
}
impl<'a, C: Match<'a, Orig<'a> = &'a str>, H: Handler<C, Out = O>, O> Ctor<C, O, H> for LitT {
    fn construct(&self, ctx: &mut C, h: &mut H) -> Result<O, Error> {
        match self.1 % 4 {
            0 => self.0.as_str().construct(ctx, h),
            1 => self.0.construct(ctx, h),
            2 => regex::literal(self.0.as_str()).construct(ctx, h),
            _ => (&self.0).construct(ctx, h),
        }
    }
}
impl<'a, C: Match<'a, Orig<'a> = &'a [u8]>> Regex<C> for LitB {
    fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
        match (self.1 % 5, &self.0[..]) {
            (0, _) => self.0.as_slice().try_parse(ctx),
            (1, _) => self.0.try_parse(ctx),
            (2, _) => regex::literal(self.0.as_slice()).try_parse(ctx),
            (3, [a, b]) => [*a, *b].try_parse(ctx),
            (4, [a]) => (&[*a]).try_parse(ctx),
            _ => (&self.0).try_parse(ctx),
        }
    }
}
impl<'a, C: Match<'a, Orig<'a> = &'a [u8]>, H: Handler<C, Out = O>, O> Ctor<C, O, H> for LitB {
    fn construct(&self, ctx: &mut C, h: &mut H) -> Result<O, Error> {
        match (self.1 % 5, &self.0[..]) {
            (0, _) => self.0.as_slice().construct(ctx, h),
            (1, _) => self.0.construct(ctx, h),
            (2, _) => regex::literal(self.0.as_slice()).construct(ctx, h),
            (3, [a, b]) => [*a, *b].construct(ctx, h),
            (4, [a]) => (&[*a]).construct(ctx, h),
            _ => (&self.0).construct(ctx, h),
        }
    }
}

macro_rules! hctx_body {
    (text $s:ident) => {
        const TEXT: bool = true;
        fn lit(b: &[u8], form: u8) -> Dyn<'a, Self> {
            Box::new(LitT(std::str::from_utf8(b).expect("harness: literal").to_string(), form))
        }
        hctx_body!(both);
        fn bytes_of(&self, beg: usize, len: usize) -> Option<Vec<u8>> {
            self.orig_sub(beg, len).ok().map(|s| s.as_bytes().to_vec())
        }
    };
    (bytes $s:ident) => {
        const TEXT: bool = false;
        fn lit(b: &[u8], form: u8) -> Dyn<'a, Self> {
            Box::new(LitB(b.to_vec(), form))
        }
        hctx_body!(both);
        fn bytes_of(&self, beg: usize, len: usize) -> Option<Vec<u8>> {
            self.orig_sub(beg, len).ok().map(|s| s.to_vec())
        }
    };
    (both) => {
        fn unit(c: &Cls, op: &Op, cond: &CondK) -> Dyn<'a, Self> {
            unit_dyn::<Self, _>(c, op, cond)
        }
        fn unit2(a: &Cls, b: &Cls, cond: &CondK) -> Dyn<'a, Self> {
            unit2_dyn::<Self, _>(a, b, cond)
        }
        fn func(c: &Cls) -> Dyn<'a, Self> {
            func_dyn::<Self, _>(c)
        }
        fn next_item(&self) -> Option<(u32, usize)> {
            next_of(self)
        }
    };
}

pub fn text(data: &[u8]) -> &str {
    std::str::from_utf8(data).expect("harness: text input")
}

impl<'a> HCtx<'a> for CharsCtx<'a> {
    hctx_body!(text s);
    fn mk(data: &'a [u8]) -> Self {
        CharsCtx::new(text(data))
    }
}
impl<'a> HCtx<'a> for BytesCtx<'a> {
    hctx_body!(bytes s);
    fn mk(data: &'a [u8]) -> Self {
        BytesCtx::new(data)
    }
}

// ------------------------------------------------- a user-implemented context

/// A context implemented outside of neure, with the plainest possible
/// meaning: data, position, and matching that just runs the pattern.
#[derive(Debug)]
pub struct UCtx<'a, T: ?Sized> {
    pub dat: &'a T,
    pub off: usize,
}
impl<T: ?Sized> Clone for UCtx<'_, T> {
    fn clone(&self) -> Self {
        UCtx { dat: self.dat, off: self.off }
    }
}
pub type UText<'a> = UCtx<'a, str>;
pub type UBytes<'a> = UCtx<'a, [u8]>;

pub struct UIter<'b, T> {
    src: std::collections::VecDeque<(usize, T)>,
    _m: std::marker::PhantomData<&'b ()>,
}
/// lazily decoding iterator over text
pub struct UChars<'b>(&'b str, usize);
impl Iterator for UChars<'_> {
    type Item = (usize, char);
    fn next(&mut self) -> Option<(usize, char)> {
        let c = self.0[self.1..].chars().next()?;
        let at = self.1;
        self.1 += c.len_utf8();
        Some((at, c))
    }
}
pub struct UB<'b>(&'b [u8], usize);
impl Iterator for UB<'_> {
    type Item = (usize, u8);
    fn next(&mut self) -> Option<(usize, u8)> {
        let c = *self.0.get(self.1)?;
        self.1 += 1;
        Some((self.1 - 1, c))
    }
}

macro_rules! uctx {
    ($t:ty, $item:ty, $iter:ident, $orig:ty) => {
        impl<'a> Context<'a> for UCtx<'a, $t> {
            type Orig<'b> = &'b $t;
            type Item = $item;
            type Iter<'b> = $iter<'b>;
            fn len(&self) -> usize {
                self.dat.len()
            }
            fn offset(&self) -> usize {
                self.off
            }
            fn set_offset(&mut self, offset: usize) -> &mut Self {
                self.off = offset;
                self
            }
            fn inc(&mut self, offset: usize) -> &mut Self {
                self.off += offset;
                self
            }
            fn dec(&mut self, offset: usize) -> &mut Self {
                self.off -= offset;
                self
            }
            fn peek_at(&self, offset: usize) -> Result<$iter<'a>, Error> {
                Ok($iter(self.dat.get(offset..).ok_or(Error::OutOfBound)?, 0))
            }
            fn orig_sub(&self, offset: usize, len: usize) -> Result<&'a $t, Error> {
                let end = offset.checked_add(len).ok_or(Error::OutOfBound)?;
                self.dat.get(offset..end).ok_or(Error::OutOfBound)
            }
            fn clone_at(&self, offset: usize) -> Result<Self, Error> {
                Ok(UCtx { dat: self.dat.get(offset..).ok_or(Error::OutOfBound)?, off: 0 })
            }
        }
        impl<'a> Match<'a> for UCtx<'a, $t> {
            fn try_mat<Pat>(&mut self, pat: &Pat) -> Result<Span, Error>
            where
                Pat: Regex<Self> + ?Sized,
            {
                pat.try_parse(self)
            }
        }
    };
}
uctx!(str, char, UChars, str);
uctx!([u8], u8, UB, [u8]);

impl<'a> HCtx<'a> for UCtx<'a, str> {
    hctx_body!(text s);
    fn mk(data: &'a [u8]) -> Self {
        UCtx { dat: text(data), off: 0 }
    }
}
impl<'a> HCtx<'a> for UCtx<'a, [u8]> {
    hctx_body!(bytes s);
    fn mk(data: &'a [u8]) -> Self {
        UCtx { dat: data, off: 0 }
    }
}

// ----------------------------------------------------------- skipping contexts

pub type PolR<'a, I> = Rc<dyn Regex<I> + 'a>;
pub type PText<'a> = PolicyCtx<CharsCtx<'a>, PolR<'a, CharsCtx<'a>>>;
pub type PBytes<'a> = PolicyCtx<BytesCtx<'a>, PolR<'a, BytesCtx<'a>>>;

impl<'a> HCtx<'a> for PText<'a> {
    hctx_body!(text s);
    fn mk(data: &'a [u8]) -> Self {
        pol_text(data, &ws0())
    }
}
impl<'a> HCtx<'a> for PBytes<'a> {
    hctx_body!(bytes s);
    fn mk(data: &'a [u8]) -> Self {
        pol_bytes(data, &ws0())
    }
}

fn ws0() -> Ast {
    Ast::new(K::Unit(Cls::AsciiWs, Op::Many0, CondK::None))
}

pub fn pol_text<'a>(data: &'a [u8], skip: &Ast) -> PText<'a> {
    let r: PolR<'a, CharsCtx<'a>> = Rc::new(crate::build::build::<CharsCtx<'a>>(skip));
    CharsCtx::new(text(data)).skip_before(r)
}
pub fn pol_bytes<'a>(data: &'a [u8], skip: &Ast) -> PBytes<'a> {
    let r: PolR<'a, BytesCtx<'a>> = Rc::new(crate::build::build::<BytesCtx<'a>>(skip));
    BytesCtx::new(data).skip_before(r)
}

/// the ready-made policies
pub type PAsciiT<'a> = PolicyCtx<CharsCtx<'a>, neu::Many0<CharsCtx<'a>, neu::AsciiWhiteSpace<char>, char>>;
pub type PWs<'a> = PolicyCtx<CharsCtx<'a>, neu::Many0<CharsCtx<'a>, neu::WhiteSpace, char>>;
pub type PAsciiB<'a> = PolicyCtx<BytesCtx<'a>, neu::Many0<BytesCtx<'a>, neu::AsciiWhiteSpace<u8>, u8>>;

impl<'a> HCtx<'a> for PAsciiT<'a> {
    hctx_body!(text s);
    fn mk(data: &'a [u8]) -> Self {
        CharsCtx::new(text(data)).skip_ascii_whitespace()
    }
}
impl<'a> HCtx<'a> for PWs<'a> {
    hctx_body!(text s);
    fn mk(data: &'a [u8]) -> Self {
        CharsCtx::new(text(data)).skip_whitespace()
    }
}
impl<'a> HCtx<'a> for PAsciiB<'a> {
    hctx_body!(bytes s);
    fn mk(data: &'a [u8]) -> Self {
        BytesCtx::new(data).skip_ascii_whitespace()
    }
}

#[allow(unused)]
fn _use<'a, C: HCtx<'a>>(d: Dyn<'a, C>) {
    let _ = CtorOps::<'a, C>::pat(d);
}
