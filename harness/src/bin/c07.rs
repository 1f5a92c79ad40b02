//! C07: classes, ranges, sets, equality and their boolean combinations accept
//! exactly their members.  The first cases sweep every named class over the
//! complete character or byte space; the others sweep random combinations.
use nverif::drv::{guarded, run, Obs, Plan};
use nverif::rng::Rng;
use neure::ctx::{BytesCtx, CharsCtx};
use neure::ctx::Match;
use neure::neu::{self, CRange, Neu, NeuIntoRegexOps, NeuOp};
use std::cell::{Cell, RefCell};
use std::fmt::Debug;
use std::ops::Bound;
use std::rc::Rc;
use std::sync::{Arc, Mutex};

type U<T> = Box<dyn Neu<T>>;
type F = Box<dyn Fn(u32) -> bool>;

struct Sub<T> {
    name: String,
    u: U<T>,
    f: F,
}

fn sub<T, N: Neu<T> + 'static>(name: &str, u: N, f: impl Fn(u32) -> bool + 'static) -> Sub<T> {
    Sub { name: name.to_string(), u: Box::new(u), f: Box::new(f) }
}

// definitions written out, from the ASCII table
fn up(c: u32) -> bool {
    0x41 <= c && c <= 0x5a
}
fn lo(c: u32) -> bool {
    0x61 <= c && c <= 0x7a
}
fn dg(c: u32) -> bool {
    0x30 <= c && c <= 0x39
}
fn gr(c: u32) -> bool {
    0x21 <= c && c <= 0x7e
}
fn digit_in(c: u32, radix: u32) -> bool {
    let v = if dg(c) {
        c - 0x30
    } else if lo(c) {
        c - 0x61 + 10
    } else if up(c) {
        c - 0x41 + 10
    } else {
        return false;
    };
    v < radix
}

macro_rules! ascii_subs {
    ($t:ty) => {{
        let v: Vec<Sub<$t>> = vec![
            sub("ascii", neu::ascii::<$t>(), |c| c < 128),
            sub("ascii_alphabetic", neu::ascii_alphabetic::<$t>(), |c| up(c) || lo(c)),
            sub("ascii_alphanumeric", neu::ascii_alphanumeric::<$t>(), |c| up(c) || lo(c) || dg(c)),
            sub("ascii_control", neu::ascii_control::<$t>(), |c| c < 0x20 || c == 0x7f),
            sub("ascii_digit", neu::ascii_digit::<$t>(), dg),
            sub("ascii_graphic", neu::ascii_graphic::<$t>(), gr),
            sub("ascii_hexdigit", neu::ascii_hexdigit::<$t>(), |c| digit_in(c, 16)),
            sub("ascii_lowercase", neu::ascii_lowercase::<$t>(), lo),
            sub("ascii_punctuation", neu::ascii_punctuation::<$t>(), |c| gr(c) && !up(c) && !lo(c) && !dg(c)),
            sub("ascii_uppercase", neu::ascii_uppercase::<$t>(), up),
            sub("ascii_whitespace", neu::ascii_whitespace::<$t>(), |c| matches!(c, 9 | 10 | 12 | 13 | 32)),
            sub("word", neu::word::<$t>(), |c| up(c) || lo(c) || dg(c) || c == 0x5f),
            sub("always", neu::always::<$t>(), |_| true),
            sub("never", neu::never::<$t>(), |_| false),
            sub("..", .., |_| true),
            sub("closure", |x: &$t| (*x as u32) % 7 == 3, |c| c % 7 == 3),
            sub("!ascii", !neu::ascii::<$t>(), |c| c >= 128),
            sub("!ascii_alphabetic", !neu::ascii_alphabetic::<$t>(), |c| !(up(c) || lo(c))),
            sub("!ascii_alphanumeric", !neu::ascii_alphanumeric::<$t>(), |c| !(up(c) || lo(c) || dg(c))),
            sub("!ascii_control", !neu::ascii_control::<$t>(), |c| !(c < 0x20 || c == 0x7f)),
            sub("!ascii_digit", !neu::ascii_digit::<$t>(), |c| !dg(c)),
            sub("!ascii_graphic", !neu::ascii_graphic::<$t>(), |c| !gr(c)),
            sub("!ascii_hexdigit", !neu::ascii_hexdigit::<$t>(), |c| !digit_in(c, 16)),
            sub("!ascii_lowercase", !neu::ascii_lowercase::<$t>(), |c| !lo(c)),
            sub("!ascii_punctuation", !neu::ascii_punctuation::<$t>(), |c| !(gr(c) && !up(c) && !lo(c) && !dg(c))),
            sub("!ascii_uppercase", !neu::ascii_uppercase::<$t>(), |c| !up(c)),
            sub("!ascii_whitespace", !neu::ascii_whitespace::<$t>(), |c| !matches!(c, 9 | 10 | 12 | 13 | 32)),
            sub("!word", !neu::word::<$t>(), |c| !(up(c) || lo(c) || dg(c) || c == 0x5f)),
            sub("!always", !neu::always::<$t>(), |_| false),
            sub("!never", !neu::never::<$t>(), |_| true),
            sub("Cell", Cell::new(neu::ascii_digit::<$t>()), dg),
            sub("RefCell", RefCell::new(neu::ascii_digit::<$t>()), dg),
            sub("Mutex", Mutex::new(neu::ascii_digit::<$t>()), dg),
            sub("Rc", Rc::new(neu::ascii_digit::<$t>()), dg),
            sub("Arc", Arc::new(neu::ascii_digit::<$t>()), dg),
            sub("Rc dyn", Rc::new(neu::ascii_digit::<$t>()) as Rc<dyn Neu<$t>>, dg),
            sub("Arc dyn", Arc::new(neu::ascii_digit::<$t>()) as Arc<dyn Neu<$t>>, dg),
            sub("Box dyn", Box::new(neu::ascii_digit::<$t>()) as Box<dyn Neu<$t>>, dg),
            sub("Cell one", Cell::new(b'k' as $t), |c| c == 0x6b),
            sub("RefCell one", RefCell::new(b'k' as $t), |c| c == 0x6b),
            sub("Mutex one", Mutex::new(b'k' as $t), |c| c == 0x6b),
            sub("Rc one", Rc::new(b'k' as $t), |c| c == 0x6b),
            sub("Arc one", Arc::new(b'k' as $t), |c| c == 0x6b),
            sub("Default ascii_digit", <neu::AsciiDigit<$t>>::default(), dg),
            sub("Default Word", <neu::Word<$t>>::new(), |c| up(c) || lo(c) || dg(c) || c == 0x5f),
        ];
        v
    }};
}

fn char_subs() -> Vec<Sub<char>> {
    let ch = |c: u32| char::from_u32(c).unwrap();
    let mut v = ascii_subs!(char);
    macro_rules! uni {
        ($($n:ident $m:ident),*) => { $(
            v.push(sub(stringify!($n), neu::$n(), move |c| ch(c).$m()));
            v.push(sub(concat!("!", stringify!($n)), !neu::$n(), move |c| !ch(c).$m()));
            v.push(sub(concat!("not ", stringify!($n)), neu::not(neu::$n()), move |c| !ch(c).$m()));
        )* };
    }
    uni!(alphabetic is_alphabetic, alphanumeric is_alphanumeric, control is_control, lowercase is_lowercase,
         numeric is_numeric, uppercase is_uppercase, whitespace is_whitespace);
    for radix in 2..=36 {
        v.push(sub(&format!("digit({radix})"), neu::digit(radix), move |c| digit_in(c, radix)));
        v.push(sub(&format!("!digit({radix})"), !neu::digit(radix), move |c| !digit_in(c, radix)));
    }
    v.push(sub("wild", neu::wild(), |c| c != 10));
    v.push(sub("!wild", !neu::wild(), |c| c == 10));
    for c in ['a', '\n', '\0', 'é', '€', '😀', '\u{10FFFF}', '\u{D7FF}', '\u{E000}', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}'] {
        v.push(sub(&format!("{c:?}"), c, move |x| x == c as u32));
        v.push(sub(&format!("!equal {c:?}"), !neu::equal(c), move |x| x != c as u32));
        v.push(sub(&format!("equal {c:?}"), neu::equal(c), move |x| x == c as u32));
        v.push(sub(&format!("..={c:?}"), ..=c, move |x| x <= c as u32));
        v.push(sub(&format!("..{c:?}"), ..c, move |x| x < c as u32));
        v.push(sub(&format!("{c:?}.."), c.., move |x| x >= c as u32));
        v.push(sub(&format!("Mutex not {c:?}"), neu::not(Arc::new(c)), move |x| x != c as u32));
    }
    v
}

fn byte_subs() -> Vec<Sub<u8>> {
    let mut v = ascii_subs!(u8);
    for b in 0..=255u8 {
        v.push(sub(&format!("{b}"), b, move |x| x == b as u32));
        v.push(sub(&format!("equal {b}"), neu::equal(b), move |x| x == b as u32));
        v.push(sub(&format!("..={b}"), ..=b, move |x| x <= b as u32));
        v.push(sub(&format!("..{b}"), ..b, move |x| x < b as u32));
        v.push(sub(&format!("{b}.."), b.., move |x| x >= b as u32));
    }
    v
}

trait Elem: Copy + PartialOrd + PartialEq + Debug + 'static + Sized {
    const TEXT: bool;
    const SAME: &'static Self;
    fn arb(r: &mut Rng) -> Self;
    fn cp(self) -> u32;
    fn of(c: u32) -> Option<Self>;
    fn classes() -> Vec<Sub<Self>>;
    fn probe(u: &U<Self>, c: Self, way: usize) -> Result<bool, String>;
    /// the element as a unit
    fn itself(self) -> U<Self>;
}

fn arb_char(r: &mut Rng) -> char {
    loop {
        let c = match r.below(6) {
            0 => r.below(128) as u32,
            1 => r.below(0x800) as u32,
            2 => r.below(0x10000) as u32,
            3 => r.below(0x110000) as u32,
            4 => *r.pick(&[0u32, 9, 10, 13, 32, 0x2f, 0x30, 0x39, 0x3a, 0x41, 0x5a, 0x5f, 0x61, 0x7a, 0x7e, 0x7f, 0x80, 0xff, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff]),
            _ => 97 + r.below(12) as u32,
        };
        if let Some(c) = char::from_u32(c) {
            return c;
        }
    }
}

/// through matching, with the element as the whole input or at its end
fn through<'a, C: Match<'a> + neure::ctx::Context<'a, Item = T>, T: Copy>(
    ctx: &mut C,
    u: &U<T>,
    beg: usize,
    w: usize,
    way: usize,
) -> Result<bool, String> {
    let f = |x: &T| u.is_match(x);
    struct R<'b, T>(&'b U<T>);
    impl<T> Neu<T> for R<'_, T> {
        fn is_match(&self, o: &T) -> bool {
            self.0.is_match(o)
        }
        fn min_length(&self) -> usize {
            self.0.min_length()
        }
    }
    let _ = f;
    ctx.set_offset(beg);
    let r = match way {
        0 => ctx.try_mat(&R(u).once()),
        1 => ctx.try_mat(&R(u).many1()),
        2 => ctx.try_mat(&R(u).count::<1>()),
        3 => ctx.try_mat(&R(u).times(1..)),
        4 => {
            let s = ctx.try_mat(&R(u).opt()).map_err(|e| format!("opt failed: {e:?}"))?;
            return if s.len == 0 && ctx.offset() == beg {
                Ok(false)
            } else if s.len == w && s.beg == beg && ctx.offset() == beg + w {
                Ok(true)
            } else {
                Err(format!("opt took {s:?}"))
            };
        }
        _ => {
            // negated
            return Ok(ctx.try_mat(&neure::regex::not(neu::not(R(u)).once())).is_ok());
        }
    };
    match r {
        Ok(s) if s.beg == beg && s.len == w && ctx.offset() == beg + w => Ok(true),
        Err(_) if ctx.offset() == beg => Ok(false),
        r => Err(format!("matching the element gave {r:?}, position {}", ctx.offset())),
    }
}

impl Elem for char {
    const TEXT: bool = true;
    const SAME: &'static char = &'a';
    fn arb(r: &mut Rng) -> char {
        arb_char(r)
    }
    fn cp(self) -> u32 {
        self as u32
    }
    fn of(c: u32) -> Option<char> {
        char::from_u32(c)
    }
    fn classes() -> Vec<Sub<char>> {
        let mut v = ascii_subs!(char);
        let ch = |c: u32| char::from_u32(c).unwrap();
        v.push(sub("alphabetic", neu::alphabetic(), move |c| ch(c).is_alphabetic()));
        v.push(sub("whitespace", neu::whitespace(), move |c| ch(c).is_whitespace()));
        v.push(sub("uppercase", neu::uppercase(), move |c| ch(c).is_uppercase()));
        v.push(sub("wild", neu::wild(), |c| c != 10));
        v
    }
    fn itself(self) -> U<char> {
        Box::new(self)
    }
    fn probe(u: &U<char>, c: char, way: usize) -> Result<bool, String> {
        let mut b = [0u8; 8];
        b[0] = b'x';
        let pre = way % 2;
        let w = c.encode_utf8(&mut b[pre..]).len();
        let s = std::str::from_utf8(&b[..pre + w]).unwrap();
        let mut ctx = CharsCtx::new(s);
        through(&mut ctx, u, pre, w, way / 2)
    }
}

impl Elem for u8 {
    const TEXT: bool = false;
    const SAME: &'static u8 = &b'a';
    fn arb(r: &mut Rng) -> u8 {
        if r.flip() { r.below(256) as u8 } else { 97 + r.below(8) as u8 }
    }
    fn cp(self) -> u32 {
        self as u32
    }
    fn of(c: u32) -> Option<u8> {
        u8::try_from(c).ok()
    }
    fn classes() -> Vec<Sub<u8>> {
        ascii_subs!(u8)
    }
    fn itself(self) -> U<u8> {
        Box::new(self)
    }
    fn probe(u: &U<u8>, c: u8, way: usize) -> Result<bool, String> {
        let b = [b'x', c];
        let pre = way % 2;
        let d = &b[1 - pre..];
        let mut ctx = BytesCtx::new(d);
        through(&mut ctx, u, pre, 1, way / 2)
    }
}

/// unit and definition, built side by side
fn arb_unit<T: Elem>(r: &mut Rng, depth: u32, pts: &mut Vec<u32>) -> Sub<T> {
    if depth > 0 && r.chance(3, 5) {
        let a = arb_unit::<T>(r, depth - 1, pts);
        let (an, af) = (a.name, a.f);
        match r.below(6) {
            0 => Sub { name: format!("not({an})"), u: Box::new(NeuOp::not(a.u)), f: Box::new(move |c| !af(c)) },
            1 => Sub { name: format!("not(not({an}))"), u: Box::new(neu::not(neu::not(a.u))), f: Box::new(move |c| af(c)) },
            k => {
                let b = arb_unit::<T>(r, depth - 1, pts);
                let (bn, bf) = (b.name, b.f);
                let (au, bu) = (a.u, b.u);
                // both sides one element: they share their only member
                let (au, an, af, bu, bn, bf): (U<T>, String, Box<dyn Fn(u32) -> bool>, U<T>, String, Box<dyn Fn(u32) -> bool>) = if r.chance(1, 8) {
                    let x = T::arb(r);
                    let cx = x.cp();
                    pts.push(cx);
                    let f = move |c| c == cx;
                    let n = format!("{x:?}");
                    if r.flip() {
                        (x.itself(), n, Box::new(f), bu, bn, bf)
                    } else {
                        (x.itself(), n.clone(), Box::new(f), x.itself(), n, Box::new(f))
                    }
                } else {
                    (au, an, af, bu, bn, bf)
                };
                match k {
                    2 => Sub { name: format!("({an} and {bn})"), u: Box::new(NeuOp::and(au, bu)), f: Box::new(move |c| af(c) && bf(c)) },
                    3 => Sub { name: format!("({an} or {bn})"), u: Box::new(NeuOp::or(au, bu)), f: Box::new(move |c| af(c) || bf(c)) },
                    4 => {
                        let (u, n): (U<T>, _) = match r.below(3) {
                            0 => (Box::new(neu::and(au, bu)), "and()"),
                            1 => (Box::new(Rc::new(neu::and(au, bu))), "Rc and()"),
                            _ => {
                                let nope: U<T> = Box::new(|_: &T| false);
                                let mut x = neu::and(bu, nope);
                                let bu = std::mem::replace(x.left_mut(), au);
                                x.set_right(bu);
                                (Box::new(x), "and() replaced")
                            }
                        };
                        Sub { name: format!("{n}({an},{bn})"), u, f: Box::new(move |c| af(c) && bf(c)) }
                    }
                    _ => {
                        // the complement of an or, through the operator
                        Sub { name: format!("!or({an},{bn})"), u: Box::new(!neu::or(au, bu)), f: Box::new(move |c| !(af(c) || bf(c))) }
                    }
                }
            }
        }
    } else {
        leaf(r, pts)
    }
}

fn leaf<T: Elem>(r: &mut Rng, pts: &mut Vec<u32>) -> Sub<T> {
    let a = T::arb(r);
    let b = T::arb(r);
    let (ca, cb) = (a.cp(), b.cp());
    pts.push(ca);
    pts.push(cb);
    macro_rules! s {
        ($u:expr, $f:expr) => {
            Sub { name: format!("{} a={a:?} b={b:?}", stringify!($u)), u: Box::new($u), f: Box::new($f) }
        };
    }
    // references live as long as the process
    let k = r.below(40);
    let (ra, rb): (&'static T, &'static T) = if (21..=26).contains(&k) {
        (Box::leak(Box::new(a)), Box::leak(Box::new(b)))
    } else {
        (T::SAME, T::SAME)
    };
    match k {
        0 => s!(a..b, move |c| ca <= c && c < cb),
        1 => s!(a..=b, move |c| ca <= c && c <= cb),
        2 => s!(a.., move |c| ca <= c),
        3 => s!(..b, move |c| c < cb),
        4 => s!(..=b, move |c| c <= cb),
        5 => s!(CRange::from(a..b), move |c| ca <= c && c < cb),
        6 => s!(CRange::from(a..=b), move |c| ca <= c && c <= cb),
        7 => s!(CRange::from(a..), move |c| ca <= c),
        8 => s!(CRange::from(..b), move |c| c < cb),
        9 => s!(CRange::from(..=b), move |c| c <= cb),
        10 => s!(CRange::<T>::from(..), move |_| true),
        11 => s!((Bound::Excluded(a), Bound::Included(b)), move |c| ca < c && c <= cb),
        12 => s!((Bound::Excluded(a), Bound::Excluded(b)), move |c| ca < c && c < cb),
        13 => s!((Bound::Included(a), Bound::Excluded(b)), move |c| ca <= c && c < cb),
        14 => s!((Bound::Excluded(a), Bound::Unbounded), move |c| ca < c),
        15 => s!((Bound::Unbounded::<T>, Bound::Included(b)), move |c| c <= cb),
        16 => s!(CRange::new(Bound::Excluded(a), Bound::Excluded(b)), move |c| ca < c && c < cb),
        17 => s!(!CRange::from(a..=b), move |c| !(ca <= c && c <= cb)),
        18 => s!(neu::range(a..=b), move |c| ca <= c && c <= cb),
        19 => s!(neu::range(a..b), move |c| ca <= c && c < cb),
        20 => s!(CRange::<T>::clone_from(a..), move |c| ca <= c),
        21 => s!(ra..rb, move |c| ca <= c && c < cb),
        22 => s!(ra..=rb, move |c| ca <= c && c <= cb),
        23 => s!(ra.., move |c| ca <= c),
        24 => s!(..rb, move |c| c < cb),
        25 => s!(..=rb, move |c| c <= cb),
        26 => s!((Bound::Excluded(ra), Bound::Included(rb)), move |c| ca < c && c <= cb),
        27 => s!(neu::equal(a), move |c| c == ca),
        28 => s!(!neu::equal(a), move |c| c != ca),
        29 => s!([a, b], move |c| c == ca || c == cb),
        30 => {
            let n = r.below(6);
            let v: Vec<T> = (0..n).map(|_| T::arb(r)).collect();
            let w: Vec<u32> = v.iter().map(|x| x.cp()).collect();
            pts.extend(&w);
            Sub { name: format!("Vec {v:?}"), u: Box::new(v), f: Box::new(move |c| w.contains(&c)) }
        }
        31 => {
            let n = r.below(6);
            let v: Vec<T> = (0..n).map(|_| T::arb(r)).collect();
            let w: Vec<u32> = v.iter().map(|x| x.cp()).collect();
            pts.extend(&w);
            let s: &'static [T] = Box::leak(v.into_boxed_slice());
            Sub { name: format!("slice {s:?}"), u: Box::new(s), f: Box::new(move |c| w.contains(&c)) }
        }
        32 => {
            let (x, y) = (T::arb(r), T::arb(r));
            let w = [ca, x.cp(), cb, y.cp(), ca];
            pts.extend(&w);
            Sub { name: format!("array {a:?} {x:?} {b:?} {y:?} {a:?}"), u: Box::new([a, x, b, y, a]), f: Box::new(move |c| w.contains(&c)) }
        }
        33 => s!(CRange::from(core::range::Range::from(a..b)), move |c| ca <= c && c < cb),
        34 => s!(CRange::from(core::range::RangeInclusive::from(a..=b)), move |c| ca <= c && c <= cb),
        35 => s!(CRange::from(core::range::RangeFrom::from(a..)), move |c| ca <= c),
        36 => s!(CRange::from(core::range::RangeToInclusive { last: b }), move |c| c <= cb),
        37 => s!(CRange::<T>::clone_from((Bound::Excluded(a), Bound::Included(b))).clone(), move |c| ca < c && c <= cb),
        38 => s!(CRange::<T>::default(), move |_| true),
        _ => {
            let mut v = T::classes();
            let k = r.below(v.len());
            v.swap_remove(k)
        }
    }
}

fn check<T: Elem>(s: &Sub<T>, c: T, way: usize) -> Result<bool, String> {
    let want = (s.f)(c.cp());
    let got = s.u.is_match(&c);
    if got != want {
        return Err(format!("{} says {got} for {c:?} (U+{:04X}), its definition says {want}", s.name, c.cp()));
    }
    if s.u.is_match(&c) != want {
        return Err(format!("{} changes its answer for {c:?}", s.name));
    }
    let t = T::probe(&s.u, c, way).map_err(|e| format!("{} on {c:?}: {e}", s.name))?;
    if t != want {
        return Err(format!(
            "matching {} against {c:?} (U+{:04X}) in way {way} gives {t}, its definition says {want} (minimum length {})",
            s.name,
            c.cp(),
            s.u.min_length()
        ));
    }
    Ok(want)
}

fn sweep<T: Elem>(s: &Sub<T>, o: &mut Obs, base: usize) -> Result<(), String> {
    let max = if T::TEXT { 0x110000 } else { 256 };
    let (mut n, mut yes) = (0u64, 0u64);
    for c in 0..max {
        if let Some(x) = T::of(c) {
            n += 1;
            yes += check(s, x, (base + c as usize) % 12)? as u64;
        }
    }
    o.events += n;
    o.add(if T::TEXT { "characters classified in complete sweeps" } else { "bytes classified in complete sweeps" }, n);
    o.add("members seen", yes);
    Ok(())
}

thread_local! {
    static CH: Vec<Sub<char>> = char_subs();
    static BY: Vec<Sub<u8>> = byte_subs();
}

fn case(r: &mut Rng, o: &mut Obs, nc: usize, nb: usize) -> Result<(), String> {
    let i = o.index as usize;
    // every named class, every element, in the first cases
    if i < nc {
        return CH.with(|v| {
            o.note(|| format!("complete sweep of {}", v[i].name));
            o.nontrivial(&("c", &v[i].name));
            o.count("complete sweeps of named text units");
            guarded(|| sweep(&v[i], o, i))?
        });
    }
    if i < nc + nb {
        return BY.with(|v| {
            let s = &v[i - nc];
            o.note(|| format!("complete sweep of {}", s.name));
            o.nontrivial(&("b", &s.name));
            o.count("complete sweeps of named byte units");
            guarded(|| sweep(s, o, i))?
        });
    }
    if r.flip() {
        return byte_case(r, o);
    }
    let mut pts = vec![];
    let depth = r.below(4) as u32;
    let s = arb_unit::<char>(r, depth, &mut pts);
    o.note(|| format!("text unit {}", s.name));
    o.nontrivial(&("rc", &s.name));
    if r.chance(1, if o.thorough { 200 } else { 1500 }) {
        o.count("complete sweeps of random text units");
        return guarded(|| sweep(&s, o, i))?;
    }
    // neighbourhood of every bound, and samples
    let mut cs: Vec<u32> = vec![];
    for p in &pts {
        for d in -2i64..=2 {
            cs.push((*p as i64 + d).max(0) as u32);
        }
    }
    for _ in 0..24 {
        cs.push(arb_char(r) as u32);
    }
    let mut n = 0;
    for (k, c) in cs.iter().enumerate() {
        if let Some(c) = char::from_u32(*c) {
            guarded(|| check(&s, c, (k + i) % 12))??;
            n += 1;
        }
    }
    o.events += n;
    Ok(())
}

fn byte_case(r: &mut Rng, o: &mut Obs) -> Result<(), String> {
    let mut pts = vec![];
    let depth = r.below(4) as u32;
    let s = arb_unit::<u8>(r, depth, &mut pts);
    o.note(|| format!("byte unit {}", s.name));
    o.nontrivial(&("rb", &s.name));
    let i = o.index as usize;
    o.count("complete sweeps of random byte units");
    guarded(|| sweep(&s, o, i))?
}

fn main() {
    let nc = char_subs().len();
    let nb = byte_subs().len();
    run(
        Plan {
            quick: 250_000,
            thorough: 4_000_000,
            quick_secs: 20,
            assumptions: &["the standard library's char::is_* tables define the Unicode classes"],
            ..Plan::new(
                "C07",
                "first every named class and single-element unit over the complete character (1112064) or byte (256) space; then random ranges, sets and boolean combinations: all bytes, or all characters for a share of them and the neighbourhood of every bound otherwise; distinct by the unit",
            )
        },
        move |r, o| case(r, o, nc, nb),
    )
}
