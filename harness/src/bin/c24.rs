//! C24: pattern macros mean what the equivalent combinators mean.
//! Every macro form times every quantifier, as compiled instances, against a
//! reference class and spelled-out repetition; the escaped-string macro
//! against an independent scanner, over all short strings of its alphabet.
use neure::prelude::*;
use neure::{escape_strval, neu, regex};
use nverif::ast::Cls;
use nverif::drv::{guarded, run, Obs, Plan};
use nverif::generate::gen_huge;
use nverif::rng::Rng;
use std::sync::LazyLock;

type RunT = Box<dyn Fn(&str, usize, bool) -> (Option<(usize, usize)>, usize) + Send + Sync>;
type RunB = Box<dyn Fn(&[u8], usize, bool) -> (Option<(usize, usize)>, usize) + Send + Sync>;

struct Pat<R> {
    name: &'static str,
    cls: Cls,
    lo: usize,
    hi: usize,
    run: R,
    /// the same, spelled with a unit and a repetition
    spelled: R,
}

struct Unit {
    name: &'static str,
    cls: Cls,
    has: Box<dyn Fn(char) -> bool + Send + Sync>,
}
struct UnitB {
    name: &'static str,
    cls: Cls,
    has: Box<dyn Fn(u8) -> bool + Send + Sync>,
}

fn spell_t(c: &Cls) -> Box<dyn neure::neu::Neu<char>> {
    <char as nverif::ctxs::HItem>::unit(c)
}
fn spell_b(c: &Cls) -> Box<dyn neure::neu::Neu<u8>> {
    <u8 as nverif::ctxs::HItem>::unit(c)
}

/// runs a pattern, or constructs with it
macro_rules! run_it {
    ($ctx:ident, $s:ty, $p:expr) => {
        Box::new(move |s: $s, at: usize, ctor: bool| {
            let mut ctx = $ctx::new(s);
            ctx.set_offset(at);
            let p = $p;
            let r = if ctor {
                ctx.ctor_span::<_, Span>(&p).ok().map(|s| (s.beg, s.beg + s.len))
            } else {
                ctx.try_mat(&p).ok().map(|s| (s.beg, s.beg + s.len))
            };
            (r, ctx.offset())
        })
    };
}

macro_rules! forms {
    ($v:ident, $ctx:ident, $s:ty, $spell:ident, $c:expr, [$($t:tt)*]) => {{
        let c: Cls = $c;
        macro_rules! one {
            ($lo:expr, $hi:expr, $rep:expr, $name:expr, $p:expr) => {{
                let k = c.clone();
                $v.push(Pat {
                    name: $name,
                    cls: c.clone(),
                    lo: $lo,
                    hi: $hi,
                    run: run_it!($ctx, $s, $p),
                    spelled: run_it!($ctx, $s, $rep($spell(&k))),
                });
            }};
        }
        const MAX: usize = usize::MAX;
        one!(1, 1, |u| NeuIntoRegexOps::<$ctx>::once(u), concat!("regex!(", stringify!($($t)*), ")"), regex!($($t)*));
        one!(0, 1, |u| NeuIntoRegexOps::<$ctx>::opt(u), concat!("regex!(", stringify!($($t)*), "?)"), regex!($($t)* ?));
        one!(0, MAX, |u| NeuIntoRegexOps::<$ctx>::many0(u), concat!("regex!(", stringify!($($t)*), "*)"), regex!($($t)* *));
        one!(1, MAX, |u| NeuIntoRegexOps::<$ctx>::many1(u), concat!("regex!(", stringify!($($t)*), "+)"), regex!($($t)* +));
        one!(2, 2, |u| NeuIntoRegexOps::<$ctx>::count::<2>(u), concat!("regex!(", stringify!($($t)*), "{2})"), regex!($($t)* {2}));
        one!(0, 0, |u| NeuIntoRegexOps::<$ctx>::between::<0, 0>(u), concat!("regex!(", stringify!($($t)*), "{0})"), regex!($($t)* {0}));
        one!(1, 1, |u| NeuIntoRegexOps::<$ctx>::times(u, 1..=1), concat!("regex!(", stringify!($($t)*), "{1})"), regex!($($t)* {1}));
        one!(2, MAX, |u| NeuIntoRegexOps::<$ctx>::times(u, 2..), concat!("regex!(", stringify!($($t)*), "{2,})"), regex!($($t)* {2,}));
        one!(0, MAX, |u| NeuIntoRegexOps::<$ctx>::at_least::<0>(u), concat!("regex!(", stringify!($($t)*), "{0,})"), regex!($($t)* {0,}));
        one!(1, 3, |u| NeuIntoRegexOps::<$ctx>::times(u, 1..4), concat!("regex!(", stringify!($($t)*), "{1,3})"), regex!($($t)* {1,3}));
        one!(3, 5, |u| NeuIntoRegexOps::<$ctx>::between::<3, 5>(u), concat!("regex!(", stringify!($($t)*), "{3,5})"), regex!($($t)* {3,5}));
        one!(0, 2, |u| NeuIntoRegexOps::<$ctx>::at_most::<2>(u), concat!("regex!(", stringify!($($t)*), "{0,2})"), regex!($($t)* {0,2}));
        one!(2, 2, |u| NeuIntoRegexOps::<$ctx>::times(u, 2), concat!("regex!(", stringify!($($t)*), "{2,2})"), regex!($($t)* {2,2}));
    }};
}

fn set(s: &str) -> Cls {
    Cls::Set(s.chars().collect(), 3)
}
fn rg(a: char, b: char) -> Cls {
    Cls::Range(a, b, 0)
}
fn or(a: Cls, b: Cls) -> Cls {
    Cls::Or(Box::new(a), Box::new(b))
}
fn not(a: Cls) -> Cls {
    Cls::Not(Box::new(a))
}

macro_rules! text_classes {
    ($do:ident) => {
        $do!(Cls::Ws, []);
        $do!(Cls::Wild, [.]);
        $do!(not(Cls::Ws), [^]);
        $do!(Cls::One('a'), [a]);
        $do!(Cls::One('Z'), [Z]);
        $do!(Cls::One('_'), ['_']);
        $do!(Cls::One('a'), ['a']);
        $do!(Cls::One('\n'), ['\n']);
        $do!(Cls::One('你'), ['你']);
        $do!(Cls::One('é'), [é]);
        $do!(rg('a', 'z'), [[a - z]]);
        $do!(rg('b', 'b'), [[b - b]]);
        $do!(not(rg('a', 'z')), [[^a - z]]);
        $do!(rg('0', '9'), [['0' - '9']]);
        $do!(rg('\u{0}', '\u{7f}'), [['\u{0}' - '\u{7f}']]);
        $do!(rg('ß', '你'), [['ß' - '你']]);
        $do!(not(rg('0', '9')), [[^ '0' - '9']]);
        $do!(not(rg('\u{d7ff}', '\u{e000}')), [[^ '\u{d7ff}' - '\u{e000}']]);
        $do!(or(rg('a', 'f'), rg('A', 'F')), [[a - f A - F]]);
        $do!(not(or(rg('a', 'f'), rg('A', 'F'))), [[^ a - f A - F]]);
        $do!(or(or(rg('0', '3'), rg('c', 'e')), rg('你', '好')), [['0' - '3' 'c' - 'e' '你' - '好']]);
        $do!(or(or(rg('0', '5'), rg('3', '9')), rg('x', 'x')), [['0' - '5' '3' - '9' 'x' - 'x']]);
        $do!(not(or(rg('0', '3'), rg('c', 'e'))), [[^ '0' - '3' 'c' - 'e']]);
        $do!(or(or(rg('a', 'c'), rg('e', 'g')), rg('x', 'z')), [[a - c e - g x - z]]);
        $do!(not(or(or(rg('a', 'c'), rg('e', 'g')), rg('x', 'z'))), [[^ a - c e - g x - z]]);
        $do!(set("abc"), [[a b c]]);
        $do!(set("a"), [[a]]);
        $do!(not(set("abc")), [[^ a b c]]);
        $do!(not(set("a")), [[^ a]]);
        $do!(set("\"\\\n"), [['"' '\\' '\n']]);
        $do!(set("😀"), [['😀']]);
        $do!(not(set("\"\\")), [[^ '"' '\\']]);
        $do!(not(set(",")), [[^ ',']]);
        $do!(or(rg('a', 'c'), Cls::One('😀')), [('a'..='c', '😀')]);
        $do!(or(or(Cls::AsciiDigit, Cls::One('_')), Cls::Alpha), [(neu::ascii_digit(), '_', neu::alphabetic())]);
        $do!(Cls::One('x'), [('x')]);
        $do!(or(rg('a', 'c'), set("xyz")), [(['x', 'y', 'z'], neu!([a - c]))]);
        $do!(or(not(Cls::Ws), Cls::One('\n')), [(neu!(^), '\n')]);
    };
}
macro_rules! byte_classes {
    ($do:ident) => {
        $do!(Cls::One('a'), [b'a']);
        $do!(Cls::One('\u{ff}'), [b'\xff']);
        $do!(rg('a', 'z'), [[b'a' - b'z']]);
        $do!(rg('\u{0}', '\u{ff}'), [[b'\x00' - b'\xff']]);
        $do!(not(rg('0', '9')), [[^ b'0' - b'9']]);
        $do!(or(rg('0', '9'), rg('a', 'f')), [[b'0' - b'9' b'a' - b'f']]);
        $do!(not(or(rg('0', '9'), rg('\u{80}', '\u{ff}'))), [[^ b'0' - b'9' 128u8 - 255u8]]);
        $do!(set("\"\\"), [[b'"' b'\\']]);
        $do!(not(set("\"\\\u{0}")), [[^ b'"' b'\\' b'\0']]);
        $do!(or(rg('a', 'c'), Cls::One('\u{80}')), [(b'a'..=b'c', 128u8)]);
        $do!(or(Cls::AsciiDigit, Cls::One('_')), [(neu::ascii_digit::<u8>(), b'_')]);
    };
}

static PT: LazyLock<Vec<Pat<RunT>>> = LazyLock::new(|| {
    let mut v: Vec<Pat<RunT>> = vec![];
    macro_rules! f {
        ($c:expr, [$($t:tt)*]) => { forms!(v, CharsCtx, &str, spell_t, $c, [$($t)*]) };
    }
    text_classes!(f);
    v
});
static PB: LazyLock<Vec<Pat<RunB>>> = LazyLock::new(|| {
    let mut v: Vec<Pat<RunB>> = vec![];
    macro_rules! f {
        ($c:expr, [$($t:tt)*]) => { forms!(v, BytesCtx, &[u8], spell_b, $c, [$($t)*]) };
    }
    byte_classes!(f);
    v
});
static UT: LazyLock<Vec<Unit>> = LazyLock::new(|| {
    let mut v = vec![];
    macro_rules! f {
        ($c:expr, [$($t:tt)*]) => {
            v.push(Unit { name: concat!("neu!(", stringify!($($t)*), ")"), cls: $c, has: Box::new(|c| {
                let u = neu!($($t)*);
                u.is_match(&c)
            })})
        };
    }
    text_classes!(f);
    v
});
static UB: LazyLock<Vec<UnitB>> = LazyLock::new(|| {
    let mut v = vec![];
    macro_rules! f {
        ($c:expr, [$($t:tt)*]) => {
            v.push(UnitB { name: concat!("neu!(", stringify!($($t)*), ")"), cls: $c, has: Box::new(|c| {
                let u = neu!($($t)*);
                u.is_match(&c)
            })})
        };
    }
    byte_classes!(f);
    v
});

/// elements at the edges of a class
fn edges(c: &Cls, out: &mut Vec<u32>) {
    let near = |x: u32, out: &mut Vec<u32>| {
        for d in 0..3 {
            out.push(x.saturating_sub(d));
            out.push(x + d);
        }
    };
    match c {
        Cls::One(x) => near(*x as u32, out),
        Cls::Range(a, b, _) => {
            near(*a as u32, out);
            near(*b as u32, out);
        }
        Cls::Set(v, _) => v.iter().for_each(|x| near(*x as u32, out)),
        Cls::Not(a) => edges(a, out),
        Cls::And(a, b) | Cls::Or(a, b) => {
            edges(a, out);
            edges(b, out);
        }
        _ => {}
    }
    out.extend([' ', '\n', '\t', '\r', '\u{a0}', '\u{2003}', '\u{85}', 'x', '0', 'é', '你', '😀'].map(|c| c as u32));
}

fn decode(b: &[u8], p: usize, text: bool) -> Option<(u32, usize)> {
    nverif::model::decode(b, p, text)
}

fn judge(name: &str, cls: &Cls, lo: usize, hi: usize, inp: &[u8], text: bool, at: usize, got: (Option<(usize, usize)>, usize)) -> Result<bool, String> {
    let (mut n, mut p) = (0, at);
    while n < hi {
        match decode(inp, p, text) {
            Some((c, w)) if cls.has(c) => {
                n += 1;
                p += w;
            }
            _ => break,
        }
    }
    let want = if n < lo { None } else { Some((at, p)) };
    let stop = want.map_or(at, |w| w.1);
    if got.0 != want || got.1 != stop {
        return Err(format!(
            "{name} at {at} of {}: takes {:?} and stands at {}, expected {want:?} and {stop}",
            nverif::case::show_input(inp, text),
            got.0,
            got.1
        ));
    }
    Ok(n > 0)
}

fn gen_elems(r: &mut Rng, cls: &Cls, text: bool) -> Vec<u32> {
    let mut e = vec![];
    edges(cls, &mut e);
    e.retain(|c| if text { char::from_u32(*c).is_some() } else { *c < 256 });
    let ins: Vec<u32> = e.iter().copied().filter(|c| cls.has(*c)).collect();
    if let Some(n) = gen_huge(r, 5000, usize::MAX).filter(|_| !ins.is_empty()) {
        // beyond any counter two bytes wide
        let (a, b) = (*r.pick(&ins), *r.pick(&ins));
        let mut v: Vec<u32> = (0..n).map(|i| if i % 7 == 0 { a } else { b }).collect();
        v.push(*r.pick(&e));
        return v;
    }
    let n = r.below(9);
    // now and then a run longer than any width a counter might have
    if r.chance(1, 60) && !ins.is_empty() {
        let n = *r.pick(&[20, 100, 254, 255, 256, 257, 300, 700]);
        let mut v: Vec<u32> = (0..n).map(|_| *r.pick(&ins)).collect();
        v.push(*r.pick(&e));
        return v;
    }
    (0..n)
        .map(|_| if !ins.is_empty() && r.chance(3, 4) { *r.pick(&ins) } else { *r.pick(&e) })
        .collect()
}

fn bytes(e: &[u32], text: bool) -> Vec<u8> {
    if text {
        e.iter().map(|c| char::from_u32(*c).expect("harness: char")).collect::<String>().into_bytes()
    } else {
        e.iter().map(|c| *c as u8).collect()
    }
}

// ------------------------------------------------------------ escaped strings

struct Esc<R> {
    name: &'static str,
    quote: u32,
    prefix: u32,
    escape: Cls,
    alpha: Vec<u32>,
    bare: R,
    /// between quotes
    quoted: R,
}

macro_rules! esc {
    ($v:ident, $ctx:ident, $s:ty, $q:literal, $p:literal, $e:expr, $c:expr, $qs:expr, $alpha:expr) => {
        $v.push(Esc {
            name: concat!("escape_strval!(", stringify!($q), ", ", stringify!($p), ", ", stringify!($e), ")"),
            quote: $q as u32,
            prefix: $p as u32,
            escape: $c,
            alpha: $alpha,
            bare: run_it!($ctx, $s, escape_strval!($q, $p, $e)),
            quoted: run_it!($ctx, $s, {
                let p = escape_strval!($q, $p, $e);
                p.enclose($qs, $qs).pat()
            }),
        })
    };
}

fn al(s: &str) -> Vec<u32> {
    s.chars().map(|c| c as u32).collect()
}

static ET: LazyLock<Vec<Esc<RunT>>> = LazyLock::new(|| {
    let mut v: Vec<Esc<RunT>> = vec![];
    esc!(v, CharsCtx, &str, '"', '\\', ['\\', '"'], set("\\\""), "\"", al("\"\\a"));
    esc!(v, CharsCtx, &str, '"', '\\', ['\\', '"', 'n'], set("\\\"n"), "\"", al("\"\\nx"));
    esc!(v, CharsCtx, &str, '\'', '\\', '\'', set("'"), "'", al("'\\aé"));
    esc!(v, CharsCtx, &str, '"', '%', neu::always(), Cls::Always, "\"", al("\"%a你"));
    esc!(v, CharsCtx, &str, '\'', '\'', '\'', set("'"), "'", al("'a"));
    esc!(v, CharsCtx, &str, '"', '\\', neu::ascii_digit(), Cls::AsciiDigit, "\"", al("\"\\1a"));
    esc!(v, CharsCtx, &str, '」', '※', ['※', '」'], set("※」"), "」", al("」※a"));
    v
});
static EB: LazyLock<Vec<Esc<RunB>>> = LazyLock::new(|| {
    let mut v: Vec<Esc<RunB>> = vec![];
    esc!(v, BytesCtx, &[u8], b'"', b'\\', [b'\\', b'"'], set("\\\""), b"\"", al("\"\\a"));
    esc!(v, BytesCtx, &[u8], b'"', b'\\', [b'\\', b'"', b'\t'], set("\\\"\t"), b"\"", al("\"\\\tx"));
    esc!(v, BytesCtx, &[u8], b'\'', b'\'', b'\'', set("'"), b"'", al("'a\u{ff}"));
    esc!(v, BytesCtx, &[u8], b'"', b'\\', neu::always::<u8>(), Cls::Always, b"\"", al("\"\\ab"));
    v
});

/// where an escaped string starting at `p` ends
fn scan<R>(e: &Esc<R>, inp: &[u8], mut p: usize, text: bool) -> usize {
    loop {
        let Some((c, w)) = decode(inp, p, text) else { return p };
        if c == e.prefix {
            if let Some((d, w2)) = decode(inp, p + w, text) {
                if e.escape.has(d) {
                    p += w + w2;
                    continue;
                }
            }
        }
        if c == e.quote {
            return p;
        }
        p += w;
    }
}

fn escapes<R>(e: &Esc<R>, inp: &[u8], text: bool, at: usize, run: &dyn Fn(&R, bool) -> (Option<(usize, usize)>, usize)) -> Result<bool, String> {
    let show = || nverif::case::show_input(inp, text);
    let end = scan(e, inp, at, text);
    for ctor in [false, true] {
        let got = guarded(|| run(&e.bare, ctor))?;
        if got != (Some((at, end)), end) {
            return Err(format!("{} at {at} of {}: takes {:?} and stands at {}, expected {at}..{end}", e.name, show(), got.0, got.1));
        }
        // between quotes
        let want = match decode(inp, at, text) {
            Some((c, w)) if c == e.quote => {
                let end = scan(e, inp, at + w, text);
                match decode(inp, end, text) {
                    Some((c, w)) if c == e.quote => Some((at, end + w)),
                    _ => None,
                }
            }
            _ => None,
        };
        let got = guarded(|| run(&e.quoted, ctor))?;
        let stop = want.map_or(at, |w| w.1);
        if got != (want, stop) {
            return Err(format!("quoted {} at {at} of {}: takes {:?} and stands at {}, expected {want:?}", e.name, show(), got.0, got.1));
        }
    }
    Ok(end > at)
}

fn nth(alpha: &[u32], mut n: u64) -> Vec<u32> {
    // all strings in order of length
    let k = alpha.len() as u64;
    let mut len = 0;
    let mut size = 1;
    while n >= size {
        n -= size;
        len += 1;
        size *= k;
    }
    (0..len).map(|_| { let d = n % k; n /= k; alpha[d as usize] }).collect()
}

fn case(r: &mut Rng, o: &mut Obs) -> Result<(), String> {
    match r.below(10) {
        0..=3 => {
            let p = r.pick(&PT[..]);
            let (pre, e) = (gen_elems(r, &p.cls, true), gen_elems(r, &p.cls, true));
            let mut inp = bytes(&pre[..pre.len().min(2)], true);
            let at = inp.len();
            inp.extend(bytes(&e, true));
            let s = std::str::from_utf8(&inp).expect("harness: text");
            let ctor = r.chance(1, 2);
            o.note(|| format!("{} on {s:?} at {at}", p.name));
            let got = guarded(|| (p.run)(s, at, ctor))?;
            let nt = judge(p.name, &p.cls, p.lo, p.hi, &inp, true, at, got)?;
            let other = guarded(|| (p.spelled)(s, at, ctor))?;
            if got != other {
                return Err(format!("{} at {at} of {s:?}: {got:?}, spelled out {other:?}", p.name));
            }
            o.events += 2;
            if nt {
                o.nontrivial(&(p.name, s, at));
            }
        }
        4 | 5 => {
            let p = r.pick(&PB[..]);
            let (pre, e) = (gen_elems(r, &p.cls, false), gen_elems(r, &p.cls, false));
            let mut inp = bytes(&pre[..pre.len().min(2)], false);
            let at = inp.len();
            inp.extend(bytes(&e, false));
            let ctor = r.chance(1, 2);
            o.note(|| format!("{} on {inp:?} at {at}", p.name));
            let got = guarded(|| (p.run)(&inp, at, ctor))?;
            let nt = judge(p.name, &p.cls, p.lo, p.hi, &inp, false, at, got)?;
            let other = guarded(|| (p.spelled)(&inp, at, ctor))?;
            if got != other {
                return Err(format!("{} at {at} of {inp:?}: {got:?}, spelled out {other:?}", p.name));
            }
            o.events += 2;
            if nt {
                o.nontrivial(&(p.name, &inp, at));
            }
        }
        6 => {
            // a window of the element space
            if r.chance(1, 8) {
                let u = r.pick(&UB[..]);
                for c in 0..=255u8 {
                    let got = guarded(|| (u.has)(c))?;
                    if got != u.cls.has(c as u32) {
                        return Err(format!("{}: {c} is {}", u.name, if got { "accepted" } else { "refused" }));
                    }
                }
                o.events += 256;
            } else {
                let i = r.below(UT.len());
                let u = &UT[i];
                let base = if r.chance(1, 2) {
                    let mut e = vec![];
                    edges(&u.cls, &mut e);
                    r.pick(&e).saturating_sub(64)
                } else {
                    r.below(0x110000 - 128) as u32
                };
                for c in (base..base + 128).filter_map(char::from_u32) {
                    let got = guarded(|| (u.has)(c))?;
                    if got != u.cls.has(c as u32) {
                        return Err(format!("{}: {c:?} is {}", u.name, if got { "accepted" } else { "refused" }));
                    }
                }
                o.events += 128;
                o.count("windows_of_code_points");
                o.nontrivial(&(i, base));
            }
        }
        n => {
            let text = n < 9;
            // every short string of the alphabet comes up
            let pick = |r: &mut Rng, alpha: &[u32]| {
                let e = if r.chance(1, 60) {
                    (0..r.range(200, 700)).map(|_| *r.pick(alpha)).collect()
                } else if r.chance(2, 3) { nth(alpha, r.below(30_000) as u64) } else { (0..r.range(6, 14)).map(|_| *r.pick(alpha)).collect() };
                bytes(&e, text)
            };
            let (nt, key) = if text {
                let e = r.pick(&ET[..]);
                let inp = pick(r, &e.alpha);
                let s = std::str::from_utf8(&inp).expect("harness: text");
                let at = if r.chance(1, 4) { decode(&inp, 0, true).map_or(0, |x| x.1) } else { 0 };
                o.note(|| format!("{} on {s:?} at {at}", e.name));
                (escapes(e, &inp, true, at, &|f, c| f(s, at, c))?, (e.name, inp.clone(), at))
            } else {
                let e = r.pick(&EB[..]);
                let inp = pick(r, &e.alpha);
                let at = if r.chance(1, 4) { inp.len().min(1) } else { 0 };
                o.note(|| format!("{} on {inp:?} at {at}", e.name));
                (escapes(e, &inp, false, at, &|f, c| f(&inp, at, c))?, (e.name, inp.clone(), at))
            };
            o.events += 4;
            o.count("escaped_strings");
            if nt {
                o.nontrivial(&key);
            }
        }
    }
    Ok(())
}

fn main() {
    run(
        Plan {
            quick: 6_000_000,
            ..Plan::new("C24", "a compiled macro instance (49 class forms times 13 quantifiers, 11 escaped-string forms, unit forms over the element space) on strings at the edges of its class; non-trivial when it took something")
        },
        case,
    )
}
