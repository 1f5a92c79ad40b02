//! C15: value mappers compute what they name, or reject.
use neure::ctor::DynamicCtorThenBuilderHelper;
use neure::ctor::CtorOps;
use neure::ctx::{BytesCtx, CharsCtx, MatchExt};
use neure::err::Error;
use neure::map::{self, FallibleMap, WithDefaultHelper};
use neure::regex;
use neure::span::Span;
use nverif::drv::{run, Obs, Plan};
use nverif::generate::{gen_huge, COUNTS};
use nverif::rng::Rng;
use std::borrow::Cow;
use std::fmt::Debug;

type R = Result<(), String>;

/// values that compare bit for bit
trait Bits: Debug {
    fn bits(&self) -> u128;
}
macro_rules! bits {
    ($($t:ty),*) => {$(impl Bits for $t { fn bits(&self) -> u128 { *self as u128 } })*};
}
bits!(u8, i8, u16, i16, u32, i32, u64, i64, usize, isize, u128, i128, char, bool);
impl Bits for f32 {
    fn bits(&self) -> u128 {
        self.to_bits() as u128
    }
}
impl Bits for f64 {
    fn bits(&self) -> u128 {
        self.to_bits() as u128
    }
}

fn same<T: Bits>(a: &Result<T, Error>, b: &Result<T, Error>) -> bool {
    match (a, b) {
        (Ok(x), Ok(y)) => x.bits() == y.bits(),
        (Err(x), Err(y)) => x == y,
        _ => false,
    }
}

fn judge<T: Bits>(what: &str, inp: &dyn Debug, got: Result<T, Error>, want: Result<T, Error>, o: &mut Obs) -> R {
    o.events += 1;
    o.count(if want.is_ok() { "accepted" } else { "rejected" });
    if same(&got, &want) { Ok(()) } else { Err(format!("{what} of {inp:?} gives {got:?}, expected {want:?}")) }
}

// ------------------------------------------------------------------- numbers

fn digits(r: &mut Rng) -> String {
    let n = r.below(5);
    match r.below(14) {
        0 => String::new(),
        1 => r.pick(&["-", "+", "--1", "+-1", "-0", "+0", " 1", "1 ", "1_0", "0x1f", "٣", "1e3", ".5", "5.", "1.5e-3", "inf", "-inf", "NaN", "nan", "infinity", "1e400", "-1e-400", "true", "false", "True", "é", "\t1", "1\n", "\u{a0}1", "\u{feff}1", "1\0", "１", "1,000", "1 000", "0b1", "0o7", "1f32", "1u8", "00", "-00", "+-", "1_", "_1", "−1", "1.", "1e", "e1", "1e+5", "1E5", "+inf", "-nan", "+.5", ".", "TRUE", " true"]).to_string(),
        2 => {
            // around the limits of the integer types
            let b = *r.pick(&[7u32, 8, 15, 16, 31, 32, 63, 64]);
            let v = (1i128 << b) + r.range(0, 4) as i128 - 2;
            if r.flip() { format!("{v}") } else { format!("-{v}") }
        }
        3 => format!("{}", r.next()),
        4 => format!("-{}", r.next() >> 1),
        5 => format!("{:?}", f64::from_bits(r.next())),
        6 => format!("{}", f32::from_bits(r.next() as u32)),
        7 => format!("{:x}", r.next() >> r.below(64)),
        8 => format!("{:b}", r.next() as u8),
        9 => format!("{:0>width$}", r.below(300), width = if r.chance(1, 20) { *r.pick(COUNTS) } else { r.range(1, 25) }),
        10 => {
            let c = *r.pick(&['é', 'a', 'Z', '\u{10ffff}', '\0', '"']);
            c.to_string()
        }
        _ => (0..n).map(|_| *r.pick(&['0', '1', '7', '9', 'a', 'F', 'z', '-', '+'])).collect(),
    }
}

fn numbers(r: &mut Rng, o: &mut Obs) -> R {
    let s = digits(r);
    o.note(|| format!("text {s:?}"));
    let radix = r.range(2, 36) as u32;
    let all = regex::consume_all();
    macro_rules! strs {
        ($($t:ty),*) => {$({
            let want = s.parse::<$t>().map_err(|_| Error::FromStr);
            let m = map::from_str::<$t>();
            let got: Result<$t, Error> = m.try_map(s.as_str());
            judge(concat!("from_str::<", stringify!($t), ">"), &s, got, want.clone(), o)?;
            let got: Result<$t, Error> = m.try_map(s.clone());
            judge("from_str of an owned string", &s, got, want.clone(), o)?;
            let got = CharsCtx::new(&s).map(&all, m);
            judge("a mapped match", &s, got, want.clone(), o)?;
            let got: Result<$t, Error> = CharsCtx::new(&s).ctor(&CtorOps::try_map(all, m));
            judge("try_map(from_str)", &s, got, want.clone(), o)?;
            let d: Result<$t, Error> = CharsCtx::new(&s).map(&all, map::with_default(<$t>::default, m));
            judge("with_default", &s, d, Ok(want.unwrap_or_default()), o)?;
            if FallibleMap::<&str, $t>::out_size(&m) != size_of::<$t>() {
                return Err(format!("out_size of from_str::<{}> is {}", stringify!($t), FallibleMap::<&str, $t>::out_size(&m)));
            }
        })*};
    }
    strs!(u8, i8, u16, i16, u32, i32, u64, i64, usize, isize, u128, i128, f32, f64, bool, char);
    macro_rules! radixes {
        ($($t:ty),*) => {$({
            let want = <$t>::from_str_radix(&s, radix).map_err(|_| Error::FromStr);
            let m = map::from_str_radix::<$t>(radix);
            let got: Result<$t, Error> = m.try_map(s.as_str());
            judge(concat!("from_str_radix::<", stringify!($t), ">"), &(&s, radix), got, want.clone(), o)?;
            let got: Result<$t, Error> = CharsCtx::new(&s).ctor(&CtorOps::try_map(all, m));
            judge("try_map(from_str_radix)", &(&s, radix), got, want.clone(), o)?;
            let d: Result<$t, Error> = m.with_default(|| 7).try_map(s.as_str());
            judge("with_default", &(&s, radix), d, Ok(want.unwrap_or(7)), o)?;
        })*};
    }
    radixes!(u8, i8, u16, i16, u32, i32, u64, i64, usize, isize);
    o.nontrivial(&(s, radix));
    Ok(())
}

// --------------------------------------------------------------------- bytes

/// least significant byte first
fn le(b: &[u8]) -> u128 {
    b.iter().rev().fold(0, |a, x| a << 8 | *x as u128)
}
fn be(b: &[u8]) -> u128 {
    b.iter().fold(0, |a, x| a << 8 | *x as u128)
}

fn bytes(r: &mut Rng, o: &mut Obs) -> R {
    let n = if r.chance(1, 500) { *r.pick(COUNTS) } else { r.below(20) };
    let b: Vec<u8> = (0..n).map(|_| if r.chance(1, 3) { *r.pick(&[0, 1, 127, 128, 255]) } else { r.next() as u8 }).collect();
    o.note(|| format!("bytes {b:?}"));
    let all = regex::consume_all();
    macro_rules! ints {
        ($($t:ty),*) => {$({
            const W: usize = size_of::<$t>();
            let head = b.get(..W);
            macro_rules! one {
                ($f:ident, $val:expr, $e:expr) => {{
                    // the value the leading bytes denote, by hand
                    let want: Result<$t, Error> = head.map(|h| $val(h) as $t).ok_or($e);
                    let m = map::$f::<$t>();
                    let got: Result<$t, Error> = m.try_map(&b[..]);
                    judge(concat!(stringify!($f), "::<", stringify!($t), ">"), &b, got, want.clone(), o)?;
                    let got = BytesCtx::new(&b).map(&all, m);
                    judge("a mapped match", &b, got, want.clone(), o)?;
                    let got: Result<$t, Error> = BytesCtx::new(&b).ctor(&CtorOps::try_map(regex::consume(W), m));
                    let want2 = if b.len() < W { Err(Error::Consume) } else { want };
                    judge("try_map of the exact width", &b, got, want2, o)?;
                    if m.size() != W || FallibleMap::<&[u8], $t>::out_size(&m) != W {
                        return Err(format!("{}::<{}> reports size {}", stringify!($f), stringify!($t), m.size()));
                    }
                }};
            }
            one!(from_le_bytes, le, Error::FromLeBytes);
            one!(from_be_bytes, be, Error::FromBeBytes);
            if cfg!(target_endian = "little") {
                one!(from_ne_bytes, le, Error::FromNeBytes);
            } else {
                one!(from_ne_bytes, be, Error::FromNeBytes);
            }
        })*};
    }
    ints!(u8, i8, u16, i16, u32, i32, u64, i64, usize, isize, u128, i128);
    macro_rules! floats {
        ($($t:ty, $u:ty);*) => {$({
            const W: usize = size_of::<$t>();
            let head = b.get(..W);
            let w = |f: fn(&[u8]) -> u128, e| head.map(|h| <$t>::from_bits(f(h) as $u)).ok_or(e);
            let got: Result<$t, Error> = map::from_le_bytes::<$t>().try_map(&b[..]);
            judge("from_le_bytes of a float", &b, got, w(le, Error::FromLeBytes), o)?;
            let got: Result<$t, Error> = map::from_be_bytes::<$t>().try_map(&b[..]);
            judge("from_be_bytes of a float", &b, got, w(be, Error::FromBeBytes), o)?;
            let ne = if cfg!(target_endian = "little") { le } else { be };
            let got: Result<$t, Error> = map::from_ne_bytes::<$t>().try_map(&b[..]);
            judge("from_ne_bytes of a float", &b, got, w(ne, Error::FromNeBytes), o)?;
        })*};
    }
    floats!(f32, u32; f64, u64);
    o.nontrivial(&b);
    Ok(())
}

// ---------------------------------------------------------------------- text

/// independent UTF-8 validation (RFC 3629), and the lossy decoding of
/// maximal ill-formed subparts (Unicode, ch. 3.9)
fn decode(b: &[u8]) -> (bool, String) {
    let (mut ok, mut s, mut i) = (true, String::new(), 0);
    while i < b.len() {
        let x = b[i];
        let (n, lo, hi, init) = match x {
            0..=0x7f => (0, 0, 0, x as u32),
            0xc2..=0xdf => (1, 0x80, 0xbf, x as u32 & 0x1f),
            0xe0 => (2, 0xa0, 0xbf, 0),
            0xed => (2, 0x80, 0x9f, 0xd),
            0xe1..=0xef => (2, 0x80, 0xbf, x as u32 & 0xf),
            0xf0 => (3, 0x90, 0xbf, 0),
            0xf1..=0xf3 => (3, 0x80, 0xbf, x as u32 & 7),
            0xf4 => (3, 0x80, 0x8f, 4),
            _ => {
                ok = false;
                s.push('\u{fffd}');
                i += 1;
                continue;
            }
        };
        let mut v = init;
        let mut k = 0;
        while k < n {
            let (l, h) = if k == 0 { (lo, hi) } else { (0x80, 0xbf) };
            match b.get(i + 1 + k) {
                Some(y) if (l..=h).contains(y) => v = v << 6 | (*y as u32 & 0x3f),
                _ => break,
            }
            k += 1;
        }
        if k == n {
            s.push(char::from_u32(v).expect("harness: scalar"));
        } else {
            ok = false;
            s.push('\u{fffd}');
        }
        i += 1 + k;
    }
    (ok, s)
}

fn text(r: &mut Rng, o: &mut Obs) -> R {
    let n = if r.chance(1, 300) { gen_huge(r, 3, 5000).unwrap_or(*r.pick(COUNTS)) } else { r.below(12) };
    let b: Vec<u8> = match r.below(4) {
        0 => (0..n).map(|_| *r.pick(&[b'a', 0xc3, 0xa9, 0xe4, 0xbd, 0xa0, 0xf4, 0x8f, 0xbf, 0xbf, 0xed, 0xa0, 0x80, 0xef, 0xbb, 0xff, 0xfe, 0, 0xc0, 0xe0, 0xf0])).collect(),
        1 => {
            let s: String = (0..n).map(|_| *r.pick(&['a', 'é', '你', '\u{10ffff}', '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{fffd}', '\u{fffe}', '\0', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\r', '\n', '\u{2028}'])).collect();
            s.into_bytes()
        }
        2 => {
            let s: String = (0..n).map(|_| *r.pick(&['a', 'é', '你', '\u{10ffff}'])).collect();
            let mut b = s.into_bytes();
            if !b.is_empty() {
                match r.below(3) {
                    0 => {
                        b.pop();
                    }
                    1 => {
                        let i = r.below(b.len());
                        b.remove(i);
                    }
                    _ => {
                        let i = r.below(b.len());
                        b[i] ^= 1 << r.below(8);
                    }
                }
            }
            b
        }
        _ => (0..n).map(|_| r.next() as u8).collect(),
    };
    // marks and magic numbers some decoders treat by themselves
    let mut b = b;
    if r.chance(1, 8) {
        let m = *r.pick(&[&b"\xef\xbb\xbf"[..], b"\xff\xfe", b"\xfe\xff", b"\0", b"\r\n", b"\xed\xa0\x80", b"\xc0\x80"]);
        let at = *r.pick(&[0, b.len()]);
        b.splice(at..at, m.iter().copied());
    }
    o.note(|| format!("bytes {b:?}"));
    let (ok, lossy) = decode(&b);
    let want: Result<&str, Error> = if ok { Ok(&lossy) } else { Err(Error::Utf8Error) };
    let m = map::from_utf8::<&str>();
    let got: Result<&str, Error> = m.try_map(&b[..]);
    let got2: Result<String, Error> = map::from_utf8::<String>().try_map(&b[..]);
    let got3: Result<Cow<str>, Error> = map::from_utf8_lossy().try_map(&b[..]);
    let got4: Result<&str, Error> = BytesCtx::new(&b).map(&regex::consume_all(), m);
    let got5: Result<String, Error> = BytesCtx::new(&b).ctor(&CtorOps::try_map(regex::consume_all(), map::from_utf8::<String>()));
    let got6: Result<Cow<str>, Error> = BytesCtx::new(&b).ctor(&CtorOps::try_map(regex::consume_all(), map::from_utf8_lossy::<Cow<str>>()));
    o.events += 6;
    o.count(if ok { "accepted" } else { "rejected" });
    if got != want || got2.as_deref() != want.as_deref() || got4 != want || got5.as_deref() != want.as_deref() {
        return Err(format!("from_utf8 of {b:?} gives {got:?} {got2:?} {got4:?} {got5:?}, expected {want:?}"));
    }
    if got3.as_deref() != Ok(&lossy) || got6.as_deref() != Ok(&lossy) {
        return Err(format!("from_utf8_lossy of {b:?} gives {got3:?} {got6:?}, expected {lossy:?}"));
    }
    o.nontrivial(&b);
    Ok(())
}

// ---------------------------------------------------- selection and the rest

fn rest(r: &mut Rng, o: &mut Obs) -> R {
    let small = |r: &mut Rng| *r.pick(&[i64::MIN, -2, -1, 0, 1, 2, 3, 127, 128, 255, 256, i64::MAX]);
    let (a, b, v) = (small(r), small(r), small(r));
    let (x, y) = (*r.pick(&["", "a", "b", "ab", "é"]), *r.pick(&["", "a", "b", "ab", "é"]));
    o.note(|| format!("values {a} {b} {v} {x:?} {y:?}"));
    macro_rules! chk {
        ($g:expr, $w:expr) => {
            let (g, w) = ($g, $w);
            o.events += 1;
            if g != w {
                return Err(format!("{} gives {g:?}, expected {w:?} (values {a} {b} {v} {x:?} {y:?})", stringify!($g)));
            }
        };
    }
    chk!(map::select0().try_map((x, v)), Ok::<_, Error>(x));
    chk!(map::select1().try_map((x, v)), Ok::<_, Error>(v));
    chk!(map::select_eq().try_map((x, y)), if x == y { Ok((x, y)) } else { Err(Error::SelectEq) });
    chk!(map::select_neq().try_map((x, y)), if x != y { Ok((x, y)) } else { Err(Error::SelectNeq) });
    chk!(map::select_eq().try_map((a, b)), if a == b { Ok((a, b)) } else { Err(Error::SelectEq) });
    chk!(map::select_neq().try_map((a, b)), if a != b { Ok((a, b)) } else { Err(Error::SelectNeq) });
    // values of different types: the pair comes back unchanged
    chk!(map::select_eq().try_map((x.to_string(), y)), if x == y { Ok((x.to_string(), y)) } else { Err(Error::SelectEq) });
    // not equal to itself
    let nan = f64::NAN;
    chk!(map::select_eq().try_map((nan, nan)).is_ok(), false);
    chk!(map::select_neq().try_map((nan, nan)).is_ok(), true);
    let inside = a <= v && v < b;
    chk!(map::bounded(a, b).try_map(v), if inside { Ok(v) } else { Err(Error::Bounded) });
    chk!(map::bounded(x, "b").try_map(y), if x <= y && y < "b" { Ok(y) } else { Err(Error::Bounded) });
    chk!(map::bounded(0.0, 1.0).try_map(nan).is_ok(), false);
    chk!(map::bounded(f64::NEG_INFINITY, f64::INFINITY).try_map(v as f64), Ok::<_, Error>(v as f64));
    let f = v as f64 / 4.0;
    chk!(map::bounded(-0.5, 0.5).try_map(f), if (-0.5..0.5).contains(&f) { Ok(f) } else { Err(Error::Bounded) });
    chk!(map::into::<i128>().try_map(v), Ok::<_, Error>(v as i128));
    chk!(map::into::<String>().try_map(x), Ok::<_, Error>(x.to_string()));
    chk!(map::into::<Vec<u8>>().try_map(x), Ok::<_, Error>(x.as_bytes().to_vec()));
    chk!(map::try_into::<u8>().try_map(v), if (0..256).contains(&v) { Ok(v as u8) } else { Err(Error::TryInto) });
    chk!(map::try_into::<i8>().try_map(v), if (-128..128).contains(&v) { Ok(v as i8) } else { Err(Error::TryInto) });
    chk!(map::try_into::<usize>().try_map(v), if v >= 0 { Ok(v as usize) } else { Err(Error::TryInto) });
    chk!(map::try_into::<[u8; 2]>().try_map(x.as_bytes()), if x.len() == 2 { Ok([x.as_bytes()[0], x.as_bytes()[1]]) } else { Err(Error::TryInto) });
    chk!(map::try_into::<char>().try_map(v as u32), char::from_u32(v as u32).ok_or(Error::TryInto));
    // a default replaces a rejection, and only that
    let calls = std::cell::Cell::new(0);
    let d = map::with_default(
        || {
            calls.set(calls.get() + 1);
            b
        },
        map::bounded(a, b),
    );
    chk!(d.try_map(v), Ok::<_, Error>(if inside { v } else { b }));
    chk!(calls.get(), !inside as u32);
    chk!(FallibleMap::<i64, i64>::out_size(&d), 8);
    let n = r.below(40);
    chk!(map::fixed_size(n).try_map(x), Ok::<_, Error>(x));
    chk!(FallibleMap::<&str, &str>::out_size(&map::fixed_size(n)), n);
    chk!(FallibleMap::<&str, &str>::out_size(&map::with_default(|| "", map::fixed_size(n))), n);
    chk!(map::mapper(|v: i64| v.wrapping_mul(3)).try_map(v), Ok::<_, Error>(v.wrapping_mul(3)));
    let own = |v: i64| if inside { Ok(v) } else { Err(Error::Uid(9)) };
    chk!(FallibleMap::try_map(&own, v), if inside { Ok(v) } else { Err(Error::Uid(9)) });
    // through parsers
    let s = format!("{x}{y}");
    let c = || CharsCtx::new(&s);
    let p = || CtorOps::then(x, y);
    let sp = (Span::new(0, x.len()), Span::new(x.len(), y.len()));
    chk!(c().ctor::<_, (&str, &str)>(&p()), Ok((x, y)));
    chk!(c().ctor_span::<_, Span>(&p()._0::<(Span, Span)>()), Ok(sp.0));
    chk!(c().ctor_span::<_, Span>(&p()._1::<(Span, Span)>()), Ok(sp.1));
    chk!(c().ctor::<_, &str>(&p()._0::<(&str, &str)>()), Ok(x));
    chk!(c().ctor::<_, &str>(&p()._1::<(&str, &str)>()), Ok(y));
    chk!(c().ctor::<_, (&str, &str)>(&p()._eq::<&str, &str>()), if x == y { Ok((x, y)) } else { Err(Error::SelectEq) });
    // the same selections after a separator, and where the second parser is made on the way
    let s2 = format!("{x},{y}");
    let c2 = || CharsCtx::new(&s2);
    let q = || CtorOps::sep_once(x, ",", y);
    let sq = (Span::new(0, x.len()), Span::new(x.len() + 1, y.len()));
    chk!(c2().ctor_span::<_, Span>(&q()._0::<(Span, Span)>()), Ok(sq.0));
    chk!(c2().ctor_span::<_, Span>(&q()._1::<(Span, Span)>()), Ok(sq.1));
    chk!(c2().ctor::<_, &str>(&q()._0::<(&str, &str)>()), Ok(x));
    chk!(c2().ctor::<_, &str>(&q()._1::<(&str, &str)>()), Ok(y));
    chk!(c2().ctor::<_, (&str, &str)>(&q()._eq::<&str, &str>()), if x == y { Ok((x, y)) } else { Err(Error::SelectEq) });
    let d = || x.into_ctor_then_builder(move |_: &mut CharsCtx, v: &&str| if *v == x { Ok(y) } else { Err(Error::Uid(77)) });
    chk!(c().ctor::<_, (&str, &str)>(&d()), Ok((x, y)));
    chk!(c().ctor::<_, &str>(&d()._0::<(&str, &str)>()), Ok(x));
    chk!(c().ctor::<_, &str>(&d()._1::<(&str, &str)>()), Ok(y));
    chk!(c().ctor::<_, (&str, &str)>(&d()._eq::<&str, &str>()), if x == y { Ok((x, y)) } else { Err(Error::SelectEq) });
    chk!(c().map_span(&p(), map::mapper(|s: Span| s.len)), Ok(s.len()));
    chk!(c().map(&p(), map::mapper(|s: &str| s.len())), Ok(s.len()));
    chk!(c().map_with(&p(), |_: &CharsCtx, s: &Span| Ok(s.len)), Ok(s.len()));
    o.nontrivial(&(a, b, v, x, y, n));
    Ok(())
}

fn case(r: &mut Rng, o: &mut Obs) -> R {
    match r.below(8) {
        0..=2 => numbers(r, o),
        3 | 4 => bytes(r, o),
        5 | 6 => text(r, o),
        _ => rest(r, o),
    }
}

fn main() {
    run(
        Plan {
            quick: 4_000_000,
            ..Plan::new("C15", "hostile text, numbers and bytes through every mapper, directly and inside parsers; non-trivial always; judged against the standard conversion and hand-computed byte orders and UTF-8 decoding")
        },
        case,
    )
}
