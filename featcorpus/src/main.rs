//! A corpus of typed parsers that need no allocator, run in every build
//! configuration of the library (see tools/c20.py).  Writes one line per
//! parser, mode and batch of inputs; `--only NAME` prints every result.
#[path = "../../harness/src/sink.rs"]
mod sink;

use neure::ctor::DynamicCtorThenBuilderHelper;
use neure::ctx::PolicyCtx;
use neure::err::Error;
use neure::map;
use neure::neu::{self, CRange, Condition, Neu, NeuIntoRegexOps, NeuOp};
use neure::prelude::*;
use neure::regex;
use neure::span::ArrayStorer;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
}

struct Out {
    only: Option<String>,
    lines: BTreeMap<String, u64>,
    evals: u64,
    oks: u64,
}
impl Out {
    fn put(&mut self, name: &str, what: &dyn Fn() -> String, res: String) {
        self.evals += 1;
        self.oks += res.starts_with("Ok") as u64;
        if self.only.as_deref() == Some(name) {
            println!("{} -> {res}", what());
        }
        let h = self.lines.entry(name.to_string()).or_insert(0xcbf29ce484222325);
        for b in res.bytes() {
            *h = (*h ^ b as u64).wrapping_mul(0x100000001b3);
        }
    }
}

fn caught(f: impl FnOnce() -> String) -> String {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(s) => s,
        Err(_) => "panic".to_string(),
    }
}

/// texts that nearly fit the parsers below
fn inputs(r: &mut Rng, n: usize) -> Vec<String> {
    const BITS: &[&str] = &[
        "a", "b", "c", "ab", "abc", "abcd", "x", "1", "23", "007", "-", "+", ",", ", ", " ", "  ", "\t", "\n", "[", "]", "(", ")", "{", "}",
        "\"", "\\", "\\\"", "'", "é", "ß", "日本", "😀", "A", "Z", "_", ".", ":", "=", "true", "false", "null", "0x", "ff", "\u{0}", "\u{7f}", "\u{3000}",
    ];
    let mut v: Vec<String> = ["", "a", "[1,2,3]", "[ a , b ]", "abcabc", "  ab  ", "(1)(2)", "x=1,y=2", "\"a\\\"b\"", "aaaaaa", "日本語"]
        .iter()
        .map(|s| s.to_string())
        .collect();
    while v.len() < n {
        let narrow = 2 + r.below(BITS.len() - 2);
        let from = r.below(BITS.len());
        let s: String = (0..r.below(12)).map(|_| BITS[(from + r.below(narrow)) % BITS.len()]).collect();
        v.push(s);
    }
    v
}

macro_rules! word {
    () => {
        neu::ascii_alphabetic().many1()
    };
}
macro_rules! num {
    () => {
        neu::digit(10).many1()
    };
}
macro_rules! texts {
    ($o:ident, $ins:ident, $($name:literal => $p:expr;)+) => {$(
        {
            for s in &$ins {
                let what = || format!("{:?}", s);
                let res = caught(|| {
                    let p = $p;
                    let mut c = CharsCtx::new(s.as_str());
                    let r = c.try_mat(&p).map(|s| (s.beg, s.len));
                    format!("{:?} at {}", r, c.offset())
                });
                $o.put(concat!($name, " match"), &what, res);
                let res = caught(|| {
                    let p = $p;
                    let mut c = CharsCtx::new(s.as_str());
                    let r = c.ctor(&p);
                    format!("{:?} at {}", r, c.offset())
                });
                $o.put(concat!($name, " construct"), &what, res);
                let res = caught(|| {
                    let p = $p;
                    let mut c = CharsCtx::new(s.as_str());
                    let r = c.ctor_span(&p);
                    format!("{:?} at {}", r, c.offset())
                });
                $o.put(concat!($name, " spans"), &what, res);
                let res = caught(|| {
                    let p = $p;
                    let mut c = PolicyCtx::new(CharsCtx::new(s.as_str()), neu::ascii_whitespace().many0());
                    let r = c.try_mat(&p).map(|s| (s.beg, s.len));
                    let at = c.offset();
                    c.set_offset(0);
                    let r2 = c.ctor(&p);
                    format!("{:?} at {at} {:?} at {}", r, r2, c.offset())
                });
                $o.put(concat!($name, " skipping"), &what, res);
            }
        }
    )+};
}

/// patterns over bytes
macro_rules! bytes {
    ($o:ident, $ins:ident, $($name:literal => $p:expr;)+) => {$(
        {
            for s in &$ins {
                let what = || format!("{:?}", s.as_bytes());
                let res = caught(|| {
                    let p = $p;
                    let mut c = BytesCtx::new(s.as_bytes());
                    let r = c.try_mat(&p).map(|s| (s.beg, s.len));
                    let at = c.offset();
                    c.set_offset(0);
                    let r2 = c.ctor(&p);
                    format!("{:?} at {at} {:?} at {}", r, r2, c.offset())
                });
                $o.put($name, &what, res);
            }
        }
    )+};
}

macro_rules! units {
    ($o:ident, $t:ty, $all:expr, $($name:literal => $u:expr;)+) => {$(
        {
            let mut bits = String::new();
            let r = caught(|| {
                let u = $u;
                for x in $all {
                    bits.push(if Neu::<$t>::is_match(&u, &x) { '1' } else { '0' });
                }
                bits.push_str(&format!(" {}", Neu::<$t>::min_length(&u)));
                bits
            });
            $o.put($name, &|| String::new(), r);
        }
    )+};
}

#[derive(Debug, Default, PartialEq)]
struct Bag([u32; 8], usize);
trait Small {
    fn sum(&self) -> u32;
}
impl Small for &str {
    fn sum(&self) -> u32 {
        self.bytes().map(|b| b as u32).sum()
    }
}
impl Small for Span {
    fn sum(&self) -> u32 {
        (self.beg * 100 + self.len) as u32
    }
}
impl<T: Small> Extend<T> for Bag {
    fn extend<I: IntoIterator<Item = T>>(&mut self, i: I) {
        for x in i {
            self.0[self.1 % 8] = x.sum();
            self.1 += 1;
        }
    }
}
impl<T: Small> FromIterator<T> for Bag {
    fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self {
        let mut b = Bag::default();
        b.extend(i);
        b
    }
}

fn len_of<'a, C: Context<'a>>(c: &C) -> usize {
    c.len()
}

fn back<'a, C: Context<'a>>(c: &mut C) {
    c.set_offset(0);
}

fn chars() -> impl Iterator<Item = char> {
    (0..0x2100u32).chain(0x3000..0x3100).chain(0xff00..0xff70).chain(0x1f600..0x1f610).filter_map(char::from_u32)
}

fn main() {
    sink::install();
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().skip(1).collect();
    let seed: u64 = str::parse::<u64>(&a[0]).expect("seed");
    let n: usize = str::parse::<usize>(&a[1]).expect("inputs");
    let only = a.iter().position(|x| x == "--only").map(|i| a[i + 1].clone());
    let mut o = Out { only, lines: BTreeMap::new(), evals: 0, oks: 0 };
    let mut r = Rng(seed);
    let ins = inputs(&mut r, n);

    texts! { o, ins,
        "literal" => "ab";
        "once" => neu::alphabetic().once();
        "opt unit" => NeuIntoRegexOps::opt(neu::alphabetic());
        "many0" => neu::alphanumeric().many0();
        "many1" => neu::alphanumeric().many1();
        "between" => neu::wild().between::<2, 4>();
        "at_least" => neu::wild().at_least::<3>();
        "at_most" => neu::whitespace().at_most::<2>();
        "count" => neu::ascii().count::<3>();
        "times" => neu::lowercase().times(1..3);
        "times from" => neu::numeric().times(2..);
        "char" => 'a'.once();
        "range" => ('a'..='c').many1();
        "range neu" => neu::range('b'..'x').many1();
        "crange" => CRange::from('a'..='b').many1();
        "slice unit" => (&['a', 'b', '日'][..]).many1();
        "array unit" => ['a', '\u{e9}', ','].many1();
        "closure" => (|c: &char| *c as u32 % 2 == 1).many1();
        "or unit" => NeuOp::<char>::or('a', 'b').many1();
        "and unit" => NeuOp::<char>::and(neu::alphabetic(), NeuOp::<char>::not('a')).many1();
        "not unit" => NeuOp::<char>::not(neu::ascii_punctuation()).many0();
        "equal" => neu::equal('a').many1();
        "always" => neu::always::<char>().at_most::<4>();
        "never" => neu::never::<char>().many0();
        "unit then" => NeuIntoRegexOps::then(neu::alphabetic(), neu::alphanumeric());
        "cond" => neu::alphabetic().many1().set_cond(|c: &_, it: &(usize, char)| Ok(it.0 % 2 == 0 || len_of(c) % 2 == 0));
        "cond times" => neu::alphabetic().times(1..4).set_cond(|_: &_, it: &(usize, char)| if it.0 > 3 { Err(Error::Uid(5)) } else { Ok(true) });
        "regex cond" => neu::wild().many0().set_cond(neu::regex_cond(regex::not("b")));
        "start" => regex::start();
        "end" => regex::end();
        "consume" => regex::consume(1);
        "consume all" => regex::consume_all();
        "empty" => regex::empty();
        "fail" => regex::fail();
        "not" => regex::not("a");
        "peek" => regex::peek("a");
        "then" => word!().then(num!());
        "or" => word!().or(num!());
        "or shared head" => "ab".or("abc").then(",");
        "longest" => "ab".longest("abc").then(",");
        "longest units" => word!().longest(neu::word().many1());
        "opt" => num!().opt();
        "opt then" => word!().opt().then(num!());
        "enclose" => word!().enclose("[", "]");
        "enclose nested" => word!().enclose("(", ")").enclose("[", "]");
        "prefix" => word!().prefix("[");
        "suffix" => word!().suffix("]");
        "skip_ws" => word!().skip_ws().then(",".skip_ascii_ws());
        "skip_ws leading" => word!().skip_ws_leading().then(num!().skip_ascii_ws_leading());
        "sep once" => word!().sep_once("=", num!());
        "if then" => word!().if_then("=", num!());
        "if else" => word!().if_else(|c: &_| Ok(len_of(c) % 2 == 0), num!());
        "sep2" => word!().sep2::<_, 1, 3>(",");
        "sep2 blank" => num!().sep2::<_, 0, 4>(",".skip_ws());
        "sep2 no skip" => num!().sep2::<_, 2, 4>(",").with_skip(false);
        "repeat2" => neu::digit(10).once().repeat2::<1, 3>();
        "repeat2 pair" => word!().then(num!()).repeat2::<0, 2>();
        "array" => regex::array(["a", "ab", "abc"]);
        "array ltm" => regex::array_ltm(["a", "ab", "abc"]);
        "slice" => regex::slice(&["ab", "a", "b"]);
        "slice ltm" => regex::slice_ltm(&["b", "a", "ab"]);
        "pair array" => regex::pair_array([("a", 1), ("ab", 2)]);
        "pair array ltm" => regex::pair_array_ltm([("a", 1), ("ab", 2)]);
        "pair slice" => regex::pair_slice(&[("true", true), ("false", false)]);
        "pair slice ltm" => regex::pair_slice_ltm(&[("a", 1), ("abc", 3), ("ab", 2)]);
        "tables in a list" => regex::array_ltm(["a", "ab", "1"]).repeat2::<1, 4>().then(regex::end());
        "some" => Some("ab");
        "cell" => std::cell::Cell::new("ab");
        "refcell" => std::cell::RefCell::new("ab");
        "pat" => word!().then(num!()).pat();
        "dynamic" => regex::into_regex_builder("a", |_: &mut _, s: &Span| Ok(regex::consume(s.len)));
        "macro class" => neure::regex!((neu::alphabetic())+);
        "list" => word!().or(num!()).sep2::<_, 1, 4>(",".skip_ws()).enclose("[", "]");
    }
    // mapped values: text only
    macro_rules! mapped {
        ($($name:literal : $t:ty => $p:expr;)+) => {$(
            for s in &ins {
                let res = caught(|| {
                    let p = $p;
                    let mut c = CharsCtx::new(s.as_str());
                    let r: Result<$t, Error> = c.ctor(&p);
                    let at = c.offset();
                    c.set_offset(0);
                    let m = c.try_mat(&p).map(|s| (s.beg, s.len));
                    format!("{:?} at {at} {m:?} at {}", r, c.offset())
                });
                o.put($name, &|| format!("{s:?}"), res);
            }
        )+};
    }
    mapped! {
        "collect": Bag => neu::alphabetic().once().collect::<&str, Bag>();
        "collect at least": Bag => neu::digit(10).once().collect::<&str, Bag>().at_least(2);
        "sep collect": Bag => word!().sep_collect::<_, &str, Bag>(",");
        "sep collect strict": Bag => num!().sep_collect::<_, &str, Bag>(",").at_least(2).with_skip(false);
        "escape": Bag => "\\\"".pat().or(NeuOp::<char>::not(['"', '\\']).once()).collect::<&str, Bag>().enclose("\"", "\"");
        "then left": &str => word!().then(num!())._0::<(&str, &str)>();
        "then right": &str => word!().then(num!())._1::<(&str, &str)>();
        "map": usize => word!().map(|s: &str| s.len());
        "from_str": u8 => neu::ascii_graphic().many1().try_map(map::from_str::<u8>());
        "from_str signed": i8 => neu::ascii_graphic().many1().try_map(map::from_str::<i8>());
        "from_str float": f64 => neu::ascii_graphic().many1().try_map(map::from_str::<f64>());
        "from_str bool": bool => word!().try_map(map::from_str::<bool>());
        "from_str char": char => neu::wild().once().try_map(map::from_str::<char>());
        "radix 16": u16 => neu::ascii_hexdigit().many1().try_map(map::from_str_radix::<u16>(16));
        "radix 2": i8 => neu::ascii_graphic().many1().try_map(map::from_str_radix::<i8>(2));
        "or mapped": i64 => num!().map(|s: &str| s.len() as i64).or(word!().map(|s: &str| -(s.len() as i64)));
        "list mapped": [Option<u32>; 3] => num!().try_map(map::from_str::<u32>()).sep2::<_, 1, 3>(",".skip_ws()).enclose("[", "]");
        "bounded": u32 => num!().try_map(map::from_str::<u32>()).try_map(map::bounded(5u32, 500));
        "equal sides": (&str, &str) => word!().sep_once(",", word!()).try_map(map::select_eq());
        "fixed size": &str => neu::wild().many0().try_map(map::fixed_size(3));
    }
    // parsers built from what came before: these only construct values
    macro_rules! built {
        ($($name:literal : $t:ty => $p:expr;)+) => {$(
            for s in &ins {
                let res = caught(|| {
                    let p = $p;
                    let mut c = CharsCtx::new(s.as_str());
                    let r: Result<$t, Error> = c.ctor(&p);
                    let at = c.offset();
                    let p = $p;
                    let mut c = PolicyCtx::new(CharsCtx::new(s.as_str()), neu::ascii_whitespace().many0());
                    let r2: Result<$t, Error> = c.ctor(&p);
                    format!("{:?} at {at} {:?} at {}", r, r2, c.offset())
                });
                o.put($name, &|| format!("{s:?}"), res);
            }
        )+};
    }
    built! {
        "then built": (u8, &str) => num!().try_map(map::from_str::<u8>()).into_ctor_then_builder(|_: &mut _, n: &u8| Ok(neu::wild().times(..*n as usize + 1)));
        "then the same": (&str, &str) => word!().into_ctor_then_builder(|_: &mut _, w: &&str| Ok(*w));
        "then refused": (&str, &str) => word!().into_ctor_then_builder(|_: &mut _, w: &&str| if w.len() > 2 { Err(Error::Uid(8)) } else { Ok(num!()) });
        // a built parser may read the beginning again
        "then back": (&str, &str) => word!().into_ctor_then_builder(|c: &mut _, _: &&str| {
            back(c);
            Ok(neu::wild().at_most::<2>())
        });
        "then back later": (&str, (&str, &str)) => num!().then(word!().into_ctor_then_builder(|c: &mut _, _: &&str| {
            back(c);
            Ok(neu::wild().once())
        }));
    }
    for s in &ins {
        let what = || format!("{s:?}");
        let res = caught(|| {
            let mut c = CharsCtx::new(s.as_str());
            let mut t = ArrayStorer::<2, 8>::default();
            let mut n = 0;
            while let Ok(sp) = t.try_cap(n % 2, n / 2, &mut c, &word!().or(num!()).or(neu::wild().once())) {
                n += 1;
                if sp.len == 0 || n > 14 {
                    break;
                }
            }
            let l: Vec<_> = (0..2).map(|i| t.spans(i).map(|v| v.to_vec())).collect();
            format!("{l:?} {}", c.offset())
        });
        o.put("capture", &what, res);
        let res = caught(|| {
            let mut c = CharsCtx::new(s.as_str());
            let a: Vec<&str> = c.find_all(word!()).collect();
            c.set_offset(0);
            let b: Vec<&str> = c.match_seq(word!().or(",")).collect();
            c.set_offset(0);
            let d: Option<&str> = c.find(num!());
            format!("{a:?} {b:?} {d:?} {}", c.offset())
        });
        o.put("search", &what, res);
        let res = caught(|| {
            let c = CharsCtx::new(s.as_str());
            let b = BytesCtx::new(s.as_bytes());
            let x: Vec<_> = c.peek().map(|i| i.collect()).unwrap_or_default();
            let y: Vec<_> = b.peek().map(|i| i.map(|(i, b)| (i, b)).collect()).unwrap_or_default();
            let z: Vec<_> = (0..6).map(|i| (c.orig_at(i), c.orig_sub(i, 2), b.orig_sub(i, 3), c.peek_at(i).is_ok())).collect();
            format!("{x:?} {y:?} {z:?}")
        });
        o.put("context", &what, res);
    }
    bytes! { o, ins,
        "bytes literal" => b"ab";
        "bytes slice" => &b"abc"[..];
        "bytes once" => neu::ascii_alphabetic().once();
        "bytes many1" => neu::ascii_graphic().many1();
        "bytes range" => (3u8..200).many1();
        "bytes unit" => 0x61u8.many1();
        "bytes times" => neu::always::<u8>().times(2..4);
        "bytes enclose" => neu::ascii_alphanumeric().many1().enclose(b"[", b"]");
        "bytes u16" => regex::consume(2).try_map(map::from_le_bytes::<u16>());
        "bytes u32" => regex::consume(4).try_map(map::from_be_bytes::<u32>());
        "bytes i64" => regex::consume(8).try_map(map::from_ne_bytes::<i64>());
        "bytes utf8" => regex::consume(3).try_map(map::from_utf8::<&str>());
        "bytes list" => neu::ascii_digit().many1().sep2::<_, 1, 3>(b",");
    }

    units! { o, char, chars(),
        "unit alphabetic" => neu::alphabetic();
        "unit alphanumeric" => neu::alphanumeric();
        "unit ascii" => neu::ascii();
        "unit ascii_alphabetic" => neu::ascii_alphabetic();
        "unit ascii_alphanumeric" => neu::ascii_alphanumeric();
        "unit ascii_control" => neu::ascii_control();
        "unit ascii_digit" => neu::ascii_digit();
        "unit ascii_graphic" => neu::ascii_graphic();
        "unit ascii_hexdigit" => neu::ascii_hexdigit();
        "unit ascii_lowercase" => neu::ascii_lowercase();
        "unit ascii_punctuation" => neu::ascii_punctuation();
        "unit ascii_uppercase" => neu::ascii_uppercase();
        "unit ascii_whitespace" => neu::ascii_whitespace();
        "unit control" => neu::control();
        "unit digit 10" => neu::digit(10);
        "unit digit 36" => neu::digit(36);
        "unit lowercase" => neu::lowercase();
        "unit numeric" => neu::numeric();
        "unit uppercase" => neu::uppercase();
        "unit whitespace" => neu::whitespace();
        "unit wild" => neu::wild();
        "unit word" => neu::word::<char>();
        "unit char" => 'x';
        "unit range" => 'b'..'y';
        "unit range incl" => 'b'..='\u{3040}';
        "unit range from" => '\u{80}'..;
        "unit range to" => ..'\u{80}';
        "unit range to incl" => ..='\u{80}';
        "unit full" => ..;
        "unit cell" => std::cell::Cell::new('q');
        "unit refcell" => std::cell::RefCell::new(neu::uppercase());
    }
    units! { o, u8, 0..=255u8,
        "byte ascii" => neu::ascii();
        "byte ascii_alphabetic" => neu::ascii_alphabetic();
        "byte ascii_whitespace" => neu::ascii_whitespace();
        "byte ascii_punctuation" => neu::ascii_punctuation();
        "byte word" => neu::word::<u8>();
        "byte range" => 3u8..200;
        "byte" => 65u8;
    }
    for (k, v) in &o.lines {
        println!("{k}\t{v:016x}");
    }
    println!(
        "#{{\"evaluations\": {}, \"ok\": {}, \"records\": {}, \"record_kinds\": {}}}",
        o.evals,
        o.oks,
        sink::RECORDS.load(std::sync::atomic::Ordering::Relaxed),
        sink::heads()
    );
}
