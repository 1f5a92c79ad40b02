//! C18: recursive parsers against a reference interpreter with recursion,
//! hand-written recognisers and value -> document -> value round trips.
use neure::ctor::{Ctor, CtorOps};
use neure::ctx::{BytesCtx, CharsCtx, Context, MatchExt, PolicyCtx};
use neure::err::Error;
use neure::neu::{self, NeuIntoRegexOps, NeuOp};
use neure::regex;
use nverif::ast::*;
use nverif::build::{rec_build, Knot};
use nverif::case::*;
use nverif::ctxs::*;
use nverif::drv::{guarded, run, Obs, Plan};
use nverif::generate::*;
use nverif::probe::*;
use nverif::rng::Rng;

// ------------------------------------------------- random recursive grammars

fn run_rec<'a, C: HCtx<'a>>(
    c: &Case,
    inp: &'a [u8],
    mk: &dyn Fn(&'a [u8]) -> C,
    form: u8,
    budget: u64,
) -> Result<(Out<(usize, usize)>, Out<Val>), String> {
    guarded(|| {
        let p = rec_build::<C>(&c.ast, form);
        let mut ctx = mk(inp);
        ctx.set_offset(c.start);
        mon_reset(budget);
        let res = ctx.try_mat(&p).map(|s| (s.beg, s.len));
        let m = Out { res, off: ctx.offset(), mon: mon_take(), log: vec![] };
        ctx.set_offset(c.start);
        mon_reset(budget);
        let mut h = Rec::new(c.rej.clone());
        let res = p.construct(&mut ctx, &mut h);
        let k = Out { res, off: ctx.offset(), mon: mon_take(), log: h.log };
        (m, k)
    })
}

fn check_rec(c: &Case, form: u8, o: &mut Obs) -> Result<bool, String> {
    let mut mm = c.model();
    mm.rec = Some(&c.ast);
    let want_m = mm.tm(&c.ast, c.start, 0);
    if mm.over {
        return Ok(false);
    }
    let mut mk = c.model();
    mk.rec = Some(&c.ast);
    let want_k = mk.k(&c.ast, c.start);
    if mk.over {
        return Ok(false);
    }
    let budget = budget_for(mm.steps + mk.steps);
    let (m, k) = match c.kind {
        Kind::Chars => run_rec::<CharsCtx>(c, &c.inp, &|d| HCtx::mk(d), form, budget),
        Kind::Bytes => run_rec::<BytesCtx>(c, &c.inp, &|d| HCtx::mk(d), form, budget),
        Kind::UText => run_rec::<UText>(c, &c.inp, &|d| HCtx::mk(d), form, budget),
        Kind::UBytes => run_rec::<UBytes>(c, &c.inp, &|d| HCtx::mk(d), form, budget),
        Kind::PText => run_rec::<PText>(c, &c.inp, &|d| pol_text(d, &c.skip), form, budget),
        Kind::PBytes => run_rec::<PBytes>(c, &c.inp, &|d| pol_bytes(d, &c.skip), form, budget),
    }?;
    o.events += m.mon.events + k.mon.events;
    match (&want_m, &m.res) {
        (Ok(w), Ok((b, l))) if w.beg == *b && w.end == b + l && m.off == w.end => {}
        (Err(_), Err(_)) if m.off == c.start => {}
        (w, g) => return Err(format!("recursive match gives {g:?} position {}, reference {w:?}", m.off)),
    }
    match (&want_k, &k.res) {
        (Ok((v, e)), Ok(g)) if *v == g.erase() && *e == k.off => {}
        (Err(_), Err(_)) => {}
        (w, g) => return Err(format!("recursive construction gives {g:?} position {}, reference {w:?}", k.off)),
    }
    o.max("recursion_depth_random_grammar", mk.max_rec.max(mm.max_rec) as u64);
    Ok(mm.max_rec > 0 && mk.max_rec > 0)
}

fn random_grammar(r: &mut Rng, o: &mut Obs) -> Result<(), String> {
    let w = Want { rej: r.chance(1, 5), try_map: true, depth: 3, conds: false, ..Want::new(ALL) };
    let (mut c, mut g) = gen_case(r, &w);
    for x in ['(', ')', '[', ']', 'a', 'b', 'x', ','] {
        if r.flip() {
            g.alpha.push(x);
        }
    }
    let mut n = 0;
    c.ast = unlock(&recursive(r, &g, &c.ast, true, 4, &mut n));
    if !has_self(&c.ast) || !terminates(&c.ast) {
        return Ok(());
    }
    let form = r.below(5) as u8;
    let mut depth = r.range(1, 6) as u32;
    while depth > 0 && size_unrolled(&c.ast, depth) > 3_000 {
        depth -= 1;
    }
    let un = unroll(&c.ast, &c.ast, depth);
    let skip = if c.kind.policy() { Some(&c.skip) } else { None };
    let (inp, start) = gen_input(r, &g, &un, skip);
    c.inp = inp;
    c.start = start;
    verdict(o, c, &|c, o| check_rec(c, form, o))
}

// ------------------------------------------------------------------ documents

#[derive(Clone, Debug, PartialEq)]
enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

fn gen_str(r: &mut Rng, text: bool) -> String {
    let mut s = String::new();
    for _ in 0..r.below(5) {
        match r.below(6) {
            0 => s.push_str("\\\""),
            1 => s.push_str("\\\\"),
            2 if text => s.push(*r.pick(&['é', '日', '😀'])),
            3 => s.push(*r.pick(&['[', ']', '{', '}', ',', ':', ' '])),
            _ => s.push(*r.pick(&['a', 'b', 'Z', '0'])),
        }
    }
    s
}

fn gen_j(r: &mut Rng, depth: u32, text: bool) -> J {
    match r.below(if depth == 0 { 5 } else { 10 }) {
        0 => J::Null,
        1 => J::Bool(r.flip()),
        2 | 3 => J::Num(format!("{}{}", if r.chance(1, 3) { "-" } else { "" }, r.below(100_000))),
        4 => J::Str(gen_str(r, text)),
        5..=7 => J::Arr((0..r.below(4)).map(|_| gen_j(r, depth - 1, text)).collect()),
        _ => J::Obj((0..r.below(4)).map(|_| (gen_str(r, text), gen_j(r, depth - 1, text))).collect()),
    }
}

fn sp(r: &mut Rng, ws: bool, out: &mut String) {
    if ws {
        for _ in 0..r.below(3) {
            out.push(*r.pick(&[' ', ' ', '\t', '\n']));
        }
    }
}

fn print_j(r: &mut Rng, j: &J, ws: bool, out: &mut String) {
    sp(r, ws, out);
    match j {
        J::Null => out.push_str("null"),
        J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
        J::Num(n) => out.push_str(n),
        J::Str(s) => {
            out.push('"');
            out.push_str(s);
            out.push('"');
        }
        J::Arr(v) => {
            out.push('[');
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                print_j(r, x, ws, out);
            }
            if !v.is_empty() && r.chance(1, 8) {
                out.push(',');
            }
            sp(r, ws, out);
            out.push(']');
        }
        J::Obj(v) => {
            out.push('{');
            for (i, (k, x)) in v.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                sp(r, ws, out);
                out.push('"');
                out.push_str(k);
                out.push('"');
                sp(r, ws, out);
                out.push(':');
                print_j(r, x, ws, out);
            }
            sp(r, ws, out);
            out.push('}');
        }
    }
    sp(r, ws, out);
}

/// hand-written parser of the same language: longest prefix that is a document
struct Hand<'a> {
    b: &'a [u8],
    p: usize,
    /// arrays may end in a comma, as the list combinator allows
    deep: u32,
    max: u32,
    ws_after: bool,
}

impl Hand<'_> {
    fn ws(&mut self) {
        while self.b.get(self.p).is_some_and(|c| c.is_ascii_whitespace()) {
            self.p += 1;
        }
    }
    fn eat(&mut self, s: &str) -> bool {
        let y = self.b[self.p..].starts_with(s.as_bytes());
        if y {
            self.p += s.len();
        }
        y
    }
    fn string(&mut self) -> Option<String> {
        let save = self.p;
        if !self.eat("\"") {
            return None;
        }
        let beg = self.p;
        loop {
            match self.b.get(self.p) {
                Some(b'"') => {
                    let s = String::from_utf8(self.b[beg..self.p].to_vec()).unwrap();
                    self.p += 1;
                    return Some(s);
                }
                Some(b'\\') if matches!(self.b.get(self.p + 1), Some(b'"' | b'\\')) => self.p += 2,
                Some(b'\\') | None => {
                    self.p = save;
                    return None;
                }
                _ => self.p += 1,
            }
        }
    }
    fn value(&mut self) -> Option<J> {
        let save = self.p;
        let r = self.value_();
        if r.is_none() {
            self.p = save;
        }
        r
    }
    fn value_(&mut self) -> Option<J> {
        self.deep += 1;
        self.max = self.max.max(self.deep);
        self.ws();
        let v = if self.eat("null") {
            J::Null
        } else if self.eat("true") {
            J::Bool(true)
        } else if self.eat("false") {
            J::Bool(false)
        } else if let Some(s) = self.string() {
            J::Str(s)
        } else if self.eat("[") {
            let mut v = vec![];
            while let Some(x) = self.value() {
                v.push(x);
                if !self.eat(",") {
                    break;
                }
            }
            self.ws();
            if !self.eat("]") {
                self.deep -= 1;
                return None;
            }
            J::Arr(v)
        } else if self.eat("{") {
            let mut v = vec![];
            loop {
                let save = self.p;
                self.ws();
                let Some(k) = self.string() else {
                    self.p = save;
                    break;
                };
                self.ws();
                let x = if self.eat(":") { self.value() } else { None };
                let Some(x) = x else {
                    self.p = save;
                    break;
                };
                v.push((k, x));
                if !self.eat(",") {
                    break;
                }
            }
            self.ws();
            if !self.eat("}") {
                self.deep -= 1;
                return None;
            }
            J::Obj(v)
        } else {
            let beg = self.p;
            self.eat("-");
            let d = self.p;
            while self.b.get(self.p).is_some_and(|c| c.is_ascii_digit()) {
                self.p += 1;
            }
            if d == self.p {
                self.deep -= 1;
                return None;
            }
            J::Num(String::from_utf8(self.b[beg..self.p].to_vec()).unwrap())
        };
        if self.ws_after {
            self.ws();
        }
        self.deep -= 1;
        Some(v)
    }
}

type Docs = Vec<Result<(J, usize), (Error, usize)>>;

trait Own {
    fn own(&self) -> String;
}
impl Own for &str {
    fn own(&self) -> String {
        self.to_string()
    }
}
impl Own for &[u8] {
    fn own(&self) -> String {
        String::from_utf8(self.to_vec()).expect("harness: documents are text")
    }
}

/// the grammar, written once for text and bytes
macro_rules! grammar {
    ($ctx:ty, $item:ty, $slice:ty, $ctor:expr, $q:expr, $ws:expr, [$($l:expr),*]) => {{
        let ctor = $ctor;
        let [quote, minus, t, f, n, lb, rb, lc, rc, comma, colon] = [$(regex::literal($l)),*];
        let ws = $ws;
        let digits = neu::ascii_digit::<$item>().many1();
        let num = minus.opt().then(digits).pat().map(|v: $slice| J::Num(v.own()));
        let (q, b): ($item, $item) = ($q('"'), $q('\\'));
        let esc = NeuIntoRegexOps::<$ctx>::then(b, neu::equal(q).or(neu::equal(b)));
        let plain = neu::equal(q).or(neu::equal(b)).not().many1();
        let text = CtorOps::<$ctx>::or(plain, esc).repeat(0..).pat().enclose(quote, quote);
        let string = text.clone().map(|v: $slice| J::Str(v.own()));
        let word = t.map(|_: $slice| J::Bool(true))
            .or(f.map(|_: $slice| J::Bool(false)))
            .or(n.map(|_: $slice| J::Null));
        let list = ctor.clone().sep(comma).at_least(0).enclose(lb, ws.clone().then(rb).pat()).map(|v: Vec<J>| J::Arr(v));
        let key = text.prefix(ws.clone()).suffix(ws.clone());
        let pair = key.sep_once(colon, ctor.clone());
        let obj = pair
            .sep(comma)
            .at_least(0)
            .enclose(lc, ws.clone().then(rc).pat())
            .map(|v: Vec<($slice, J)>| J::Obj(v.into_iter().map(|(k, x)| (k.own(), x)).collect()));
        word.or(string).or(list).or(obj).or(num).prefix(ws.clone()).suffix(ws)
    }};
}

fn char_item(c: char) -> char {
    c
}
fn byte_item(c: char) -> u8 {
    c as u8
}

macro_rules! over_docs {
    ($docs:expr, $parser:expr, $mk:expr) => {{
        let mut out: Docs = vec![];
        for d in $docs {
            let mut ctx = $mk(d);
            let r: Result<J, Error> = ctx.ctor(&$parser);
            out.push(match r {
                Ok(j) => Ok((j, ctx.offset())),
                Err(e) => Err((e, ctx.offset())),
            });
        }
        out
    }};
}

fn json_text<'a>(docs: &'a [String], sync: bool) -> Docs {
    let mk = |d: &'a String| CharsCtx::new(d.as_str());
    if sync {
        let mut knots = vec![];
        let p = regex::rec_parser_sync(|ctor| {
            let ctor = Knot::new(ctor);
            knots.push(ctor.clone());
            grammar!(CharsCtx<'a>, char, &'a str, ctor, char_item, neu::ascii_whitespace::<char>().many0(),
                ["\"", "-", "true", "false", "null", "[", "]", "{", "}", ",", ":"])
        });
        let r = over_docs!(docs, p, mk);
        knots.iter().for_each(Knot::cut);
        r
    } else {
        let mut knots = vec![];
        let p = regex::rec_parser(|ctor| {
            let ctor = Knot::new(ctor);
            knots.push(ctor.clone());
            grammar!(CharsCtx<'a>, char, &'a str, ctor, char_item, neu::ascii_whitespace::<char>().many0(),
                ["\"", "-", "true", "false", "null", "[", "]", "{", "}", ",", ":"])
        });
        let r = over_docs!(docs, p, mk);
        knots.iter().for_each(Knot::cut);
        r
    }
}

fn json_bytes<'a>(docs: &'a [String], sync: bool) -> Docs {
    let mk = |d: &'a String| BytesCtx::new(d.as_bytes());
    macro_rules! g {
        ($c:expr) => {
            grammar!(BytesCtx<'a>, u8, &'a [u8], $c, byte_item, neu::ascii_whitespace::<u8>().many0(),
                [b"\"".as_slice(), b"-".as_slice(), b"true".as_slice(), b"false".as_slice(), b"null".as_slice(),
                 b"[".as_slice(), b"]".as_slice(), b"{".as_slice(), b"}".as_slice(), b",".as_slice(), b":".as_slice()])
        };
    }
    if sync {
        let mut knots = vec![];
        let p = regex::rec_parser_sync(|ctor| {
            let ctor = Knot::new(ctor);
            knots.push(ctor.clone());
            g!(ctor)
        });
        let r = over_docs!(docs, p, mk);
        knots.iter().for_each(Knot::cut);
        r
    } else {
        let mut knots = vec![];
        let p = regex::rec_parser(|ctor| {
            let ctor = Knot::new(ctor);
            knots.push(ctor.clone());
            g!(ctor)
        });
        let r = over_docs!(docs, p, mk);
        knots.iter().for_each(Knot::cut);
        r
    }
}

fn json(r: &mut Rng, o: &mut Obs) -> Result<(), String> {
    let text = r.flip();
    let sync = r.flip();
    let (mut docs, mut vals) = (vec![], vec![]);
    for _ in 0..6 {
        let depth = r.range(0, 5) as u32;
        let j = gen_j(r, depth, text);
        let mut s = String::new();
        let ws = r.flip();
        print_j(r, &j, ws, &mut s);
        let mut pristine = true;
        if r.chance(1, 2) {
            pristine = false;
            let mut cs: Vec<char> = s.chars().collect();
            for _ in 0..r.range(1, 2) {
                let at = r.below(cs.len() + 1);
                match r.below(3) {
                    0 if at < cs.len() => {
                        cs.remove(at);
                    }
                    1 if at < cs.len() => cs[at] = *r.pick(&['[', ']', '{', '}', ',', ':', '"', '\\', '1', ' ', 'n']),
                    _ => cs.insert(at, *r.pick(&['[', ']', '{', '}', ',', ':', '"', '\\', '-', 't'])),
                }
            }
            s = cs.into_iter().collect();
        }
        docs.push(s);
        vals.push((j, pristine));
    }
    o.note(|| format!("json documents {docs:?} text {text} shareable {sync}"));
    let got = guarded(|| if text { json_text(&docs, sync) } else { json_bytes(&docs, sync) })?;
    for (i, d) in docs.iter().enumerate() {
        let mut h = Hand { b: d.as_bytes(), p: 0, deep: 0, max: 0, ws_after: true };
        let want = h.value();
        o.events += 1;
        o.max("json_depth", h.max as u64);
        if vals[i].1 && want.as_ref() != Some(&vals[i].0) {
            panic!("harness: recogniser and printer disagree on {d:?}");
        }
        match (&want, &got[i]) {
            (Some(j), Ok((g, e))) if j == g && *e == h.p => {
                o.count(if vals[i].1 { "json_round_trips" } else { "json_mutants_accepted" })
            }
            (None, Err(_)) => o.count("json_mutants_rejected"),
            (w, g) => {
                return Err(format!("document {d:?}: recogniser gives {w:?} up to {}, the parser {g:?}", h.p));
            }
        }
    }
    o.nontrivial(&format!("{docs:?}{text}{sync}"));
    Ok(())
}

// ---------------------------------------------------------------- arithmetic

#[derive(Clone, Debug)]
enum X {
    N(u32),
    Neg(Box<X>),
    Pow(Box<X>, Box<X>),
    Mul(Box<X>, Vec<(char, X)>),
    Add(Box<X>, Vec<(char, X)>),
}

fn gen_x(r: &mut Rng, d: u32) -> X {
    if d == 0 {
        return X::N(r.below(1000) as u32);
    }
    match r.below(6) {
        0 => X::N(r.below(1000) as u32),
        1 => X::Neg(Box::new(gen_x(r, d - 1))),
        2 => X::Pow(Box::new(gen_x(r, d - 1)), Box::new(gen_x(r, d - 1))),
        3 => X::Mul(Box::new(gen_x(r, d - 1)), (0..r.range(1, 3)).map(|_| (*r.pick(&['*', '/']), gen_x(r, d - 1))).collect()),
        _ => X::Add(Box::new(gen_x(r, d - 1)), (0..r.range(1, 3)).map(|_| (*r.pick(&['+', '-']), gen_x(r, d - 1))).collect()),
    }
}

/// prints with the parentheses the precedence asks for, and some more
fn print_x(r: &mut Rng, x: &X, level: u32, ws: bool, out: &mut String) {
    let mine = match x {
        X::Add(..) => 0,
        X::Mul(..) => 1,
        X::Pow(..) => 2,
        X::Neg(_) => 3,
        X::N(_) => 4,
    };
    if ws && r.chance(1, 3) {
        out.push(' ');
    }
    if mine < level || r.chance(1, 10) {
        out.push('(');
        print_x(r, x, 0, ws, out);
        if ws && r.chance(1, 3) {
            out.push(' ');
        }
        out.push(')');
        return;
    }
    match x {
        X::N(n) => out.push_str(&n.to_string()),
        X::Neg(a) => {
            out.push('-');
            print_x(r, a, 3, ws, out);
        }
        X::Pow(a, b) => {
            print_x(r, a, 3, ws, out);
            if ws && r.chance(1, 3) {
                out.push(' ');
            }
            out.push('^');
            print_x(r, b, 2, ws, out);
        }
        X::Mul(a, v) | X::Add(a, v) => {
            let (l, rr) = if mine == 1 { (1, 2) } else { (0, 1) };
            // the left operand may itself be a chain: it folds to the left
            print_x(r, a, if matches!(**a, X::Mul(..) | X::Add(..)) { rr } else { l }, ws, out);
            for (o, b) in v {
                if ws && r.chance(1, 3) {
                    out.push(' ');
                }
                out.push(*o);
                print_x(r, b, rr, ws, out);
            }
        }
    }
}

fn tree(x: &X) -> String {
    match x {
        X::N(n) => n.to_string(),
        X::Neg(a) => format!("(-{})", tree(a)),
        X::Pow(a, b) => format!("({}^{})", tree(a), tree(b)),
        X::Mul(a, v) | X::Add(a, v) => fold(tree(a), v.iter().map(|(o, b)| (*o, tree(b))).collect()),
    }
}

fn fold(a: String, v: Vec<(char, String)>) -> String {
    v.into_iter().fold(a, |a, (o, b)| format!("({a}{o}{b})"))
}

/// hand-written precedence climbing over the same language, for mutants
struct Prec<'a>(&'a [u8], usize, bool);
impl Prec<'_> {
    fn ws(&mut self) {
        while self.2 && self.0.get(self.1).is_some_and(|c| c.is_ascii_whitespace()) {
            self.1 += 1;
        }
    }
    fn op(&mut self, ops: &[u8]) -> Option<char> {
        let save = self.1;
        self.ws();
        match self.0.get(self.1) {
            Some(c) if ops.contains(c) => {
                self.1 += 1;
                Some(*c as char)
            }
            _ => {
                self.1 = save;
                None
            }
        }
    }
    fn level(&mut self, l: u32) -> Option<String> {
        let save = self.1;
        let r = self.level_(l);
        if r.is_none() {
            self.1 = save;
        }
        r
    }
    fn level_(&mut self, l: u32) -> Option<String> {
        match l {
            0 | 1 => {
                let a = self.level(l + 1)?;
                let mut v = vec![];
                loop {
                    let save = self.1;
                    let Some(o) = self.op(if l == 0 { b"+-" } else { b"*/" }) else { break };
                    let Some(b) = self.level(l + 1) else {
                        self.1 = save;
                        break;
                    };
                    v.push((o, b));
                }
                Some(fold(a, v))
            }
            2 => {
                let a = self.level(3)?;
                let save = self.1;
                if self.op(b"^").is_some() {
                    if let Some(b) = self.level(2) {
                        return Some(format!("({a}^{b})"));
                    }
                    self.1 = save;
                }
                Some(a)
            }
            _ => {
                if self.op(b"-").is_some() {
                    return Some(format!("(-{})", self.level(3)?));
                }
                if self.op(b"(").is_some() {
                    let a = self.level(0)?;
                    self.op(b")")?;
                    return Some(a);
                }
                self.ws();
                let beg = self.1;
                while self.0.get(self.1).is_some_and(|c| c.is_ascii_digit()) {
                    self.1 += 1;
                }
                if beg == self.1 {
                    return None;
                }
                Some(std::str::from_utf8(&self.0[beg..self.1]).unwrap().to_string())
            }
        }
    }
}

type Sk<'a> = PolicyCtx<CharsCtx<'a>, neu::Many0<CharsCtx<'a>, neu::AsciiWhiteSpace<char>, char>>;

macro_rules! arith {
    ($rec:ident, $ctx:ty, $docs:expr, $mk:expr) => {{
        // three recursive parsers: the expression, and inside of it the
        // right-associative power and the chain of signs
        let (mut exprs, mut pows, mut negs) = (vec![], vec![], vec![]);
        let p = regex::$rec(|expr| {
            let expr = Knot::new(expr);
            exprs.push(expr.clone());
            let neg = regex::$rec(|neg| {
                let neg = Knot::new(neg);
                negs.push(neg.clone());
                let n = neu::ascii_digit::<char>().many1().map(|v: &str| v.to_string());
                let paren = expr.clone().enclose("(", ")");
                let minus = neg.clone().prefix("-").map(|v: String| format!("(-{v})"));
                minus.or(paren).or(n)
            });
            let pow = regex::$rec(|pow| {
                let pow = Knot::new(pow);
                pows.push(pow.clone());
                neg.clone().then(pow.clone().prefix("^").opt()).map(|(a, b): (String, Option<String>)| match b {
                    Some(b) => format!("({a}^{b})"),
                    None => a,
                })
            });
            let op = |a: char, b: char| neu::equal(a).or(neu::equal(b)).once().map(|v: &str| v.chars().next().unwrap());
            let mul = pow.clone().then(op('*', '/').then(pow.clone()).repeat(0..)).map(|(a, v): (String, Vec<(char, String)>)| fold(a, v));
            mul.clone().then(op('+', '-').then(mul).repeat(0..)).map(|(a, v): (String, Vec<(char, String)>)| fold(a, v))
        });
        let mut out: Vec<Result<(String, usize), (Error, usize)>> = vec![];
        for d in $docs {
            let mut ctx: $ctx = $mk(d);
            let r: Result<String, Error> = ctx.ctor(&p);
            out.push(match r {
                Ok(j) => Ok((j, ctx.offset())),
                Err(e) => Err((e, ctx.offset())),
            });
        }
        exprs.iter().for_each(Knot::cut);
        pows.iter().for_each(Knot::cut);
        negs.iter().for_each(Knot::cut);
        out
    }};
}

fn arith_run<'a>(docs: &'a [String], ws: bool, sync: bool) -> Vec<Result<(String, usize), (Error, usize)>> {
    match (ws, sync) {
        (true, true) => arith!(rec_parser_sync, Sk<'a>, docs, |d: &'a String| CharsCtx::new(d.as_str()).skip_ascii_whitespace()),
        (true, false) => arith!(rec_parser, Sk<'a>, docs, |d: &'a String| CharsCtx::new(d.as_str()).skip_ascii_whitespace()),
        (false, true) => arith!(rec_parser_sync, CharsCtx<'a>, docs, |d: &'a String| CharsCtx::new(d.as_str())),
        (false, false) => arith!(rec_parser, CharsCtx<'a>, docs, |d: &'a String| CharsCtx::new(d.as_str())),
    }
}

fn arithmetic(r: &mut Rng, o: &mut Obs) -> Result<(), String> {
    let (ws, sync) = (r.flip(), r.flip());
    let (mut docs, mut vals) = (vec![], vec![]);
    for _ in 0..5 {
        let d = r.range(0, 4) as u32;
        let x = gen_x(r, d);
        let mut s = String::new();
        print_x(r, &x, 0, ws, &mut s);
        let mut pristine = true;
        if r.chance(1, 2) {
            pristine = false;
            let mut cs: Vec<char> = s.chars().collect();
            let at = r.below(cs.len() + 1);
            match r.below(3) {
                0 if at < cs.len() => {
                    cs.remove(at);
                }
                1 if at < cs.len() => cs[at] = *r.pick(&['(', ')', '+', '-', '*', '^', '1', ' ']),
                _ => cs.insert(at, *r.pick(&['(', ')', '+', '-', '*', '^', '7', ' '])),
            }
            s = cs.into_iter().collect();
        }
        docs.push(s);
        vals.push((tree(&x), pristine));
    }
    o.note(|| format!("expressions {docs:?} skipping {ws} shareable {sync}"));
    let got = guarded(|| arith_run(&docs, ws, sync))?;
    for (i, d) in docs.iter().enumerate() {
        let mut h = Prec(d.as_bytes(), 0, ws);
        let want = h.level(0);
        o.events += 1;
        if vals[i].1 && want.as_ref() != Some(&vals[i].0) {
            panic!("harness: recogniser and printer disagree on {d:?}: {want:?} against {}", vals[i].0);
        }
        match (&want, &got[i]) {
            (Some(w), Ok((g, e))) if w == g && *e == h.1 => {
                o.count(if vals[i].1 { "expression_round_trips" } else { "expression_mutants_accepted" })
            }
            (None, Err((_, e))) if *e == 0 => o.count("expression_mutants_rejected"),
            (w, g) => {
                return Err(format!("expression {d:?}: precedence parser gives {w:?} up to {}, the recursive parser {g:?}", h.1));
            }
        }
    }
    o.nontrivial(&format!("{docs:?}{ws}{sync}"));
    Ok(())
}

// ---------------------------------------------------------------------- deep

fn deep(r: &mut Rng, o: &mut Obs) -> Result<(), String> {
    let n = if o.thorough { r.range(2_000, 30_000) } else { r.range(500, 4_000) };
    let (kind, sync, broken) = (r.below(3), r.flip(), r.chance(1, 3));
    o.note(|| format!("nesting {n} kind {kind} shareable {sync} broken {broken}"));
    let res = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(move || {
            guarded(|| -> Result<(), String> {
                match kind {
                    0 => {
                        let cut = if broken { n - 1 } else { n };
                        let docs = vec![format!("{}7{}", "[".repeat(n), "]".repeat(cut)), "[1]".to_string()];
                        let mut got = json_text(&docs, sync);
                        if got.pop() != Some(Ok((J::Arr(vec![J::Num("1".into())]), 3))) {
                            return Err("a parse after a deep one differs".into());
                        }
                        let got = got.pop().unwrap();
                        let mut depth = 0;
                        match got {
                            Err((_, 0)) if broken => return Ok(()),
                            Ok((mut j, e)) if !broken && e == docs[0].len() => {
                                while let J::Arr(mut v) = j {
                                    depth += 1;
                                    if v.len() != 1 {
                                        return Err(format!("array of {} at depth {depth}", v.len()));
                                    }
                                    j = v.pop().unwrap();
                                }
                                if depth == n && j == J::Num("7".into()) {
                                    return Ok(());
                                }
                                Err(format!("{n} nested arrays came back {depth} deep"))
                            }
                            g => Err(format!("{n} nested arrays (broken {broken}): ends at {:?}", g.map(|x| x.1).map_err(|x| x.1))),
                        }
                    }
                    1 => {
                        let docs = vec![format!("{}5{}", "(".repeat(n), ")".repeat(if broken { n - 1 } else { n }))];
                        match (&arith_run(&docs, false, sync)[0], broken) {
                            (Ok((s, e)), false) if s == "5" && *e == docs[0].len() => Ok(()),
                            (Err((_, 0)), true) => Ok(()),
                            (g, _) => Err(format!("{n} parentheses (broken {broken}) give {:?}", g.as_ref().map(|x| x.1))),
                        }
                    }
                    _ => {
                        let docs = vec![format!("{}{}", "1^".repeat(n), if broken { "" } else { "2" })];
                        let m = if broken { n - 1 } else { n };
                        let want = format!("{}{}{}", "(1^".repeat(m), if broken { 1 } else { 2 }, ")".repeat(m));
                        match &arith_run(&docs, false, sync)[0] {
                            Ok((s, e)) if *s == want && *e == docs[0].len() - broken as usize => Ok(()),
                            g => Err(format!("{n} powers give {:?}", g.as_ref().map(|x| x.1))),
                        }
                    }
                }
            })
        })
        .expect("harness: thread")
        .join()
        .expect("harness: deep thread");
    res??;
    o.events += n as u64;
    o.count("deep_nestings");
    o.max("deepest_nesting", n as u64);
    o.nontrivial(&format!("deep{n}{kind}{sync}{broken}"));
    Ok(())
}

fn case(r: &mut Rng, o: &mut Obs) -> Result<(), String> {
    if o.index % 4096 == 7 {
        return deep(r, o);
    }
    match r.below(8) {
        0 => json(r, o),
        1 => arithmetic(r, o),
        _ => random_grammar(r, o),
    }
}

fn main() {
    run(
        Plan {
            quick: 400_000,
            ..Plan::new("C18", "a random grammar with guarded self references, a batch of JSON-like documents or arithmetic expressions, printed from a value or mutated, or a deep nesting; non-trivial when the recursion was entered")
        },
        case,
    )
}
