//! C11: searching finds exactly the leftmost, non-overlapping, non-empty matches.
use neure::ctx::{CharsCtx, MatchMulti};
use neure::err::Error;
use neure::regex::Regex;
use neure::span::Span;
use nverif::ast::*;
use nverif::build::build;
use nverif::case::*;
use nverif::ctxs::HCtx;
use nverif::drv::{guarded, run, Obs, Plan};
use nverif::generate::*;
use nverif::on_kind;
use nverif::probe::*;
use nverif::rng::Rng;

#[derive(Clone, Debug)]
enum O1 {
    Set(usize),
    Find,
    FindOrig,
    All(usize),
    AllOrig(usize),
    Seq(usize),
    /// rejecting handler
    FindWith(Rej),
    AllWith(Rej, usize),
    /// a processor that advances on its own and shifts what it reports
    Proc(usize, Rej, usize),
}

type Log = Vec<(usize, usize)>;

/// what a search from `at` may return, by trying the pattern at every place
struct Table {
    /// by start offset: the non-empty match found there
    at: Vec<Option<(usize, usize, usize)>>,
    /// the outcome of matching at each offset: span and position, or a failure
    any: Vec<Option<(usize, usize, usize)>>,
    next: Vec<usize>,
}

fn search(t: &Table, from: usize, len: usize, rej: &Rej) -> (Option<(usize, usize)>, usize) {
    let mut p = from;
    while p < len {
        match t.at[p] {
            Some((b, l, e)) => {
                p = e;
                if !rej.rejects(b, l) {
                    return (Some((b, l)), e);
                }
            }
            None => p = t.next[p],
        }
    }
    (None, p)
}

fn apply<'a, C: HCtx<'a>>(ctx: &mut C, c: &Case, ops: &[O1], t: &Table, o: &mut Obs) -> Result<bool, String> {
    let p = build::<C>(&c.ast);
    let pat = |x: &mut C| -> Result<Span, Error> { p.try_parse(x) };
    let len = c.inp.len();
    let mut pos = c.start;
    ctx.set_offset(pos);
    let mut found = 0;
    let sp = |s: Span| (s.beg, s.len);
    for op in ops {
        let from = pos;
        let (mut got, mut want): (Log, Log) = (vec![], vec![]);
        let none = Rej::None;
        let mut texts: Vec<Vec<u8>> = vec![];
        let mut iter_many = |rej: &Rej, n: usize, pos: &mut usize, want: &mut Log| {
            for _ in 0..n {
                let (r, e) = search(t, *pos, len, rej);
                *pos = e;
                match r {
                    Some(x) => want.push(x),
                    None => break,
                }
            }
        };
        match op {
            O1::Set(x) => {
                ctx.set_offset(*x);
                pos = *x;
            }
            O1::Find => {
                got.extend(ctx.find::<Span>(&pat).map(sp));
                iter_many(&none, 1, &mut pos, &mut want);
            }
            O1::FindOrig => {
                let x = ctx.find_with(&pat, |x: &mut C, v: Result<Span, Error>| default_proc(x, v), |x: &C, s: &Span| {
                    x.bytes_of(s.beg, s.len).map(|b| (sp(*s), b)).ok_or(Error::OutOfBound)
                });
                if let Some((s, b)) = x {
                    got.push(s);
                    texts.push(b);
                }
                iter_many(&none, 1, &mut pos, &mut want);
            }
            O1::All(n) => {
                got.extend(ctx.find_all::<Span>(&pat).take(*n).map(sp));
                iter_many(&none, *n, &mut pos, &mut want);
            }
            O1::AllOrig(n) => {
                let it = ctx.find_all_with(&pat, |x: &mut C, v: Result<Span, Error>| default_proc(x, v), |x: &C, s: &Span| {
                    x.bytes_of(s.beg, s.len).map(|b| (sp(*s), b)).ok_or(Error::OutOfBound)
                });
                for (s, b) in it.take(*n) {
                    got.push(s);
                    texts.push(b);
                }
                iter_many(&none, *n, &mut pos, &mut want);
            }
            O1::Seq(n) => {
                got.extend(ctx.match_seq::<Span>(&pat).take(*n).map(sp));
                for _ in 0..*n {
                    if pos >= len {
                        break;
                    }
                    match t.at[pos] {
                        Some((b, l, e)) => {
                            want.push((b, l));
                            pos = e;
                        }
                        None => {
                            pos = len;
                            break;
                        }
                    }
                }
            }
            O1::FindWith(rej) => {
                let x = ctx.find_with(
                    &pat,
                    |x: &mut C, v: Result<Span, Error>| default_proc(x, v),
                    |_: &C, s: &Span| if rej.rejects(s.beg, s.len) { Err(e_handler()) } else { Ok(sp(*s)) },
                );
                got.extend(x);
                iter_many(rej, 1, &mut pos, &mut want);
            }
            O1::AllWith(rej, n) => {
                let mut it = ctx.find_all_with(
                    &pat,
                    |x: &mut C, v: Result<Span, Error>| default_proc(x, v),
                    |_: &C, s: &Span| if rej.rejects(s.beg, s.len) { Err(e_handler()) } else { Ok(sp(*s)) },
                );
                for _ in 0..*n {
                    match it.next() {
                        Some(x) => got.push(x),
                        None => {
                            if it.next().is_some() {
                                return Err(format!("{op:?}: the iterator goes on after its end"));
                            }
                            break;
                        }
                    }
                }
                drop(it);
                iter_many(rej, *n, &mut pos, &mut want);
            }
            O1::Proc(step, rej, n) => {
                // every consultation of the processor is recorded
                let mut calls: Vec<(usize, Option<(usize, usize)>)> = vec![];
                let mut asked: Log = vec![];
                {
                    let it = ctx.find_all_with(
                        &pat,
                        |x: &mut C, v: Result<Span, Error>| {
                            calls.push((x.offset(), v.ok().map(sp)));
                            match v {
                                Ok(s) if s.len > 0 => Some(Span::new(s.beg, s.len - 1)),
                                _ => {
                                    x.inc(*step);
                                    None
                                }
                            }
                        },
                        |_: &C, s: &Span| {
                            asked.push(sp(*s));
                            if rej.rejects(s.beg, s.len) { Err(e_handler()) } else { Ok(sp(*s)) }
                        },
                    );
                    got.extend(it.take(*n));
                }
                let (mut wcalls, mut wasked) = (vec![], vec![]);
                'all: for _ in 0..*n {
                    loop {
                        if pos >= len {
                            break 'all;
                        }
                        match t.any[pos] {
                            Some((b, l, e)) => {
                                wcalls.push((e, Some((b, l))));
                                if l > 0 {
                                    pos = e;
                                    wasked.push((b, l - 1));
                                    if !rej.rejects(b, l - 1) {
                                        want.push((b, l - 1));
                                        break;
                                    }
                                } else {
                                    pos = e + *step;
                                }
                            }
                            None => {
                                wcalls.push((pos, None));
                                pos += *step;
                            }
                        }
                    }
                }
                if calls != wcalls || asked != wasked {
                    return Err(format!("{op:?} from {from}: the processor was consulted with {calls:?}, expected {wcalls:?}; the handler with {asked:?}, expected {wasked:?}"));
                }
            }
        }
        if got != want {
            return Err(format!("{op:?} from {from} gives {got:?}, trying every place gives {want:?}"));
        }
        if ctx.offset() != pos {
            return Err(format!("{op:?} from {from} gives {got:?} and leaves the position at {}, expected {pos}", ctx.offset()));
        }
        for (g, b) in got.iter().zip(&texts) {
            if c.inp.get(g.0..g.0 + g.1) != Some(&b[..]) {
                return Err(format!("{op:?} extracts {b:?} for {g:?}"));
            }
        }
        found += got.len();
        o.add("matches_found", got.len() as u64);
        if pos >= len {
            o.count("searches_reaching_the_end");
        }
    }
    Ok(found > 0)
}

fn default_proc<'a, C: HCtx<'a>>(ctx: &mut C, v: Result<Span, Error>) -> Option<Span> {
    match v {
        Ok(s) if s.len > 0 => Some(s),
        _ => {
            let n = ctx.next_item().map_or(1, |x| x.1);
            ctx.inc(n);
            None
        }
    }
}

fn check(c: &Case, o: &mut Obs, seed: u64) -> Result<bool, String> {
    let mut r = Rng::new(seed);
    let len = c.inp.len();
    let bd = bounds(&c.inp, c.kind.text());
    let mut t = Table { at: vec![None; len + 1], any: vec![None; len + 1], next: vec![len; len + 1] };
    for w in bd.windows(2) {
        t.next[w[0]] = w[1];
    }
    let mut steps = 0;
    for &p in &bd {
        let mut m = c.model();
        let w = m.tm(&c.ast, p, 0);
        if m.over {
            return Ok(false);
        }
        steps += m.steps;
        if let Ok(s) = w {
            t.any[p] = Some((s.beg, s.end - s.beg, s.end));
            if s.end > s.beg {
                t.at[p] = Some((s.beg, s.end - s.beg, s.end));
            } else if s.end > p {
                // a skip policy moved over input, the match itself is empty
                // and the search goes on behind it
                o.count("empty_match_behind_skipped_text");
            }
        }
    }
    // searching goes on one step behind the end of an empty match
    let skips = t.any.iter().enumerate().any(|(p, x)| matches!(x, Some((b, 0, e)) if *e > p && *b > p));
    if skips {
        return Ok(false);
    }
    let n = r.range(1, 5);
    let mut ops = vec![];
    for i in 0..n {
        let k = *r.pick(&[1, 2, 3, 100, 100]);
        ops.push(match r.below(10) {
            0 if i > 0 => O1::Set(*r.pick(&bd)),
            0 | 1 => O1::Find,
            2 => O1::FindOrig,
            3 | 4 => O1::All(k),
            5 => O1::AllOrig(k),
            6 => O1::Seq(k),
            7 => O1::FindWith(gen_rej(&mut r)),
            8 => O1::AllWith(gen_rej(&mut r), k),
            9 if c.inp.is_ascii() || !c.kind.text() => O1::Proc(r.range(1, 3), gen_rej(&mut r), k),
            _ => O1::Find,
        });
    }
    o.note(|| format!("{}\nhistory {ops:?}", c.show()));
    let budget = 40 * steps * (ops.len() as u64 + 1) + 100_000;
    let ret = guarded(|| {
        mon_reset(budget);
        on_kind!(c, |ctx| apply(ctx, c, &ops, &t, o))
    })??;
    let m = mon_take();
    observe(o, c, &m);
    if let Some(v) = m.span_viol.or(m.restore_viol) {
        return Err(v);
    }
    Ok(ret)
}

/// text search on a plain literal: the standard library is the oracle
fn literal(r: &mut Rng, o: &mut Obs) -> Result<(), String> {
    let alpha: &[char] = if r.flip() { &['a', 'b'] } else { &['a', 'é', '\u{10ffff}'] };
    let mk = |r: &mut Rng, n: usize| (0..n).map(|_| *r.pick(alpha)).collect::<String>();
    let n = r.range(0, 40);
    let mut hay = mk(r, n);
    let k = r.range(1, 3);
    let mut lit = mk(r, k);
    if r.chance(1, 60) {
        // far apart, after much that does not match
        let n = gen_huge(r, 6, 20_000).unwrap_or(*r.pick(COUNTS));
        let fill = *r.pick(&['x', 'ü', '日', '😀']);
        hay.extend(std::iter::repeat_n(fill, n));
        hay.push_str(&lit);
        if r.flip() {
            hay.extend(std::iter::repeat_n(fill, r.below(n)));
        }
        hay.push_str(&mk(r, 5));
    } else if r.chance(1, 60) {
        // many in a row
        let n = gen_huge(r, 6, 20_000).unwrap_or(*r.pick(COUNTS));
        hay = lit.repeat(n) + &hay;
    } else if r.chance(1, 60) {
        // a long one
        let n = *r.pick(COUNTS);
        lit = mk(r, n);
        let all: Vec<char> = lit.chars().collect();
        let cut: String = all[..r.below(n)].iter().collect();
        hay = format!("{hay}{cut}{lit}{cut}");
    }
    o.note(|| format!("find {lit:?} in {hay:?}"));
    let want: Vec<(usize, &str)> = hay.match_indices(&lit).collect();
    let mut c = CharsCtx::new(&hay);
    let spans: Vec<(usize, usize)> = c.find_all::<Span>(lit.as_str()).map(|s| (s.beg, s.len)).collect();
    let mut c2 = CharsCtx::new(&hay);
    let strs: Vec<&str> = c2.find_all::<&str>(&lit).collect();
    let mut c3 = CharsCtx::new(&hay);
    let first: Option<&str> = c3.find(lit.as_str());
    let w: Vec<(usize, usize)> = want.iter().map(|x| (x.0, x.1.len())).collect();
    let ws: Vec<&str> = want.iter().map(|x| x.1).collect();
    if spans != w || strs != ws || first != ws.first().copied() {
        return Err(format!("find_all of {lit:?} in {hay:?} gives {spans:?} {strs:?} {first:?}, match_indices {want:?}"));
    }
    let end = if want.is_empty() { hay.len() } else { w[0].0 + w[0].1 };
    if c.offset() != hay.len() || c3.offset() != end {
        return Err(format!("positions after searching {lit:?} in {hay:?}: {} {}", c.offset(), c3.offset()));
    }
    // a contiguous run
    let mut c4 = CharsCtx::new(&hay);
    let run: usize = c4.match_seq::<&str>(lit.as_str()).count();
    let mut e = 0;
    while hay[e..].starts_with(&lit) {
        e += lit.len();
    }
    if run * lit.len() != e || c4.offset() != hay.len() {
        return Err(format!("match_seq of {lit:?} in {hay:?} gives {run} matches, position {}", c4.offset()));
    }
    o.add("literal_matches", w.len() as u64);
    if !w.is_empty() {
        o.nontrivial(&(hay, lit));
    }
    Ok(())
}

fn case(r: &mut Rng, o: &mut Obs) -> Result<(), String> {
    if r.chance(1, 8) {
        return literal(r, o);
    }
    let w = Want { depth: 3, dync: false, ..Want::new(ALL) };
    let (mut c, g) = gen_case(r, &w);
    // several samples of the pattern with something in between
    let ws = if c.kind.policy() { Some(c.skip.clone()) } else { None };
    for _ in 0..r.below(4) {
        let (more, _) = gen_input(r, &g, &c.ast, ws.as_ref());
        if r.flip() {
            let junk = random_input(r, &g, 3);
            c.inp.extend_from_slice(&junk);
        }
        c.inp.extend_from_slice(&more);
    }
    if r.chance(1, 150) && !ws.is_some() {
        // a long way to the last sample
        let n = *r.pick(COUNTS);
        let junk: String = (0..n).map(|_| *r.pick(&['\u{1}', '~'])).collect();
        let (more, _) = gen_input(r, &g, &c.ast, None);
        c.inp.truncate(30);
        while c.kind.text() && std::str::from_utf8(&c.inp).is_err() {
            c.inp.pop();
        }
        c.inp.extend_from_slice(junk.as_bytes());
        c.inp.extend_from_slice(&more);
        c.inp.truncate(n + 60);
    } else {
        c.inp.truncate(if r.chance(1, 40) { 400 } else { 60 });
    }
    while c.kind.text() && std::str::from_utf8(&c.inp).is_err() {
        c.inp.pop();
    }
    if r.flip() || c.start > c.inp.len() {
        c.start = 0;
    }
    // a search that begins far into the input
    if r.chance(1, 500) {
        // (searching from the beginning again may take a time quadratic in this)
        let n = if r.chance(1, 60) { 4100 } else { *r.pick(&[255, 256, 300]) };
        c.inp.splice(0..0, std::iter::repeat_n(b'a', n));
        c.start += n;
    }
    let seed = r.next();
    verdict(o, c, &|c, o| check(c, o, seed))
}

fn main() {
    run(
        Plan {
            quick: 1_000_000,
            ..Plan::new("C11", "a random pattern and a history of searches (find, find_all, match_seq, the _with forms with rejecting handlers and own processors, repositioning) over several samples of its language; non-trivial when at least one match was found; judged against trying the reference at every place")
        },
        case,
    )
}
