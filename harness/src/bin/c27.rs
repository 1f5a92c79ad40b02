//! C27: every constructed value is dropped exactly once, and repeated parses
//! accumulate no memory.  Values carry a token in a ledger, an allocator
//! counts the bytes this thread holds.
use neure::ctor::{Ctor, CtorOps, Handler};
use neure::ctx::{CharsCtx, Context};
use neure::err::Error;
use neure::regex;
use neure::span::Span;
use nverif::ast::*;
use nverif::build::{build as plain, rec_build};
use nverif::case::*;
use nverif::ctxs::HCtx;
use nverif::drv::{guarded, injected, run, Obs, Plan};
use nverif::generate::*;
use nverif::on_kind;
use nverif::probe::*;
use nverif::rng::Rng;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

struct Counting;
thread_local! {
    static NET: Cell<isize> = const { Cell::new(0) };
}
fn net() -> isize {
    NET.with(|n| n.get())
}
fn add(n: isize) {
    let _ = NET.try_with(|c| c.set(c.get() + n));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as isize - l.size() as isize);
        unsafe { System.realloc(p, l, n) }
    }
}
#[global_allocator]
static A: Counting = Counting;

// ------------------------------------------------------------------- ledger

#[derive(Clone, Copy, Default)]
struct Count {
    live: usize,
    made: u64,
    dropped: u64,
}
fn ledger() -> Result<Count, String> {
    LEDGER.with(|l| {
        let l = l.borrow();
        match &l.viol {
            Some(v) => Err(v.clone()),
            None => Ok(Count { live: l.live, made: l.made, dropped: l.dropped }),
        }
    })
}

/// the tokens a result holds
trait Held {
    fn held(&self, out: &mut Vec<usize>);
}
impl Held for Val {
    fn held(&self, out: &mut Vec<usize>) {
        let mut v = vec![];
        self.leaves(&mut v);
        out.extend(v.iter().map(|x| x.0 as usize));
    }
}
impl Held for Token {
    fn held(&self, out: &mut Vec<usize>) {
        out.push(self.id());
    }
}
impl<T: Held> Held for Vec<T> {
    fn held(&self, out: &mut Vec<usize>) {
        self.iter().for_each(|x| x.held(out))
    }
}
impl<T: Held> Held for Option<T> {
    fn held(&self, out: &mut Vec<usize>) {
        self.iter().for_each(|x| x.held(out))
    }
}
impl<T: Held, const N: usize> Held for [T; N] {
    fn held(&self, out: &mut Vec<usize>) {
        self.iter().for_each(|x| x.held(out))
    }
}
impl<T: Held, U: Held> Held for (T, U) {
    fn held(&self, out: &mut Vec<usize>) {
        self.0.held(out);
        self.1.held(out);
    }
}

/// all that must be live: what `own` says lives outside of the result, and the result
fn judge<T: Held>(what: &str, res: &Result<T, Error>, own: usize) -> Result<(), String> {
    let c = ledger().map_err(|e| format!("{what}: {e}"))?;
    let mut ids = vec![];
    if let Ok(v) = res {
        v.held(&mut ids);
    }
    let n = ids.len();
    LEDGER.with(|l| {
        let l = l.borrow();
        match ids.iter().find(|i| l.state.get(**i) != Some(&1)) {
            Some(i) => Err(format!("{what}: the result holds value {i}, which has been dropped")),
            None => Ok(()),
        }
    })?;
    ids.sort();
    ids.dedup();
    if ids.len() != n {
        return Err(format!("{what}: the result holds {n} values, only {} of them different", ids.len()));
    }
    if c.live != n + own {
        return Err(format!("{what}: the result holds {n} values, but {} are live when the parse has returned {}", c.live - own.min(c.live), if res.is_ok() { "Ok" } else { "Err" }));
    }
    Ok(())
}

fn settled(what: &str, own: usize) -> Result<(), String> {
    let c = ledger().map_err(|e| format!("{what}: {e}"))?;
    if c.live != own {
        return Err(format!("{what}: {} values are still live", c.live as isize - own as isize));
    }
    Ok(())
}

struct Runs {
    steps: u64,
    calls: u64,
    ok: bool,
    made: u64,
    held: usize,
}

/// `parse` enters a construction; everything it makes must be accounted for
fn life<T: Held>(own: usize, budget: u64, rounds: usize, mut parse: impl FnMut() -> Result<T, Error>) -> Result<Runs, String> {
    // one parse, watched
    set_fuse(1 << 40);
    mon_reset(budget);
    let before = ledger()?;
    let res = guarded(&mut parse)?;
    let calls = (1 << 40) - fuse_left();
    set_fuse(0);
    judge("parse", &res, own)?;
    let made = ledger()?.made - before.made;
    let mut ids = vec![];
    if let Ok(v) = &res {
        v.held(&mut ids);
    }
    let out = Runs { steps: mon_take().events, calls, ok: res.is_ok(), made, held: ids.len() };
    drop(res);
    settled("after dropping the result", own)?;
    // the same again, with the bytes counted; the ledger does not grow meanwhile
    LEDGER.with(|l| l.borrow_mut().state.reserve((made as usize + 8) * (rounds + 8)));
    let mut grown = (0, 0);
    for i in 0..rounds {
        let a = net();
        mon_reset(budget);
        let r = guarded(&mut parse)?;
        let ok = r.is_ok();
        drop(r);
        let d = net() - a;
        if ok != out.ok {
            return Err("the same parse gives another outcome when repeated".into());
        }
        // the first rounds may still grow what the monitors keep
        if i >= 2 && d > 0 {
            grown = (grown.0 + d, grown.1 + 1);
        }
    }
    settled("after repeated parses", own)?;
    if grown.0 > 0 {
        return Err(format!("{} repeated parses with one parser, results dropped, keep {} more bytes ({} of them grew)", rounds - 2, grown.0, grown.1));
    }
    Ok(out)
}

/// a fault at the n-th call into user code
fn fault<T: Held>(own: usize, budget: u64, n: u64, parse: impl FnOnce() -> Result<T, Error>) -> Result<bool, String> {
    mon_reset(budget);
    set_fuse(n);
    let r = injected(parse);
    set_fuse(0);
    match r? {
        None => {
            settled(&format!("after a panic in call {n} of user code"), own)?;
            Ok(true)
        }
        Some(r) => {
            judge("parse", &r, own)?;
            Ok(false)
        }
    }
}

fn has_dync(a: &Ast) -> bool {
    let mut f = false;
    a.walk(&mut |a| f |= matches!(a.k, K::DynC(..)));
    f
}

fn build<'a, C: HCtx<'a>>(c: &Case) -> Dyn<'a, C> {
    if has_self(&c.ast) {
        Box::new(rec_build::<C>(&c.ast, c.inp.len() as u8))
    } else {
        plain::<C>(&c.ast)
    }
}

fn on_ctx<'a, C: HCtx<'a>>(ctx: &mut C, c: &Case, o: &mut Obs, fuses: u64, budget: u64) -> Result<bool, String> {
    ledger_reset();
    let rounds = if o.index % 8 == 0 { 40 } else { 5 };
    let out = {
        let p = build::<C>(c);
        life(0, budget, rounds, || {
            ctx.set_offset(c.start);
            let mut h = Rec::live(c.rej.clone());
            ctor_with(ctx, &p, &mut h)
        })?
    };
    o.events += out.made * (rounds as u64 + 1) + out.steps;
    // plain matching keeps nothing either
    if o.index % 4 == 0 && !has_dync(&c.ast) {
        let mut m = c.model();
        if has_self(&c.ast) {
            m.rec = Some(&c.ast);
        }
        let _ = m.tm(&c.ast, c.start, 0);
        if !m.over {
            let p = build::<C>(c);
            let mut grown = 0;
            for i in 0..rounds {
                let a = net();
                mon_reset(budget_for(m.steps));
                guarded(|| {
                    ctx.set_offset(c.start);
                    let _ = ctx.try_mat(&p);
                })?;
                if i >= 2 {
                    grown += (net() - a).max(0);
                }
            }
            if grown > 0 {
                return Err(format!("{} repeated matches with one parser keep {grown} more bytes", rounds - 2));
            }
            settled("after matching", 0)?;
        }
    }
    let mut panics = 0;
    for i in 0..out.calls.min(4) {
        let n = 1 + (fuses >> (i * 8)) % out.calls;
        let mut grown = 0;
        let twice = if o.index % 8 == 0 && i == 0 { 4 } else { 1 };
        for j in 0..twice {
            let a = net();
            let p = build::<C>(c);
            let hit = fault(0, budget, n, || {
                ctx.set_offset(c.start);
                let mut h = Rec::live(c.rej.clone());
                ctor_with(ctx, &p, &mut h)
            })?;
            drop(p);
            panics += hit as u64;
            if j >= 2 {
                grown += (net() - a).max(0);
            }
        }
        if grown > 0 {
            return Err(format!("each parse that panics in call {n} of user code keeps memory ({grown} bytes in 2 rounds)"));
        }
    }
    if o.index % 64 == 0 {
        o.add("sampled_1_in_64:values_made", out.made);
        o.add("sampled_1_in_64:values_returned", out.held as u64);
        o.add("sampled_1_in_64:values_dropped_by_the_library", out.made - out.held as u64);
        o.add("sampled_1_in_64:parses_cut_by_a_panic", panics);
        o.max("values_of_one_parse", out.made);
        o.count(if out.ok { "sampled_1_in_64:succeeded" } else { "sampled_1_in_64:failed" });
        c.ast.walk(&mut |a| o.count(&format!("sampled_1_in_64:node {}", a.name())));
    }
    Ok(out.made > 0 && (panics > 0 || out.made > out.held as u64))
}

fn check(c: &Case, fuses: u64, o: &mut Obs) -> Result<bool, String> {
    let mut m = c.model();
    if has_self(&c.ast) {
        m.rec = Some(&c.ast);
    }
    let _ = m.k(&c.ast, c.start);
    if m.over {
        return Ok(false);
    }
    let budget = budget_for(m.steps);
    on_kind!(c, |ctx| on_ctx(ctx, c, o, fuses, budget))
}

// -------------------------------------------------------- typed combinations

/// hands out a token, refusing some spans
#[derive(Clone)]
struct Th(Rej);
impl<'a, C: Context<'a>> Handler<C> for Th {
    type Out = Token;
    type Error = Error;
    fn invoke(&mut self, _: &C, s: &Span) -> Result<Token, Error> {
        user_call();
        if self.0.rejects(s.beg, s.len) {
            return Err(e_handler());
        }
        Ok(Token::new())
    }
}

/// runs one typed parser over one input, undisturbed and with faults
macro_rules! typed {
    ($o:expr, $fuses:expr, $name:expr, $inp:expr, $rej:expr, $own:expr, $mk:expr) => {{
        ledger_reset();
        let (name, rej): (String, Rej) = ($name, $rej.clone());
        $o.note(|| format!("{name} over {:?} handler {:?}", $inp, rej));
        let rounds = if $o.index % 8 == 0 { 40 } else { 5 };
        let mk = $mk;
        let own: usize = $own;
        let fail = |e: String| format!("{name} over {:?} handler {:?}: {e}", $inp, rej);
        let out = {
            let p = mk();
            let r = life(own, 0, rounds, || {
                let mut ctx = CharsCtx::new($inp);
                p.construct(&mut ctx, &mut Th(rej.clone()))
            });
            r.map_err(&fail)?
        };
        settled("after dropping the parser", 0).map_err(&fail)?;
        let mut hit = false;
        for i in 0..out.calls.min(3) {
            let n = 1 + ($fuses >> (i * 8)) % out.calls;
            let p = mk();
            hit |= fault(own, 0, n, || {
                let mut ctx = CharsCtx::new($inp);
                p.construct(&mut ctx, &mut Th(rej.clone()))
            })
            .map_err(&fail)?;
            drop(p);
            settled("after a panic and dropping the parser", 0).map_err(&fail)?;
        }
        $o.events += out.made * (rounds as u64 + 1);
        if $o.index % 64 == 0 {
            $o.count(&format!("sampled_1_in_64:typed {}", name.split('[').next().unwrap()));
        }
        out.made > 0 && (hit || out.made > out.held as u64)
    }};
}

type Ch<'a> = CharsCtx<'a>;

fn atom<'a>(s: &'static str) -> Box<dyn Ctor<Ch<'a>, Token, Th> + 'a> {
    Box::new(CtorOps::<Ch>::pat(regex::literal::<str>(s)))
}

/// patterns with attached values, which the result gets a copy of
fn pairs(r: &mut Rng, o: &mut Obs) -> Result<bool, String> {
    const LITS: &[&str] = &["", "a", "ab", "abc", "b", "ba", "c"];
    let pick: [&'static str; 3] = [*r.pick(LITS), *r.pick(LITS), *r.pick(LITS)];
    let inp: String = (0..r.below(5)).map(|_| *r.pick(&['a', 'b', 'c'])).collect();
    let inp = inp.as_str();
    let rej = if r.flip() { gen_rej(r) } else { Rej::None };
    let fuses = r.next();
    let entry = move |i: usize| (atom(pick[i]), Token::new());
    let nt = match r.below(8) {
        0 => typed!(o, fuses, format!("pair_vector{pick:?}"), inp, rej, 3, || regex::pair_vector((0..3).map(entry))),
        1 => typed!(o, fuses, format!("pair_vector_ltm{pick:?}"), inp, rej, 3, || regex::pair_vector_ltm((0..3).map(entry))),
        2 => typed!(o, fuses, format!("pair_array{pick:?}"), inp, rej, 3, || regex::pair_array([entry(0), entry(1), entry(2)])),
        3 => typed!(o, fuses, format!("pair_array_ltm{pick:?}"), inp, rej, 3, || regex::pair_array_ltm([entry(0), entry(1), entry(2)])),
        4 => typed!(o, fuses, format!("repeat of pair_vector_ltm{pick:?}"), inp, rej, 3, || {
            let t = regex::pair_vector_ltm((0..3).map(entry));
            CtorOps::<Ch>::repeat(t, 1..4)
        }),
        5 => typed!(o, fuses, format!("fixed list of pair_array_ltm{pick:?}"), inp, rej, 3, || {
            let t = regex::pair_array_ltm([entry(0), entry(1), entry(2)]);
            CtorOps::<Ch>::repeat2::<0, 3>(t)
        }),
        6 => typed!(o, fuses, format!("pair_vector{pick:?} followed by"), inp, rej, 3, || {
            let t = regex::pair_vector((0..3).map(entry));
            CtorOps::<Ch>::then(t, atom(pick[0]))
        }),
        _ => typed!(o, fuses, format!("pair_vector{pick:?} or longer"), inp, rej, 6, || {
            let t = regex::pair_vector((0..3).map(entry));
            CtorOps::<Ch>::longest(t, regex::pair_array_ltm([entry(2), entry(1), entry(0)]))
        }),
    };
    Ok(nt)
}

fn case(r: &mut Rng, o: &mut Obs) -> Result<(), String> {
    if r.chance(1, 6) {
        if pairs(r, o)? {
            let i = o.index;
            o.nontrivial(&format!("pairs {i}"));
        }
        return Ok(());
    }
    let focus = *r.pick(&[None, None, Some(Focus::Lists), Some(Focus::Lists), Some(Focus::Tables), Some(Focus::Dyn)]);
    let rec = r.chance(1, 5);
    let w = Want { rej: true, try_map: true, dync: !rec && r.chance(1, 3), focus, ..Want::new(ALL) };
    let (mut c, g) = gen_case(r, &w);
    let fuses = r.next();
    if rec {
        let mut n = 0;
        c.ast = unlock(&recursive(r, &g, &c.ast, true, 4, &mut n));
        if !terminates(&c.ast) {
            return Ok(());
        }
        let mut depth = r.range(1, 6) as u32;
        while depth > 0 && size_unrolled(&c.ast, depth) > 1_000 {
            depth -= 1;
        }
        let un = unroll(&c.ast, &c.ast, depth);
        let skip = if c.kind.policy() { Some(&c.skip) } else { None };
        let (inp, start) = gen_input(r, &g, &un, skip);
        c.inp = inp;
        c.start = start;
    }
    verdict(o, c, &|c, o| check(c, fuses, o))
}

fn main() {
    run(
        Plan {
            quick: 1_000_000,
            ..Plan::new("C27", "a random grammar whose values carry ledger tokens, and tables with token values attached, parsed once with the ledger judged, then repeatedly with the thread's net allocation counted, then with a panic injected at random calls into user code; non-trivial when values were made and the library itself had to drop some")
        },
        case,
    )
}
