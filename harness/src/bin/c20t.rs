//! Transcript of a generated workload in one build configuration (see
//! tools/c20.py).  `c20t SEED CASES OUT` writes one hash per case and a
//! summary; `c20t SEED CASE` prints one case and its transcript.
use nverif::ast::*;
use nverif::build::{build, rec_build};
use nverif::case::*;
use nverif::ctxs::HCtx;
use nverif::drv::{guarded, install_hook, case_rng};
use nverif::generate::*;
use nverif::on_kind;
use nverif::probe::*;
use nverif::sink;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU64, Ordering};

fn has_dync(a: &Ast) -> bool {
    let mut f = false;
    a.walk(&mut |a| f |= matches!(a.k, K::DynC(..)));
    f
}

fn parser<'a, C: HCtx<'a>>(c: &Case) -> Dyn<'a, C> {
    if has_self(&c.ast) {
        Box::new(rec_build::<C>(&c.ast, c.inp.len() as u8))
    } else {
        build::<C>(&c.ast)
    }
}

fn transcript<'a, C: HCtx<'a>>(ctx: &mut C, c: &Case, matching: bool, budget: u64, out: &mut String) {
    let p = parser::<C>(c);
    if matching {
        let r = guarded(|| {
            ctx.set_offset(c.start);
            mon_reset(budget);
            let r = ctx.try_mat(&p).map(|s| (s.beg, s.len));
            (r, ctx.offset())
        });
        let _ = writeln!(out, "match {r:?}");
    }
    let r = guarded(|| {
        ctx.set_offset(c.start);
        mon_reset(budget);
        let mut h = Rec::new(c.rej.clone());
        let r = ctor_with(ctx, &p, &mut h);
        (r, ctx.offset(), h.log)
    });
    let _ = writeln!(out, "construct {r:?}");
    let m = mon_take();
    let _ = writeln!(out, "{} entries and exits, nesting {}", m.events, m.max_depth);
}

fn case(seed: u64, i: u64) -> Option<(Case, String)> {
    let r = &mut case_rng("C20", seed, i);
    let rec = r.chance(1, 6);
    let focus = *r.pick(&[None, None, Some(Focus::Lists), Some(Focus::Tables), Some(Focus::Look), Some(Focus::Dyn)]);
    let w = Want { rej: r.chance(1, 3), try_map: true, dync: !rec && r.chance(1, 4), focus, ..Want::new(ALL) };
    let (mut c, g) = gen_case(r, &w);
    if rec {
        let mut n = 0;
        c.ast = unlock(&recursive(r, &g, &c.ast, true, 4, &mut n));
        if !terminates(&c.ast) {
            return None;
        }
        let mut depth = r.range(1, 6) as u32;
        while depth > 0 && size_unrolled(&c.ast, depth) > 500 {
            depth -= 1;
        }
        let un = unroll(&c.ast, &c.ast, depth);
        let skip = if c.kind.policy() { Some(&c.skip) } else { None };
        let (inp, start) = gen_input(r, &g, &un, skip);
        c.inp = inp;
        c.start = start;
    }
    let mut steps = 0;
    let matching = !has_dync(&c.ast);
    for m in [true, false] {
        let mut md = c.model();
        if has_self(&c.ast) {
            md.rec = Some(&c.ast);
        }
        if !m {
            let _ = md.k(&c.ast, c.start);
        } else if matching {
            let _ = md.tm(&c.ast, c.start, 0);
        }
        if md.over || md.steps > 20_000 {
            return None;
        }
        steps = md.steps.max(steps);
    }
    let mut out = String::new();
    on_kind!(&c, |ctx| transcript(ctx, &c, matching, budget_for(steps), &mut out));
    Some((c, out))
}

fn main() {
    install_hook();
    sink::install();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let seed: u64 = a[0].parse().expect("seed");
    let n: u64 = a[1].parse().expect("cases");
    if a.len() == 2 {
        match case(seed, n) {
            Some((c, t)) => println!("{}\n{t}", c.show()),
            None => println!("not run"),
        }
        return;
    }
    let next = AtomicU64::new(0);
    let mut hashes = vec![0u64; n as usize];
    let slots: Vec<AtomicU64> = (0..n).map(|_| AtomicU64::new(0)).collect();
    let (moved, events) = (AtomicU64::new(0), AtomicU64::new(0));
    std::thread::scope(|s| {
        for _ in 0..8 {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(64, Ordering::Relaxed);
                    if i >= n {
                        return;
                    }
                    for i in i..(i + 64).min(n) {
                        if let Some((_, t)) = case(seed, i) {
                            let h = t.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
                            slots[i as usize].store(h | 1, Ordering::Relaxed);
                            let m = mon_take();
                            events.fetch_add(m.events, Ordering::Relaxed);
                            if m.nonempty_oks > 0 || m.rollbacks > 0 {
                                moved.fetch_add(1, Ordering::Relaxed);
                            }
                        }
                    }
                })
                .expect("harness: thread");
        }
    });
    for (h, s) in hashes.iter_mut().zip(&slots) {
        *h = s.load(Ordering::Relaxed);
    }
    let bytes: Vec<u8> = hashes.iter().flat_map(|h| h.to_le_bytes()).collect();
    std::fs::write(&a[2], bytes).expect("harness: output");
    println!(
        "{{\"cases\": {}, \"nontrivial\": {}, \"events\": {}, \"records\": {}, \"record_bytes\": {}, \"record_kinds\": {}}}",
        hashes.iter().filter(|h| **h != 0).count(),
        moved.load(Ordering::Relaxed),
        events.load(Ordering::Relaxed),
        sink::RECORDS.load(Ordering::Relaxed),
        sink::BYTES.load(Ordering::Relaxed),
        sink::heads()
    );
}
