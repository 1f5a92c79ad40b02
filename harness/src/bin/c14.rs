//! C14: span storage is a table of ordered lists; its iterators count right.
use neure::ctx::{BytesCtx, CharsCtx, Context};
use neure::iter::{BytesIndices, IndexBySpan, IteratorByOptionSpan, IteratorBySpan, OptionSpanIterator, SpanIterator};
use neure::regex;
use neure::span::{ArrayStorer, Span, VecStorer};
use nverif::drv::{run, Obs, Plan};
use nverif::generate::COUNTS;
use nverif::rng::Rng;
use std::fmt::Debug;

type R = Result<(), String>;

/// Consumes an iterator in a random way; every report of what remains must be
/// right (exactly, or as bounds), also after the end and for clones.
fn drain<T, I>(r: &mut Rng, what: &str, mut it: I, want: &[T], exact: Option<fn(&I) -> usize>, o: &mut Obs) -> R
where
    T: PartialEq + Debug + Clone,
    I: Iterator<Item = T> + Clone,
{
    let mut at = 0;
    let mut over = 0;
    loop {
        let left = want.len() - at;
        let (lo, hi) = it.size_hint();
        if lo > left || hi.is_some_and(|h| h < left) {
            return Err(format!("{what}: after {at} of {} items the size hint is ({lo}, {hi:?})", want.len()));
        }
        if let Some(f) = exact {
            if f(&it) != left || (lo, hi) != (left, Some(left)) {
                return Err(format!("{what}: after {at} of {} items it reports {} left, hint ({lo}, {hi:?})", want.len(), f(&it)));
            }
        }
        o.events += 1;
        if r.chance(1, 4) {
            let rest: Vec<T> = it.clone().collect();
            if rest != want[at..] {
                return Err(format!("{what}: a clone taken after {at} items yields {rest:?}, expected {:?}", &want[at..]));
            }
        }
        if r.chance(1, 10) {
            let n = r.below(4);
            let x = it.nth(n);
            let w = want.get(at + n).cloned();
            if x != w {
                return Err(format!("{what}: nth({n}) after {at} items gives {x:?}, expected {w:?}"));
            }
            at = (at + n + 1).min(want.len());
            continue;
        }
        if at >= want.len() {
            over += 1;
            if over > 3 {
                return Ok(());
            }
        }
        let x = it.next();
        if x.as_ref() != want.get(at) {
            return Err(format!("{what}: item {at} is {x:?}, expected {:?}", want.get(at)));
        }
        at = (at + 1).min(want.len());
    }
}

/// the slices of the live spans, in order
fn pieces<'t>(text: &'t str, m: &[Span]) -> Vec<&'t str> {
    m.iter().map(|s| &text[s.beg..s.beg + s.len]).collect()
}

fn span_in(r: &mut Rng, text: &str) -> Span {
    let b: Vec<usize> = text.char_indices().map(|x| x.0).chain([text.len()]).collect();
    let (i, j) = (r.below(b.len()), r.below(b.len()));
    let (i, j) = (i.min(j), i.max(j));
    Span::new(b[i], b[j] - b[i])
}

fn text(r: &mut Rng) -> String {
    let n = r.range(0, 12);
    (0..n).map(|_| *r.pick(&['a', 'b', '1', 'é', '你', '\u{10ffff}'])).collect()
}

fn judge_vec(r: &mut Rng, v: &VecStorer, m: &[Vec<Span>], t: &str, o: &mut Obs) -> R {
    if v.len() != m.len() || v.is_empty() != m.is_empty() {
        return Err(format!("len {} of {} groups", v.len(), m.len()));
    }
    for id in 0..m.len() + 2 {
        let g: &[Span] = m.get(id).map_or(&[], |x| x);
        let live = !g.is_empty();
        if v.contain(id) != live {
            return Err(format!("contain({id}) is {}, the group holds {g:?}", v.contain(id)));
        }
        if v.spans(id).map(|x| &x[..]) != live.then_some(g) {
            return Err(format!("spans({id}) is {:?}, the group holds {g:?}", v.spans(id)));
        }
        for i in 0..g.len() + 2 {
            if v.span(id, i) != g.get(i) {
                return Err(format!("span({id}, {i}) is {:?}, expected {:?}", v.span(id, i), g.get(i)));
            }
            let w = g.get(i).map(|s| &t[s.beg..s.beg + s.len]);
            if v.slice(t, id, i) != w || v.slice(t.as_bytes(), id, i) != w.map(|x| x.as_bytes()) {
                return Err(format!("slice({id}, {i}) is {:?}, expected {w:?}", v.slice(t, id, i)));
            }
        }
        if v.span(id, usize::MAX).is_some() || v.slice(t, id, usize::MAX).is_some() {
            return Err(format!("place usize::MAX of group {id} holds something"));
        }
        o.events += g.len() as u64;
        match (v.spans_iter(id), live) {
            (Some(it), true) => drain(r, "spans_iter", it, g, None, o)?,
            (None, false) => {}
            (x, _) => return Err(format!("spans_iter({id}) is {x:?}, the group holds {g:?}")),
        }
        let ctx = CharsCtx::new(t);
        let b = BytesCtx::new(t.as_bytes());
        let w = pieces(t, g);
        let wb: Vec<&[u8]> = w.iter().map(|x| x.as_bytes()).collect();
        match (v.slice_iter(t, id), v.slice_iter(&ctx, id), v.slice_iter(&b, id), live) {
            (Some(a), Some(c), Some(d), true) => {
                drain(r, "slice_iter", a, &w, Some(|x| x.len()), o)?;
                drain(r, "slice_iter of a context", c, &w, Some(|x| x.len()), o)?;
                drain(r, "slice_iter of bytes", d, &wb, Some(|x| x.len()), o)?;
            }
            (None, None, None, false) => {}
            _ => return Err(format!("slice_iter({id}) does not agree with the group {g:?}")),
        }
    }
    if v.contain(usize::MAX) || v.spans(usize::MAX).is_some() || v.span(usize::MAX, 0).is_some() {
        return Err("group usize::MAX exists".into());
    }
    Ok(())
}

fn vec_history(r: &mut Rng, o: &mut Obs) -> R {
    let t = text(r);
    // now and then a large table and a long history
    let large = r.chance(1, 3000);
    let cap = if large { *r.pick(&COUNTS[..16]) } else { r.below(5) };
    let mut m: Vec<Vec<Span>> = vec![vec![]; cap];
    let mut v = match r.below(4) {
        0 => VecStorer::default().with_capacity(cap),
        1 => CharsCtx::new(&t).span_storer(cap),
        2 => {
            for g in m.iter_mut() {
                for _ in 0..r.below(3) {
                    g.push(span_in(r, &t));
                }
            }
            VecStorer::new_with(m.clone())
        }
        _ => VecStorer::new(cap),
    };
    let n = if large { r.range(40, 700) } else { r.range(1, 14) };
    let busy = r.below(cap + 1);
    let mut hist: Vec<String> = vec![];
    for step in 0..n {
        let id = if large && r.flip() { busy } else { r.below(m.len() + 2) };
        let inside = id < m.len();
        match r.below(12) {
            0..=3 if inside => {
                let s = span_in(r, &t);
                hist.push(format!("add {id} {s}"));
                v.add_span(id, s);
                m[id].push(s);
            }
            4 if !large || r.chance(1, 100) => {
                hist.push(format!("clr {id}"));
                v.clr_span(id);
                if inside {
                    m[id].clear();
                }
            }
            5 if r.chance(1, if large { 100 } else { 2 }) => {
                hist.push("reset".into());
                v.reset();
                m.iter_mut().for_each(|g| g.clear());
            }
            6 if r.chance(1, if large { 100 } else { 2 }) => {
                let k = if large { r.below(300) } else { r.below(6) };
                hist.push(format!("capacity {k}"));
                v = v.with_capacity(k);
                m = vec![vec![]; k];
            }
            7 => {
                hist.push("clone".into());
                let old = v.clone();
                if inside {
                    v.add_span(id, Span::new(0, 0));
                }
                v = old;
            }
            8..=11 if inside => {
                // capture by matching: stored exactly when it matches
                let b: Vec<usize> = t.char_indices().map(|x| x.0).chain([t.len()]).collect();
                let at = *r.pick(&b);
                let pat: String = if r.flip() { t[at..].chars().take(r.below(3)).collect() } else { "b1".into() };
                hist.push(format!("try_cap {id} {pat:?} at {at}"));
                let mut c = CharsCtx::new(&t).with_offset(at);
                let ret = v.try_cap(id, &mut c, &&*pat);
                let hit = t[at..].starts_with(&pat);
                let want = hit.then_some(Span::new(at, pat.len()));
                if ret.ok() != want || c.offset() != at + want.map_or(0, |s| s.len) {
                    return Err(format!("{hist:?}: try_cap gives {ret:?}, position {}, expected {want:?}", c.offset()));
                }
                m[id].extend(want);
                o.count(if hit { "captures" } else { "failed_captures" });
            }
            _ => continue,
        }
        if large && step + 1 < n && !r.chance(1, 50) {
            continue;
        }
        judge_vec(r, &v, &m, &t, o).map_err(|e| format!("{t:?} {hist:?}: {e}"))?;
    }
    o.add("operations", hist.len() as u64);
    o.note(|| format!("VecStorer over {t:?}: {hist:?}"));
    if hist.len() > 1 {
        o.nontrivial(&(t, hist));
    }
    Ok(())
}

fn judge_arr<const M: usize, const N: usize>(
    r: &mut Rng,
    v: &ArrayStorer<M, N>,
    m: &[[Option<Span>; N]; M],
    t: &str,
    o: &mut Obs,
) -> R {
    if v.len() != M || v.is_empty() != (M == 0) {
        return Err(format!("len {} of {M} groups", v.len()));
    }
    for id in 0..M + 2 {
        let none = [None; N];
        let g = m.get(id).unwrap_or(&none);
        let lv: Vec<Span> = g.iter().copied().flatten().collect();
        let live = !lv.is_empty();
        if v.contain(id) != live {
            return Err(format!("contain({id}) is {}, the group holds {g:?}", v.contain(id)));
        }
        if v.spans(id) != live.then_some(&g[..]) {
            return Err(format!("spans({id}) is {:?}, the group holds {g:?}", v.spans(id)));
        }
        for i in 0..N + 2 {
            let w = g.get(i).copied().flatten();
            if v.span(id, i).copied() != w {
                return Err(format!("span({id}, {i}) is {:?}, expected {w:?}", v.span(id, i)));
            }
            let ws = w.map(|s| &t[s.beg..s.beg + s.len]);
            if v.slice(t, id, i) != ws || v.slice(t.as_bytes(), id, i) != ws.map(|x| x.as_bytes()) {
                return Err(format!("slice({id}, {i}) is {:?}, expected {ws:?}", v.slice(t, id, i)));
            }
        }
        o.events += lv.len() as u64;
        match (v.spans_iter(id), live) {
            (Some(it), true) => drain(r, "spans_iter", it, &lv, None, o)?,
            (None, false) => {}
            (x, _) => return Err(format!("spans_iter({id}) is {x:?}, the group holds {g:?}")),
        }
        let w = pieces(t, &lv);
        match (v.slice_iter(t, id), live) {
            (Some(it), true) => {
                // the derived clone wants a sized value
                let n = it.len();
                let got: Vec<&str> = it.collect();
                if n != w.len() || got != w {
                    return Err(format!("slice_iter({id}) reports {n} and yields {got:?}, expected {w:?}"));
                }
                let mut it = v.slice_iter(&t, id).unwrap();
                for (i, x) in w.iter().enumerate() {
                    if it.len() != w.len() - i || it.size_hint() != (w.len() - i, Some(w.len() - i)) {
                        return Err(format!("slice_iter({id}) after {i} of {} reports {}", w.len(), it.len()));
                    }
                    let y = it.next();
                    if y != Some(x) {
                        return Err(format!("slice_iter({id}) item {i} is {y:?}, expected {x:?}"));
                    }
                }
                if it.next().is_some() || it.len() != 0 || it.next().is_some() {
                    return Err(format!("slice_iter({id}) goes on after its end"));
                }
            }
            (None, false) => {}
            (x, _) => return Err(format!("slice_iter({id}) is {x:?}, the group holds {g:?}")),
        }
    }
    Ok(())
}

fn arr_history<const M: usize, const N: usize>(r: &mut Rng, o: &mut Obs) -> R {
    let t = text(r);
    let mut m = [[None; N]; M];
    let mut v = if r.chance(1, 3) {
        for g in m.iter_mut() {
            for s in g.iter_mut() {
                if r.flip() {
                    *s = Some(span_in(r, &t));
                }
            }
        }
        ArrayStorer::<M, N>::new_with(m)
    } else if r.flip() {
        ArrayStorer::<M, N>::default()
    } else {
        ArrayStorer::<M, N>::new()
    };
    let n = r.range(1, 14);
    let mut hist: Vec<String> = vec![];
    for _ in 0..n {
        let id = r.below(M + 2);
        let i = r.below(N.max(1));
        let inside = id < M && N > 0;
        match r.below(12) {
            0..=4 if inside => {
                let s = span_in(r, &t);
                hist.push(format!("set {id} {i} {s}"));
                v.set_span(id, i, s);
                m[id][i] = Some(s);
            }
            5 => {
                hist.push(format!("clr {id}"));
                v.clr_span(id);
                if id < M {
                    m[id] = [None; N];
                }
            }
            6 if r.chance(1, 2) => {
                hist.push("reset".into());
                v.reset();
                m = [[None; N]; M];
            }
            7 => {
                hist.push("clone".into());
                let old = v.clone();
                v.reset();
                v = old;
            }
            8..=11 if inside => {
                let b: Vec<usize> = t.char_indices().map(|x| x.0).chain([t.len()]).collect();
                let at = *r.pick(&b);
                let pat: String = if r.flip() { t[at..].chars().take(r.below(3)).collect() } else { "b1".into() };
                hist.push(format!("try_cap {id} {i} {pat:?} at {at}"));
                let mut c = BytesCtx::new(t.as_bytes()).with_offset(at);
                let ret = v.try_cap(id, i, &mut c, &pat.as_bytes());
                let hit = t[at..].starts_with(&pat);
                let want = hit.then_some(Span::new(at, pat.len()));
                if ret.ok() != want || c.offset() != at + want.map_or(0, |s| s.len) {
                    return Err(format!("{hist:?}: try_cap gives {ret:?}, position {}, expected {want:?}", c.offset()));
                }
                if hit {
                    m[id][i] = want;
                }
                o.count(if hit { "captures" } else { "failed_captures" });
            }
            _ => continue,
        }
        judge_arr(r, &v, &m, &t, o).map_err(|e| format!("{t:?} {hist:?}: {e}"))?;
    }
    o.add("operations", hist.len() as u64);
    o.note(|| format!("ArrayStorer<{M}, {N}> over {t:?}: {hist:?}"));
    if hist.len() > 1 {
        o.nontrivial(&(M, N, t, hist));
    }
    Ok(())
}

/// iterators made directly
fn iterators(r: &mut Rng, o: &mut Obs) -> R {
    let t = text(r);
    let n = if r.chance(1, 500) { *r.pick(COUNTS) } else { r.below(7) };
    let spans: Vec<Span> = (0..n).map(|_| span_in(r, &t)).collect();
    let tail = r.below(3);
    let opts: Vec<Option<Span>> = spans
        .iter()
        .flat_map(|s| {
            let mut v = vec![None; r.below(3)];
            v.push(Some(*s));
            v
        })
        .chain(vec![None; tail])
        .collect();
    o.note(|| format!("iterators over {t:?} {opts:?}"));
    drain(r, "SpanIterator", SpanIterator::new(&spans), &spans, None, o)?;
    drain(r, "OptionSpanIterator", OptionSpanIterator::new(&opts), &spans, None, o)?;
    let w = pieces(&t, &spans);
    drain(r, "IteratorBySpan", IteratorBySpan::new(&*t, &spans), &w, Some(|x| x.len()), o)?;
    let tr: &str = &t;
    drain(r, "IteratorByOptionSpan", IteratorByOptionSpan::new(&tr, &opts), &w, Some(|x| x.len()), o)?;
    let by: Vec<(usize, u8)> = t.bytes().enumerate().collect();
    drain(r, "BytesIndices", BytesIndices::new(t.as_bytes()), &by, Some(|x| x.len()), o)?;
    let mut c = BytesCtx::new(t.as_bytes());
    let off = r.below(t.len() + 1);
    c.set_offset(off);
    let by: Vec<(usize, u8)> = t.bytes().skip(off).enumerate().collect();
    drain(r, "peek", c.peek().map_err(|e| format!("{e:?}"))?, &by, Some(|x| x.len()), o)?;
    // whole spans cut what they denote
    for s in &spans {
        if t.as_str().get_by_span(s) != Some(&t[s.beg..s.beg + s.len]) {
            return Err(format!("{s} of {t:?} is {:?}", t.as_str().get_by_span(s)));
        }
    }
    // through every holder of the input
    let held = t.clone().into_bytes();
    let (h, hs) = (&held, &held[..]);
    let wb: Vec<&[u8]> = w.iter().map(|x| x.as_bytes()).collect();
    drain(r, "IteratorBySpan of &str", IteratorBySpan::new(&tr, &spans), &w, Some(|x| x.len()), o)?;
    drain(r, "IteratorBySpan of [u8]", IteratorBySpan::new(hs, &spans), &wb, Some(|x| x.len()), o)?;
    drain(r, "IteratorBySpan of &[u8]", IteratorBySpan::new(&hs, &spans), &wb, Some(|x| x.len()), o)?;
    drain(r, "IteratorBySpan of Vec", IteratorBySpan::new(h, &spans), &wb, Some(|x| x.len()), o)?;
    drain(r, "IteratorByOptionSpan of &Vec", IteratorByOptionSpan::new(&h, &opts), &wb, Some(|x| x.len()), o)?;
    // joining spans
    if let [a, b, ..] = spans[..] {
        let (a, b) = if a.beg <= b.beg { (a, b) } else { (b, a) };
        if b.beg + b.len >= a.beg + a.len {
            let mut j = a;
            j.add_assign(b);
            let want = Span::new(a.beg, b.beg + b.len - a.beg);
            if j != want {
                return Err(format!("{a} joined with {b} is {j}, expected {want}"));
            }
        }
    }
    let _ = regex::empty();
    o.nontrivial(&(t, opts));
    Ok(())
}

fn case(r: &mut Rng, o: &mut Obs) -> R {
    match r.below(9) {
        0..=2 => vec_history(r, o),
        3 => arr_history::<1, 1>(r, o),
        4 => arr_history::<2, 3>(r, o),
        5 => arr_history::<3, 2>(r, o),
        6 => arr_history::<4, 5>(r, o),
        7 if r.flip() => arr_history::<2, 0>(r, o),
        7 if r.chance(1, 4) => arr_history::<40, 3>(r, o),
        7 if r.chance(1, 3) => arr_history::<2, 70>(r, o),
        _ => iterators(r, o),
    }
}

fn main() {
    run(
        Plan {
            quick: 3_000_000,
            ..Plan::new("C14", "a random history of adding, setting, clearing, resizing, resetting, cloning and capturing, judged after each operation against a table of lists (all groups and places, slices, iterators drained in random ways with their reports of what remains); non-trivial with at least two operations")
        },
        case,
    )
}
