//! The token stream against an array with a cursor, and its memory use.
use crate::ast::*;
use crate::checks::*;
use crate::inst::*;
use crate::real::*;
use crate::util::*;
use parse_proof_of_concept::location::Tracker;
use parse_proof_of_concept::parser::Parser;
use parse_proof_of_concept::stream::{SavedState, Stream};
use std::rc::Rc;

pub fn c02(rng: &mut Rng, st: &mut Stats, _t: bool) -> Verdict {
    match rng.below(3) {
        0 => c02_in::<A>(rng, st),
        1 => c02_in::<B>(rng, st),
        _ => c02_in::<C>(rng, st),
    }
}

fn c02_in<T: Inst>(rng: &mut Rng, st: &mut Stats) -> Verdict {
    let n = match rng.below(10) {
        0 => 0,
        1 => rng.range(1, 2),
        2 | 3 => *rng.pick(&[3usize, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33]),
        4 => rng.range(40, 200),
        _ => rng.range(1, 30),
    };
    let input: Vec<u8> = (0..n).map(|_| rng.below(NSYM) as u8).collect();
    let start = rng.below(5) as u64;
    T::set_ctx(&input, start);
    take_notes();
    reset_steps(STEP_MAX);
    let log = Rc::new(SrcLog::default());
    let mut s: St<T> = Stream::new_with_location(Src::<T>::new(&input, &log).zombie(), T::start(start));
    let mut cur = 0usize;
    let mut held: Vec<(SavedState, usize)> = vec![];
    let mut trace: Vec<String> = vec![];
    let ops = rng.range(1, 120);
    // swarm: each history favours some operations
    let w: Vec<u32> = [10, 14, 6, 8, 5, 8, 6, 4, 3, 6, 4, 4, 4, 4, 3, 3]
        .iter()
        .map(|b| b * *rng.pick(&[0u32, 1, 1, 2, 4]))
        .collect();
    let w = if w.iter().sum::<u32>() == 0 { vec![1; 16] } else { w };
    let maxheld = *rng.pick(&[1usize, 2, 4, 12]);
    let small = rng.chance(1, 2);
    let mut far = 0usize;
    let (mut restores, mut eofs) = (0u64, 0u64);
    macro_rules! bad {
        ($($x:tt)*) => {{
            return Verdict::Violation(format!(
                "{}\n  instance {}\n  source {:?} ({n} tokens)\n  operations: {}",
                format!($($x)*), T::NAME, syms_to_string(&input), trace.join("; ")
            ));
        }};
    }
    macro_rules! call {
        ($e:expr) => {
            match guarded(|| $e) {
                Ok(x) => x,
                Err(e) => bad!("{e}"),
            }
        };
    }
    for _ in 0..ops {
        st.hit("stream operations");
        let k = rng.weighted(&w);
        match k {
            0 => {
                trace.push("token".into());
                let got = call!(s.token().map(|t| (T::sym(t), T::id(t))));
                let want = input.get(cur).copied();
                if got.map(|x| x.0) != want || (T::HAS_ID && got.is_some() && got.unwrap().1 != cur) {
                    bad!("token at {cur} is {got:?}, expected {want:?}");
                }
                if want.is_none() {
                    eofs += 1
                }
            }
            1 => {
                trace.push("advance".into());
                let got = call!(s.advance());
                if got != (cur < n) {
                    bad!("advance at {cur} returned {got}");
                }
                if cur < n {
                    cur += 1
                } else {
                    eofs += 1
                }
            }
            2 => {
                let to = cur
                    + if small || rng.chance(1, 2) {
                        rng.below(4)
                    } else {
                        rng.below(n - cur + 3)
                    };
                trace.push(format!("advance_to({to})"));
                let got = call!(s.advance_to(to));
                if got != (to <= n) {
                    bad!("advance_to({to}) from {cur} returned {got}");
                }
                if to > n {
                    eofs += 1
                }
                cur = to.min(n);
            }
            3 => {
                if held.len() >= maxheld {
                    let i = rng.below(held.len());
                    trace.push(format!("drop state@{}", held[i].1));
                    held.swap_remove(i);
                }
                trace.push("save".into());
                held.push((call!(s.save()), cur));
            }
            4 => {
                if held.len() >= maxheld {
                    let i = rng.below(held.len());
                    trace.push(format!("drop state@{}", held[i].1));
                    held.swap_remove(i);
                }
                let at = cur
                    + if small || rng.chance(1, 2) {
                        rng.below(5)
                    } else {
                        rng.below(n - cur + 4)
                    };
                trace.push(format!("save_at({at})"));
                let sv = call!(s.save_at(at));
                let want = at.min(n);
                if s.index_at(&sv) != want {
                    bad!("save_at({at}) saved position {} instead of {want}", s.index_at(&sv));
                }
                held.push((sv, want));
            }
            5 => {
                if held.is_empty() {
                    continue;
                }
                let i = rng.below(held.len());
                trace.push(format!("restore state@{}", held[i].1));
                call!(s.restore(&held[i].0));
                if held[i].1 != cur {
                    restores += 1
                }
                cur = held[i].1;
            }
            6 => {
                if held.is_empty() {
                    continue;
                }
                let i = rng.below(held.len());
                trace.push(format!("drop state@{}", held[i].1));
                held.swap_remove(i);
            }
            7 => {
                let k = rng.below(5);
                let ok = rng.chance(1, 2);
                trace.push(format!("attempt(advance x{k}, {})", if ok { "ok" } else { "err" }));
                let got = call!(s.attempt(|s| {
                    let mut c = 0;
                    for _ in 0..k {
                        c += s.advance() as usize;
                    }
                    if ok {
                        Ok(c)
                    } else {
                        Err(c)
                    }
                }));
                let want = k.min(n - cur);
                if got != want {
                    bad!("advanced {got} tokens inside attempt instead of {want}");
                }
                if ok {
                    cur += want
                }
            }
            8 => {
                trace.push("eof".into());
                let got = call!(s.eof());
                if got != (cur == n) {
                    bad!("eof() at {cur} is {got}");
                }
                if got {
                    eofs += 1
                }
            }
            9 => {
                if held.is_empty() {
                    continue;
                }
                let i = rng.below(held.len());
                let at = held[i].1;
                trace.push(format!("token_at state@{at}"));
                let got = call!(s.token_at(&held[i].0).map(|t| (T::sym(t), T::id(t))));
                let want = input.get(at).copied();
                if got.map(|x| x.0) != want || (T::HAS_ID && got.is_some() && got.unwrap().1 != at) {
                    bad!("token_at state@{at} is {got:?}, expected {want:?}");
                }
            }
            10 => {
                trace.push("location".into());
                let l = call!(T::loc(&s.location()));
                if l != cur {
                    bad!("location() denotes {l} instead of {cur}: {:?}", take_notes());
                }
                let l = call!(T::loc(&s.location_tracker().location(s.index())));
                if l != cur {
                    bad!("location_tracker() is not the tracker at {cur}: {:?}", take_notes());
                }
            }
            11 => {
                if held.is_empty() {
                    continue;
                }
                let i = rng.below(held.len());
                let at = held[i].1;
                trace.push(format!("location_at state@{at}"));
                let l = call!(T::loc(&s.location_at(&held[i].0)));
                if l != at {
                    bad!("location_at state@{at} denotes {l}: {:?}", take_notes());
                }
            }
            12 => {
                trace.push("span".into());
                let x = call!(T::span(&s.span()));
                let want = (cur, (cur + 1).min(n));
                if x != want {
                    bad!("span() is {x:?} instead of {want:?}: {:?}", take_notes());
                }
            }
            13 => {
                let c: Vec<usize> = (0..held.len()).filter(|&i| held[i].1 <= cur).collect();
                if c.is_empty() {
                    continue;
                }
                let i = *rng.pick(&c);
                let at = held[i].1;
                trace.push(format!("spanning_back_to state@{at}"));
                let x = call!(T::span(&s.spanning_back_to(&held[i].0)));
                if x != (at, cur) {
                    bad!("spanning_back_to state@{at} is {x:?} instead of {:?}: {:?}", (at, cur), take_notes());
                }
            }
            14 => {
                trace.push("index".into());
                for (sv, at) in &held {
                    if s.index_at(sv) != *at {
                        bad!("saved index {} instead of {at}", s.index_at(sv));
                    }
                }
            }
            _ => {
                // nested attempts with saved states inside
                trace.push("attempt(attempt)".into());
                let got = call!(s.attempt(|s| {
                    let inner = s.save();
                    let a = s.advance();
                    let b: bool = s.attempt(|s| {
                        let x = s.advance();
                        Err(x)
                    });
                    let i = s.index();
                    s.restore(&inner);
                    let j = s.index();
                    Err::<_, _>((a, b, i, j))
                }));
                let want = (cur < n, cur + 1 < n, (cur + 1).min(n), cur);
                if got != want {
                    bad!("nested attempts gave {got:?} instead of {want:?}");
                }
            }
        }
        far = far.max(cur);
        if s.index() != cur {
            bad!("index() is {} instead of {cur}", s.index());
        }
    }
    // every held state can still be returned to
    for i in 0..held.len() {
        let at = held[i].1;
        trace.push(format!("restore state@{at}"));
        call!(s.restore(&held[i].0));
        let rest = call!({
            let mut v = vec![];
            let mut guard = 0;
            while let Some(t) = s.token() {
                v.push(T::sym(t));
                s.advance();
                guard += 1;
                if guard > n + 3 {
                    break;
                }
            }
            v
        });
        if rest != input[at..] {
            bad!("from state@{at} the stream reads {:?}", syms_to_string(&rest));
        }
    }
    st.evaluations += 1;
    st.add("restores to another position", restores);
    st.add("operations at end of input", eofs);
    st.max("tokens", n as u64);
    if restores > 0 && far > 4 {
        st.nontrivial(mix(fnv(&input), fnv(trace.join(";").as_bytes())));
        st.sample(|| format!("{n} tokens: {}", trace.join("; ")));
    }
    Verdict::Held
}

// ---------------------------------------------------------------------------

pub fn c03(rng: &mut Rng, st: &mut Stats, thorough: bool) -> Verdict {
    if rng.chance(1, 3) {
        c03_stream(rng, st, thorough)
    } else {
        c03_ops(rng, st, thorough)
    }
}

/// Allowed number of live tokens for a backtracking window of `w` tokens.
fn allowed(w: usize) -> isize {
    (4 * w + 64) as isize
}
const ENTRY: isize = 128;

struct Endless {
    left: usize,
    seed: u64,
    i: usize,
    log: Rc<SrcLog>,
    cell: Rc<LiveCell>,
}
fn endless_sym(seed: u64, i: usize, nsym: usize) -> u8 {
    (mix(seed, i as u64) % nsym as u64) as u8
}
impl Iterator for Endless {
    type Item = Lv;
    fn next(&mut self) -> Option<Lv> {
        self.log.polls.set(self.log.polls.get() + 1);
        if self.left == 0 {
            return None;
        }
        self.left -= 1;
        self.i += 1;
        Some(Lv::new(endless_sym(self.seed, self.i - 1, 5), self.i - 1, Some(self.cell.clone())))
    }
}

fn c03_ops(rng: &mut Rng, st: &mut Stats, thorough: bool) -> Verdict {
    let n = if rng.chance(1, 12) {
        if thorough {
            400_000
        } else {
            60_000
        }
    } else {
        rng.range(200, 4000)
    };
    let cell = Rc::new(LiveCell::default());
    let log = Rc::new(SrcLog::default());
    reset_steps(u64::MAX);
    let base = live_bytes();
    let mut s: Stream<'static, Lv, Trace> = Stream::new_with_location(
        Endless {
            left: n,
            seed: rng.next(),
            i: 0,
            log: log.clone(),
            cell: cell.clone(),
        },
        C::start(0),
    );
    let src_bytes = live_bytes() - base;
    let mut held: Vec<SavedState> = vec![];
    let style = rng.below(6);
    let win = *rng.pick(&[1usize, 2, 3, 5, 8, 13, 40, 150]);
    let mut wmax = 0usize;
    let mut mmax = 0usize;
    let mut steps = 0u64;
    let mut regressions = 0u64;
    let mut done_restores = 0u64;
    let limit = (n * 6) as u64 + 1000;
    while s.index() < n && steps < limit {
        steps += 1;
        // the oldest position that may be returned to during this round
        let lo = held.iter().map(|h| s.index_at(h)).min().unwrap_or(s.index()).min(s.index());
        match style {
            0 => {
                s.advance();
            }
            1 => {
                let sv = s.save();
                s.advance();
                if rng.chance(1, 3) {
                    s.restore(&sv);
                    s.advance();
                }
            }
            2 => {
                // items with lookahead
                let sv = s.save();
                for _ in 0..rng.below(win + 1) {
                    s.advance();
                }
                s.restore(&sv);
                done_restores += 1;
                for _ in 0..rng.range(1, win) {
                    s.advance();
                }
            }
            3 => {
                // a sliding set of saved states
                held.push(s.save());
                s.advance();
                if held.len() > win {
                    if rng.chance(1, 2) {
                        held.remove(0);
                    } else {
                        let k = rng.below(held.len());
                        held.swap_remove(k);
                        held.retain(|h| s.index_at(h) + 4 * win > s.index());
                    }
                }
            }
            4 => {
                // far-ahead states
                let at = s.index() + rng.below(win + 1);
                let sv = s.save_at(at);
                if rng.chance(1, 2) {
                    s.restore(&sv);
                } else {
                    s.advance();
                }
                if rng.chance(1, 3) {
                    held.push(sv);
                    if held.len() > 3 {
                        held.clear();
                    }
                }
            }
            _ => {
                // one long window once, then short ones: what was needed for
                // the long one stays within bounds, and nothing else piles up
                let long = s.index() < n / 3 && regressions == 0;
                if long {
                    regressions = 1;
                    let sv = s.save();
                    for _ in 0..win * 3 {
                        s.advance();
                    }
                    s.restore(&sv);
                }
                s.attempt(|s| {
                    s.advance();
                    s.advance();
                    Err(())
                });
                s.advance();
            }
        }
        // furthest token read so far
        let w = log.polls.get().min(n).saturating_sub(lo);
        wmax = wmax.max(w);
        mmax = mmax.max(held.len());
        let live = cell.live.get();
        if live > allowed(wmax) {
            return Verdict::Violation(format!(
                "{live} source tokens are kept alive at index {} of {n} although the largest backtracking window was {wmax} (history style {style}, window {win})",
                s.index()
            ));
        }
        let bytes = live_bytes() - base - src_bytes;
        let own = (held.capacity() * std::mem::size_of::<SavedState>()) as isize;
        let ok = ENTRY * allowed(wmax) + 80 * (4 * mmax as isize + 64) + own;
        if bytes > ok {
            return Verdict::Violation(format!(
                "the stream uses {bytes} bytes at index {} of {n} although the largest backtracking window was {wmax} tokens and {mmax} states were held (history style {style}, window {win})",
                s.index()
            ));
        }
        st.max("live tokens", live.max(0) as u64);
    }
    st.evaluations += 1;
    st.add("tokens streamed", s.index() as u64);
    st.add("memory samples", steps);
    let _ = done_restores;
    if s.index() > 8 * wmax {
        st.nontrivial(mix(mix(n as u64, style as u64), mix(win as u64, steps)));
        st.sample(|| format!("history style {style}, window {win}: {n} tokens, peak {} live tokens, window {wmax}", cell.max.get()));
    }
    Verdict::Held
}

/// Streamed parses of long inputs whose items are short.
fn c03_stream(rng: &mut Rng, st: &mut Stats, thorough: bool) -> Verdict {
    let n = if rng.chance(1, 12) {
        if thorough {
            60_000
        } else {
            20_000
        }
    } else {
        rng.range(300, 2500)
    };
    let mut f = Feat::all();
    f.rules = 0;
    f.depth = rng.range(0, 3);
    f.nsym = 5;
    f.recover_pct = *rng.pick(&[0, 10, 25]);
    f.scan = false;
    f.end = false;
    let g0 = {
        let mut gen = Gen::new(rng, f);
        gen.nrules = 0;
        gen.bias[10] = 0;
        gen.grammar()
    };
    let b = Box::new;
    // always makes progress
    let any = || G::NoneOf(vec![]);
    let g = Grammar {
        nsym: 0,
        rules: vec![],
        start: match rng.below(3) {
            0 => G::Or(b(G::Then(b(any()), b(g0.start))), b(any())),
            1 => G::Or(b(G::Then(b(g0.start), b(any()))), b(any())),
            _ => G::Recover(
                b(G::Then(b(any()), b(g0.start))),
                Strat {
                    ops: vec![Op::Skip],
                    fin: Fin::Return(1),
                },
            ),
        },
    };
    let seed = rng.next();
    let input: Vec<u8> = (0..n).map(|i| endless_sym(seed, i, 5)).collect();
    // the windows the items need
    let mut wmax = 1;
    let mut ends = vec![];
    {
        let mut m = crate::model::Model::new(&g, &input);
        while m.pos < n && ends.len() < n {
            let p = m.pos;
            m.fuel = 3000;
            m.hi = 0;
            match m.run(true) {
                Ok(_) => (),
                Err(_) => return Verdict::Discard,
            }
            if m.pos == p {
                break;
            }
            wmax = wmax.max(m.hi.saturating_sub(p) + 1);
            ends.push((m.pos, wmax));
        }
    }
    if wmax > n / 8 || ends.len() < 20 {
        return Verdict::Discard;
    }
    let real = build::<C>(&g, &Opts::default());
    C::set_ctx(&input, 0);
    reset_steps(u64::MAX);
    let cell = Rc::new(LiveCell::default());
    let log = Rc::new(SrcLog::default());
    let base = live_bytes();
    let r = guarded(|| {
        let mut s = real.parser.stream_with_location(
            Endless {
                left: n,
                seed,
                i: 0,
                log: log.clone(),
                cell: cell.clone(),
            },
            C::start(0),
        );
        for (k, (end, w)) in ends.iter().enumerate() {
            // (result, with the token clones in its errors, is dropped here)
            s.next();
            let live = cell.live.get();
            if live > allowed(*w) {
                return Some(format!(
                    "{live} source tokens are kept alive after item {k} (position {end} of {n}) of a streamed parse whose items need windows of at most {w} tokens"
                ));
            }
            let bytes = live_bytes() - base;
            if bytes > ENTRY * allowed(*w) + 16_384 {
                return Some(format!(
                    "a streamed parse uses {bytes} bytes after item {k} (position {end} of {n}); its items need windows of at most {w} tokens"
                ));
            }
            st.max("live tokens", live.max(0) as u64);
        }
        st.add("memory samples", ends.len() as u64);
        let mut tail = s.tail();
        let mut left = 0;
        while let Some(t) = tail.next() {
            drop(t);
            left += 1;
            if cell.live.get() > allowed(wmax) {
                return Some(format!("{} source tokens are kept alive while draining the tail", cell.live.get()));
            }
        }
        st.add("tail tokens", left);
        None
    });
    st.evaluations += 1;
    st.add("tokens streamed", n as u64);
    st.add("streamed items", ends.len() as u64);
    st.nontrivial(mix(ghash(&g), seed));
    st.sample(|| format!("streamed {:?} over {n} tokens, {} items, window {wmax}", g.start, ends.len()));
    match r {
        Ok(None) => Verdict::Held,
        Ok(Some(m)) => Verdict::Violation(format!("{m}\n  grammar: {:?}", g.start)),
        Err(e) => Verdict::Violation(format!("{e}\n  grammar: {:?}\n  input {:?}", g.start, syms_to_string(&input))),
    }
}
