//! C24: everything taken from the source or created while parsing is given
//! back, whatever happens. The binary is also run under AddressSanitizer and
//! (thorough) Miri; those watch the accesses themselves.
use crate::ast::*;
use crate::canon::*;
use crate::checks::*;
use crate::inst::*;
use crate::real::*;
use crate::util::*;
use parse_proof_of_concept::parser::Parser;
use parse_proof_of_concept::stream::{SavedState, Stream};
use std::rc::Rc;

#[derive(Clone, Debug)]
struct Plan {
    /// 0 parse, 1 parse with recovery, 2 streamed, 3 explicit stream with
    /// failures and saved states, 4 stream operations only, 5 conversions
    kind: usize,
    rec: bool,
    /// abandon after this many items / operations
    cut: usize,
    /// panic at this many token steps
    fault: Option<u64>,
    /// order in which things are dropped
    order: usize,
    keep: usize,
    seed: u64,
}

/// Runs the plan; everything it created is gone when it returns, except what
/// the library failed to release.
fn execute<T: Inst>(p: &PB<T>, input: &[u8], plan: &Plan) -> Result<(), String> {
    let log = Rc::new(SrcLog::default());
    reset_steps(plan.fault.unwrap_or(STEP_MAX));
    let src = || Src::<T>::new(input, &log);
    let r = guarded(|| match plan.kind {
        0 => {
            let mut s: St<T> = Stream::new_with_location(src(), T::start(1));
            let r = p.parse_internal(&mut s, plan.rec);
            if plan.order == 0 {
                drop(s);
                drop(r);
            } else {
                drop(r);
                drop(s);
            }
        }
        1 => {
            let r = p.parse_with_recovery_and_location(src(), T::start(0));
            let n = r.errors().count();
            if plan.order == 0 {
                let r: Result<Val, T::E> = r.into();
                drop(r);
            } else {
                let r = r.map_err(|e| (e.clone(), e)).map(|v| (v.clone(), v));
                if r.errors().count() != n {
                    panic!("errors lost");
                }
            }
        }
        2 => {
            let mut s = p.stream_with_location(src(), T::start(2));
            let mut kept = vec![];
            for k in 0..plan.cut {
                match s.next() {
                    None => break,
                    Some(r) => {
                        if k % 2 == plan.keep % 2 {
                            kept.push(r)
                        }
                    }
                }
            }
            match plan.order {
                0 => drop(s),
                1 => {
                    let mut t = s.tail();
                    for _ in 0..plan.keep {
                        t.next();
                    }
                    drop(kept);
                    drop(t);
                }
                _ => {
                    let t: Vec<T::I> = s.tail().take(input.len() + 1).collect();
                    drop(t);
                }
            }
        }
        3 => {
            let mut s: St<T> = Stream::new_with_location(src(), T::start(0));
            let mut held: Vec<SavedState> = vec![];
            let mut results = vec![];
            for k in 0..plan.cut {
                held.push(s.save());
                results.push(p.parse_internal(&mut s, plan.rec));
                if k % 2 == 0 {
                    s.restore(&held[k / 2]);
                }
                s.advance();
            }
            if plan.order == 0 {
                // saved states may outlive the stream
                drop(s);
                drop(results);
                drop(held);
            } else {
                drop(held);
                s.eof();
                drop(results);
                drop(s);
            }
        }
        4 => {
            let mut r = Rng::new(plan.seed);
            let mut s: St<T> = Stream::new_with_location(src(), T::start(0));
            let mut held: Vec<SavedState> = vec![];
            let mut spans = vec![];
            let mut toks: Vec<T::I> = vec![];
            for _ in 0..plan.cut * 6 {
                match r.below(9) {
                    0 => held.push(s.save()),
                    1 if !held.is_empty() => {
                        let k = r.below(held.len());
                        s.restore(&held[k]);
                    }
                    2 if !held.is_empty() => {
                        let k = r.below(held.len());
                        held.swap_remove(k);
                    }
                    3 => {
                        let to = s.index() + r.below(4);
                        held.push(s.save_at(to));
                    }
                    4 => spans.push(s.span()),
                    5 => {
                        s.attempt(|s| {
                            s.advance();
                            s.advance();
                            Err(())
                        });
                    }
                    6 if !held.is_empty() => {
                        let k = r.below(held.len());
                        toks.extend(s.token_at(&held[k]).cloned());
                    }
                    _ => {
                        s.advance();
                    }
                }
            }
            if plan.order == 0 {
                drop(s);
            }
            drop(held);
        }
        _ => {
            // results that went through every conversion
            let mut s: St<T> = Stream::new_with_location(src(), T::start(0));
            let r = p.parse_internal(&mut s, true);
            let r = r.try_map(|v| {
                if plan.keep % 2 == 0 {
                    parse_proof_of_concept::parser::Result::Success(v)
                } else {
                    drop(v);
                    let mut t: St<T> = Stream::new_with_location(src(), T::start(0));
                    p.parse_internal(&mut t, true)
                }
            });
            let all: Vec<T::E> = r.errors().cloned().collect();
            drop(r);
            drop(s);
            drop(all);
        }
    });
    LAST.with(|l| l.set(steps()));
    reset_steps(u64::MAX);
    r
}

pub fn c24(rng: &mut Rng, st: &mut Stats, thorough: bool) -> Verdict {
    match rng.below(5) {
        0 => c24_in::<A>(rng, st, thorough),
        1 | 2 => c24_in::<B>(rng, st, thorough),
        _ => c24_in::<C>(rng, st, thorough),
    }
}

fn c24_in<T: Inst>(rng: &mut Rng, st: &mut Stats, _thorough: bool) -> Verdict {
    let mut f = Feat::all();
    f.depth = rng.range(1, 5);
    f.nsym = *rng.pick(&[3, 5, 9]);
    f.recover_pct = *rng.pick(&[0, 15, 40]);
    let c = gen_case(rng, f, 3);
    let cell = Rc::new(LiveCell::default());
    LIVE_CELL.with(|l| *l.borrow_mut() = Some(cell.clone()));
    let real = build::<T>(&c.g, &Opts::default());
    let out = (|| {
        for input in &c.inputs {
            for _ in 0..3 {
                // what the plan is compared with, and whether it is feasible
                let Some(m) = model_run(&c.g, input, true) else {
                    return Verdict::Discard;
                };
                if !model_stream_ok(&c.g, input, 40) {
                    return Verdict::Discard;
                }
                let plan = Plan {
                    kind: rng.below(6),
                    rec: rng.chance(1, 2),
                    cut: rng.range(1, 6),
                    fault: None,
                    order: rng.below(3),
                    keep: rng.below(6),
                    seed: rng.next(),
                };
                T::set_ctx(input, 0);
                // a run without a fault, both as warm-up and to learn how
                // many steps there are
                let mut plans = vec![plan.clone()];
                let warm = execute::<T>(&real.parser, input, &plan);
                if let Err(e) = warm {
                    // streamed and nested use may run into exponential
                    // re-parsing that the single-parse model does not see
                    if e.contains("STEP-LIMIT") {
                        continue;
                    }
                    return Verdict::Violation(describe(&c.g, input, T::NAME, &format!("{e}\n  plan {plan:?}")));
                }
                let total = LAST.with(|l| l.get());
                for _ in 0..3 {
                    if total > 0 {
                        plans.push(Plan {
                            fault: Some(rng.below(total as usize) as u64),
                            ..plan.clone()
                        });
                    }
                }
                for plan in plans {
                    // (on the second attempt nothing is initialised lazily
                    // any more, so that a difference is a leak)
                    let mut leak = None;
                    for _ in 0..2 {
                        let (b0, k0, t0) = (live_bytes(), live_blocks(), cell.live.get());
                        let made0 = cell.made.get();
                        let r = execute::<T>(&real.parser, input, &plan);
                        let faulted = match &r {
                            Err(e) if plan.fault.is_some() && e.contains("STEP-LIMIT") => true,
                            Err(e) => {
                                return Verdict::Violation(describe(
                                    &c.g,
                                    input,
                                    T::NAME,
                                    &format!("{e}\n  plan {plan:?}"),
                                ))
                            }
                            Ok(()) => false,
                        };
                        drop(r);
                        take_notes();
                        st.evaluations += 1;
                        if faulted {
                            st.hit("runs abandoned by a panic in user code");
                        } else {
                            st.hit("runs to completion");
                        }
                        st.add("tracked tokens created", (cell.made.get() - made0) as u64);
                        let (b1, k1, t1) = (live_bytes(), live_blocks(), cell.live.get());
                        if t1 != t0 {
                            return Verdict::Violation(describe(
                                &c.g,
                                input,
                                T::NAME,
                                &format!(
                                    "{} tokens are {} after results, stream and saved states are gone\n  plan {plan:?}",
                                    (t1 - t0).abs(),
                                    if t1 > t0 { "still alive" } else { "released more than once" }
                                ),
                            ));
                        }
                        leak = (b1 != b0 || k1 != k0).then_some((b1 - b0, k1 - k0));
                        if leak.is_none() {
                            break;
                        }
                    }
                    if let Some((b, k)) = leak {
                        return Verdict::Violation(describe(
                            &c.g,
                            input,
                            T::NAME,
                            &format!(
                                "{b} bytes in {k} memory blocks are left after results, stream and saved states are gone\n  plan {plan:?}"
                            ),
                        ));
                    }
                    // the parser itself is unimpaired
                    if plan.fault.is_some() {
                        match run::<T>(&real.parser, input, true, 0, false) {
                            Ok(r) if r.res.kind() == m.res.kind() && r.end == m.end => (),
                            Ok(r) => {
                                return Verdict::Violation(describe(
                                    &c.g,
                                    input,
                                    T::NAME,
                                    &format!(
                                        "after a panic in user code the parser gives {} ending at {} instead of {} ending at {}",
                                        r.res.kind(),
                                        r.end,
                                        m.res.kind(),
                                        m.end
                                    ),
                                ))
                            }
                            Err(e) => {
                                return Verdict::Violation(describe(
                                    &c.g,
                                    input,
                                    T::NAME,
                                    &format!("{e} when using the parser again after a panic in user code"),
                                ))
                            }
                        }
                    }
                    st.nontrivial(mix(c.h, mix(fnv(format!("{plan:?}").as_bytes()), input.len() as u64)));
                    st.sample(|| format!("{plan:?} on {:?}", syms_to_string(input)));
                }
            }
        }
        Verdict::Held
    })();
    LIVE_CELL.with(|l| *l.borrow_mut() = None);
    // the parsers themselves are released, too
    drop(real);
    if let Verdict::Held = out {
        let leftover = cell.live.get();
        if leftover != 0 {
            return Verdict::Violation(describe(
                &c.g,
                &c.inputs[0],
                T::NAME,
                &format!("{leftover} tokens from the sources are still alive at the end of everything"),
            ));
        }
    }
    out
}

thread_local!(static LAST: std::cell::Cell<u64> = const { std::cell::Cell::new(0) });
