//! The checks that compare the real parsers with the reference model or with
//! the per-node contract.
use crate::ast::*;
use crate::canon::*;
use crate::inst::*;
use crate::model::*;
use crate::real::*;
use crate::util::*;
use parse_proof_of_concept::parser::{self, Parser};
use parse_proof_of_concept::scanner::{self, Scanner};
use parse_proof_of_concept::stream::Stream;
use std::cell::RefCell;
use std::rc::Rc;

pub struct ModelRun {
    pub res: MRes,
    pub end: usize,
    pub hi: usize,
    pub recov_runs: usize,
    pub backtracks: usize,
    pub choice_fail: usize,
    pub merges: usize,
    pub rec_choice: usize,
    pub ops_run: usize,
    pub calls: Vec<(&'static str, u32, String)>,
}

pub fn model_run(g: &Grammar, input: &[u8], rec: bool) -> Option<ModelRun> {
    model_run_at(g, input, rec, 0, false)
}
/// Whether a streamed parse of up to `items` items, from the start and from
/// wherever its items end, stays clear of exponential re-parsing.
pub fn model_stream_ok(g: &Grammar, input: &[u8], items: usize) -> bool {
    let mut pos = 0;
    for _ in 0..items {
        match model_run_at(g, input, true, pos, false) {
            Some(m) if m.end > pos && m.end < input.len() => pos = m.end,
            Some(_) => return true,
            None => return false,
        }
    }
    true
}
pub fn model_run_at(g: &Grammar, input: &[u8], rec: bool, at: usize, log: bool) -> Option<ModelRun> {
    let mut m = Model::new(g, input);
    m.pos = at;
    m.log_calls = log;
    let res = m.run(rec).ok()?;
    Some(ModelRun {
        end: m.pos,
        hi: m.hi,
        recov_runs: m.recov_runs,
        backtracks: m.backtracks,
        choice_fail: m.choice_fail,
        merges: m.merges,
        rec_choice: m.rec_choice,
        ops_run: m.ops_run,
        calls: m.calls,
        res,
    })
}

struct HashW(u64);
impl std::fmt::Write for HashW {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for b in s.bytes() {
            self.0 = (self.0 ^ b as u64).wrapping_mul(0x1000_0000_01b3);
        }
        Ok(())
    }
}
pub fn ghash(g: &Grammar) -> u64 {
    use std::fmt::Write;
    let mut h = HashW(0xcbf2_9ce4_8422_2325);
    let _ = write!(h, "{g:?}");
    h.0
}

pub struct Case {
    pub g: Grammar,
    pub inputs: Vec<Vec<u8>>,
    pub h: u64,
}

pub fn gen_case(rng: &mut Rng, f: Feat, n: usize) -> Case {
    let nsym = f.nsym;
    let noise = rng.below(6);
    let g = Gen::new(rng, f).grammar();
    let inputs = (0..n).map(|_| gen_input(&g, rng, nsym, noise)).collect();
    let h = ghash(&g);
    Case { g, inputs, h }
}

pub fn describe(g: &Grammar, input: &[u8], inst: &str, what: &str) -> String {
    format!("{what}\n  instance: {inst}\n  input: {:?}\n  grammar: {g:?}", syms_to_string(input))
}

/// Smallest input (by dropping tokens) for which `f` still objects.
pub fn shrink(input: &[u8], first: String, f: &dyn Fn(&[u8]) -> Option<String>) -> (Vec<u8>, String) {
    let mut cur = input.to_vec();
    let mut msg = first;
    let mut tries = 0;
    loop {
        let mut progress = false;
        for i in 0..cur.len() {
            tries += 1;
            if tries > 400 {
                return (cur, msg);
            }
            let mut c = cur.clone();
            c.remove(i);
            if let Some(m) = f(&c) {
                cur = c;
                msg = m;
                progress = true;
                break;
            }
        }
        if !progress {
            return (cur, msg);
        }
    }
}

/// Compares (expected, end) with (real, end).
type Cmp = fn(&MRes, usize, &MRes, usize) -> Option<String>;

fn ids(v: MRes, has: bool) -> MRes {
    if has {
        v
    } else {
        v.strip_ids()
    }
}

pub fn compare_one<T: Inst>(
    g: &Grammar,
    p: &PB<T>,
    input: &[u8],
    rec: bool,
    start: u64,
    cmp: Cmp,
) -> Option<String> {
    let m = model_run(g, input, rec)?;
    let want = ids(m.res, T::HAS_ID);
    let want = if T::HAS_ERR { want } else { want.void_errs() };
    match run::<T>(p, input, rec, start, false) {
        Err(e) => Some(format!("{e}; expected {want:?} ending at {}", m.end)),
        Ok(r) => {
            let got = ids(r.res, T::HAS_ID);
            cmp(&want, m.end, &got, r.end).map(|d| {
                format!(
                    "{d} (recovery={rec})\n  expected: {want:?} ending at {}\n  got:      {got:?} ending at {}",
                    m.end, r.end
                )
            })
        }
    }
}

pub fn violation<T: Inst>(
    g: &Grammar,
    p: &PB<T>,
    input: &[u8],
    rec: bool,
    start: u64,
    cmp: Cmp,
    msg: String,
) -> Verdict {
    let (i, m) = shrink(input, msg, &|x| compare_one::<T>(g, p, x, rec, start, cmp));
    Verdict::Violation(describe(g, &i, T::NAME, &m))
}

macro_rules! with_inst {
    ($k:expr, $f:ident($($a:expr),*)) => {
        match $k {
            0 => $f::<A>($($a),*),
            1 => $f::<B>($($a),*),
            _ => $f::<C>($($a),*),
        }
    };
}

/// Which inputs count as non-trivial observations for a check.
type Rule = fn(&ModelRun, &[u8]) -> bool;

#[allow(clippy::too_many_arguments)]
fn model_case<T: Inst>(
    c: &Case,
    o: &Opts,
    modes: &[bool],
    start: u64,
    cmp: Cmp,
    rule: Rule,
    st: &mut Stats,
) -> Verdict {
    let real = build::<T>(&c.g, o);
    let mut any = false;
    for input in &c.inputs {
        for &rec in modes {
            let Some(m) = model_run(&c.g, input, rec) else {
                st.hit("beyond model fuel");
                continue;
            };
            any = true;
            st.evaluations += 1;
            st.hit(m.res.kind());
            st.add("strategy steps executed", m.ops_run as u64);
            st.add("backtracks", m.backtracks as u64);
            st.add("choice failures", m.choice_fail as u64);
            st.add("merged expectations", m.merges as u64);
            st.add("choices settled by recovery", m.rec_choice as u64);
            st.max("tokens", input.len() as u64);
            if rule(&m, input) {
                st.nontrivial(mix(c.h, fnv(input)) ^ rec as u64);
                st.sample(|| format!("{:?} on {:?} -> {:?}", c.g.start, syms_to_string(input), m.res));
            }
            if let Some(d) = compare_one::<T>(&c.g, &real.parser, input, rec, start, cmp) {
                return violation::<T>(&c.g, &real.parser, input, rec, start, cmp, d);
            }
        }
    }
    if any {
        Verdict::Held
    } else {
        Verdict::Discard
    }
}

fn shape(v: &MRes, idsok: bool) -> MRes {
    match v.clone() {
        MRes::S(v) => MRes::S(v.map_leaves(idsok, false)),
        MRes::R(v, e) => MRes::R(v.map_leaves(idsok, false), e),
        f => f,
    }
}

/// kind, output (without spans), tokens consumed
pub fn cmp_outcome(m: &MRes, me: usize, r: &MRes, re: usize) -> Option<String> {
    if m.kind() != r.kind() {
        return Some(format!("expected {}, got {}", m.kind(), r.kind()));
    }
    if shape(m, true).val() != shape(r, true).val() {
        return Some("wrong output".into());
    }
    if m.val().is_some() && me != re {
        return Some(format!("consumed up to {re} instead of {me}"));
    }
    None
}
/// everything
pub fn cmp_all(m: &MRes, me: usize, r: &MRes, re: usize) -> Option<String> {
    if m != r {
        Some("wrong result".into())
    } else if me != re {
        Some(format!("cursor at {re} instead of {me}"))
    } else {
        None
    }
}
/// failure position and error list of failed parses
pub fn cmp_failure(m: &MRes, _: usize, r: &MRes, _: usize) -> Option<String> {
    match (m, r) {
        (MRes::F(i, e), MRes::F(j, f)) => {
            if i != j {
                Some(format!("failure index {j} instead of {i}"))
            } else if e != f {
                Some("wrong errors".into())
            } else {
                None
            }
        }
        (MRes::F(..), _) | (_, MRes::F(..)) => Some(format!("expected {}, got {}", m.kind(), r.kind())),
        _ => None,
    }
}

// ---------------------------------------------------------------------------

pub fn c01(rng: &mut Rng, st: &mut Stats, _t: bool) -> Verdict {
    let mut f = Feat::all();
    f.nsym = *rng.pick(&[3, 5, 9]);
    f.recover_pct = *rng.pick(&[5, 15, 30]);
    let c = gen_case(rng, f, 6);
    with_inst!(rng.below(3), c01_in(&c, rng, st))
}
fn c01_in<T: Inst>(c: &Case, rng: &mut Rng, st: &mut Stats) -> Verdict {
    let mon = Rc::new(MonLog::default());
    let o = Opts {
        mon: Some(mon.clone()),
        peek: rng.chance(1, 2),
        rec_fn: rng.chance(1, 3),
        ..Opts::default()
    };
    let real = build::<T>(&c.g, &o);
    let start = rng.below(4) as u64;
    for input in &c.inputs {
        let k = rng.below(4).min(input.len());
        for rec in [false, true] {
            if model_run(&c.g, input, rec).is_none() || model_run_at(&c.g, input, rec, k, false).is_none() {
                st.hit("beyond model fuel");
                continue;
            }
            let (p0, c0) = (mon.fails_after_progress.get(), mon.checked.get());
            let one = |input: &[u8]| -> Option<String> {
                T::set_ctx(input, start);
                reset_steps(STEP_MAX);
                let log = Rc::new(SrcLog::default());
                let k = k.min(input.len());
                let r = guarded(|| {
                    let mut s: St<T> = Stream::new_with_location(Src::<T>::new(input, &log).zombie(), T::start(start));
                    for _ in 0..k {
                        s.advance();
                    }
                    let l0 = s.location();
                    let r = real.parser.parse_internal(&mut s, rec);
                    if matches!(r, parser::Result::Failed(..)) {
                        if s.index() != k {
                            return Some(format!("failed parse left the cursor at {} instead of {k}", s.index()));
                        }
                        if s.location() != l0 {
                            return Some("failed parse changed the location".into());
                        }
                        let mut rest = vec![];
                        while let Some(t) = s.token() {
                            rest.push(T::sym(t));
                            s.advance();
                            if rest.len() > input.len() + 2 {
                                break;
                            }
                        }
                        if rest != input[k..] {
                            return Some(format!(
                                "after the failure the remaining input reads {:?} instead of {:?}",
                                syms_to_string(&rest),
                                syms_to_string(&input[k..])
                            ));
                        }
                    }
                    None
                });
                let v = mon.violation.borrow_mut().take();
                match r {
                    // panics are the subject of other properties, unless the
                    // position bookkeeping itself gave out
                    Err(e) => v.or(Some(e)),
                    Ok(d) => v.or(d),
                }
            };
            st.evaluations += 1;
            let d = one(input);
            st.add("failed nodes after progress", mon.fails_after_progress.get() - p0);
            st.add("node results monitored", mon.checked.get() - c0);
            if mon.fails_after_progress.get() > p0 {
                st.nontrivial(mix(c.h, fnv(input)) ^ rec as u64);
                st.sample(|| format!("{:?} on {:?} from {k}", c.g.start, syms_to_string(input)));
            }
            if let Some(m) = d {
                let (i, m) = shrink(input, m, &one);
                return Verdict::Violation(describe(&c.g, &i, T::NAME, &format!("{m} (recovery={rec}, from {k})")));
            }
        }
    }
    // the streaming entry point: a failed item leaves everything to the tail
    if let Some(input) = c.inputs.first() {
        let ok = model_run(&c.g, input, true);
        if let (Some(m), false) = (ok, input.is_empty()) {
            if let MRes::F(..) = m.res {
                st.hit("failed streamed items");
                T::set_ctx(input, start);
                reset_steps(STEP_MAX);
                let log = Rc::new(SrcLog::default());
                let r = guarded(|| {
                    let mut s = real.parser.stream_with_location(Src::<T>::new(input, &log), T::start(start));
                    s.next();
                    let n = rng.below(3);
                    for _ in 0..n {
                        s.next();
                    }
                    s.tail().map(|t| T::sym(&t)).collect::<Vec<_>>()
                });
                match r {
                    Err(e) => return Verdict::Violation(describe(&c.g, input, T::NAME, &e)),
                    Ok(v) => {
                        if v != *input {
                            return Verdict::Violation(describe(
                                &c.g,
                                input,
                                T::NAME,
                                &format!("tail after failed streamed items is {:?}", syms_to_string(&v)),
                            ));
                        }
                    }
                }
            }
        }
    }
    Verdict::Held
}

pub fn c04(rng: &mut Rng, st: &mut Stats, _t: bool) -> Verdict {
    let mut f = Feat::all();
    f.nsym = *rng.pick(&[3, 5, 9]);
    f.recover_pct = *rng.pick(&[0, 10, 25]);
    let c = gen_case(rng, f, 6);
    with_inst!(rng.below(3), c04_in(&c, rng, st))
}
fn c04_in<T: Inst>(c: &Case, rng: &mut Rng, st: &mut Stats) -> Verdict {
    let real = build::<T>(&c.g, &Opts::default());
    for input in &c.inputs {
        for rec in [false, true] {
            let one = |input: &[u8]| -> Option<String> {
                let m = model_run(&c.g, input, rec)?;
                T::set_ctx(input, 0);
                reset_steps(STEP_MAX);
                let log = Rc::new(SrcLog::default());
                let r = guarded(|| {
                    let mut s: St<T> = Stream::new_with_location(Src::<T>::new(input, &log).zombie(), T::start(0));
                    if log.polls.get() != 0 {
                        return Some("creating the stream polled the source".to_string());
                    }
                    let sv = s.save();
                    let _ = s.location();
                    let _ = s.index_at(&sv);
                    let _ = s.location_at(&sv);
                    if log.polls.get() != 0 {
                        return Some("saving a state or asking for the location polled the source".to_string());
                    }
                    drop(sv);
                    let _ = real.parser.parse_internal(&mut s, rec);
                    if log.after_none.get() > 0 {
                        return Some("the source was polled again after it had ended".to_string());
                    }
                    if log.polls.get() > m.hi + 1 {
                        return Some(format!(
                            "{} source items were pulled, but only {} had to be inspected",
                            log.polls.get(),
                            m.hi
                        ));
                    }
                    // the rest is still there, untouched and in order
                    let mut n = 0;
                    while s.index() < input.len() && n <= input.len() {
                        n += 1;
                        let i = s.index();
                        match s.token() {
                            Some(t) if T::sym(t) == input[i] => (),
                            _ => return Some(format!("token {i} is wrong or missing after the parse")),
                        }
                        s.advance();
                    }
                    if s.token().is_some() || s.advance() || s.token().is_some() || log.after_none.get() > 0 {
                        return Some("the source was polled again after it had ended".to_string());
                    }
                    None
                });
                match r {
                    Err(e) => Some(e),
                    Ok(d) => d,
                }
            };
            let Some(m) = model_run(&c.g, input, rec) else {
                st.hit("beyond model fuel");
                continue;
            };
            st.evaluations += 1;
            if m.hi <= input.len() {
                st.hit("parses that must leave input unread");
            } else {
                st.hit("parses that reach the end marker");
            }
            if m.hi > 0 && (m.backtracks > 0 || m.hi > input.len()) {
                st.nontrivial(mix(c.h, fnv(input)) ^ rec as u64);
                st.sample(|| format!("{:?} on {:?}: {} polls needed", c.g.start, syms_to_string(input), m.hi));
            }
            if let Some(d) = one(input) {
                let (i, d) = shrink(input, d, &one);
                return Verdict::Violation(describe(&c.g, &i, T::NAME, &format!("{d} (recovery={rec})")));
            }
        }
        // streaming: pulls for the items so far only, tail pulls one by one
        let Some(_) = model_run(&c.g, input, true) else { continue };
        let mut need = vec![]; // (polls needed, position) after each item
        let (mut pos, mut hi) = (0, 0);
        for _ in 0..3 {
            hi = hi.max(pos + 1);
            if pos >= input.len() {
                break;
            }
            match model_run_at(&c.g, input, true, pos, false) {
                Some(m) => {
                    hi = hi.max(m.hi);
                    pos = m.end;
                    need.push((hi, pos));
                }
                None => break,
            }
        }
        T::set_ctx(input, 0);
        reset_steps(STEP_MAX);
        let log = Rc::new(SrcLog::default());
        let r = guarded(|| {
            let mut s = real.parser.stream_with_location(Src::<T>::new(input, &log).zombie(), T::start(0));
            if log.polls.get() != 0 {
                return Some("creating a streamed parse polled the source".to_string());
            }
            for (k, (hi, _)) in need.iter().enumerate() {
                s.next();
                if log.polls.get() > hi + 1 {
                    return Some(format!(
                        "after item {k} of a streamed parse {} items were pulled, needed {hi}",
                        log.polls.get()
                    ));
                }
            }
            let p0 = log.polls.get();
            let mut tail = s.tail();
            if log.polls.get() != p0 {
                return Some("tail() itself polled the source".to_string());
            }
            let pos = need.last().map_or(0, |x| x.1);
            for j in pos..input.len() {
                if tail.next().is_none() {
                    return Some("tail ended early".to_string());
                }
                if log.polls.get() > p0.max(j + 2) {
                    return Some(format!("tail item {j} made the source be polled {} times", log.polls.get()));
                }
            }
            for _ in 0..3 {
                if tail.next().is_some() {
                    return Some("tail went on after the end of the source".to_string());
                }
            }
            if log.after_none.get() > 0 {
                return Some("the tail polled the source again after its end".to_string());
            }
            None
        });
        st.hit("streamed parses");
        let d = match r {
            Err(e) => Some(e),
            Ok(d) => d,
        };
        if let Some(d) = d {
            return Verdict::Violation(describe(&c.g, input, T::NAME, &d));
        }
    }
    let _ = rng;
    Verdict::Held
}

pub fn c05(rng: &mut Rng, st: &mut Stats, _t: bool) -> Verdict {
    let mut f = Feat::strict();
    f.nsym = *rng.pick(&[3, 5, 5, 9]);
    f.depth = rng.range(1, 6);
    f.spans = rng.chance(1, 3);
    f.trymap = rng.chance(1, 4);
    let c = gen_case(rng, f, 10);
    let o = Opts {
        rec_fn: rng.chance(1, 3),
        ..Opts::default()
    };
    let modes: &[bool] = &[false];
    with_inst!(
        rng.below(3),
        model_case(&c, &o, modes, 0, cmp_outcome, |m, i| !i.is_empty() && (m.backtracks > 0 || m.end > 1), st)
    )
}

pub fn c06(rng: &mut Rng, st: &mut Stats, _t: bool) -> Verdict {
    let nsym = *rng.pick(&[3usize, 4, 5]);
    let mut f = Feat::strict();
    f.nsym = nsym;
    f.rules = 0;
    f.spans = false;
    f.depth = rng.range(0, 2);
    f.recover = rng.chance(1, 2);
    f.recover_pct = *rng.pick(&[20, 40]);
    f.strat_ops = 2;
    f.edits = false;
    let g = {
        let mut gen = Gen::new(rng, f.clone());
        gen.nrules = 0;
        let d = f.depth;
        let rep = match gen.rep(d, false) {
            G::Rep(mut r) => {
                // every combination of the options is equally likely
                let b = gen.rng.below(8);
                if r.sep.is_none() && b & 1 == 1 {
                    let s = gen.leaf();
                    if !nullable(&s) || r.max.is_some() {
                        r.sep = Some(s);
                    }
                }
                r.lead = b & 2 != 0 && r.max != Some(0);
                r.trail = b & 4 != 0;
                // mandatory parts may be recovered from
                if f.recover && gen.rng.chance(1, 2) && r.min > 0 {
                    let t = gen.tag + 1;
                    gen.tag += 1;
                    let item = std::mem::replace(&mut r.item, G::Empty);
                    let n = gen.rng.below(2);
                    r.item = G::Recover(
                        Box::new(item),
                        Strat {
                            ops: vec![Op::Skip; n],
                            fin: Fin::Return(t),
                        },
                    );
                    if r.max.is_none() {
                        r.max = Some(r.min + 3);
                    }
                }
                G::Rep(r)
            }
            g => g,
        };
        let b = Box::new;
        let start = match gen.rng.below(5) {
            0 => {
                let l = gen.leaf();
                G::ThenIgnore(b(rep), b(l))
            }
            1 => {
                let l = gen.leaf();
                G::Then(b(l), b(rep))
            }
            2 => {
                let l = gen.leaf();
                G::Or(b(G::ThenIgnore(b(rep), b(l))), b(G::Empty))
            }
            _ => rep,
        };
        Grammar {
            nsym: gen.f.nsym,
            rules: vec![],
            start,
        }
    };
    let h = ghash(&g);
    let noise = rng.below(8);
    let inputs = (0..10).map(|_| gen_input(&g, rng, nsym, noise)).collect();
    let c = Case { g, inputs, h };
    with_inst!(
        rng.below(3),
        model_case(
            &c,
            &Opts::default(),
            &[false, true],
            0,
            cmp_outcome,
            |_, i| i.len() > 1,
            st
        )
    )
}

pub fn c07(rng: &mut Rng, st: &mut Stats, _t: bool) -> Verdict {
    let mut f = Feat::all();
    f.nsym = *rng.pick(&[3, 5, 9]);
    f.recover_pct = *rng.pick(&[10, 20, 40]);
    let c = gen_case(rng, f, 8);
    with_inst!(rng.below(3), c07_in(&c, rng, st))
}
fn c07_in<T: Inst>(c: &Case, rng: &mut Rng, st: &mut Stats) -> Verdict {
    let mon = Rc::new(MonLog::default());
    let o = Opts {
        mon: if rng.chance(1, 2) { Some(mon.clone()) } else { None },
        ..Opts::default()
    };
    let real = build::<T>(&c.g, &o);
    for input in &c.inputs {
        let (Some(m), Some(mr)) = (model_run(&c.g, input, false), model_run(&c.g, input, true)) else {
            st.hit("beyond model fuel");
            continue;
        };
        let _ = m;
        st.evaluations += 1;
        let one = |input: &[u8]| -> Option<String> {
            let s = match run::<T>(&real.parser, input, false, 0, false) {
                Ok(s) => s,
                Err(e) => return Some(format!("without recovery: {e}")),
            };
            let r = match run::<T>(&real.parser, input, true, 0, false) {
                Ok(s) => s,
                Err(e) => return Some(format!("with recovery: {e}")),
            };
            let txt = format!("strict {:?} @{}; recovering {:?} @{}", s.res, s.end, r.res, r.end);
            match (&s.res, &r.res) {
                (MRes::R(..), _) => Some(format!("recovered result although recovery was off: {txt}")),
                (MRes::S(a), MRes::S(b)) => {
                    if a != b || s.end != r.end {
                        Some(format!("enabling recovery changed a success: {txt}"))
                    } else {
                        None
                    }
                }
                (MRes::S(_), _) => Some(format!("enabling recovery changed a success into something else: {txt}")),
                (MRes::F(..), MRes::S(_)) => Some(format!("invalid input became a plain success under recovery: {txt}")),
                (MRes::F(_, e), x) => {
                    if e.is_empty() || x.errs().is_empty() {
                        Some(format!("result without an error: {txt}"))
                    } else {
                        None
                    }
                }
            }
            .or_else(|| mon.shape.borrow_mut().take())
        };
        if mr.recov_runs > 0 {
            st.hit("strategies ran");
            st.add("strategy runs", mr.recov_runs as u64);
            st.nontrivial(mix(c.h, fnv(input)));
            st.sample(|| format!("{:?} on {:?} -> {:?}", c.g.start, syms_to_string(input), mr.res));
        }
        st.hit(mr.res.kind());
        if let Some(d) = one(input) {
            let (i, d) = shrink(input, d, &|x| {
                model_run(&c.g, x, false)?;
                model_run(&c.g, x, true)?;
                one(x)
            });
            return Verdict::Violation(describe(&c.g, &i, T::NAME, &d));
        }
    }
    Verdict::Held
}

pub fn c08(rng: &mut Rng, st: &mut Stats, _t: bool) -> Verdict {
    let mut f = Feat::all();
    f.choice = false;
    f.custom_parts = true;
    f.nsym = *rng.pick(&[3, 5]);
    f.recover_pct = *rng.pick(&[25, 40, 60]);
    f.scan = false;
    f.edits = rng.chance(1, 3);
    f.trymap = rng.chance(1, 2);
    f.maperr = rng.chance(1, 3);
    f.strat_ops = 2;
    let c = gen_case(rng, f, 8);
    fn cmp(m: &MRes, _: usize, r: &MRes, _: usize) -> Option<String> {
        match m {
            MRes::R(_, e) => match r {
                MRes::R(_, f) if e == f => None,
                MRes::R(_, _) => Some("the list of recovered errors is wrong".into()),
                _ => Some(format!("expected a recovered result, got {}", r.kind())),
            },
            _ => None,
        }
    }
    with_inst!(
        rng.below(3),
        model_case(
            &c,
            &Opts::default(),
            &[true],
            0,
            cmp,
            |m, _| matches!(&m.res, MRes::R(_, e) if e.len() > 1),
            st
        )
    )
}

pub fn c09(rng: &mut Rng, st: &mut Stats, _t: bool) -> Verdict {
    let mut f = Feat::all();
    f.nsym = *rng.pick(&[3, 5, 5]);
    f.recover_pct = *rng.pick(&[15, 30, 50]);
    f.strat_ops = 3;
    f.edits = false;
    f.maperr = false;
    let c = recover_choice_case(rng, f);
    with_inst!(
        rng.below(3),
        model_case(
            &c,
            &Opts::default(),
            &[true],
            0,
            cmp_outcome,
            |m, _| m.rec_choice > 0 || (m.choice_fail > 0 && m.recov_runs > 0),
            st
        )
    )
}
/// Choices whose alternatives have recovery and share prefixes.
fn recover_choice_case(rng: &mut Rng, f: Feat) -> Case {
    if rng.chance(1, 3) {
        return gen_case(rng, f, 8);
    }
    let nsym = f.nsym;
    let noise = rng.below(6);
    let g = {
        let mut gen = Gen::new(rng, f);
        gen.nrules = 0;
        let n = if gen.wide { gen.rng.range(2, 14) } else { gen.rng.range(2, 5) };
        let pre: Vec<u8> = (0..4).map(|_| gen.rng.below(nsym) as u8).collect();
        let mut alts = vec![];
        for _ in 0..n {
            let cut = gen.rng.range(0, 4);
            let body = G::Seq(pre[..cut].to_vec());
            let d = gen.rng.below(2);
            let tail = gen.gen(d, true);
            let mut a = G::Then(Box::new(body), Box::new(tail));
            if gen.rng.chance(4, 5) {
                gen.tag += 1;
                let t = gen.tag;
                let k = gen.rng.below(3);
                let ops = (0..k).map(|_| gen.op(1)).collect();
                let fin = if gen.rng.chance(2, 3) {
                    Fin::Return(t)
                } else {
                    Fin::OrFail
                };
                a = G::Recover(Box::new(a), Strat { ops, fin });
            }
            if gen.rng.chance(1, 4) {
                let s = gen.rng.below(nsym) as u8;
                a = G::Then(Box::new(a), Box::new(G::Just(s)));
            }
            alts.push(a);
        }
        let start = if n == 2 && gen.rng.chance(1, 2) {
            let b = alts.pop().unwrap();
            G::Or(Box::new(alts.pop().unwrap()), Box::new(b))
        } else {
            G::Alters(alts)
        };
        let start = if gen.rng.chance(1, 3) {
            let l = gen.leaf();
            G::Then(Box::new(l), Box::new(start))
        } else {
            start
        };
        Grammar {
            nsym: gen.f.nsym,
            rules: vec![],
            start,
        }
    };
    let h = ghash(&g);
    let inputs = (0..8).map(|_| gen_input(&g, rng, nsym, noise)).collect();
    Case { g, inputs, h }
}

pub fn c10(rng: &mut Rng, st: &mut Stats, _t: bool) -> Verdict {
    let mut f = Feat::all();
    f.nsym = *rng.pick(&[3, 5, 5, 9]);
    f.recover = rng.chance(1, 3);
    f.maperr = rng.chance(1, 2);
    f.trymap = rng.chance(1, 2);
    let c = if rng.chance(1, 2) {
        gen_case(rng, f, 8)
    } else {
        choice_case(rng, f)
    };
    let modes: &[bool] = if rng.chance(1, 2) { &[false] } else { &[false, true] };
    with_inst!(
        rng.below(3),
        model_case(&c, &Opts::default(), modes, 0, cmp_failure, |m, _| m.choice_fail > 0, st)
    )
}
/// Choices at the root, with alternatives that fail at various depths in
/// various ways.
fn choice_case(rng: &mut Rng, f: Feat) -> Case {
    let nsym = f.nsym;
    let g = {
        let mut gen = Gen::new(rng, f);
        gen.nrules = 0;
        let n = if gen.wide { gen.rng.range(2, 20) } else { gen.rng.range(2, 6) };
        let pre: Vec<u8> = (0..4).map(|_| gen.rng.below(nsym) as u8).collect();
        let mut alts = vec![];
        for _ in 0..n {
            let cut = gen.rng.range(0, 3);
            let tail = match gen.rng.below(7) {
                0 => G::End,
                1 => gen.gen(1, true),
                2 => {
                    let m = gen.mask();
                    G::Filter(m)
                }
                3 => {
                    gen.tag += 2;
                    let l = gen.leaf();
                    G::TryMap(Box::new(l), TryKind::Err(gen.rng.range(1, 2)), gen.tag)
                }
                4 if gen.f.maperr => {
                    gen.tag += 1;
                    let l = gen.leaf();
                    G::MapErr(Box::new(l), gen.tag)
                }
                _ => gen.leaf(),
            };
            let a = G::Then(Box::new(G::Seq(pre[..cut].to_vec())), Box::new(tail));
            alts.push(a);
        }
        let start = if gen.rng.chance(1, 2) {
            G::Alters(alts)
        } else {
            // nested two-way choices
            let mut it = alts.into_iter();
            let mut a = it.next().unwrap();
            for b in it {
                a = if gen.rng.chance(1, 2) {
                    G::Or(Box::new(a), Box::new(b))
                } else {
                    G::Or(Box::new(b), Box::new(a))
                };
            }
            a
        };
        Grammar {
            nsym: gen.f.nsym,
            rules: vec![],
            start,
        }
    };
    let h = ghash(&g);
    let noise = rng.below(10);
    let inputs = (0..10).map(|_| gen_input(&g, rng, nsym, noise)).collect();
    Case { g, inputs, h }
}

pub fn c11(rng: &mut Rng, st: &mut Stats, _t: bool) -> Verdict {
    let mut f = Feat::strict();
    f.choice = false;
    f.ornot = rng.chance(1, 2);
    f.nsym = *rng.pick(&[3, 5, 9]);
    f.depth = rng.range(0, 5);
    let c = gen_case(rng, f, 8);
    let start = rng.below(4) as u64;
    with_inst!(
        rng.below(3),
        model_case(
            &c,
            &Opts::default(),
            &[false],
            start,
            cmp_failure,
            |m, _| matches!(m.res, MRes::F(i, _) if i > 0),
            st
        )
    )
}

pub fn c12(rng: &mut Rng, st: &mut Stats, _t: bool) -> Verdict {
    let mut f = Feat::all();
    f.choice = false;
    f.nsym = *rng.pick(&[3, 5, 9]);
    f.rules = 0;
    f.recover = true;
    f.recover_pct = *rng.pick(&[0, 0, 10]);
    f.strat_ops = rng.range(1, 7);
    f.trymap = rng.chance(1, 4);
    f.maperr = rng.chance(1, 4);
    let nsym = f.nsym;
    let g = {
        let d = rng.below(3);
        let mut gen = Gen::new(rng, f);
        gen.nrules = 0;
        let child = if d == 0 { gen.leaf() } else { gen.gen(d, true) };
        let s = gen.strat();
        let mut g = G::Recover(Box::new(child), s);
        if gen.rng.chance(1, 2) {
            let p = G::Rep(Box::new(Rep {
                item: G::NoneOf(vec![gen.rng.below(nsym) as u8]),
                sep: None,
                min: 0,
                max: Some(gen.rng.range(0, 3)),
                lead: false,
                trail: false,
                via_sep: false,
                exactly: false,
            }));
            g = G::Then(Box::new(p), Box::new(g));
        }
        if gen.rng.chance(1, 3) {
            let l = gen.leaf();
            g = G::Then(Box::new(g), Box::new(l));
        }
        Grammar {
            nsym: gen.f.nsym,
            rules: vec![],
            start: g,
        }
    };
    let h = ghash(&g);
    let noise = rng.below(25);
    let inputs = (0..8).map(|_| gen_input(&g, rng, nsym, noise)).collect();
    let c = Case { g, inputs, h };
    let o = Opts {
        shorthand: rng.chance(1, 2),
        ..Opts::default()
    };
    with_inst!(
        rng.below(3),
        model_case(&c, &o, &[true], rng.below(3) as u64, cmp_all, |m, _| m.ops_run > 0, st)
    )
}

pub fn c13(rng: &mut Rng, st: &mut Stats, _t: bool) -> Verdict {
    if rng.chance(1, 2) {
        return with_inst!(rng.below(3), c13_direct(rng, st));
    }
    // through the strategy
    let k = rng.below(DELIMS.len());
    let set = DELIMS[k];
    let mut ops = vec![];
    let n = rng.range(1, 3);
    for _ in 0..n {
        ops.push(match rng.below(6) {
            0 => Op::Skip,
            1 => Op::ScanRec(rng.below(9) as u32, rng.range(1, 6), 1 << rng.below(9)),
            _ => Op::Scan(k),
        });
    }
    if rng.chance(1, 3) {
        ops.push(Op::PushTok(7));
    }
    let fin = if rng.chance(3, 4) { Fin::ReturnWithSpan(1) } else { Fin::OrFail };
    let g = Grammar {
        nsym: 0,
        rules: vec![],
        start: G::Recover(Box::new(G::Filter(0)), Strat { ops, fin }),
    };
    let h = ghash(&g);
    let inputs = (0..8).map(|_| delim_input(rng, set)).collect();
    let c = Case { g, inputs, h };
    with_inst!(
        rng.below(3),
        model_case(
            &c,
            &Opts::default(),
            &[true],
            rng.below(3) as u64,
            cmp_all,
            |m, _| m.res.errs().len() > 1,
            st
        )
    )
}
fn delim_input(rng: &mut Rng, set: &[(u8, u8)]) -> Vec<u8> {
    // now and then long and deep
    let deep = rng.chance(1, 8);
    let n = rng.range(0, if deep { 160 } else { 24 });
    let up = if deep { rng.range(2, 9) } else { 6 };
    let mut v = vec![];
    let mut open = vec![];
    let honest = rng.range(0, 10);
    if !set.is_empty() && rng.chance(9, 10) {
        let d = rng.pick(set);
        v.push(d.0);
        open.push(d.1);
    }
    for _ in 0..n {
        if set.is_empty() || rng.chance(1, 5) {
            v.push(rng.below(9) as u8);
        } else if rng.chance(honest, 11) && !open.is_empty() && rng.chance(1, 2) {
            v.push(open.pop().unwrap());
        } else {
            let d = rng.pick(set);
            if rng.chance(up, 9) {
                v.push(d.0);
                open.push(d.1);
            } else {
                v.push(d.1);
            }
        }
    }
    v
}
fn c13_direct<T: Inst>(rng: &mut Rng, st: &mut Stats) -> Verdict {
    let k = rng.below(DELIMS.len());
    for _ in 0..6 {
        let input = delim_input(rng, DELIMS[k]);
        T::set_ctx(&input, 0);
        st.evaluations += 1;
        let one = |input: &[u8]| -> Option<String> {
            T::set_ctx(input, 0);
            reset_steps(STEP_MAX);
            let mut d = Delims::new(DELIMS[k]);
            let mut want = vec![];
            let mut stop = None;
            for (i, &s) in input.iter().enumerate() {
                if d.token(s, i, &mut want) {
                    stop = Some(i);
                    break;
                }
            }
            if stop.is_none() {
                d.eof(input.len(), &mut want);
            }
            let log = Rc::new(SrcLog::default());
            let r = guarded(|| {
                let f = scanner::nested_delimiters::<T::I, T::Sp>(T::delims(k));
                // a scanner used before must not influence a fresh one
                let mut warm = f();
                let mut junk: Vec<T::E> = vec![];
                let mut s: St<T> = Stream::new_with_location(Src::<T>::new(input, &log), T::start(0));
                {
                    let a = s.save();
                    if let Some(t) = s.token().cloned() {
                        let sp = s.span();
                        let _ = Scanner::<T::I, T::E>::scan(&mut warm, t, sp, &mut junk);
                    }
                    s.restore(&a);
                }
                let mut sc = f();
                let mut errs: Vec<T::E> = vec![];
                let mut stop = None;
                loop {
                    match s.token().cloned() {
                        Some(t) => {
                            let sp = s.span();
                            if Scanner::<T::I, T::E>::scan(&mut sc, t, sp, &mut errs) {
                                stop = Some(s.index());
                                break;
                            }
                            s.advance();
                        }
                        None => {
                            let l = s.location();
                            Scanner::<T::I, T::E>::eof(&mut sc, l, &mut errs);
                            break;
                        }
                    }
                }
                (stop, errs.iter().map(T::err).collect::<Vec<_>>())
            });
            match r {
                Err(e) => Some(e),
                Ok((s, e)) => {
                    let (e, want) = if T::HAS_ID {
                        (e, want)
                    } else {
                        (
                            e.into_iter().map(PErr::strip_ids).collect(),
                            want.into_iter().map(PErr::strip_ids).collect::<Vec<_>>(),
                        )
                    };
                    if s != stop {
                        Some(format!("stopped at {s:?} instead of {stop:?} (delimiters {:?})", DELIMS[k]))
                    } else if e != want {
                        Some(format!("reported {e:?}\n  instead of {want:?} (delimiters {:?})", DELIMS[k]))
                    } else {
                        None
                    }
                }
            }
        };
        let mut d = Delims::new(DELIMS[k]);
        let mut es = vec![];
        let mut depth = 0;
        for (i, &s) in input.iter().enumerate() {
            if d.token(s, i, &mut es) {
                break;
            }
            depth = depth.max(d.open.len());
        }
        st.max("nesting depth", depth as u64);
        st.add("mismatches", es.len() as u64);
        if depth > 1 {
            st.nontrivial(mix(k as u64, fnv(&input)));
            st.sample(|| format!("delimiters {:?} on {:?}", DELIMS[k], syms_to_string(&input)));
        }
        if let Some(m) = one(&input) {
            let (i, m) = shrink(&input, m, &one);
            return Verdict::Violation(format!("{m}\n  instance {}\n  input {:?}", T::NAME, syms_to_string(&i)));
        }
    }
    Verdict::Held
}

fn collect_positions(r: &MRes) -> Vec<PAt> {
    fn go(v: &Val, o: &mut Vec<PAt>) {
        match v {
            Val::SomeV(a) | Val::Mapped(_, a) => go(a, o),
            Val::Pair(a, b) => {
                go(a, o);
                go(b, o)
            }
            Val::List(x) => x.iter().for_each(|a| go(a, o)),
            Val::Spanned(_, a, x, y) | Val::TM(_, a, x, y) => {
                go(a, o);
                o.push(PAt::Span(*x, *y))
            }
            Val::RetSpan(_, x, y) => o.push(PAt::Span(*x, *y)),
            Val::Tok(_, i) => o.push(PAt::Loc(*i)),
            _ => (),
        }
    }
    let mut o = vec![];
    if let Some(v) = r.val() {
        go(v, &mut o)
    }
    for e in r.errs() {
        o.push(e.at());
        match e {
            PErr::UL(_, _, s, _) | PErr::UR(_, _, s, _) => o.push(PAt::Span(s.0, s.1)),
            PErr::UT(_, _, s, _, _, _) => o.push(PAt::Span(s.0, s.1)),
            _ => (),
        }
    }
    o
}

pub fn c14(rng: &mut Rng, st: &mut Stats, _t: bool) -> Verdict {
    let mut f = Feat::all();
    f.nsym = *rng.pick(&[3, 5, 9, 9]);
    f.recover_pct = *rng.pick(&[0, 10, 25]);
    let c = gen_case(rng, f, 6);
    let o = Opts::default();
    let start = rng.below(12) as u64;
    fn cmp(m: &MRes, _: usize, r: &MRes, _: usize) -> Option<String> {
        // positions can be compared one by one if the rest agrees
        let same = m.kind() == r.kind()
            && m.val().map(|v| v.shape_hash()) == r.val().map(|v| v.shape_hash())
            && m.errs().len() == r.errs().len();
        if !same {
            return None;
        }
        let (a, b) = (collect_positions(m), collect_positions(r));
        if a.len() == b.len() && a != b {
            let i = (0..a.len()).find(|&i| a[i] != b[i]).unwrap();
            return Some(format!("position {:?} should be {:?}", b[i], a[i]));
        }
        None
    }
    let rule: Rule = |m, _| {
        let p = collect_positions(&m.res);
        p.iter().any(|x| matches!(x, PAt::Span(a, b) if *b > *a && *a > 0)) || p.iter().any(|x| matches!(x, PAt::Loc(a) if *a > 0))
    };
    let v = match rng.below(5) {
        0 => model_case::<A>(&c, &o, &[false, true], 0, cmp, rule, st),
        1 | 2 => model_case::<B>(&c, &o, &[false, true], start, cmp, rule, st),
        _ => model_case::<C>(&c, &o, &[false, true], start, cmp, rule, st),
    };
    if let Verdict::Held = v {
        let n = take_notes();
        if !n.is_empty() {
            return Verdict::Violation(describe(&c.g, &[], "B/C", &n.join("\n")));
        }
        // span of part = first token of the part .. just past its last token,
        // also through the streaming entry point
        return with_inst!(rng.range(1, 2), c14_stream(&c, start, st));
    }
    v
}
/// Spans reported by a streamed parse are those of the source as a whole.
fn c14_stream<T: Inst>(c: &Case, start: u64, st: &mut Stats) -> Verdict {
    let real = build::<T>(&c.g, &Opts::default());
    for input in c.inputs.iter().take(2) {
        let mut want = vec![];
        let mut pos = 0;
        while pos < input.len() && want.len() < 5 {
            match model_run_at(&c.g, input, true, pos, false) {
                Some(m) => {
                    want.push(m.res);
                    if m.end == pos {
                        break;
                    }
                    pos = m.end;
                }
                None => break,
            }
        }
        T::set_ctx(input, start);
        reset_steps(STEP_MAX);
        let log = Rc::new(SrcLog::default());
        let r = guarded(|| {
            let s = real.parser.stream_with_location(Src::<T>::new(input, &log), T::start(start));
            s.take(want.len()).map(view::<T>).collect::<Vec<_>>()
        });
        let got = match r {
            Ok(g) => g,
            Err(e) => return Verdict::Violation(describe(&c.g, input, T::NAME, &format!("streaming: {e}"))),
        };
        st.add("streamed items", got.len() as u64);
        for (k, (m, r)) in want.iter().zip(&got).enumerate() {
            if m.kind() != r.kind()
                || m.val().map(|v| v.shape_hash()) != r.val().map(|v| v.shape_hash())
                || m.errs().len() != r.errs().len()
            {
                break;
            }
            let m = ids(m.clone(), T::HAS_ID);
            let r = ids(r.clone(), T::HAS_ID);
            let (a, b) = (collect_positions(&m), collect_positions(&r));
            if a.len() == b.len() && a != b {
                return Verdict::Violation(describe(
                    &c.g,
                    input,
                    T::NAME,
                    &format!("item {k} of a streamed parse reports positions {b:?} instead of {a:?}"),
                ));
            }
        }
    }
    Verdict::Held
}

pub fn c17(rng: &mut Rng, st: &mut Stats, _t: bool) -> Verdict {
    let mut f = Feat::all();
    f.choice = false;
    f.nsym = *rng.pick(&[3, 5]);
    f.recover_pct = *rng.pick(&[0, 15, 30]);
    f.scan = false;
    f.edits = false;
    f.strat_ops = 2;
    f.depth = rng.range(1, 4);
    let mut c = gen_case(rng, f, 6);
    // make sure that maps are what this is about
    let b = Box::new;
    let s = std::mem::replace(&mut c.g.start, G::Empty);
    c.g.start = match rng.below(7) {
        0 => G::TryMap(b(s), TryKind::Rec(rng.range(1, 3)), 900),
        1 => G::TryMap(b(s), TryKind::Err(rng.range(1, 3)), 900),
        2 => G::TryMap(b(s), TryKind::Ok, 900),
        3 => G::MapErr(b(G::TryMap(b(s), TryKind::ByHash, 900)), 901),
        4 => G::Map(b(s), 900),
        5 => G::MapErrSpan(b(s), 900),
        _ => s,
    };
    c.h = ghash(&c.g);
    with_inst!(rng.below(3), c17_in(&c, st))
}
fn c17_in<T: Inst>(c: &Case, st: &mut Stats) -> Verdict {
    let calls = Rc::new(RefCell::new(vec![]));
    let o = Opts {
        calls: Some(calls.clone()),
        ..Opts::default()
    };
    let real = build::<T>(&c.g, &o);
    for input in &c.inputs {
        for rec in [false, true] {
            let one = |input: &[u8]| -> Option<String> {
                let m = model_run_at(&c.g, input, rec, 0, true)?;
                calls.borrow_mut().clear();
                let d = compare_one::<T>(&c.g, &real.parser, input, rec, 0, cmp_all);
                if d.is_some() {
                    return d;
                }
                if !T::HAS_ID {
                    // argument texts name token identities
                    let n: Vec<_> = calls.borrow().iter().filter(|c| out_call(c)).map(|c| (c.kind, c.tag)).collect();
                    let w: Vec<_> = m.calls.iter().map(|c| (c.0, c.1)).collect();
                    if n != w {
                        return Some(format!("output maps were called {n:?} instead of {w:?}"));
                    }
                    return None;
                }
                let n: Vec<_> = calls
                    .borrow()
                    .iter()
                    .filter(|c| out_call(c))
                    .map(|c| (c.kind, c.tag, c.arg.clone()))
                    .collect();
                if n != m.calls {
                    return Some(format!("output maps were called with {n:?}\n  instead of {:?}", m.calls));
                }
                None
            };
            let Some(m) = model_run_at(&c.g, input, rec, 0, true) else {
                st.hit("beyond model fuel");
                continue;
            };
            st.evaluations += 1;
            st.hit(m.res.kind());
            st.add("output map calls", m.calls.len() as u64);
            if !m.calls.is_empty() || !m.res.errs().is_empty() {
                st.nontrivial(mix(c.h, fnv(input)) ^ rec as u64);
                st.sample(|| format!("{:?} on {:?} -> {:?}", c.g.start, syms_to_string(input), m.res));
            }
            if let Some(d) = one(input) {
                let (i, d) = shrink(input, d, &one);
                return Verdict::Violation(describe(&c.g, &i, T::NAME, &format!("{d} (recovery={rec})")));
            }
        }
    }
    Verdict::Held
}
fn out_call(c: &Call) -> bool {
    matches!(c.kind, "map" | "map_span" | "try_map")
}

pub fn c21(rng: &mut Rng, st: &mut Stats, _t: bool) -> Verdict {
    let mut f = Feat::all();
    f.nsym = *rng.pick(&[3, 5, 9]);
    f.recover_pct = *rng.pick(&[0, 15, 30]);
    let c = gen_case(rng, f, 6);
    let ra = build::<A>(&c.g, &Opts::default());
    let rb = build::<B>(&c.g, &Opts::default());
    let rc = build::<C>(&c.g, &Opts::default());
    let rd = build::<D>(&c.g, &Opts::default());
    for input in &c.inputs {
        for rec in [false, true] {
            let one = |input: &[u8]| -> Option<String> {
                let m = model_run(&c.g, input, rec)?;
                let _ = m;
                let show = |r: Result<Run, String>| match r {
                    Ok(r) => {
                        let fi = if let MRes::F(i, _) = &r.res { Some(*i) } else { None };
                        format!(
                            "{} {:?} end={} failure index={fi:?} errors={}",
                            r.res.kind(),
                            r.res.val().map(|v| v.clone().map_leaves(false, false)),
                            r.end,
                            r.res.errs().len()
                        )
                    }
                    Err(e) => e,
                };
                let v = [
                    (A::NAME, show(run::<A>(&ra.parser, input, rec, 0, false))),
                    (B::NAME, show(run::<B>(&rb.parser, input, rec, 2, false))),
                    (C::NAME, show(run::<C>(&rc.parser, input, rec, 1, false))),
                    (D::NAME, show(run::<D>(&rd.parser, input, rec, 0, false))),
                ];
                for x in &v[1..] {
                    if x.1 != v[0].1 {
                        return Some(format!(
                            "outcomes differ (recovery={rec}):\n  {}: {}\n  {}: {}",
                            v[0].0, v[0].1, x.0, x.1
                        ));
                    }
                }
                if v[0].1.starts_with("panic") {
                    return Some(v[0].1.clone());
                }
                None
            };
            let Some(m) = model_run(&c.g, input, rec) else {
                st.hit("beyond model fuel");
                continue;
            };
            st.evaluations += 1;
            st.hit(m.res.kind());
            if !m.res.errs().is_empty() {
                st.nontrivial(mix(c.h, fnv(input)) ^ rec as u64);
                st.sample(|| format!("{:?} on {:?} -> {:?}", c.g.start, syms_to_string(input), m.res));
            }
            if let Some(d) = one(input) {
                let (i, d) = shrink(input, d, &one);
                return Verdict::Violation(describe(&c.g, &i, "A/B/C/D", &d));
            }
        }
    }
    Verdict::Held
}
