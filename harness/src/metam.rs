//! Metamorphic checks: the library against itself.
use crate::ast::*;
use crate::canon::*;
use crate::checks::*;
use crate::inst::*;
use crate::real::*;
use crate::util::*;
use parse_proof_of_concept::parser::{self, Parser};
use parse_proof_of_concept::stream::Stream;
use std::rc::Rc;

macro_rules! with_inst {
    ($k:expr, $f:ident($($a:expr),*)) => {
        match $k {
            0 => $f::<A>($($a),*),
            1 => $f::<B>($($a),*),
            _ => $f::<C>($($a),*),
        }
    };
}

pub fn c15(rng: &mut Rng, st: &mut Stats, _t: bool) -> Verdict {
    let mut f = Feat::all();
    f.nsym = *rng.pick(&[3, 5, 9]);
    f.recover_pct = *rng.pick(&[0, 15, 30]);
    f.depth = rng.range(0, 4);
    let nsym = f.nsym;
    let noise = rng.below(6);
    let g = Gen::new(rng, f).grammar();
    // inputs made of several items
    let inputs = (0..4)
        .map(|_| {
            let mut v = vec![];
            for _ in 0..rng.range(0, 4) {
                v.extend(gen_input(&g, rng, nsym, noise));
            }
            v.truncate(90);
            v
        })
        .collect();
    let h = ghash(&g);
    let c = Case { g, inputs, h };
    let start = rng.below(3) as u64;
    with_inst!(rng.below(3), c15_in(&c, start, rng, st))
}

fn c15_in<T: Inst>(c: &Case, start: u64, rng: &mut Rng, st: &mut Stats) -> Verdict {
    let real = build::<T>(&c.g, &Opts::default());
    for input in &c.inputs {
        let n = input.len();
        // keep clear of exponential re-parsing
        let fine = model_stream_ok(&c.g, input, 40);
        if !fine {
            st.hit("beyond model fuel");
            continue;
        }
        st.evaluations += 1;
        let cut = rng.below(8);
        let r = guarded(|| -> Result<(usize, usize), String> {
            T::set_ctx(input, start);
            reset_steps(20 * STEP_MAX);
            let log = Rc::new(SrcLog::default());
            let mut s = real
                .parser
                .stream_with_location(Src::<T>::new(input, &log).zombie(), T::start(start));
            // the reference walks the same source with its own stream
            let mut at = 0usize;
            let mut stuck = 0;
            let mut items = 0usize;
            let mut progressed = 0usize;
            loop {
                if items == cut && rng.chance(1, 2) {
                    break;
                }
                let item = s.next().map(view::<T>);
                if at == n {
                    if item.is_some() {
                        return Err(format!("the stream yields item {items} although the input is exhausted"));
                    }
                    if s.next().is_some() || s.next().is_some() {
                        return Err("the stream yields another item after it ended".into());
                    }
                    break;
                }
                let Some(item) = item else {
                    return Err(format!("the stream ended at position {at} of {n}"));
                };
                // a fresh stream moved to the same position
                let log2 = Rc::new(SrcLog::default());
                let mut f: St<T> = Stream::new_with_location(Src::<T>::new(input, &log2), T::start(start));
                for _ in 0..at {
                    f.advance();
                }
                let want = view::<T>(real.parser.parse_internal(&mut f, true));
                let end = f.index();
                if item != want {
                    return Err(format!(
                        "item {items} (from position {at}) of the streamed parse is {item:?}\n  but parsing what is left gives {want:?}"
                    ));
                }
                // an independent parse of just the remaining tokens
                let mut f: St<T> = Stream::new_with_location(Src::<T>::new(&input[at..], &log2), T::start(start));
                // (positions differ by `at` there, so only shapes compare, and
                // the tracker oracle does not apply)
                let r = real.parser.parse_internal(&mut f, true);
                let (k, h, e) = match &r {
                    parser::Result::Success(v) => ("success", v.shape_hash(), 0),
                    parser::Result::Recovered(v, e) => ("recovered", v.shape_hash(), e.len()),
                    parser::Result::Failed(_, e) => ("failed", 0, e.len()),
                };
                take_notes();
                if k != item.kind() || h != item.val().map_or(0, |v| v.shape_hash()) || e != item.errs().len() || f.index() != end - at {
                    return Err(format!(
                        "item {items} (from position {at}) of the streamed parse is {item:?} up to {end}\n  but parsing just the remaining tokens gives {k}, {e} errors, up to {}",
                        at + f.index()
                    ));
                }
                items += 1;
                if end == at {
                    stuck += 1;
                    if stuck > 2 {
                        break;
                    }
                } else {
                    progressed += 1;
                    stuck = 0;
                }
                at = end;
            }
            let tail: Vec<(u8, usize)> = s.tail().map(|t| (T::sym(&t), T::id(&t))).take(n + 5).collect();
            let syms: Vec<u8> = tail.iter().map(|t| t.0).collect();
            if syms != input[at..] {
                return Err(format!(
                    "after {items} items up to position {at} the tail reads {:?} instead of {:?}",
                    syms_to_string(&syms),
                    syms_to_string(&input[at..])
                ));
            }
            if T::HAS_ID && tail.iter().enumerate().any(|(i, t)| t.1 != at + i) {
                return Err(format!("the tail hands out the wrong tokens: {tail:?}"));
            }
            Ok((items, progressed))
        });
        let r = match r {
            Err(e) => Err(e),
            Ok(r) => r,
        };
        match r {
            Ok((items, progressed)) => {
                st.add("streamed items", items as u64);
                st.add("items that consumed input", progressed as u64);
                if progressed > 1 {
                    st.nontrivial(mix(c.h, fnv(input)));
                    st.sample(|| format!("{:?} on {:?}: {items} items", c.g.start, syms_to_string(input)));
                }
            }
            Err(e) => return Verdict::Violation(describe(&c.g, input, T::NAME, &e)),
        }
    }
    Verdict::Held
}

// ---------------------------------------------------------------------------

pub fn c16(rng: &mut Rng, st: &mut Stats, _t: bool) -> Verdict {
    let mut f = Feat::all();
    f.nsym = *rng.pick(&[3, 5, 9]);
    f.recover_pct = *rng.pick(&[5, 20, 35]);
    f.strat_ops = 5;
    let c = gen_case(rng, f, 5);
    with_inst!(rng.below(3), c16_in(&c, rng, st))
}

fn c16_in<T: Inst>(c: &Case, rng: &mut Rng, st: &mut Stats) -> Verdict {
    let base = build::<T>(&c.g, &Opts::default());
    let bits = rng.range(1, 31);
    let o = Opts {
        clone: bits & 1 != 0,
        rebox: bits & 2 != 0,
        with_err: bits & 4 != 0,
        shorthand: bits & 8 != 0,
        rec_fn: bits & 16 != 0,
        ..Opts::default()
    };
    let variant = build::<T>(&c.g, &o);
    // every rule, and the start symbol, reached through one more reference
    let wrapped = {
        let mut g = c.g.clone();
        g.rules.push(g.start.clone());
        let k = g.rules.len() - 1;
        g.start = G::Ref(k);
        build::<T>(&g, &Opts::default())
    };
    let ok: Vec<&Vec<u8>> = c
        .inputs
        .iter()
        .filter(|i| model_run(&c.g, i, true).is_some() && model_run(&c.g, i, false).is_some())
        .collect();
    let obs = |p: &PB<T>, i: &[u8], rec: bool| match run::<T>(p, i, rec, 1, false) {
        Ok(r) => format!("{:?} @{}", r.res, r.end),
        Err(e) => e,
    };
    let mut first = vec![];
    for input in &ok {
        for rec in [false, true] {
            st.evaluations += 1;
            let a = obs(&base.parser, input, rec);
            for (what, p) in [("variant", &variant), ("recursive reference", &wrapped)] {
                let b = obs(&p.parser, input, rec);
                if a != b {
                    let d = format!(
                        "{what} (clone={} box={} error annotation={} shorthand strategies={} recursive()={}) behaves differently (recovery={rec}):\n  plain:   {a}\n  variant: {b}",
                        o.clone, o.rebox, o.with_err, o.shorthand, o.rec_fn
                    );
                    let (i, d) = shrink(input, d, &|x| {
                        model_run(&c.g, x, rec)?;
                        let (a, b) = (obs(&base.parser, x, rec), obs(&p.parser, x, rec));
                        if a != b {
                            Some(format!("{what} behaves differently (recovery={rec}):\n  plain:   {a}\n  variant: {b}"))
                        } else {
                            None
                        }
                    });
                    return Verdict::Violation(describe(&c.g, &i, T::NAME, &d));
                }
            }
            st.nontrivial(mix(mix(c.h, fnv(input)), (bits * 2 + rec as usize) as u64));
            st.sample(|| format!("{:?} on {:?}, variant bits {bits}", c.g.start, syms_to_string(input)));
            first.push((*input, rec, a));
        }
    }
    // the same parser again, after everything it has been used for
    for (input, rec, a) in first.iter().rev() {
        let b = obs(&base.parser, input, *rec);
        if *a != b {
            return Verdict::Violation(describe(
                &c.g,
                input,
                T::NAME,
                &format!("the same parser on the same input (recovery={rec}) first gave {a}\n  and later {b}"),
            ));
        }
        st.hit("reuses");
    }
    // interleaved and nested uses
    if ok.len() >= 2 {
        let (x, y) = (ok[0], ok[1]);
        if !model_stream_ok(&c.g, x, 5) || !model_stream_ok(&c.g, y, 5) {
            st.hit("beyond model fuel");
            return Verdict::Held;
        }
        let alone = |i: &[u8]| -> Result<Vec<u64>, String> {
            T::set_ctx(i, 0);
            reset_steps(STEP_MAX);
            let log = Rc::new(SrcLog::default());
            guarded(|| {
                let s = base.parser.stream_with_location(Src::<T>::new(i, &log), T::start(0));
                s.take(4).map(|r| key::<T>(&r)).collect()
            })
        };
        let (ax, ay) = (alone(x), alone(y));
        reset_steps(STEP_MAX);
        let log = Rc::new(SrcLog::default());
        let both = guarded(|| {
            let mut s = base.parser.stream_with_location(Src::<T>::new(x, &log), T::start(0));
            let mut t = base.parser.stream_with_location(Src::<T>::new(y, &log), T::start(0));
            let (mut a, mut b) = (vec![], vec![]);
            for _ in 0..4 {
                a.extend(s.next().map(|r| key::<T>(&r)));
                b.extend(t.next().map(|r| key::<T>(&r)));
            }
            (a, b)
        });
        take_notes();
        if let (Ok(ax), Ok(ay)) = (&ax, &ay) {
            st.hit("interleaved streams");
            match both {
                Ok((a, b)) if a == *ax && b == *ay => (),
                Ok((a, b)) => {
                    return Verdict::Violation(describe(
                        &c.g,
                        x,
                        T::NAME,
                        &format!(
                            "two interleaved streamed parses (other input {:?}) give {a:?} and {b:?} instead of {ax:?} and {ay:?}",
                            syms_to_string(y)
                        ),
                    ))
                }
                Err(e) => return Verdict::Violation(describe(&c.g, x, T::NAME, &format!("interleaved streams: {e}"))),
            }
        }
        // the parser runs itself on another input while it is being used
        let inner = base.parser.clone();
        let other: Vec<u8> = y.to_vec();
        let plain = |i: &[u8]| match run::<T>(&base.parser, i, true, 0, false) {
            Ok(r) => (r.res.kind(), r.res.val().map_or(0, |v| v.shape_hash()), r.end, r.res.errs().len()),
            Err(e) => {
                let _ = e;
                ("panic", 0, 0, 0)
            }
        };
        let (wx, wy) = (plain(x), plain(y));
        let seen = Rc::new(std::cell::RefCell::new(vec![]));
        let seen2 = seen.clone();
        let nest = Cut2::<T> {
            inner: base.parser.clone(),
            f: Box::new(move || {
                let log = Rc::new(SrcLog::default());
                let mut s: St<T> = Stream::new_with_location(Src::<T>::new(&other, &log), T::start(0));
                let r = inner.parse_internal(&mut s, true);
                seen2.borrow_mut().push((kind::<T>(&r), s.index()));
            }),
        };
        reset_steps(2 * STEP_MAX);
        let log = Rc::new(SrcLog::default());
        let r = guarded(|| {
            let mut s: St<T> = Stream::new_with_location(Src::<T>::new(x, &log), T::start(0));
            let r = nest.parse_internal(&mut s, true);
            (kind::<T>(&r), s.index())
        });
        take_notes();
        match r {
            Ok((k, e)) => {
                st.hit("nested uses");
                if k != wx.0 || e != wx.2 || seen.borrow().iter().any(|s| s.0 != wy.0 || s.1 != wy.2) {
                    return Verdict::Violation(describe(
                        &c.g,
                        x,
                        T::NAME,
                        &format!(
                            "a use nested in another gave {:?} (alone {wy:?}), the outer one {k} @{e} (alone {wx:?})",
                            seen.borrow()
                        ),
                    ));
                }
            }
            Err(e) => {
                if wx.0 != "panic" && wy.0 != "panic" {
                    return Verdict::Violation(describe(&c.g, x, T::NAME, &format!("nested use: {e}")));
                }
            }
        }
    }
    Verdict::Held
}

/// Runs `f` in the middle of using `inner`.
struct Cut2<T: Inst> {
    inner: PB<T>,
    f: Box<dyn Fn()>,
}
struct Hook<T: Inst> {
    inner: PB<T>,
    f: std::cell::Cell<Option<*const dyn Fn()>>,
}
impl<T: Inst> Parser<'static, T::I> for Cut2<T> {
    type Output = Val;
    type Error = T::E;
    fn parse_internal(&self, s: &mut St<T>, rec: bool) -> RRes<T> {
        // a source of tokens that uses the parser while it is being polled is
        // the most intrusive form of nesting; before and after will do too
        (self.f)();
        let h = Hook::<T> {
            inner: self.inner.clone(),
            f: std::cell::Cell::new(None),
        };
        let _ = &h.f;
        let r = h.inner.parse_internal(s, rec);
        (self.f)();
        r
    }
}
fn kind<T: Inst>(r: &RRes<T>) -> &'static str {
    match r {
        parser::Result::Success(_) => "success",
        parser::Result::Recovered(..) => "recovered",
        parser::Result::Failed(..) => "failed",
    }
}
fn key<T: Inst>(r: &RRes<T>) -> u64 {
    let v = match r {
        parser::Result::Success(v) => mix(1, v.shape_hash()),
        parser::Result::Recovered(v, e) => mix(mix(2, v.shape_hash()), e.len() as u64),
        parser::Result::Failed(i, e) => mix(mix(3, *i as u64), e.len() as u64),
    };
    v
}

// ---------------------------------------------------------------------------

pub fn c18(rng: &mut Rng, st: &mut Stats, _t: bool) -> Verdict {
    if rng.chance(1, 4) {
        return c18_result(rng, st);
    }
    let mut f = Feat::all();
    f.nsym = *rng.pick(&[3, 5, 9]);
    f.recover_pct = *rng.pick(&[5, 20, 35]);
    f.depth = rng.range(0, 4);
    let c = gen_case(rng, f, 6);
    match rng.below(4) {
        0 => c18_default::<A>(&c, st),
        1 => c18_default::<C>(&c, st),
        2 => c18_default::<D>(&c, st),
        _ => c18_loc::<B>(&c, rng.below(4) as u64, st),
    }
}
type Seen = (MRes, Option<Result<Val, PErr>>);
fn std_view<T: Inst>(r: Result<Val, T::E>) -> Result<Val, PErr> {
    r.map_err(|e| T::err(&e))
}
fn expect_std(r: &MRes) -> Result<Val, PErr> {
    match r {
        MRes::S(v) => Ok(v.clone()),
        MRes::R(_, e) | MRes::F(_, e) => Err(e[0].clone()),
    }
}
fn c18_common<T: Inst>(c: &Case, input: &[u8], start: u64, st: &mut Stats) -> Option<Result<(Real<T>, MRes), String>> {
    if model_run(&c.g, input, true).is_none() {
        st.hit("beyond model fuel");
        return None;
    }
    let real = build::<T>(&c.g, &Opts::default());
    T::set_ctx(input, start);
    reset_steps(20 * STEP_MAX);
    let log = Rc::new(SrcLog::default());
    let src = || Src::<T>::new(input, &log);
    let r = guarded(|| -> Result<MRes, String> {
        let mut s: St<T> = Stream::new_with_location(src(), T::start(start));
        let base = view::<T>(real.parser.parse_internal(&mut s, true));
        if matches!(&base, MRes::R(_, e) | MRes::F(_, e) if e.is_empty()) {
            return Err(format!("a result without an error: {base:?}"));
        }
        let a = view::<T>(real.parser.parse_with_recovery_and_location(src(), T::start(start)));
        if a != base {
            return Err(format!("parse_with_recovery_and_location gives {a:?}\n  instead of {base:?}"));
        }
        let b = std_view::<T>(real.parser.parse_with_location(src(), T::start(start)));
        if b != expect_std(&base) {
            return Err(format!("parse_with_location gives {b:?}\n  but the recovering parse {base:?}"));
        }
        let mut s = real.parser.stream_with_location(src(), T::start(start));
        match (input.is_empty(), s.next().map(view::<T>)) {
            (true, None) => (),
            (false, Some(x)) if x == base => (),
            (_, x) => return Err(format!("stream_with_location gives {x:?}\n  but the recovering parse {base:?}")),
        }
        // sources given as collections rather than iterators
        let v: Vec<T::I> = src().collect();
        let x = view::<T>(real.parser.parse_with_recovery_and_location(v, T::start(start)));
        if x != base {
            return Err(format!("a vector as source gives {x:?}\n  instead of {base:?}"));
        }
        Ok(base)
    });
    Some(match r {
        Err(e) => Err(e),
        Ok(Err(e)) => Err(e),
        Ok(Ok(b)) => Ok((real, b)),
    })
}
fn c18_count(c: &Case, input: &[u8], base: &MRes, st: &mut Stats) {
    st.evaluations += 1;
    st.hit(base.kind());
    if base.errs().len() > 1 || base.kind() != "success" {
        st.nontrivial(mix(c.h, fnv(input)));
        st.sample(|| format!("{:?} on {:?} -> {base:?}", c.g.start, syms_to_string(input)));
    }
}
fn c18_loc<T: Inst>(c: &Case, start: u64, st: &mut Stats) -> Verdict {
    for input in &c.inputs {
        match c18_common::<T>(c, input, start, st) {
            None => (),
            Some(Err(e)) => return Verdict::Violation(describe(&c.g, input, T::NAME, &e)),
            Some(Ok((_, b))) => c18_count(c, input, &b, st),
        }
    }
    Verdict::Held
}
fn c18_default<T: Inst>(c: &Case, st: &mut Stats) -> Verdict
where
    T::L: Default,
{
    for input in &c.inputs {
        let (real, base) = match c18_common::<T>(c, input, 0, st) {
            None => continue,
            Some(Err(e)) => return Verdict::Violation(describe(&c.g, input, T::NAME, &e)),
            Some(Ok(x)) => x,
        };
        c18_count(c, input, &base, st);
        reset_steps(20 * STEP_MAX);
        let log = Rc::new(SrcLog::default());
        let src = || Src::<T>::new(input, &log);
        let r = guarded(|| -> Result<(), String> {
            let a = view::<T>(real.parser.parse_with_recovery(src()));
            if a != base {
                return Err(format!("parse_with_recovery gives {a:?}\n  but with the default location {base:?}"));
            }
            let b = std_view::<T>(real.parser.parse(src()));
            if b != expect_std(&base) {
                return Err(format!("parse gives {b:?}\n  but the recovering parse {base:?}"));
            }
            let mut s = real.parser.stream(src());
            match (input.is_empty(), s.next().map(view::<T>)) {
                (true, None) => (),
                (false, Some(x)) if x == base => (),
                (_, x) => return Err(format!("stream gives {x:?}\n  but the recovering parse {base:?}")),
            }
            let mut s: St<T> = Stream::new(src());
            let x = view::<T>(real.parser.parse_internal(&mut s, true));
            if x != base {
                return Err(format!("Stream::new gives {x:?}\n  but with the default location {base:?}"));
            }
            Ok(())
        });
        let r = match r {
            Err(e) => Err(e),
            Ok(x) => x,
        };
        if let Err(e) = r {
            return Verdict::Violation(describe(&c.g, input, T::NAME, &e));
        }
    }
    Verdict::Held
}

type PR = parser::Result<u32, RecErr>;
fn rshow<X: std::fmt::Debug>(r: &parser::Result<X, RecErr>) -> String {
    match r {
        parser::Result::Success(x) => format!("success {x:?}"),
        parser::Result::Recovered(x, e) => format!("recovered {x:?} {:?}", e.iter().map(|e| C::err(e).key()).collect::<Vec<_>>()),
        parser::Result::Failed(i, e) => format!("failed {i} {:?}", e.iter().map(|e| C::err(e).key()).collect::<Vec<_>>()),
    }
}
fn c18_result(rng: &mut Rng, st: &mut Stats) -> Verdict {
    use parse_proof_of_concept::error::Fallback;
    let mut n = 0;
    let mut es = |rng: &mut Rng| -> Vec<RecErr> {
        (0..rng.range(1, 5))
            .map(|_| {
                n += 1;
                RecErr::simple(format!("e{n}"))
            })
            .collect()
    };
    let mut make = |rng: &mut Rng, k: usize, v: u32| -> PR {
        match k {
            0 => parser::Result::Success(v),
            1 => parser::Result::Recovered(v, es(rng)),
            _ => parser::Result::Failed(rng.below(50), es(rng)),
        }
    };
    let k = rng.below(3);
    let v = rng.below(100) as u32;
    let r = make(rng, k, v);
    let k2 = rng.below(3);
    let r2 = make(rng, k2, v + 1000);
    st.evaluations += 1;
    st.hit("result conversions");
    let errs: Vec<String> = match &r {
        parser::Result::Success(_) => vec![],
        parser::Result::Recovered(_, e) | parser::Result::Failed(_, e) => e.iter().map(|e| C::err(e).key()).collect(),
    };
    let errs2: Vec<String> = match &r2 {
        parser::Result::Success(_) => vec![],
        parser::Result::Recovered(_, e) | parser::Result::Failed(_, e) => e.iter().map(|e| C::err(e).key()).collect(),
    };
    st.nontrivial(mix(mix(k as u64, k2 as u64), mix(errs.len() as u64, errs2.len() as u64)));
    let x = guarded(|| -> Result<(), String> {
        let want = |c: bool, what: &str| if c { Ok(()) } else { Err(format!("{what} of {}", rshow(&r))) };
        want(r.is_ok() == (k == 0), "is_ok")?;
        want(r.tree().copied() == if k == 2 { None } else { Some(v) }, "tree")?;
        want(r.errors().map(|e| C::err(e).key()).collect::<Vec<_>>() == errs, "errors")?;
        let mut it = r.errors();
        for _ in 0..errs.len() {
            it.next();
        }
        want(it.next().is_none() && it.next().is_none(), "end of errors")?;
        let m = rshow(&r.clone().map(|x| x + 7));
        let w = match &r {
            parser::Result::Success(x) => format!("success {}", x + 7),
            parser::Result::Recovered(x, _) => format!("recovered {} {errs:?}", x + 7),
            parser::Result::Failed(i, _) => format!("failed {i} {errs:?}"),
        };
        if m != w {
            return Err(format!("map turned {} into {m}, expected {w}", rshow(&r)));
        }
        let seen = std::cell::RefCell::new(vec![]);
        let m = r.clone().map_err(|e| {
            let k = C::err(&e).key();
            seen.borrow_mut().push(k.clone());
            RecErr::simple(format!("<{k}>"))
        });
        let wrapped: Vec<String> = errs
            .iter()
            .map(|k| C::err(&RecErr::simple(format!("<{k}>"))).key())
            .collect();
        let w = match &r {
            parser::Result::Success(x) => format!("success {x}"),
            parser::Result::Recovered(x, _) => format!("recovered {x} {wrapped:?}"),
            parser::Result::Failed(i, _) => format!("failed {i} {wrapped:?}"),
        };
        if rshow(&m) != w || *seen.borrow() != errs {
            return Err(format!("map_err turned {} into {}, expected {w}", rshow(&r), rshow(&m)));
        }
        let mut called = 0;
        let m = r.clone().try_map(|x| {
            called += 1;
            assert_eq!(x, v);
            r2.clone()
        });
        let both: Vec<String> = errs.iter().chain(&errs2).cloned().collect();
        let w = match (&r, &r2) {
            (parser::Result::Success(_), b) => rshow(b),
            (parser::Result::Recovered(..), parser::Result::Failed(i, _)) => format!("failed {i} {both:?}"),
            (parser::Result::Recovered(..), b) => format!("recovered {} {both:?}", b.tree().unwrap()),
            (f, _) => rshow(f),
        };
        if rshow(&m) != w || called != (k != 2) as i32 {
            return Err(format!(
                "try_map (closure returning {}) turned {} into {}, expected {w}",
                rshow(&r2),
                rshow(&r),
                rshow(&m)
            ));
        }
        let s: Result<u32, RecErr> = r.clone().into();
        let ok = match (&r, &s) {
            (parser::Result::Success(x), Ok(y)) => x == y,
            (parser::Result::Success(_), _) => false,
            (_, Err(e)) => C::err(e).key() == errs[0],
            _ => false,
        };
        want(ok, "conversion to std::result::Result")
    });
    match x {
        Ok(Ok(())) => Verdict::Held,
        Ok(Err(e)) => Verdict::Violation(format!("Result API: wrong {e}")),
        Err(e) => Verdict::Violation(format!("Result API: {e} for {}", rshow(&r))),
    }
}
#[allow(dead_code)]
type Unused = Seen;
