//! C22: parsing is total, and linear for backtracking-free grammars.
use crate::ast::*;
use crate::canon::*;
use crate::checks::*;
use crate::inst::*;
use crate::model::*;
use crate::real::*;
use crate::util::*;
use std::rc::Rc;

pub fn c22(rng: &mut Rng, st: &mut Stats, thorough: bool) -> Verdict {
    if rng.chance(1, 16) {
        return scaling(rng, st, thorough);
    }
    match rng.below(4) {
        0 => fuzz::<A>(rng, st),
        1 => fuzz::<B>(rng, st),
        2 => fuzz::<C>(rng, st),
        _ => fuzz::<D>(rng, st),
    }
}

/// The library may use this many token steps per step of the reference
/// evaluation (a large multiple of what it actually uses).
const PER_STEP: u64 = 60;

fn fuzz<T: Inst>(rng: &mut Rng, st: &mut Stats) -> Verdict {
    let mut f = Feat::all();
    f.depth = rng.range(2, 7);
    f.rules = rng.below(4);
    f.nsym = *rng.pick(&[3, 5, 9]);
    f.recover_pct = *rng.pick(&[0, 15, 40, 70]);
    f.strat_ops = rng.range(1, 8);
    let nsym = f.nsym;
    let mut c = gen_case(rng, f, 3);
    // hostile inputs: random, repetitive, delimiters only
    for k in 0..3 {
        let n = rng.below(40);
        let pat: Vec<u8> = (0..rng.range(1, 4)).map(|_| rng.below(nsym) as u8).collect();
        c.inputs.push(match k {
            0 => (0..n).map(|_| rng.below(nsym) as u8).collect(),
            1 => (0..n).map(|i| pat[i % pat.len()]).collect(),
            _ => (0..n).map(|_| *rng.pick(&[4u8, 5, 6, 7, 8])).collect(),
        });
    }
    let real = build::<T>(&c.g, &Opts::default());
    let mut any = false;
    for input in &c.inputs {
        for rec in [false, true] {
            let mut m = Model::new(&c.g, input);
            m.fuel = 30_000;
            m.max_depth = 400;
            let want = m.run(rec);
            let (used, left) = (30_000 - m.fuel, m.fuel);
            if want.is_err() {
                st.hit("inputs beyond the step budget");
                continue;
            }
            let _ = left;
            any = true;
            let r = run::<T>(&real.parser, input, rec, 0, rng.chance(1, 2));
            st.evaluations += 1;
            if let Err(e) = r {
                let (i, e) = shrink(input, e, &|i| {
                    let mut m = Model::new(&c.g, i);
                    m.fuel = 30_000;
                    m.max_depth = 400;
                    m.run(rec).ok()?;
                    run::<T>(&real.parser, i, rec, 0, true).err()
                });
                return Verdict::Violation(describe(&c.g, &i, T::NAME, &format!("{e} (recovery={rec})")));
            }
            let s = steps();
            st.max("token steps per reference step (x100)", s * 100 / (used as u64 + 20));
            st.max("token steps in one parse", s);
            if s > PER_STEP * (used as u64 + input.len() as u64 + 20) {
                return Verdict::Violation(describe(
                    &c.g,
                    input,
                    T::NAME,
                    &format!("{s} token inspections although the reference evaluation takes {used} steps (recovery={rec})"),
                ));
            }
            if rec {
                st.hit("parses with recovery enabled")
            } else {
                st.hit("parses without recovery")
            }
            if used > 30 {
                st.nontrivial(mix(c.h, input.iter().fold(rec as u64, |a, &x| mix(a, x as u64))));
            }
        }
    }
    if any {
        st.sample(|| format!("{} inputs on {:?}", c.inputs.len(), c.g.start));
        Verdict::Held
    } else {
        Verdict::Discard
    }
}

// ---------------------------------------------------------------------------
// backtracking-free grammars; symbols 0..=2 are items, 3 the separator,
// 4/5 and 6/7 delimiters, 8 a prefix

struct Fam {
    name: &'static str,
    g: Grammar,
    /// builds an input of about n tokens
    mk: Box<dyn Fn(usize, &mut Rng) -> Vec<u8>>,
    deep: bool,
    valid: bool,
}
fn bx(g: G) -> Box<G> {
    Box::new(g)
}
fn rep(item: G, sep: Option<G>, min: usize, lead: bool, trail: bool) -> G {
    let via_sep = sep.is_some();
    G::Rep(Box::new(Rep {
        item,
        sep,
        min,
        max: None,
        lead,
        trail,
        via_sep,
        exactly: false,
    }))
}
/// Wraps a parser in maps that change nothing about what it matches.
fn wrap(g: G, rng: &mut Rng, n: usize) -> G {
    let mut g = g;
    for _ in 0..n {
        g = match rng.below(9) {
            0 => G::To(bx(g), 7),
            1 => G::Map(bx(g), 3),
            2 => G::MapSpan(bx(g), 4),
            3 => G::SomeP(bx(g)),
            4 => G::MapErr(bx(g), 5),
            5 => G::TryMap(bx(g), TryKind::Ok, 6),
            6 => G::Boxed(bx(g)),
            7 => G::WithErr(bx(g)),
            _ => G::MapErrSpan(bx(g), 2),
        };
    }
    g
}
fn recov(g: G, rng: &mut Rng) -> G {
    match rng.below(3) {
        0 => g,
        1 => G::Recover(
            bx(g),
            Strat {
                ops: vec![Op::Scan(1)],
                fin: Fin::Return(1),
            },
        ),
        _ => G::Recover(
            bx(g),
            Strat {
                ops: vec![Op::SeekToFailed, Op::Skip],
                fin: Fin::ReturnWithSpan(2),
            },
        ),
    }
}
/// An LL(1) item: every alternative starts with a different token.
fn item(rng: &mut Rng, d: usize) -> G {
    let leaf = match rng.below(5) {
        0 => G::Filter(1 << 0),
        1 => G::OneOf(vec![0, 1]),
        2 => G::FilterMap(1 << 0),
        3 => G::Seq(vec![0]),
        _ => G::Just(0),
    };
    if d == 0 {
        let n = rng.below(3);
        return wrap(leaf, rng, n);
    }
    let n = rng.below(2);
    let body = |rng: &mut Rng, d: usize| -> G {
        let i = item(rng, d - 1);
        match rng.below(4) {
            0 => rep(i, Some(G::Just(3)), 0, false, rng.chance(1, 2)),
            1 => rep(i, None, 0, false, false),
            2 => G::OrNot(bx(i)),
            _ => i,
        }
    };
    let mut alts = vec![wrap(G::Just(0), rng, n)];
    if rng.chance(2, 3) {
        let b = body(rng, d);
        alts.push(G::Delim(bx(G::Just(4)), bx(b), bx(G::Just(5))));
    }
    if rng.chance(1, 2) {
        let b = body(rng, d);
        alts.push(G::Chain(vec![G::Just(6), b, G::Just(7)]));
    }
    if rng.chance(1, 2) {
        alts.push(G::IgnoreThen(bx(G::Just(8)), bx(G::OneOf(vec![1, 2]))));
    }
    let mut alts: Vec<G> = alts.into_iter().map(|a| recov(a, rng)).collect();
    if alts.len() == 1 {
        return alts.pop().unwrap();
    }
    if rng.chance(1, 2) {
        G::Alters(alts)
    } else {
        let mut it = alts.into_iter().rev();
        let mut g = it.next().unwrap();
        for a in it {
            g = G::Or(bx(a), bx(g));
        }
        g
    }
}

fn family(rng: &mut Rng) -> Fam {
    let k = rng.below(10);
    let w = rng.below(3);
    match k {
        0 => Fam {
            name: "separated list",
            g: {
                let i = wrap(G::NoneOf(vec![3]), rng, w);
                let trail = rng.chance(1, 2);
                Grammar {
                    nsym: 0,
                    rules: vec![],
                    start: rep(i, Some(G::Just(3)), 0, false, trail),
                }
            },
            mk: Box::new(|n, r| (0..n).map(|i| if i % 2 == 1 { 3 } else { r.below(3) as u8 }).collect()),
            deep: false,
            valid: true,
        },
        1 => Fam {
            name: "repetition of chains",
            g: Grammar {
                nsym: 0,
                rules: vec![],
                start: rep(
                    G::Chain(vec![wrap(G::Just(0), rng, w), G::Seq(vec![1, 2]), G::OrNot(bx(G::Just(3)))]),
                    None,
                    1,
                    false,
                    false,
                ),
            },
            mk: Box::new(|n, r| {
                let mut v = vec![];
                while v.len() < n {
                    v.extend([0, 1, 2]);
                    if r.chance(1, 2) {
                        v.push(3)
                    }
                }
                v
            }),
            deep: false,
            valid: true,
        },
        2 => Fam {
            name: "nested delimiters",
            g: Grammar {
                nsym: 0,
                rules: vec![G::Or(
                    bx(recov(G::Delim(bx(G::Just(4)), bx(G::Ref(0)), bx(G::Just(5))), rng)),
                    bx(wrap(G::Just(0), rng, w)),
                )],
                start: G::ThenIgnore(bx(G::Ref(0)), bx(G::End)),
            },
            mk: Box::new(|n, _| {
                let d = n / 2;
                let mut v = vec![4; d];
                v.push(0);
                v.extend(vec![5; d]);
                v
            }),
            deep: true,
            valid: true,
        },
        3 => Fam {
            name: "unclosed nested delimiters",
            g: Grammar {
                nsym: 0,
                rules: vec![G::Alters(vec![
                    G::Chain(vec![G::Just(4), G::Ref(0), G::Just(5)]),
                    G::Chain(vec![G::Just(6), G::Ref(0), G::Just(7)]),
                    wrap(G::Just(0), rng, w),
                ])],
                start: G::Ref(0),
            },
            mk: Box::new(|n, r| {
                let d = n / 2;
                let o: Vec<u8> = (0..d).map(|_| *r.pick(&[4, 6])).collect();
                let mut v = o.clone();
                v.push(0);
                // the last closing delimiter is missing or wrong
                v.extend(o[1..].iter().rev().map(|x| x + 1));
                if r.chance(1, 2) {
                    v.push(2)
                }
                v
            }),
            deep: true,
            valid: false,
        },
        4 => Fam {
            name: "nested lists",
            g: {
                let trail = rng.chance(1, 2);
                let list = rep(G::Ref(0), Some(G::Just(3)), 0, false, trail);
                Grammar {
                    nsym: 0,
                    rules: vec![G::Alters(vec![
                        recov(G::Delim(bx(G::Just(4)), bx(list), bx(G::Just(5))), rng),
                        wrap(G::Just(0), rng, w),
                        G::Just(1),
                    ])],
                    start: G::ThenIgnore(bx(G::Ref(0)), bx(G::End)),
                }
            },
            mk: Box::new(|n, r| {
                // random tree, written iteratively
                let mut v = vec![4];
                let mut open = 1usize;
                let mut fresh = true;
                while v.len() + open < n {
                    if !fresh {
                        if open > 1 && r.chance(1, 3) {
                            v.push(5);
                            open -= 1;
                            continue;
                        }
                        v.push(3);
                    }
                    if open < 2000 && r.chance(2, 5) {
                        v.push(4);
                        open += 1;
                        fresh = true;
                    } else {
                        v.push(r.below(2) as u8);
                        fresh = false;
                    }
                }
                v.extend(vec![5; open]);
                v
            }),
            deep: true,
            valid: true,
        },
        5 => Fam {
            name: "right recursion",
            g: Grammar {
                nsym: 0,
                rules: vec![G::Or(
                    bx(G::Then(bx(wrap(G::Just(0), rng, w)), bx(G::Ref(0)))),
                    bx(G::Empty),
                )],
                start: G::Ref(0),
            },
            mk: Box::new(|n, _| vec![0; n]),
            deep: true,
            valid: true,
        },
        6 => Fam {
            name: "many alternatives",
            g: Grammar {
                nsym: 0,
                rules: vec![],
                start: rep(
                    G::Alters((0..9).map(|s| G::Chain(vec![G::Just(s), G::Seq(vec![(s + 1) % 9])])).collect()),
                    None,
                    0,
                    false,
                    false,
                ),
            },
            mk: Box::new(|n, r| {
                let mut v = vec![];
                while v.len() < n {
                    let s = r.below(9) as u8;
                    v.extend([s, (s + 1) % 9]);
                }
                v
            }),
            deep: false,
            valid: true,
        },
        7 => Fam {
            name: "broken list",
            // recovery of single elements of a long list
            g: Grammar {
                nsym: 0,
                rules: vec![],
                start: rep(
                    G::Then(
                        bx(G::Recover(
                            bx(wrap(G::Just(0), rng, w)),
                            Strat {
                                ops: vec![Op::Find(1 << 3)],
                                fin: Fin::Return(9),
                            },
                        )),
                        bx(G::Just(3)),
                    ),
                    None,
                    usize::MAX,
                    false,
                    false,
                ),
            },
            mk: Box::new(|n, r| {
                let mut v = vec![];
                while v.len() < n {
                    v.extend(match r.below(4) {
                        0 => vec![1, 2, 3],
                        1 => vec![2, 3],
                        _ => vec![0, 3],
                    });
                }
                v
            }),
            deep: false,
            valid: false,
        },
        8 => Fam {
            name: "delimiter scan",
            g: Grammar {
                nsym: 0,
                rules: vec![],
                start: G::Recover(
                    bx(G::Just(0)),
                    Strat {
                        ops: vec![Op::Scan(1)],
                        fin: Fin::ReturnWithSpan(3),
                    },
                ),
            },
            mk: Box::new(|n, r| {
                let mut v = vec![4];
                let mut open = vec![5u8];
                while v.len() < n {
                    match r.below(4) {
                        0 if open.len() > 1 => v.push(open.pop().unwrap()),
                        1 | 2 => {
                            let o = *r.pick(&[4u8, 6]);
                            v.push(o);
                            open.push(o + 1);
                        }
                        _ => v.push(r.below(3) as u8),
                    }
                }
                v
            }),
            deep: false,
            valid: false,
        },
        _ => Fam {
            name: "random deterministic grammar",
            g: {
                let d = rng.range(1, 4);
                let i = item(rng, d);
                let sep = if rng.chance(1, 2) { Some(G::Just(3)) } else { None };
                Grammar {
                    nsym: 0,
                    rules: vec![],
                    start: rep(i, sep, 0, false, false),
                }
            },
            mk: Box::new(|_, _| vec![]),
            deep: false,
            valid: true,
        },
    }
}

fn scaling(rng: &mut Rng, st: &mut Stats, thorough: bool) -> Verdict {
    let f = family(rng);
    let (small, big) = if f.deep {
        (400, if thorough { 12_000 } else { 6_000 })
    } else {
        (1000, if thorough { 120_000 } else { 24_000 })
    };
    let mk = |n: usize, rng: &mut Rng| -> Vec<u8> {
        if f.name != "random deterministic grammar" {
            return (f.mk)(n, rng);
        }
        // concatenate sampled elements
        let mut v: Vec<u8> = vec![];
        let (item, sep) = match &f.g.start {
            G::Rep(r) => (r.item.clone(), r.sep.is_some()),
            _ => unreachable!(),
        };
        let one = Grammar {
            nsym: 0,
            rules: vec![],
            start: item,
        };
        let mut tries = 0;
        while v.len() < n && tries < 4 * n {
            tries += 1;
            if sep && !v.is_empty() {
                v.push(3);
            }
            let l = v.len();
            v.extend(gen_input(&one, rng, 9, 0));
            if v.len() == l {
                v.push(0);
            }
        }
        v
    };
    let parser = build::<C>(&f.g, &Opts::default());
    let per_rec: &[bool] = if f.valid || f.deep { &[false, true] } else { &[true] };
    let mut g = f.g.clone();
    let mut inputs = vec![mk(small, rng), mk(big, rng)];
    if f.name == "broken list" {
        // exactly as many elements as there are
        let k = |v: &[u8]| v.iter().filter(|&&x| x == 3).count();
        let set = |g: &mut Grammar, n: usize| {
            if let G::Rep(r) = &mut g.start {
                r.min = n;
            }
        };
        // same count for both would not scale: one grammar per input
        let mut res = vec![];
        for i in &inputs {
            set(&mut g, k(i));
            let p = build::<C>(&g, &Opts::default());
            match measure(&g, &p, i, true) {
                Ok(x) => res.push(x),
                Err(e) => return Verdict::Violation(format!("{e}\n  family: {}, {} tokens", f.name, i.len())),
            }
        }
        return judge(&f, true, false, &inputs, &res, st);
    }
    if f.name == "random deterministic grammar" {
        // make sure that the sampled text is what the grammar matches
        for i in &mut inputs {
            let mut m = Model::new(&f.g, i);
            m.fuel = 1 << 40;
            m.max_depth = 1 << 30;
            match m.run(false) {
                Ok(MRes::S(_)) => {
                    let e = m.pos;
                    i.truncate(e);
                }
                _ => return Verdict::Discard,
            }
        }
        if inputs[1].len() < 4 * inputs[0].len().max(100) {
            return Verdict::Discard;
        }
    }
    for &rec in per_rec {
        let mut res = vec![];
        let square = rec && f.deep && !f.valid;
        if square {
            // every choice looks at a broken alternative once with and once
            // without recovery: quadratic, but no worse
            inputs = vec![mk(200, rng), mk(1400, rng)];
        }
        for i in &inputs {
            match measure(&g, &parser, i, rec) {
                Ok(x) => res.push(x),
                Err(e) => {
                    return Verdict::Violation(format!(
                        "{e}\n  family: {}, {} tokens, recovery={rec}\n  grammar: {:?}",
                        f.name,
                        i.len(),
                        f.g
                    ))
                }
            }
        }
        match judge(&f, rec, square, &inputs, &res, st) {
            Verdict::Held => (),
            v => return v,
        }
    }
    Verdict::Held
}

/// Token steps of one parse; the outcome is compared with the reference.
fn measure(g: &Grammar, p: &Real<C>, input: &[u8], rec: bool) -> Result<u64, String> {
    let mut m = Model::new(g, input);
    m.fuel = 1 << 40;
    m.max_depth = 1 << 30;
    let want = m.run(rec).map_err(|e| format!("reference gave up: {e:?}"))?;
    C::set_ctx(input, 0);
    take_notes();
    reset_steps(u64::MAX);
    let log = Rc::new(SrcLog::default());
    let limit = 2000 * (input.len() as u64 + 100) + 100 * (input.len() as u64).min(5000).pow(2);
    reset_steps(limit);
    let r = guarded(|| {
        let mut s: St<C> =
            parse_proof_of_concept::stream::Stream::new_with_location(Src::<C>::new(input, &log), C::start(0));
        let r = parse_proof_of_concept::parser::Parser::parse_internal(&p.parser, &mut s, rec);
        (r, s.index(), steps())
    });
    let (r, end, s) = r?;
    reset_steps(u64::MAX);
    let got = view::<C>(r);
    if end != m.pos || got.kind() != want.kind() || got.val() != want.val() || got.errs().len() != want.errs().len() {
        return Err(format!(
            "wrong outcome: {} ending at {end} with {} errors instead of {} ending at {} with {} errors",
            got.kind(),
            got.errs().len(),
            want.kind(),
            m.pos,
            want.errs().len()
        ));
    }
    Ok(s)
}

fn judge(f: &Fam, rec: bool, square: bool, inputs: &[Vec<u8>], res: &[u64], st: &mut Stats) -> Verdict {
    let (n0, n1) = (inputs[0].len() as u64, inputs[1].len() as u64);
    st.evaluations += 2;
    st.add("tokens parsed in scaling runs", n0 + n1);
    st.max("length of a scaling input", n1);
    if f.deep {
        st.max("depth of a scaling input", n1 / 2)
    }
    st.max("token steps per token (x100), long input", res[1] * 100 / (n1 + 1));
    // linear: the cost per token does not grow
    let (p0, p1) = (res[0] as f64 / (n0 + 50) as f64, res[1] as f64 / (n1 + 50) as f64);
    let (p0, p1) = if square { (p0, p1 * n0 as f64 / n1 as f64) } else { (p0, p1) };
    if square {
        st.hit("quadratic runs (broken nesting with recovery)");
    } else {
        st.max("growth of the cost per token (x100)", (p1 * 100.0 / p0.max(0.1)) as u64);
    }
    if p1 > 2.5 * p0 + 4.0 {
        return Verdict::Violation(format!(
            "token inspections grow faster than the input: {} for {n0} tokens, {} for {n1} tokens (recovery={rec})\n  family: {}\n  grammar: {:?}",
            res[0], res[1], f.name, f.g
        ));
    }
    st.hit("scaling runs");
    st.nontrivial(mix(fnv(f.name.as_bytes()), mix(ghash(&f.g), mix(n0, n1 * 2 + rec as u64))));
    st.sample(|| format!("{}: {} steps for {n0} tokens, {} for {n1} (recovery={rec})", f.name, res[0], res[1]));
    Verdict::Held
}
