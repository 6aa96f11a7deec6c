//! C19: every container type that can hold the tokens of a literal sequence,
//! one-of or none-of is interchangeable.
use crate::real::guarded;
use crate::util::*;
use parse_proof_of_concept::container::{BoxedIterator, Container};
use parse_proof_of_concept::error::{At, Error, Fallback};
use parse_proof_of_concept::location;
use parse_proof_of_concept::parser::{self, Parser};
use parse_proof_of_concept::primitive::{none_of, one_of, seq};
use parse_proof_of_concept::stream::Stream;
use std::fmt::Debug;

type Sp = std::ops::Range<usize>;
/// Keeps the expected tokens in the order in which they were handed over.
#[derive(Clone, Debug, PartialEq)]
pub enum OrdErr<I> {
    EF(Vec<Option<I>>, Option<I>, At<usize, Sp>),
    Other,
}
impl<I> Fallback for OrdErr<I> {
    fn simple<M: ToString>(_: M) -> Self {
        OrdErr::Other
    }
}
impl<'i, I: Clone + 'i> Error<'i, I> for OrdErr<I> {
    type LocationTracker = location::Simple;
    fn expected_found<J: IntoIterator<Item = Option<I>>>(e: J, f: Option<I>, at: At<usize, Sp>) -> Self {
        OrdErr::EF(e.into_iter().collect(), f, at)
    }
    fn merge_expected_found(&mut self, _: &Self) {}
    fn is_expected_found(&self) -> bool {
        matches!(self, OrdErr::EF(..))
    }
    fn location(&self) -> At<&usize, &Sp> {
        match self {
            OrdErr::EF(_, _, a) => a.as_ref(),
            OrdErr::Other => At::None,
        }
    }
    fn unmatched_left_delimiter(_: I, _: Sp, _: At<usize, Sp>) -> Self {
        OrdErr::Other
    }
    fn unmatched_right_delimiter(_: I, _: Sp, _: At<usize, Sp>) -> Self {
        OrdErr::Other
    }
    fn unmatched_delimiter_type(_: I, _: Sp, _: I, _: Sp) -> Self {
        OrdErr::Other
    }
    fn custom<M: ToString>(_: M, _: At<usize, Sp>) -> Self {
        OrdErr::Other
    }
}

/// Outcome of one parse: result with the output turned into tokens, and the
/// index of the cursor afterwards.
type Out<I> = (parser::Result<Vec<I>, OrdErr<I>>, usize, Vec<I>);

fn outcome<'i, I, P, O>(p: &P, input: &[I], at: usize, rec: bool, f: impl Fn(O) -> Vec<I>) -> Out<I>
where
    I: Clone + Debug + PartialEq + 'i,
    P: Parser<'i, I, Output = O, Error = OrdErr<I>>,
{
    let mut s: Stream<'i, I, location::Simple> = Stream::new(input.to_vec());
    s.advance_to(at);
    let r = p.parse_internal(&mut s, rec).map(f);
    let end = s.index();
    let mut rest = vec![];
    while let Some(t) = s.token().cloned() {
        rest.push(t);
        s.advance();
    }
    (r, end, rest)
}

struct Probe<'a, I> {
    items: Vec<I>,
    inputs: Vec<(Vec<I>, usize)>,
    rng: &'a mut Rng,
    base: Option<Vec<[Out<I>; 3]>>,
    evals: u64,
    kinds: u64,
}

impl<'a, I> Probe<'a, I>
where
    I: Clone + PartialEq + Debug,
{
    fn check<'i, K>(&mut self, name: &str, k: K) -> Result<(), String>
    where
        I: 'i,
        K: Container<I> + Clone,
    {
        let items = &self.items;
        let inputs = &self.inputs;
        let cut = self.rng.below(items.len() + 2);
        let recs = [self.rng.chance(1, 2), self.rng.chance(1, 2)];
        let r = guarded(|| -> Result<Vec<[Out<I>; 3]>, String> {
            // traversal: in order, complete, repeatable, also interleaved
            for round in 0..2 {
                let got: Vec<I> = k.get_iter().take(items.len() + 3).collect();
                if got != *items {
                    return Err(format!("traversal {round} yields {got:?} instead of {items:?}"));
                }
            }
            let mut a = k.get_iter();
            let mut ga = vec![];
            for _ in 0..cut {
                ga.extend(a.next());
            }
            let gb: Vec<I> = k.get_iter().take(items.len() + 3).collect();
            ga.extend(a.take(items.len() + 3));
            if ga != *items || gb != *items {
                return Err(format!("interleaved traversals yield {ga:?} and {gb:?} instead of {items:?}"));
            }
            let it: Vec<I> = k.get_iter().boxed().take(items.len() + 3).collect();
            if it != *items {
                return Err(format!("boxed traversal yields {it:?} instead of {items:?}"));
            }
            let ps = seq::<'i, I, K, OrdErr<I>>(k.clone());
            let po = one_of::<'i, I, K, OrdErr<I>>(k.clone());
            let pn = none_of::<'i, I, K, OrdErr<I>>(k.clone());
            let mut outs = vec![];
            for (input, at) in inputs {
                let os = outcome(&ps, input, *at, recs[0], |o: K| o.get_iter().collect());
                let oo = outcome(&po, input, *at, recs[1], |o| vec![o]);
                let on = outcome(&pn, input, *at, recs[0], |o| vec![o]);
                // clones
                if outcome(&ps.clone(), input, *at, recs[1], |o: K| o.get_iter().collect()) != os
                    || outcome(&po.clone(), input, *at, recs[0], |o| vec![o]) != oo
                    || outcome(&pn.clone(), input, *at, recs[1], |o| vec![o]) != on
                {
                    return Err(format!("a cloned parser behaves differently on {input:?} from {at}"));
                }
                outs.push([os, oo, on]);
            }
            Ok(outs)
        });
        self.evals += 6 * inputs.len() as u64 + 5;
        self.kinds += 1;
        let outs = match r {
            Ok(Ok(o)) => o,
            Ok(Err(e)) => return Err(format!("container {name} holding {items:?}: {e}")),
            Err(e) => return Err(format!("container {name} holding {items:?}: {e}")),
        };
        // against the plain reading of the three primitives
        for ((input, at), o) in inputs.iter().zip(&outs) {
            let exp = expect(items, input, *at);
            for (k, what) in ["seq", "one_of", "none_of"].iter().enumerate() {
                if let Some(d) = differs(&exp[k], &o[k], k == 1) {
                    return Err(format!(
                        "{what} of container {name} holding {items:?} on {input:?} from {at}: {d}\n  got:      {:?}\n  expected: {:?}",
                        o[k], exp[k]
                    ));
                }
            }
        }
        match &self.base {
            None => self.base = Some(outs),
            Some(b) => {
                for ((x, y), (input, at)) in b.iter().zip(&outs).zip(inputs) {
                    if x != y {
                        return Err(format!(
                            "container {name} holding {items:?} behaves differently from a vector on {input:?} from {at}\n  got:    {y:?}\n  vector: {x:?}"
                        ));
                    }
                }
            }
        }
        Ok(())
    }
}

fn expect<I: Clone + PartialEq>(items: &[I], input: &[I], at: usize) -> [Out<I>; 3] {
    let inp = &input[at..];
    let fail = |i: usize, exp: Vec<Option<I>>, f: Option<I>, loc: bool| -> Out<I> {
        let w = if loc {
            At::Location(at + i)
        } else {
            At::Span(at + i..at + i + f.is_some() as usize)
        };
        (
            parser::Result::Failed(at + i, vec![OrdErr::EF(exp, f, w)]),
            at,
            inp.to_vec(),
        )
    };
    let ok = |v: Vec<I>| -> Out<I> {
        let n = v.len();
        (parser::Result::Success(v), at + n, inp[n..].to_vec())
    };
    let bad = (0..items.len()).find(|&j| inp.get(j) != Some(&items[j]));
    let s = match bad {
        None => ok(items.to_vec()),
        Some(j) => fail(j, vec![Some(items[j].clone())], inp.get(j).cloned(), false),
    };
    let first = inp.first().cloned();
    let hit = first.as_ref().map_or(false, |f| items.iter().any(|x| x == f));
    let o = if hit {
        ok(vec![first.clone().unwrap()])
    } else {
        fail(0, items.iter().cloned().map(Some).collect(), first.clone(), false)
    };
    let n = match first {
        None => fail(0, vec![], None, true),
        Some(f) if hit => fail(0, vec![], Some(f), false),
        Some(f) => ok(vec![f]),
    };
    [s, o, n]
}

fn differs<I: Clone + PartialEq>(want: &Out<I>, got: &Out<I>, set: bool) -> Option<String> {
    if want.1 != got.1 {
        return Some(format!("ends at {} instead of {}", got.1, want.1));
    }
    if want.2 != got.2 {
        return Some("wrong remaining tokens".into());
    }
    if want.0 == got.0 {
        return None;
    }
    // the set of expected tokens is not ordered
    if let (true, parser::Result::Failed(i, a), parser::Result::Failed(j, b)) = (set, &want.0, &got.0) {
        if let ([OrdErr::EF(x, f, l)], [OrdErr::EF(y, g, m)]) = (&a[..], &b[..]) {
            let sub = |p: &Vec<Option<I>>, q: &Vec<Option<I>>| p.iter().all(|t| q.contains(t));
            if i == j && f == g && l == m && sub(x, y) && sub(y, x) {
                return None;
            }
        }
    }
    Some("wrong result".into())
}

macro_rules! arrays {
    ($v:expr, $f:expr) => {
        arrays!($v, $f, 0, 1, 2, 3, 4, 5, 6)
    };
    ($v:expr, $f:expr, $($n:literal),*) => {{
        #[allow(clippy::redundant_clone)]
        match $v.len() {
            $($n => {
                let a: [_; $n] = match <[_; $n]>::try_from($v.clone()) { Ok(a) => a, Err(_) => unreachable!() };
                $f(a)
            })*
            _ => Ok(()),
        }
    }};
}

fn inputs<I: Clone>(rng: &mut Rng, items: &[I], alpha: &[I]) -> Vec<(Vec<I>, usize)> {
    (0..4)
        .map(|k| {
            let mut v: Vec<I> = (0..rng.below(3)).map(|_| rng.pick(alpha).clone()).collect();
            let at = v.len();
            match k {
                0 => v.extend(items.iter().cloned()),
                1 => {
                    let n = rng.below(items.len() + 1);
                    v.extend(items[..n].iter().cloned());
                    v.extend((0..rng.below(3)).map(|_| rng.pick(alpha).clone()));
                }
                2 => v.extend((0..rng.below(5)).map(|_| rng.pick(alpha).clone())),
                _ => {
                    // one change
                    v.extend(items.iter().cloned());
                    if v.len() > at {
                        let i = at + rng.below(v.len() - at);
                        v[i] = rng.pick(alpha).clone();
                    }
                    v.extend((0..rng.below(2)).map(|_| rng.pick(alpha).clone()));
                }
            }
            (v, at)
        })
        .collect()
}

const CHARS: [char; 8] = ['a', 'b', 'c', '\n', 'é', '日', '🦀', '\u{0}'];

pub fn c19(rng: &mut Rng, st: &mut Stats, thorough: bool) -> Verdict {
    let nsym = rng.range(2, CHARS.len());
    let alpha: Vec<char> = CHARS[..nsym].to_vec();
    let n = match rng.below(10) {
        0 => 0,
        1 | 2 => 1,
        3 => rng.range(5, if thorough { 60 } else { 20 }),
        _ => rng.range(2, 6),
    };
    let items: Vec<char> = (0..n).map(|_| *rng.pick(&alpha)).collect();
    let kind = rng.below(4);
    let h = mix(kind as u64, items.iter().fold(nsym as u64, |a, &c| mix(a, c as u64)));
    let r = match kind {
        0 => chars(rng, st, &items, &alpha),
        1 => refs(rng, st, &items, &alpha),
        2 => strings(rng, st, &items, &alpha),
        _ => strs(rng, st, &items, &alpha),
    };
    st.max("container length", n as u64);
    if n > 0 {
        st.nontrivial(h);
    }
    match r {
        Ok(()) => {
            st.sample(|| format!("kind {kind}, items {items:?}"));
            Verdict::Held
        }
        Err(e) => Verdict::Violation(e),
    }
}

fn chars(rng: &mut Rng, st: &mut Stats, items: &[char], alpha: &[char]) -> Result<(), String> {
    let inputs = inputs(rng, items, alpha);
    let s: String = items.iter().collect();
    let v: Vec<char> = items.to_vec();
    let mut p = Probe {
        items: v.clone(),
        inputs,
        rng,
        base: None,
        evals: 0,
        kinds: 0,
    };
    let r: Result<(), String> = (|| {
        p.check("Vec<char>", v.clone())?;
        p.check("String", s.clone())?;
        p.check("&str", s.as_str())?;
        p.check("&[char]", v.as_slice())?;
        p.check("&Vec<char>", &v)?;
        arrays!(v, |a| p.check("[char; N]", a))?;
        arrays!(v, |a| p.check("&[char; N]", &a))?;
        if let [c] = items {
            p.check("char", *c)?;
        }
        // the unsized slice itself
        let got: Vec<char> = <[char] as Container<char>>::get_iter(v.as_slice()).collect();
        if got != v {
            return Err(format!("[char] holding {v:?} yields {got:?}"));
        }
        Ok(())
    })();
    st.evaluations += p.evals;
    st.add("containers over char", p.kinds);
    r
}

fn refs(rng: &mut Rng, st: &mut Stats, items: &[char], alpha: &[char]) -> Result<(), String> {
    // tokens are references (zero-copy use)
    let owned: Vec<char> = items.to_vec();
    let ra: Vec<&char> = alpha.iter().collect();
    let ri: Vec<&char> = owned.iter().collect();
    let inputs = inputs(rng, &ri, &ra);
    let mut p = Probe {
        items: ri.clone(),
        inputs,
        rng,
        base: None,
        evals: 0,
        kinds: 0,
    };
    let r: Result<(), String> = (|| {
        p.check("Vec<&char>", ri.clone())?;
        p.check("&[char] by reference", owned.as_slice())?;
        p.check("&Vec<char> by reference", &owned)?;
        p.check("&[&char]", ri.as_slice())?;
        p.check("&Vec<&char>", &ri)?;
        arrays!(ri, |a| p.check("[&char; N]", a))?;
        arrays!(ri, |a| p.check("&[&char; N]", &a))?;
        if let [c] = ri[..] {
            p.check("&char", c)?;
        }
        Ok(())
    })();
    let (ev, kinds) = (p.evals, p.kinds);
    st.evaluations += ev;
    st.add("containers over &char", kinds);
    r?;
    by_ref_arrays(&owned, st)
}
fn by_ref_arrays(owned: &Vec<char>, st: &mut Stats) -> Result<(), String> {
    fn go<const N: usize>(a: [char; N], st: &mut Stats) -> Result<(), String> {
        let got: Vec<&char> = <&[char; N] as Container<&char>>::get_iter(&&a).collect();
        let want: Vec<&char> = a.iter().collect();
        st.evaluations += 1;
        // the very same objects
        if got.len() != want.len() || got.iter().zip(&want).any(|(x, y)| !std::ptr::eq(*x, *y)) {
            return Err(format!("&[char; {N}] by reference yields {got:?} instead of {want:?}"));
        }
        let sq = seq::<&char, &[char; N], OrdErr<&char>>(&a);
        let on = one_of::<&char, &[char; N], OrdErr<&char>>(&a);
        if sq.parse(want.clone()) != Ok(&a) {
            return Err(format!("seq(&[char; {N}]) by reference does not match {want:?}"));
        }
        if let Some(f) = want.first() {
            if on.parse(want.clone()) != Ok(*f) {
                return Err(format!("one_of(&[char; {N}]) by reference does not match {f:?}"));
            }
        }
        Ok(())
    }
    arrays!(owned, |a| go(a, st))
}

fn strings(rng: &mut Rng, st: &mut Stats, items: &[char], alpha: &[char]) -> Result<(), String> {
    // multi-character owned tokens
    let tok = |c: &char| -> String { std::iter::repeat(*c).take(1 + *c as usize % 3).collect() };
    let v: Vec<String> = items.iter().map(tok).collect();
    let al: Vec<String> = alpha.iter().map(tok).collect();
    let inputs = inputs(rng, &v, &al);
    let mut p = Probe {
        items: v.clone(),
        inputs,
        rng,
        base: None,
        evals: 0,
        kinds: 0,
    };
    let r: Result<(), String> = (|| {
        p.check("Vec<String>", v.clone())?;
        p.check("&[String]", v.as_slice())?;
        p.check("&Vec<String>", &v)?;
        arrays!(v, |a| p.check("[String; N]", a))?;
        arrays!(v, |a| p.check("&[String; N]", &a))?;
        if let [c] = &v[..] {
            p.check("String as a single token", c.clone())?;
        }
        Ok(())
    })();
    st.evaluations += p.evals;
    st.add("containers over String", p.kinds);
    r
}

fn strs(rng: &mut Rng, st: &mut Stats, items: &[char], alpha: &[char]) -> Result<(), String> {
    let tok = |c: &char| -> String { std::iter::repeat(*c).take(*c as usize % 4).collect() };
    let owned: Vec<String> = items.iter().map(tok).collect();
    let ownal: Vec<String> = alpha.iter().map(tok).collect();
    let v: Vec<&str> = owned.iter().map(|s| s.as_str()).collect();
    let al: Vec<&str> = ownal.iter().map(|s| s.as_str()).collect();
    let inputs = inputs(rng, &v, &al);
    let mut p = Probe {
        items: v.clone(),
        inputs,
        rng,
        base: None,
        evals: 0,
        kinds: 0,
    };
    let r: Result<(), String> = (|| {
        p.check("Vec<&str>", v.clone())?;
        p.check("&[&str]", v.as_slice())?;
        p.check("&Vec<&str>", &v)?;
        arrays!(v, |a| p.check("[&str; N]", a))?;
        arrays!(v, |a| p.check("&[&str; N]", &a))?;
        if let [c] = v[..] {
            p.check("&str as a single token", c)?;
        }
        Ok(())
    })();
    st.evaluations += p.evals;
    st.add("containers over &str", p.kinds);
    r
}
