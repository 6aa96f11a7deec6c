//! C20: rendered messages state exactly what the error contains.
use crate::ast::*;
use crate::canon::*;
use crate::checks::*;
use crate::inst::*;
use crate::real::*;
use crate::util::*;
use parse_proof_of_concept::error::{At, Error, Fallback, Simple, Void};
use parse_proof_of_concept::location::{self, Tracker};
use parse_proof_of_concept::parser::{self, Parser};
use std::rc::Rc;

// ---------------------------------------------------------------------------
// the independent reading of the message texts

/// What a message has to say, with tokens and positions already as text.
#[derive(Clone, Debug)]
enum Say {
    EF(Vec<String>, String, Option<String>),
    Text(String),
}
fn left(t: &str, s: &str, at: &Option<String>) -> Say {
    Say::Text(match at {
        Some(l) => format!("unmatched left {t} ({s}); must be closed before {l}"),
        None => format!("unmatched left {t} ({s})"),
    })
}
fn right(t: &str, s: &str, at: &Option<String>) -> Say {
    Say::Text(match at {
        Some(l) => format!("unmatched right {t} ({s}); must be opened after {l}"),
        None => format!("unmatched right {t} ({s})"),
    })
}
fn types(t: &str, s: &str, u: &str, v: &str) -> Say {
    Say::Text(format!("left {t} ({s}) does not match right {u} ({v})"))
}
fn custom(m: &str, at: &Option<String>) -> Say {
    Say::Text(match at {
        Some(l) => format!("{m} at {l}"),
        None => m.to_string(),
    })
}
/// The grammatical form for expectations in the given order.
fn form(x: &[&String], found: &str, at: &Option<String>) -> String {
    let mut s = match x {
        [] => "found unexpected ".to_string(),
        [a] => format!("expected {a} but found "),
        [a, b] => format!("expected {a} or {b} but found "),
        _ => {
            let (last, init) = x.split_last().unwrap();
            let mut s = String::from("expected ");
            for i in init {
                s += i;
                s += ", ";
            }
            s + "or " + last + " but found "
        }
    };
    s += found;
    if let Some(l) = at {
        s += " at ";
        s += l;
    }
    s
}
fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in permutations(n - 1) {
        for k in 0..n {
            let mut q = p.clone();
            q.insert(k, n - 1);
            out.push(q);
        }
    }
    out
}
/// None if the text says what it must; expectations may be in any order.
fn judge(text: &str, say: &Say) -> Option<String> {
    match say {
        Say::Text(t) => (text != t).then(|| format!("expected the text {t:?}")),
        Say::EF(x, f, at) => {
            if x.len() <= 5 {
                if permutations(x.len())
                    .iter()
                    .any(|p| text == form(&p.iter().map(|&i| &x[i]).collect::<Vec<_>>(), f, at))
                {
                    return None;
                }
            } else {
                // more: take the list apart (the tokens then contain no blanks)
                let tail = form(&[], f, at)["found unexpected ".len()..].to_string();
                let mid = text
                    .strip_prefix("expected ")
                    .and_then(|t| t.strip_suffix(&tail))
                    .and_then(|t| t.strip_suffix(" but found "));
                if let Some(mid) = mid {
                    let mut parts: Vec<&str> = mid.split(", ").collect();
                    let last = parts.pop().unwrap();
                    if let Some(l) = last.strip_prefix("or ") {
                        parts.push(l);
                        let mut got: Vec<String> = parts.iter().map(|s| s.to_string()).collect();
                        let mut want = x.clone();
                        got.sort();
                        want.sort();
                        if got == want {
                            return None;
                        }
                    }
                }
            }
            Some(format!("expected the text {:?} (expectations in any order)", form(&x.iter().collect::<Vec<_>>(), f, at)))
        }
    }
}

// ---------------------------------------------------------------------------
// errors built through the public constructors

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Tk(String);
impl std::fmt::Display for Tk {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
fn tk_text(t: &Tk) -> &str {
    &t.0
}
#[derive(Clone, PartialEq, Debug)]
pub struct MyLoc(usize, usize);
#[derive(Clone, PartialEq, Debug)]
pub struct MySpan(MyLoc, MyLoc);
impl std::fmt::Display for MyLoc {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "#{}/{}", self.0, self.1)
    }
}
impl std::fmt::Display for MySpan {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "[{} to {}]", self.0, self.1)
    }
}
/// A user tracker that counts bytes.
#[derive(Clone, Default, PartialEq)]
pub struct My(usize);
impl Tracker<Tk> for My {
    type Location = MyLoc;
    type Span = MySpan;
    fn advance(&mut self, t: &Tk) {
        self.0 += t.0.len()
    }
    fn location(&self, i: usize) -> MyLoc {
        MyLoc(i, self.0)
    }
    fn spanning_to(&self, i: usize, to: &Self, j: usize) -> MySpan {
        MySpan(MyLoc(i, self.0), MyLoc(j, to.0))
    }
}
/// Position: the text before it, and the token index.
#[derive(Clone, Debug)]
struct Pos(Vec<Tk>, usize);
impl Pos {
    fn text(&self) -> String {
        self.0.iter().map(|t| t.0.as_str()).collect()
    }
}
trait DInst {
    type L: Tracker<Tk> + PartialEq + 'static;
    fn start(file: &str) -> Self::L;
    fn show(file: &str, p: &Pos) -> String;
    fn show_span(file: &str, p: &Pos, q: &Pos) -> String;
}
struct UseRich;
impl UseRich {
    fn rc(p: &Pos) -> String {
        let t = p.text();
        format!(
            "{}:{}",
            1 + t.matches('\n').count(),
            1 + t.rsplit('\n').next().unwrap().chars().count()
        )
    }
}
impl DInst for UseRich {
    type L = location::Rich<Tk, fn(&Tk) -> &str>;
    fn start(file: &str) -> Self::L {
        location::Rich::new(file, tk_text as fn(&Tk) -> &str)
    }
    fn show(file: &str, p: &Pos) -> String {
        format!("{file} {}", Self::rc(p))
    }
    fn show_span(file: &str, p: &Pos, q: &Pos) -> String {
        format!("{file} {}..{}", Self::rc(p), Self::rc(q))
    }
}
struct UseMy;
impl DInst for UseMy {
    type L = My;
    fn start(_: &str) -> My {
        My(0)
    }
    fn show(_: &str, p: &Pos) -> String {
        format!("#{}/{}", p.1, p.text().len())
    }
    fn show_span(f: &str, p: &Pos, q: &Pos) -> String {
        format!("[{} to {}]", Self::show(f, p), Self::show(f, q))
    }
}
#[derive(Clone, Debug)]
enum W {
    None,
    L(Pos),
    S(Pos, Pos),
}

const ATOMS: [&str; 14] = [
    "a", "b", " ", ", ", " or ", "EOF", "expected ", "\n", "é", "日本", "{}", "%s", " but found ", "(",
];

fn c20_built<X: DInst>(rng: &mut Rng, st: &mut Stats) -> Verdict
where
    <X::L as Tracker<Tk>>::Location: std::fmt::Display + Clone + std::fmt::Debug,
    <X::L as Tracker<Tk>>::Span: std::fmt::Display + Clone + std::fmt::Debug,
{
    let file = rng.pick(&["f.x", "", "a b/c.txt", "é\"{}"]).to_string();
    let nasty = rng.chance(1, 3);
    fn tok(rng: &mut Rng, nasty: bool) -> Tk {
        if nasty {
            Tk((0..rng.below(4)).map(|_| *rng.pick(&ATOMS)).collect())
        } else {
            Tk((0..rng.range(1, 3)).map(|_| *rng.pick(&['x', 'y', 'z', '(', 'é', '\n'])).collect())
        }
    }
    let pos = |rng: &mut Rng| -> Pos {
        let v: Vec<Tk> = (0..rng.below(6)).map(|_| tok(rng, nasty)).collect();
        let i = v.len() + rng.below(3) * 100;
        Pos(v, i)
    };
    let tr = |p: &Pos| -> X::L {
        let mut l = X::start(&file);
        for t in &p.0 {
            l.advance(t);
        }
        l
    };
    let loc = |p: &Pos| tr(p).location(p.1);
    let spn = |p: &Pos, q: &Pos| tr(p).spanning_to(p.1, &tr(q), q.1);
    type L<X> = <<X as DInst>::L as Tracker<Tk>>::Location;
    type S<X> = <<X as DInst>::L as Tracker<Tk>>::Span;
    let at = |w: &W| -> At<L<X>, S<X>> {
        match w {
            W::None => At::None,
            W::L(p) => At::Location(loc(p)),
            W::S(p, q) => At::Span(spn(p, q)),
        }
    };
    let show_at = |w: &W| -> Option<String> {
        match w {
            W::None => None,
            W::L(p) => Some(X::show(&file, p)),
            W::S(p, q) => Some(X::show_span(&file, p, q)),
        }
    };
    fn ext(p: &Pos, rng: &mut Rng, nasty: bool) -> Pos {
        let mut q = p.clone();
        for _ in 0..rng.below(4) {
            q.0.push(tok(rng, nasty));
            q.1 += 1;
        }
        q
    }
    let mk_w = |rng: &mut Rng| -> W {
        match rng.below(4) {
            0 => W::None,
            1 | 2 => {
                let p = pos(rng);
                let q = ext(&p, rng, nasty);
                W::S(p, q)
            }
            _ => W::L(pos(rng)),
        }
    };
    let w = mk_w(rng);
    let a = at(&w);
    let sa = show_at(&w);
    // the At itself
    {
        let t = format!("{a}");
        let want = sa.as_ref().map_or(String::new(), |s| format!(" at {s}"));
        if t != want {
            return Verdict::Violation(format!("At {w:?} is rendered as {t:?}, expected {want:?}"));
        }
        let t = format!("{a:#}");
        let want = sa.clone().unwrap_or("<unknown>".into());
        if t != want {
            return Verdict::Violation(format!("At {w:?} has the alternate rendering {t:?}, expected {want:?}"));
        }
        let known = !matches!(w, W::None);
        let same = match (&w, a.as_ref()) {
            (W::None, At::None) => true,
            (W::L(p), At::Location(l)) => *l == loc(p),
            (W::S(p, q), At::Span(s)) => *s == spn(p, q),
            _ => false,
        };
        if a.is_known() != known || !same {
            return Verdict::Violation(format!("is_known() or as_ref() of At {w:?} is wrong"));
        }
    }
    st.evaluations += 1;
    type E<X> = Simple<Tk, <X as DInst>::L>;
    let kind = rng.below(6);
    let p = pos(rng);
    let q = ext(&p, rng, nasty);
    let p2 = pos(rng);
    let q2 = ext(&p2, rng, nasty);
    let (t1, t2) = (tok(rng, nasty), tok(rng, nasty));
    let (s1, s2) = (X::show_span(&file, &p, &q), X::show_span(&file, &p2, &q2));
    let name = |t: &Option<Tk>| t.as_ref().map_or("EOF".to_string(), |t| t.0.clone());
    let mut nexp = 0;
    let mut merged = false;
    let (e, say, what): (E<X>, Say, String) = match kind {
        0 | 1 => {
            let n = if nasty { rng.below(5) } else { *rng.pick(&[0, 0, 1, 1, 2, 2, 3, 4, 5, 6, 9]) };
            let mut exp: Vec<Option<Tk>> = vec![];
            for _ in 0..n {
                let t = if rng.chance(1, 6) { None } else { Some(tok(rng, nasty)) };
                exp.push(t.clone());
                if rng.chance(1, 6) {
                    exp.push(t);
                }
            }
            let mut dedup: Vec<Option<Tk>> = vec![];
            for t in &exp {
                if !dedup.contains(t) {
                    dedup.push(t.clone())
                }
            }
            if nasty {
                // keep the number of orders in check
                while dedup.len() > 5 {
                    let t = dedup.pop().unwrap();
                    exp.retain(|x| *x != t);
                }
            }
            let found = if rng.chance(1, 4) { None } else { Some(t1.clone()) };
            let mut e: E<X> = Error::expected_found(exp.clone(), found.clone(), at(&w));
            if rng.chance(1, 2) {
                merged = true;
                // merging adds the expectations of the other, nothing else
                let m = if nasty { 5usize.saturating_sub(dedup.len()) } else { 4 };
                let mut more: Vec<Option<Tk>> = vec![];
                for _ in 0..rng.below(m + 1) {
                    more.push(match rng.below(4) {
                        0 => None,
                        1 if !dedup.is_empty() => dedup[rng.below(dedup.len())].clone(),
                        _ => Some(tok(rng, nasty)),
                    });
                }
                let w2 = mk_w(rng);
                let o: E<X> = Error::expected_found(more.clone(), Some(t2.clone()), at(&w2));
                e.merge_expected_found(&o);
                for t in more {
                    if !dedup.contains(&t) {
                        dedup.push(t)
                    }
                }
            }
            match &e {
                Simple::ExpectedFound(x, f, l)
                    if x.len() == dedup.len() && dedup.iter().all(|t| x.contains(t)) && *f == found && *l == at(&w) => {}
                _ => {
                    return Verdict::Violation(format!(
                        "expected_found({exp:?}, {found:?}, {w:?}) (merged: {merged}) does not hold the expectations {dedup:?}"
                    ))
                }
            }
            nexp = dedup.len();
            let text: Vec<String> = dedup.iter().map(name).collect();
            (
                e,
                Say::EF(text, name(&found), sa.clone()),
                format!("expected_found({dedup:?}, {found:?}, {w:?})"),
            )
        }
        2 => {
            let e: E<X> = Error::unmatched_left_delimiter(t1.clone(), spn(&p, &q), at(&w));
            if e != Simple::UnmatchedLeftDelimiter(t1.clone(), spn(&p, &q), at(&w)) {
                return Verdict::Violation(format!("unmatched_left_delimiter({t1:?}, ..) does not hold what it was built from"));
            }
            (e, left(&t1.0, &s1, &sa), format!("unmatched_left_delimiter({t1:?}, {s1}, {w:?})"))
        }
        3 => {
            let e: E<X> = Error::unmatched_right_delimiter(t1.clone(), spn(&p, &q), at(&w));
            if e != Simple::UnmatchedRightDelimiter(t1.clone(), spn(&p, &q), at(&w)) {
                return Verdict::Violation(format!("unmatched_right_delimiter({t1:?}, ..) does not hold what it was built from"));
            }
            (e, right(&t1.0, &s1, &sa), format!("unmatched_right_delimiter({t1:?}, {s1}, {w:?})"))
        }
        4 => {
            let e: E<X> = Error::unmatched_delimiter_type(t1.clone(), spn(&p, &q), t2.clone(), spn(&p2, &q2));
            if e != Simple::UnmatchedDelimiterType(t1.clone(), spn(&p, &q), t2.clone(), spn(&p2, &q2)) {
                return Verdict::Violation(format!("unmatched_delimiter_type({t1:?}, ..) does not hold what it was built from"));
            }
            (
                e,
                types(&t1.0, &s1, &t2.0, &s2),
                format!("unmatched_delimiter_type({t1:?}, {s1}, {t2:?}, {s2})"),
            )
        }
        _ => {
            let m = t1.0.clone() + &t2.0;
            let n = rng.below(100_000);
            let (e, m): (E<X>, String) = match rng.below(5) {
                0 => (Error::custom(m.clone(), at(&w)), m),
                1 => (Error::custom(m.as_str(), at(&w)), m),
                2 => (Error::custom(n, at(&w)), n.to_string()),
                3 => (Error::custom(format_args!("{n}/{m}"), at(&w)), format!("{n}/{m}")),
                _ => {
                    // without a location
                    let e: E<X> = Fallback::simple(m.as_str());
                    if e != Simple::Custom(m.clone(), At::None) {
                        return Verdict::Violation(format!("Fallback::simple({m:?}) does not hold the message without a location"));
                    }
                    if format!("{e}") != m {
                        return Verdict::Violation(format!("Fallback::simple({m:?}) is rendered as {:?}", format!("{e}")));
                    }
                    (Error::custom(m.clone(), at(&w)), m)
                }
            };
            if e != Simple::Custom(m.clone(), at(&w)) {
                return Verdict::Violation(format!("custom({m:?}, {w:?}) does not hold what it was built from"));
            }
            (e, custom(&m, &sa), format!("custom({m:?}, {w:?})"))
        }
    };
    // reported kind and location
    if e.is_expected_found() != (kind < 2) {
        return Verdict::Violation(format!("is_expected_found() of {what} is {}", e.is_expected_found()));
    }
    let ok = match (kind, e.location()) {
        (4, At::Span(s)) => *s == spn(&p2, &q2),
        (4, _) => false,
        (_, l) => match (&w, l) {
            (W::None, At::None) => true,
            (W::L(p), At::Location(l)) => *l == loc(p),
            (W::S(p, q), At::Span(s)) => *s == spn(p, q),
            _ => false,
        },
    };
    if !ok {
        return Verdict::Violation(format!("location() of {what} is not the location it was built from"));
    }
    for _ in 0..2 {
        let text = format!("{e}");
        if let Some(d) = judge(&text, &say) {
            return Verdict::Violation(format!("{what} is rendered as {text:?}; {d}"));
        }
    }
    // a copy is the same error
    let c = e.clone();
    if c != e || judge(&format!("{c}"), &say).is_some() {
        return Verdict::Violation(format!("a clone of {what} differs from it"));
    }
    // the conversion into a standard result hands over this very error
    let r: parser::Result<(), E<X>> = parser::Result::Failed(3, vec![e.clone()]);
    if Into::<Result<(), E<X>>>::into(r) != Err(e) {
        return Verdict::Violation(format!("{what} is changed by the conversion into a standard result"));
    }
    // the discarding error type says nothing
    {
        let v: Void<Tk> = match kind {
            0 => Error::expected_found([Some(t1.clone())], None, At::Location(3)),
            1 => Error::unmatched_left_delimiter(t1.clone(), 0..1, At::None),
            2 => Error::unmatched_right_delimiter(t1.clone(), 0..1, At::None),
            3 => Error::unmatched_delimiter_type(t1.clone(), 0..1, t2.clone(), 1..2),
            4 => Error::custom("x", At::Location(1)),
            _ => Fallback::simple("x"),
        };
        if v != Void::default() || Error::<Tk>::is_expected_found(&v) || Error::<Tk>::location(&v).is_known() {
            return Verdict::Violation("the discarding error type records something".into());
        }
    }
    st.evaluations += 4;
    st.hit(match kind {
        0 | 1 => "texts: expected/found",
        2 => "texts: unmatched left",
        3 => "texts: unmatched right",
        4 => "texts: delimiter types",
        _ => "texts: custom",
    });
    if merged {
        st.hit("texts: merged")
    }
    st.max("expectations in one text", nexp as u64);
    st.nontrivial(mix(kind as u64, fnv(what.as_bytes())));
    st.sample(|| format!("{what} -> {:?}", format!("{c}")));
    Verdict::Held
}

// ---------------------------------------------------------------------------
// errors that real parses produced

impl std::fmt::Display for RichAt {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        CTX.with(|c| {
            let c = c.borrow();
            match c.rich.get(self.0) {
                Some((r, col, _)) => write!(f, "{r}:{col}"),
                None => write!(f, "?"),
            }
        })
    }
}
struct RichAt(usize);
fn say_of(e: &PErr) -> Say {
    let tok = |s: u8| format!("<{}>", word(s).escape_debug());
    let span = |s: (usize, usize)| format!("{B_FILE} {}..{}", RichAt(s.0), RichAt(s.1));
    let at = |a: &PAt| match a {
        PAt::None => None,
        PAt::Loc(i) => Some(format!("{B_FILE} {}", RichAt(*i))),
        PAt::Span(a, b) => Some(span((*a, *b))),
    };
    match e {
        PErr::EF { exp, found, at: a, .. } => Say::EF(
            exp.iter().map(|t| t.map_or("EOF".into(), tok)).collect(),
            found.map_or("EOF".into(), tok),
            at(a),
        ),
        PErr::UL(t, _, s, a) => left(&tok(*t), &span(*s), &at(a)),
        PErr::UR(t, _, s, a) => right(&tok(*t), &span(*s), &at(a)),
        PErr::UT(t, _, s, u, _, v) => types(&tok(*t), &span(*s), &tok(*u), &span(*v)),
        PErr::Custom(m, a) => custom(m, &at(a)),
        PErr::Void => Say::Text(String::new()),
    }
}

fn c20_parsed(rng: &mut Rng, st: &mut Stats) -> Verdict {
    let mut f = Feat::all();
    f.recover_pct = 25;
    f.nsym = *rng.pick(&[5, 9]);
    f.depth = rng.range(1, 4);
    let c = gen_case(rng, f, 4);
    let real = build::<B>(&c.g, &Opts::default());
    for input in &c.inputs {
        let rec = rng.chance(2, 3);
        let start = rng.below(3) as u64;
        let Some(m) = model_run(&c.g, input, rec) else {
            return Verdict::Discard;
        };
        if m.res.errs().is_empty() {
            continue;
        }
        B::set_ctx(input, start);
        take_notes();
        reset_steps(STEP_MAX);
        let log = Rc::new(SrcLog::default());
        let r = guarded(|| {
            let mut s: St<B> = parse_proof_of_concept::stream::Stream::new_with_location(
                Src::<B>::new(input, &log),
                B::start(start),
            );
            let r = real.parser.parse_internal(&mut s, rec);
            r.errors().map(|e| e.to_string()).collect::<Vec<String>>()
        });
        let texts = match r {
            Ok(t) => t,
            Err(e) => return Verdict::Violation(describe(&c.g, input, B::NAME, &e)),
        };
        st.evaluations += 1;
        let want: Vec<Say> = m.res.errs().iter().map(say_of).collect();
        if texts.len() != want.len() {
            return Verdict::Violation(describe(
                &c.g,
                input,
                B::NAME,
                &format!("{} error messages {texts:?} instead of {}: {want:?}", texts.len(), want.len()),
            ));
        }
        for (t, w) in texts.iter().zip(&want) {
            st.hit("texts: errors of real parses");
            if let Some(d) = judge(t, w) {
                return Verdict::Violation(describe(
                    &c.g,
                    input,
                    B::NAME,
                    &format!("the message of a parse (recovery={rec}) is {t:?}; {d}"),
                ));
            }
        }
        st.nontrivial(mix(c.h, input.iter().fold(rec as u64, |a, &x| mix(a, x as u64))));
        st.sample(|| format!("messages of a parse: {texts:?}"));
    }
    Verdict::Held
}

pub fn c20(rng: &mut Rng, st: &mut Stats, _t: bool) -> Verdict {
    match rng.below(3) {
        0 => c20_built::<UseRich>(rng, st),
        1 => c20_built::<UseMy>(rng, st),
        _ => c20_parsed(rng, st),
    }
}
