//! C25, continued: comma-separated values (items that may be empty) and a
//! small markup language (matching tags, spans).
use crate::real::guarded;
use crate::util::*;
use parse_proof_of_concept::prelude::*;
use parse_proof_of_concept::{combinator, error};

type PBox<O, E> = combinator::Boxed<'static, char, O, E>;
type SE = SimpleError<char>;
type VE = VoidedError<char>;

fn show(s: &[char]) -> String {
    format!("{:?}", s.iter().collect::<String>())
}

// ---------------------------------------------------------------------------

type Rec = Vec<String>;

fn csv_record<E>(style: usize) -> PBox<Rec, E>
where
    E: error::Error<'static, char, LocationTracker = parse_proof_of_concept::location::Simple> + Clone + 'static,
{
    let text = |v: Vec<char>| v.into_iter().collect::<String>();
    let inner = none_of::<char, _, E>(['"']).or(seq("\"\"").to('"'));
    let quoted = inner.repeated().delimited_by(just('"'), just('"')).map(text);
    let bare = none_of::<char, _, E>(",\"\n").repeated().map(text);
    match style {
        0 => quoted.or(bare).separated_by(just(',')).then_ignore(just('\n')).boxed(),
        1 => bare
            .clone()
            .then(quoted.or_not())
            .try_map(|(b, q), span| match q {
                None => TryMapResult::Ok(b),
                Some(q) if b.is_empty() => TryMapResult::Ok(q),
                Some(_) => TryMapResult::Err(vec![E::custom("text before quotes", At::Span(span))]),
            })
            .separated_by(just(','))
            .at_least(1)
            .then_ignore(just('\n'))
            .boxed(),
        2 => quoted
            .alters(bare)
            .then(just(',').ignore_then(csv_field::<E>()).repeated())
            .map(|(a, v)| std::iter::once(a).chain(v).collect())
            .then_ignore(just('\n'))
            .boxed(),
        _ => csv_field::<E>()
            .repeated()
            .at_least(1)
            .with_separator(csv_sep::<E>())
            .then_ignore(just('\n'))
            .boxed(),
    }
}
fn csv_field<E>() -> PBox<String, E>
where
    E: error::Error<'static, char, LocationTracker = parse_proof_of_concept::location::Simple> + Clone + 'static,
{
    let text = |v: Vec<char>| v.into_iter().collect::<String>();
    let inner = none_of::<char, _, E>(['"']).or(seq("\"\"").to('"'));
    inner
        .repeated()
        .delimited_by(just('"'), just('"'))
        .map(text)
        .or(none_of::<char, _, E>(",\"\n").repeated().map(text))
        .boxed()
}
fn csv_sep<E>() -> PBox<String, E>
where
    E: error::Error<'static, char, LocationTracker = parse_proof_of_concept::location::Simple> + Clone + 'static,
{
    just::<char, E>(',').to(String::new()).boxed()
}

/// One record, with its line end: None if there is none at `i`.
fn csv_ref(s: &[char], i: &mut usize) -> Option<Rec> {
    let mut rec = vec![];
    loop {
        let mut f = String::new();
        if s.get(*i) == Some(&'"') {
            let mut j = *i + 1;
            loop {
                match (s.get(j)?, s.get(j + 1)) {
                    ('"', Some('"')) => {
                        f.push('"');
                        j += 2
                    }
                    ('"', _) => {
                        j += 1;
                        break;
                    }
                    (c, _) => {
                        f.push(*c);
                        j += 1
                    }
                }
            }
            *i = j;
        } else {
            while let Some(c) = s.get(*i).filter(|c| !matches!(c, ',' | '"' | '\n')) {
                f.push(*c);
                *i += 1;
            }
        }
        rec.push(f);
        match s.get(*i)? {
            ',' => *i += 1,
            '\n' => {
                *i += 1;
                return Some(rec);
            }
            _ => return None,
        }
    }
}

pub fn csv(rng: &mut Rng, st: &mut Stats) -> Verdict {
    let mut input: Vec<char> = vec![];
    let rows = rng.range(0, 6);
    let cols = rng.range(1, 7);
    for _ in 0..rows {
        let cols = if rng.chance(1, 6) { rng.range(1, 14) } else { cols };
        for k in 0..cols {
            if k > 0 {
                input.push(',')
            }
            match rng.below(5) {
                0 | 1 => (),
                2 => {
                    input.push('"');
                    for _ in 0..rng.below(6) {
                        match *rng.pick(&['a', ',', '\n', '"', 'ü', ' ']) {
                            '"' => input.extend(['"', '"']),
                            c => input.push(c),
                        }
                    }
                    input.push('"');
                }
                _ => input.extend((0..rng.range(1, 5)).map(|_| *rng.pick(&['a', 'b', '1', ' ', 'é', ';']))),
            }
        }
        input.push('\n');
    }
    if rng.chance(1, 3) {
        crate::lang::mutate(rng, &mut input, &[',', '"', '\n', 'a', ' ']);
    }
    let mut want: Vec<Rec> = vec![];
    let mut i = 0;
    let mut good = 0;
    while i < input.len() {
        match csv_ref(&input, &mut i) {
            Some(r) => {
                want.push(r);
                good = i;
            }
            None => break,
        }
    }
    let complete = good == input.len();
    let style = rng.below(4);
    let void = rng.chance(1, 2);
    st.evaluations += 2;
    st.hit("CSV files");
    if complete {
        st.hit("CSV files accepted");
    }
    st.nontrivial(input.iter().fold(990 + style as u64, |h, &c| mix(h, c as u64)));
    st.sample(|| format!("CSV {} -> {want:?}", show(&input)));
    let bad = |what: String| Verdict::Violation(format!("{what}\n  CSV grammar, style {style}, input {}", show(&input)));
    macro_rules! go {
        ($E:ty) => {{
            let rec = csv_record::<$E>(style);
            let file = rec.clone().repeated().then_ignore(end());
            let out = guarded(|| {
                let whole = file.parse_with_recovery(input.clone());
                // streaming: record by record
                let mut s = rec.stream(input.clone());
                let mut got = vec![];
                let mut failed = false;
                for r in s.by_ref().take(input.len() + 2) {
                    match r {
                        ParseResult::Success(r) => got.push(r),
                        _ => {
                            failed = true;
                            break;
                        }
                    }
                }
                let tail: Vec<char> = s.tail().collect();
                (whole, got, failed, tail)
            });
            match out {
                Err(e) => return bad(e),
                Ok((whole, got, failed, tail)) => {
                    if complete && whole != ParseResult::Success(want.clone()) {
                        return bad(format!("a correct file gives {whole:?}\n  instead of {want:?}"));
                    }
                    if !complete && !matches!(whole, ParseResult::Failed(..)) {
                        return bad(format!("a broken file gives {whole:?}"));
                    }
                    if got != want || failed == complete || tail != input[good..] {
                        return bad(format!(
                            "streaming yields {got:?}, failed: {failed}, rest {}\n  instead of {want:?}, failed: {}, rest {}",
                            show(&tail),
                            !complete,
                            show(&input[good..])
                        ));
                    }
                }
            }
        }};
    }
    if void {
        go!(VE)
    } else {
        go!(SE)
    }
    Verdict::Held
}

// ---------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
enum M {
    Text(String),
    Elem(String, Vec<(String, String)>, Vec<M>, usize, usize),
}

fn markup_parser(style: usize) -> PBox<M, SE> {
    let text = |v: Vec<char>| v.into_iter().collect::<String>();
    let name = filter::<char, _, SE>(|c: &char| c.is_ascii_lowercase()).repeated().at_least(1).map(text);
    let value = none_of::<char, _, SE>("\"<").repeated().delimited_by(just('"'), just('"')).map(text);
    let space = just::<char, SE>(' ').repeated();
    let attr = space
        .clone()
        .at_least(1)
        .ignore_then(name.clone())
        .then_ignore(just('='))
        .then(value);
    let head = just('<').ignore_then(name.clone()).then(attr.repeated()).then_ignore(space).boxed();
    let close = name.clone().delimited_by(seq("</").to(' '), just('>'));
    recursive(|elem| {
        let words = none_of::<char, _, SE>("<>").repeated().at_least(1).map(text).map(M::Text);
        let node = if style == 0 {
            elem.clone().or(words).boxed()
        } else {
            words.alters(elem.clone()).boxed()
        };
        let body = just('>').ignore_then(node.repeated()).then(close);
        let body = if style == 0 {
            seq("/>").to(None).or(body.some()).boxed()
        } else {
            body.some().alters(just('/').then(just('>')).to(None)).boxed()
        };
        head.then(body)
            .try_map(|((n, a), b), span: std::ops::Range<usize>| match b {
                None => TryMapResult::Ok(M::Elem(n, a, vec![], span.start, span.end)),
                Some((v, m)) if m == n => TryMapResult::Ok(M::Elem(n, a, v, span.start, span.end)),
                Some(_) => TryMapResult::Err(vec![SE::custom("tags do not match", At::Span(span))]),
            })
    })
    .boxed()
}
struct MRef<'a> {
    s: &'a [char],
    i: usize,
}
impl MRef<'_> {
    fn eat(&mut self, t: &str) -> Option<()> {
        for (k, c) in t.chars().enumerate() {
            if self.s.get(self.i + k) != Some(&c) {
                return None;
            }
        }
        self.i += t.chars().count();
        Some(())
    }
    fn name(&mut self) -> Option<String> {
        let mut n = String::new();
        while let Some(c) = self.s.get(self.i).filter(|c| c.is_ascii_lowercase()) {
            n.push(*c);
            self.i += 1;
        }
        if n.is_empty() {
            None
        } else {
            Some(n)
        }
    }
    fn attr(&mut self) -> Option<(String, String)> {
        self.eat(" ")?;
        while self.eat(" ").is_some() {}
        let n = self.name()?;
        self.eat("=\"")?;
        let mut v = String::new();
        while let Some(c) = self.s.get(self.i).filter(|c| !matches!(c, '"' | '<')) {
            v.push(*c);
            self.i += 1;
        }
        self.eat("\"")?;
        Some((n, v))
    }
    fn elem(&mut self) -> Option<M> {
        let from = self.i;
        self.eat("<")?;
        let n = self.name()?;
        let mut at = vec![];
        loop {
            let back = self.i;
            match self.attr() {
                Some(a) => at.push(a),
                None => {
                    self.i = back;
                    break;
                }
            }
        }
        while self.eat(" ").is_some() {}
        if self.eat("/>").is_some() {
            return Some(M::Elem(n, at, vec![], from, self.i));
        }
        self.eat(">")?;
        let mut v = vec![];
        loop {
            let back = self.i;
            let mut t = String::new();
            while let Some(c) = self.s.get(self.i).filter(|c| !matches!(c, '<' | '>')) {
                t.push(*c);
                self.i += 1;
            }
            if !t.is_empty() {
                v.push(M::Text(t));
                continue;
            }
            match self.elem() {
                Some(e) => v.push(e),
                None => {
                    self.i = back;
                    break;
                }
            }
        }
        self.eat("</")?;
        let m = self.name()?;
        self.eat(">")?;
        if m == n {
            Some(M::Elem(n, at, v, from, self.i))
        } else {
            None
        }
    }
}
fn gen_markup(rng: &mut Rng, d: usize, out: &mut Vec<char>) {
    let n: Vec<char> = (0..rng.range(1, 3)).map(|_| *rng.pick(&['a', 'b', 'x'])).collect();
    out.push('<');
    out.extend(&n);
    for _ in 0..rng.below(3) {
        out.push(' ');
        if rng.chance(1, 4) {
            out.push(' ')
        }
        out.extend("k=\"".chars());
        for _ in 0..rng.below(4) {
            out.push(*rng.pick(&['v', '>', '/', ' ', 'é', '=']));
        }
        out.push('"');
    }
    if rng.chance(1, 6) {
        out.push(' ')
    }
    if rng.chance(1, 4) {
        out.extend("/>".chars());
        return;
    }
    out.push('>');
    for _ in 0..if d == 0 { rng.below(2) } else { rng.below(4) } {
        if d == 0 || rng.chance(1, 2) {
            for _ in 0..rng.range(1, 4) {
                out.push(*rng.pick(&['t', ' ', '\n', '/', '"', 'ß', '=']));
            }
        } else {
            gen_markup(rng, d - 1, out);
        }
    }
    out.extend("</".chars());
    if rng.chance(1, 25) {
        out.push('x');
    } else {
        out.extend(&n);
    }
    out.push('>');
}
thread_local! {
    static MS: [PBox<M, SE>; 2] = [markup_parser(0), markup_parser(1)];
}
pub fn markup(rng: &mut Rng, st: &mut Stats) -> Verdict {
    let mut input = vec![];
    let d = rng.range(0, 4);
    gen_markup(rng, d, &mut input);
    if rng.chance(1, 3) {
        crate::lang::mutate(rng, &mut input, &['<', '>', '/', '"', ' ', 'a', '=']);
    }
    if input.len() > 600 {
        return Verdict::Discard;
    }
    let mut r = MRef { s: &input, i: 0 };
    let want = r.elem();
    let at = r.i;
    let style = rng.below(2);
    st.evaluations += 2;
    st.hit("markup documents");
    if want.is_some() {
        st.hit("markup documents accepted");
    }
    st.nontrivial(input.iter().fold(1990 + style as u64, |h, &c| mix(h, c as u64)));
    st.sample(|| format!("markup {} -> {want:?}", show(&input)));
    let out = guarded(|| {
        MS.with(|p| {
            let a = p[style].parse(input.clone());
            let mut s = p[style].stream(input.clone());
            let b = s.next();
            (a, b, s.tail().collect::<Vec<char>>())
        })
    });
    let bad = |what: String| Verdict::Violation(format!("{what}\n  markup grammar, style {style}, input {}", show(&input)));
    match out {
        Err(e) => bad(e),
        Ok((a, b, tail)) => {
            if a.as_ref().ok() != want.as_ref() {
                return bad(format!("parse() gives {a:?}\n  instead of {want:?}"));
            }
            let b = match b {
                Some(ParseResult::Success(m)) => Some(m),
                Some(ParseResult::Failed(..)) => None,
                None if input.is_empty() => None,
                x => return bad(format!("streaming gives {x:?}")),
            };
            let at = if want.is_some() { at } else { 0 };
            if b != want || tail != input[at..] {
                return bad(format!("streaming gives {b:?} and leaves {}\n  instead of {want:?}", show(&tail)));
            }
            Verdict::Held
        }
    }
}
