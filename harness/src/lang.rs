//! C25: front ends for practical languages, checked against parsers written
//! by hand.
use crate::real::{guarded, panic_text};
use crate::util::*;
use parse_proof_of_concept::prelude::*;
use parse_proof_of_concept::{combinator, error, location};

type PBox<O, E> = combinator::Boxed<'static, char, O, E>;
type SE = SimpleError<char>;
type VE = VoidedError<char>;
type RL = location::Rich<char, fn(&char) -> &str>;
type RE = SimpleError<char, RL>;

pub fn c25(rng: &mut Rng, st: &mut Stats, thorough: bool) -> Verdict {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match rng.below(6) {
        0 => json(rng, st, thorough),
        1 => arith(rng, st, thorough),
        2 => records(rng, st),
        3 => crate::lang2::csv(rng, st),
        4 => crate::lang2::markup(rng, st),
        _ => statements(rng, st),
    }));
    match r {
        Ok(v) => v,
        Err(e) => {
            // (panics of the library inside calls that are not guarded)
            Verdict::Violation(format!("panic in the library: {}", panic_text(e)))
        }
    }
}

fn show(s: &[char]) -> String {
    format!("{:?}", s.iter().collect::<String>())
}

// ---------------------------------------------------------------------------
// JSON

#[derive(Clone, Debug, PartialEq)]
enum J {
    Null,
    Bool(bool),
    Num(u64), // bits of the f64
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

macro_rules! json_parser {
    ($E:ty, $style:expr) => {{
        let style: usize = $style;
        let value: Recursive<'static, char, J, $E> = recursive(|value| {
            let ws = one_of(" \n\r\t").repeated().ignored::<()>().boxed();
            let hex = filter_map(|c: &char| c.to_digit(16)).with_error::<$E>().boxed();
            let hex4 = hex
                .clone()
                .then(hex.clone())
                .then(hex.clone())
                .then(hex.clone())
                .map(|(((a, b), c), d)| ((a * 16 + b) * 16 + c) * 16 + d);
            let uni = hex4.try_map(|cp, span| match char::from_u32(cp) {
                Some(c) => TryMapResult::Ok(c),
                None => TryMapResult::Err(vec![<$E>::custom("illegal code point", At::Span(span))]),
            });
            let escape = just('"')
                .alters(just('\\'))
                .and(just('/'))
                .and(just('b').to('\x08'))
                .and(just('f').to('\x0C'))
                .and(just('n').to('\n'))
                .and(just('r').to('\r'))
                .and(just('t').to('\t'))
                .and(just('u').ignore_then(uni));
            let plain = filter(|c: &char| *c != '"' && *c != '\\' && *c >= ' ').boxed();
            let ch: PBox<char, $E> = if style % 2 == 0 {
                plain.or(just('\\').ignore_then(escape)).boxed()
            } else {
                just('\\').ignore_then(escape).alters(plain).boxed()
            };
            let text = ch
                .repeated()
                .delimited_by(just('"'), just('"'))
                .map(|x| x.into_iter().collect::<String>())
                .boxed();
            let digits = one_of(['0', '1', '2', '3', '4', '5', '6', '7', '8', '9'])
                .repeated()
                .at_least(1)
                .map(|x| x.into_iter().collect::<String>())
                .boxed();
            let int: PBox<String, $E> = if style % 3 == 0 {
                just('0')
                    .to("0".to_string())
                    .or(one_of("123456789").then(one_of("0123456789").repeated()).map(|(a, b): (char, Vec<char>)| {
                        let mut s = String::from(a);
                        s.extend(b);
                        s
                    }))
                    .boxed()
            } else {
                one_of("123456789".to_string())
                    .then(filter(|c: &char| c.is_ascii_digit()).repeated())
                    .map(|(a, b): (char, Vec<char>)| std::iter::once(a).chain(b).collect::<String>())
                    .alters(seq("0").map(|s: &str| s.to_string()))
                    .boxed()
            };
            let number = just('-')
                .or_not()
                .then(int)
                .then(just('.').ignore_then(digits.clone()).or_not())
                .then(one_of("eE").ignore_then(one_of("+-").or_not()).then(digits).or_not())
                .map(|(((sign, int), frac), exp): (((Option<char>, String), Option<String>), Option<(Option<char>, String)>)| {
                    let mut s = String::new();
                    s.extend(sign);
                    s += &int;
                    if let Some(f) = frac {
                        s.push('.');
                        s += &f;
                    }
                    if let Some((g, e)) = exp {
                        s.push('e');
                        s.extend(g);
                        s += &e;
                    }
                    J::Num(s.parse::<f64>().unwrap().to_bits())
                });
            let comma = just(',').boxed();
            let array: PBox<J, $E> = {
                let items: PBox<Vec<J>, $E> = if style % 2 == 0 {
                    value.clone().separated_by(comma.clone()).at_least(1).boxed()
                } else {
                    value
                        .clone()
                        .then(comma.clone().ignore_then(value.clone()).repeated())
                        .map(|(a, b)| std::iter::once(a).chain(b).collect::<Vec<J>>())
                        .boxed()
                };
                items
                    .or(ws.clone().to(vec![]))
                    .delimited_by(just('['), just(']'))
                    .map(J::Arr)
                    .boxed()
            };
            let pair = text
                .clone()
                .padded_by(ws.clone())
                .then_ignore(just(':'))
                .then(value.clone())
                .boxed();
            let object = pair
                .separated_by(comma)
                .at_least(1)
                .or(ws.clone().to(vec![]))
                .delimited_by(just('{'), just('}'))
                .map(J::Obj);
            let word = seq("true")
                .to(J::Bool(true))
                .or(seq(['f', 'a', 'l', 's', 'e']).to(J::Bool(false)))
                .or(seq("null".to_string()).to(J::Null));
            object
                .alters(array)
                .and(text.map(J::Str))
                .and(word)
                .and(number)
                .padded_by(ws)
                .with_error::<$E>()
        });
        value
    }};
}

/// Written by hand: position after the value, or None.
struct JRef<'a> {
    s: &'a [char],
    i: usize,
}
impl<'a> JRef<'a> {
    fn peek(&self) -> Option<char> {
        self.s.get(self.i).copied()
    }
    fn ws(&mut self) {
        while matches!(self.peek(), Some(' ' | '\n' | '\r' | '\t')) {
            self.i += 1
        }
    }
    fn eat(&mut self, c: char) -> Option<()> {
        if self.peek() == Some(c) {
            self.i += 1;
            Some(())
        } else {
            None
        }
    }
    fn value(&mut self) -> Option<J> {
        self.ws();
        let v = match self.peek()? {
            '"' => J::Str(self.string()?),
            '[' => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.peek() != Some(']') {
                    loop {
                        v.push(self.value()?);
                        if self.peek() == Some(',') {
                            self.i += 1
                        } else {
                            break;
                        }
                    }
                }
                self.eat(']')?;
                J::Arr(v)
            }
            '{' => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.peek() != Some('}') {
                    loop {
                        self.ws();
                        let k = self.string()?;
                        self.ws();
                        self.eat(':')?;
                        v.push((k, self.value()?));
                        if self.peek() == Some(',') {
                            self.i += 1
                        } else {
                            break;
                        }
                    }
                }
                self.eat('}')?;
                J::Obj(v)
            }
            't' => self.word("true", J::Bool(true))?,
            'f' => self.word("false", J::Bool(false))?,
            'n' => self.word("null", J::Null)?,
            _ => self.number()?,
        };
        self.ws();
        Some(v)
    }
    fn word(&mut self, w: &str, v: J) -> Option<J> {
        for c in w.chars() {
            self.eat(c)?;
        }
        Some(v)
    }
    fn string(&mut self) -> Option<String> {
        self.eat('"')?;
        let mut out = String::new();
        loop {
            let c = self.peek()?;
            self.i += 1;
            match c {
                '"' => return Some(out),
                '\\' => {
                    let e = self.peek()?;
                    self.i += 1;
                    out.push(match e {
                        '"' | '\\' | '/' => e,
                        'b' => '\u{8}',
                        'f' => '\u{c}',
                        'n' => '\n',
                        'r' => '\r',
                        't' => '\t',
                        'u' => {
                            let t: String = self.s.get(self.i..self.i + 4)?.iter().collect();
                            if !t.chars().all(|c| c.is_ascii_hexdigit()) {
                                return None;
                            }
                            self.i += 4;
                            char::from_u32(u32::from_str_radix(&t, 16).unwrap())?
                        }
                        _ => return None,
                    });
                }
                c if c < ' ' => return None,
                c => out.push(c),
            }
        }
    }
    fn number(&mut self) -> Option<J> {
        let a = self.i;
        let _ = self.eat('-');
        let d = |s: &mut Self| -> Option<()> {
            let b = s.i;
            while matches!(s.peek(), Some('0'..='9')) {
                s.i += 1
            }
            (s.i > b).then_some(())
        };
        if self.eat('0').is_none() {
            d(self)?;
        }
        // fraction and exponent are optional as a whole
        let save = self.i;
        if self.eat('.').is_some() && d(self).is_none() {
            self.i = save;
        }
        let save = self.i;
        if matches!(self.peek(), Some('e' | 'E')) {
            self.i += 1;
            if matches!(self.peek(), Some('+' | '-')) {
                self.i += 1
            }
            if d(self).is_none() {
                self.i = save
            }
        }
        let t: String = self.s[a..self.i].iter().collect();
        Some(J::Num(t.parse::<f64>().ok()?.to_bits()))
    }
}

fn gen_ws(rng: &mut Rng, out: &mut String) {
    if rng.chance(1, 4) {
        for _ in 0..rng.range(1, 3) {
            out.push(*rng.pick(&[' ', '\n', '\r', '\t']));
        }
    }
}
fn gen_str(rng: &mut Rng, out: &mut String) {
    out.push('"');
    for _ in 0..rng.below(6) {
        match rng.below(8) {
            0 => {
                out.push('\\');
                out.push(*rng.pick(&['"', '\\', '/', 'b', 'f', 'n', 'r', 't']));
            }
            1 => {
                let cp = *rng.pick(&[0u32, 9, 0x22, 0x41, 0xe9, 0x65e5, 0xd7ff, 0xe000, 0xffff]);
                let t = if rng.chance(1, 2) { format!("\\u{cp:04x}") } else { format!("\\u{cp:04X}") };
                *out += &t;
            }
            _ => out.push(*rng.pick(&['a', 'b', 'é', '🦀', ' ', '/', '{', '[', ',', ':', '\u{7f}'])),
        }
    }
    out.push('"');
}
fn gen_json(rng: &mut Rng, d: usize, out: &mut String) {
    gen_ws(rng, out);
    match rng.below(if d == 0 { 5 } else { 9 }) {
        0 => *out += *rng.pick(&["true", "false", "null"]),
        1 => gen_str(rng, out),
        2..=4 => {
            if rng.chance(1, 3) {
                out.push('-')
            }
            if rng.chance(1, 3) {
                out.push('0')
            } else {
                *out += &rng.range(1, 99999).to_string()
            }
            if rng.chance(1, 3) {
                out.push('.');
                for _ in 0..rng.range(1, 3) {
                    out.push((b'0' + rng.below(10) as u8) as char)
                }
            }
            if rng.chance(1, 4) {
                out.push(*rng.pick(&['e', 'E']));
                *out += *rng.pick(&["", "+", "-"]);
                *out += &rng.below(40).to_string();
            }
        }
        5 | 6 => {
            out.push('[');
            let n = rng.below(5);
            if n == 0 {
                gen_ws(rng, out)
            }
            for i in 0..n {
                if i > 0 {
                    out.push(',')
                }
                gen_json(rng, d - 1, out)
            }
            out.push(']');
        }
        _ => {
            out.push('{');
            let n = rng.below(4);
            if n == 0 {
                gen_ws(rng, out)
            }
            for i in 0..n {
                if i > 0 {
                    out.push(',')
                }
                gen_ws(rng, out);
                gen_str(rng, out);
                gen_ws(rng, out);
                out.push(':');
                gen_json(rng, d - 1, out)
            }
            out.push('}');
        }
    }
    gen_ws(rng, out);
}
pub fn mutate(rng: &mut Rng, v: &mut Vec<char>, alpha: &[char]) {
    for _ in 0..rng.range(1, 2) {
        let k = rng.below(5);
        if v.is_empty() || k == 0 {
            let i = rng.below(v.len() + 1);
            v.insert(i, *rng.pick(alpha));
        } else {
            let i = rng.below(v.len());
            match k {
                1 => {
                    v.remove(i);
                }
                2 => v[i] = *rng.pick(alpha),
                3 => {
                    let c = v[i];
                    v.insert(i, c)
                }
                _ => v.truncate(i),
            }
        }
    }
}

thread_local! {
    static JS: Vec<(Recursive<'static, char, J, SE>, Recursive<'static, char, J, VE>)> =
        (0..6).map(|s| (json_parser!(SE, s), json_parser!(VE, s))).collect();
    static AS: [PBox<Expr, SE>; 2] = [arith_parser(0), arith_parser(1)];
}

fn json(rng: &mut Rng, st: &mut Stats, thorough: bool) -> Verdict {
    let mut t = String::new();
    let d = rng.range(0, if thorough { 6 } else { 4 });
    gen_json(rng, d, &mut t);
    let mut input: Vec<char> = t.chars().collect();
    let mutated = rng.chance(1, 2);
    if mutated {
        mutate(
            rng,
            &mut input,
            &[
                '"', '\\', '[', ']', '{', '}', ',', ':', '0', '1', '9', '-', '+', '.', 'e', 'u', 't', 'n', ' ', '\n', 'a', '\u{1}',
            ],
        );
    }
    if rng.chance(1, 40) {
        // deep nesting
        let d = rng.range(20, 400);
        let mut v: Vec<char> = vec!['['; d];
        v.push('1');
        v.extend(vec![']'; if rng.chance(1, 2) { d } else { rng.below(d + 2) }]);
        input = v;
    }
    let mut r = JRef { s: &input, i: 0 };
    let one = r.value();
    let at = r.i;
    let all = one.clone().filter(|_| at == input.len());
    let style = rng.below(6);
    let out = guarded(|| {
        JS.with(|p| {
            let (ps, pv) = &p[style];
            let whole = ps.clone().then_ignore(end());
            let a = whole.parse(input.clone());
            let b = pv.clone().then_ignore(end()).parse(input.clone());
            // the first document of a stream, and what is left
            let mut s = ps.stream(input.clone());
            let first = s.next();
            let tail: Vec<char> = s.tail().collect();
            let rec = whole.parse_with_recovery(input.clone());
            (a, b, first, tail, rec)
        })
    });
    st.evaluations += 4;
    st.hit("JSON documents");
    if all.is_some() {
        st.hit("JSON documents accepted");
    }
    let (a, b, first, tail, rec) = match out {
        Ok(x) => x,
        Err(e) => return Verdict::Violation(format!("{e}\n  JSON input {}", show(&input))),
    };
    st.nontrivial(input.iter().fold(style as u64, |h, &c| mix(h, c as u64)));
    st.sample(|| format!("JSON {} -> {}", show(&input), if all.is_some() { "accepted" } else { "rejected" }));
    let bad = |what: &str| Verdict::Violation(format!("{what}\n  JSON grammar, style {style}, input {}", show(&input)));
    match &all {
        Some(v) => {
            if a != Ok(v.clone()) {
                return bad(&format!("the JSON grammar gives {a:?} instead of {v:?}"));
            }
            if b != Ok(v.clone()) {
                return bad(&format!("the JSON grammar with discarded errors gives {b:?} instead of {v:?}"));
            }
            if !matches!(&rec, ParseResult::Success(w) if w == v) {
                return bad(&format!("the JSON grammar with recovery gives {rec:?} instead of {v:?}"));
            }
        }
        None => {
            if a.is_ok() || b.is_ok() || rec.is_ok() {
                return bad(&format!("the JSON grammar accepts what is not JSON: {a:?} / {b:?} / {rec:?}"));
            }
            // the error lies inside the input
            if let Err(e) = &a {
                let ok = match error::Error::<char>::location(e) {
                    At::Location(l) => *l <= input.len(),
                    At::Span(s) => s.start <= s.end && s.end <= input.len(),
                    At::None => false,
                };
                if !ok {
                    return bad(&format!("the error {e:?} does not lie inside the input of {} characters", input.len()));
                }
            }
        }
    }
    // streaming: the first document
    match (&one, first) {
        (_, None) => {
            if !input.is_empty() {
                return bad("streaming yields nothing");
            }
        }
        (Some(v), Some(ParseResult::Success(w))) => {
            if w != *v || tail != input[at..] {
                return bad(&format!("streaming yields {w:?} and leaves {}, expected {v:?} up to {at}", show(&tail)));
            }
        }
        (None, Some(ParseResult::Failed(..))) => {
            if tail != input {
                return bad(&format!("a failed streamed item leaves {}", show(&tail)));
            }
        }
        (o, f) => return bad(&format!("streaming yields {f:?}, expected {o:?}")),
    }
    Verdict::Held
}

// ---------------------------------------------------------------------------
// arithmetic

#[derive(Clone, Debug, PartialEq)]
enum Expr {
    Num(u64),
    Neg(Box<Expr>),
    Bin(char, Box<Expr>, Box<Expr>),
    /// a span-carrying call: name, arguments
    Call(String, Vec<Expr>, usize, usize),
}
fn fold(a: Expr, b: Vec<(char, Expr)>) -> Expr {
    b.into_iter().fold(a, |a, (o, b)| Expr::Bin(o, Box::new(a), Box::new(b)))
}
fn arith_parser(style: usize) -> PBox<Expr, SE> {
    let r: Recursive<'static, char, Expr, SE> = recursive(|expr| {
        let ws = just(' ').repeated().ignored::<()>().boxed();
        let num = filter_map(|c: &char| c.to_digit(10))
            .repeated()
            .at_least(1)
            .at_most(9)
            .map(|d| Expr::Num(d.into_iter().fold(0u64, |a, x| a * 10 + x as u64)))
            .padded_by(ws.clone())
            .boxed();
        let name = filter(|c: &char| c.is_ascii_alphabetic())
            .repeated()
            .at_least(1)
            .map(|v| v.into_iter().collect::<String>())
            .boxed();
        let call = name
            .then(
                expr.clone()
                    .separated_by(just(';'))
                    .allow_trailing()
                    .delimited_by(just('('), just(')')),
            )
            .map_with_span(|(n, a), s: std::ops::Range<usize>| Expr::Call(n, a, s.start, s.end))
            .padded_by(ws.clone())
            .boxed();
        let group = expr
            .clone()
            .delimited_by(just('('), just(')'))
            .padded_by(ws.clone())
            .boxed();
        let atom: PBox<Expr, SE> = if style == 0 {
            num.or(call).or(group).boxed()
        } else {
            group.alters(call).and(num).boxed()
        };
        let unary: Recursive<'static, char, Expr, SE> = recursive(|unary| {
            just('-')
                .padded_by(ws.clone())
                .ignore_then(unary.clone())
                .map(|e| Expr::Neg(Box::new(e)))
                .or(atom)
        });
        // right-associative
        let pow: Recursive<'static, char, Expr, SE> = recursive(|pow| {
            unary.then(just('^').ignore_then(pow.clone()).or_not()).map(|(a, b)| match b {
                None => a,
                Some(b) => Expr::Bin('^', Box::new(a), Box::new(b)),
            })
        });
        let mul = pow
            .clone()
            .then(one_of("*/").then(pow).repeated())
            .map(|(a, b)| fold(a, b))
            .boxed();
        mul.clone().then(one_of("+-").then(mul).repeated()).map(|(a, b)| fold(a, b))
    });
    r.then_ignore(end()).boxed()
}
struct ARef<'a> {
    s: &'a [char],
    i: usize,
}
impl<'a> ARef<'a> {
    fn ws(&mut self) {
        while self.s.get(self.i) == Some(&' ') {
            self.i += 1
        }
    }
    /// Precedence climbing.
    fn expr(&mut self, min: u8) -> Option<Expr> {
        let mut a = self.unary()?;
        loop {
            let (o, p, right) = match self.s.get(self.i) {
                Some(c @ ('+' | '-')) => (*c, 1, false),
                Some(c @ ('*' | '/')) => (*c, 2, false),
                Some('^') => ('^', 3, true),
                _ => return Some(a),
            };
            if p < min {
                return Some(a);
            }
            let save = self.i;
            self.i += 1;
            match self.expr(if right { p } else { p + 1 }) {
                Some(b) => a = Expr::Bin(o, Box::new(a), Box::new(b)),
                None => {
                    self.i = save;
                    return Some(a);
                }
            }
        }
    }
    fn unary(&mut self) -> Option<Expr> {
        let save = self.i;
        self.ws();
        if self.s.get(self.i) == Some(&'-') {
            self.i += 1;
            self.ws();
            match self.unary() {
                Some(e) => return Some(Expr::Neg(Box::new(e))),
                None => {
                    self.i = save;
                    return None;
                }
            }
        }
        let r = self.atom();
        if r.is_none() {
            self.i = save
        }
        r
    }
    fn atom(&mut self) -> Option<Expr> {
        self.ws();
        let e = match self.s.get(self.i)? {
            '(' => {
                self.i += 1;
                let e = self.expr(0)?;
                if self.s.get(self.i) != Some(&')') {
                    return None;
                }
                self.i += 1;
                e
            }
            c if c.is_ascii_digit() => {
                let mut n = 0u64;
                let mut k = 0;
                while let (Some(d), true) = (self.s.get(self.i).and_then(|c| c.to_digit(10)), k < 9) {
                    n = n * 10 + d as u64;
                    self.i += 1;
                    k += 1;
                }
                Expr::Num(n)
            }
            c if c.is_ascii_alphabetic() => {
                let a = self.i;
                while self.s.get(self.i).map_or(false, |c| c.is_ascii_alphabetic()) {
                    self.i += 1
                }
                let n: String = self.s[a..self.i].iter().collect();
                if self.s.get(self.i) != Some(&'(') {
                    return None;
                }
                self.i += 1;
                let mut args = vec![];
                loop {
                    match self.expr(0) {
                        Some(e) => args.push(e),
                        None => break,
                    }
                    if self.s.get(self.i) == Some(&';') {
                        self.i += 1
                    } else {
                        break;
                    }
                }
                if self.s.get(self.i) != Some(&')') {
                    return None;
                }
                self.i += 1;
                Expr::Call(n, args, a, self.i)
            }
            _ => return None,
        };
        self.ws();
        Some(e)
    }
}
fn gen_expr(rng: &mut Rng, d: usize, out: &mut String) {
    let sp = |rng: &mut Rng, out: &mut String| {
        if rng.chance(1, 5) {
            out.push(' ')
        }
    };
    sp(rng, out);
    match rng.below(if d == 0 { 3 } else { 10 }) {
        0..=2 => *out += &rng.below(1000).to_string(),
        3 => {
            out.push('-');
            gen_expr(rng, d - 1, out)
        }
        4 => {
            out.push('(');
            gen_expr(rng, d - 1, out);
            out.push(')');
        }
        5 => {
            *out += *rng.pick(&["f", "max", "x"]);
            out.push('(');
            let n = rng.below(4);
            for i in 0..n {
                if i > 0 {
                    out.push(';')
                }
                gen_expr(rng, d - 1, out)
            }
            if n > 0 && rng.chance(1, 4) {
                out.push(';')
            }
            out.push(')');
        }
        _ => {
            gen_expr(rng, d - 1, out);
            out.push(*rng.pick(&['+', '-', '*', '/', '^']));
            gen_expr(rng, d - 1, out)
        }
    }
    sp(rng, out);
}
fn arith(rng: &mut Rng, st: &mut Stats, thorough: bool) -> Verdict {
    let mut t = String::new();
    let d = rng.range(0, if thorough { 7 } else { 5 });
    gen_expr(rng, d, &mut t);
    let mut input: Vec<char> = t.chars().collect();
    if rng.chance(1, 3) {
        mutate(rng, &mut input, &['(', ')', '+', '-', '*', '^', ' ', '1', 'f', ';', '?']);
    }
    if input.len() > 300 {
        return Verdict::Discard;
    }
    // (the grammar re-reads broken parentheses; keep their depth in check)
    let mut depth = 0usize;
    let mut deepest = 0;
    for c in &input {
        match c {
            '(' => {
                depth += 1;
                deepest = deepest.max(depth)
            }
            ')' => depth = depth.saturating_sub(1),
            _ => (),
        }
    }
    let mut r = ARef { s: &input, i: 0 };
    let want = r.expr(0).filter(|_| r.i == input.len());
    if want.is_none() && deepest > 6 {
        return Verdict::Discard;
    }
    let style = rng.below(2);
    let out = guarded(|| AS.with(|p| (p[style].parse(input.clone()), p[style].parse_with_recovery(input.clone()))));
    st.evaluations += 2;
    st.hit("arithmetic expressions");
    if want.is_some() {
        st.hit("arithmetic expressions accepted");
    }
    st.nontrivial(input.iter().fold(77 + style as u64, |h, &c| mix(h, c as u64)));
    st.sample(|| format!("arithmetic {} -> {want:?}", show(&input)));
    let bad = |what: &str| Verdict::Violation(format!("{what}\n  arithmetic grammar, style {style}, input {}", show(&input)));
    match out {
        Err(e) => bad(&e),
        Ok((a, b)) => match want {
            Some(w) => {
                if a != Ok(w.clone()) || !matches!(&b, ParseResult::Success(x) if *x == w) {
                    return bad(&format!("the arithmetic grammar gives {a:?} / {b:?}\n  instead of {w:?}"));
                }
                Verdict::Held
            }
            None => {
                if a.is_ok() || b.is_ok() {
                    return bad(&format!("the arithmetic grammar accepts what is not an expression: {a:?} / {b:?}"));
                }
                Verdict::Held
            }
        },
    }
}

// ---------------------------------------------------------------------------
// records of a fixed shape with delimiter-based recovery

#[derive(Clone, Debug, PartialEq)]
enum D {
    Leaf(String),
    Node(Vec<D>),
    Broken,
}
#[derive(Clone, Debug)]
enum Shape {
    Leaf,
    /// bracket kind, fields (at least two)
    Node(usize, Vec<Shape>),
}
const BR: [(char, char); 3] = [('(', ')'), ('[', ']'), ('{', '}')];
fn ch_text(c: &char) -> &'static str {
    // every character the records use, as text
    const T: &str = "()[]{},;abcxyz!\n";
    match T.char_indices().find(|(_, x)| x == c) {
        Some((i, x)) => &T[i..i + x.len_utf8()],
        None => "?",
    }
}
fn rl() -> RL {
    location::Rich::new("records", ch_text as fn(&char) -> &str)
}
fn gen_shape(rng: &mut Rng, d: usize) -> Shape {
    if d == 0 || rng.chance(1, 3) {
        Shape::Leaf
    } else {
        Shape::Node(rng.below(3), (0..rng.range(2, 4)).map(|_| gen_shape(rng, d - 1)).collect())
    }
}
/// Parser for documents of the given shape. Every element recovers.
fn shape_parser(s: &Shape, style: usize) -> PBox<D, RE> {
    match s {
        Shape::Leaf => {
            let word = filter(|c: &char| c.is_ascii_lowercase())
                .repeated()
                .at_least(1)
                .map(|v| D::Leaf(v.into_iter().collect()))
                .with_error::<RE>();
            // up to whatever ends the element
            word.to_recover(find(|c: &char| matches!(c, ',' | ')' | ']' | '}')).and_return(D::Broken))
                .boxed()
        }
        Shape::Node(b, f) => {
            let (l, r) = BR[*b];
            let fields: PBox<Vec<D>, RE> = if style == 0 {
                // first field, then comma and field
                let mut it = f.iter();
                let first = shape_parser(it.next().unwrap(), style);
                let mut chain = first.chain(just(',').ignore_then(shape_parser(it.next().unwrap(), style)));
                for x in it {
                    chain = chain.and(just(',').ignore_then(shape_parser(x, style)));
                }
                chain.boxed()
            } else {
                // nested pairs
                let mut it = f.iter().rev();
                let mut p: PBox<Vec<D>, RE> = shape_parser(it.next().unwrap(), style).map(|x| vec![x]).boxed();
                for x in it {
                    p = shape_parser(x, style)
                        .then_ignore(just(','))
                        .then(p)
                        .map(|(a, b)| std::iter::once(a).chain(b).collect())
                        .boxed();
                }
                p
            };
            fields
                .delimited_by(just(l), just(r))
                .map(D::Node)
                .to_recover(scan(nested_delimiters(&BR)).skip().and_return(D::Broken))
                .boxed()
        }
    }
}
/// Writes a document; `broken` gets the extents of the elements broken.
fn gen_doc(s: &Shape, rng: &mut Rng, breaks: usize, out: &mut Vec<char>, broken: &mut Vec<(usize, usize)>, root: bool) -> D {
    let from = out.len();
    let hit = rng.below(100) < breaks;
    match s {
        Shape::Leaf => {
            if hit {
                // no word, and nothing that ends an element
                if rng.chance(1, 4) {
                    // nothing at all
                } else {
                    out.push(*rng.pick(&['!', ';']));
                    for _ in 0..rng.below(4) {
                        out.push(*rng.pick(&['!', ';', 'a', '\n', 'x']));
                    }
                }
                broken.push((from, out.len()));
                return D::Broken;
            }
            let w: String = (0..rng.range(1, 3)).map(|_| *rng.pick(&['a', 'b', 'c', 'x', 'y', 'z'])).collect();
            out.extend(w.chars());
            D::Leaf(w)
        }
        Shape::Node(b, f) => {
            let (l, r) = BR[*b];
            out.push(l);
            if hit && !root {
                // balanced rubbish without a comma: too few fields
                fn rubbish(rng: &mut Rng, d: usize, out: &mut Vec<char>) {
                    for _ in 0..rng.below(4) {
                        if d > 0 && rng.chance(1, 3) {
                            let (l, r) = *rng.pick(&BR);
                            out.push(l);
                            rubbish(rng, d - 1, out);
                            out.push(r);
                        } else {
                            out.push(*rng.pick(&['!', ';', 'a', 'x', '\n']));
                        }
                    }
                }
                // (not empty: a first field sought at the right delimiter would
                // take that delimiter for the element to skip)
                let n = out.len();
                rubbish(rng, 3, out);
                if out.len() == n {
                    out.push(*rng.pick(&['!', ';', 'a', 'x', '\n']));
                }
                out.push(r);
                broken.push((from, out.len()));
                return D::Broken;
            }
            let mut v = vec![];
            for (i, x) in f.iter().enumerate() {
                if i > 0 {
                    out.push(',')
                }
                v.push(gen_doc(x, rng, breaks, out, broken, false));
            }
            out.push(r);
            D::Node(v)
        }
    }
}
fn records(rng: &mut Rng, st: &mut Stats) -> Verdict {
    let style = rng.below(2);
    let shape = Shape::Node(rng.below(3), (0..rng.range(2, 4)).map(|_| gen_shape(rng, 3)).collect());
    let breaks = *rng.pick(&[0, 5, 15, 40, 70]);
    let mut docs = vec![];
    let mut text: Vec<char> = vec![];
    for _ in 0..rng.range(1, 4) {
        let mut broken = vec![];
        let from = text.len();
        let d = gen_doc(&shape, rng, breaks, &mut text, &mut broken, true);
        docs.push((d, broken, from, text.len()));
    }
    let parser = shape_parser(&shape, style);
    let out = guarded(|| {
        let mut s = parser.stream_with_location(text.clone(), rl());
        let mut got = vec![];
        for _ in 0..docs.len() + 1 {
            got.push(s.next());
        }
        let rest: Vec<char> = s.tail().take(5).collect();
        (got, rest)
    });
    st.evaluations += 1;
    st.hit("record documents");
    st.nontrivial(text.iter().fold(style as u64, |h, &c| mix(h, c as u64)));
    st.sample(|| format!("records {} -> {:?}", show(&text), docs.iter().map(|d| &d.0).collect::<Vec<_>>()));
    let bad = |what: &str| {
        Verdict::Violation(format!(
            "{what}\n  records, style {style}, shape {shape:?}\n  input {}",
            show(&text)
        ))
    };
    let (got, rest) = match out {
        Ok(x) => x,
        Err(e) => return bad(&e),
    };
    for (k, (doc, broken, from, to)) in docs.iter().enumerate() {
        st.add("broken elements", broken.len() as u64);
        let Some(r) = &got[k] else {
            return bad(&format!("document {k} is missing"));
        };
        match r {
            ParseResult::Success(d) if broken.is_empty() => {
                if d != doc {
                    return bad(&format!("document {k} is {d:?} instead of {doc:?}"));
                }
            }
            ParseResult::Recovered(d, es) if !broken.is_empty() => {
                if d != doc {
                    return bad(&format!(
                        "document {k} is recovered as {d:?} instead of {doc:?}: correct siblings of broken elements are not kept"
                    ));
                }
                let places: Vec<(usize, usize)> = es
                    .iter()
                    .map(|e| match error::Error::<char>::location(e) {
                        At::Location(l) => (l.offset.index, l.offset.index),
                        At::Span(s) => (s.from.index, s.to.index),
                        At::None => (usize::MAX, 0),
                    })
                    .collect();
                for (a, b) in broken {
                    if !places.iter().any(|p| p.0 >= *a && p.0 <= *b) {
                        return bad(&format!(
                            "no error of document {k} lies in its broken element at {a}..{b}; errors at {places:?}"
                        ));
                    }
                }
                for p in &places {
                    if p.0 < *from || p.1 > *to || !broken.iter().any(|(a, b)| p.0 >= *a && p.0 <= *b) {
                        return bad(&format!(
                            "an error of document {k} ({from}..{to}) at {}..{} lies in no broken element {broken:?}",
                            p.0, p.1
                        ));
                    }
                }
                // row and column are those of the index
                for e in es {
                    let o = match error::Error::<char>::location(e) {
                        At::Location(l) => &l.offset,
                        At::Span(s) => &s.from,
                        At::None => continue,
                    };
                    let before = &text[..o.index];
                    let row = 1 + before.iter().filter(|c| **c == '\n').count();
                    let col = 1 + before.iter().rev().take_while(|c| **c != '\n').count();
                    if (o.row, o.column) != (row, col) {
                        return bad(&format!("an error at index {} is reported at {}:{} instead of {row}:{col}", o.index, o.row, o.column));
                    }
                }
                st.hit("records recovered");
            }
            r => {
                return bad(&format!(
                    "document {k} with {} broken elements: {} (expected {doc:?})",
                    broken.len(),
                    match r {
                        ParseResult::Success(_) => "plain success".to_string(),
                        ParseResult::Recovered(d, e) => format!("recovered as {d:?} with {} errors", e.len()),
                        ParseResult::Failed(i, e) => format!("failed at {i} with {} errors", e.len()),
                    }
                ))
            }
        }
    }
    if got[docs.len()].is_some() || !rest.is_empty() {
        return bad("something is left after the last document");
    }
    Verdict::Held
}

// ---------------------------------------------------------------------------
// statement lists

#[derive(Clone, Debug, PartialEq)]
enum Stm {
    Let(String, Vec<u32>),
    Call(String, Option<u32>),
    Error,
}
fn stm_parser(style: usize) -> PBox<Stm, SE> {
    let ws = just(' ').repeated().ignored::<()>().boxed();
    let name = filter(|c: &char| c.is_ascii_lowercase())
        .repeated()
        .at_least(1)
        .map(|v| v.into_iter().collect::<String>())
        .padded_by(ws.clone())
        .boxed();
    let num = filter_map(|c: &char| c.to_digit(10))
        .repeated()
        .at_least(1)
        .at_most(4)
        .map(|v| v.into_iter().fold(0, |a, d| a * 10 + d))
        .padded_by(ws.clone())
        .boxed();
    let assign = name
        .clone()
        .then_ignore(just('='))
        .then(num.clone().separated_by(just(',')).at_least(1).at_most(3))
        .map(|(n, v)| Stm::Let(n, v))
        .boxed();
    let call = seq("!")
        .ignore_then(name)
        .then(num.or_not())
        .map(|(n, a)| Stm::Call(n, a))
        .padded_by(ws)
        .boxed();
    let body: PBox<Stm, SE> = if style == 0 {
        assign.or(call).boxed()
    } else {
        call.alters(assign).boxed()
    };
    // a broken statement extends up to and including the next semicolon
    body.then_ignore(just(';'))
        .to_recover(find(|c: &char| *c == ';').skip().and_return(Stm::Error))
        .boxed()
}
fn stm_ref(s: &[char]) -> Option<Stm> {
    // s: the text up to, not including, the semicolon
    fn ws(s: &[char]) -> &[char] {
        let n = s.iter().take_while(|c| **c == ' ').count();
        &s[n..]
    }
    fn name(s: &[char]) -> Option<(String, &[char])> {
        let s = ws(s);
        let n = s.iter().take_while(|c| c.is_ascii_lowercase()).count();
        (n > 0).then(|| (s[..n].iter().collect(), ws(&s[n..])))
    }
    fn num(s: &[char]) -> Option<(u32, &[char])> {
        let s = ws(s);
        let n = s.iter().take(4).take_while(|c| c.is_ascii_digit()).count();
        if n == 0 {
            return None;
        }
        let v: String = s[..n].iter().collect();
        Some((v.parse().unwrap(), ws(&s[n..])))
    }
    let t = ws(s);
    if t.first() == Some(&'!') {
        let (n, r) = name(&t[1..])?;
        let (a, r) = match num(r) {
            Some((a, r)) => (Some(a), r),
            None => (None, r),
        };
        return ws(r).is_empty().then_some(Stm::Call(n, a));
    }
    let (n, r) = name(s)?;
    let mut r = r.strip_prefix(&['='])?;
    let mut v = vec![];
    loop {
        let (x, q) = num(r)?;
        v.push(x);
        r = q;
        if v.len() < 3 && r.first() == Some(&',') && num(&r[1..]).is_some() {
            r = &r[1..];
        } else {
            break;
        }
    }
    r.is_empty().then_some(Stm::Let(n, v))
}
fn statements(rng: &mut Rng, st: &mut Stats) -> Verdict {
    let style = rng.below(2);
    let mut text: Vec<char> = vec![];
    for _ in 0..rng.range(1, 12) {
        let mut t = String::new();
        let sp = |rng: &mut Rng, t: &mut String| {
            if rng.chance(1, 4) {
                t.push(' ')
            }
        };
        sp(rng, &mut t);
        let nm: String = (0..rng.range(1, 3)).map(|_| *rng.pick(&['a', 'b', 'z'])).collect();
        if rng.chance(2, 3) {
            t += &nm;
            sp(rng, &mut t);
            t.push('=');
            for i in 0..rng.range(1, 3) {
                if i > 0 {
                    t.push(',')
                }
                sp(rng, &mut t);
                t += &rng.below(2000).to_string();
                sp(rng, &mut t);
            }
        } else {
            t.push('!');
            t += &nm;
            if rng.chance(1, 2) {
                t.push(' ');
                t += &rng.below(100).to_string();
            }
        }
        sp(rng, &mut t);
        t.push(';');
        let mut v: Vec<char> = t.chars().collect();
        if rng.chance(1, 4) {
            mutate(rng, &mut v, &['=', '!', 'a', '1', ';', ',', ' ', '?']);
        }
        text.extend(v);
    }
    // the reference: split at semicolons
    let mut want = vec![];
    let mut from = 0;
    while from < text.len() {
        match text[from..].iter().position(|c| *c == ';') {
            Some(k) => {
                want.push((stm_ref(&text[from..from + k]), from, from + k + 1));
                from += k + 1;
            }
            None => {
                // unterminated: recovered up to end of input
                want.push((None, from, text.len()));
                from = text.len();
            }
        }
    }
    let parser = stm_parser(style);
    let out = guarded(|| {
        let mut s = parser.stream(text.clone());
        (0..want.len() + 1).map(|_| s.next()).collect::<Vec<_>>()
    });
    st.evaluations += 1;
    st.hit("statement lists");
    st.nontrivial(text.iter().fold(900 + style as u64, |h, &c| mix(h, c as u64)));
    st.sample(|| format!("statements {}", show(&text)));
    let bad = |what: &str| Verdict::Violation(format!("{what}\n  statements, style {style}, input {}", show(&text)));
    let got = match out {
        Ok(g) => g,
        Err(e) => return bad(&e),
    };
    for (k, (w, a, b)) in want.iter().enumerate() {
        match (w, &got[k]) {
            (Some(w), Some(ParseResult::Success(g))) if g == w => {}
            (None, Some(ParseResult::Recovered(Stm::Error, es))) => {
                st.hit("statements recovered");
                if es.is_empty() {
                    return bad(&format!("statement {k} is broken, but no error is reported"));
                }
                for e in es {
                    let p = match error::Error::<char>::location(e) {
                        At::Location(l) => *l,
                        At::Span(s) => s.start,
                        At::None => usize::MAX,
                    };
                    if p < *a || p > *b {
                        return bad(&format!("statement {k} at {a}..{b} is broken, but an error is reported at {p}"));
                    }
                }
            }
            (w, g) => return bad(&format!("statement {k} at {a}..{b} is {g:?} instead of {w:?}")),
        }
    }
    if got[want.len()].is_some() {
        return bad("the list of statements does not end");
    }
    Verdict::Held
}
