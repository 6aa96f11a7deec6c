//! The instantiations of the library the grammars are built with.
use crate::ast::sym_name;
use crate::canon::*;
use crate::util::mix;
use parse_proof_of_concept::error::{self, At, Error, Fallback};
use parse_proof_of_concept::location::{self, Tracker};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

pub const BAD: usize = 10_000_000;

thread_local! {
    /// Logical step counter: token comparisons, clones, predicate calls,
    /// source polls.
    pub static STEPS: Cell<u64> = const { Cell::new(0) };
    pub static STEP_LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
    /// Oracle for the location trackers of the current input.
    pub static CTX: RefCell<Ctx> = RefCell::new(Ctx::default());
}
pub fn tick() {
    STEPS.with(|s| {
        let v = s.get() + 1;
        s.set(v);
        if v > STEP_LIMIT.with(|l| l.get()) {
            STEP_LIMIT.with(|l| l.set(u64::MAX));
            panic!("STEP-LIMIT: the library used more than {} token steps", v - 1);
        }
    })
}
pub fn reset_steps(limit: u64) {
    STEPS.with(|s| s.set(0));
    STEP_LIMIT.with(|s| s.set(limit));
}
pub fn steps() -> u64 {
    STEPS.with(|s| s.get())
}

#[derive(Default)]
pub struct Ctx {
    /// (row, column, byte offset) before each token, plus one past the end
    pub rich: Vec<(usize, usize, usize)>,
    /// (count, hash) before each token
    pub trace: Vec<(usize, u64)>,
    pub notes: Vec<String>,
}
pub fn note(s: String) {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        if c.notes.len() < 8 {
            c.notes.push(s)
        }
    })
}
pub fn take_notes() -> Vec<String> {
    CTX.with(|c| std::mem::take(&mut c.borrow_mut().notes))
}

pub trait Inst: Sized + 'static {
    const NAME: &'static str;
    const HAS_ERR: bool;
    const HAS_ID: bool;
    type Loc: Clone + PartialEq + 'static;
    type Sp: Clone + PartialEq + 'static;
    type I: Clone + PartialEq + 'static;
    type L: Tracker<Self::I, Location = Self::Loc, Span = Self::Sp> + 'static;
    type E: Error<'static, Self::I, LocationTracker = Self::L> + Clone + 'static;
    fn tok(sym: u8, pos: usize) -> Self::I;
    fn pat(sym: u8) -> Self::I;
    fn sym(t: &Self::I) -> u8;
    fn id(_t: &Self::I) -> usize {
        NOID
    }
    fn start(k: u64) -> Self::L;
    /// The tracker the default-location entry points would use, if any.
    fn err(e: &Self::E) -> PErr;
    fn loc(l: &Self::Loc) -> usize;
    fn span(s: &Self::Sp) -> (usize, usize);
    fn set_ctx(_input: &[u8], _start: u64) {}
    fn at(a: &At<Self::Loc, Self::Sp>) -> PAt {
        match a {
            At::None => PAt::None,
            At::Location(l) => PAt::Loc(Self::loc(l)),
            At::Span(s) => {
                let (a, b) = Self::span(s);
                PAt::Span(a, b)
            }
        }
    }
    fn at_ref(a: At<&Self::Loc, &Self::Sp>) -> PAt {
        match a {
            At::None => PAt::None,
            At::Location(l) => PAt::Loc(Self::loc(l)),
            At::Span(s) => {
                let (a, b) = Self::span(s);
                PAt::Span(a, b)
            }
        }
    }
    /// Delimiter table with 'static tokens.
    fn delims(k: usize) -> &'static [(Self::I, Self::I)];
}

fn leak_delims<T: Inst>() -> Vec<&'static [(T::I, T::I)]> {
    crate::ast::DELIMS
        .iter()
        .map(|set| {
            let v: Vec<(T::I, T::I)> = set.iter().map(|&(a, b)| (T::pat(a), T::pat(b))).collect();
            &*Box::leak(v.into_boxed_slice())
        })
        .collect()
}
fn char_sym(c: char) -> u8 {
    (0..crate::ast::NSYM as u8).find(|&s| sym_name(s) == c).expect("unknown token")
}

fn simple_err<T, I, L>(e: &error::Simple<I, L>) -> PErr
where
    T: Inst<I = I, L = L, E = error::Simple<I, L>>,
    I: Clone + PartialEq + Eq + std::hash::Hash + 'static,
    L: Tracker<I, Location = T::Loc, Span = T::Sp> + 'static,
{
    match e {
        error::Simple::ExpectedFound(x, f, at) => PErr::ef(
            x.iter().map(|t| t.as_ref().map(|t| T::sym(t))),
            f.as_ref().map(|t| T::sym(t)),
            f.as_ref().map_or(NOID, |t| T::id(t)),
            T::at(at),
        ),
        error::Simple::UnmatchedLeftDelimiter(t, s, at) => PErr::UL(T::sym(t), T::id(t), T::span(s), T::at(at)),
        error::Simple::UnmatchedRightDelimiter(t, s, at) => PErr::UR(T::sym(t), T::id(t), T::span(s), T::at(at)),
        error::Simple::UnmatchedDelimiterType(t, s, u, v) => {
            PErr::UT(T::sym(t), T::id(t), T::span(s), T::sym(u), T::id(u), T::span(v))
        }
        error::Simple::Custom(m, at) => PErr::Custom(m.clone(), T::at(at)),
    }
}

// ---------------------------------------------------------------------------
/// Characters, default errors, default tracker.
pub struct A;
impl Inst for A {
    const NAME: &'static str = "char/Simple/Simple";
    const HAS_ERR: bool = true;
    const HAS_ID: bool = false;
    type Loc = usize;
    type Sp = std::ops::Range<usize>;
    type I = char;
    type L = location::Simple;
    type E = error::Simple<char>;
    fn tok(s: u8, _pos: usize) -> char {
        sym_name(s)
    }
    fn pat(s: u8) -> char {
        sym_name(s)
    }
    fn sym(t: &char) -> u8 {
        char_sym(*t)
    }
    fn start(_k: u64) -> Self::L {
        Default::default()
    }
    fn err(e: &Self::E) -> PErr {
        simple_err::<A, _, _>(e)
    }
    fn loc(l: &usize) -> usize {
        *l
    }
    fn span(s: &Self::Sp) -> (usize, usize) {
        (s.start, s.end)
    }
    fn delims(k: usize) -> &'static [(Self::I, Self::I)] {
        thread_local!(static D: RefCell<Option<Vec<&'static [(char, char)]>>> = const { RefCell::new(None) });
        D.with(|d| d.borrow_mut().get_or_insert_with(leak_delims::<A>)[k])
    }
}

// ---------------------------------------------------------------------------
/// Multi-character words with the row/column/offset tracker.
#[derive(Clone, Debug, Eq, Hash)]
pub struct Wd(pub &'static str);
impl PartialEq for Wd {
    fn eq(&self, o: &Wd) -> bool {
        tick();
        self.0 == o.0
    }
}
impl std::fmt::Display for Wd {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "<{}>", self.0.escape_debug())
    }
}
pub const CORE_WORDS: [&str; 9] = ["a", "", "c\nd", ",", "(\n", ")", "日本", "é\r\n", "|\n\n|"];
thread_local! {
    static WORD_TABLE: Vec<&'static str> = (0..crate::ast::NSYM as u8)
        .map(|s| match CORE_WORDS.get(s as usize) {
            Some(w) => *w,
            None => {
                let c = sym_name(s);
                let t = match s % 6 {
                    0 => format!("{c}"),
                    1 => format!("w{s}\t{c}"),
                    2 => format!("{c}\nline{s}\n"),
                    3 => format!("\n{c}{c}"),
                    4 => format!("ﬁ{s}…{c}"),
                    _ => format!("{}", c.to_string().repeat(s as usize)),
                };
                &*Box::leak(t.into_boxed_str())
            }
        })
        .collect();
}
pub fn word(s: u8) -> &'static str {
    WORD_TABLE.with(|w| w[s as usize])
}
pub fn wd_str(w: &Wd) -> &str {
    w.0
}
pub type RichL = location::Rich<Wd, fn(&Wd) -> &str>;
pub struct B;
pub const B_FILE: &str = "dir/fi le.txt";
impl Inst for B {
    const NAME: &'static str = "words/Simple/Rich";
    const HAS_ERR: bool = true;
    const HAS_ID: bool = false;
    type Loc = location::RichLocation;
    type Sp = location::RichSpan;
    type I = Wd;
    type L = RichL;
    type E = error::Simple<Wd, RichL>;
    fn tok(s: u8, _pos: usize) -> Wd {
        Wd(word(s))
    }
    fn pat(s: u8) -> Wd {
        Wd(word(s))
    }
    fn sym(t: &Wd) -> u8 {
        WORD_TABLE.with(|w| w.iter().position(|w| *w == t.0)).expect("unknown token") as u8
    }
    fn start(k: u64) -> RichL {
        let mut l: RichL = location::Rich::new(B_FILE, wd_str as fn(&Wd) -> &str);
        for j in 0..k {
            l.advance(&Wd(CORE_WORDS[((j * 5 + k) % 9) as usize]));
        }
        l
    }
    fn set_ctx(input: &[u8], k: u64) {
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            let (mut r, mut col, mut off) = (1usize, 1usize, 0usize);
            let mut text = String::new();
            for j in 0..k {
                text.push_str(CORE_WORDS[((j * 5 + k) % 9) as usize]);
            }
            let mut adv = |t: &str, r: &mut usize, col: &mut usize, off: &mut usize| {
                // independent formulation: lines and characters after the last one
                let nl = t.matches('\n').count();
                if nl > 0 {
                    *r += nl;
                    *col = 1 + t[t.rfind('\n').unwrap() + 1..].chars().count();
                } else {
                    *col += t.chars().count();
                }
                *off += t.len();
            };
            adv(&text, &mut r, &mut col, &mut off);
            c.rich.clear();
            c.rich.push((r, col, off));
            for &s in input {
                adv(word(s), &mut r, &mut col, &mut off);
                c.rich.push((r, col, off));
            }
        })
    }
    fn err(e: &Self::E) -> PErr {
        simple_err::<B, _, _>(e)
    }
    fn loc(l: &Self::Loc) -> usize {
        rich_index(&l.filename, &l.offset)
    }
    fn span(s: &Self::Sp) -> (usize, usize) {
        (rich_index(&s.filename, &s.from), rich_index(&s.filename, &s.to))
    }
    fn delims(k: usize) -> &'static [(Self::I, Self::I)] {
        thread_local!(static D: RefCell<Option<Vec<&'static [(Wd, Wd)]>>> = const { RefCell::new(None) });
        D.with(|d| d.borrow_mut().get_or_insert_with(leak_delims::<B>)[k])
    }
}
pub fn rich_index(file: &str, o: &location::RichOffset) -> usize {
    let ok = CTX.with(|c| {
        let c = c.borrow();
        file == B_FILE && c.rich.get(o.index) == Some(&(o.row, o.column, o.offset))
    });
    if ok {
        o.index
    } else {
        let want = CTX.with(|c| c.borrow().rich.get(o.index).copied());
        note(format!("location {file:?} {o:?} but the tracker oracle has (row,col,off)={want:?} for that index"));
        o.index + BAD
    }
}

// ---------------------------------------------------------------------------
/// Tokens with an identity and a live counter, a user-defined error type and
/// a user-defined tracker.
#[derive(Default)]
pub struct LiveCell {
    pub live: Cell<isize>,
    pub max: Cell<isize>,
    pub made: Cell<usize>,
}
#[derive(Debug)]
pub struct Lv {
    pub sym: u8,
    pub id: usize,
    pub live: Option<Rc<LiveCell>>,
}
impl std::fmt::Debug for LiveCell {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.live.get())
    }
}
fn up(c: &Option<Rc<LiveCell>>) {
    if let Some(c) = c {
        c.live.set(c.live.get() + 1);
        c.made.set(c.made.get() + 1);
        if c.live.get() > c.max.get() {
            c.max.set(c.live.get())
        }
    }
}
thread_local! {
    pub static LIVE_CELL: RefCell<Option<Rc<LiveCell>>> = const { RefCell::new(None) };
}
impl Lv {
    pub fn new(sym: u8, id: usize, live: Option<Rc<LiveCell>>) -> Lv {
        up(&live);
        Lv { sym, id, live }
    }
}
impl Clone for Lv {
    fn clone(&self) -> Lv {
        tick();
        up(&self.live);
        Lv {
            sym: self.sym,
            id: self.id,
            live: self.live.clone(),
        }
    }
}
impl Drop for Lv {
    fn drop(&mut self) {
        if let Some(c) = &self.live {
            c.live.set(c.live.get() - 1)
        }
    }
}
impl PartialEq for Lv {
    fn eq(&self, o: &Lv) -> bool {
        tick();
        self.sym == o.sym
    }
}
#[derive(Debug, PartialEq, Default)]
pub struct Trace {
    pub n: usize,
    pub h: u64,
}
impl Clone for Trace {
    fn clone(&self) -> Trace {
        tick();
        Trace { n: self.n, h: self.h }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct TLoc(pub usize, pub usize, pub u64);
#[derive(Clone, Debug, PartialEq)]
pub struct TSpan(pub TLoc, pub TLoc);
impl Tracker<Lv> for Trace {
    type Location = TLoc;
    type Span = TSpan;
    fn advance(&mut self, t: &Lv) {
        tick();
        self.n += 1;
        self.h = mix(self.h, mix(t.sym as u64, t.id as u64));
    }
    fn location(&self, index: usize) -> TLoc {
        TLoc(index, self.n, self.h)
    }
    fn spanning_to(&self, from: usize, to: &Self, to_index: usize) -> TSpan {
        TSpan(TLoc(from, self.n, self.h), TLoc(to_index, to.n, to.h))
    }
}
#[derive(Clone, Debug)]
pub enum RecErr {
    EF(Vec<Option<Lv>>, Option<Lv>, At<TLoc, TSpan>),
    UL(Lv, TSpan, At<TLoc, TSpan>),
    UR(Lv, TSpan, At<TLoc, TSpan>),
    UT(Lv, TSpan, Lv, TSpan),
    Custom(String, At<TLoc, TSpan>),
}
impl Fallback for RecErr {
    fn simple<M: ToString>(m: M) -> Self {
        RecErr::Custom(m.to_string(), At::None)
    }
}
impl Error<'static, Lv> for RecErr {
    type LocationTracker = Trace;
    fn expected_found<J: IntoIterator<Item = Option<Lv>>>(e: J, f: Option<Lv>, at: At<TLoc, TSpan>) -> Self {
        RecErr::EF(e.into_iter().collect(), f, at)
    }
    fn merge_expected_found(&mut self, o: &Self) {
        match (self, o) {
            (RecErr::EF(d, _, _), RecErr::EF(s, _, _)) => d.extend(s.iter().cloned()),
            _ => panic!("merge_expected_found called on errors that are not expected-found"),
        }
    }
    fn is_expected_found(&self) -> bool {
        matches!(self, RecErr::EF(..))
    }
    fn location(&self) -> At<&TLoc, &TSpan> {
        match self {
            RecErr::EF(_, _, a) | RecErr::UL(_, _, a) | RecErr::UR(_, _, a) | RecErr::Custom(_, a) => a.as_ref(),
            RecErr::UT(_, _, _, s) => At::Span(s),
        }
    }
    fn unmatched_left_delimiter(t: Lv, s: TSpan, at: At<TLoc, TSpan>) -> Self {
        RecErr::UL(t, s, at)
    }
    fn unmatched_right_delimiter(t: Lv, s: TSpan, at: At<TLoc, TSpan>) -> Self {
        RecErr::UR(t, s, at)
    }
    fn unmatched_delimiter_type(t: Lv, s: TSpan, u: Lv, v: TSpan) -> Self {
        RecErr::UT(t, s, u, v)
    }
    fn custom<M: ToString>(m: M, at: At<TLoc, TSpan>) -> Self {
        RecErr::Custom(m.to_string(), at)
    }
}
pub struct C;
impl Inst for C {
    const NAME: &'static str = "identified tokens/user error/user tracker";
    const HAS_ERR: bool = true;
    const HAS_ID: bool = true;
    type Loc = TLoc;
    type Sp = TSpan;
    type I = Lv;
    type L = Trace;
    type E = RecErr;
    fn tok(s: u8, pos: usize) -> Lv {
        Lv::new(s, pos, LIVE_CELL.with(|l| l.borrow().clone()))
    }
    fn pat(s: u8) -> Lv {
        Lv::new(s, NOID, None)
    }
    fn sym(t: &Lv) -> u8 {
        t.sym
    }
    fn id(t: &Lv) -> usize {
        t.id
    }
    fn start(k: u64) -> Trace {
        Trace {
            n: 1000 * k as usize,
            h: k,
        }
    }
    fn set_ctx(input: &[u8], k: u64) {
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            let (mut n, mut h) = (1000 * k as usize, k);
            c.trace.clear();
            c.trace.push((n, h));
            for (i, &s) in input.iter().enumerate() {
                n += 1;
                h = mix(h, mix(s as u64, i as u64));
                c.trace.push((n, h));
            }
        })
    }
    fn err(e: &RecErr) -> PErr {
        match e {
            RecErr::EF(x, f, at) => PErr::ef(
                x.iter().map(|t| t.as_ref().map(|t| t.sym)),
                f.as_ref().map(|t| t.sym),
                f.as_ref().map_or(NOID, |t| t.id),
                C::at(at),
            ),
            RecErr::UL(t, s, at) => PErr::UL(t.sym, t.id, C::span(s), C::at(at)),
            RecErr::UR(t, s, at) => PErr::UR(t.sym, t.id, C::span(s), C::at(at)),
            RecErr::UT(t, s, u, v) => PErr::UT(t.sym, t.id, C::span(s), u.sym, u.id, C::span(v)),
            RecErr::Custom(m, at) => PErr::Custom(m.clone(), C::at(at)),
        }
    }
    fn loc(l: &TLoc) -> usize {
        let ok = CTX.with(|c| c.borrow().trace.get(l.0) == Some(&(l.1, l.2)));
        if ok {
            l.0
        } else {
            note(format!(
                "location {l:?} does not carry the tracker state obtained by advancing once over each preceding token"
            ));
            l.0 + BAD
        }
    }
    fn span(s: &TSpan) -> (usize, usize) {
        (C::loc(&s.0), C::loc(&s.1))
    }
    fn delims(k: usize) -> &'static [(Self::I, Self::I)] {
        thread_local!(static D: RefCell<Option<Vec<&'static [(Lv, Lv)]>>> = const { RefCell::new(None) });
        D.with(|d| d.borrow_mut().get_or_insert_with(leak_delims::<C>)[k])
    }
}

// ---------------------------------------------------------------------------
/// Characters with the discarding error type.
pub struct D;
impl Inst for D {
    const NAME: &'static str = "char/Void/Simple";
    const HAS_ERR: bool = false;
    const HAS_ID: bool = false;
    type Loc = usize;
    type Sp = std::ops::Range<usize>;
    type I = char;
    type L = location::Simple;
    type E = error::Void<char>;
    fn tok(s: u8, _pos: usize) -> char {
        sym_name(s)
    }
    fn pat(s: u8) -> char {
        sym_name(s)
    }
    fn sym(t: &char) -> u8 {
        char_sym(*t)
    }
    fn start(_k: u64) -> Self::L {
        Default::default()
    }
    fn err(_e: &Self::E) -> PErr {
        PErr::Void
    }
    fn loc(l: &usize) -> usize {
        *l
    }
    fn span(s: &Self::Sp) -> (usize, usize) {
        (s.start, s.end)
    }
    fn delims(k: usize) -> &'static [(Self::I, Self::I)] {
        A::delims(k)
    }
}
