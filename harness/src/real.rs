//! Builds the real parsers for a grammar, and runs them under observation.
use crate::ast::*;
use crate::canon::*;
use crate::inst::*;
use crate::model::{has, resolve_try};
use parse_proof_of_concept::combinator::{Boxed, TryMapResult};
use parse_proof_of_concept::error::{At, Error, Fallback};
use parse_proof_of_concept::parser::{self, Parser};
use parse_proof_of_concept::primitive;
use parse_proof_of_concept::recovery::{self, IncompleteStrategy};
use parse_proof_of_concept::recursive::{recursive, Recursive};
use parse_proof_of_concept::scanner;
use parse_proof_of_concept::stream::Stream;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

pub type PB<T> = Boxed<'static, <T as Inst>::I, Val, <T as Inst>::E>;
type SB<T> = recovery::Boxed<'static, <T as Inst>::I, PB<T>>;
pub type St<T> = Stream<'static, <T as Inst>::I, <T as Inst>::L>;
pub type RRes<T> = parser::Result<Val, <T as Inst>::E>;

#[derive(Default)]
pub struct MonLog {
    pub checked: Cell<u64>,
    pub fails: Cell<u64>,
    pub fails_after_progress: Cell<u64>,
    pub recs: Cell<u64>,
    /// a failed parser that moved the cursor
    pub violation: RefCell<Option<String>>,
    /// an impossible result variant or an empty error list
    pub shape: RefCell<Option<String>>,
}
impl MonLog {
    fn report(&self, s: String) {
        let mut v = self.violation.borrow_mut();
        if v.is_none() {
            *v = Some(s)
        }
    }
    fn report_shape(&self, s: String) {
        let mut v = self.shape.borrow_mut();
        if v.is_none() {
            *v = Some(s)
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Call {
    pub kind: &'static str,
    pub tag: u32,
    pub arg: String,
}

#[derive(Clone, Default)]
pub struct Opts {
    /// clone every parser and strategy and use the clone
    pub clone: bool,
    /// box every parser again
    pub rebox: bool,
    /// use the shorthand strategy constructors where there are any
    pub shorthand: bool,
    /// annotate the error type everywhere
    pub with_err: bool,
    /// recursion through recursive() instead of declare()/define()
    pub rec_fn: bool,
    /// contract monitor at every node
    pub mon: Option<Rc<MonLog>>,
    /// the monitor also looks at the next token before running the node
    pub peek: bool,
    /// log of the calls of user closures
    pub calls: Option<Rc<RefCell<Vec<Call>>>>,
}

type Cell1<T> = Rc<RefCell<Option<Recursive<'static, <T as Inst>::I, Val, <T as Inst>::E>>>>;

/// Indirection that can be cut, so that the reference cycles of recursive
/// parsers built here can be reclaimed.
pub struct Cut<T: Inst>(Cell1<T>);
impl<T: Inst> Parser<'static, T::I> for Cut<T> {
    type Output = Val;
    type Error = T::E;
    fn parse_internal(&self, s: &mut St<T>, rec: bool) -> RRes<T> {
        let r = self.0.borrow().as_ref().expect("cut").clone();
        r.parse_internal(s, rec)
    }
}

pub struct Mon<T: Inst> {
    inner: PB<T>,
    log: Rc<MonLog>,
    peek: bool,
    desc: String,
}
impl<T: Inst> Parser<'static, T::I> for Mon<T> {
    type Output = Val;
    type Error = T::E;
    fn parse_internal(&self, s: &mut St<T>, rec: bool) -> RRes<T> {
        let i0 = s.index();
        let l0 = s.location();
        let t0 = if self.peek { Some(s.token().map(|t| (T::sym(t), T::id(t)))) } else { None };
        let l = &self.log;
        let r = self.inner.parse_internal(s, rec);
        l.checked.set(l.checked.get() + 1);
        match &r {
            parser::Result::Failed(i, es) => {
                l.fails.set(l.fails.get() + 1);
                if *i > i0 {
                    l.fails_after_progress.set(l.fails_after_progress.get() + 1)
                }
                if s.index() != i0 {
                    l.report(format!(
                        "parser {} failed (recovery={rec}) and left the cursor at {} instead of {i0}",
                        self.desc,
                        s.index()
                    ));
                } else if s.location() != l0 {
                    l.report(format!("parser {} failed (recovery={rec}) and the location changed", self.desc));
                } else if let Some(t0) = &t0 {
                    let t1 = s.token().map(|t| (T::sym(t), T::id(t)));
                    if t1 != *t0 {
                        l.report(format!(
                            "parser {} failed (recovery={rec}); next token was {t0:?}, is now {t1:?}",
                            self.desc
                        ));
                    }
                }
                if es.is_empty() {
                    l.report_shape(format!("parser {} failed without an error", self.desc));
                }
            }
            parser::Result::Recovered(_, es) => {
                l.recs.set(l.recs.get() + 1);
                if !rec {
                    l.report_shape(format!("parser {} recovered with recovery disabled", self.desc));
                }
                if es.is_empty() {
                    l.report_shape(format!("parser {} recovered without an error", self.desc));
                }
            }
            parser::Result::Success(_) => (),
        }
        r
    }
}

/// User-defined scanner that records what it is shown.
pub struct RecScan {
    pub tag: u32,
    pub lim: usize,
    pub mask: Mask,
    pub seen: usize,
}
pub struct RecScanT<T: Inst>(RecScan, std::marker::PhantomData<T>);
impl<T: Inst> scanner::Scanner<'static, T::I, T::E> for RecScanT<T> {
    fn scan(&mut self, t: T::I, span: T::Sp, es: &mut Vec<T::E>) -> bool {
        tick();
        let s = T::sym(&t);
        self.0.seen += 1;
        es.push(T::E::custom(format!("s{}:{}", self.0.tag, sym_name(s)), At::Span(span)));
        self.0.seen >= self.0.lim || has(self.0.mask, s)
    }
    fn eof(&mut self, loc: T::Loc, es: &mut Vec<T::E>) {
        es.push(T::E::custom(format!("se{}", self.0.tag), At::Location(loc)));
    }
}

fn bx<T: Inst, S: IncompleteStrategy<'static, T::I, PB<T>> + 'static>(s: S) -> SB<T> {
    s.boxed()
}

pub struct Real<T: Inst> {
    cells: Vec<Cell1<T>>,
    pub parser: PB<T>,
}
impl<T: Inst> Drop for Real<T> {
    fn drop(&mut self) {
        for c in &self.cells {
            let r = c.borrow_mut().take();
            drop(r);
        }
    }
}

struct Builder<T: Inst> {
    o: Opts,
    cells: Vec<Cell1<T>>,
}

fn pred<T: Inst>(m: Mask) -> impl Fn(&T::I) -> bool + Clone + 'static {
    move |t: &T::I| {
        tick();
        has(m, T::sym(t))
    }
}

fn real_upd<T: Inst>(k: Upd, name: &str, at: At<T::Loc, T::Sp>, es: &mut Vec<T::E>) {
    for _ in 0..es.len() {
        tick();
    }
    match k {
        Upd::Append => {
            let n = es.len();
            es.push(T::E::custom(format!("{name}/{n}"), at))
        }
        Upd::Reverse => es.reverse(),
        Upd::KeepLast => {
            let n = es.len();
            if n > 1 {
                es.drain(..n - 1);
            }
        }
        Upd::MapAll => {
            for e in es.iter_mut() {
                *e = T::E::custom(format!("{name}:{}", T::err(e).key()), at.clone())
            }
        }
    }
}

fn tname<T: Inst>(t: Option<&T::I>) -> String {
    match t {
        Some(t) => sym_name(T::sym(t)).to_string(),
        None => "EOF".into(),
    }
}

pub fn build<T: Inst>(g: &Grammar, o: &Opts) -> Real<T> {
    let mut b = Builder::<T> {
        o: o.clone(),
        cells: g.rules.iter().map(|_| Rc::new(RefCell::new(None))).collect(),
    };
    b.define(g);
    let parser = b.go(&g.start);
    Real {
        cells: b.cells,
        parser,
    }
}

impl<T: Inst> Builder<T> {
    fn define(&mut self, g: &Grammar) {
        if self.o.rec_fn {
            for i in 0..g.rules.len() {
                // Within its own body the rule is reached through the handle
                // passed to the closure.
                let cell = self.cells[i].clone();
                let r = recursive(|r: &Recursive<'static, T::I, Val, T::E>| {
                    *cell.borrow_mut() = Some(r.clone());
                    self.go(&g.rules[i])
                });
                *cell.borrow_mut() = Some(r);
            }
        } else {
            let mut handles: Vec<Recursive<'static, T::I, Val, T::E>> = vec![];
            for c in &self.cells {
                let r = Recursive::declare();
                *c.borrow_mut() = Some(r.clone());
                handles.push(r);
            }
            for (i, h) in handles.iter_mut().enumerate() {
                let p = self.go(&g.rules[i]);
                h.define(p);
            }
        }
    }

    fn wrap<P>(&self, p: P, g: &G) -> PB<T>
    where
        P: Parser<'static, T::I, Output = Val, Error = T::E> + 'static,
    {
        let mut b = if self.o.with_err {
            p.with_error::<T::E>().boxed()
        } else {
            p.boxed()
        };
        if self.o.clone {
            b = b.clone();
        }
        if self.o.rebox {
            b = b.boxed();
        }
        if let Some(l) = &self.o.mon {
            let mut desc = format!("{g:?}");
            if desc.len() > 300 {
                let mut k = 300;
                while !desc.is_char_boundary(k) {
                    k -= 1
                }
                desc.truncate(k);
                desc.push_str("...");
            }
            b = Mon::<T> {
                inner: b,
                log: l.clone(),
                peek: self.o.peek,
                desc,
            }
            .boxed();
        }
        b
    }

    fn log(&self) -> impl Fn(&'static str, u32, &dyn Fn() -> String) + Clone + 'static {
        let c = self.o.calls.clone();
        move |kind, tag, arg| {
            if let Some(c) = &c {
                c.borrow_mut().push(Call { kind, tag, arg: arg() })
            }
        }
    }

    fn c<X: Clone>(&self, x: X) -> X {
        if self.o.clone {
            let y = x.clone();
            drop(x);
            y
        } else {
            x
        }
    }

    fn tok(v: &[u8]) -> Vec<T::I> {
        v.iter().map(|&s| T::pat(s)).collect()
    }

    fn go(&self, g: &G) -> PB<T> {
        let tokv = |t: T::I| Val::Tok(T::sym(&t), T::id(&t));
        let log = self.log();
        match g {
            G::Empty => self.wrap(self.c(primitive::empty::<T::I, T::E>().map(|_| Val::Unit)), g),
            G::NoneP => self.wrap(
                self.c(primitive::none::<T::I, Val, T::E>().map(|o: Option<Val>| match o {
                    None => Val::NoneV,
                    Some(_) => Val::Unit,
                })),
                g,
            ),
            G::End => self.wrap(self.c(primitive::end::<T::I, T::E>().map(|_| Val::Unit)), g),
            G::Just(s) => self.wrap(self.c(primitive::just::<T::I, T::E>(T::pat(*s)).map(tokv)), g),
            G::Filter(m) => self.wrap(
                self.c(primitive::filter::<T::I, _, T::E>(pred::<T>(*m)).map(tokv)),
                g,
            ),
            G::FilterMap(m) => {
                let m = *m;
                let f = move |t: &T::I| {
                    tick();
                    let s = T::sym(t);
                    if has(m, s) {
                        Some(Val::FMap(s))
                    } else {
                        None
                    }
                };
                self.wrap(self.c(primitive::filter_map::<T::I, _, Val, T::E>(f)), g)
            }
            G::Seq(v) => self.wrap(
                self.c(
                    primitive::seq::<T::I, Vec<T::I>, T::E>(Self::tok(v))
                        .map(|v: Vec<T::I>| Val::SeqV(v.iter().map(T::sym).collect())),
                ),
                g,
            ),
            G::OneOf(v) => self.wrap(
                self.c(primitive::one_of::<T::I, Vec<T::I>, T::E>(Self::tok(v)).map(tokv)),
                g,
            ),
            G::NoneOf(v) => self.wrap(
                self.c(primitive::none_of::<T::I, Vec<T::I>, T::E>(Self::tok(v)).map(tokv)),
                g,
            ),
            G::To(a, t) => self.wrap(self.c(self.go(a).to(Val::Tag(*t))), g),
            G::Ignored(a) => self.wrap(self.c(self.go(a).ignored::<()>().map(|_: ()| Val::Unit)), g),
            G::SomeP(a) => self.wrap(
                self.c(self.go(a).some().map(|o: Option<Val>| match o {
                    Some(v) => Val::SomeV(Box::new(v)),
                    None => Val::NoneV,
                })),
                g,
            ),
            G::Map(a, t) => {
                let t = *t;
                self.wrap(
                    self.c(self.go(a).map(move |v| {
                        log("map", t, &|| format!("{v:?}"));
                        Val::Mapped(t, Box::new(v))
                    })),
                    g,
                )
            }
            G::MapSpan(a, t) => {
                let t = *t;
                self.wrap(
                    self.c(self.go(a).map_with_span(move |v, s: T::Sp| {
                        let (x, y) = T::span(&s);
                        log("map_span", t, &|| format!("{v:?} {x}..{y}"));
                        Val::Spanned(t, Box::new(v), x, y)
                    })),
                    g,
                )
            }
            G::MapErr(a, t) => {
                let t = *t;
                self.wrap(
                    self.c(self.go(a).map_err(move |e: T::E| {
                        let k = T::err(&e).key();
                        log("map_err", t, &|| k.clone());
                        T::E::custom(format!("m{t}:{k}"), At::None)
                    })),
                    g,
                )
            }
            G::MapErrSpan(a, t) => {
                let t = *t;
                self.wrap(
                    self.c(self.go(a).map_err_with_span(move |e: T::E, s: T::Sp| {
                        let k = T::err(&e).key();
                        log("map_err_span", t, &|| {
                            let (x, y) = T::span(&s);
                            format!("{k} {x}..{y}")
                        });
                        T::E::custom(format!("ms{t}:{k}"), At::Span(s))
                    })),
                    g,
                )
            }
            G::TryMap(a, k, t) => {
                let t = *t;
                let k = k.clone();
                self.wrap(
                    self.go(a).try_map(move |v: Val, s: T::Sp| {
                        let (x, y) = T::span(&s);
                        log("try_map", t, &|| format!("{v:?} {x}..{y}"));
                        let mk = |c: usize| -> Vec<T::E> {
                            (0..c)
                                .map(|i| T::E::custom(format!("t{t}.{i}"), At::Span(s.clone())))
                                .collect()
                        };
                        let kind = resolve_try(&k, &v);
                        let out = Val::TM(t, Box::new(v), x, y);
                        match kind {
                            TryKind::Err(c) => TryMapResult::Err(mk(c)),
                            TryKind::Rec(c) => TryMapResult::Recovered(out, mk(c)),
                            _ => TryMapResult::Ok(out),
                        }
                    }),
                    g,
                )
            }
            G::Then(a, b) => self.wrap(
                self.c(
                    self.go(a)
                        .then(self.go(b))
                        .map(|(a, b)| Val::Pair(Box::new(a), Box::new(b))),
                ),
                g,
            ),
            G::ThenIgnore(a, b) => self.wrap(self.c(self.go(a).then_ignore(self.go(b))), g),
            G::IgnoreThen(a, b) => self.wrap(self.c(self.go(a).ignore_then(self.go(b))), g),
            G::Delim(l, m, r) => self.wrap(self.c(self.go(m).delimited_by(self.go(l), self.go(r))), g),
            G::Padded(p, m) => self.wrap(self.c(self.go(m).padded_by(self.go(p))), g),
            G::Chain(v) => {
                if v.len() == 1 {
                    return self.wrap(self.go(&v[0]).map(|x| Val::List(vec![x])), g);
                }
                let mut c = self.go(&v[0]).chain(self.go(&v[1]));
                for x in &v[2..] {
                    c = c.and(self.go(x));
                }
                self.wrap(self.c(c).map(Val::List), g)
            }
            G::Or(a, b) => self.wrap(self.c(self.go(a).or(self.go(b))), g),
            G::OrNot(a) => self.wrap(
                self.c(self.go(a).or_not().map(|o: Option<Val>| match o {
                    Some(v) => Val::SomeV(Box::new(v)),
                    None => Val::NoneV,
                })),
                g,
            ),
            G::Alters(v) => {
                if v.len() == 1 {
                    return self.wrap(self.go(&v[0]), g);
                }
                let mut c = self.go(&v[0]).alters(self.go(&v[1]));
                for x in &v[2..] {
                    c = c.and(self.go(x));
                }
                self.wrap(self.c(c), g)
            }
            G::Rep(r) => {
                let item = self.go(&r.item);
                let mut p = match (&r.sep, r.via_sep) {
                    (Some(s), true) => item.separated_by(self.go(s)),
                    (Some(s), false) => item.repeated().with_separator(self.go(s)),
                    (None, _) => item.repeated(),
                };
                if r.exactly {
                    p = p.exactly(r.min);
                } else {
                    if r.min > 0 || r.via_sep {
                        p = p.at_least(r.min);
                    }
                    if let Some(m) = r.max {
                        p = p.at_most(m);
                    }
                }
                if r.lead {
                    p = p.allow_leading();
                }
                if r.trail {
                    p = p.allow_trailing();
                }
                self.wrap(self.c(p).map(Val::List), g)
            }
            G::Ref(i) => self.wrap(Cut::<T>(self.cells[*i].clone()), g),
            G::Boxed(a) => self.wrap(self.go(a).boxed(), g),
            G::WithErr(a) => self.wrap(self.go(a).with_error::<T::E>(), g),
            G::Recover(a, s) => {
                let child = self.go(a);
                let empty = s.ops.is_empty() && self.o.shorthand;
                match &s.fin {
                    Fin::Return(t) if empty => {
                        self.wrap(self.c(child.to_recover(recovery::just_return(Val::Ret(*t)))), g)
                    }
                    Fin::Return(t) => self.wrap(
                        self.c(child.to_recover(self.ops(&s.ops).and_return(Val::Ret(*t)))),
                        g,
                    ),
                    Fin::ReturnWith(t) => {
                        let t = *t;
                        let f = move || Val::Ret(t);
                        if empty {
                            self.wrap(self.c(child.to_recover(recovery::just_return_with(f))), g)
                        } else {
                            self.wrap(self.c(child.to_recover(self.ops(&s.ops).and_return_with(f))), g)
                        }
                    }
                    Fin::ReturnWithSpan(t) => {
                        let t = *t;
                        let f = move |s: T::Sp| {
                            let (x, y) = T::span(&s);
                            Val::RetSpan(t, x, y)
                        };
                        if empty {
                            self.wrap(self.c(child.to_recover(recovery::just_return_with_span(f))), g)
                        } else {
                            self.wrap(
                                self.c(child.to_recover(self.ops(&s.ops).and_return_with_span(f))),
                                g,
                            )
                        }
                    }
                    Fin::OrFail => self.wrap(self.c(child.to_recover(self.ops(&s.ops).or_fail())), g),
                }
            }
        }
    }

    fn ops(&self, ops: &[Op]) -> SB<T> {
        let mut s: Option<SB<T>> = None;
        macro_rules! step {
            ($m:ident($($a:expr),*)) => {
                step!($m($($a),*) => |x| x)
            };
            ($m:ident($($a:expr),*) => |$x:ident| $post:expr) => {{
                let r = match s.take() {
                    None if self.o.shorthand => { let $x = recovery::$m($($a),*); bx::<T, _>(self.c($post)) }
                    None => { let $x = recovery::attempt_to::<T::I, PB<T>>().$m($($a),*); bx::<T, _>(self.c($post)) }
                    Some(prev) => { let $x = prev.$m($($a),*); bx::<T, _>(self.c($post)) }
                };
                r
            }};
        }
        for o in ops {
            let r: SB<T> = match o {
                Op::Restart => {
                    // there is no shorthand for restart
                    let prev = s.take();
                    match prev {
                        None => bx::<T, _>(self.c(recovery::attempt_to::<T::I, PB<T>>().restart())),
                        Some(p) => bx::<T, _>(self.c(p.restart())),
                    }
                }
                Op::SeekToFailed => step!(seek_to_failed()),
                Op::Skip => step!(skip()),
                Op::SkipIf(m) => step!(skip_if(pred::<T>(*m))),
                Op::Find(m) => step!(find(pred::<T>(*m))),
                Op::Scan(k) => {
                    let f = scanner::nested_delimiters::<T::I, T::Sp>(T::delims(*k));
                    step!(scan(f.clone()))
                }
                Op::ScanRec(t, l, m) => {
                    let (t, l, m) = (*t, *l, *m);
                    let f = move || {
                        RecScanT::<T>(
                            RecScan {
                                tag: t,
                                lim: l,
                                mask: m,
                                seen: 0,
                            },
                            std::marker::PhantomData,
                        )
                    };
                    step!(scan(f))
                }
                Op::Maybe(v) => {
                    let inner = self.ops(v);
                    step!(maybe(inner))
                }
                Op::WhileNot(m, v) => {
                    let inner = self.ops(v);
                    step!(while_not(pred::<T>(*m), inner))
                }
                Op::Retry(x, q) => match (x, q) {
                    (false, false) => step!(retry()),
                    (true, false) => step!(retry() => |x| x.exactly()),
                    (false, true) => step!(retry() => |x| x.silently()),
                    (true, true) => {
                        if self.o.shorthand {
                            step!(retry() => |x| x.exactly_and_silently())
                        } else {
                            step!(retry() => |x| x.silently().exactly())
                        }
                    }
                },
                Op::TryParse(g, x, q) => {
                    let p = self.go(g);
                    match (x, q) {
                        (false, false) => step!(try_to_parse(p)),
                        (true, false) => step!(try_to_parse(p) => |x| x.exactly()),
                        (false, true) => step!(try_to_parse(p) => |x| x.silently()),
                        (true, true) => {
                            if self.o.shorthand {
                                step!(try_to_parse(p) => |x| x.exactly_and_silently())
                            } else {
                                step!(try_to_parse(p) => |x| x.exactly().silently())
                            }
                        }
                    }
                }
                Op::Push(t) => {
                    let t = *t;
                    step!(push_error(move || T::E::simple(format!("p{t}"))))
                }
                Op::PushHere(t) => {
                    let t = *t;
                    step!(push_error_here(move |l: T::Loc| T::E::custom(
                        format!("ph{t}"),
                        At::Location(l)
                    )))
                }
                Op::PushUpTo(t) => {
                    let t = *t;
                    step!(push_error_up_to_here(move |s: T::Sp| T::E::custom(
                        format!("pu{t}"),
                        At::Span(s)
                    )))
                }
                Op::PushTok(t) => {
                    let t = *t;
                    step!(push_error_for_token(move |k: Option<&T::I>, s: T::Sp| {
                        T::E::custom(format!("pt{t}:{}", tname::<T>(k)), At::Span(s))
                    }))
                }
                Op::Update(k, t) => {
                    let (k, t) = (*k, *t);
                    step!(update_errors(move |es: &mut Vec<T::E>| real_upd::<T>(
                        k,
                        &format!("u{t}"),
                        At::None,
                        es
                    )))
                }
                Op::UpdateHere(k, t) => {
                    let (k, t) = (*k, *t);
                    step!(update_errors_here(move |es: &mut Vec<T::E>, l: T::Loc| real_upd::<T>(
                        k,
                        &format!("uh{t}"),
                        At::Location(l),
                        es
                    )))
                }
                Op::UpdateUpTo(k, t) => {
                    let (k, t) = (*k, *t);
                    step!(update_errors_up_to_here(move |es: &mut Vec<T::E>, s: T::Sp| {
                        real_upd::<T>(k, &format!("uu{t}"), At::Span(s), es)
                    }))
                }
                Op::UpdateTok(k, t) => {
                    let (k, t) = (*k, *t);
                    step!(update_errors_for_token(
                        move |es: &mut Vec<T::E>, x: Option<&T::I>, s: T::Sp| {
                            real_upd::<T>(k, &format!("ut{t}:{}", tname::<T>(x)), At::Span(s), es)
                        }
                    ))
                }
                Op::Nop => match s.take() {
                    None => bx::<T, _>(recovery::attempt_to::<T::I, PB<T>>().do_nothing()),
                    Some(p) => p.do_nothing(),
                },
            };
            s = Some(r);
        }
        let r = s.unwrap_or_else(|| bx::<T, _>(self.c(recovery::attempt_to::<T::I, PB<T>>())));
        self.c(r)
    }
}

// ---------------------------------------------------------------------------

#[derive(Default)]
pub struct SrcLog {
    pub polls: Cell<usize>,
    pub after_none: Cell<usize>,
}
/// The token source given to the library; not fused: polled after its end it
/// would hand out further tokens.
pub struct Src<T: Inst> {
    syms: Rc<Vec<u8>>,
    i: usize,
    log: Rc<SrcLog>,
    ended: bool,
    zombie: bool,
    p: std::marker::PhantomData<T>,
}
impl<T: Inst> Src<T> {
    pub fn new(syms: &[u8], log: &Rc<SrcLog>) -> Self {
        Src {
            syms: Rc::new(syms.to_vec()),
            i: 0,
            log: log.clone(),
            ended: false,
            zombie: false,
            p: std::marker::PhantomData,
        }
    }
    pub fn zombie(mut self) -> Self {
        self.zombie = true;
        self
    }
}
impl<T: Inst> Iterator for Src<T> {
    type Item = T::I;
    fn next(&mut self) -> Option<T::I> {
        tick();
        self.log.polls.set(self.log.polls.get() + 1);
        if self.ended {
            self.log.after_none.set(self.log.after_none.get() + 1);
            if self.log.after_none.get() > 2000 {
                panic!("STEP-LIMIT: source polled 2000 times after its end");
            }
            return if self.zombie && self.log.after_none.get() < 4 {
                Some(T::tok(0, self.syms.len() + self.log.after_none.get()))
            } else {
                None
            };
        }
        let r = self.syms.get(self.i).map(|&s| T::tok(s, self.i));
        self.i += 1;
        if r.is_none() {
            self.ended = true;
        }
        r
    }
}

pub fn view<T: Inst>(r: RRes<T>) -> MRes {
    match r {
        parser::Result::Success(v) => MRes::S(v),
        parser::Result::Recovered(v, e) => MRes::R(v, e.iter().map(T::err).collect()),
        parser::Result::Failed(i, e) => MRes::F(i, e.iter().map(T::err).collect()),
    }
}

pub struct Run {
    pub res: MRes,
    pub end: usize,
    pub polls: usize,
    pub after_none: usize,
    pub rest: Option<Vec<u8>>,
}

pub const STEP_MAX: u64 = 3_000_000;

/// Runs `f`, turning panics of the library into messages.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(e) => Err(format!("panic in the library: {}", panic_text(e))),
    }
}

/// One parse of `input` with an explicit stream.
pub fn run<T: Inst>(p: &PB<T>, input: &[u8], rec: bool, start: u64, rest: bool) -> Result<Run, String> {
    T::set_ctx(input, start);
    take_notes();
    reset_steps(STEP_MAX);
    let log = Rc::new(SrcLog::default());
    guarded(|| {
        let mut s: St<T> = Stream::new_with_location(Src::<T>::new(input, &log), T::start(start));
        let r = p.parse_internal(&mut s, rec);
        let end = s.index();
        let polls = log.polls.get();
        let after_none = log.after_none.get();
        let rest = if rest {
            let mut v = vec![];
            while let Some(t) = s.token() {
                v.push(T::sym(t));
                if v.len() > input.len() + 5 {
                    break;
                }
                s.advance();
            }
            Some(v)
        } else {
            None
        };
        Run {
            res: view::<T>(r),
            end,
            polls,
            after_none,
            rest,
        }
    })
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}
