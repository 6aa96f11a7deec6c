//! Reference semantics: what a grammar does on an array of tokens. Positions
//! are plain integers; nothing here shares code with the library.
use crate::ast::*;
use crate::canon::*;

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Stop {
    Fuel,
    Depth,
}

pub struct Model<'a> {
    pub g: &'a Grammar,
    pub input: &'a [u8],
    pub pos: usize,
    /// number of source polls needed so far (n+1 when end of input was seen)
    pub hi: usize,
    pub fuel: usize,
    pub depth: usize,
    pub max_depth: usize,
    /// observation counters
    pub recov_runs: usize,
    pub backtracks: usize,
    pub choice_fail: usize,
    pub merges: usize,
    pub rec_choice: usize,
    /// errors are of the discarding type (no expected/found information)
    pub void: bool,
    /// index that was furthest examined (for reporting)
    pub ops_run: usize,
    /// calls of output-mapping functions
    pub log_calls: bool,
    pub calls: Vec<(&'static str, u32, String)>,
}

type Res = Result<MRes, Stop>;

pub fn has(m: Mask, s: u8) -> bool {
    m >> s & 1 == 1
}

impl<'a> Model<'a> {
    pub fn new(g: &'a Grammar, input: &'a [u8]) -> Self {
        Model {
            g,
            input,
            pos: 0,
            hi: 0,
            fuel: 6000,
            depth: 0,
            max_depth: 120,
            recov_runs: 0,
            backtracks: 0,
            choice_fail: 0,
            merges: 0,
            rec_choice: 0,
            void: false,
            ops_run: 0,
            log_calls: false,
            calls: vec![],
        }
    }
    pub fn run(&mut self, rec: bool) -> Res {
        let g = self.g;
        self.eval(&g.start, rec)
    }
    fn n(&self) -> usize {
        self.input.len()
    }
    fn tok(&mut self) -> Option<u8> {
        let p = self.pos.min(self.n());
        self.hi = self.hi.max(p + 1);
        self.input.get(self.pos).copied()
    }
    fn tspan(&self) -> PAt {
        PAt::Span(self.pos, (self.pos + 1).min(self.n()))
    }
    fn burn(&mut self, n: usize) -> Result<(), Stop> {
        if self.fuel < n {
            return Err(Stop::Fuel);
        }
        self.fuel -= n;
        Ok(())
    }

    fn want(&mut self, exp: Vec<Option<u8>>) -> MRes {
        let f = self.tok();
        MRes::F(self.pos, vec![PErr::ef(exp, f, self.pos, self.tspan())])
    }

    pub fn eval(&mut self, g: &G, rec: bool) -> Res {
        self.burn(1)?;
        if self.depth >= self.max_depth {
            return Err(Stop::Depth);
        }
        self.depth += 1;
        let r = self.eval1(g, rec);
        self.depth -= 1;
        r
    }

    fn mapv(r: MRes, f: impl FnOnce(Val) -> Val) -> MRes {
        match r {
            MRes::S(v) => MRes::S(f(v)),
            MRes::R(v, e) => MRes::R(f(v), e),
            x => x,
        }
    }

    fn seq(&mut self, parts: &[&G], rec: bool) -> Result<Result<(Vec<Val>, Option<Vec<PErr>>), MRes>, Stop> {
        let start = self.pos;
        let mut out = vec![];
        let mut errs: Option<Vec<PErr>> = None;
        for p in parts {
            match self.eval(p, rec)? {
                MRes::S(v) => out.push(v),
                MRes::R(v, e) => {
                    out.push(v);
                    errs.get_or_insert_with(Vec::new).extend(e);
                }
                MRes::F(i, e) => {
                    if self.pos != start {
                        self.backtracks += 1
                    }
                    self.pos = start;
                    return Ok(Err(MRes::F(i, e)));
                }
            }
        }
        Ok(Ok((out, errs)))
    }

    fn fin(v: Val, e: Option<Vec<PErr>>) -> MRes {
        match e {
            None => MRes::S(v),
            Some(e) => MRes::R(v, e),
        }
    }

    fn alt(&mut self, alts: &[&G], rec: bool) -> Res {
        let mut fails: Vec<(usize, Vec<PErr>, usize)> = vec![];
        for (k, a) in alts.iter().enumerate() {
            match self.eval(a, false)? {
                MRes::S(v) => return Ok(MRes::S(v)),
                MRes::R(_, _) => panic!("model: recovered without recovery"),
                MRes::F(i, e) => fails.push((i, e, k)),
            }
        }
        fails.sort_by(|x, y| y.0.cmp(&x.0)); // stable
        if rec {
            for (_, _, k) in &fails {
                match self.eval(alts[*k], true)? {
                    MRes::S(_) => panic!("model: success only with recovery"),
                    MRes::R(v, e) => {
                        self.rec_choice += 1;
                        return Ok(MRes::R(v, e));
                    }
                    MRes::F(_, _) => (),
                }
            }
        }
        self.choice_fail += 1;
        let mut it = fails.into_iter();
        let (i, mut es, _) = it.next().unwrap();
        if es.len() == 1 && es[0].is_ef() && !self.void {
            let at = es[0].at();
            for (_, es2, _) in it {
                for e2 in es2 {
                    if let PErr::EF { exp: e2x, at: at2, .. } = &e2 {
                        if *at2 == at {
                            if let PErr::EF { exp, .. } = &mut es[0] {
                                self.merges += 1;
                                exp.extend(e2x.iter().cloned());
                            }
                        }
                    }
                }
            }
        }
        Ok(MRes::F(i, es))
    }

    fn eval1(&mut self, g: &G, rec: bool) -> Res {
        let n = self.n();
        Ok(match g {
            G::Empty => MRes::S(Val::Unit),
            G::NoneP => MRes::S(Val::NoneV),
            G::End => match self.tok() {
                None => MRes::S(Val::Unit),
                Some(s) => MRes::F(
                    self.pos,
                    vec![PErr::ef([None], Some(s), self.pos, PAt::Loc(self.pos))],
                ),
            },
            G::Just(s) => {
                if self.tok() == Some(*s) {
                    self.pos += 1;
                    MRes::S(Val::Tok(*s, self.pos - 1))
                } else {
                    self.want(vec![Some(*s)])
                }
            }
            G::Filter(m) => match self.tok() {
                Some(s) if has(*m, s) => {
                    self.pos += 1;
                    MRes::S(Val::Tok(s, self.pos - 1))
                }
                _ => self.want(vec![]),
            },
            G::FilterMap(m) => match self.tok() {
                Some(s) if has(*m, s) => {
                    self.pos += 1;
                    MRes::S(Val::FMap(s))
                }
                _ => self.want(vec![]),
            },
            G::Seq(v) => {
                let start = self.pos;
                for &s in v {
                    if self.tok() == Some(s) {
                        self.pos += 1
                    } else {
                        let r = self.want(vec![Some(s)]);
                        self.pos = start;
                        return Ok(r);
                    }
                }
                MRes::S(Val::SeqV(v.clone()))
            }
            G::OneOf(v) => match self.tok() {
                Some(s) if v.contains(&s) => {
                    self.pos += 1;
                    MRes::S(Val::Tok(s, self.pos - 1))
                }
                _ => self.want(v.iter().map(|&s| Some(s)).collect()),
            },
            G::NoneOf(v) => match self.tok() {
                Some(s) if !v.contains(&s) => {
                    self.pos += 1;
                    MRes::S(Val::Tok(s, self.pos - 1))
                }
                Some(_) => self.want(vec![]),
                None => MRes::F(self.pos, vec![PErr::ef([], None, 0, PAt::Loc(self.pos))]),
            },
            G::To(a, t) => Self::mapv(self.eval(a, rec)?, |_| Val::Tag(*t)),
            G::Ignored(a) => Self::mapv(self.eval(a, rec)?, |_| Val::Unit),
            G::SomeP(a) => Self::mapv(self.eval(a, rec)?, |v| Val::SomeV(Box::new(v))),
            G::Map(a, t) => {
                let r = self.eval(a, rec)?;
                if let (true, Some(v)) = (self.log_calls, r.val()) {
                    self.calls.push(("map", *t, format!("{v:?}")));
                }
                Self::mapv(r, |v| Val::Mapped(*t, Box::new(v)))
            }
            G::MapSpan(a, t) => {
                let st = self.pos;
                let r = self.eval(a, rec)?;
                let en = self.pos;
                if let (true, Some(v)) = (self.log_calls, r.val()) {
                    self.calls.push(("map_span", *t, format!("{v:?} {st}..{en}")));
                }
                Self::mapv(r, |v| Val::Spanned(*t, Box::new(v), st, en))
            }
            G::MapErr(a, t) => {
                let r = self.eval(a, rec)?;
                self.map_errs(r, |e| PErr::Custom(format!("m{}:{}", t, e.key()), PAt::None))
            }
            G::MapErrSpan(a, t) => {
                let st = self.pos;
                let r = self.eval(a, rec)?;
                let at = PAt::Span(st, self.pos);
                self.map_errs(r, |e| PErr::Custom(format!("ms{}:{}", t, e.key()), at))
            }
            G::TryMap(a, k, t) => {
                let st = self.pos;
                let (v, es) = match self.eval(a, rec)? {
                    MRes::S(v) => (v, None),
                    MRes::R(v, e) => (v, Some(e)),
                    f => return Ok(f),
                };
                let sp = (st, self.pos);
                if self.log_calls {
                    self.calls.push(("try_map", *t, format!("{v:?} {}..{}", sp.0, sp.1)));
                }
                let mk = |c: usize| -> Vec<PErr> {
                    (0..c)
                        .map(|i| PErr::Custom(format!("t{t}.{i}"), PAt::Span(sp.0, sp.1)))
                        .collect()
                };
                let kind = resolve_try(k, &v);
                let out = Val::TM(*t, Box::new(v), sp.0, sp.1);
                match kind {
                    TryKind::Err(c) => {
                        let mut e = es.unwrap_or_default();
                        e.extend(mk(c));
                        self.pos = st;
                        MRes::F(st, e)
                    }
                    TryKind::Rec(c) => {
                        let had = es.is_some();
                        let mut e = es.unwrap_or_default();
                        e.extend(mk(c));
                        if rec {
                            MRes::R(out, e)
                        } else {
                            assert!(!had);
                            self.pos = st;
                            MRes::F(st, e)
                        }
                    }
                    _ => Self::fin(out, es),
                }
            }
            G::Then(a, b) => match self.seq(&[a, b], rec)? {
                Err(f) => f,
                Ok((mut v, e)) => {
                    let b = v.pop().unwrap();
                    let a = v.pop().unwrap();
                    Self::fin(Val::Pair(Box::new(a), Box::new(b)), e)
                }
            },
            G::ThenIgnore(a, b) => match self.seq(&[a, b], rec)? {
                Err(f) => f,
                Ok((mut v, e)) => Self::fin(v.swap_remove(0), e),
            },
            G::IgnoreThen(a, b) => match self.seq(&[a, b], rec)? {
                Err(f) => f,
                Ok((mut v, e)) => Self::fin(v.pop().unwrap(), e),
            },
            G::Delim(a, b, c) => match self.seq(&[a, b, c], rec)? {
                Err(f) => f,
                Ok((mut v, e)) => Self::fin(v.swap_remove(1), e),
            },
            G::Padded(a, b) => match self.seq(&[a, b, a], rec)? {
                Err(f) => f,
                Ok((mut v, e)) => Self::fin(v.swap_remove(1), e),
            },
            G::Chain(v) => {
                let p: Vec<&G> = v.iter().collect();
                match self.seq(&p, rec)? {
                    Err(f) => f,
                    Ok((v, e)) => Self::fin(Val::List(v), e),
                }
            }
            G::Or(a, b) => self.alt(&[a, b], rec)?,
            G::Alters(v) => {
                let p: Vec<&G> = v.iter().collect();
                self.alt(&p, rec)?
            }
            G::OrNot(a) => match self.eval(a, false)? {
                MRes::S(v) => MRes::S(Val::SomeV(Box::new(v))),
                _ => MRes::S(Val::NoneV),
            },
            G::Rep(r) => self.rep(r, rec)?,
            G::Ref(i) => {
                let g = self.g;
                self.eval(&g.rules[*i], rec)?
            }
            G::Boxed(a) | G::WithErr(a) => self.eval(a, rec)?,
            G::Recover(a, s) => {
                let st = self.pos;
                match self.eval(a, rec)? {
                    MRes::F(i, mut es) if rec => {
                        self.recov_runs += 1;
                        let mut failed = i.min(n);
                        match self.strat(s, a, st, &mut failed, &mut es)? {
                            Some(v) => MRes::R(v, es),
                            None => {
                                self.pos = st;
                                MRes::F(i, es)
                            }
                        }
                    }
                    r => r,
                }
            }
        })
    }

    fn map_errs(&mut self, r: MRes, f: impl Fn(PErr) -> PErr) -> MRes {
        match r {
            MRes::S(v) => MRes::S(v),
            MRes::R(v, e) => MRes::R(v, e.into_iter().map(f).collect()),
            MRes::F(i, e) => MRes::F(i, e.into_iter().map(f).collect()),
        }
    }

    fn rep(&mut self, r: &Rep, rec: bool) -> Res {
        let start = self.pos;
        let max = r.max.unwrap_or(usize::MAX);
        let mut out: Vec<Val> = vec![];
        let mut errs: Option<Vec<PErr>> = None;
        loop {
            self.burn(1)?;
            if !r.trail && out.len() >= max {
                break;
            }
            let need_more = out.len() < r.min;
            let recover = rec && need_more;
            let before_sep = self.pos;
            if let Some(sep) = &r.sep {
                if !out.is_empty() || r.lead {
                    match self.eval(sep, recover && !out.is_empty())? {
                        MRes::S(_) => (),
                        MRes::R(_, e) => errs.get_or_insert_with(Vec::new).extend(e),
                        MRes::F(i, e) => {
                            if !out.is_empty() {
                                if need_more {
                                    self.pos = start;
                                    return Ok(MRes::F(i, e));
                                }
                                break;
                            }
                        }
                    }
                }
            }
            if r.trail && out.len() >= max {
                break;
            }
            match self.eval(&r.item, recover)? {
                MRes::S(v) => out.push(v),
                MRes::R(v, e) => {
                    out.push(v);
                    errs.get_or_insert_with(Vec::new).extend(e)
                }
                MRes::F(i, e) => {
                    if need_more {
                        if self.pos != start {
                            self.backtracks += 1
                        }
                        self.pos = start;
                        return Ok(MRes::F(i, e));
                    }
                    // A separator that turned out to be trailing stays in the
                    // input unless that is allowed; a leading one is consumed.
                    if !out.is_empty() && !r.trail {
                        if self.pos != before_sep {
                            self.backtracks += 1
                        }
                        self.pos = before_sep;
                    }
                    break;
                }
            }
        }
        Ok(Self::fin(Val::List(out), errs))
    }

    fn strat(
        &mut self,
        s: &Strat,
        child: &G,
        st: usize,
        failed: &mut usize,
        es: &mut Vec<PErr>,
    ) -> Result<Option<Val>, Stop> {
        if let Some(v) = self.ops(&s.ops, child, st, failed, es)? {
            return Ok(Some(v));
        }
        Ok(match &s.fin {
            Fin::Return(t) | Fin::ReturnWith(t) => Some(Val::Ret(*t)),
            Fin::ReturnWithSpan(t) => Some(Val::RetSpan(*t, st, self.pos)),
            Fin::OrFail => None,
        })
    }

    fn ops(
        &mut self,
        ops: &[Op],
        child: &G,
        st: usize,
        failed: &mut usize,
        es: &mut Vec<PErr>,
    ) -> Result<Option<Val>, Stop> {
        for o in ops {
            if let Some(v) = self.op(o, child, st, failed, es)? {
                return Ok(Some(v));
            }
        }
        Ok(None)
    }

    fn reparse(
        &mut self,
        g: &G,
        exact: bool,
        silent: bool,
        failed: &mut usize,
        es: &mut Vec<PErr>,
    ) -> Result<Option<Val>, Stop> {
        Ok(match self.eval(g, !exact)? {
            MRes::S(v) => Some(v),
            MRes::R(v, e) => {
                if !silent {
                    es.extend(e)
                }
                Some(v)
            }
            MRes::F(i, e) => {
                if !silent {
                    es.extend(e)
                }
                *failed = i.min(self.n());
                None
            }
        })
    }

    fn op(
        &mut self,
        o: &Op,
        child: &G,
        st: usize,
        failed: &mut usize,
        es: &mut Vec<PErr>,
    ) -> Result<Option<Val>, Stop> {
        self.burn(1)?;
        self.ops_run += 1;
        if es.len() > 400 {
            return Err(Stop::Fuel);
        }
        let tname = |t: Option<u8>| match t {
            Some(s) => sym_name(s).to_string(),
            None => "EOF".to_string(),
        };
        match o {
            Op::Restart => self.pos = st,
            Op::SeekToFailed => self.pos = *failed,
            Op::Skip => {
                if self.tok().is_some() {
                    self.pos += 1
                }
            }
            Op::SkipIf(m) => {
                if let Some(s) = self.tok() {
                    if has(*m, s) {
                        self.pos += 1
                    }
                }
            }
            Op::Find(m) => {
                while let Some(s) = self.tok() {
                    if has(*m, s) {
                        break;
                    }
                    self.pos += 1
                }
            }
            Op::Scan(k) => {
                let mut d = Delims::new(DELIMS[*k]);
                loop {
                    match self.tok() {
                        Some(s) => {
                            if d.token(s, self.pos, es) {
                                break;
                            }
                            self.pos += 1
                        }
                        None => {
                            d.eof(self.pos, es);
                            break;
                        }
                    }
                }
            }
            Op::ScanRec(t, lim, m) => {
                let mut c = 0;
                loop {
                    match self.tok() {
                        Some(s) => {
                            c += 1;
                            es.push(PErr::Custom(format!("s{t}:{}", sym_name(s)), self.tspan()));
                            if c >= *lim || has(*m, s) {
                                break;
                            }
                            self.pos += 1
                        }
                        None => {
                            es.push(PErr::Custom(format!("se{t}"), PAt::Loc(self.pos)));
                            break;
                        }
                    }
                }
            }
            Op::Maybe(v) => {
                let p = self.pos;
                if let Some(x) = self.ops(v, child, st, failed, es)? {
                    return Ok(Some(x));
                }
                self.pos = p;
            }
            Op::WhileNot(m, v) => {
                while let Some(s) = self.tok() {
                    self.burn(1)?;
                    if has(*m, s) {
                        break;
                    }
                    if let Some(x) = self.ops(v, child, st, failed, es)? {
                        return Ok(Some(x));
                    }
                    if self.tok().is_some() {
                        self.pos += 1
                    }
                }
            }
            Op::Retry(x, s) => return self.reparse(child, *x, *s, failed, es),
            Op::TryParse(g, x, s) => return self.reparse(g, *x, *s, failed, es),
            Op::Push(t) => es.push(PErr::Custom(format!("p{t}"), PAt::None)),
            Op::PushHere(t) => es.push(PErr::Custom(format!("ph{t}"), PAt::Loc(self.pos))),
            Op::PushUpTo(t) => es.push(PErr::Custom(format!("pu{t}"), span(st, self.pos))),
            Op::PushTok(t) => {
                let k = self.tok();
                es.push(PErr::Custom(format!("pt{t}:{}", tname(k)), self.tspan()))
            }
            Op::Update(k, t) => upd(*k, &format!("u{t}"), PAt::None, es),
            Op::UpdateHere(k, t) => upd(*k, &format!("uh{t}"), PAt::Loc(self.pos), es),
            Op::UpdateUpTo(k, t) => upd(*k, &format!("uu{t}"), span(st, self.pos), es),
            Op::UpdateTok(k, t) => {
                let x = self.tok();
                upd(*k, &format!("ut{t}:{}", tname(x)), self.tspan(), es)
            }
            Op::Nop => (),
        }
        Ok(None)
    }
}

fn span(a: usize, b: usize) -> PAt {
    PAt::Span(a, b)
}

pub fn resolve_try(k: &TryKind, v: &Val) -> TryKind {
    match k {
        TryKind::ByHash => match v.shape_hash() % 5 {
            0 | 1 => TryKind::Ok,
            2 => TryKind::Err(1),
            3 => TryKind::Err(2),
            _ => TryKind::Rec(1),
        },
        k => k.clone(),
    }
}

pub fn upd(k: Upd, name: &str, at: PAt, es: &mut Vec<PErr>) {
    match k {
        Upd::Append => {
            let n = es.len();
            es.push(PErr::Custom(format!("{name}/{n}"), at))
        }
        Upd::Reverse => es.reverse(),
        Upd::KeepLast => {
            let n = es.len();
            if n > 1 {
                es.drain(..n - 1);
            }
        }
        Upd::MapAll => {
            for e in es.iter_mut() {
                *e = PErr::Custom(format!("{name}:{}", e.key()), at)
            }
        }
    }
}

/// Reference for the nested-delimiter scanner.
pub struct Delims {
    types: &'static [(u8, u8)],
    /// open delimiters: (type, position)
    pub open: Vec<(usize, usize)>,
}
impl Delims {
    pub fn new(types: &'static [(u8, u8)]) -> Self {
        Delims { types, open: vec![] }
    }
    /// Returns whether to stop before this token.
    pub fn token(&mut self, s: u8, pos: usize, es: &mut Vec<PErr>) -> bool {
        let sp = (pos, pos + 1);
        let innermost = self.open.last().copied();
        let closes_innermost = innermost.map_or(false, |(t, _)| self.types[t].1 == s);
        let as_left = self.types.iter().position(|d| d.0 == s);
        let as_right = self.types.iter().position(|d| d.1 == s);
        if closes_innermost {
            self.open.pop();
        } else if let Some(t) = as_left {
            self.open.push((t, pos));
        } else if let Some(t) = as_right {
            match self.open.iter().rposition(|&(o, _)| o == t) {
                Some(k) => {
                    for &(o, p) in self.open[k + 1..].iter().rev() {
                        es.push(PErr::UL(self.types[o].0, p, (p, p + 1), PAt::Span(sp.0, sp.1)))
                    }
                    self.open.truncate(k)
                }
                None => match self.open.pop() {
                    Some((o, p)) => es.push(PErr::UT(self.types[o].0, p, (p, p + 1), s, pos, sp)),
                    None => es.push(PErr::UR(s, pos, sp, PAt::None)),
                },
            }
        }
        self.open.is_empty()
    }
    pub fn eof(&mut self, pos: usize, es: &mut Vec<PErr>) {
        while let Some((o, p)) = self.open.pop() {
            es.push(PErr::UL(self.types[o].0, p, (p, p + 1), PAt::Loc(pos)))
        }
    }
}
