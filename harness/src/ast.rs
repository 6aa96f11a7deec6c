//! Abstract grammars (what is built with the library), strategies, and their
//! random generation.
use crate::util::Rng;

/// Symbols; the first nine are what most grammars use, all of them appear in
/// "wide" grammars.
pub const NSYM: usize = 60;
// 0..=2: plain symbols, 3: separator-like, 4/5 round, 6/7 square, 8 bar
pub type Mask = u64;

#[derive(Clone, Debug, PartialEq)]
pub enum TryKind {
    Ok,
    Err(usize),
    Rec(usize),
    ByHash,
}

#[derive(Clone, Debug)]
pub enum G {
    Empty,
    NoneP,
    End,
    Just(u8),
    Filter(Mask),
    FilterMap(Mask),
    Seq(Vec<u8>),
    OneOf(Vec<u8>),
    NoneOf(Vec<u8>),
    To(Box<G>, u32),
    Ignored(Box<G>),
    SomeP(Box<G>),
    Map(Box<G>, u32),
    MapSpan(Box<G>, u32),
    MapErr(Box<G>, u32),
    MapErrSpan(Box<G>, u32),
    TryMap(Box<G>, TryKind, u32),
    Then(Box<G>, Box<G>),
    ThenIgnore(Box<G>, Box<G>),
    IgnoreThen(Box<G>, Box<G>),
    Delim(Box<G>, Box<G>, Box<G>),
    Padded(Box<G>, Box<G>),
    Chain(Vec<G>),
    Or(Box<G>, Box<G>),
    OrNot(Box<G>),
    Alters(Vec<G>),
    Rep(Box<Rep>),
    Recover(Box<G>, Strat),
    Ref(usize),
    Boxed(Box<G>),
    WithErr(Box<G>),
}

#[derive(Clone, Debug)]
pub struct Rep {
    pub item: G,
    pub sep: Option<G>,
    pub min: usize,
    pub max: Option<usize>,
    pub lead: bool,
    pub trail: bool,
    /// separated_by() rather than repeated().with_separator()
    pub via_sep: bool,
    /// exactly() rather than at_least().at_most()
    pub exactly: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Upd {
    Append,
    Reverse,
    KeepLast,
    MapAll,
}

#[derive(Clone, Debug)]
pub enum Op {
    Restart,
    SeekToFailed,
    Skip,
    SkipIf(Mask),
    Find(Mask),
    Scan(usize),
    ScanRec(u32, usize, Mask),
    Maybe(Vec<Op>),
    WhileNot(Mask, Vec<Op>),
    Retry(bool, bool),
    TryParse(Box<G>, bool, bool),
    Push(u32),
    PushHere(u32),
    PushUpTo(u32),
    PushTok(u32),
    Update(Upd, u32),
    UpdateHere(Upd, u32),
    UpdateUpTo(Upd, u32),
    UpdateTok(Upd, u32),
    Nop,
}

#[derive(Clone, Debug)]
pub enum Fin {
    Return(u32),
    ReturnWith(u32),
    ReturnWithSpan(u32),
    OrFail,
}

#[derive(Clone, Debug)]
pub struct Strat {
    pub ops: Vec<Op>,
    pub fin: Fin,
}

#[derive(Clone, Debug)]
pub struct Grammar {
    /// size of the alphabet if larger than what the check asked for
    pub nsym: usize,
    pub rules: Vec<G>,
    pub start: G,
}

/// Delimiter sets available to Op::Scan; (left, right) symbol pairs.
pub const DELIMS: &[&[(u8, u8)]] = &[
    &[(4, 5)],
    &[(4, 5), (6, 7)],
    &[(4, 5), (8, 8), (6, 7)],
    &[(8, 8)],
    &[(6, 5), (4, 7)],
    &[(4, 5), (4, 7)],
    &[(0, 1), (4, 5)],
    &[],
    &[(4, 5), (6, 5)],
    &[(8, 8), (4, 5), (0, 2)],
    // wide grammars only
    &[(4, 5), (6, 7), (10, 11), (12, 13), (14, 15), (16, 17), (18, 19), (20, 21), (22, 23), (24, 25), (8, 8)],
    &[(10, 11), (12, 12), (4, 5), (6, 7), (14, 15), (13, 13)],
];
/// How many of them any grammar may use.
pub const NDELIMS: usize = 10;

pub fn sym_name(s: u8) -> char {
    const N: [char; NSYM] = [
        'a', 'b', 'c', ',', '(', ')', '[', ']', '|', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm', 'n', 'o', 'p',
        'q', 'r', 's', 't', 'u', 'v', 'w', 'x', 'y', 'z', '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', 'A', 'B',
        'C', 'D', 'E', 'F', 'G', 'H', 'I', 'J', 'é', 'ß', '日', '本', '🦀', ' ', '\u{301}', '\0',
    ];
    N[s as usize]
}
pub fn syms_to_string(s: &[u8]) -> String {
    s.iter().map(|&x| sym_name(x)).collect()
}

/// What the generator may use.
#[derive(Clone, Debug)]
pub struct Feat {
    pub depth: usize,
    pub choice: bool,
    pub ornot: bool,
    pub rep: bool,
    pub rep_full: bool,
    pub maps: bool,
    pub spans: bool,
    pub trymap: bool,
    pub maperr: bool,
    pub recover: bool,
    pub recover_pct: usize,
    pub rules: usize,
    pub strat_ops: usize,
    pub scan: bool,
    pub end: bool,
    pub wraps: bool,
    pub nsym: usize,
    /// strategies may edit the error list
    pub edits: bool,
    /// the error of every recoverable part is replaced by one custom error
    pub custom_parts: bool,
}
impl Feat {
    pub fn all() -> Feat {
        Feat {
            depth: 5,
            choice: true,
            ornot: true,
            rep: true,
            rep_full: true,
            maps: true,
            spans: true,
            trymap: true,
            maperr: true,
            recover: true,
            recover_pct: 15,
            rules: 2,
            strat_ops: 4,
            scan: true,
            end: true,
            wraps: true,
            nsym: 5,
            edits: true,
            custom_parts: false,
        }
    }
    pub fn strict() -> Feat {
        Feat {
            trymap: false,
            maperr: false,
            recover: false,
            ..Feat::all()
        }
    }
}

pub struct Gen<'r> {
    pub rng: &'r mut Rng,
    pub f: Feat,
    pub tag: u32,
    pub nrules: usize,
    pub budget: isize,
    /// per-grammar weight adjustments
    pub bias: Vec<u32>,
    /// large alphabet, long lists
    pub wide: bool,
    in_strat: usize,
}

const NKIND: usize = 27;

impl<'r> Gen<'r> {
    pub fn new(rng: &'r mut Rng, mut f: Feat) -> Self {
        let wide = rng.chance(1, 9);
        if wide {
            f.nsym = *rng.pick(&[12, 30, NSYM]);
            f.strat_ops *= rng.range(1, 3);
        }
        // A grammar uses a random subset of the constructs more heavily
        // ("swarm testing"), so that unusual combinations become likely.
        let mut bias = vec![];
        for _ in 0..NKIND {
            bias.push(*rng.pick(&[0u32, 1, 1, 2, 3, 5]));
        }
        let nrules = if f.rules > 0 && rng.chance(1, 3) {
            rng.range(1, f.rules)
        } else {
            0
        };
        Gen {
            rng,
            f,
            tag: 0,
            nrules,
            budget: 40,
            bias,
            wide,
            in_strat: 0,
        }
    }
    fn tag(&mut self) -> u32 {
        self.tag += 1;
        self.tag
    }
    fn sym(&mut self) -> u8 {
        self.rng.below(self.f.nsym) as u8
    }
    pub fn mask(&mut self) -> Mask {
        // Mostly one or two symbols.
        let mut m = 1 << self.sym();
        if self.rng.chance(1, 2) {
            m |= 1 << self.sym();
        }
        if self.wide && self.rng.chance(1, 2) {
            m |= self.rng.next() & ((1 << (self.f.nsym - 1)) - 1);
        }
        if self.rng.chance(1, 12) {
            m = 0;
        }
        m
    }
    fn symlist(&mut self, lo: usize, hi: usize) -> Vec<u8> {
        let hi = if self.wide && self.rng.chance(1, 3) {
            hi * self.rng.range(2, 12)
        } else {
            hi
        };
        let n = self.rng.range(lo, hi);
        (0..n).map(|_| self.sym()).collect()
    }
    /// How many members a chain or a choice has.
    fn arity(&mut self) -> usize {
        if self.wide && self.rng.chance(1, 3) {
            self.rng.range(4, 14)
        } else {
            self.rng.range(2, 4)
        }
    }
    pub fn grammar(&mut self) -> Grammar {
        let mut rules = vec![];
        for _ in 0..self.nrules {
            self.budget = 22;
            let d = self.f.depth;
            rules.push(self.gen(d, false));
        }
        self.budget = 36;
        let d = self.f.depth;
        let mut start = self.gen(d, true);
        if self.nrules > 0 && !uses_ref(&start) {
            let r = self.rng.below(self.nrules);
            start = match self.rng.below(3) {
                0 => G::Then(Box::new(start), Box::new(G::Ref(r))),
                1 => G::Ref(r),
                _ => G::Then(Box::new(G::Ref(r)), Box::new(start)),
            };
        }
        Grammar {
            nsym: self.f.nsym,
            rules,
            start,
        }
    }
    pub fn leaf(&mut self) -> G {
        self.budget -= 1;
        match self.rng.weighted(&[
            30,
            8,
            6,
            10,
            10,
            7,
            4,
            2,
            if self.f.end { 3 } else { 0 },
        ]) {
            0 => G::Just(self.sym()),
            1 => G::Filter(self.mask()),
            2 => G::FilterMap(self.mask()),
            3 => G::Seq(if self.rng.chance(1, 12) {
                vec![]
            } else {
                self.symlist(1, 4)
            }),
            4 => G::OneOf(if self.rng.chance(1, 20) {
                vec![]
            } else {
                self.symlist(1, 4)
            }),
            5 => G::NoneOf(self.symlist(0, 3)),
            6 => G::Empty,
            7 => G::NoneP,
            _ => G::End,
        }
    }
    /// `guarded`: a token has certainly been consumed since the enclosing
    /// rule was entered, so a rule reference is not left-recursive.
    pub fn gen(&mut self, depth: usize, guarded: bool) -> G {
        if depth == 0 || self.budget <= 0 {
            if guarded && self.nrules > 0 && self.rng.chance(1, 8) {
                return G::Ref(self.rng.below(self.nrules));
            }
            return self.leaf();
        }
        self.budget -= 1;
        if self.f.recover && self.in_strat == 0 && self.rng.chance(self.f.recover_pct, 100) {
            return self.recovering(depth, guarded);
        }
        let f = &self.f;
        let c = f.choice as u32;
        let m = f.maps as u32;
        let s = f.spans as u32;
        let base: [u32; NKIND] = [
            8,                                        // leaf
            12,                                       // then
            4,                                        // then_ignore
            4,                                        // ignore_then
            4,                                        // delim
            3,                                        // padded
            6,                                        // chain
            10 * c,                                   // or
            f.ornot as u32 * 6,                       // or_not
            9 * c,                                    // alters
            f.rep as u32 * 14,                        // rep
            2 * m,                                    // to
            2 * m,                                    // ignored
            m,                                        // some
            2 * m,                                    // map
            3 * s,                                    // map_span
            f.maperr as u32 * 3,                      // map_err
            (f.maperr && f.spans) as u32 * 3,         // map_err_span
            f.trymap as u32 * 5,                      // try_map
            (guarded && self.nrules > 0) as u32 * 10, // ref
            f.wraps as u32,                           // boxed
            f.wraps as u32,                           // with_error
            4 * c, // common-prefix choice (backtracking over several tokens)
            0,
            0,
            0,
            0,
        ];
        let w: Vec<u32> = base
            .iter()
            .zip(&self.bias)
            .map(|(b, x)| b * (1 + x))
            .collect();
        let d = depth - 1;
        let bx = Box::new;
        match self.rng.weighted(&w) {
            0 => self.leaf(),
            1 => {
                let a = self.gen(d, guarded);
                let g2 = guarded || !nullable(&a);
                G::Then(bx(a), bx(self.gen(d, g2)))
            }
            2 => {
                let a = self.gen(d, guarded);
                let g2 = guarded || !nullable(&a);
                G::ThenIgnore(bx(a), bx(self.gen(d, g2)))
            }
            3 => {
                let a = self.gen(d, guarded);
                let g2 = guarded || !nullable(&a);
                G::IgnoreThen(bx(a), bx(self.gen(d, g2)))
            }
            4 => {
                let l = self.leaf();
                let g2 = guarded || !nullable(&l);
                let m = self.gen(d, g2);
                let g3 = g2 || !nullable(&m);
                let r = if self.rng.chance(1, 2) {
                    self.leaf()
                } else {
                    self.gen(d.min(2), g3)
                };
                G::Delim(bx(l), bx(m), bx(r))
            }
            5 => {
                let l = if self.rng.chance(1, 2) {
                    self.leaf()
                } else {
                    self.gen(d.min(2), guarded)
                };
                let g2 = guarded || !nullable(&l);
                let m = self.gen(d, g2);
                G::Padded(bx(l), bx(m))
            }
            6 => {
                let n = self.arity();
                let mut g = guarded;
                let mut v = vec![];
                for _ in 0..n {
                    let x = self.gen(d, g);
                    g = g || !nullable(&x);
                    v.push(x);
                }
                G::Chain(v)
            }
            7 => G::Or(bx(self.gen(d, guarded)), bx(self.gen(d, guarded))),
            8 => G::OrNot(bx(self.gen(d, guarded))),
            9 => {
                let n = self.arity();
                G::Alters((0..n).map(|_| self.gen(d, guarded)).collect())
            }
            10 => self.rep(d, guarded),
            11 => {
                let t = self.tag();
                G::To(bx(self.gen(d, guarded)), t)
            }
            12 => G::Ignored(bx(self.gen(d, guarded))),
            13 => G::SomeP(bx(self.gen(d, guarded))),
            14 => {
                let t = self.tag();
                G::Map(bx(self.gen(d, guarded)), t)
            }
            15 => {
                let t = self.tag();
                G::MapSpan(bx(self.gen(d, guarded)), t)
            }
            16 => {
                let t = self.tag();
                G::MapErr(bx(self.gen(d, guarded)), t)
            }
            17 => {
                let t = self.tag();
                G::MapErrSpan(bx(self.gen(d, guarded)), t)
            }
            18 => {
                let t = self.tag();
                let k = match self.rng.below(6) {
                    0 => TryKind::Ok,
                    1 => TryKind::Err(self.rng.range(1, 3)),
                    2 => TryKind::Rec(self.rng.range(1, 3)),
                    _ => TryKind::ByHash,
                };
                G::TryMap(bx(self.gen(d, guarded)), k, t)
            }
            19 => G::Ref(self.rng.below(self.nrules)),
            20 => G::Boxed(bx(self.gen(d, guarded))),
            21 => G::WithErr(bx(self.gen(d, guarded))),
            _ => {
                // choice whose alternatives share a prefix
                let pre = self.symlist(1, 3);
                let n = self.rng.range(2, 3);
                let mut alts = vec![];
                for _ in 0..n {
                    let cut = self.rng.range(0, pre.len());
                    let mut v: Vec<G> = pre[..cut].iter().map(|&s| G::Just(s)).collect();
                    let g2 = guarded || cut > 0;
                    v.push(self.gen(d.min(2), g2));
                    if v.len() == 1 {
                        v.push(G::Empty)
                    }
                    alts.push(G::Chain(v));
                }
                if n == 2 && self.rng.chance(1, 2) {
                    let b = alts.pop().unwrap();
                    let a = alts.pop().unwrap();
                    G::Or(bx(a), bx(b))
                } else {
                    G::Alters(alts)
                }
            }
        }
    }
    pub fn rep(&mut self, d: usize, guarded: bool) -> G {
        let item = if self.rng.chance(1, 3) {
            self.leaf()
        } else {
            self.gen(d, guarded)
        };
        let sep = if self.f.rep_full && self.rng.chance(1, 2) {
            Some(if self.rng.chance(3, 5) {
                self.leaf()
            } else {
                self.gen(d.min(2), guarded)
            })
        } else {
            None
        };
        let mut min = *self.rng.pick(&[0usize, 0, 0, 1, 1, 2, 3]);
        if self.wide && self.rng.chance(1, 4) {
            min = self.rng.range(4, 20);
        }
        let mut max = match self.rng.below(5) {
            0 if self.wide && self.rng.chance(1, 3) => Some(min + self.rng.below(12)),
            0 => Some(min + self.rng.below(3)),
            1 => Some(min),
            _ => None,
        };
        if max == Some(0) && self.rng.chance(3, 4) {
            max = Some(1);
        }
        // (whether a leading separator is consumed with a maximum of zero items
        // is not specified anywhere)
        let lead = max != Some(0) && self.f.rep_full && self.rng.chance(1, 3);
        let trail = self.f.rep_full && self.rng.chance(1, 3);
        // An unbounded repetition must consume something per round.
        if max.is_none() && nullable(&item) && sep.as_ref().map_or(true, nullable) {
            max = Some(min + self.rng.range(1, 2));
        }
        let exactly = max == Some(min) && self.rng.chance(1, 2);
        G::Rep(Box::new(Rep {
            item,
            sep,
            min,
            max,
            lead,
            trail,
            via_sep: self.rng.chance(1, 2),
            exactly,
        }))
    }
    fn recovering(&mut self, d: usize, guarded: bool) -> G {
        let child = self.gen(d.saturating_sub(1), guarded);
        let child = if self.f.custom_parts {
            let t = self.tag();
            G::MapErr(Box::new(child), t)
        } else {
            child
        };
        let s = self.strat();
        G::Recover(Box::new(child), s)
    }
    pub fn strat(&mut self) -> Strat {
        let n = self.rng.below(self.f.strat_ops + 1);
        let ops = (0..n).map(|_| self.op(2)).collect();
        let fin = match self.rng.below(6) {
            0 | 1 => Fin::Return(self.tag()),
            2 => Fin::ReturnWith(self.tag()),
            3 => Fin::ReturnWithSpan(self.tag()),
            _ => Fin::OrFail,
        };
        Strat { ops, fin }
    }
    pub fn op(&mut self, depth: usize) -> Op {
        let e = self.f.edits as u32;
        let s = self.f.scan as u32;
        let k = self.rng.weighted(&[
            4,
            5,
            6,
            4,
            6,
            4 * s,
            2 * s,
            if depth > 0 { 4 } else { 0 },
            if depth > 0 { 5 } else { 0 },
            7,
            4,
            2 * e,
            2 * e,
            2 * e,
            2 * e,
            e,
            e,
            e,
            e,
            1,
        ]);
        let up = *self
            .rng
            .pick(&[Upd::Append, Upd::Append, Upd::Reverse, Upd::KeepLast, Upd::MapAll]);
        match k {
            0 => Op::Restart,
            1 => Op::SeekToFailed,
            2 => Op::Skip,
            3 => Op::SkipIf(self.mask()),
            4 => Op::Find(self.mask()),
            5 => Op::Scan(self.rng.below(if self.wide { DELIMS.len() } else { NDELIMS })),
            6 => {
                let t = self.tag();
                Op::ScanRec(t, self.rng.range(1, 5), self.mask())
            }
            7 | 8 => {
                let n = self.rng.range(0, 3);
                let m = self.mask();
                let ops = (0..n).map(|_| self.op(depth - 1)).collect();
                if k == 7 {
                    Op::Maybe(ops)
                } else {
                    Op::WhileNot(m, ops)
                }
            }
            9 => Op::Retry(self.rng.chance(1, 2), self.rng.chance(1, 2)),
            10 => {
                self.in_strat += 1;
                let g = self.gen(2, false);
                self.in_strat -= 1;
                // sometimes a recovering parser, so that exactly() matters
                let g = if self.in_strat == 0 && self.f.recover && self.rng.chance(1, 2) {
                    let fin = if self.rng.chance(1, 2) {
                        Fin::Return(self.tag())
                    } else {
                        Fin::OrFail
                    };
                    let op = if self.rng.chance(1, 2) {
                        Op::Skip
                    } else {
                        Op::SeekToFailed
                    };
                    G::Recover(Box::new(g), Strat { ops: vec![op], fin })
                } else {
                    g
                };
                Op::TryParse(Box::new(g), self.rng.chance(1, 2), self.rng.chance(1, 2))
            }
            11 => Op::Push(self.tag()),
            12 => Op::PushHere(self.tag()),
            13 => Op::PushUpTo(self.tag()),
            14 => Op::PushTok(self.tag()),
            15 => Op::Update(up, self.tag()),
            16 => Op::UpdateHere(up, self.tag()),
            17 => Op::UpdateUpTo(up, self.tag()),
            18 => Op::UpdateTok(up, self.tag()),
            _ => Op::Nop,
        }
    }
}

/// Conservative: may this parser succeed (or recover) without consuming?
pub fn nullable(g: &G) -> bool {
    match g {
        G::Empty | G::NoneP | G::End => true,
        G::Just(_) | G::Filter(_) | G::FilterMap(_) | G::OneOf(_) | G::NoneOf(_) => false,
        G::Seq(v) => v.is_empty(),
        G::To(a, _)
        | G::Ignored(a)
        | G::SomeP(a)
        | G::Map(a, _)
        | G::MapSpan(a, _)
        | G::MapErr(a, _)
        | G::MapErrSpan(a, _)
        | G::TryMap(a, _, _)
        | G::Boxed(a)
        | G::WithErr(a) => nullable(a),
        G::Then(a, b) | G::ThenIgnore(a, b) | G::IgnoreThen(a, b) => nullable(a) && nullable(b),
        G::Delim(a, b, c) => nullable(a) && nullable(b) && nullable(c),
        G::Padded(a, b) => nullable(a) && nullable(b),
        G::Chain(v) => v.iter().all(nullable),
        G::Or(a, b) => nullable(a) || nullable(b),
        G::OrNot(_) => true,
        G::Alters(v) => v.iter().any(nullable),
        G::Rep(r) => r.min == 0 || nullable(&r.item),
        G::Recover(_, _) => true,
        G::Ref(_) => true,
    }
}

pub fn uses_ref(g: &G) -> bool {
    let mut found = false;
    walk(g, &mut |x| {
        if matches!(x, G::Ref(_)) {
            found = true
        }
    });
    found
}

pub fn walk_ops(ops: &[Op], f: &mut dyn FnMut(&G)) {
    for o in ops {
        match o {
            Op::Maybe(v) | Op::WhileNot(_, v) => walk_ops(v, f),
            Op::TryParse(g, _, _) => walk(g, f),
            _ => (),
        }
    }
}

pub fn walk(g: &G, f: &mut dyn FnMut(&G)) {
    f(g);
    match g {
        G::To(a, _)
        | G::Ignored(a)
        | G::SomeP(a)
        | G::Map(a, _)
        | G::MapSpan(a, _)
        | G::MapErr(a, _)
        | G::MapErrSpan(a, _)
        | G::TryMap(a, _, _)
        | G::Boxed(a)
        | G::WithErr(a)
        | G::OrNot(a) => walk(a, f),
        G::Then(a, b)
        | G::ThenIgnore(a, b)
        | G::IgnoreThen(a, b)
        | G::Padded(a, b)
        | G::Or(a, b) => {
            walk(a, f);
            walk(b, f)
        }
        G::Delim(a, b, c) => {
            walk(a, f);
            walk(b, f);
            walk(c, f)
        }
        G::Chain(v) | G::Alters(v) => v.iter().for_each(|x| walk(x, f)),
        G::Rep(r) => {
            walk(&r.item, f);
            if let Some(s) = &r.sep {
                walk(s, f)
            }
        }
        G::Recover(a, s) => {
            walk(a, f);
            walk_ops(&s.ops, f);
        }
        _ => (),
    }
}

pub fn count_nodes(g: &Grammar) -> usize {
    let mut n = 0;
    walk(&g.start, &mut |_| n += 1);
    for r in &g.rules {
        walk(r, &mut |_| n += 1);
    }
    n
}

/// Samples a sentence that the grammar plausibly matches.
pub struct Sampler<'a> {
    pub g: &'a Grammar,
    pub rng: &'a mut Rng,
    pub out: Vec<u8>,
    pub fuel: usize,
    pub nsym: usize,
    /// probability (percent) of breaking a leaf
    pub noise: usize,
}
impl<'a> Sampler<'a> {
    fn from_mask(&mut self, m: Mask) {
        let c: Vec<u8> = (0..NSYM as u8).filter(|&s| m >> s & 1 == 1).collect();
        if !c.is_empty() {
            let s = *self.rng.pick(&c);
            self.out.push(s);
        }
    }
    pub fn go(&mut self, g: &G, depth: usize) {
        if self.fuel == 0 || depth == 0 {
            return;
        }
        self.fuel -= 1;
        if self.noise > 0 && self.rng.chance(self.noise, 100) {
            match self.rng.below(3) {
                0 => return,
                1 => {
                    let s = self.rng.below(self.nsym) as u8;
                    self.out.push(s);
                }
                _ => {
                    let s = self.rng.below(self.nsym) as u8;
                    self.out.push(s);
                    return;
                }
            }
        }
        match g {
            G::Empty | G::NoneP | G::End => (),
            G::Just(s) => self.out.push(*s),
            G::Filter(m) | G::FilterMap(m) => self.from_mask(*m),
            G::Seq(v) => self.out.extend(v),
            G::OneOf(v) => {
                if !v.is_empty() {
                    let s = *self.rng.pick(v);
                    self.out.push(s)
                }
            }
            G::NoneOf(v) => {
                let c: Vec<u8> = (0..self.nsym as u8).filter(|s| !v.contains(s)).collect();
                if !c.is_empty() {
                    let s = *self.rng.pick(&c);
                    self.out.push(s)
                }
            }
            G::To(a, _)
            | G::Ignored(a)
            | G::SomeP(a)
            | G::Map(a, _)
            | G::MapSpan(a, _)
            | G::MapErr(a, _)
            | G::MapErrSpan(a, _)
            | G::TryMap(a, _, _)
            | G::Boxed(a)
            | G::WithErr(a) => self.go(a, depth - 1),
            G::Then(a, b) | G::ThenIgnore(a, b) | G::IgnoreThen(a, b) => {
                self.go(a, depth - 1);
                self.go(b, depth - 1)
            }
            G::Delim(a, b, c) => {
                self.go(a, depth - 1);
                self.go(b, depth - 1);
                self.go(c, depth - 1)
            }
            G::Padded(a, b) => {
                self.go(a, depth - 1);
                self.go(b, depth - 1);
                self.go(a, depth - 1)
            }
            G::Chain(v) => v.iter().for_each(|x| self.go(x, depth - 1)),
            G::Or(a, b) => {
                if self.rng.chance(1, 2) {
                    self.go(a, depth - 1)
                } else {
                    self.go(b, depth - 1)
                }
            }
            G::OrNot(a) => {
                if self.rng.chance(2, 3) {
                    self.go(a, depth - 1)
                }
            }
            G::Alters(v) => {
                let i = self.rng.below(v.len());
                self.go(&v[i], depth - 1)
            }
            G::Rep(r) => {
                let more = if self.nsym > 9 && self.rng.chance(1, 6) { 30 } else { 3 };
                let hi = r.max.unwrap_or(r.min + more).max(r.min);
                let mut n = self.rng.range(r.min, hi);
                if self.rng.chance(1, 8) {
                    n += 1
                }
                if self.rng.chance(1, 8) {
                    n = n.saturating_sub(1)
                }
                if let Some(s) = &r.sep {
                    if self.rng.chance(if r.lead { 2 } else { 1 }, if r.lead { 4 } else { 20 }) {
                        self.go(s, depth - 1)
                    }
                }
                for i in 0..n {
                    if i > 0 {
                        if let Some(s) = &r.sep {
                            self.go(s, depth - 1)
                        }
                    }
                    self.go(&r.item, depth - 1)
                }
                if let Some(s) = &r.sep {
                    if self.rng.chance(if r.trail { 2 } else { 1 }, if r.trail { 4 } else { 8 }) {
                        self.go(s, depth - 1)
                    }
                }
            }
            G::Recover(a, _) => {
                if self.rng.chance(3, 5) {
                    // break this part on purpose
                    let n0 = self.out.len();
                    self.go(a, depth - 1);
                    let n1 = self.out.len();
                    match self.rng.below(4) {
                        0 => {
                            let s = self.rng.below(self.nsym) as u8;
                            let at = self.rng.range(n0, n1);
                            self.out.insert(at, s)
                        }
                        1 if n1 > n0 => {
                            let at = self.rng.range(n0, n1 - 1);
                            self.out.remove(at);
                        }
                        2 if n1 > n0 => {
                            let at = self.rng.range(n0, n1 - 1);
                            self.out[at] = self.rng.below(self.nsym) as u8
                        }
                        _ => {
                            for _ in 0..self.rng.range(1, 3) {
                                let s = self.rng.below(self.nsym) as u8;
                                self.out.insert(n0, s)
                            }
                        }
                    }
                } else {
                    self.go(a, depth - 1)
                }
            }
            G::Ref(i) => {
                let r = &self.g.rules[*i];
                self.go(r, depth - 1)
            }
        }
    }
}

pub fn gen_input(g: &Grammar, rng: &mut Rng, nsym: usize, noise: usize) -> Vec<u8> {
    let wide = g.nsym > 9;
    let nsym = nsym.max(g.nsym);
    if rng.chance(1, 10) {
        let n = rng.below(9);
        return (0..n).map(|_| rng.below(nsym) as u8).collect();
    }
    let noise = if rng.chance(1, 2) { 0 } else { noise };
    let mut s = Sampler {
        g,
        rng,
        out: vec![],
        fuel: if wide { 400 } else { 120 },
        nsym,
        noise,
    };
    s.go(&g.start, 18);
    let mut v = s.out;
    let rng = s.rng;
    // global mutations
    if rng.chance(2, 5) {
        for _ in 0..rng.range(1, 2) {
            match rng.below(5) {
                0 if !v.is_empty() => {
                    let at = rng.below(v.len());
                    v.remove(at);
                }
                1 => {
                    let at = rng.range(0, v.len());
                    v.insert(at, rng.below(nsym) as u8);
                }
                2 if !v.is_empty() => {
                    let at = rng.below(v.len());
                    v[at] = rng.below(nsym) as u8;
                }
                3 if !v.is_empty() => {
                    let at = rng.below(v.len());
                    v.truncate(at);
                }
                _ if v.len() > 1 => {
                    let i = rng.below(v.len());
                    let j = rng.below(v.len());
                    v.swap(i, j);
                }
                _ => (),
            }
        }
    }
    if rng.chance(1, 2) {
        for _ in 0..rng.below(4) {
            v.push(rng.below(nsym) as u8);
        }
    }
    v.truncate(if wide { 250 } else { 60 });
    v
}
