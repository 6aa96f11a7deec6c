//! Canonical outcomes, shared by the reference model and the views of the
//! real library's results.
use crate::ast::sym_name;
use std::collections::BTreeSet;

pub const NOID: usize = usize::MAX;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Val {
    Unit,
    NoneV,
    SomeV(Box<Val>),
    Tok(u8, usize),
    FMap(u8),
    SeqV(Vec<u8>),
    Tag(u32),
    Mapped(u32, Box<Val>),
    Pair(Box<Val>, Box<Val>),
    List(Vec<Val>),
    Spanned(u32, Box<Val>, usize, usize),
    TM(u32, Box<Val>, usize, usize),
    Ret(u32),
    RetSpan(u32, usize, usize),
}
impl Val {
    /// Hash that ignores token identities and positions.
    pub fn shape_hash(&self) -> u64 {
        use crate::util::mix;
        match self {
            Val::Unit => 1,
            Val::NoneV => 2,
            Val::SomeV(v) => mix(3, v.shape_hash()),
            Val::Tok(s, _) => mix(4, *s as u64),
            Val::FMap(s) => mix(5, *s as u64),
            Val::SeqV(v) => v.iter().fold(6, |a, &x| mix(a, x as u64)),
            Val::Tag(t) => mix(7, *t as u64),
            Val::Mapped(t, v) => mix(mix(8, *t as u64), v.shape_hash()),
            Val::Pair(a, b) => mix(mix(9, a.shape_hash()), b.shape_hash()),
            Val::List(v) => v.iter().fold(10, |a, x| mix(a, x.shape_hash())),
            Val::Spanned(t, v, _, _) => mix(mix(11, *t as u64), v.shape_hash()),
            Val::TM(t, v, _, _) => mix(mix(12, *t as u64), v.shape_hash()),
            Val::Ret(t) => mix(13, *t as u64),
            Val::RetSpan(t, _, _) => mix(14, *t as u64),
        }
    }
    /// Removes what the projection must not see.
    pub fn map_leaves(self, ids: bool, spans: bool) -> Val {
        let b = |v: Box<Val>| Box::new(v.map_leaves(ids, spans));
        match self {
            Val::Tok(s, i) => Val::Tok(s, if ids { i } else { NOID }),
            Val::SomeV(v) => Val::SomeV(b(v)),
            Val::Mapped(t, v) => Val::Mapped(t, b(v)),
            Val::Pair(x, y) => Val::Pair(b(x), b(y)),
            Val::List(v) => Val::List(v.into_iter().map(|x| x.map_leaves(ids, spans)).collect()),
            Val::Spanned(t, v, x, y) => {
                let v = b(v);
                if spans {
                    Val::Spanned(t, v, x, y)
                } else {
                    Val::Spanned(t, v, 0, 0)
                }
            }
            Val::TM(t, v, x, y) => {
                let v = b(v);
                if spans {
                    Val::TM(t, v, x, y)
                } else {
                    Val::TM(t, v, 0, 0)
                }
            }
            Val::RetSpan(t, x, y) => {
                if spans {
                    Val::RetSpan(t, x, y)
                } else {
                    Val::RetSpan(t, 0, 0)
                }
            }
            v => v,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum PAt {
    None,
    Loc(usize),
    Span(usize, usize),
}
impl PAt {
    fn key(&self) -> String {
        match self {
            PAt::None => "-".into(),
            PAt::Loc(i) => format!("{i}"),
            PAt::Span(a, b) => format!("{a}..{b}"),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum PErr {
    Void,
    EF {
        exp: BTreeSet<Option<u8>>,
        found: Option<u8>,
        fid: usize,
        at: PAt,
    },
    UL(u8, usize, (usize, usize), PAt),
    UR(u8, usize, (usize, usize), PAt),
    UT(u8, usize, (usize, usize), u8, usize, (usize, usize)),
    Custom(String, PAt),
}
impl PErr {
    pub fn ef(exp: impl IntoIterator<Item = Option<u8>>, found: Option<u8>, fid: usize, at: PAt) -> PErr {
        PErr::EF {
            exp: exp.into_iter().collect(),
            found,
            fid: if found.is_some() { fid } else { NOID },
            at,
        }
    }
    pub fn is_ef(&self) -> bool {
        matches!(self, PErr::EF { .. })
    }
    pub fn at(&self) -> PAt {
        match self {
            PErr::Void => PAt::None,
            PErr::EF { at, .. } => *at,
            PErr::UL(_, _, _, at) | PErr::UR(_, _, _, at) | PErr::Custom(_, at) => *at,
            PErr::UT(_, _, _, _, _, s) => PAt::Span(s.0, s.1),
        }
    }
    pub fn strip_ids(self) -> PErr {
        match self {
            PErr::EF { exp, found, at, .. } => PErr::EF {
                exp,
                found,
                fid: NOID,
                at,
            },
            PErr::UL(a, _, s, at) => PErr::UL(a, NOID, s, at),
            PErr::UR(a, _, s, at) => PErr::UR(a, NOID, s, at),
            PErr::UT(a, _, s, b, _, t) => PErr::UT(a, NOID, s, b, NOID, t),
            e => e,
        }
    }
    /// Text used when a user error map wraps this error.
    pub fn key(&self) -> String {
        let t = |x: &Option<u8>| match x {
            Some(s) => sym_name(*s).to_string(),
            None => "EOF".to_string(),
        };
        match self {
            PErr::Void => "void".into(),
            PErr::EF { exp, found, at, .. } => format!(
                "ef[{}]!{}@{}",
                exp.iter().map(t).collect::<Vec<_>>().join("/"),
                t(found),
                at.key()
            ),
            PErr::UL(a, _, s, at) => format!("ul{}@{}..{}@{}", sym_name(*a), s.0, s.1, at.key()),
            PErr::UR(a, _, s, at) => format!("ur{}@{}..{}@{}", sym_name(*a), s.0, s.1, at.key()),
            PErr::UT(a, _, s, b, _, u) => format!(
                "ut{}@{}..{}/{}@{}..{}",
                sym_name(*a),
                s.0,
                s.1,
                sym_name(*b),
                u.0,
                u.1
            ),
            // Deep chains of maps would make the text explode; keep its hash.
            PErr::Custom(m, at) if m.len() > 160 => {
                format!("c#{:x}@{}", crate::util::fnv(m.as_bytes()), at.key())
            }
            PErr::Custom(m, at) => format!("c{}@{}", m, at.key()),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum MRes {
    S(Val),
    R(Val, Vec<PErr>),
    F(usize, Vec<PErr>),
}
impl MRes {
    pub fn kind(&self) -> &'static str {
        match self {
            MRes::S(_) => "success",
            MRes::R(_, _) => "recovered",
            MRes::F(_, _) => "failed",
        }
    }
    pub fn val(&self) -> Option<&Val> {
        match self {
            MRes::S(v) | MRes::R(v, _) => Some(v),
            MRes::F(_, _) => None,
        }
    }
    pub fn errs(&self) -> &[PErr] {
        match self {
            MRes::S(_) => &[],
            MRes::R(_, e) | MRes::F(_, e) => e,
        }
    }
    pub fn strip_ids(self) -> MRes {
        match self {
            MRes::S(v) => MRes::S(v.map_leaves(false, true)),
            MRes::R(v, e) => MRes::R(
                v.map_leaves(false, true),
                e.into_iter().map(PErr::strip_ids).collect(),
            ),
            MRes::F(i, e) => MRes::F(i, e.into_iter().map(PErr::strip_ids).collect()),
        }
    }
    pub fn void_errs(self) -> MRes {
        let v = |e: Vec<PErr>| e.into_iter().map(|_| PErr::Void).collect();
        match self {
            MRes::R(x, e) => MRes::R(x, v(e)),
            MRes::F(i, e) => MRes::F(i, v(e)),
            r => r,
        }
    }
}
