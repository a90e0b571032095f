//! The executable reference model of the wire format: an RFC 4506 encoder that
//! annotates every word it writes, and a decoder that says exactly why it
//! rejects what it rejects. Written from the RFC and the property texts, not
//! from fastxdr.

use crate::spec::*;
use crate::val::Val;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

#[derive(Clone, Debug, PartialEq)]
pub enum WordKind {
    Prim,
    Bool,
    Enum(String),
    Marker,
    Disc(String),
    /// Length of an opaque or string.
    Len(Option<u32>),
    /// Element count.
    Count(Option<u32>),
}

#[derive(Clone, Debug)]
pub struct Word {
    pub off: usize,
    pub size: usize,
    pub kind: WordKind,
}

#[derive(Clone, Debug, Default)]
pub struct Enc {
    pub bytes: Vec<u8>,
    pub words: Vec<Word>,
    /// Spans of string payload.
    pub strs: Vec<(usize, usize)>,
    /// Spans of opaque payload.
    pub opqs: Vec<(usize, usize)>,
    /// Spans of padding.
    pub pads: Vec<(usize, usize)>,
}

impl Enc {
    fn word(&mut self, v: u32, kind: WordKind) {
        self.words.push(Word {
            off: self.bytes.len(),
            size: 4,
            kind,
        });
        self.bytes.extend_from_slice(&v.to_be_bytes());
    }
    fn dword(&mut self, v: u64, kind: WordKind) {
        self.words.push(Word {
            off: self.bytes.len(),
            size: 8,
            kind,
        });
        self.bytes.extend_from_slice(&v.to_be_bytes());
    }
    fn payload(&mut self, p: &[u8], string: bool) {
        let off = self.bytes.len();
        self.bytes.extend_from_slice(p);
        if string {
            self.strs.push((off, p.len()));
        } else {
            self.opqs.push((off, p.len()));
        }
        let pad = (4 - p.len() % 4) % 4;
        if pad > 0 {
            self.pads.push((self.bytes.len(), pad));
            self.bytes.extend_from_slice(&[0; 3][..pad]);
        }
    }

    pub fn ty(&mut self, s: &Spec, t: &Ty, a: &Arr, v: &Val) {
        match (t, a) {
            (Ty::Opaque, Arr::Fixed(_)) => match v {
                Val::Opaque(p, _) => self.payload(p, false),
                _ => panic!("shape"),
            },
            (Ty::Opaque, a) | (Ty::Str, a) => {
                let max = match a {
                    Arr::Var(Some(m)) => Some(m.n()),
                    _ => None,
                };
                let (p, string) = match v {
                    Val::Opaque(p, _) => (p, false),
                    Val::Str(p) => (p, true),
                    _ => panic!("shape"),
                };
                self.word(p.len() as u32, WordKind::Len(max));
                self.payload(p, string);
            }
            (_, Arr::None) => self.one(s, t, v),
            (_, Arr::Fixed(_)) => match v {
                Val::Array(e) => e.iter().for_each(|x| self.one(s, t, x)),
                _ => panic!("shape"),
            },
            (_, Arr::Var(m)) => match v {
                Val::Array(e) => {
                    self.word(e.len() as u32, WordKind::Count(m.as_ref().map(|m| m.n())));
                    e.iter().for_each(|x| self.one(s, t, x))
                }
                _ => panic!("shape"),
            },
        }
    }

    fn one(&mut self, s: &Spec, t: &Ty, v: &Val) {
        match (t, v) {
            (Ty::Ref(n), v) => self.named(s, n, v),
            (_, Val::U32(x)) => self.word(*x, WordKind::Prim),
            (_, Val::I32(x)) => self.word(*x as u32, WordKind::Prim),
            (_, Val::F32(x)) => self.word(*x, WordKind::Prim),
            (_, Val::U64(x)) => self.dword(*x, WordKind::Prim),
            (_, Val::I64(x)) => self.dword(*x as u64, WordKind::Prim),
            (_, Val::F64(x)) => self.dword(*x, WordKind::Prim),
            (_, Val::Bool(x)) => self.word(*x as u32, WordKind::Bool),
            (t, v) => self.ty(s, t, &Arr::None, v),
        }
    }

    pub fn named(&mut self, s: &Spec, n: &str, v: &Val) {
        match (s.get(n), v) {
            (Decl::Enum(e), Val::Enum(m)) => {
                let x = e.members.iter().find(|x| &x.0 == m).unwrap().1;
                self.word(x as u32, WordKind::Enum(n.into()));
            }
            (Decl::Typedef(t), v) => self.ty(s, &t.ty, &t.arr, v),
            (Decl::Struct(d), Val::Struct(fs)) => {
                for (f, x) in d.fields.iter().zip(fs) {
                    if f.optional {
                        match x {
                            Val::Opt(None) => self.word(0, WordKind::Marker),
                            Val::Opt(Some(x)) => {
                                self.word(1, WordKind::Marker);
                                self.one(s, &f.ty, x);
                            }
                            _ => panic!("shape"),
                        }
                    } else {
                        self.ty(s, &f.ty, &f.arr, x);
                    }
                }
            }
            (Decl::Union(u), Val::Union(_, d, x)) => {
                let k = WordKind::Disc(n.into());
                if disc_size(&u.switch) == 8 {
                    self.dword(*d as u64, k);
                } else {
                    self.word(*d as u32, k);
                }
                if let (Some(x), Body::Data { ty, .. }) = (x, body_of(u, *d).unwrap().1) {
                    self.ty(s, ty, &Arr::None, x);
                }
            }
            _ => panic!("shape of {n}"),
        }
    }
}

pub fn encode(s: &Spec, n: &str, v: &Val) -> Enc {
    let mut e = Enc::default();
    e.named(s, n, v);
    e
}

pub fn disc_size(s: &Switch) -> usize {
    match s {
        Switch::Prim(Prim::U64 | Prim::I64) | Switch::Alias(_, Prim::U64 | Prim::I64) => 8,
        _ => 4,
    }
}

/// The variant and body a discriminant selects.
pub fn body_of(u: &UnionDef, d: i64) -> Option<(String, &Body)> {
    for a in &u.arms {
        for l in &a.labels {
            if l.value == d {
                return Some((l.variant(), &a.body));
            }
        }
    }
    if let Some((ls, b)) = &u.default {
        if *b == Body::Void {
            for l in ls {
                if l.value == d {
                    return Some((l.variant(), b));
                }
            }
        }
        return Some(("default".into(), b));
    }
    None
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum RefErr {
    /// An integer, float, marker... is cut off.
    Short,
    /// Payload present, padding cut off.
    PadShort,
    /// Length or count above the declared maximum.
    OverMax(u32, u32),
    /// Length or count above the bytes present.
    Beyond(u32),
    Bool(u32),
    /// A boolean discriminant other than 0/1.
    BoolDisc(u32),
    Enum(i32),
    Marker(u32),
    Disc(i64),
    Utf8,
    /// Nested deeper than `DEEPEST`, which RFC 4506 has no view on.
    Deep,
}

/// How deeply a value may nest before `decode` gives up on it.
pub static DEEPEST: AtomicUsize = AtomicUsize::new(100_000);

#[derive(Clone, Debug)]
pub struct Dec {
    pub val: Val,
    pub used: usize,
    /// Padding was not all zero: RFC 4506 lets a decoder reject it.
    pub odd_pad: bool,
    /// Number of bare inline opaque leaves (`opaque f;`).
    pub bare: usize,
    /// Some length or count equals its declared maximum.
    pub at_max: bool,
}

#[derive(Clone, Debug)]
pub struct Rej {
    pub err: RefErr,
    pub at: usize,
    pub odd_pad: bool,
    /// Where the counts of the arrays being decoded stand.
    pub counts: Vec<usize>,
}

struct D<'a> {
    s: &'a Spec,
    b: &'a [u8],
    p: usize,
    depth: usize,
    odd_pad: bool,
    bare: usize,
    at_max: bool,
    quirk: bool,
    counts: Vec<usize>,
}

type R<T> = Result<T, (RefErr, usize)>;

impl<'a> D<'a> {
    fn left(&self) -> usize {
        self.b.len() - self.p
    }
    fn u32(&mut self) -> R<u32> {
        if self.left() < 4 {
            return Err((RefErr::Short, self.p));
        }
        let v = u32::from_be_bytes(self.b[self.p..self.p + 4].try_into().unwrap());
        self.p += 4;
        Ok(v)
    }
    fn u64(&mut self) -> R<u64> {
        if self.left() < 8 {
            return Err((RefErr::Short, self.p));
        }
        let v = u64::from_be_bytes(self.b[self.p..self.p + 8].try_into().unwrap());
        self.p += 8;
        Ok(v)
    }
    fn limit(&mut self, n: u32, max: Option<u32>, at: usize) -> R<()> {
        if let Some(m) = max {
            if n > m {
                return Err((RefErr::OverMax(n, m), at));
            }
            if n == m {
                self.at_max = true;
            }
        }
        if n as usize > self.left() {
            return Err((RefErr::Beyond(n), at));
        }
        Ok(())
    }
    fn raw(&mut self, n: usize) -> R<(&'a [u8], usize)> {
        if self.left() < n {
            return Err((RefErr::Short, self.p));
        }
        let off = self.p;
        let d = &self.b[off..off + n];
        let pad = (4 - n % 4) % 4;
        if self.left() < n + pad {
            return Err((RefErr::PadShort, off));
        }
        if self.b[off + n..off + n + pad].iter().any(|x| *x != 0) {
            self.odd_pad = true;
        }
        self.p += n + pad;
        Ok((d, off))
    }

    fn ty(&mut self, t: &Ty, a: &Arr) -> R<Val> {
        match (t, a) {
            (Ty::Opaque, Arr::Fixed(s)) => {
                let (d, off) = self.raw(s.n() as usize)?;
                Ok(Val::Opaque(d.to_vec(), off))
            }
            (Ty::Opaque, a) | (Ty::Str, a) => {
                let max = match a {
                    Arr::Var(Some(m)) => Some(m.n()),
                    _ => None,
                };
                let at = self.p;
                let n = self.u32()?;
                self.limit(n, max, at)?;
                let (d, off) = self.raw(n as usize)?;
                if *t == Ty::Str {
                    if std::str::from_utf8(d).is_err() {
                        return Err((RefErr::Utf8, off));
                    }
                    Ok(Val::Str(d.to_vec()))
                } else {
                    Ok(Val::Opaque(d.to_vec(), off))
                }
            }
            (_, Arr::None) => self.one(t),
            (_, Arr::Fixed(s)) => {
                let mut v = Vec::new();
                for _ in 0..s.n() {
                    v.push(self.one(t)?);
                }
                Ok(Val::Array(v))
            }
            (_, Arr::Var(m)) => {
                let at = self.p;
                let n = self.u32()?;
                self.limit(n, m.as_ref().map(|m| m.n()), at)?;
                let mut v = Vec::new();
                self.counts.push(at);
                for _ in 0..n {
                    let (p0, b0) = (self.p, self.bare);
                    v.push(self.one(t)?);
                    if self.quirk {
                        // Known finding K1: elements are stepped over by a size
                        // that leaves out the prefix of bare inline opaques.
                        let l = self.p - p0 - 4 * (self.bare - b0);
                        self.p = p0 + l;
                    }
                }
                self.counts.pop();
                Ok(Val::Array(v))
            }
        }
    }

    fn one(&mut self, t: &Ty) -> R<Val> {
        Ok(match t {
            Ty::Prim(Prim::U32) => Val::U32(self.u32()?),
            Ty::Prim(Prim::I32) => Val::I32(self.u32()? as i32),
            Ty::Prim(Prim::U64) => Val::U64(self.u64()?),
            Ty::Prim(Prim::I64) => Val::I64(self.u64()? as i64),
            Ty::Prim(Prim::F32) => Val::F32(self.u32()?),
            Ty::Prim(Prim::F64) => Val::F64(self.u64()?),
            Ty::Prim(Prim::Bool) => {
                let at = self.p;
                match self.u32()? {
                    0 => Val::Bool(false),
                    1 => Val::Bool(true),
                    x => return Err((RefErr::Bool(x), at)),
                }
            }
            Ty::Ref(n) => self.named(n)?,
            t => self.ty(t, &Arr::None)?,
        })
    }

    fn named(&mut self, n: &str) -> R<Val> {
        if self.depth == DEEPEST.load(Relaxed) {
            return Err((RefErr::Deep, self.p));
        }
        self.depth += 1;
        let x = self.inner(n);
        self.depth -= 1;
        x
    }

    fn inner(&mut self, n: &str) -> R<Val> {
        let s = self.s;
        match s.get(n) {
            Decl::Const(..) => unreachable!(),
            Decl::Enum(_) => {
                let at = self.p;
                let x = self.u32()? as i32;
                self.member(n, x, at)
            }
            Decl::Typedef(t) => self.ty(&t.ty, &t.arr),
            Decl::Struct(d) => {
                let mut v = Vec::new();
                for f in &d.fields {
                    if f.optional {
                        let at = self.p;
                        v.push(Val::Opt(match self.u32()? {
                            0 => None,
                            1 => Some(Box::new(self.one(&f.ty)?)),
                            x => return Err((RefErr::Marker(x), at)),
                        }));
                    } else {
                        if f.ty == Ty::Opaque && f.arr == Arr::None {
                            self.bare += 1;
                        }
                        v.push(self.ty(&f.ty, &f.arr)?);
                    }
                }
                Ok(Val::Struct(v))
            }
            Decl::Union(u) => {
                let at = self.p;
                let d: i64 = match &u.switch {
                    Switch::Enum(e) => {
                        let x = self.u32()? as i32;
                        self.member(e, x, at)?;
                        x as i64
                    }
                    Switch::Prim(p) | Switch::Alias(_, p) => match p {
                        Prim::U32 => self.u32()? as i64,
                        Prim::I32 => self.u32()? as i32 as i64,
                        Prim::U64 | Prim::I64 => self.u64()? as i64,
                        Prim::Bool => match self.u32()? {
                            x if x < 2 => x as i64,
                            x => return Err((RefErr::BoolDisc(x), at)),
                        },
                        _ => unreachable!(),
                    },
                };
                match body_of(u, d) {
                    None => Err((RefErr::Disc(d), at)),
                    Some((var, Body::Void)) => Ok(Val::Union(var, d, None)),
                    Some((var, Body::Data { ty, .. })) => {
                        if *ty == Ty::Opaque {
                            self.bare += 1;
                        }
                        let x = self.ty(ty, &Arr::None)?;
                        Ok(Val::Union(var, d, Some(Box::new(x))))
                    }
                }
            }
        }
    }

    fn member(&self, e: &str, x: i32, at: usize) -> R<Val> {
        match self.s.get(e) {
            Decl::Enum(d) => match d.members.iter().find(|m| m.1 == x) {
                Some(m) => Ok(Val::Enum(m.0.clone())),
                None => Err((RefErr::Enum(x), at)),
            },
            _ => unreachable!(),
        }
    }
}

pub fn decode(s: &Spec, n: &str, b: &[u8], quirk: bool) -> Result<Dec, Rej> {
    let mut d = D {
        s,
        b,
        p: 0,
        depth: 0,
        odd_pad: false,
        bare: 0,
        at_max: false,
        quirk,
        counts: vec![],
    };
    match d.named(n) {
        Ok(val) => Ok(Dec {
            val,
            used: d.p,
            odd_pad: d.odd_pad,
            bare: d.bare,
            at_max: d.at_max,
        }),
        Err((err, at)) => Err(Rej {
            err,
            at,
            odd_pad: d.odd_pad,
            counts: d.counts,
        }),
    }
}
