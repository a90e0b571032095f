//! Values and their seeded generation.

use crate::rng::Rng;
use crate::spec::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub enum Val {
    U32(u32),
    I32(i32),
    U64(u64),
    I64(i64),
    F32(u32),
    F64(u64),
    Bool(bool),
    Str(Vec<u8>),
    /// Payload and where it lives: an address when read out of a decoded value,
    /// a wire offset when produced by the reference codec.
    Opaque(Vec<u8>, usize),
    Enum(String),
    Struct(Vec<Val>),
    /// Variant, discriminant on the wire (not compared), payload.
    Union(String, i64, Option<Box<Val>>),
    Array(Vec<Val>),
    Opt(Option<Box<Val>>),
}

/// What kind of node two values first differ at.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum DiffKind {
    Scalar,
    Bool,
    Str,
    Opaque,
    Enum,
    Variant,
    Marker,
    Len,
    Shape,
}

impl Val {
    pub fn diff(&self, o: &Val, path: &mut Vec<String>) -> Option<DiffKind> {
        use Val::*;
        let s = |eq: bool, k| if eq { None } else { Some(k) };
        match (self, o) {
            (U32(a), U32(b)) => s(a == b, DiffKind::Scalar),
            (I32(a), I32(b)) => s(a == b, DiffKind::Scalar),
            (U64(a), U64(b)) => s(a == b, DiffKind::Scalar),
            (I64(a), I64(b)) => s(a == b, DiffKind::Scalar),
            (F32(a), F32(b)) => s(a == b, DiffKind::Scalar),
            (F64(a), F64(b)) => s(a == b, DiffKind::Scalar),
            (Bool(a), Bool(b)) => s(a == b, DiffKind::Bool),
            (Str(a), Str(b)) => s(a == b, DiffKind::Str),
            (Opaque(a, _), Opaque(b, _)) => s(a == b, DiffKind::Opaque),
            (Enum(a), Enum(b)) => s(a == b, DiffKind::Enum),
            (Struct(a), Struct(b)) | (Array(a), Array(b)) => {
                for (i, (x, y)) in a.iter().zip(b).enumerate() {
                    path.push(format!("[{i}]"));
                    if let Some(d) = x.diff(y, path) {
                        return Some(d);
                    }
                    path.pop();
                }
                s(a.len() == b.len(), DiffKind::Len)
            }
            (Union(a, _, x), Union(b, _, y)) => {
                if a != b {
                    return Some(DiffKind::Variant);
                }
                match (x, y) {
                    (None, None) => None,
                    (Some(x), Some(y)) => {
                        path.push(format!("::{a}"));
                        let d = x.diff(y, path);
                        if d.is_none() {
                            path.pop();
                        }
                        d
                    }
                    _ => Some(DiffKind::Variant),
                }
            }
            (Opt(x), Opt(y)) => match (x, y) {
                (None, None) => None,
                (Some(x), Some(y)) => {
                    let mark = path.len();
                    if path.len() < 40 {
                        path.push("?".into());
                    }
                    let d = x.diff(y, path);
                    if d.is_none() {
                        path.truncate(mark);
                    }
                    d
                }
                _ => Some(DiffKind::Marker),
            },
            _ => Some(DiffKind::Shape),
        }
    }

    /// Opaque leaves in wire order: (length, at).
    pub fn opaques(&self, out: &mut Vec<(usize, usize)>) {
        match self {
            Val::Opaque(d, at) => out.push((d.len(), *at)),
            Val::Struct(v) | Val::Array(v) => v.iter().for_each(|x| x.opaques(out)),
            Val::Union(_, _, Some(x)) => x.opaques(out),
            Val::Opt(Some(x)) => x.opaques(out),
            _ => {}
        }
    }

    pub fn short(&self) -> String {
        let mut s = String::new();
        self.fmt_into(&mut s, 400);
        s
    }

    fn fmt_into(&self, s: &mut String, lim: usize) {
        use std::fmt::Write;
        if s.len() > lim {
            if !s.ends_with('…') {
                s.push('…');
            }
            return;
        }
        match self {
            Val::U32(v) => write!(s, "{v}").unwrap(),
            Val::I32(v) => write!(s, "{v}").unwrap(),
            Val::U64(v) => write!(s, "{v}").unwrap(),
            Val::I64(v) => write!(s, "{v}").unwrap(),
            Val::F32(v) => write!(s, "f32:{v:08x}").unwrap(),
            Val::F64(v) => write!(s, "f64:{v:016x}").unwrap(),
            Val::Bool(v) => write!(s, "{v}").unwrap(),
            Val::Str(b) => {
                let t = String::from_utf8_lossy(b);
                let t: String = t.chars().take(20).collect();
                write!(s, "str[{}]{:?}", b.len(), t).unwrap()
            }
            Val::Opaque(b, _) => {
                write!(s, "opaque[{}]", b.len()).unwrap();
                for x in b.iter().take(8) {
                    write!(s, "{x:02x}").unwrap();
                }
            }
            Val::Enum(n) => s.push_str(n),
            Val::Struct(v) => {
                s.push('{');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        s.push_str(", ");
                    }
                    x.fmt_into(s, lim);
                }
                s.push('}');
            }
            Val::Array(v) => {
                write!(s, "#{}[", v.len()).unwrap();
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        s.push_str(", ");
                    }
                    x.fmt_into(s, lim);
                }
                s.push(']');
            }
            Val::Union(n, _, x) => {
                s.push_str(n);
                if let Some(x) = x {
                    s.push('(');
                    x.fmt_into(s, lim);
                    s.push(')');
                }
            }
            Val::Opt(None) => s.push_str("null"),
            Val::Opt(Some(x)) => {
                s.push('*');
                x.fmt_into(s, lim);
            }
        }
    }
}

/// How values are shaped. `knob` is what minimisation shrinks.
#[derive(Clone, Copy, Debug)]
pub struct Shape {
    /// 0: minimal; larger: longer arrays and payloads, deeper optionals.
    pub knob: u32,
    /// Length of optional chains through a type's own links.
    pub chain: u32,
    /// Payloads / arrays of this size may occur.
    pub big: u32,
}

pub struct ValGen<'a> {
    pub spec: &'a Spec,
    pub r: Rng,
    pub sh: Shape,
    /// Remaining nodes; when it runs out everything optional is left out.
    pub nodes: i64,
    pub bytes: i64,
    depth: u32,
    chain_left: u32,
    big_left: u32,
    /// The bounded length, counted from here, that goes over its maximum, and
    /// by how much.
    pub over: Option<(u32, u32)>,
    loops: BTreeMap<(String, String), bool>,
    /// The arm the first union takes.
    pub arm: Option<u64>,
}

/// How many elements a length that is to be `big` gets; they cost more than
/// bytes do.
fn many(big: u32, part: u32) -> u32 {
    if big == 200_000 {
        big / part
    } else {
        big.min(70_000)
    }
}

impl<'a> ValGen<'a> {
    pub fn new(spec: &'a Spec, seed: u64, sh: Shape) -> Self {
        let k = sh.knob as i64;
        ValGen {
            spec,
            r: Rng::stream(seed, &[0x7a1]),
            sh,
            nodes: 4 + 24 * k + 12 * sh.chain as i64 + 2 * many(sh.big, 2) as i64,
            bytes: 16 + 60 * k + 3 * sh.big as i64,
            depth: 0,
            chain_left: sh.chain,
            big_left: if sh.big > 0 { 1 } else { 0 },
            over: None,
            loops: BTreeMap::new(),
            arm: None,
        }
    }

    fn tight(&self) -> bool {
        self.nodes <= 0 || self.bytes < -(8 << 20) || self.depth > 60 + 4 * self.sh.chain
    }

    fn scalar(&mut self) -> u64 {
        match self.r.below(6) {
            0 => self.r.below(5),
            1 => *self.r.pick(&[
                u64::MAX,
                i64::MAX as u64,
                i64::MIN as u64,
                0x7fff_ffff,
                0x8000_0000,
                0xffff_ffff,
                0xffff_ffff_8000_0000,
            ]),
            _ => self.r.next(),
        }
    }

    fn len(&mut self, max: Option<u32>, payload: bool) -> usize {
        let cap = max.unwrap_or(u32::MAX) as u64;
        if let (Some((n, by)), true) = (self.over, max.is_some() && cap < 200_000) {
            if n == 0 {
                self.over = None;
                let n = cap + by as u64;
                self.nodes += 8 * n as i64;
                return n as usize;
            }
            self.over = Some((n - 1, by));
        }
        let want: u64 = if self.sh.knob == 0 || self.tight() {
            0
        } else if self.big_left > 0 && self.r.chance(1, 2) {
            self.big_left -= 1;
            u64::from(if payload { self.sh.big } else { many(self.sh.big, 1) }) + self.r.below(5)
        } else {
            let k = self.sh.knob as u64;
            match self.r.below(8) {
                0 => 0,
                1 => 1,
                // Exactly the declared maximum, and one less.
                2 | 3 if cap <= 16 + 40 * k => cap,
                4 if cap <= 16 + 40 * k => cap.saturating_sub(1),
                5 => self.r.below(4 + 4 * k),
                _ => {
                    if payload {
                        self.r.below(10)
                    } else {
                        self.r.below(4)
                    }
                }
            }
        };
        want.min(cap) as usize
    }

    fn payload(&mut self, n: usize) -> Vec<u8> {
        self.bytes -= n as i64;
        match self.r.below(4) {
            // Payloads that look like XDR words.
            0 => (0..n)
                .map(|i| if i % 4 == 3 { self.r.below(4) as u8 } else { 0 })
                .collect(),
            1 => vec![0xff; n],
            _ => (0..n).map(|_| self.r.next() as u8).collect(),
        }
    }

    fn string(&mut self, n: usize) -> Vec<u8> {
        self.bytes -= n as i64;
        let mut out = Vec::with_capacity(n);
        let style = self.r.below(4);
        while out.len() < n {
            let left = n - out.len();
            let c = match (style, self.r.below(4)) {
                (0, _) | (_, 0) => char::from(b'a' + self.r.below(26) as u8),
                (1, _) => char::from(self.r.below(128) as u8),
                (_, 1) => *self.r.pick(&['\u{e9}', '\u{7ff}', '\u{80}']),
                (_, 2) => *self.r.pick(&['\u{20ac}', '\u{800}', '\u{ffff}', '\u{d7ff}', '\u{feff}', '\u{fffd}', '\u{e000}']),
                _ => *self.r.pick(&['\u{1f980}', '\u{10000}', '\u{10ffff}']),
            };
            let c = if c.len_utf8() > left { 'z' } else { c };
            let mut b = [0; 4];
            out.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
        }
        // What trimming would take away.
        if style == 1 && n > 0 {
            let i = if self.r.chance(1, 2) { 0 } else { n - 1 };
            out[i] = *self.r.pick(b" \n\t\r\0");
        }
        out
    }

    pub fn ty(&mut self, t: &Ty, a: &Arr, me: &str) -> Val {
        self.nodes -= 1;
        match (t, a) {
            (Ty::Opaque, Arr::Fixed(s)) => {
                let p = self.payload(s.n() as usize);
                Val::Opaque(p, 0)
            }
            (Ty::Opaque, a) | (Ty::Str, a) => {
                let max = match a {
                    Arr::Var(Some(s)) => Some(s.n()),
                    _ => None,
                };
                let n = if self.bytes <= 0 { 0 } else { self.len(max, true) };
                if *t == Ty::Str {
                    Val::Str(self.string(n))
                } else {
                    Val::Opaque(self.payload(n), 0)
                }
            }
            (_, Arr::None) => self.one(t, me),
            (_, Arr::Fixed(s)) => Val::Array((0..s.n()).map(|_| self.one(t, me)).collect()),
            (_, Arr::Var(m)) => {
                let mut n = self.len(m.as_ref().map(|s| s.n()), false);
                if self.turn(t, me) {
                    n = 1.max(n.min(2)).min(m.as_ref().map_or(2, |s| s.n() as usize));
                }
                let mut v = Vec::new();
                for _ in 0..n {
                    if self.tight() {
                        break;
                    }
                    v.push(self.one(t, me));
                }
                Val::Array(v)
            }
        }
    }

    /// Whether a link from `me` to `t` is to be followed to make a long chain
    /// of types that contain each other.
    fn turn(&mut self, t: &Ty, me: &str) -> bool {
        if self.chain_left == 0 || self.sh.chain > 600 || me.is_empty() || !self.back(t, me) {
            return false;
        }
        self.chain_left -= 1;
        true
    }

    /// Whether `t` leads back to `me`.
    fn back(&mut self, t: &Ty, me: &str) -> bool {
        let Ty::Ref(m) = t else { return false };
        let k = (m.clone(), me.to_string());
        if let Some(x) = self.loops.get(&k) {
            return *x;
        }
        let x = leads(self.spec, m, me);
        self.loops.insert(k, x);
        x
    }

    fn one(&mut self, t: &Ty, me: &str) -> Val {
        let _ = me;
        match t {
            Ty::Prim(p) => {
                let x = self.scalar();
                match p {
                    Prim::U32 => Val::U32(x as u32),
                    Prim::I32 => Val::I32(x as i32),
                    Prim::U64 => Val::U64(x),
                    Prim::I64 => Val::I64(x as i64),
                    Prim::F32 => Val::F32(match self.r.below(4) {
                        0 => *self.r.pick(&[0x7f80_0001, 0x7fc0_0000, 0x8000_0000, 0xff80_0000, 1]),
                        _ => x as u32,
                    }),
                    Prim::F64 => Val::F64(match self.r.below(4) {
                        0 => *self.r.pick(&[
                            0x7ff0_0000_0000_0001,
                            0x7ff8_0000_0000_0000,
                            0x8000_0000_0000_0000,
                            1,
                        ]),
                        _ => x,
                    }),
                    Prim::Bool => Val::Bool(x & 1 == 1),
                }
            }
            Ty::Ref(n) => self.named(n),
            Ty::Str => self.ty(&Ty::Str, &Arr::None, ""),
            Ty::Opaque => self.ty(&Ty::Opaque, &Arr::None, ""),
        }
    }

    /// While a chain is wanted, an arm that leads back to the union.
    fn winding(&mut self, opts: &[(String, i64, &Body)], me: &str) -> Option<usize> {
        if self.chain_left == 0 || self.sh.chain > 600 {
            return None;
        }
        let mut at = Vec::new();
        for (i, o) in opts.iter().enumerate() {
            if let Body::Data { ty, .. } = o.2 {
                if self.back(ty, me) {
                    at.push(i);
                }
            }
        }
        if at.is_empty() {
            return None;
        }
        self.chain_left -= 1;
        Some(*self.r.pick(&at))
    }

    pub fn named(&mut self, n: &str) -> Val {
        self.depth += 1;
        let spec = self.spec;
        let v = match spec.get(n) {
            Decl::Const(..) => unreachable!(),
            Decl::Enum(e) => Val::Enum(self.r.pick(&e.members).0.clone()),
            Decl::Typedef(t) => self.ty(&t.ty, &t.arr, n),
            Decl::Struct(s) => {
                let mut v = Vec::new();
                for f in &s.fields {
                    if f.optional {
                        self.nodes -= 1;
                        let own = matches!(&f.ty, Ty::Ref(m) if m == n);
                        let some = if own && self.chain_left > 0 {
                            self.chain_left -= 1;
                            true
                        } else if self.turn(&f.ty, n) {
                            true
                        } else {
                            self.sh.knob > 0 && !self.tight() && self.r.chance(1, 2)
                        };
                        v.push(Val::Opt(if some {
                            Some(Box::new(self.ty(&f.ty, &Arr::None, n)))
                        } else {
                            None
                        }));
                    } else {
                        v.push(self.ty(&f.ty, &f.arr, n));
                    }
                }
                Val::Struct(v)
            }
            Decl::Union(u) => {
                // (variant, discriminant, body)
                let mut opts: Vec<(String, i64, &Body)> = Vec::new();
                for a in &u.arms {
                    for l in &a.labels {
                        opts.push((l.variant(), l.value, &a.body));
                    }
                }
                if let Some((ls, b)) = &u.default {
                    for l in ls {
                        let var = if *b == Body::Void { l.variant() } else { "default".into() };
                        opts.push((var, l.value, b));
                    }
                    for _ in 0..3 {
                        if let Some(d) = undeclared(spec, u, &mut self.r) {
                            opts.push(("default".into(), d, b));
                        }
                    }
                }
                let pick = if let Some(a) = self.arm.take() {
                    a as usize % opts.len()
                } else if let Some(i) = self.winding(&opts, n) {
                    i
                } else if self.tight() {
                    // Cheapest arm.
                    let mut best = 0;
                    for (i, o) in opts.iter().enumerate() {
                        if *o.2 == Body::Void {
                            best = i;
                        }
                    }
                    best
                } else {
                    self.r.idx(opts.len())
                };
                let (var, d, b) = opts.swap_remove(pick);
                Val::Union(
                    var,
                    d,
                    match b {
                        Body::Void => None,
                        Body::Data { ty, .. } => Some(Box::new(self.ty(ty, &Arr::None, n))),
                    },
                )
            }
        };
        self.depth -= 1;
        v
    }
}

/// Whether a value of type `from` can contain one of type `to`.
pub fn leads(spec: &Spec, from: &str, to: &str) -> bool {
    let mut seen = BTreeSet::new();
    let mut todo = vec![from];
    while let Some(x) = todo.pop() {
        if x == to {
            return true;
        }
        if !seen.insert(x) {
            continue;
        }
        let mut tys: Vec<&Ty> = Vec::new();
        match spec.get(x) {
            Decl::Struct(s) => tys.extend(s.fields.iter().map(|f| &f.ty)),
            Decl::Typedef(t) => tys.push(&t.ty),
            Decl::Union(u) => {
                let d = u.default.iter().map(|d| &d.1);
                for b in u.arms.iter().map(|a| &a.body).chain(d) {
                    if let Body::Data { ty, .. } = b {
                        tys.push(ty);
                    }
                }
            }
            _ => {}
        }
        for t in tys {
            if let Ty::Ref(m) = t {
                todo.push(m);
            }
        }
    }
    false
}

/// A discriminant that no label of the union declares but that its switch type
/// can hold.
pub fn undeclared(spec: &Spec, u: &UnionDef, r: &mut Rng) -> Option<i64> {
    let used: Vec<i64> = u
        .arms
        .iter()
        .flat_map(|a| &a.labels)
        .chain(u.default.iter().flat_map(|d| &d.0))
        .map(|l| l.value)
        .collect();
    for _ in 0..20 {
        let d = match &u.switch {
            Switch::Enum(e) => match spec.get(e) {
                Decl::Enum(e) => r.pick(&e.members).1 as i64,
                _ => unreachable!(),
            },
            Switch::Prim(p) | Switch::Alias(_, p) => match p {
                Prim::Bool => r.below(2) as i64,
                Prim::U32 => match r.below(3) {
                    0 => r.below(16) as i64,
                    1 => *r.pick(&[0xffff_ffff, 0x8000_0000, 0x7fff_ffff]),
                    _ => r.u32() as i64,
                },
                Prim::I32 => match r.below(3) {
                    0 => r.below(16) as i64,
                    1 => *r.pick(&[-1, i32::MIN as i64, i32::MAX as i64]),
                    _ => r.u32() as i32 as i64,
                },
                Prim::U64 | Prim::I64 => match r.below(4) {
                    0 => r.below(16) as i64,
                    // Equal to a declared label in the low 32 bits only.
                    1 if !used.is_empty() => {
                        let l = *r.pick(&used);
                        l | (1 << 32)
                    }
                    2 => *r.pick(&[-1, i64::MIN, i64::MAX, 1 << 40]),
                    _ => r.next() as i64,
                },
                Prim::F32 | Prim::F64 => unreachable!(),
            },
        };
        if !used.contains(&d) {
            return Some(d);
        }
    }
    None
}
