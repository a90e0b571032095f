//! Seeded generation of specifications in the supported subset.

use crate::rng::Rng;
use crate::spec::*;
use std::collections::{BTreeMap, BTreeSet};

struct G<'a> {
    r: &'a mut Rng,
    n: u32,
    named: Vec<String>,
    consts: Vec<(String, u32)>,
    small: Vec<(String, u32)>,
    enums: Vec<EnumDef>,
    /// Names that may be referenced directly (already complete).
    done: Vec<String>,
    /// Names of everything (optional / counted references may point anywhere).
    all: Vec<String>,
    inline: BTreeMap<String, u64>,
    /// Types whose value contains a bare inline opaque (see DESIGN: K1).
    bare: BTreeSet<String>,
    /// Whether the type being generated may contain a bare opaque; those that
    /// may not can be elements of counted arrays.
    allow_bare: bool,
    /// Names (declared or yet to be) that stay free of bare opaques.
    clean: Vec<String>,
    aliases: Vec<(String, Prim)>,
}

const TYPE_STEMS: &[&str] = &[
    "node", "Record", "structure", "union_res", "enumerated", "int_like", "hyperlink", "opaque_t",
    "stringy", "bool_box", "unsigned_x", "case_t", "default_t", "void_ish", "typedefd", "fattr4",
    "COMPOUND4args", "nfs_fh", "switchboard", "constant_t", "doubled", "floaty", "x", "Z_9",
];
const FIELD_STEMS: &[&str] = &[
    "a", "b", "len", "data", "type", "match", "fn", "ref", "async", "self", "impl", "next",
    "struct_v", "int_x", "string_s", "opaque_o", "uid", "Mixed_Case", "count", "v", "loop", "where",
    "move", "n1", "_lead", "option", "in", "crate", "buf", "dyn",
];
const VAR_STEMS: &[&str] = &[
    "status", "d", "type", "disc", "kind", "set_it", "argop", "which", "match", "c",
];

impl<'a> G<'a> {
    fn name(&mut self, stems: &[&str]) -> String {
        self.n += 1;
        let s = *self.r.pick(stems);
        let mut name = format!("{}_{}", s, self.n);
        while self.named.contains(&name) {
            self.n += 1;
            name = format!("{}_{}", s, self.n);
        }
        if !self.named.is_empty() && self.r.chance(1, 12) {
            // Nearly the name of something else.
            let near = self.r.pick(&self.named).clone();
            let other = match self.r.below(7) {
                0 => near.to_uppercase(),
                1 => near.to_lowercase(),
                2 => format!("{near}_"),
                3 => format!("_{near}"),
                4 => format!("{near}{}", self.r.below(10)),
                5 => near.replacen('_', "__", 1),
                _ => format!("{near}_{near}"),
            };
            if !self.named.contains(&other) && other.len() <= 60 {
                name = other;
            }
        }
        self.named.push(name.clone());
        name
    }

    fn prim(&mut self) -> Prim {
        *self.r.pick(&[
            Prim::U32,
            Prim::U32,
            Prim::I32,
            Prim::U64,
            Prim::I64,
            Prim::F32,
            Prim::F64,
            Prim::Bool,
            Prim::Bool,
        ])
    }

    /// A declared maximum.
    fn max(&mut self) -> Size {
        if self.r.chance(2, 5) && !self.consts.is_empty() {
            let (n, v) = self.r.pick(&self.consts).clone();
            return Size::Const(n, v);
        }
        let v = match self.r.below(10) {
            0..=4 => self.r.range(1, 9) as u32,
            5 | 6 => self.r.range(10, 40) as u32,
            7 => *self.r.pick(&[64, 255, 256, 1000, 1024]),
            8 => *self.r.pick(&[0, 4096, 65535, 65536, 70000]),
            _ => *self.r.pick(&[0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff]),
        };
        Size::Lit(v)
    }

    fn fixed(&mut self) -> Size {
        if self.r.chance(2, 5) && !self.small.is_empty() {
            let (n, v) = self.r.pick(&self.small).clone();
            return Size::Const(n, v);
        }
        Size::Lit(self.r.range(1, 5) as u32)
    }

    fn opaque_fixed(&mut self) -> Size {
        if self.r.chance(2, 5) && !self.small.is_empty() {
            let (n, v) = self.r.pick(&self.small).clone();
            return Size::Const(n, v);
        }
        Size::Lit(match self.r.below(8) {
            0 => 33,
            1 => 100,
            _ => self.r.range(1, 17) as u32,
        })
    }

    fn bare_ok(&self) -> bool {
        self.allow_bare
    }

    /// A type that can be used inline: prefer already declared references.
    fn direct(&mut self) -> Option<String> {
        let c: Vec<String> = self
            .done
            .iter()
            .filter(|n| self.inline[*n] <= 400 && (self.allow_bare || !self.bare.contains(*n)))
            .cloned()
            .collect();
        if c.is_empty() {
            return None;
        }
        // Bias to recent ones: deeper nesting.
        let i = if self.r.chance(1, 2) {
            c.len() - 1 - self.r.idx(c.len().min(5))
        } else {
            self.r.idx(c.len())
        };
        Some(c[i].clone())
    }
}

fn ty_inline(g: &G, t: &Ty) -> u64 {
    match t {
        Ty::Prim(Prim::U64 | Prim::I64 | Prim::F64) => 8,
        Ty::Prim(_) => 4,
        Ty::Str => 24,
        Ty::Opaque => 32,
        Ty::Ref(n) => g.inline.get(n).copied().unwrap_or(24),
    }
}

fn gen_field(g: &mut G, me: &str, names: &mut BTreeSet<String>) -> Field {
    let name = loop {
        let s = *g.r.pick(FIELD_STEMS);
        let n = if g.r.chance(1, 9) && !g.done.is_empty() {
            // Named like a type.
            let i = g.r.idx(g.done.len());
            g.done[i].clone()
        } else if g.r.chance(1, 2) {
            s.to_string()
        } else {
            format!("{}{}", s, g.r.below(30))
        };
        if names.insert(n.clone()) {
            break n;
        }
    };
    let f = |ty, arr, optional| Field {
        name: name.clone(),
        ty,
        arr,
        optional,
    };
    loop {
        match g.r.below(20) {
            0..=3 => return f(Ty::Prim(g.prim()), Arr::None, false),
            4 => return f(Ty::Prim(g.prim()), Arr::Fixed(g.fixed()), false),
            5 => return f(Ty::Str, Arr::None, false),
            6 => return f(Ty::Str, Arr::Var(None), false),
            7 => return f(Ty::Str, Arr::Var(Some(g.max())), false),
            8 if g.bare_ok() => return f(Ty::Opaque, Arr::None, false),
            8 | 9 => return f(Ty::Opaque, Arr::Var(None), false),
            10 => return f(Ty::Opaque, Arr::Var(Some(g.max())), false),
            11 => return f(Ty::Opaque, Arr::Fixed(g.opaque_fixed()), false),
            12 | 13 | 14 => {
                if let Some(n) = g.direct() {
                    return f(Ty::Ref(n), Arr::None, false);
                }
            }
            15 => {
                if let Some(n) = g.direct() {
                    if g.inline[&n] <= 120 {
                        return f(Ty::Ref(n), Arr::Fixed(g.fixed()), false);
                    }
                }
            }
            16 | 17 => {
                let n = if g.r.chance(1, 5) {
                    me.to_string()
                } else if g.r.chance(1, 2) {
                    match g.direct() {
                        Some(n) => n,
                        None => continue,
                    }
                } else if g.allow_bare {
                    g.r.pick(&g.all).clone()
                } else {
                    g.r.pick(&g.clean).clone()
                };
                return f(Ty::Ref(n), Arr::None, true);
            }
            _ => {
                // Counted array: the element must be free of bare opaques.
                let n = if !g.allow_bare && g.r.chance(1, 8) {
                    me.to_string()
                } else if g.r.chance(1, 5) && !g.clean.is_empty() {
                    g.r.pick(&g.clean).clone()
                } else {
                    let save = g.allow_bare;
                    g.allow_bare = false;
                    let n = g.direct();
                    g.allow_bare = save;
                    match n {
                        Some(n) => n,
                        None => continue,
                    }
                };
                let m = if g.r.chance(1, 2) { Some(g.max()) } else { None };
                return f(Ty::Ref(n), Arr::Var(m), false);
            }
        }
    }
}

fn gen_body(g: &mut G) -> Body {
    let field = g.name(FIELD_STEMS);
    loop {
        let ty = match g.r.below(12) {
            0 | 1 | 2 => return Body::Void,
            3 | 4 => Ty::Prim(g.prim()),
            5 => Ty::Str,
            6 if g.bare_ok() => Ty::Opaque,
            _ => match g.direct() {
                Some(n) => Ty::Ref(n),
                None => continue,
            },
        };
        return Body::Data { ty, field };
    }
}

fn gen_union(g: &mut G, name: &str) -> UnionDef {
    let var = loop {
        let v = g.r.pick(VAR_STEMS).to_string();
        if v != "v" {
            break v;
        }
    };
    let (switch, kind) = match g.r.below(14) {
        0..=2 => (Switch::Prim(Prim::U32), Some(Prim::U32)),
        3 | 4 => (Switch::Prim(Prim::I32), Some(Prim::I32)),
        5 | 6 => (Switch::Prim(Prim::Bool), Some(Prim::Bool)),
        7 => {
            let p = *g.r.pick(&[Prim::U64, Prim::I64]);
            (Switch::Prim(p), Some(p))
        }
        8 | 9 if !g.aliases.is_empty() => {
            let (n, p) = g.r.pick(&g.aliases).clone();
            (Switch::Alias(n, p), Some(p))
        }
        _ => {
            let e = g.r.pick(&g.enums).name.clone();
            (Switch::Enum(e), None)
        }
    };
    let pool = label_pool(g, &switch, kind);
    // Now and then nothing but a default.
    let bare_default = g.r.chance(1, 16);
    let keep = 1 + g.r.idx(pool.len());
    let mut pool = pool;
    pool.truncate(if bare_default { 0 } else { keep });
    let mut arms = Vec::new();
    let mut it = pool.into_iter().peekable();
    let mut tail = Vec::new();
    while it.peek().is_some() {
        let mut labels = vec![it.next().unwrap()];
        while it.peek().is_some() && g.r.chance(1, 3) {
            labels.push(it.next().unwrap());
        }
        if it.peek().is_none() && !arms.is_empty() && g.r.chance(1, 5) {
            tail = labels;
            break;
        }
        let body = gen_body(g);
        arms.push(Arm { labels, body });
    }
    let default = if bare_default || !tail.is_empty() || g.r.chance(2, 5) {
        Some((tail, gen_body(g)))
    } else {
        None
    };
    UnionDef {
        name: name.into(),
        switch,
        var,
        arms,
        default,
    }
}

/// Labels for a switch of some type, in random order.
fn label_pool(g: &mut G, switch: &Switch, kind: Option<Prim>) -> Vec<Label> {
    let mut pool: Vec<Label> = Vec::new();
    match (switch, kind) {
        (Switch::Enum(e), _) => {
            let d = g.enums.iter().find(|x| &x.name == e).unwrap();
            for (m, v, _) in &d.members {
                pool.push(Label {
                    text: m.clone(),
                    value: *v as i64,
                    kind: LabelKind::Member,
                });
            }
        }
        (_, Some(Prim::Bool)) => {
            for (t, v) in [("TRUE", 1), ("FALSE", 0)] {
                pool.push(Label {
                    text: t.into(),
                    value: v,
                    kind: LabelKind::Bool,
                });
            }
        }
        (sw, Some(p)) => {
            let lim = match p {
                Prim::I32 => i32::MAX as i64,
                Prim::U64 | Prim::I64 => i64::MAX,
                _ => u32::MAX as i64,
            };
            for (n, v) in &g.consts {
                if *v as i64 <= lim {
                    pool.push(Label {
                        text: n.clone(),
                        value: *v as i64,
                        kind: LabelKind::Const,
                    });
                }
            }
            if !matches!(sw, Switch::Alias(..)) {
                for e in &g.enums {
                    for (m, v, _) in &e.members {
                        pool.push(Label {
                            text: m.clone(),
                            value: *v as i64,
                            kind: LabelKind::Member,
                        });
                    }
                }
            }
            g.r.shuffle(&mut pool);
            pool.truncate(3);
            for _ in 0..6 {
                let v = match g.r.below(6) {
                    0..=3 => g.r.range(0, 12),
                    4 => g.r.range(13, 70000),
                    _ => *g.r.pick(&[lim, lim - 1, lim / 2 + 1, 0x7fff_ffff, 1 << 30]),
                };
                pool.push(Label {
                    text: v.to_string(),
                    value: v,
                    kind: LabelKind::Num,
                });
            }
        }
        _ => unreachable!(),
    }
    g.r.shuffle(&mut pool);
    let mut seen = BTreeSet::new();
    let mut texts = BTreeSet::new();
    pool.retain(|l| seen.insert(l.value) && texts.insert(l.variant()));
    pool
}

/// How big a specification to generate.
#[derive(Clone, Copy)]
pub struct Shape {
    pub enums: usize,
    pub types: usize,
    pub consts: usize,
    /// The seed of an order of all combinations, and which part of them.
    pub part: Option<(u64, usize)>,
}

impl Default for Shape {
    fn default() -> Shape {
        Shape {
            enums: 4,
            types: 26,
            consts: 8,
            part: None,
        }
    }
}

pub fn generate(r: &mut Rng, shape: Shape) -> Spec {
    let mut g = G {
        r,
        n: 0,
        named: vec![],
        consts: vec![],
        small: vec![],
        enums: vec![],
        done: vec![],
        all: vec![],
        inline: BTreeMap::new(),
        bare: BTreeSet::new(),
        allow_bare: true,
        clean: vec![],
        aliases: vec![],
    };
    let mut decls: Vec<Decl> = Vec::new();
    for i in 0..shape.consts {
        let name = g.name(&["MAX", "LIMIT", "NFS4_SIZE", "K", "intCONST", "STRUCT"]);
        let v = match i {
            0 | 1 | 2 => g.r.range(1, 9) as u32,
            3 => g.r.range(10, 40) as u32,
            4 => *g.r.pick(&[128, 256, 1000, 4096]),
            5 => *g.r.pick(&[65535, 65536, 100_000]),
            _ => *g.r.pick(&[0, 20, 0x7fff_ffff, 0xffff_ffff, 0x8000_0000]),
        };
        let hex = g.r.chance(2, 5);
        if v >= 1 && v <= 9 {
            g.small.push((name.clone(), v));
        }
        g.consts.push((name.clone(), v));
        decls.push(Decl::Const(name, v, hex));
    }
    for _ in 0..shape.enums {
        let name = g.name(&["enumerated", "Status", "nfsstat", "opcode_t"]);
        let k = 1 + g.r.idx(6);
        let mut seen = BTreeSet::new();
        let mut members = Vec::new();
        // Now and then nearly consecutive: one value elsewhere, or not in order.
        let mut near: Vec<i32> = Vec::new();
        if g.r.chance(2, 5) {
            let first = *g.r.pick(&[0, 0, 1, 3, 100, 0x7fff_fff0]);
            near = (first..first + g.r.range(3, 9) as i32).collect();
            let n = near.len();
            match g.r.below(4) {
                0 => g.r.shuffle(&mut near),
                1 => {
                    // Ends in place.
                    g.r.shuffle(&mut near[1..n - 1]);
                    if n > 3 {
                        near[1] = *g.r.pick(&[first.saturating_add(5000), i32::MAX, first + n as i32]);
                    }
                }
                2 => near[n / 2] = first + n as i32 + 1,
                _ => near.reverse(),
            }
        }
        for i in 0..if near.is_empty() { k } else { near.len() } {
            let v = if let Some(v) = near.get(i) { *v } else { match g.r.below(5) {
                0..=2 => g.r.range(0, 9) as i32,
                3 => g.r.range(10, 100_000) as i32,
                _ => *g.r.pick(&[i32::MAX, i32::MAX - 1, 10_000, 1 << 30]),
            } };
            if !seen.insert(v) {
                continue;
            }
            let m = g.name(&["OP", "ERR", "Good", "STRUCT_M", "case_M", "E"]);
            let hex = g.r.chance(1, 3);
            members.push((m, v, hex));
        }
        let e = EnumDef { name, members };
        g.inline.insert(e.name.clone(), 4);
        g.done.push(e.name.clone());
        g.enums.push(e.clone());
        decls.push(Decl::Enum(e));
    }
    // A few discriminant aliases early on.
    for _ in 0..2 {
        let name = g.name(TYPE_STEMS);
        let p = *g.r.pick(&[Prim::U32, Prim::I32, Prim::Bool, Prim::U64, Prim::I64]);
        g.inline.insert(name.clone(), 8);
        g.done.push(name.clone());
        g.aliases.push((name.clone(), p));
        decls.push(Decl::Typedef(TypedefDef {
            name,
            ty: Ty::Prim(p),
            arr: Arr::None,
        }));
    }
    let names: Vec<String> = (0..shape.types).map(|_| g.name(TYPE_STEMS)).collect();
    g.all = names.clone();
    let mut flags = BTreeMap::new();
    for n in &names {
        let b = g.r.chance(1, 3);
        flags.insert(n.clone(), b);
        if !b {
            g.clean.push(n.clone());
        }
    }
    for name in names {
        g.allow_bare = flags[&name];
        let d = match g.r.below(10) {
            0..=3 => {
                let mut fields = Vec::new();
                let mut seen = BTreeSet::new();
                let k = 1 + g.r.idx(7);
                let mut total = 0;
                for _ in 0..k {
                    let f = gen_field(&mut g, &name, &mut seen);
                    total += ty_inline(&g, &f.ty)
                        * match &f.arr {
                            Arr::Fixed(s) if f.ty != Ty::Opaque => s.n() as u64,
                            _ => 1,
                        };
                    fields.push(f);
                    if total > 600 {
                        break;
                    }
                }
                Decl::Struct(StructDef {
                    name: name.clone(),
                    fields,
                })
            }
            4..=6 => Decl::Union(gen_union(&mut g, &name)),
            _ => {
                let t = |ty, arr| TypedefDef {
                    name: name.clone(),
                    ty,
                    arr,
                };
                let d = loop {
                    match g.r.below(14) {
                        0 => break t(Ty::Prim(g.prim()), Arr::None),
                        1 => break t(Ty::Prim(g.prim()), Arr::Fixed(g.fixed())),
                        2 if g.r.chance(1, 2) => break t(Ty::Str, Arr::Var(None)),
                        2 => break t(Ty::Str, Arr::None),
                        3 => break t(Ty::Str, Arr::Var(Some(g.max()))),
                        4 => break t(Ty::Opaque, Arr::None),
                        5 => break t(Ty::Opaque, Arr::Var(None)),
                        6 => break t(Ty::Opaque, Arr::Var(Some(g.max()))),
                        7 => break t(Ty::Opaque, Arr::Fixed(g.opaque_fixed())),
                        8 | 9 => {
                            if let Some(n) = g.direct() {
                                break t(Ty::Ref(n), Arr::None);
                            }
                        }
                        10 => {
                            if let Some(n) = g.direct() {
                                if g.inline[&n] <= 120 {
                                    break t(Ty::Ref(n), Arr::Fixed(g.fixed()));
                                }
                            }
                        }
                        k => {
                            let save = g.allow_bare;
                            g.allow_bare = false;
                            let n = g.direct();
                            g.allow_bare = save;
                            if let Some(n) = n {
                                let m = if k == 11 { None } else { Some(g.max()) };
                                break t(Ty::Ref(n), Arr::Var(m));
                            }
                        }
                    }
                };
                if let (Ty::Prim(p), Arr::None) = (&d.ty, &d.arr) {
                    if !matches!(p, Prim::F32 | Prim::F64) {
                        g.aliases.push((name.clone(), *p));
                    }
                }
                Decl::Typedef(d)
            }
        };
        let (inl, bare) = measure(&g, &d);
        g.inline.insert(name.clone(), inl);
        // An optional reference may point to a type declared later, so what was
        // generated while bare opaques were allowed counts as containing one.
        if bare || g.allow_bare {
            g.bare.insert(name.clone());
        }
        g.done.push(name);
        decls.push(d);
    }
    if g.r.chance(2, 5) {
        for _ in 0..1 + g.r.below(2) {
            extra(&mut g, &mut decls);
        }
    }
    if let Some((seed, k)) = shape.part {
        combine(&mut g, &mut decls, seed, k);
    }
    g.r.shuffle(&mut decls);
    Spec::new(decls)
}

/// What stands between a type and the place it is used in.
const ARRAYS: [&str; 6] = ["", "[n]", "[C]", "<>", "<n>", "<C>"];
const SWITCHES: usize = 11;
pub const PARTS: usize = 96;

/// Every kind of type there is one name away, in every kind of place: (type,
/// array of the type that is named, place).
fn combinations() -> Vec<(usize, usize, usize)> {
    let mut v = Vec::new();
    // 0..7 primitives, 7 string, 8 opaque, 9 enum, 10 struct, 11 struct with
    // opaque data, 12 union, 13 union with opaque data, 14 typedef of a string,
    // 15 typedef of an opaque, 16 typedef of a struct, 17 typedef of an enum.
    for ty in 0..18 {
        for arr in 0..=6 {
            // 6: not through a typedef. The last ones are, twice.
            let named = arr < 6;
            if named && ty < 7 && arr > 2 || named && ty == 7 && (arr == 1 || arr == 2) {
                continue;
            }
            // 0..6 fields, 6 an optional field, 7 an arm, 8 a default arm, 9..15 typedefs.
            for place in 0..15 {
                let of = match place {
                    0..=5 => place,
                    9..=14 => place - 9,
                    6 if !named && ty < 9 => continue,
                    _ => 0,
                };
                if !named && (ty < 7 && of > 2 || ty == 7 && (of == 1 || of == 2)) {
                    continue;
                }
                // K1.
                if !named && ty == 8 && of == 0 && place < 9 {
                    continue;
                }
                v.push((ty, arr, place));
            }
        }
    }
    v
}

/// A part of all combinations, in declarations of their own.
fn combine(g: &mut G, decls: &mut Vec<Decl>, seed: u64, k: usize) {
    g.allow_bare = false;
    let mut all = combinations();
    Rng::stream(seed, &[0xc0b1, (k / PARTS) as u64]).shuffle(&mut all);
    let mut fields = vec![];
    let mut bodies = vec![];
    let mut defaults = vec![];
    let mut tops = vec![];
    let mine: Vec<_> = all.into_iter().skip(k % PARTS).step_by(PARTS).collect();
    for (ty, arr, place) in mine {
        let t = match combined_type(g, decls, ty, arr) {
            Some(t) => t,
            None => continue,
        };
        let big = ty_inline(g, &t) > 120;
        let i = g.n;
        let field = |arr, optional| Field { name: format!("f{i}"), ty: t.clone(), arr, optional };
        match place {
            0..=5 => {
                let a = array(g, ARRAYS[place], &t);
                if matches!(a, Arr::Fixed(_)) && big {
                    continue;
                }
                fields.push(field(a, false));
            }
            6 => fields.push(field(Arr::None, true)),
            7 => bodies.push(Body::Data { ty: t, field: format!("b{i}") }),
            8 => defaults.push(Body::Data { ty: t, field: format!("b{i}") }),
            _ => {
                let a = array(g, ARRAYS[place - 9], &t);
                if matches!(a, Arr::Fixed(_)) && big {
                    continue;
                }
                let name = g.name(TYPE_STEMS);
                add(g, decls, Decl::Typedef(TypedefDef { name: name.clone(), ty: t, arr: a }));
                tops.push(name);
            }
        }
        g.n += 1;
    }
    g.r.shuffle(&mut fields);
    for c in fields.chunks(5) {
        let name = g.name(&["combined", "Mixed"]);
        add(g, decls, Decl::Struct(StructDef { name: name.clone(), fields: c.to_vec() }));
        tops.push(name);
    }
    // Every switch with every kind of default.
    let p = [Prim::U32, Prim::I32, Prim::U64, Prim::I64, Prim::Bool];
    let (switch, kind) = match k % SWITCHES {
        i @ 0..=4 => (Switch::Prim(p[i]), Some(p[i])),
        i @ 5..=9 => {
            let name = g.name(TYPE_STEMS);
            add(g, decls, Decl::Typedef(TypedefDef { name: name.clone(), ty: Ty::Prim(p[i - 5]), arr: Arr::None }));
            (Switch::Alias(name, p[i - 5]), Some(p[i - 5]))
        }
        _ => (Switch::Enum(g.r.pick(&g.enums).name.clone()), None),
    };
    let pool = label_pool(g, &switch, kind);
    let mut labels = pool.into_iter().peekable();
    let mut arms = Vec::new();
    bodies.push(Body::Void);
    g.r.shuffle(&mut bodies);
    for body in bodies {
        let mut ls: Vec<Label> = labels.next().into_iter().collect();
        if ls.is_empty() {
            // No label left for it.
            defaults.push(body);
            continue;
        }
        if g.r.chance(1, 3) {
            ls.extend(labels.next());
        }
        arms.push(Arm { labels: ls, body });
    }
    let form = (k / SWITCHES) % 5;
    let tail: Vec<Label> = if form > 2 { labels.next().into_iter().collect() } else { vec![] };
    let var = format!("sel{}", g.n);
    let mut more = defaults.split_off(defaults.len().min(1));
    let first = match (form, defaults.pop()) {
        (0, d) => {
            more.extend(d);
            None
        }
        (1 | 3, d) => {
            more.extend(d);
            Some((tail, Body::Void))
        }
        (_, d) => Some((tail, d.unwrap_or_else(|| gen_body(g)))),
    };
    let name = g.name(TYPE_STEMS);
    add(g, decls, Decl::Union(UnionDef { name: name.clone(), switch, var, arms, default: first }));
    tops.push(name);
    for d in more {
        let e = g.r.pick(&g.enums).clone();
        let m = e.members[0].clone();
        let arm = Arm {
            labels: vec![Label { text: m.0, value: m.1 as i64, kind: LabelKind::Member }],
            body: gen_body(g),
        };
        let name = g.name(TYPE_STEMS);
        let var = format!("sel{}", g.n);
        let u = UnionDef { name: name.clone(), switch: Switch::Enum(e.name), var, arms: vec![arm], default: Some((vec![], d)) };
        add(g, decls, Decl::Union(u));
        tops.push(name);
    }
    // Whatever it is, in counted arrays and at other places than the front.
    let name = g.name(&["holder", "Held"]);
    let mut fields = vec![];
    for (i, t) in tops.into_iter().enumerate() {
        let (arr, optional) = match g.r.below(5) {
            0 => (Arr::None, false),
            1 => (Arr::None, true),
            2 => (Arr::Var(Some(g.max())), false),
            _ => (Arr::Var(None), false),
        };
        fields.push(Field { name: format!("t{i}"), ty: Ty::Ref(t), arr, optional });
    }
    fields.push(Field { name: "last".into(), ty: Ty::Prim(Prim::U32), arr: Arr::None, optional: false });
    decls.push(Decl::Struct(StructDef { name, fields }));
}

fn add(g: &mut G, decls: &mut Vec<Decl>, d: Decl) {
    let (inl, _) = measure(g, &d);
    g.inline.insert(d.name().to_string(), inl);
    decls.push(d);
}

fn array(g: &mut G, a: &str, t: &Ty) -> Arr {
    let size = |g: &mut G, named: bool| loop {
        let s = if *t == Ty::Opaque { g.opaque_fixed() } else { g.fixed() };
        if g.small.is_empty() || matches!(s, Size::Const(..)) == named {
            return s;
        }
    };
    let max = |g: &mut G, named: bool| loop {
        let s = g.max();
        if g.consts.is_empty() || matches!(s, Size::Const(..)) == named {
            return s;
        }
    };
    match a {
        "[n]" => Arr::Fixed(size(g, false)),
        "[C]" => Arr::Fixed(size(g, true)),
        "<>" => Arr::Var(None),
        "<n>" => Arr::Var(Some(max(g, false))),
        "<C>" => Arr::Var(Some(max(g, true))),
        _ => Arr::None,
    }
}

/// A type of the kind asked for, declared when there is none.
fn combined_type(g: &mut G, decls: &mut Vec<Decl>, ty: usize, arr: usize) -> Option<Ty> {
    const P: [Prim; 7] = [Prim::U32, Prim::I32, Prim::U64, Prim::I64, Prim::F32, Prim::F64, Prim::Bool];
    let typedef = |g: &mut G, decls: &mut Vec<Decl>, ty: Ty, a: &str| {
        let name = g.name(TYPE_STEMS);
        let arr = array(g, a, &ty);
        add(g, decls, Decl::Typedef(TypedefDef { name: name.clone(), ty, arr }));
        Ty::Ref(name)
    };
    let t = match ty {
        0..=6 => Ty::Prim(P[ty]),
        7 => Ty::Str,
        8 => Ty::Opaque,
        9 => Ty::Ref(g.r.pick(&g.enums).name.clone()),
        10..=13 => {
            let s = Spec::new(decls.clone());
            let c: Vec<String> = g
                .done
                .iter()
                .filter(|n| g.inline[*n] <= 100 && !g.bare.contains(*n) && s.generic.contains(*n) == (ty % 2 == 1))
                .filter(|n| match s.get(n) {
                    Decl::Struct(_) => ty < 12,
                    Decl::Union(_) => ty > 11,
                    _ => false,
                })
                .cloned()
                .collect();
            if !c.is_empty() {
                Ty::Ref(g.r.pick(&c).clone())
            } else {
                let name = g.name(TYPE_STEMS);
                let inner = if ty % 2 == 1 { typedef(g, decls, Ty::Opaque, "<>") } else { Ty::Str };
                let d = if ty < 12 {
                    let fields = vec![
                        Field { name: "head".into(), ty: inner, arr: Arr::None, optional: false },
                        Field { name: "n".into(), ty: Ty::Prim(Prim::U32), arr: Arr::None, optional: false },
                    ];
                    Decl::Struct(StructDef { name: name.clone(), fields })
                } else {
                    let label = Label { text: "1".into(), value: 1, kind: LabelKind::Num };
                    let body = Body::Data { ty: inner, field: "x".into() };
                    Decl::Union(UnionDef {
                        name: name.clone(),
                        switch: Switch::Prim(Prim::U32),
                        var: "d".into(),
                        arms: vec![Arm { labels: vec![label], body }],
                        default: Some((vec![], Body::Void)),
                    })
                };
                add(g, decls, d);
                g.done.push(name.clone());
                Ty::Ref(name)
            }
        }
        14 => typedef(g, decls, Ty::Str, ["", "<>", "<n>", "<C>"][arr % 4]),
        15 => {
            let a = ARRAYS[g.r.idx(6)];
            typedef(g, decls, Ty::Opaque, a)
        }
        16 => {
            let inner = combined_type(g, decls, 10 + arr % 4, 6)?;
            typedef(g, decls, inner, "")
        }
        _ => {
            let inner = combined_type(g, decls, 9, 6)?;
            let a = ARRAYS[g.r.idx(6)];
            typedef(g, decls, inner, a)
        }
    };
    if arr == 6 {
        return Some(t);
    }
    if ty_inline(g, &t) > 120 && (arr == 1 || arr == 2) {
        return None;
    }
    Some(typedef(g, decls, t, ARRAYS[arr]))
}

/// Declarations that are unusual for their size. Nothing generated before
/// refers to them, so values nest no deeper than otherwise.
fn extra(g: &mut G, decls: &mut Vec<Decl>) {
    g.allow_bare = false;
    let lit = |n| Arr::Fixed(Size::Lit(n));
    let field = |name: &str, ty: Ty, arr: Arr, optional: bool| Field {
        name: name.into(),
        ty,
        arr,
        optional,
    };
    // Something to hold whatever is declared.
    let mut tops: Vec<String> = Vec::new();
    match g.r.below(6) {
        0 => {
            // Many members, and a union that tells them apart.
            let name = g.name(&["Wide", "nfs_opnum4", "errno"]);
            let k = *g.r.pick(&[17, 33, 40, 70, 130, 260]);
            let dense = g.r.chance(1, 2);
            let first = *g.r.pick(&[0, 1, 2, 100, 250, 65_500, 0x7fff_fe00]);
            let mut v = first;
            let mut members = Vec::new();
            for i in 0..k {
                let m = if g.r.chance(1, 20) { format!("M_{}_{}_{}", "x".repeat(120), i, g.n) } else { format!("M{}_{}", i, g.n) };
                members.push((m, v, g.r.chance(1, 4)));
                v += if dense || g.r.chance(1, 2) { 1 } else { g.r.range(1, 3) as i32 };
                if v > 0x7fff_fff0 {
                    break;
                }
            }
            let e = EnumDef { name: name.clone(), members };
            g.enums.push(e.clone());
            decls.push(Decl::Enum(e));
            g.inline.insert(name.clone(), 4);
            let u = g.name(TYPE_STEMS);
            for _ in 0..400 {
                let d = gen_union(g, &u);
                if matches!(&d.switch, Switch::Enum(e) if *e == name) {
                    decls.push(Decl::Union(d));
                    g.inline.insert(u.clone(), 400);
                    tops.push(u);
                    break;
                }
            }
            g.enums.pop();
            tops.push(name);
        }
        1 => {
            // Many fields.
            let name = g.name(&["wide", "fattr_all", "Everything"]);
            let mut fields = Vec::new();
            let mut seen = BTreeSet::new();
            let me = g.r.pick(&g.enums).name.clone();
            for _ in 0..*g.r.pick(&[16, 20, 33, 48]) {
                fields.push(gen_field(g, &me, &mut seen));
            }
            decls.push(Decl::Struct(StructDef { name: name.clone(), fields }));
            tops.push(name);
        }
        2 => {
            // Names for names.
            let mut ty = match g.r.below(8) {
                0 => Ty::Str,
                1 | 2 | 3 => Ty::Opaque,
                4 => Ty::Prim(g.prim()),
                _ => match g.direct() {
                    Some(n) => Ty::Ref(n),
                    None => Ty::Str,
                },
            };
            let mut arr = match (&ty, g.r.below(4)) {
                (Ty::Opaque, 0) => Arr::Fixed(g.opaque_fixed()),
                (Ty::Prim(_), 0) => Arr::Fixed(g.fixed()),
                (Ty::Prim(_), _) => Arr::None,
                (Ty::Ref(_), 0 | 1) => Arr::None,
                (_, 1) => Arr::Var(None),
                _ => Arr::Var(Some(g.max())),
            };
            let n = *g.r.pick(&[3, 5, 9, 12, 20]);
            for i in 0..n {
                let name = g.name(TYPE_STEMS);
                g.inline.insert(name.clone(), 24);
                decls.push(Decl::Typedef(TypedefDef { name: name.clone(), ty, arr }));
                if g.r.chance(1, 4) || i + 1 == n {
                    tops.push(name.clone());
                }
                ty = Ty::Ref(name);
                arr = match g.r.below(12) {
                    0 => lit(2),
                    1 => Arr::Var(None),
                    2 => Arr::Var(Some(g.max())),
                    _ => Arr::None,
                };
                if i > 8 && arr != Arr::None {
                    arr = Arr::None;
                }
            }
        }
        3 => {
            // Long arrays.
            let name = g.name(&["long_arrays", "Blocks"]);
            let n = *g.r.pick(&[17, 32, 33, 64, 100]);
            let m = *g.r.pick(&[31, 32, 33, 64, 127, 255, 256, 257, 1000, 4095, 4096, 4097, 65_535, 65_536, 65_537]);
            let p = g.prim();
            let mut fields = vec![
                field("p", Ty::Prim(p), lit(n), false),
                field("o", Ty::Opaque, lit(m), false),
                field("tail", Ty::Prim(Prim::U32), Arr::None, false),
            ];
            if g.r.chance(1, 2) {
                fields.swap(0, 1);
            }
            if let Some(t) = g.direct() {
                if g.inline[&t] <= 40 {
                    fields.push(field("t", Ty::Ref(t), lit(*g.r.pick(&[10, 16, 17])), false));
                }
            }
            decls.push(Decl::Struct(StructDef { name: name.clone(), fields }));
            tops.push(name);
        }
        4 => {
            // Many arms.
            let name = g.name(&["manyarms", "argop_u"]);
            let k = *g.r.pick(&[18, 33, 65]);
            let first = *g.r.pick(&[0, 1, 9, 60, 128, 250, 65_530]);
            let mut labels: Vec<i64> = (0..k).map(|i| first + i * if i % 7 == 0 { 1 } else { 2 }).collect();
            labels.sort();
            labels.dedup();
            g.r.shuffle(&mut labels);
            let mut arms: Vec<Arm> = Vec::new();
            for v in labels {
                let l = Label { text: v.to_string(), value: v, kind: LabelKind::Num };
                match arms.last_mut() {
                    Some(a) if a.labels.len() < 13 && g.r.chance(1, 2) => a.labels.push(l),
                    _ => {
                        let body = gen_body(g);
                        arms.push(Arm { labels: vec![l], body });
                    }
                }
            }
            let default = if g.r.chance(1, 2) { Some((vec![], gen_body(g))) } else { None };
            let p = *g.r.pick(&[Prim::U32, Prim::I32, Prim::U64]);
            decls.push(Decl::Union(UnionDef {
                name: name.clone(),
                switch: Switch::Prim(p),
                var: "op".into(),
                arms,
                default,
            }));
            tops.push(name);
        }
        _ => {
            // Structs in structs in structs.
            let mut inner = match g.direct() {
                Some(n) if g.inline[&n] <= 100 => n,
                _ => g.r.pick(&g.enums).name.clone(),
            };
            for i in 0..*g.r.pick(&[4, 8, 12]) {
                let name = g.name(&["level", "Layer"]);
                let mut fields = vec![field("inner", Ty::Ref(inner), Arr::None, false)];
                let f = match i % 3 {
                    0 => field("o", Ty::Opaque, Arr::Var(Some(g.max())), false),
                    1 => field("s", Ty::Str, Arr::Var(Some(g.max())), false),
                    _ => field("h", Ty::Prim(Prim::I64), Arr::None, false),
                };
                let at = g.r.idx(2);
                fields.insert(at, f);
                decls.push(Decl::Struct(StructDef { name: name.clone(), fields }));
                inner = name;
            }
            tops.push(inner);
        }
    }
    let name = g.name(&["holder", "Held"]);
    let mut fields = vec![field("first", Ty::Prim(Prim::U32), Arr::None, false)];
    for (i, t) in tops.into_iter().take(4).enumerate() {
        let (arr, opt) = match g.r.below(4) {
            0 => (Arr::None, false),
            1 => (Arr::None, true),
            2 => (Arr::Var(Some(g.max())), false),
            _ => (Arr::Var(None), false),
        };
        fields.push(field(&format!("t{i}"), Ty::Ref(t), arr, opt));
    }
    fields.push(field("last", Ty::Prim(Prim::U32), Arr::None, false));
    decls.push(Decl::Struct(StructDef { name, fields }));
}

fn measure(g: &G, d: &Decl) -> (u64, bool) {
    let isb = |t: &Ty| matches!(t, Ty::Ref(n) if g.bare.contains(n));
    match d {
        Decl::Struct(s) => {
            let mut n = 0;
            let mut b = false;
            for f in &s.fields {
                let one = if f.optional { 8 } else { ty_inline(g, &f.ty) };
                n += match &f.arr {
                    Arr::Fixed(s) if f.ty != Ty::Opaque => one * s.n() as u64,
                    Arr::Var(_) => 24,
                    _ => one,
                };
                b |= isb(&f.ty) || (f.ty == Ty::Opaque && f.arr == Arr::None);
            }
            (n, b)
        }
        Decl::Union(u) => {
            let mut n = 0;
            let mut b = false;
            for body in u
                .arms
                .iter()
                .map(|a| &a.body)
                .chain(u.default.iter().map(|d| &d.1))
            {
                if let Body::Data { ty, .. } = body {
                    n = n.max(ty_inline(g, ty));
                    b |= isb(ty) || *ty == Ty::Opaque;
                }
            }
            (n + 8, b)
        }
        Decl::Typedef(t) => {
            let one = ty_inline(g, &t.ty);
            (
                match &t.arr {
                    Arr::Fixed(s) if t.ty != Ty::Opaque => one * s.n() as u64,
                    Arr::Var(_) => 24,
                    Arr::None | Arr::Fixed(_) => one,
                },
                isb(&t.ty),
            )
        }
        _ => (4, false),
    }
}
