//! The declaration model: what an XDR specification declares, independent of
//! fastxdr's own AST.

use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Prim {
    U32,
    I32,
    U64,
    I64,
    F32,
    F64,
    Bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Size {
    Lit(u32),
    Const(String, u32),
}

impl Size {
    pub fn n(&self) -> u32 {
        match self {
            Size::Lit(n) | Size::Const(_, n) => *n,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Prim(Prim),
    Str,
    Opaque,
    Ref(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Arr {
    None,
    Fixed(Size),
    Var(Option<Size>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Field {
    pub name: String,
    pub ty: Ty,
    pub arr: Arr,
    pub optional: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct EnumDef {
    pub name: String,
    /// (member, value, printed as hex)
    pub members: Vec<(String, i32, bool)>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct StructDef {
    pub name: String,
    pub fields: Vec<Field>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Switch {
    Prim(Prim),
    /// The switch type is written as this typedef of a primitive.
    Alias(String, Prim),
    Enum(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum LabelKind {
    Num,
    Const,
    Member,
    Bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Label {
    /// As written after `case`.
    pub text: String,
    pub value: i64,
    pub kind: LabelKind,
}

impl Label {
    /// The documented variant name.
    pub fn variant(&self) -> String {
        if self.text.starts_with(|c: char| c.is_ascii_digit()) {
            format!("v_{}", self.text)
        } else {
            self.text.clone()
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Body {
    Void,
    Data { ty: Ty, field: String },
}

#[derive(Clone, Debug, PartialEq)]
pub struct Arm {
    pub labels: Vec<Label>,
    pub body: Body,
}

#[derive(Clone, Debug, PartialEq)]
pub struct UnionDef {
    pub name: String,
    pub switch: Switch,
    pub var: String,
    pub arms: Vec<Arm>,
    /// Labels that fall through into the default arm, and the default arm.
    pub default: Option<(Vec<Label>, Body)>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct TypedefDef {
    pub name: String,
    pub ty: Ty,
    pub arr: Arr,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Decl {
    Const(String, u32, bool),
    Enum(EnumDef),
    Struct(StructDef),
    Union(UnionDef),
    Typedef(TypedefDef),
}

impl Decl {
    pub fn name(&self) -> &str {
        match self {
            Decl::Const(n, _, _) => n,
            Decl::Enum(e) => &e.name,
            Decl::Struct(s) => &s.name,
            Decl::Union(u) => &u.name,
            Decl::Typedef(t) => &t.name,
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Spec {
    /// In the order they are printed.
    pub decls: Vec<Decl>,
    pub index: BTreeMap<String, usize>,
    /// Names of types from which opaque data is reachable.
    pub generic: BTreeSet<String>,
}

impl Spec {
    pub fn new(decls: Vec<Decl>) -> Spec {
        let mut s = Spec {
            decls,
            ..Default::default()
        };
        s.reindex();
        s
    }

    pub fn reindex(&mut self) {
        self.index = self
            .decls
            .iter()
            .enumerate()
            .map(|(i, d)| (d.name().to_string(), i))
            .collect();
        self.generic.clear();
        loop {
            let mut add = Vec::new();
            for d in &self.decls {
                if self.generic.contains(d.name()) {
                    continue;
                }
                let hit = |t: &Ty| match t {
                    Ty::Opaque => true,
                    Ty::Ref(n) => self.generic.contains(n),
                    _ => false,
                };
                let yes = match d {
                    Decl::Struct(s) => s.fields.iter().any(|f| hit(&f.ty)),
                    Decl::Union(u) => u
                        .arms
                        .iter()
                        .map(|a| &a.body)
                        .chain(u.default.iter().map(|d| &d.1))
                        .any(|b| matches!(b, Body::Data { ty, .. } if hit(ty))),
                    Decl::Typedef(t) => hit(&t.ty),
                    _ => false,
                };
                if yes {
                    add.push(d.name().to_string());
                }
            }
            if add.is_empty() {
                break;
            }
            self.generic.extend(add);
        }
    }

    pub fn get(&self, n: &str) -> &Decl {
        &self.decls[*self.index.get(n).unwrap_or_else(|| panic!("no decl {n}"))]
    }

    /// The declared types (everything but constants), in name order: this is
    /// the numbering used by plans and by the generated glue.
    pub fn types(&self) -> Vec<&Decl> {
        self.index
            .values()
            .map(|i| &self.decls[*i])
            .filter(|d| !matches!(d, Decl::Const(..)))
            .collect()
    }
}
