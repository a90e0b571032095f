//! Printing a specification: first a token list per declaration (fixing every
//! spelling), then a layout of the tokens. Two layouts of one token list are
//! the same declarations.

use crate::rng::Rng;
use crate::spec::*;

#[derive(Clone, Debug, PartialEq)]
pub struct Tok {
    pub s: String,
}

fn word(s: &str) -> bool {
    s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')
}

/// fastxdr's grammar wants white space right after these.
fn needs_ws(s: &str) -> bool {
    matches!(
        s,
        "int" | "hyper" | "unsigned" | "float" | "double" | "string" | "opaque"
    )
}

fn prim(p: Prim, r: &mut Rng, out: &mut Vec<String>) {
    let opts: &[&[&str]] = match p {
        Prim::U32 => &[&["unsigned", "int"], &["uint32_t"], &["u32"], &["unsigned"]],
        Prim::I32 => &[&["int"], &["int32_t"], &["i32"]],
        Prim::U64 => &[&["unsigned", "hyper"], &["uint64_t"], &["u64"]],
        Prim::I64 => &[&["hyper"], &["int64_t"], &["i64"]],
        Prim::F32 => &[&["float"]],
        Prim::F64 => &[&["double"]],
        Prim::Bool => &[&["bool"]],
    };
    for w in *r.pick(opts) {
        out.push(w.to_string());
    }
}

fn ty(t: &Ty, r: &mut Rng, out: &mut Vec<String>) {
    match t {
        Ty::Prim(p) => prim(*p, r, out),
        Ty::Str => out.push("string".into()),
        Ty::Opaque => out.push("opaque".into()),
        Ty::Ref(n) => out.push(n.clone()),
    }
}

fn size(s: &Size) -> String {
    match s {
        Size::Lit(n) => n.to_string(),
        Size::Const(n, _) => n.clone(),
    }
}

fn arr(a: &Arr, out: &mut Vec<String>) {
    match a {
        Arr::None => {}
        Arr::Fixed(s) => out.extend(["[".into(), size(s), "]".into()]),
        Arr::Var(None) => out.extend(["<".into(), ">".into()]),
        Arr::Var(Some(s)) => out.extend(["<".into(), size(s), ">".into()]),
    }
}

fn num(v: u32, hex: bool, r: &mut Rng) -> String {
    if hex {
        if r.chance(1, 2) {
            format!("0x{:X}", v)
        } else {
            format!("0x{:04x}", v)
        }
    } else {
        v.to_string()
    }
}

fn body(b: &Body, r: &mut Rng, out: &mut Vec<String>) {
    match b {
        Body::Void => out.push("void".into()),
        Body::Data { ty: t, field } => {
            ty(t, r, out);
            out.push(field.clone());
        }
    }
    out.push(";".into());
}

pub fn tokens(d: &Decl, r: &mut Rng) -> Vec<Tok> {
    let mut o: Vec<String> = Vec::new();
    macro_rules! p { ($($e:expr),*) => {{ $( o.push($e.to_string()); )* }} }
    match d {
        Decl::Const(n, v, hex) => p!("const", n, "=", num(*v, *hex, r), ";"),
        Decl::Enum(e) => {
            p!("enum", e.name, "{");
            for (i, (m, v, hex)) in e.members.iter().enumerate() {
                if i > 0 {
                    p!(",");
                }
                p!(m, "=", num(*v as u32, *hex, r));
            }
            p!("}", ";");
        }
        Decl::Struct(s) => {
            p!("struct", s.name, "{");
            for f in &s.fields {
                ty(&f.ty, r, &mut o);
                if f.optional {
                    p!("*");
                }
                p!(f.name);
                arr(&f.arr, &mut o);
                p!(";");
            }
            p!("}", ";");
        }
        Decl::Union(u) => {
            p!("union", u.name, "switch", "(");
            match &u.switch {
                Switch::Prim(q) => prim(*q, r, &mut o),
                Switch::Alias(n, _) | Switch::Enum(n) => p!(n),
            }
            p!(u.var, ")", "{");
            // The default arm mostly stands last, but need not.
            let at = if r.chance(1, 3) { r.idx(u.arms.len() + 1) } else { u.arms.len() };
            for i in 0..=u.arms.len() {
                if i == at {
                    if let Some((ls, b)) = &u.default {
                        for l in ls {
                            p!("case", l.text, ":");
                        }
                        p!("default", ":");
                        body(b, r, &mut o);
                    }
                }
                if let Some(a) = u.arms.get(i) {
                    for l in &a.labels {
                        p!("case", l.text, ":");
                    }
                    body(&a.body, r, &mut o);
                }
            }
            p!("}", ";");
        }
        Decl::Typedef(t) => {
            p!("typedef");
            ty(&t.ty, r, &mut o);
            p!(t.name);
            arr(&t.arr, &mut o);
            p!(";");
        }
    }
    o.into_iter().map(|s| Tok { s }).collect()
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Layout {
    /// One declaration per line, single spaces.
    Plain,
    /// As few separators as the grammar allows.
    Tight,
    /// Random whitespace (incl. tabs, CR LF, blank lines).
    Space,
    /// Random whitespace and whitespace-delimited comments.
    Comments,
}

const COMMENT_TEXT: &[&str] = &[
    "",
    "c",
    "x = 1;",
    "struct ghost { int a; };",
    "const GHOST_C = 9;",
    "// nested short",
    "\"quoted\" 'q'",
    "a * b ** c",
    "*",
    "/",
    "/ * not nested",
    "/* opened twice",
    "case 1: void; default: void;",
    "} ; { < > [ ]",
    "unsigned int",
    "gr\u{fc}\u{df}e \u{2028} \u{1f980}",
    "TRUE FALSE opaque<>",
    "enum ghost { G = 0x1 };",
    "\u{a0}nbsp",
    "trailing backslash \\",
    "see https://example.org/x//y",
    "%#include <rpc/rpc.h>",
    "'",
];

fn comment(r: &mut Rng) -> String {
    let t = *r.pick(COMMENT_TEXT);
    match r.below(4) {
        0 => format!("// {}{}", t, r.pick(&["\n", "\r\n", "\r"])),
        1 => format!("/*{}*/", if t.ends_with('/') { "s" } else { t }),
        2 => format!("/* {}\n * {} */", t, r.pick(COMMENT_TEXT)),
        _ => format!("/** {} **/", t),
    }
}

fn ws(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..1 + r.below(3) {
        s.push_str(r.pick(&[" ", " ", " ", "\t", "\n", "\r\n", "   ", "\n\n", "\r"]));
    }
    s
}

/// Lay out the token lists.
pub fn layout(decls: &[Vec<Tok>], l: Layout, r: &mut Rng) -> String {
    let mut out = String::new();
    let mut prev: Option<&str> = None;
    if l == Layout::Comments && r.chance(1, 2) {
        out.push_str(&comment(r));
        out.push_str(&ws(r));
    }
    for (di, d) in decls.iter().enumerate() {
        if di > 0 {
            match l {
                Layout::Plain => out.push('\n'),
                Layout::Tight => {}
                _ => out.push_str(&ws(r)),
            }
        }
        for t in d {
            if let Some(p) = prev {
                let must = (word(p) && word(&t.s)) || needs_ws(p);
                match l {
                    Layout::Plain => {
                        let glue = matches!(t.s.as_str(), ";" | "," | ":" | "]" | ">" | "[" | "<")
                            || matches!(p, "[" | "<" | "*" | ";");
                        if must || !glue {
                            out.push(' ');
                        }
                        if matches!(p, "{") || (p == ";" && t.s != "}") {
                            out.push_str("\n    ");
                        }
                    }
                    Layout::Tight => {
                        if must {
                            out.push(' ');
                        }
                    }
                    Layout::Space => {
                        if must || r.chance(1, 2) {
                            out.push_str(&ws(r));
                        }
                    }
                    Layout::Comments => {
                        if r.chance(1, 4) {
                            for _ in 0..1 + r.below(2) {
                                out.push_str(&ws(r));
                                out.push_str(&comment(r));
                            }
                            out.push_str(&ws(r));
                        } else if must || r.chance(1, 2) {
                            out.push_str(&ws(r));
                        }
                    }
                }
            }
            out.push_str(&t.s);
            prev = Some(&t.s);
        }
    }
    match l {
        Layout::Plain => out.push('\n'),
        Layout::Tight => {}
        Layout::Space => out.push_str(&ws(r)),
        Layout::Comments => {
            out.push_str(&ws(r));
            out.push_str(&comment(r));
            if r.chance(1, 2) {
                out.push_str(&ws(r));
            }
        }
    }
    out
}

pub fn token_lists(s: &Spec, r: &mut Rng) -> Vec<Vec<Tok>> {
    s.decls.iter().map(|d| tokens(d, r)).collect()
}
