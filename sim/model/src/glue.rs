//! Rust glue that reads a generated module's values back into `Val`s.

use crate::spec::*;
use std::fmt::Write;

/// The documented escape of reserved words used as field names.
pub fn field_name(n: &str) -> String {
    match n {
        "as" | "async" | "await" | "break" | "const" | "continue" | "crate" | "dyn" | "else"
        | "enum" | "extern" | "false" | "fn" | "for" | "if" | "impl" | "in" | "let" | "loop"
        | "match" | "mod" | "move" | "mut" | "pub" | "ref" | "return" | "Self" | "self"
        | "static" | "struct" | "super" | "trait" | "true" | "type" | "union" | "unsafe"
        | "use" | "where" | "while" => format!("{n}_v"),
        _ => n.to_string(),
    }
}

pub fn rust_type(s: &Spec, n: &str) -> String {
    if s.generic.contains(n) {
        format!("xdr::{n}<Bytes>")
    } else {
        format!("xdr::{n}")
    }
}

pub fn glue(s: &Spec, gen_file: &str) -> String {
    let mut o = String::new();
    let w = &mut o;
    writeln!(w, "#![allow(warnings)]").unwrap();
    writeln!(w, "use simrt::glue::*;").unwrap();
    writeln!(w, "mod gen {{ include!({gen_file:?}); }}").unwrap();
    writeln!(w, "use gen::xdr;").unwrap();
    writeln!(w, "simrt::module_glue!(xdr);").unwrap();
    for d in s.types() {
        let t = rust_type(s, d.name());
        let x = d.name();
        writeln!(w, "impl ToVal for {t} {{ fn to_val(&self) -> Val {{").unwrap();
        match d {
            Decl::Const(..) => unreachable!(),
            Decl::Enum(e) => {
                writeln!(w, "match self {{").unwrap();
                for (m, _, _) in &e.members {
                    writeln!(w, "xdr::{x}::{m} => Val::Enum({m:?}.to_string()),").unwrap();
                }
                writeln!(w, "}}").unwrap();
            }
            Decl::Struct(st) => {
                writeln!(w, "Val::Struct(vec![").unwrap();
                for f in &st.fields {
                    writeln!(w, "self.{}.to_val(),", field_name(&f.name)).unwrap();
                }
                writeln!(w, "])").unwrap();
            }
            Decl::Union(u) => {
                writeln!(w, "match self {{").unwrap();
                let mut arm = |var: &str, b: &Body| match b {
                    Body::Void => writeln!(
                        w,
                        "xdr::{x}::{var} => Val::Union({var:?}.to_string(), 0, None),"
                    )
                    .unwrap(),
                    Body::Data { .. } => writeln!(
                        w,
                        "xdr::{x}::{var}(i) => Val::Union({var:?}.to_string(), 0, Some(Box::new(i.to_val()))),"
                    )
                    .unwrap(),
                };
                for a in &u.arms {
                    for l in &a.labels {
                        arm(&l.variant(), &a.body);
                    }
                }
                if let Some((ls, b)) = &u.default {
                    if *b == Body::Void {
                        for l in ls {
                            arm(&l.variant(), b);
                        }
                    }
                    arm("default", b);
                }
                writeln!(w, "_ => Val::Union(\"?undeclared variant\".to_string(), 0, None),").unwrap();
                writeln!(w, "}}").unwrap();
            }
            Decl::Typedef(_) => writeln!(w, "self.0.to_val()").unwrap(),
        }
        writeln!(w, "}} }}").unwrap();
    }
    writeln!(w, "pub fn table() -> Vec<TypeOps> {{ vec![").unwrap();
    for d in s.types() {
        writeln!(w, "ops::<{}>({:?}),", rust_type(s, d.name()), d.name()).unwrap();
    }
    writeln!(w, "] }}").unwrap();
    o
}
