//! Fixed specifications, and the numbering of all specifications of a check.

use crate::print::{layout, token_lists, Layout};
use crate::rng::Rng;
use crate::spec::*;
use crate::specgen;

/// A directory-service protocol: lists, handles, reference to later
/// declarations, every kind of counted thing.
pub const GENERAL: usize = 0;
/// Counted arrays of elements that hold a bare inline `opaque` (K1).
pub const BARE: usize = 1;
/// Declarations whose encodings are empty (no bytes stand behind a count of
/// them): decoders of these are asked only to come to an end.
pub const HOLLOW: usize = 2;
pub const NCURATED: usize = 3;

fn f(ty: Ty, name: &str, arr: Arr) -> Field {
    Field {
        name: name.into(),
        ty,
        arr,
        optional: false,
    }
}
fn opt(ty: &str, name: &str) -> Field {
    Field {
        name: name.into(),
        ty: Ty::Ref(ty.into()),
        arr: Arr::None,
        optional: true,
    }
}
fn r(n: &str) -> Ty {
    Ty::Ref(n.into())
}
fn lit(n: u32) -> Arr {
    Arr::Var(Some(Size::Lit(n)))
}
fn con(n: &str, v: u32) -> Arr {
    Arr::Var(Some(Size::Const(n.into(), v)))
}
const ANY: Arr = Arr::Var(None);
fn st(name: &str, fields: Vec<Field>) -> Decl {
    Decl::Struct(StructDef {
        name: name.into(),
        fields,
    })
}
fn td(ty: Ty, name: &str, arr: Arr) -> Decl {
    Decl::Typedef(TypedefDef {
        name: name.into(),
        ty,
        arr,
    })
}
fn en(name: &str, m: &[(&str, i32)]) -> Decl {
    Decl::Enum(EnumDef {
        name: name.into(),
        members: m.iter().map(|(n, v)| (n.to_string(), *v, *v > 15)).collect(),
    })
}
fn lab(t: &str, v: i64, k: LabelKind) -> Label {
    Label {
        text: t.into(),
        value: v,
        kind: k,
    }
}
fn data(ty: Ty) -> Body {
    Body::Data {
        ty,
        field: "body".into(),
    }
}
fn arm(labels: Vec<Label>, body: Body) -> Arm {
    Arm { labels, body }
}
fn un(name: &str, switch: Switch, arms: Vec<Arm>, default: Option<(Vec<Label>, Body)>) -> Decl {
    Decl::Union(UnionDef {
        name: name.into(),
        switch,
        var: "which".into(),
        arms,
        default,
    })
}

fn general() -> Spec {
    use LabelKind::*;
    let u32_ = Ty::Prim(Prim::U32);
    Spec::new(vec![
        // Used before it is declared.
        st(
            "reply",
            vec![
                f(r("handle"), "fh", Arr::None),
                opt("entry", "entries"),
                f(Ty::Prim(Prim::Bool), "eof", Arr::None),
                f(r("result"), "results", con("MAX_RESULTS", 6)),
            ],
        ),
        Decl::Const("MAX_RESULTS".into(), 6, false),
        Decl::Const("HANDLE_SIZE".into(), 64, true),
        Decl::Const("VERIFIER".into(), 8, false),
        Decl::Const("PROC_NULL".into(), 0, false),
        Decl::Const("PROC_READ".into(), 6, false),
        st("link", vec![f(u32_.clone(), "v", Arr::None), opt("link", "next")]),
        st(
            "entry",
            vec![
                f(Ty::Prim(Prim::U64), "fileid", Arr::None),
                f(r("component"), "name", Arr::None),
                f(r("handle"), "fh", Arr::None),
                opt("entry", "next"),
            ],
        ),
        td(Ty::Opaque, "handle", con("HANDLE_SIZE", 64)),
        td(Ty::Opaque, "verifier", Arr::Fixed(Size::Const("VERIFIER".into(), 8))),
        td(Ty::Str, "component", lit(255)),
        td(r("component"), "pathname", ANY),
        td(r("handle"), "handles", lit(16)),
        td(r("pathname"), "paths", lit(3)),
        td(r("paths"), "forest", ANY),
        td(Ty::Prim(Prim::U32), "count4", Arr::None),
        td(r("count4"), "bitmap", ANY),
        en("status", &[("OK", 0), ("PERM", 1), ("NOENT", 2), ("STALE", 70), ("BIG", i32::MAX)]),
        st(
            "timeval",
            vec![
                f(Ty::Prim(Prim::I64), "sec", Arr::None),
                f(Ty::Prim(Prim::U32), "nsec", Arr::None),
            ],
        ),
        st(
            "attrs",
            vec![
                f(r("bitmap"), "mask", Arr::None),
                f(Ty::Opaque, "vals", ANY),
                f(r("timeval"), "times", Arr::Fixed(Size::Lit(3))),
                f(Ty::Prim(Prim::F64), "load", Arr::None),
                f(Ty::Prim(Prim::F32), "ratio", Arr::Fixed(Size::Lit(2))),
                f(Ty::Str, "owner", lit(9)),
                f(Ty::Opaque, "digest", Arr::Fixed(Size::Lit(5))),
                opt("attrs", "prev"),
            ],
        ),
        un(
            "result",
            Switch::Enum("status".into()),
            vec![
                arm(vec![lab("OK", 0, Member)], data(r("attrs"))),
                arm(
                    vec![lab("PERM", 1, Member), lab("NOENT", 2, Member)],
                    Body::Void,
                ),
                arm(vec![lab("STALE", 70, Member)], data(r("handles"))),
            ],
            None,
        ),
        un(
            "call",
            Switch::Prim(Prim::U32),
            vec![
                arm(vec![lab("PROC_NULL", 0, Const)], Body::Void),
                arm(
                    vec![lab("PROC_READ", 6, Const), lab("7", 7, Num)],
                    data(r("handle")),
                ),
                arm(vec![lab("4294967295", 4294967295, Num)], data(r("forest"))),
            ],
            Some((vec![lab("9", 9, Num)], data(Ty::Str))),
        ),
        un(
            "maybe",
            Switch::Prim(Prim::Bool),
            vec![
                arm(vec![lab("TRUE", 1, Bool)], data(r("verifier"))),
                arm(vec![lab("FALSE", 0, Bool)], Body::Void),
            ],
            None,
        ),
        un(
            "wide",
            Switch::Prim(Prim::U64),
            vec![
                arm(vec![lab("1", 1, Num)], data(Ty::Prim(Prim::I64))),
                arm(vec![lab("2", 2, Num)], data(r("maybe"))),
            ],
            Some((vec![], Body::Void)),
        ),
        st(
            "batch",
            vec![
                f(r("call"), "calls", lit(5)),
                f(r("wide"), "wides", ANY),
                f(r("maybe"), "flags", Arr::Fixed(Size::Lit(2))),
            ],
        ),
    ])
}

fn bare() -> Spec {
    use LabelKind::*;
    Spec::new(vec![
        st(
            "inner",
            vec![
                f(Ty::Opaque, "d", Arr::None),
                f(Ty::Prim(Prim::U32), "n", Arr::None),
            ],
        ),
        st(
            "outer",
            vec![
                f(r("inner"), "items", ANY),
                f(Ty::Prim(Prim::U32), "tail", Arr::None),
            ],
        ),
        un(
            "raw",
            Switch::Prim(Prim::I32),
            vec![arm(vec![lab("1", 1, Num)], data(Ty::Opaque))],
            Some((vec![], Body::Void)),
        ),
        td(r("raw"), "raws", lit(8)),
    ])
}

fn hollow() -> Spec {
    use LabelKind::*;
    let none = || Arr::Fixed(Size::Lit(0));
    Spec::new(vec![
        td(Ty::Opaque, "nothing", none()),
        st("hollow", vec![f(Ty::Opaque, "x", none())]),
        st("plain", vec![f(Ty::Prim(Prim::I32), "z", none())]),
        st("twice", vec![f(r("hollow"), "a", none()), f(r("plain"), "b", Arr::None)]),
        st(
            "many",
            vec![
                f(r("hollow"), "h", ANY),
                f(r("nothing"), "n", ANY),
                f(r("hollow"), "m", lit(5)),
                f(r("plain"), "p", lit(0xffff_ffff)),
                f(r("twice"), "t", ANY),
            ],
        ),
        td(r("plain"), "plains", ANY),
        td(r("hollow"), "hollows", lit(0x8000_0000)),
        un(
            "pick",
            Switch::Prim(Prim::I32),
            vec![
                arm(vec![lab("1", 1, Num)], data(r("hollows"))),
                arm(vec![lab("2", 2, Num)], data(r("plains"))),
            ],
            Some((vec![], Body::Void)),
        ),
    ])
}

/// Specification number `k` of the check seeded with `seed`.
pub fn spec(seed: u64, k: usize) -> Spec {
    match k {
        GENERAL => general(),
        BARE => bare(),
        HOLLOW => hollow(),
        _ => {
            let mut r = Rng::stream(seed, &[0x59ec, k as u64]);
            // Swarm: size and mix differ per specification.
            let sh = specgen::Shape {
                enums: 1 + r.idx(5),
                types: 12 + r.idx(20),
                consts: 8,
                part: Some((seed, k)),
            };
            specgen::generate(&mut r, sh)
        }
    }
}

/// Its text, in a layout of its own.
pub fn text(seed: u64, k: usize, s: &Spec) -> String {
    let mut r = Rng::stream(seed, &[0x7e87, k as u64]);
    let toks = token_lists(s, &mut r);
    let l = match k % 4 {
        0 => Layout::Plain,
        1 => Layout::Comments,
        2 => Layout::Tight,
        _ => Layout::Space,
    };
    layout(&toks, l, &mut r)
}
