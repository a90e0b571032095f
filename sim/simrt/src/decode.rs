//! The decode world: nodes exchange XDR records over a simulated transport or
//! log, and every byte string that reaches a receiver is given to the real
//! generated decoders, whose answers are judged against the reference model.

use crate::glue::*;
use crate::plan::{Line, Plan};
use crate::run::{self, bit, count, count_max, crumb, event, violation, C};
use crate::sched;
use crate::sys::{self, Meter};
use model::codec::{self, Dec, Enc, RefErr, Rej, WordKind};
use model::rng::Rng;
use model::spec::*;
use model::val::{DiffKind, Shape, Val, ValGen};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::sync::atomic::Ordering::SeqCst;
use std::sync::{Arc, Mutex};

pub struct Loaded {
    pub k: usize,
    pub spec: Spec,
    pub ops: Vec<TypeOps>,
    /// Bytes a decode may request per input byte, by type.
    pub factor: Vec<u64>,
    /// Types that reach themselves through an optional link.
    pub chains: Vec<usize>,
    /// Types an opaque payload is reachable from.
    pub opaque: Vec<usize>,
    pub counted: Vec<usize>,
    /// Whether a type can nest in itself through counted arrays: sizing those
    /// at every level takes time in the square of the depth.
    pub nests: Vec<bool>,
    pub nested: Vec<usize>,
    pub unions: Vec<usize>,
    pub plain: Vec<usize>,
}

fn refs(d: &Decl) -> Vec<(&Ty, bool)> {
    match d {
        Decl::Struct(s) => s
            .fields
            .iter()
            .map(|f| (&f.ty, f.optional))
            .collect(),
        Decl::Union(u) => u
            .arms
            .iter()
            .map(|a| &a.body)
            .chain(u.default.iter().map(|d| &d.1))
            .filter_map(|b| match b {
                Body::Data { ty, .. } => Some((ty, false)),
                _ => None,
            })
            .collect(),
        Decl::Typedef(t) => vec![(&t.ty, false)],
        _ => vec![],
    }
}

fn has_counted(d: &Decl) -> bool {
    let hit = |t: &Ty, a: &Arr| matches!(a, Arr::Var(_)) && matches!(t, Ty::Ref(_));
    match d {
        Decl::Struct(s) => s.fields.iter().any(|f| hit(&f.ty, &f.arr)),
        Decl::Typedef(t) => hit(&t.ty, &t.arr),
        _ => false,
    }
}

impl Loaded {
    pub fn new(k: usize, spec: Spec, ops: Vec<TypeOps>) -> Loaded {
        let names: Vec<String> = spec.types().iter().map(|d| d.name().to_string()).collect();
        assert_eq!(names.len(), ops.len());
        let sizes: BTreeMap<&str, u64> = ops.iter().map(|o| (o.name, o.size as u64)).collect();
        let mut l = Loaded {
            k,
            ops: vec![],
            factor: vec![],
            chains: vec![],
            opaque: vec![],
            counted: vec![],
            nests: vec![],
            nested: vec![],
            unions: vec![],
            plain: vec![],
            spec: Spec::default(),
        };
        for (i, n) in names.iter().enumerate() {
            assert_eq!(n, ops[i].name);
            let mut seen = BTreeSet::new();
            let mut todo = vec![n.clone()];
            let (mut chain, mut counted, mut union) = (false, false, false);
            while let Some(x) = todo.pop() {
                if !seen.insert(x.clone()) {
                    continue;
                }
                let d = spec.get(&x);
                counted |= has_counted(d);
                union |= matches!(d, Decl::Union(_));
                for (t, opt) in refs(d) {
                    if let Ty::Ref(m) = t {
                        chain |= opt && *m == x;
                        todo.push(m.clone());
                    }
                }
            }
            let nests = seen.iter().any(|x| {
                let d = spec.get(x);
                has_counted(d)
                    && refs(d).iter().any(|(t, _)| match t {
                        Ty::Ref(m) => model::val::leads(&spec, m, x),
                        _ => false,
                    })
            });
            l.nests.push(nests);
            if nests {
                l.nested.push(i);
            }
            let big = seen.iter().map(|x| sizes[x.as_str()]).max().unwrap_or(8);
            l.factor.push(2 * big + 64);
            if chain {
                l.chains.push(i);
            }
            if counted {
                l.counted.push(i);
            }
            if union {
                l.unions.push(i);
            }
            if spec.generic.contains(n) {
                l.opaque.push(i);
            }
            l.plain.push(i);
        }
        l.spec = spec;
        l.ops = ops;
        l
    }
}

// ---- buffers ----------------------------------------------------------------

struct Owner(Vec<u8>);
impl AsRef<[u8]> for Owner {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}

pub const BUF_KINDS: u64 = 7;

/// A view of `data` that sits in a buffer of the given kind, `lead` bytes in
/// and with `trail` bytes of something else behind it.
pub fn view(data: &[u8], kind: u64, lead: usize, trail: usize) -> Bytes {
    let mut v = Vec::with_capacity(data.len() + lead + trail + if kind == 1 { 37 } else { 0 });
    v.extend((0..lead).map(|i| 0xe0 | (i as u8 & 15)));
    v.extend_from_slice(data);
    v.extend((0..trail).map(|i| if i % 4 == 3 { 1 } else { 0 }));
    let r = lead..lead + data.len();
    match kind {
        0 | 1 => Bytes::from(v).slice(r),
        2 => {
            count(C::reach_static_buffer, 1);
            Bytes::from_static(Box::leak(v.into_boxed_slice())).slice(r)
        }
        3 => {
            let mut m = fastxdr::bytes::BytesMut::with_capacity(v.len());
            m.extend_from_slice(&v);
            m.freeze().slice(r)
        }
        4 => Bytes::from_owner(Owner(v)).slice(r),
        5 => {
            count(C::reach_shared_buffer, 1);
            let b = Bytes::from(v);
            let keep = b.clone();
            std::mem::forget(keep);
            b.slice(r)
        }
        _ => {
            // Split off the front and back of a growing receive buffer.
            let mut m = fastxdr::bytes::BytesMut::with_capacity(v.len() * 2 + 64);
            m.extend_from_slice(&v);
            let _ = m.split_to(r.start);
            let mine = m.split_to(data.len());
            mine.freeze()
        }
    }
}

// ---- judging one decode -----------------------------------------------------

/// What happened to the bytes on their way.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Origin {
    Pristine,
    /// A strict prefix of an encoding.
    Prefix,
    /// Only the annotated word at this offset was altered.
    Word(usize),
    /// Only this string payload was altered.
    Text(usize),
    Other,
}

/// Tells what was altered from the bytes themselves.
pub fn origin(e: &Enc, data: &[u8]) -> Origin {
    let b = &e.bytes;
    if data.len() < b.len() {
        return if b.starts_with(data) { Origin::Prefix } else { Origin::Other };
    }
    let first = match (0..b.len()).find(|i| b[*i] != data[*i]) {
        None => return Origin::Pristine,
        Some(i) => i,
    };
    let last = (0..b.len()).rfind(|i| b[*i] != data[*i]).unwrap();
    for w in &e.words {
        if w.off <= first && last < w.off + w.size {
            return Origin::Word(w.off);
        }
    }
    for (o, n) in &e.strs {
        if *o <= first && last < o + n {
            return Origin::Text(*o);
        }
    }
    Origin::Other
}

#[derive(Clone, Debug)]
pub enum Seen {
    Ok(Val, usize),
    Err(ErrVal),
    Panic(String),
}

impl Seen {
    fn short(&self) -> String {
        match self {
            Seen::Ok(v, w) => format!("Ok({}) wire_size {w}", v.short()),
            Seen::Err(e) => format!("Err({e:?})"),
            Seen::Panic(m) => format!("panic: {m}"),
        }
    }
    /// For the history: nothing that depends on addresses.
    fn tag(&self) -> String {
        match self {
            Seen::Ok(v, w) => {
                format!("ok {w} {:x}", model::rng::hash_bytes(7, v.short().as_bytes()))
            }
            Seen::Err(ErrVal::NonUtf8(_)) => "err utf8".into(),
            Seen::Err(e) => format!("err {e:?}"),
            Seen::Panic(m) => format!("panic {m}"),
        }
    }
}

pub struct Verdict {
    pub seen: Seen,
    /// Bytes the `&mut` family consumed.
    pub consumed: usize,
    pub wire: usize,
    pub held: Option<Box<dyn Held>>,
    pub refd: Result<Dec, Rej>,
}

pub fn ref_text(r: &Result<Dec, Rej>) -> String {
    match r {
        Ok(d) => format!("Ok({}) in {} bytes", d.val.short(), d.used),
        Err(e) => format!("rejection: {:?} at byte {}", e.err, e.at),
    }
}

fn hex(b: &[u8]) -> String {
    let mut s: String = b.iter().take(160).map(|x| format!("{x:02x}")).collect();
    if b.len() > 160 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}

fn owner(e: &RefErr) -> &'static str {
    match e {
        RefErr::Short | RefErr::PadShort | RefErr::OverMax(..) | RefErr::Beyond(_) => "C05",
        _ => "C06",
    }
}

fn tally(r: &Result<Dec, Rej>) {
    match r {
        Ok(d) => {
            if d.at_max {
                count(C::reach_at_declared_max, 1);
            }
            if d.odd_pad {
                count(C::reach_odd_padding, 1);
            }
        }
        Err(e) => count(
            match e.err {
                RefErr::Short => C::ref_short,
                RefErr::PadShort => C::ref_pad_short,
                RefErr::OverMax(..) => C::ref_over_max,
                RefErr::Beyond(_) => C::ref_beyond,
                RefErr::Bool(_) | RefErr::BoolDisc(_) => C::ref_bool,
                RefErr::Enum(_) => C::ref_enum,
                RefErr::Marker(_) => C::ref_marker,
                RefErr::Disc(_) => C::ref_disc,
                RefErr::Utf8 => C::ref_utf8,
                RefErr::Deep => C::ref_too_deep,
            },
            1,
        ),
    }
}

fn read_out(o: Out) -> (Seen, Option<Box<dyn Held>>) {
    match o {
        Out::Err(e) => (Seen::Err(e), None),
        Out::Panic(m) => (Seen::Panic(m), None),
        Out::Ok(h) => {
            let v = h.val();
            match under_test(|| h.wire()).0 {
                Ok(w) => (Seen::Ok(v, w), Some(h)),
                Err(m) => (Seen::Panic(format!("in wire_size(): {m}")), Some(h)),
            }
        }
    }
}

fn same(a: &Seen, b: &Seen) -> bool {
    match (a, b) {
        (Seen::Ok(x, v), Seen::Ok(y, w)) => v == w && x.diff(y, &mut vec![]).is_none(),
        (Seen::Err(x), Seen::Err(y)) => x == y,
        (Seen::Panic(_), Seen::Panic(_)) => true,
        _ => false,
    }
}

/// Decodes the view with both families and judges the answers.
pub fn attempt(l: &Loaded, ty: usize, v: &Bytes, org: Origin, base: Option<&Seen>) -> Verdict {
    let ops = &l.ops[ty];
    let refd = codec::decode(&l.spec, ops.name, v, false);
    count(C::attempts, 1);
    count(
        match org {
            Origin::Pristine => C::attempts_pristine,
            Origin::Prefix => C::attempts_truncated,
            Origin::Word(_) | Origin::Text(_) => C::attempts_mutated,
            Origin::Other => C::attempts_multi_fault,
        },
        1,
    );
    tally(&refd);
    if matches!(&refd, Err(e) if e.err == RefErr::Deep) {
        let seen = Seen::Err(ErrVal::InvalidLength);
        return Verdict { seen, consumed: 0, wire: 0, held: None, refd };
    }
    let what = || {
        format!(
            "type {} of spec {}, {} bytes {}",
            ops.name,
            l.k,
            v.len(),
            hex(v)
        )
    };
    // A crash here is C04's; and whoever is owed a particular answer is not
    // getting it either.
    let mut mask = bit("C04") | bit("C09");
    match &refd {
        Ok(d) if !d.odd_pad => mask |= bit("C01"),
        Ok(_) => {}
        Err(e) => mask |= bit(owner(&e.err)),
    }
    crumb(mask, &format!("decoding {}", what()));

    let whole = v.clone();
    let (o, m1) = (ops.by_val)(whole);
    let (seen, held) = read_out(o);
    let mut cur = v.clone();
    let (o, m2) = (ops.by_mut)(&mut cur);
    let (seen2, held2) = read_out(o);
    crumb(0, "");
    count(C::reach_two_families, 1);
    count(
        if matches!(seen, Seen::Ok(..)) { C::decoded_ok } else { C::decoded_err },
        1,
    );

    // C04
    for s in [&seen, &seen2] {
        if let Seen::Panic(m) = s {
            let msg = format!("panic '{m}' decoding {}", what());
            violation("C04", "panic", &msg);
            // No answer is not the answer that is owed either.
            if let Err(e) = &refd {
                violation(owner(&e.err), "panic", &msg);
            }
        }
    }
    // C09
    let bound = l.factor[ty] * v.len() as u64 + 1024;
    for m in [&m1, &m2] {
        meter(m, v.len());
        if m.bytes > bound {
            violation(
                "C09",
                "memory",
                &format!(
                    "{} bytes requested ({} at once) for an input of {}: {}",
                    m.bytes,
                    m.biggest,
                    v.len(),
                    what()
                ),
            );
        }
    }
    // C03: one answer
    if !same(&seen, &seen2) {
        violation(
            "C03",
            "families",
            &format!(
                "TryFrom<Bytes> gives {} but TryFrom<&mut Bytes> gives {} for {}",
                seen.short(),
                seen2.short(),
                what()
            ),
        );
    }
    if let Some(b) = base {
        if !same(b, &seen) {
            violation(
                "C03",
                "surroundings",
                &format!(
                    "{} where the same value elsewhere gave {}: {}",
                    seen.short(),
                    b.short(),
                    what()
                ),
            );
        }
    }
    for (i, (s, h)) in [(&seen, &held), (&seen2, &held2)].into_iter().enumerate() {
        let fam = ["TryFrom<Bytes>", "TryFrom<&mut Bytes>"][i];
        match (&refd, s) {
            (Ok(d), Seen::Ok(val, wire)) => {
                let mut path = vec![];
                if let Some(k) = val.diff(&d.val, &mut path) {
                    let msg = format!(
                        "{fam} gives {} at {} where {} was encoded: {}",
                        val.short(),
                        path.join(""),
                        d.val.short(),
                        what()
                    );
                    violation("C01", "value", &msg);
                    if matches!(
                        k,
                        DiffKind::Variant | DiffKind::Enum | DiffKind::Bool | DiffKind::Marker
                    ) {
                        violation("C06", "wrong-arm", &msg);
                    }
                } else {
                    // C02
                    if *wire != d.used {
                        if d.bare > 0 && *wire + 4 * d.bare == d.used {
                            run::sh().known.fetch_or(1, SeqCst);
                            count(C::known_k1, 1);
                        } else {
                            violation(
                                "C02",
                                "size",
                                &format!(
                                    "wire_size() is {wire}, the encoding has {} bytes: {} = {}",
                                    d.used,
                                    what(),
                                    val.short()
                                ),
                            );
                        }
                    }
                    count(C::reach_size_stepping, 1);
                    // C08
                    let (mut a, mut b) = (vec![], vec![]);
                    val.opaques(&mut a);
                    d.val.opaques(&mut b);
                    for ((n, at), (_, off)) in a.iter().zip(&b) {
                        if *n == 0 {
                            continue;
                        }
                        count(C::reach_opaque_leaf, 1);
                        if *n >= 4096 {
                            count(C::reach_payload_4k, 1);
                        }
                        let want = v.as_ptr() as usize + off;
                        if *at != want {
                            let inside = *at >= v.as_ptr() as usize
                                && *at < v.as_ptr() as usize + v.len();
                            violation(
                                "C08",
                                if inside { "wrong-offset" } else { "copied" },
                                &format!(
                                    "{fam}: {n} opaque bytes at wire offset {off} are {}: {}",
                                    if inside {
                                        format!("a view of offset {}", at - v.as_ptr() as usize)
                                    } else {
                                        "outside the input buffer".into()
                                    },
                                    what()
                                ),
                            );
                        }
                    }
                }
                // C03: consumption
                if i == 1 {
                    let left = v.len() - d.used;
                    if cur.len() != left || (left > 0 && cur[..] != v[d.used..]) {
                        violation(
                            "C03",
                            "consumed",
                            &format!(
                                "{} of {} bytes left after a value of {}: {}",
                                cur.len(),
                                v.len(),
                                d.used,
                                what()
                            ),
                        );
                    }
                }
            }
            (Ok(d), s) => {
                let _ = h;
                if d.odd_pad && matches!(s, Seen::Err(_)) {
                    continue;
                }
                let msg = format!(
                    "{fam} gives {} for the encoding of {} (at a declared maximum: {}): {}",
                    s.short(),
                    d.val.short(),
                    d.at_max,
                    what()
                );
                if d.used == v.len() {
                    violation("C01", "rejected", &msg);
                } else {
                    violation("C03", "rejected-with-suffix", &msg);
                    violation("C01", "rejected", &msg);
                }
                match s {
                    Seen::Err(ErrVal::InvalidLength) if d.at_max => {
                        violation("C05", "maximum-rejected", &msg)
                    }
                    Seen::Err(
                        ErrVal::InvalidBoolean
                        | ErrVal::UnknownVariant(_)
                        | ErrVal::UnknownOption(_)
                        | ErrVal::NonUtf8(_),
                    ) => violation("C06", "declared-rejected", &msg),
                    _ => {}
                }
            }
            (Err(r), Seen::Ok(val, _)) => {
                let msg = format!(
                    "{fam} accepts as {} what calls for {:?} at byte {}: {}",
                    val.short(),
                    r.err,
                    r.at,
                    what()
                );
                violation(
                    owner(&r.err),
                    match r.err {
                        RefErr::OverMax(..) => "over-maximum-accepted",
                        RefErr::Bool(_) | RefErr::BoolDisc(_) => "boolean-accepted",
                        RefErr::Enum(_) => "enum-accepted",
                        RefErr::Marker(_) => "marker-accepted",
                        RefErr::Disc(_) => "discriminant-accepted",
                        RefErr::Utf8 => "text-accepted",
                        _ => "prefix-accepted",
                    },
                    &msg,
                );
            }
            (Err(r), s) => {
                let exact = !r.odd_pad
                    && match org {
                        Origin::Word(o) => r.at == o || r.err == RefErr::Short && r.counts.contains(&o),
                        Origin::Text(o) => r.at == o && r.err == RefErr::Utf8,
                        Origin::Prefix => {
                            matches!(r.err, RefErr::Beyond(_))
                                || r.err == RefErr::Short && !r.counts.is_empty()
                        }
                        _ => false,
                    };
                if !exact {
                    continue;
                }
                let ok = match (&r.err, s) {
                    (RefErr::OverMax(..) | RefErr::Beyond(_), Seen::Err(ErrVal::InvalidLength)) => {
                        true
                    }
                    (RefErr::OverMax(..) | RefErr::Beyond(_), _) => false,
                    (RefErr::Bool(_), s) => matches!(s, Seen::Err(ErrVal::InvalidBoolean)),
                    (RefErr::BoolDisc(_), s) => matches!(
                        s,
                        Seen::Err(ErrVal::InvalidBoolean | ErrVal::UnknownVariant(_))
                    ),
                    (RefErr::Enum(x), s) => {
                        matches!(s, Seen::Err(ErrVal::UnknownVariant(y)) if *y == *x as i64)
                    }
                    (RefErr::Marker(x), s) => {
                        matches!(s, Seen::Err(ErrVal::UnknownOption(y)) if *y == *x as i64)
                    }
                    (RefErr::Disc(x), s) => matches!(s, Seen::Err(ErrVal::UnknownVariant(y))
                        if *y == *x as i32 as i64 || (*x as i32 as i64 != *x && *x as u32 as i64 != *x)),
                    (RefErr::Utf8, s) => matches!(s, Seen::Err(ErrVal::NonUtf8(_))),
                    (RefErr::Deep, _) => true,
                    // The count of an array is above what is there.
                    (RefErr::Short | RefErr::PadShort, s) => {
                        matches!(s, Seen::Err(ErrVal::InvalidLength))
                    }
                };
                if !ok {
                    violation(
                        owner(&r.err),
                        "error-kind",
                        &format!(
                            "{fam} gives {} where the only fault is {:?} at byte {}: {}",
                            s.short(),
                            r.err,
                            r.at,
                            what()
                        ),
                    );
                }
            }
        }
    }
    event(|| format!("{} {} {} -> {}", sys::TASK.with(|t| t.get()), ops.name, v.len(), seen.tag()));
    let wire = match &seen {
        Seen::Ok(_, w) => *w,
        _ => 0,
    };
    drop_held(held2);
    Verdict {
        consumed: v.len() - cur.len(),
        wire,
        seen,
        held,
        refd,
    }
}

pub fn drop_held(h: Option<Box<dyn Held>>) {
    crumb(bit("C04"), "dropping a decoded value");
    let _ = under_test(move || drop(h));
    crumb(0, "");
}

fn meter(m: &Meter, len: usize) {
    count_max(C::peak_alloc_per_kib, m.bytes * 1024 / (len as u64 + 64));
}

// ---- faults on bytes --------------------------------------------------------

/// Values worth putting into a word.
pub fn smash(w: &codec::Word, old: u64, left: usize, spec: &Spec, r: &mut Rng) -> Vec<u64> {
    let old32 = old as u32;
    let mut v: Vec<u64> = match &w.kind {
        WordKind::Len(m) | WordKind::Count(m) => {
            let mut v = vec![
                0,
                old.wrapping_add(1) & 0xffff_ffff,
                old.wrapping_sub(1) & 0xffff_ffff,
                left as u64,
                left as u64 + 1,
                left as u64 + 4,
                (left as u64).wrapping_sub(4) & 0xffff_ffff,
                (left / 4) as u64,
                left as u64 / 4 + 1,
                0x7fff_ffff,
                0x8000_0000,
                0xffff_ffff,
                0xffff_fffd,
                0xffff_fffc,
                0x4000_0000,
                0x1000_0001,
                0x0001_0000,
            ];
            if let Some(m) = m {
                let m = *m as u64;
                v.extend([m, (m + 1) & 0xffff_ffff, m.saturating_sub(1), m / 2]);
                if m < 0xffff_ff00 {
                    v.push(m + 2 + r.below(9));
                    v.push(m + (0xffff_ffff - m) / 2);
                }
            }
            v
        }
        WordKind::Bool | WordKind::Marker => {
            vec![0, 1, 2, 3, 0x0100_0000, 0x0101_0101, 0xffff_ffff, 0x8000_0000, 0x8000_0001, 256, 257, 0x0001_0000, 0x0001_0001]
        }
        WordKind::Enum(e) => {
            let mut v = vec![0xffff_ffff, 0x8000_0000, 0x7fff_ffff, 0, 1, 2];
            if let Decl::Enum(e) = spec.get(e) {
                for m in &e.members {
                    v.extend([m.1 as u32 as u64, (m.1 as u32).wrapping_add(1) as u64]);
                    v.extend([(m.1 as u32).wrapping_sub(1) as u64, m.1 as u32 as u64 | 1 << 31]);
                    v.push(m.1 as u32 as u64 ^ 1 << 8);
                }
            }
            v
        }
        WordKind::Disc(u) => {
            let mut v = vec![0xffff_ffff, 0x8000_0000, 0x7fff_ffff, 0, 1, 2, 3];
            if let Decl::Union(u) = spec.get(u) {
                for l in u.arms.iter().flat_map(|a| &a.labels).chain(u.default.iter().flat_map(|d| &d.0)) {
                    let x = l.value as u64;
                    v.extend([x, x.wrapping_add(1), x.wrapping_sub(1), x ^ 1 << 31, x ^ 1 << 8, x ^ 1 << 16]);
                    if w.size == 8 {
                        v.extend([x | 1 << 32, x ^ 1 << 63, x << 32]);
                    }
                }
                if let Switch::Enum(e) = &u.switch {
                    if let Decl::Enum(e) = spec.get(e) {
                        v.extend(e.members.iter().map(|m| m.1 as u32 as u64));
                    }
                }
            }
            v
        }
        WordKind::Prim => vec![0, u64::MAX],
    };
    v.push(r.next());
    v.push(1 << r.below(32));
    if w.size == 4 {
        v.iter_mut().for_each(|x| *x &= 0xffff_ffff);
    }
    let mut seen = BTreeSet::new();
    v.retain(|x| (if w.size == 4 { *x as u32 != old32 } else { *x != old }) && seen.insert(*x));
    v
}

pub fn word_at(b: &[u8], w: &codec::Word) -> u64 {
    b[w.off..w.off + w.size].iter().fold(0, |a, x| a << 8 | *x as u64)
}

pub fn set_word(b: &mut [u8], w: &codec::Word, v: u64) {
    for i in 0..w.size {
        b[w.off + i] = (v >> (8 * (w.size - 1 - i))) as u8;
    }
}

fn apply(f: &Line, e: &Enc, b: &mut Vec<u8>, spec: &Spec, other: Option<&[u8]>) {
    let a = f.get("a") as u64;
    let mut r = Rng::stream(f.get("seed") as u64, &[0xfa]);
    let n = b.len();
    match f.sub.as_str() {
        "trunc" if n > 0 => {
            b.truncate(a as usize % n);
            count(C::fault_truncate, 1);
        }
        "flip" if n > 0 => {
            let i = (a as usize / 8) % n;
            b[i] ^= 1 << (a % 8);
            count(C::fault_bitflip, 1);
        }
        "word" if !e.words.is_empty() => {
            // Rather the words that steer the decoder than plain numbers.
            let steer: Vec<&codec::Word> =
                e.words.iter().filter(|w| w.kind != WordKind::Prim).collect();
            let w = if steer.is_empty() {
                &e.words[a as usize % e.words.len()]
            } else {
                steer[a as usize % steer.len()]
            };
            if w.off + w.size <= n {
                let vs = smash(w, word_at(b, w), n - w.off - w.size, spec, &mut r);
                let v = *r.pick(&vs);
                set_word(b, w, v);
                count(C::fault_word, 1);
            }
        }
        "pad" if !e.pads.is_empty() => {
            let (o, k) = e.pads[a as usize % e.pads.len()];
            if o + k <= n {
                b[o + r.idx(k)] ^= 1 << r.below(8);
                count(C::fault_padding, 1);
            }
        }
        "utf8" => {
            let s: Vec<(usize, usize)> =
                e.strs.iter().filter(|s| s.1 > 0 && s.0 + s.1 <= n).cloned().collect();
            if !s.is_empty() {
                let (o, k) = s[a as usize % s.len()];
                b[o + r.idx(k)] = *r.pick(&[0xff, 0xc0, 0x80, 0xed, 0xf8, 0xe2, 0xf5]);
                count(C::fault_utf8, 1);
            }
        }
        "junk" if n > 0 => {
            let lo = a as usize % n;
            let k = 1 + r.idx(n - lo);
            let style = r.below(3);
            for x in &mut b[lo..lo + k] {
                *x = match style {
                    0 => r.next() as u8,
                    1 => 0xff,
                    _ => r.below(3) as u8,
                };
            }
            count(C::fault_junk, 1);
        }
        "tail" => {
            for i in 0..a as usize % 64 {
                b.push(if i % 4 == 3 { r.below(4) as u8 } else { r.below(2) as u8 });
            }
            count(C::fault_trailing, 1);
        }
        "splice" => {
            let lo = if n == 0 { 0 } else { a as usize % n };
            match r.below(3) {
                0 => {
                    let k = (1 + r.idx(8)).min(n - lo);
                    b.drain(lo..lo + k);
                }
                1 => {
                    for _ in 0..1 + r.idx(8) {
                        b.insert(lo, r.below(3) as u8);
                    }
                }
                _ => {
                    if let Some(o) = other {
                        b.truncate(lo);
                        b.extend_from_slice(&o[lo.min(o.len())..]);
                    }
                }
            }
            count(C::fault_splice, 1);
        }
        "torn" if n > 0 => {
            let lo = a as usize % n;
            let z = r.chance(1, 2);
            for x in &mut b[lo..] {
                *x = if z { 0 } else { r.next() as u8 };
            }
            count(C::fault_torn_write, 1);
        }
        _ => {}
    }
}

// ---- records ----------------------------------------------------------------

pub struct Rec {
    pub id: i64,
    pub conn: i64,
    pub ty: usize,
    pub val: Val,
    pub enc: Enc,
    pub kind: u64,
    pub lead: usize,
    pub trail: usize,
}

fn records(l: &Loaded, plan: &Plan) -> Vec<Arc<Rec>> {
    // A record that takes no bytes cannot be told from none on a stream or log.
    let framed = plan.of("run").next().map(|h| h.sub != "dgram").unwrap_or(false);
    plan.of("rec")
        .map(|x| {
            let ty = x.get("ty") as usize % l.ops.len();
            // Sizing takes time in depth times size.
            let deepest = match (l.nests[ty], x.get("big")) {
                (true, 0) if x.get("seed") % 6 == 0 => 600,
                (true, 0) => 150,
                (true, _) => 20,
                _ => 40_000,
            };
            let sh = Shape {
                knob: x.get("knob") as u32,
                chain: (x.get("chain") as u32).min(deepest),
                big: x.get("big") as u32,
            };
            let mut g = ValGen::new(&l.spec, x.get("seed") as u64, sh);
            if x.get("arm") > 0 {
                g.arm = Some(x.get("arm") as u64 - 1);
            }
            let val = g.named(l.ops[ty].name);
            let enc = codec::encode(&l.spec, l.ops[ty].name, &val);
            count(C::records_sent, 1);
            if x.get("chain") >= 50 && enc.words.iter().filter(|w| w.kind == WordKind::Marker).count() > 50 {
                count(C::reach_optional_chain_50, 1);
            }
            Arc::new(Rec {
                id: x.get("id"),
                conn: x.get("c"),
                ty,
                val,
                enc,
                kind: x.get("kind") as u64 % BUF_KINDS,
                lead: x.get("lead") as usize,
                trail: x.get("trail") as usize,
            })
        })
        .filter(|r: &Arc<Rec>| !framed || !r.enc.bytes.is_empty())
        .collect()
}

/// What a receiver is given.
enum Item {
    /// A datagram: a view and the record it started out as.
    Gram(Arc<Rec>, Bytes),
    /// A segment of connection `c`'s stream in its `epoch`.
    Seg(i64, u64, Vec<u8>),
    /// The connection was cut.
    Cut(i64, u64),
    Probe(Arc<Rec>, Line),
    /// A log image to recover and the records known to be durable.
    Log(Vec<Arc<Rec>>, usize, Bytes, bool),
    Stop,
}

struct Event {
    at: u64,
    seq: u64,
    to: usize,
    item: Item,
}

#[derive(Default)]
struct Conn {
    recs: Vec<Arc<Rec>>,
    /// Receiver side.
    buf: Vec<u8>,
    epoch: u64,
    got: Vec<Val>,
}

struct Net {
    now: u64,
    seq: u64,
    q: Vec<Event>,
    boxes: Vec<VecDeque<Item>>,
    conns: BTreeMap<i64, Conn>,
    rng: Rng,
    done: bool,
}

impl Net {
    fn at(&mut self, t: u64, to: usize, item: Item) {
        self.seq += 1;
        let e = Event {
            at: self.now + t,
            seq: self.seq,
            to,
            item,
        };
        let i = self
            .q
            .partition_point(|x| (x.at, x.seq) > (e.at, e.seq));
        self.q.insert(i, e);
    }
}

type World = Arc<Mutex<Net>>;

fn line_for<'a>(plan: &'a Plan, kw: &'a str, id: i64) -> impl Iterator<Item = &'a Line> + 'a {
    plan.of(kw).filter(move |x| x.get("id") == id)
}

/// Sends what connection `c` still owes, in segments.
fn transmit(w: &mut Net, c: i64, to: usize, cuts: &[Line], resets: &mut Vec<Line>, faults: &mut Vec<Line>, spec: &Spec) {
    let conn = w.conns.get(&c).unwrap();
    let from = conn.got.len();
    let epoch = conn.epoch;
    let mut bytes = Vec::new();
    for r in &conn.recs[from..] {
        let mut b = r.enc.bytes.clone();
        // In-flight corruption happens once; the retransmission is clean.
        let mut i = 0;
        while i < faults.len() {
            if faults[i].get("id") == r.id {
                let f = faults.remove(i);
                apply(&f, &r.enc, &mut b, spec, None);
            } else {
                i += 1;
            }
        }
        bytes.extend_from_slice(&b);
    }
    let mut at: Vec<usize> = cuts
        .iter()
        .filter(|x| x.get("c") == c)
        .map(|x| if bytes.is_empty() { 0 } else { x.get("at") as usize % bytes.len() })
        .collect();
    at.push(bytes.len());
    at.sort();
    at.dedup();
    let reset = match resets.iter().position(|x| x.get("c") == c) {
        Some(i) => {
            let x = resets.remove(i);
            Some(if bytes.is_empty() { 0 } else { x.get("at") as usize % bytes.len() })
        }
        None => None,
    };
    let mut lo = 0;
    let mut t = 0;
    for hi in at {
        let hi2 = reset.map(|r| r.min(hi)).unwrap_or(hi);
        // Segments keep their order, with varying delay.
        t += 100 + w.rng.below(50_000);
        if w.rng.chance(1, 8) {
            t += 2_000_000;
            count(C::fault_delay, 1);
        }
        if hi2 > lo {
            w.at(t, to, Item::Seg(c, epoch, bytes[lo..hi2].to_vec()));
            count(C::segments_delivered, 1);
            lo = hi2;
        }
        if reset == Some(hi2) && hi2 < hi {
            break;
        }
    }
    if reset.is_some() {
        count(C::fault_reset, 1);
    }
    // The end of the connection, orderly or not: what is missing is sent again.
    w.at(t + 1_000, to, Item::Cut(c, epoch));
}

/// Executes one plan of the decode world: on a stack of its own, because
/// comparing and dropping long optional chains recurses.
pub fn world(loaded: &[Loaded], plan: &Plan) {
    std::thread::scope(|sc| {
        let t = std::thread::Builder::new()
            .stack_size(1 << 30)
            .spawn_scoped(sc, || play(loaded, plan))
            .expect("spawn");
        if let Err(e) = t.join() {
            std::panic::resume_unwind(e);
        }
    });
}

fn play(loaded: &[Loaded], plan: &Plan) {
    let head = match plan.of("run").next() {
        Some(h) => h.clone(),
        None => return,
    };
    let k = head.get("spec") as usize;
    let l: &Loaded = match loaded.iter().find(|l| l.k == k) {
        Some(l) => l,
        None => return,
    };
    // Safe: the process ends with the run.
    let l: &'static Loaded = unsafe { &*(l as *const Loaded) };
    let nrecv = (head.get("recv").max(1) as usize).min(6);
    // Receivers may be threads with as little stack as the standard library
    // gives one.
    let stack = match head.get("stack") {
        s @ 1..=2 => s as usize,
        s => s.max(64) as usize,
    } << 20;
    // Nesting costs the decoder stack: see the known findings.
    let deepest = if stack < 64 << 20 {
        100
    } else if stack < 1 << 30 {
        8_000
    } else {
        100_000
    };
    codec::DEEPEST.store(deepest, SeqCst);
    let mode = head.sub.clone();
    count(C::runs, 1);
    let plan2 = plan.clone();
    let wseed = head.get("seed") as u64;
    let net: World = Arc::new(Mutex::new(Net {
        now: 0,
        seq: 0,
        q: vec![],
        boxes: (0..nrecv).map(|_| VecDeque::new()).collect(),
        conns: BTreeMap::new(),
        rng: Rng::stream(wseed, &[0x0e7]),
        done: false,
    }));
    let resets: Arc<Mutex<Vec<Line>>> = Arc::new(Mutex::new(plan.of("reset").cloned().collect()));
    let sfaults: Arc<Mutex<Vec<Line>>> = Arc::new(Mutex::new(plan.of("flt").cloned().collect()));

    let mut tasks: Vec<(usize, Box<dyn FnOnce() + Send>)> = Vec::new();
    // Task 1: the network, which is also the senders.
    {
        let net = net.clone();
        let plan = plan2.clone();
        let (resets, sfaults) = (resets.clone(), sfaults.clone());
        let mode = mode.clone();
        tasks.push((
            stack.max(64 << 20),
            Box::new(move || driver(l, &plan, &mode, &net, nrecv, &resets, &sfaults)),
        ));
    }
    for i in 0..nrecv {
        let net = net.clone();
        let plan = plan2.clone();
        let (resets, sfaults) = (resets.clone(), sfaults.clone());
        tasks.push((
            stack,
            Box::new(move || receiver(l, &plan, &net, i, &resets, &sfaults)),
        ));
    }
    let sc = sched::run(tasks, plan.preemptions());
    count(C::preemptions, sc.forced);
    count(C::preemptions_in_code_under_test, sc.forced_in_sut);
    count(C::preemptions_at_branch, sc.forced_at_branch);
    count(C::task_switches, sc.switches);
    run::sh().trace.store(sc.trace, SeqCst);
    let n = net.lock().unwrap();
    run::sh().sim_ns.store(n.now, SeqCst);
    // Exactly once and in order, on every connection.
    for (c, conn) in &n.conns {
        let bad = conn.got.len() != conn.recs.len()
            || conn
                .got
                .iter()
                .zip(&conn.recs)
                .any(|(a, b)| a.diff(&b.val, &mut vec![]).is_some());
        if bad {
            let msg = format!(
                "connection {c}: {} of {} records came through after every fault stopped, or not as sent",
                conn.got.len(),
                conn.recs.len()
            );
            violation("C01", "stream-history", &msg);
            violation("C03", "stream-history", &msg);
        }
    }
}

fn driver(
    l: &'static Loaded,
    plan: &Plan,
    mode: &str,
    net: &World,
    nrecv: usize,
    resets: &Mutex<Vec<Line>>,
    sfaults: &Mutex<Vec<Line>>,
) {
    let recs = records(l, plan);
    let mut slab = Vec::new();
    let mut spots = Vec::new();
    {
        let mut w = net.lock().unwrap();
        let w = &mut *w;
        match mode {
            "stream" => {
                for r in &recs {
                    w.conns.entry(r.conn).or_default().recs.push(r.clone());
                }
                let cuts: Vec<Line> = plan.of("cut").cloned().collect();
                let cs: Vec<i64> = w.conns.keys().cloned().collect();
                for c in cs {
                    let to = c as usize % nrecv;
                    transmit(
                        w,
                        c,
                        to,
                        &cuts,
                        &mut resets.lock().unwrap(),
                        &mut sfaults.lock().unwrap(),
                        &l.spec,
                    );
                }
            }
            "log" => {
                log_events(l, plan, &recs, w, nrecv);
            }
            _ => {
                // Datagrams: some share one big allocation.
                let mut grams = Vec::new();
                for (i, r) in recs.iter().enumerate() {
                    let mut b = r.enc.bytes.clone();
                    let other = recs.get(i + 1).map(|x| &x.enc.bytes[..]);
                    for f in line_for(plan, "flt", r.id) {
                        apply(f, &r.enc, &mut b, &l.spec, other);
                    }
                    if r.kind == 5 {
                        slab.extend((0..r.lead).map(|x| x as u8));
                        spots.push((i, slab.len(), b.len()));
                        slab.extend_from_slice(&b);
                    }
                    grams.push(b);
                }
                let big = Bytes::from(std::mem::take(&mut slab));
                for (i, r) in recs.iter().enumerate() {
                    let v = match spots.iter().find(|s| s.0 == i) {
                        Some((_, o, n)) => {
                            count(C::reach_shared_buffer, 1);
                            big.slice(*o..o + n)
                        }
                        None => view(&grams[i], r.kind, r.lead, r.trail),
                    };
                    let mut t = 1_000 * (i as u64 / 2);
                    let mut copies = 1;
                    for f in line_for(plan, "net", r.id) {
                        match f.sub.as_str() {
                            "drop" => {
                                copies = 0;
                                count(C::fault_drop, 1);
                            }
                            "dup" => {
                                copies += 1;
                                count(C::fault_duplicate, 1);
                            }
                            "late" => {
                                t += f.get("t").unsigned_abs() * 1_000;
                                count(C::fault_reorder, 1);
                            }
                            _ => {}
                        }
                    }
                    for c in 0..copies {
                        let to = (i + c) % nrecv;
                        w.at(t + c as u64 * 777, to, Item::Gram(r.clone(), v.clone()));
                        count(C::datagrams_delivered, 1);
                    }
                }
            }
        }
        for (i, p) in plan.of("prb").enumerate() {
            if let Some(r) = recs.iter().find(|r| r.id == p.get("id")) {
                w.at(
                    500 + 1_500 * i as u64,
                    (r.id as usize + i) % nrecv,
                    Item::Probe(r.clone(), p.clone()),
                );
            }
        }
    }
    // Deliver in time order, jumping the clock; what is due at one instant is
    // delivered together.
    loop {
        let mut sent = false;
        {
            let mut w = net.lock().unwrap();
            if let Some(e) = w.q.pop() {
                w.now = w.now.max(e.at);
                event(|| format!("t={} to {}", e.at, e.to));
                w.boxes[e.to].push_back(e.item);
                sent = true;
                let due = w.now;
                while w.q.last().map(|x| x.at == due).unwrap_or(false) {
                    let e = w.q.pop().unwrap();
                    w.boxes[e.to].push_back(e.item);
                }
            }
        }
        if sent {
            sched::wake_all();
            sched::yield_point();
            sched::give_way();
        } else {
            // Nothing left to deliver: receivers may still be busy, and may
            // ask for more.
            let idle = {
                let w = net.lock().unwrap();
                w.boxes.iter().all(|b| b.is_empty()) && w.q.is_empty()
            };
            if idle && sched::others_blocked() {
                let mut w = net.lock().unwrap();
                w.done = true;
                for b in w.boxes.iter_mut() {
                    b.push_back(Item::Stop);
                }
                drop(w);
                sched::wake_all();
                return;
            }
            sched::give_way();
        }
    }
}

fn receiver(
    l: &'static Loaded,
    plan: &Plan,
    net: &World,
    me: usize,
    resets: &Mutex<Vec<Line>>,
    sfaults: &Mutex<Vec<Line>>,
) {
    let cuts: Vec<Line> = plan.of("cut").cloned().collect();
    let mut held: VecDeque<(Box<dyn Held>, Val)> = VecDeque::new();
    let mut errs = 0u64;
    loop {
        let ok = sched::block_until(|| !net.lock().unwrap().boxes[me].is_empty());
        if !ok {
            break;
        }
        let item = net.lock().unwrap().boxes[me].pop_front().unwrap();
        match item {
            Item::Stop => break,
            Item::Gram(r, v) => {
                count(C::records_delivered, 1);
                let o = origin(&r.enc, &v);
                let a = attempt(l, r.ty, &v, o, None);
                errs = follow(a, &mut held, errs);
            }
            Item::Probe(r, p) => probe(l, &r, &p),
            Item::Log(recs, durable, image, by_size) => recover(l, &recs, durable, image, by_size),
            Item::Seg(c, epoch, b) => segment(l, net, me, c, epoch, b),
            Item::Cut(c, epoch) => {
                let mut w = net.lock().unwrap();
                let conn = w.conns.get_mut(&c).unwrap();
                if conn.epoch == epoch && conn.got.len() < conn.recs.len() && epoch < 12 {
                    conn.epoch += 1;
                    conn.buf.clear();
                    count(C::stream_resyncs, 1);
                    transmit(
                        &mut w,
                        c,
                        me,
                        &cuts,
                        &mut resets.lock().unwrap(),
                        &mut sfaults.lock().unwrap(),
                        &l.spec,
                    );
                }
            }
        }
        while held.len() > 24 {
            let (h, v) = held.pop_front().unwrap();
            recheck(h, v);
        }
    }
    for (h, v) in held {
        recheck(h, v);
    }
}

/// Keeps what was decoded, to be read again when its buffer's other users are
/// long gone.
fn follow(a: Verdict, held: &mut VecDeque<(Box<dyn Held>, Val)>, errs: u64) -> u64 {
    match (a.seen, a.held) {
        (Seen::Ok(v, _), Some(h)) => {
            if errs > 0 {
                count(C::reach_decode_after_error, 1);
            }
            held.push_back((h, v));
            0
        }
        _ => errs + 1,
    }
}

fn recheck(h: Box<dyn Held>, v: Val) {
    let now = h.val();
    count(C::reach_held_value_rechecked, 1);
    if now.diff(&v, &mut vec![]).is_some() {
        let m = format!("a value held by its receiver changed from {} to {}", v.short(), now.short());
        violation("C01", "held-value", &m);
        violation("C08", "held-value", &m);
    }
    drop_held(Some(h));
}

fn segment(l: &'static Loaded, net: &World, me: usize, c: i64, epoch: u64, b: Vec<u8>) {
    let _ = me;
    {
        let mut w = net.lock().unwrap();
        let conn = w.conns.get_mut(&c).unwrap();
        if conn.epoch != epoch {
            // Late segment of a connection that was cut.
            return;
        }
        conn.buf.extend_from_slice(&b);
    }
    loop {
        let (rec, mut v) = {
            let w = net.lock().unwrap();
            let conn = &w.conns[&c];
            match conn.recs.get(conn.got.len()) {
                Some(r) => (r.clone(), view(&conn.buf, r.kind, r.lead, r.trail)),
                None => return,
            }
        };
        if v.is_empty() && !rec.enc.bytes.is_empty() {
            return;
        }
        let o = origin(&rec.enc, &v);
        let a = attempt(l, rec.ty, &v, o, None);
        let ok = matches!(a.seen, Seen::Ok(..));
        if ok && o == Origin::Pristine {
            count(C::records_delivered, 1);
            let val = match a.seen {
                Seen::Ok(v, _) => v,
                _ => unreachable!(),
            };
            v.advance(a.consumed.min(v.len()));
            let mut w = net.lock().unwrap();
            let conn = w.conns.get_mut(&c).unwrap();
            conn.got.push(val);
            conn.buf = v.to_vec();
            drop(w);
            drop_held(a.held);
        } else {
            // A partial record waits for more; a corrupted one waits for the
            // connection to be cut.
            drop_held(a.held);
            return;
        }
    }
}

// ---- log --------------------------------------------------------------------

fn log_events(l: &Loaded, plan: &Plan, recs: &[Arc<Rec>], w: &mut Net, nrecv: usize) {
    let _ = l;
    for (i, c) in plan.of("crash").enumerate() {
        let mut r = Rng::stream(c.get("seed") as u64, &[0xc4a5]);
        let mut image = Vec::new();
        let mut ends = Vec::new();
        for x in recs {
            image.extend_from_slice(&x.enc.bytes);
            ends.push(image.len());
        }
        if image.is_empty() {
            continue;
        }
        // What was synced before the crash survives; the rest is torn.
        let synced = c.get("sync") as usize % (recs.len() + 1);
        let safe = if synced == 0 { 0 } else { ends[synced - 1] };
        let at = safe + c.get("at") as usize % (image.len() - safe + 1);
        let tail: Vec<u8> = image[safe..at].to_vec();
        image.truncate(safe);
        match c.sub.as_str() {
            // Cut at a byte.
            "cut" => image.extend_from_slice(&tail),
            // The file was extended but the data never written.
            "zero" => image.extend(tail.iter().map(|_| 0)),
            // Old contents of the sectors shine through.
            "stale" => {
                image.extend_from_slice(&tail[..tail.len() / 2]);
                image.extend((0..16 + r.idx(64)).map(|_| r.next() as u8));
            }
            // Sectors arrive out of order: an early one is missing.
            _ => {
                let mut t = tail.clone();
                let n = t.len().min(32);
                for x in &mut t[..n] {
                    *x = 0;
                }
                image.extend_from_slice(&t);
            }
        }
        count(C::fault_crash_restart, 1);
        count(C::fault_torn_write, 1);
        let kind = r.below(BUF_KINDS);
        let v = view(&image, kind, r.idx(5), r.idx(9));
        w.at(
            10_000 * (i as u64 + 1),
            i % nrecv,
            Item::Log(recs.to_vec(), synced, v, c.get("step") % 2 == 1),
        );
    }
}

/// Reads the log back after a crash.
fn recover(l: &'static Loaded, recs: &[Arc<Rec>], durable: usize, mut v: Bytes, by_size: bool) {
    count(C::log_recoveries, 1);
    let mut held = Vec::new();
    let mut n = 0;
    for r in recs {
        let o = origin(&r.enc, &v);
        let a = attempt(l, r.ty, &v, o, None);
        let ok = match &a.seen {
            Seen::Ok(x, _) => n >= durable || x.diff(&r.val, &mut vec![]).is_none(),
            _ => false,
        };
        if !ok {
            drop_held(a.held);
            break;
        }
        // Step over the record by what the decoder consumed, or by wire_size()
        // (except over what K1 is known to mis-size).
        let bare = a.refd.as_ref().map(|d| d.bare).unwrap_or(1);
        let step = if by_size && bare == 0 { a.wire } else { a.consumed };
        if step > v.len() {
            break;
        }
        v.advance(step);
        if let Some(h) = a.held {
            held.push((h, a.seen));
        }
        n += 1;
    }
    if n < durable {
        let m = format!("only {n} of {durable} durable records recovered");
        violation("C01", "log-history", &m);
        violation("C03", "log-history", &m);
        if by_size {
            violation("C02", "log-history", &m);
        }
    }
    drop(v);
    for (h, s) in held {
        if let Seen::Ok(x, _) = s {
            recheck(h, x);
        }
    }
}

// ---- probes: one fault at every point of one record ----------------------------

fn probe(l: &'static Loaded, r: &Rec, p: &Line) {
    let mut g = Rng::stream(p.get("seed") as u64, &[0x9b]);
    let b = &r.enc.bytes;
    // A large record is decoded fewer times.
    let budget = (p.get("max") as usize).min((3 << 20) / (r.enc.bytes.len() + 1)).max(4);
    match p.sub.as_str() {
        // End of input at every byte.
        "prefix" => {
            let mut at: Vec<usize> = (0..b.len()).collect();
            if at.len() > budget {
                // Keep every boundary, sample the rest.
                let mut keep: BTreeSet<usize> = BTreeSet::new();
                for w in &r.enc.words {
                    if keep.len() > budget {
                        break;
                    }
                    keep.extend([w.off, w.off + 1, w.off + w.size - 1, w.off + w.size]);
                }
                for (o, n) in r.enc.pads.iter().take(budget / 4) {
                    keep.extend(*o..*o + *n);
                }
                for (o, n) in r.enc.strs.iter().chain(&r.enc.opqs).take(budget / 4) {
                    keep.extend([*o, o + n / 2, o + n]);
                }
                keep.insert(b.len() - 1);
                for _ in 0..budget / 4 {
                    keep.insert(g.idx(b.len()));
                }
                at = keep.into_iter().filter(|x| *x < b.len()).collect();
                g.shuffle(&mut at);
                at.truncate(budget);
            }
            for n in at {
                count(C::probe_prefix_cuts, 1);
                count(C::fault_truncate, 1);
                let v = view(&b[..n], g.below(BUF_KINDS), g.idx(4), g.idx(3) * 4);
                let a = attempt(l, r.ty, &v, Origin::Prefix, None);
                drop_held(a.held);
            }
        }
        // Every steering word set to every boundary value.
        "words" => {
            let mut ws: Vec<&codec::Word> = r
                .enc
                .words
                .iter()
                .filter(|w| w.kind != WordKind::Prim || b.len() < 64)
                .collect();
            g.shuffle(&mut ws);
            let mut left = budget;
            for w in ws {
                let vs = smash(w, word_at(b, w), b.len() - w.off - w.size, &l.spec, &mut g);
                for x in vs {
                    if left == 0 {
                        return;
                    }
                    left -= 1;
                    let mut c = b.clone();
                    set_word(&mut c, w, x);
                    if g.chance(1, 6) {
                        // Room for what the length now claims.
                        c.extend((0..g.idx(40)).map(|_| 0));
                    }
                    count(C::probe_words, 1);
                    count(C::fault_word, 1);
                    let v = view(&c, g.below(BUF_KINDS), g.idx(4), 0);
                    let a = attempt(l, r.ty, &v, origin(&r.enc, &c), None);
                    drop_held(a.held);
                }
            }
        }
        // Every place a string can go bad.
        "text" => {
            let mut left = budget;
            for (o, n) in r.enc.strs.clone() {
                for _ in 0..n.min(12) {
                    if left == 0 {
                        return;
                    }
                    left -= 1;
                    let mut c = b.clone();
                    c[o + g.idx(n)] = *g.pick(&[0xff, 0xc0, 0x80, 0xbf, 0xed, 0xf8, 0xe2, 0xf0, 0xf4, 0xc3]);
                    count(C::fault_utf8, 1);
                    let v = view(&c, g.below(BUF_KINDS), g.idx(4), 0);
                    let a = attempt(l, r.ty, &v, origin(&r.enc, &c), None);
                    drop_held(a.held);
                }
            }
        }
        // Every declared maximum overstepped by data that is all there.
        "over" => {
            let mut left = 1usize << 20;
            for _ in 0..12 {
                let sh = Shape { knob: g.range(1, 3) as u32, chain: g.below(3) as u32, big: 0 };
                let mut vg = ValGen::new(&l.spec, g.next(), sh);
                let by = match g.below(24) {
                    _ if l.nests[r.ty] => 1 + g.below(40),
                    0..=15 => 1 + g.below(9),
                    16..=18 => 256 - 1 + g.below(3),
                    19..=21 => 1 << g.range(4, 15),
                    _ => 65_536 - 2 + g.below(12),
                };
                vg.over = Some((g.below(5) as u32, by as u32));
                let val = vg.named(l.ops[r.ty].name);
                if vg.over.is_some() {
                    continue;
                }
                let c = codec::encode(&l.spec, l.ops[r.ty].name, &val).bytes;
                if c.len() > left || l.nests[r.ty] && c.len() > 50_000 {
                    break;
                }
                left -= c.len();
                count(C::probe_over_maximum, 1);
                let v = view(&c, g.below(BUF_KINDS), g.idx(4), 0);
                let a = attempt(l, r.ty, &v, Origin::Other, None);
                drop_held(a.held);
            }
        }
        // Every count claims what the bytes behind it might hold.
        "claim" => {
            for k in 0..8 {
                let mut c = b.clone();
                let lens = g.chance(1, 4);
                let div = *g.pick(&[1, 2, 4, 4, 4, 8, 16]);
                for w in &r.enc.words {
                    let m = match w.kind {
                        WordKind::Count(m) => m,
                        WordKind::Len(m) if lens => m,
                        _ => continue,
                    };
                    // The chain down to the innermost keeps its shape.
                    if k > 3 && word_at(b, w) == 0 && g.chance(1, 2) {
                        continue;
                    }
                    let n = ((b.len() - w.off - w.size) / div) as u64;
                    set_word(&mut c, w, n.min(m.unwrap_or(u32::MAX) as u64));
                }
                count(C::probe_claims, 1);
                let v = view(&c, g.below(BUF_KINDS), g.idx(4), 0);
                let a = attempt(l, r.ty, &v, Origin::Other, None);
                drop_held(a.held);
            }
        }
        // A long history of other messages on this thread, most of them bad,
        // must not matter.
        "soak" => {
            let bad: Vec<Bytes> = (0..4)
                .map(|_| {
                    let mut c = b.clone();
                    let ws: Vec<&codec::Word> = r.enc.words.iter().filter(|w| w.kind != WordKind::Prim).collect();
                    if ws.is_empty() || g.chance(1, 2) {
                        c.truncate(g.idx(b.len().max(1)));
                    } else {
                        let w = *g.pick(&ws);
                        let vs = smash(w, word_at(b, w), b.len() - w.off - w.size, &l.spec, &mut g);
                        set_word(&mut c, w, *g.pick(&vs));
                    }
                    Bytes::from(c)
                })
                .collect();
            let good = Bytes::from(b.clone());
            let n = (p.get("n") as usize).min((16 << 20) / (b.len() + 200));
            let ops = &l.ops[r.ty];
            count(C::probe_soaks, 1);
            for i in 0..n {
                if i % 64 == 0 {
                    crumb(bit("C04"), "decoding a long history of messages");
                }
                let v = if g.chance(1, 16) { &good } else { &bad[i % 4] };
                let o = match i % 2 {
                    0 => (ops.by_val)(v.clone()).0,
                    _ => (ops.by_mut)(&mut v.clone()).0,
                };
                count(C::soak_decodes, 1);
                match o {
                    Out::Panic(m) => {
                        violation("C04", "panic", &format!("panic '{m}' after decoding {i} messages on one thread"));
                    }
                    Out::Ok(h) => {
                        let _ = under_test(move || drop(h));
                    }
                    Out::Err(_) => {}
                }
            }
            crumb(0, "");
            let v = view(b, g.below(BUF_KINDS), g.idx(4), 0);
            let a = attempt(l, r.ty, &v, Origin::Pristine, None);
            drop_held(a.held);
        }
        // Same value, other surroundings.
        _ => {
            let v0 = view(b, 0, 0, 0);
            let base = attempt(l, r.ty, &v0, Origin::Pristine, None);
            let fine = base.refd.is_ok();
            for kind in 0..BUF_KINDS {
                for s in 0..7 {
                    let mut c = b.clone();
                    if fine {
                        match s {
                            0 => {}
                            1 => c.push(0),
                            2 => c.extend([0, 0, 0, 0]),
                            3 => c.extend([0xff; 9]),
                            4 => c.extend_from_slice(b),
                            5 => c.extend([0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 1]),
                            _ => c.extend((0..g.idx(300)).map(|_| g.next() as u8).collect::<Vec<_>>()),
                        }
                    }
                    count(C::probe_embeddings, 1);
                    count(C::fault_trailing, (s > 0) as u64);
                    let v = view(&c, kind, g.idx(9), g.idx(17));
                    let a = attempt(l, r.ty, &v, Origin::Pristine, Some(&base.seen));
                    drop_held(a.held);
                }
            }
            drop_held(base.held);
        }
    }
}

// ---- plans --------------------------------------------------------------------

/// The plan of run `i`. The property shifts the mix, nothing else.
pub fn plan(loaded: &[Loaded], prop: &str, seed: u64, i: u64) -> Plan {
    let mut r = Rng::stream(seed, &[0xdec0de, run::bit(prop), i]);
    let use_: Vec<&Loaded> = loaded
        .iter()
        .filter(|l| l.k != model::curated::BARE)
        .filter(|l| l.k != model::curated::HOLLOW || prop == "C04")
        .collect();
    let mut p = Plan::default();
    if use_.is_empty() {
        return p;
    }
    let l = use_[(i % use_.len() as u64) as usize];
    let mode = match (prop, r.below(10)) {
        ("C08" | "C09" | "C06", 0..=7) => "dgram",
        (_, 0..=5) => "dgram",
        (_, 6 | 7) => "stream",
        _ => "log",
    };
    let recv = 1 + r.idx(4);
    // Swarm: which kinds of fault this run has at all.
    let kinds = ["trunc", "flip", "word", "pad", "utf8", "junk", "tail", "splice", "torn"];
    let on: Vec<&str> = kinds.iter().filter(|_| r.chance(1, 2)).cloned().collect();
    let rate = *r.pick(&[0, 1, 3, 6]);
    let deep = r.chance(1, 12);
    let huge = r.chance(1, 16);
    let lean = mode == "dgram" && r.chance(1, 2);
    p.push(
        "run",
        mode,
        &[
            ("spec", l.k as i64),
            ("recv", recv as i64),
            ("stack", if deep { 1024 } else if lean { 2 } else { 64 }),
            ("seed", (r.next() >> 8) as i64),
        ],
    );
    let n = match mode {
        "dgram" => r.range(2, 14),
        "stream" => r.range(2, 9),
        _ => r.range(2, 8),
    };
    let pool: &[usize] = match (prop, r.below(3)) {
        ("C08", 0..=1) if !l.opaque.is_empty() => &l.opaque,
        ("C09", 0..=1) if !l.counted.is_empty() => &l.counted,
        ("C06", 0..=1) if !l.unions.is_empty() => &l.unions,
        ("C02" | "C03", 0) if !l.counted.is_empty() => &l.counted,
        _ => &l.plain,
    };
    // A stream or log whose records are few bytes long tests little.
    for id in 0..n {
        let mut links: &[usize] = &l.chains;
        if links.is_empty() || prop == "C09" && !l.nested.is_empty() || r.chance(1, 4) {
            links = &l.nested;
        }
        let chainy = deep && id == 0 && !links.is_empty();
        let ty = if chainy {
            *r.pick(links)
        } else if huge && id == 0 && !l.counted.is_empty() {
            *r.pick(&l.counted)
        } else {
            *r.pick(pool)
        };
        let big = if huge && id == 0 {
            match r.below(40) {
                0 if mode == "dgram" => *r.pick(&[(1 << 24) - 2, (1 << 24) + 5]),
                1..=4 => 1 << 20,
                5 => 200_000,
                _ => *r.pick(&[100, 254, 5000, 33_000, 65_533, 70_000]),
            }
        } else {
            0
        };
        p.push(
            "rec",
            "-",
            &[
                ("id", id),
                ("c", r.range(0, recv as i64 - 1)),
                ("ty", ty as i64),
                ("seed", (r.next() >> 8) as i64),
                ("knob", *r.pick(&[0, 1, 2, 3, 5])),
                (
                    "chain",
                    if chainy {
                        *r.pick(&[60, 300, 1000, 3000, 12_000, 36_000, 66_000])
                    } else {
                        *r.pick(&[0, 0, 1, 3, 8])
                    },
                ),
                ("big", big),
                ("arm", if r.chance(1, 3) { r.range(1, 9) } else { 0 }),
                ("kind", r.below(BUF_KINDS) as i64),
                ("lead", r.range(0, 7)),
                ("trail", r.range(0, 9)),
            ],
        );
        if !on.is_empty() && mode != "log" && (r.below(8) as i64) < rate {
            for _ in 0..1 + r.below(2) {
                p.push(
                    "flt",
                    r.pick(&on),
                    &[
                        ("id", id),
                        ("a", (r.next() >> 40) as i64),
                        ("seed", (r.next() >> 8) as i64),
                    ],
                );
            }
        }
        if mode == "dgram" {
            match r.below(12) {
                0 => p.push("net", "drop", &[("id", id)]),
                1 => p.push("net", "dup", &[("id", id)]),
                2 | 3 => p.push("net", "late", &[("id", id), ("t", r.range(1, 20))]),
                _ => {}
            }
        }
        if r.chance(1, 2) && big < 1 << 19 {
            let mix = match prop {
                "C05" => [16, 16, 4, 4, 6, 1, 0],
                "C06" => [4, 24, 12, 4, 1, 1, 0],
                "C03" => [8, 8, 4, 20, 1, 1, 0],
                "C08" => [4, 4, 0, 32, 0, 0, 0],
                "C09" => [4, 28, 4, 4, 3, 8, 0],
                "C01" => [4, 4, 4, 12, 0, 0, 1],
                "C02" => [4, 8, 0, 12, 0, 1, 0],
                _ => [16, 20, 8, 4, 3, 4, 1],
            };
            let kind = ["prefix", "words", "text", "embed", "over", "claim", "soak"][r.weighted(&mix)];
            if !(chainy || huge && id == 0) || matches!(kind, "words" | "claim") {
                let max = if chainy || huge && id == 0 { 40 } else { 160 };
                p.push(
                    "prb",
                    kind,
                    &[
                        ("id", id),
                        ("seed", (r.next() >> 8) as i64),
                        ("max", max),
                        ("n", *r.pick(&[300, 300, 1100, 1100, 5000, 5000, 5000, 70_000])),
                    ],
                );
            }
        }
    }
    match mode {
        "stream" => {
            for c in 0..recv as i64 {
                for _ in 0..r.below(10) {
                    p.push("cut", "-", &[("c", c), ("at", (r.next() >> 44) as i64)]);
                }
                for _ in 0..r.below(3) {
                    p.push("reset", "-", &[("c", c), ("at", (r.next() >> 44) as i64)]);
                }
            }
        }
        "log" => {
            for _ in 0..2 + r.below(6) {
                p.push(
                    "crash",
                    r.pick(&["cut", "zero", "stale", "hole"]),
                    &[
                        ("sync", r.range(0, n)),
                        ("at", (r.next() >> 44) as i64),
                        ("step", r.range(0, 1)),
                        ("seed", (r.next() >> 8) as i64),
                    ],
                );
            }
        }
        _ => {}
    }
    let span = *r.pick(&[60, 400, 4000]);
    for _ in 0..r.below(14) {
        p.push_pre(&mut r, span);
    }
    p
}
