//! Running the generated decoders as code under test and reading their values
//! back. Everything generic is kept small: it is instantiated for every type of
//! every specification.

pub use fastxdr::bytes::{Buf, Bytes};
pub use model::val::Val;
use crate::sys::{self, Meter};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub trait ToVal {
    fn to_val(&self) -> Val;
}

macro_rules! prim {
    ($($t:ty => $e:expr),* $(,)?) => { $(
        impl ToVal for $t {
            fn to_val(&self) -> Val { let f: fn(&$t) -> Val = $e; f(self) }
        }
    )* };
}
prim! {
    u32 => |x| Val::U32(*x),
    i32 => |x| Val::I32(*x),
    u64 => |x| Val::U64(*x),
    i64 => |x| Val::I64(*x),
    f32 => |x| Val::F32(x.to_bits()),
    f64 => |x| Val::F64(x.to_bits()),
    bool => |x| Val::Bool(*x),
    String => |x| Val::Str(x.as_bytes().to_vec()),
    Bytes => |x| Val::Opaque(x.to_vec(), x.as_ptr() as usize),
}
impl<T: ToVal> ToVal for Vec<T> {
    fn to_val(&self) -> Val {
        Val::Array(self.iter().map(|x| x.to_val()).collect())
    }
}
impl<T: ToVal, const N: usize> ToVal for [T; N] {
    fn to_val(&self) -> Val {
        Val::Array(self.iter().map(|x| x.to_val()).collect())
    }
}
impl<T: ToVal> ToVal for Option<Box<T>> {
    fn to_val(&self) -> Val {
        Val::Opt(self.as_ref().map(|x| Box::new((**x).to_val())))
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum ErrVal {
    InvalidLength,
    NonUtf8(String),
    InvalidBoolean,
    UnknownVariant(i64),
    UnknownOption(i64),
    Other(String),
}

/// A decoded value the simulator holds on to.
pub trait Held: Send {
    fn val(&self) -> Val;
    fn wire(&self) -> usize;
}

pub enum Out {
    Ok(Box<dyn Held>),
    Err(ErrVal),
    Panic(String),
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        sys::host(|| {
            let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = i.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            if sys::TASK.with(|t| t.get()) == 0 || !crate::glue::guarded() {
                eprintln!("simulator panic: {m} at {:?}", i.location());
                unsafe { sys::_exit(9) };
            }
            PANIC.with(|p| *p.borrow_mut() = m);
        })
    }));
}

thread_local! {
    static GUARDED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
pub fn guarded() -> bool {
    GUARDED.with(|g| g.get())
}
pub fn guard(on: bool) {
    GUARDED.with(|g| g.set(on));
}

/// Runs code under test: metered, preemptible, panics caught.
pub fn under_test<R>(f: impl FnOnce() -> R) -> (Result<R, String>, Meter) {
    GUARDED.with(|g| g.set(true));
    let (r, m) = sys::sut(|| catch_unwind(AssertUnwindSafe(f)));
    GUARDED.with(|g| g.set(false));
    (
        r.map_err(|e| {
            drop(e);
            PANIC.with(|p| p.borrow().clone())
        }),
        m,
    )
}

pub struct TypeOps {
    pub name: &'static str,
    pub size: usize,
    pub by_val: fn(Bytes) -> (Out, Meter),
    pub by_mut: fn(&mut Bytes) -> (Out, Meter),
}

#[macro_export]
macro_rules! module_glue {
    ($m:ident) => {
        pub fn ev(e: $m::Error) -> ErrVal {
            match e {
                $m::Error::InvalidLength => ErrVal::InvalidLength,
                $m::Error::NonUtf8String(e) => ErrVal::NonUtf8(format!("{e:?}")),
                $m::Error::InvalidBoolean => ErrVal::InvalidBoolean,
                $m::Error::UnknownVariant(v) => ErrVal::UnknownVariant(v as i64),
                $m::Error::UnknownOptionVariant(v) => ErrVal::UnknownOption(v as i64),
                e => ErrVal::Other(format!("{e:?}")),
            }
        }
        struct H<T>(T);
        impl<T: ToVal + $m::WireSize + Send> Held for H<T> {
            fn val(&self) -> Val {
                self.0.to_val()
            }
            fn wire(&self) -> usize {
                $m::WireSize::wire_size(&self.0)
            }
        }
        fn out<T: ToVal + $m::WireSize + Send + 'static>(
            r: Result<Result<T, $m::Error>, String>,
        ) -> Out {
            match r {
                Ok(Ok(v)) => Out::Ok(Box::new(H(v))),
                Ok(Err(e)) => Out::Err(ev(e)),
                Err(m) => Out::Panic(m),
            }
        }
        fn by_val<T>(b: Bytes) -> (Out, simrt::sys::Meter)
        where
            T: TryFrom<Bytes, Error = $m::Error> + ToVal + $m::WireSize + Send + 'static,
        {
            let (r, m) = under_test(move || T::try_from(b));
            (out(r), m)
        }
        fn by_mut<T>(b: &mut Bytes) -> (Out, simrt::sys::Meter)
        where
            T: for<'a> TryFrom<&'a mut Bytes, Error = $m::Error>
                + ToVal
                + $m::WireSize
                + Send
                + 'static,
        {
            let (r, m) = under_test(move || T::try_from(b));
            (out(r), m)
        }
        pub fn ops<T>(name: &'static str) -> TypeOps
        where
            T: TryFrom<Bytes, Error = $m::Error>
                + for<'a> TryFrom<&'a mut Bytes, Error = $m::Error>
                + ToVal
                + $m::WireSize
                + Send
                + 'static,
        {
            TypeOps {
                name,
                size: std::mem::size_of::<T>(),
                by_val: by_val::<T>,
                by_mut: by_mut::<T>,
            }
        }
    };
}

/// One call of a `DeserialiserExt` reader.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    U32,
    U64,
    I32,
    I64,
    F32,
    F64,
    Bool,
    Bytes(usize),
    VarBytes(Option<usize>),
    Str(Option<usize>),
    /// Element kind, maximum.
    Arr(u32, Option<usize>),
}

/// Element kinds of `Op::Arr`: 1-, 3-, 4- and 8-byte elements, counted opaque,
/// 4-byte elements that refuse odd values, and u64 keys under a boolean.
pub const ELEMS: u32 = 7;

pub type Readers = fn(&mut Bytes, Op) -> (Result<Result<Val, ErrVal>, String>, Meter);
/// Blanket `WireSize` case: (size reported, RFC size), or a panic message.
pub type Sizes = fn(u32, &[usize]) -> Result<(usize, usize), String>;
pub const SIZE_CASES: u32 = 22;

#[macro_export]
macro_rules! reader_glue {
    ($m:ident) => {
        mod reader_glue_items {
            use super::$m;
            use super::$m::{DeserialiserExt, Error, WireSize};
            use simrt::glue::*;
            pub struct E1(pub u8);
            pub struct E3([u8; 3]);
            pub struct E4(pub u32);
            pub struct E8(u64);
            pub struct EV(Bytes);
            pub struct EO(u32);
            pub struct EB(bool, u64);
            macro_rules! elem {
                ($t:ident, $v:ident => $r:expr, $s:ident => $w:expr, $o:expr) => {
                    impl TryFrom<Bytes> for $t {
                        type Error = Error;
                        fn try_from(mut $v: Bytes) -> Result<Self, Error> {
                            $r
                        }
                    }
                    impl WireSize for $t {
                        fn wire_size(&self) -> usize {
                            let $s = self;
                            $w
                        }
                    }
                    impl ToVal for $t {
                        fn to_val(&self) -> Val {
                            let $s = self;
                            $o
                        }
                    }
                };
            }
            fn take<const N: usize>(v: &mut Bytes) -> Result<[u8; N], Error> {
                if v.len() < N {
                    return Err(Error::InvalidLength);
                }
                let mut a = [0; N];
                a.copy_from_slice(&v[..N]);
                v.advance(N);
                Ok(a)
            }
            fn up(n: usize) -> usize {
                (n + 3) / 4 * 4
            }
            elem!(E1, v => Ok(E1(take::<1>(&mut v)?[0])), _s => 1, Val::U32(_s.0 as u32));
            elem!(E3, v => Ok(E3(take::<3>(&mut v)?)), _s => 3,
                Val::U32(u32::from_be_bytes([0, _s.0[0], _s.0[1], _s.0[2]])));
            elem!(E4, v => Ok(E4(u32::from_be_bytes(take::<4>(&mut v)?))), _s => 4, Val::U32(_s.0));
            elem!(E8, v => Ok(E8(u64::from_be_bytes(take::<8>(&mut v)?))), _s => 8, Val::U64(_s.0));
            elem!(EV, v => {
                let n = u32::from_be_bytes(take::<4>(&mut v)?) as usize;
                if n > v.len() || up(n) > v.len() { return Err(Error::InvalidLength); }
                Ok(EV(v.slice(..n)))
            }, _s => 4 + up(_s.0.len()), Val::Opaque(_s.0.to_vec(), _s.0.as_ptr() as usize));
            elem!(EO, v => {
                let x = u32::from_be_bytes(take::<4>(&mut v)?);
                if x & 1 == 1 { return Err(Error::UnknownVariant(x as i32)); }
                Ok(EO(x))
            }, _s => 4, Val::U32(_s.0));
            elem!(EB, v => {
                let b = u32::from_be_bytes(take::<4>(&mut v)?);
                if b > 1 { return Err(Error::InvalidBoolean); }
                let x = if b == 1 { u64::from_be_bytes(take::<8>(&mut v)?) } else { 0 };
                Ok(EB(b == 1, x))
            }, _s => if _s.0 { 12 } else { 4 },
                Val::Struct(vec![Val::Bool(_s.0), Val::U64(_s.1)]));

            fn go<T: ToVal>(
                r: (Result<Result<T, Error>, String>, simrt::sys::Meter),
            ) -> (Result<Result<Val, ErrVal>, String>, simrt::sys::Meter) {
                let m = r.1;
                let r = match r.0 {
                    Err(p) => Err(p),
                    Ok(Ok(v)) => Ok(Ok(v.to_val())),
                    Ok(Err(e)) => Ok(Err(super::ev(e))),
                };
                (r, m)
            }

            pub fn read(
                b: &mut Bytes,
                op: Op,
            ) -> (Result<Result<Val, ErrVal>, String>, simrt::sys::Meter) {
                match op {
                    Op::U32 => go(under_test(|| b.read_u32())),
                    Op::U64 => go(under_test(|| b.read_u64())),
                    Op::I32 => go(under_test(|| b.read_i32())),
                    Op::I64 => go(under_test(|| b.read_i64())),
                    Op::F32 => go(under_test(|| b.read_f32())),
                    Op::F64 => go(under_test(|| b.read_f64())),
                    Op::Bool => go(under_test(|| b.read_bool())),
                    Op::Bytes(n) => go(under_test(|| b.read_bytes(n))),
                    Op::VarBytes(m) => go(under_test(|| b.read_variable_bytes(m))),
                    Op::Str(m) => go(under_test(|| b.read_string(m))),
                    Op::Arr(0, m) => go(under_test(|| b.read_variable_array::<E1>(m))),
                    Op::Arr(1, m) => go(under_test(|| b.read_variable_array::<E3>(m))),
                    Op::Arr(2, m) => go(under_test(|| b.read_variable_array::<E4>(m))),
                    Op::Arr(3, m) => go(under_test(|| b.read_variable_array::<E8>(m))),
                    Op::Arr(4, m) => go(under_test(|| b.read_variable_array::<EV>(m))),
                    Op::Arr(5, m) => go(under_test(|| b.read_variable_array::<EO>(m))),
                    Op::Arr(_, m) => go(under_test(|| b.read_variable_array::<EB>(m))),
                }
            }

            /// `l` gives the lengths of whatever the case holds.
            pub fn size(case: u32, l: &[usize]) -> Result<(usize, usize), String> {
                let s = |n: usize| "x".repeat(n);
                let ln = |i: usize| l.get(i).copied().unwrap_or(0);
                let ws = |n: usize| 4 + up(n);
                macro_rules! sz {
                    ($e:expr, $want:expr) => {{
                        let v = $e;
                        let want = $want;
                        match under_test(|| WireSize::wire_size(&v)).0 {
                            Ok(n) => Ok((n, want)),
                            Err(m) => Err(m),
                        }
                    }};
                }
                macro_rules! sl {
                    ($e:expr, $want:expr) => {{
                        let v = $e;
                        let want = $want;
                        match under_test(|| WireSize::wire_size(&v[..])).0 {
                            Ok(n) => Ok((n, want)),
                            Err(m) => Err(m),
                        }
                    }};
                }
                match case {
                    0 => sz!(ln(0) as u32, 4),
                    1 => sz!(ln(0) as i32, 4),
                    2 => sz!(ln(0) as u64, 8),
                    3 => sz!(ln(0) as i64, 8),
                    4 => sz!(ln(0) as f32, 4),
                    5 => sz!(ln(0) as f64, 8),
                    6 => sz!(ln(0) & 1 == 1, 4),
                    7 => sz!(s(ln(0)), ws(ln(0))),
                    8 => sz!(vec![7u8; ln(0)], ws(ln(0))),
                    9 => sz!(vec![7u32; ln(0)], 4 + 4 * ln(0)),
                    10 => sz!(vec![7u64; ln(0)], 4 + 8 * ln(0)),
                    11 => sz!(
                        l.iter().map(|n| s(*n)).collect::<Vec<_>>(),
                        4 + l.iter().map(|n| ws(*n)).sum::<usize>()
                    ),
                    12 => sz!(
                        l.iter().map(|n| vec![1u8; *n]).collect::<Vec<_>>(),
                        4 + l.iter().map(|n| ws(*n)).sum::<usize>()
                    ),
                    13 => sl!(vec![7u8; ln(0)], up(ln(0))),
                    14 => sl!(vec![7i32; ln(0)], 4 * ln(0)),
                    15 => sl!(
                        l.iter().map(|n| s(*n)).collect::<Vec<_>>(),
                        l.iter().map(|n| ws(*n)).sum::<usize>()
                    ),
                    16 => sz!(if ln(0) % 2 == 0 { None } else { Some(Box::new(ln(1) as u32)) },
                        if ln(0) % 2 == 0 { 4 } else { 8 }),
                    17 => sz!(if ln(0) % 2 == 0 { None } else { Some(s(ln(1))) },
                        if ln(0) % 2 == 0 { 4 } else { 4 + ws(ln(1)) }),
                    18 => sz!(Box::new(s(ln(0))), ws(ln(0))),
                    19 => sz!(Box::new(vec![false; ln(0)]), 4 + 4 * ln(0)),
                    20 => sz!(
                        l.iter()
                            .map(|n| if *n % 2 == 0 { None } else { Some(Box::new(s(*n))) })
                            .collect::<Vec<Option<Box<String>>>>(),
                        4 + l.iter().map(|n| if *n % 2 == 0 { 4 } else { 4 + ws(*n) }).sum::<usize>()
                    ),
                    _ => sl!([s(ln(0)), s(ln(1)), s(ln(2))], ws(ln(0)) + ws(ln(1)) + ws(ln(2))),
                }
            }
        }
        pub const READERS: (Readers, Sizes) = (reader_glue_items::read, reader_glue_items::size);
    };
}
