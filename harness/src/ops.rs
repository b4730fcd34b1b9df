//! Executing protocol operations against the real crate: blocking, boxed and async.
use crate::io::*;
use crate::val::{Meta, Val};
use crate::{alloc, dispatch};
use parquet_format_safe::thrift::protocol::*;
use parquet_format_safe::thrift::{ApplicationError, ApplicationErrorKind, Error, Result};
use std::convert::TryFrom;
use std::io::{Seek, SeekFrom};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub const ANYERR: i64 = 998;
pub const PANIC: i64 = 900;

pub fn code(e: &Error) -> i64 {
    match e {
        Error::Transport(t) => 100 + t.kind as i64,
        Error::Protocol(p) => 200 + p.kind as i64,
        Error::Application(a) => 300 + a.kind as i64,
    }
}

pub fn ttype(c: i64) -> TType {
    match c {
        0 => TType::Stop,
        1 => TType::Bool,
        3 => TType::I08,
        4 => TType::I16,
        5 => TType::I32,
        6 => TType::I64,
        7 => TType::Double,
        8 => TType::String,
        9 => TType::List,
        10 => TType::Set,
        11 => TType::Map,
        12 => TType::Struct,
        x => panic!("bad wire type {}", x),
    }
}
pub fn wcode(t: TType) -> i64 {
    match t {
        TType::Stop => 0,
        TType::Bool => 1,
        TType::I08 => 3,
        TType::I16 => 4,
        TType::I32 => 5,
        TType::I64 => 6,
        TType::Double => 7,
        TType::String => 8,
        TType::List => 9,
        TType::Set => 10,
        TType::Map => 11,
        TType::Struct => 12,
        _ => -2,
    }
}
pub fn mtype(c: i64) -> TMessageType {
    TMessageType::try_from(c as u8).expect("message type")
}
pub fn appkind(c: i64) -> ApplicationErrorKind {
    ApplicationErrorKind::try_from(c as i32).expect("application error kind")
}

pub fn word(d: &[i64]) -> i64 {
    let mut b = [0u8; 8];
    for k in 0..8 {
        b[k] = d[k] as u8;
    }
    i64::from_le_bytes(b)
}
pub fn size(d: &[i64]) -> u32 {
    u32::from_le_bytes([d[0] as u8, d[1] as u8, d[2] as u8, d[3] as u8])
}
fn w8(v: i64) -> Vec<i64> {
    v.to_le_bytes().iter().map(|b| *b as i64).collect()
}
fn w4(v: u32) -> Vec<i64> {
    v.to_le_bytes().iter().map(|b| *b as i64).collect()
}
fn bs(b: &[u8]) -> Vec<i64> {
    b.iter().map(|b| *b as i64).collect()
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Op {
    pub code: i64,
    pub args: Vec<i64>,
}

pub const MSG_BEGIN: i64 = 1;
pub const MSG_END: i64 = 2;
pub const STRUCT_BEGIN: i64 = 3;
pub const STRUCT_END: i64 = 4;
pub const FIELD_BEGIN: i64 = 5;
pub const FIELD_END: i64 = 6;
pub const FIELD_STOP: i64 = 7;
pub const BOOL: i64 = 8;
pub const I8: i64 = 9;
pub const I16: i64 = 10;
pub const I32: i64 = 11;
pub const I64: i64 = 12;
pub const DOUBLE: i64 = 13;
pub const STRING: i64 = 14;
pub const BYTES: i64 = 15;
pub const LIST_BEGIN: i64 = 16;
pub const LIST_END: i64 = 17;
pub const SET_BEGIN: i64 = 18;
pub const SET_END: i64 = 19;
pub const MAP_BEGIN: i64 = 20;
pub const MAP_END: i64 = 21;
pub const BYTE: i64 = 22;
pub const VAL: i64 = 23;
pub const FLUSH: i64 = 24;
pub const SKIP: i64 = 25;
pub const SKIPD: i64 = 26;
pub const READ_LIST: i64 = 27;
pub const SEEK: i64 = 28;
pub const APPERR: i64 = 29;

macro_rules! read_op {
    ($(#[$m:meta])* [$($asy:tt)*], $name:ident, $tr:ident, $rd:ident, [$($aw:tt)*]) => {
        #[allow(clippy::all)]
        pub $($asy)* fn $name<P: $tr>(p: &mut P, op: &Op) -> Result<Vec<i64>> {
            let a = &op.args;
            Ok(match op.code {
                MSG_BEGIN => {
                    let m = p.read_message_begin()$($aw)*?;
                    let mut o = vec![u8::from(m.message_type) as i64];
                    o.extend(w4(m.sequence_number));
                    o.extend(bs(m.name.as_bytes()));
                    o
                }
                MSG_END => { p.read_message_end()$($aw)*?; vec![] }
                STRUCT_BEGIN => { p.read_struct_begin()$($aw)*?; vec![] }
                STRUCT_END => { p.read_struct_end()$($aw)*?; vec![] }
                FIELD_BEGIN => {
                    let f = p.read_field_begin()$($aw)*?;
                    if f.field_type == TType::Stop { vec![0, 0] } else {
                        vec![wcode(f.field_type), f.id.map(|x| x as i64).unwrap_or(-99999)]
                    }
                }
                FIELD_END => { p.read_field_end()$($aw)*?; vec![] }
                BOOL => vec![p.read_bool()$($aw)*? as i64],
                I8 => w8(p.read_i8()$($aw)*? as i64),
                I16 => w8(p.read_i16()$($aw)*? as i64),
                I32 => w8(p.read_i32()$($aw)*? as i64),
                I64 => w8(p.read_i64()$($aw)*?),
                DOUBLE => w8(p.read_double()$($aw)*?.to_bits() as i64),
                STRING => bs(p.read_string()$($aw)*?.as_bytes()),
                BYTES => bs(&p.read_bytes()$($aw)*?),
                LIST_BEGIN => { let l = p.read_list_begin()$($aw)*?; let mut o = vec![wcode(l.element_type)]; o.extend(w4(l.size)); o }
                LIST_END => { p.read_list_end()$($aw)*?; vec![] }
                SET_BEGIN => { let l = p.read_set_begin()$($aw)*?; let mut o = vec![wcode(l.element_type)]; o.extend(w4(l.size)); o }
                SET_END => { p.read_set_end()$($aw)*?; vec![] }
                MAP_BEGIN => {
                    let m = p.read_map_begin()$($aw)*?;
                    let mut o = vec![m.key_type.map(wcode).unwrap_or(-1), m.value_type.map(wcode).unwrap_or(-1)];
                    o.extend(w4(m.size));
                    o
                }
                MAP_END => { p.read_map_end()$($aw)*?; vec![] }
                BYTE => vec![p.read_byte()$($aw)*? as i64],
                VAL => dispatch!(a[0], X => X::$rd(p, a.get(1) == Some(&1))$($aw)*?.dump().to_flat()),
                SKIP => { p.skip(ttype(a[0]))$($aw)*?; vec![] }
                SKIPD => { p.skip_till_depth(ttype(a[0]), a[1] as i8)$($aw)*?; vec![] }
                READ_LIST => {
                    let v = match a[0] {
                        1 => Val::List(p.read_list::<bool>()$($aw)*?.into_iter().map(Val::Bool).collect()),
                        3 => Val::List(p.read_list::<u8>()$($aw)*?.into_iter().map(|x| Val::Int(x as i8 as i64)).collect()),
                        6 => Val::List(p.read_list::<i64>()$($aw)*?.into_iter().map(Val::Int).collect()),
                        8 => Val::List(p.read_list::<Vec<u8>>()$($aw)*?.into_iter().map(Val::Bytes).collect()),
                        9 => Val::List(p.read_list::<String>()$($aw)*?.into_iter().map(|s| Val::Bytes(s.into_bytes())).collect()),
                        t => dispatch!(t, X => Val::List(p.read_list::<X>()$($aw)*?.iter().map(|e| e.dump()).collect())),
                    };
                    v.to_flat()
                }
                c => panic!("bad read op {}", c),
            })
        }
    };
}
read_op!([], read_op_sync, TInputProtocol, rd, []);
read_op!([async], read_op_async, TInputStreamProtocol, ard, [.await]);

/// Operations that exist in the blocking API only.
pub fn read_op_any<P: TInputProtocol + Seek>(p: &mut P, op: &Op) -> Result<Vec<i64>> {
    match op.code {
        SEEK => Ok(w8(match op.args[0] {
            0 => p.seek(SeekFrom::Start(op.args[1] as u64))?,
            1 => p.seek(SeekFrom::Current(op.args[1]))?,
            2 => p.seek(SeekFrom::End(op.args[1]))?,
            3 => {
                p.rewind()?;
                0
            }
            _ => p.stream_position()?,
        } as i64)),
        APPERR => {
            let e = Error::read_application_error_from_in_protocol(p)?;
            let mut o = vec![e.kind as i64];
            o.extend(bs(e.message.as_bytes()));
            Ok(o)
        }
        _ => read_op_sync(p, op),
    }
}

macro_rules! write_op {
    ([$($asy:tt)*], $name:ident, $tr:ident, $wr:ident, [$($aw:tt)*]) => {
        #[allow(clippy::all)]
        pub $($asy)* fn $name<P: $tr>(p: &mut P, op: &Op) -> Result<usize> {
            let a = &op.args;
            match op.code {
                MSG_BEGIN => {
                    let name = String::from_utf8(crate::val::expand(&a[5..])).expect("UTF-8 name");
                    p.write_message_begin(&TMessageIdentifier::new(name, mtype(a[0]), size(&a[1..5])))$($aw)*
                }
                MSG_END => p.write_message_end()$($aw)*,
                STRUCT_BEGIN => p.write_struct_begin(&TStructIdentifier::new("s"))$($aw)*,
                STRUCT_END => p.write_struct_end(),
                FIELD_BEGIN => p.write_field_begin(&TFieldIdentifier::new("f", ttype(a[0]), a[1] as i16))$($aw)*,
                FIELD_END => p.write_field_end(),
                FIELD_STOP => p.write_field_stop()$($aw)*,
                BOOL => p.write_bool(a[0] == 1)$($aw)*,
                I8 => p.write_i8(word(a) as i8)$($aw)*,
                I16 => p.write_i16(word(a) as i16)$($aw)*,
                I32 => p.write_i32(word(a) as i32)$($aw)*,
                I64 => p.write_i64(word(a))$($aw)*,
                DOUBLE => p.write_double(f64::from_bits(word(a) as u64))$($aw)*,
                STRING => p.write_string(&String::from_utf8(crate::val::expand(a)).expect("UTF-8"))$($aw)*,
                BYTES => p.write_bytes(&crate::val::expand(a))$($aw)*,
                LIST_BEGIN => p.write_list_begin(&TListIdentifier::new(ttype(a[0]), size(&a[1..])))$($aw)*,
                LIST_END => p.write_list_end()$($aw)*,
                SET_BEGIN => p.write_set_begin(&TSetIdentifier::new(ttype(a[0]), size(&a[1..])))$($aw)*,
                SET_END => p.write_set_end()$($aw)*,
                MAP_BEGIN => {
                    let k = if a[0] < 0 { None } else { Some(ttype(a[0])) };
                    let v = if a[1] < 0 { None } else { Some(ttype(a[1])) };
                    p.write_map_begin(&TMapIdentifier::new(k, v, size(&a[2..])))$($aw)*
                }
                MAP_END => p.write_map_end()$($aw)*,
                BYTE => p.write_byte(a[0] as u8)$($aw)*,
                VAL => { let v = Val::parse(&a[1..], &mut 0); dispatch!(a[0], X => X::build(&v).$wr(p)$($aw)*) }
                FLUSH => p.flush()$($aw)*.map(|_| 0),
                c => panic!("bad write op {}", c),
            }
        }
    };
}
write_op!([], write_op_sync, TOutputProtocol, wr, []);
write_op!([async], write_op_async, TOutputStreamProtocol, awr, [.await]);

pub fn write_apperr(p: &mut dyn TOutputProtocol, kind: i64, msg: &[i64]) -> Result<()> {
    let e = ApplicationError::new(appkind(kind), String::from_utf8(crate::val::expand(msg)).expect("UTF-8"));
    Error::write_application_error_to_out_protocol(&e, p)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Api {
    Sync,
    Boxed,
    Async,
}
pub const APIS: [Api; 3] = [Api::Sync, Api::Boxed, Api::Async];

pub fn limit(l: i64) -> usize {
    if l < 0 {
        usize::MAX
    } else {
        l as usize
    }
}

/// Outcome of one operation: status, bytes transferred so far, result.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Out {
    pub status: i64,
    pub pos: usize,
    pub res: Vec<i64>,
}

pub fn guard<T>(f: impl FnOnce() -> T) -> std::result::Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
    })
}

pub struct ReadRun {
    pub outs: Vec<Out>,
    pub heap: usize,
    pub calls: usize,
    pub panic: Option<String>,
}

/// Run read operations on one reader until one fails.
pub fn run_read(api: Api, data: &[u8], lim: i64, plan: Plan, ops: &[Op]) -> ReadRun {
    let pos = AtomicUsize::new(0);
    let mut outs: Vec<Out> = vec![];
    let mut src = Src::new(data, &pos, plan);
    let mut heap = 0;
    let r = guard(|| {
        let m = alloc::mark();
        // results are recorded outside the measured peak only in part: they are small
        macro_rules! each {
            ($call:expr) => {
                for op in ops {
                    let r = $call(op);
                    heap = heap.max(alloc::peak(m));
                    let p = pos.load(Relaxed);
                    match r {
                        Ok(v) => outs.push(Out { status: 0, pos: p, res: v }),
                        Err(e) => {
                            outs.push(Out { status: code(&e), pos: p, res: vec![] });
                            break;
                        }
                    }
                }
            };
        }
        match api {
            Api::Sync => {
                let mut p = TCompactInputProtocol::new(&mut src, limit(lim));
                each!(|op| read_op_any(&mut p, op));
            }
            Api::Boxed => {
                let mut p = Box::new(TCompactInputProtocol::new(&mut src, limit(lim)));
                each!(|op| read_op_any(&mut p, op));
            }
            Api::Async => {
                let mut p = TCompactInputStreamProtocol::new(&mut src, limit(lim));
                each!(|op| block_on(read_op_async(&mut p, op)).0);
            }
        }
    });
    let panic = r.err();
    if panic.is_some() {
        outs.push(Out { status: PANIC, pos: pos.load(Relaxed), res: vec![] });
    }
    ReadRun { outs, heap, calls: src.calls, panic }
}

/// Decode one metadata value, measuring the heap used before anything is dumped.
pub struct Dec {
    pub status: i64,
    pub pos: usize,
    pub val: Option<Val>,
    pub heap: usize,
    pub calls: usize,
    pub note: String,
}

pub fn decode(api: Api, inherent: bool, ty: i64, data: &[u8], lim: i64, plan: Plan) -> Dec {
    let pos = AtomicUsize::new(0);
    let mut src = Src::new(data, &pos, plan);
    let r = guard(|| {
        dispatch!(ty, X => {
            let m = alloc::mark();
            let r = match api {
                Api::Sync => X::rd(&mut TCompactInputProtocol::new(&mut src, limit(lim)), inherent),
                Api::Boxed => X::rd(&mut Box::new(TCompactInputProtocol::new(&mut src, limit(lim))), inherent),
                Api::Async => block_on(X::ard(&mut TCompactInputStreamProtocol::new(&mut src, limit(lim)), inherent)).0,
            };
            let h = alloc::peak(m);
            (r.map(|x| x.dump()).map_err(|e| (code(&e), e.to_string())), h)
        })
    });
    let calls = src.calls;
    let pos = pos.load(Relaxed);
    match r {
        Ok((Ok(v), heap)) => Dec { status: 0, pos, val: Some(v), heap, calls, note: String::new() },
        Ok((Err((c, m)), heap)) => Dec { status: c, pos, val: None, heap, calls, note: m },
        Err(m) => Dec { status: PANIC, pos, val: None, heap: 0, calls, note: format!("panic: {}", m) },
    }
}

/// Write one metadata value: status, count returned, bytes written.
pub struct Enc {
    pub status: i64,
    pub count: usize,
    pub bytes: Vec<u8>,
    pub note: String,
}

pub fn encode(api: Api, ty: i64, v: &Val, plan: Plan) -> Enc {
    let sink = Sink::new(plan);
    let s = sink.clone();
    let r = guard(|| {
        dispatch!(ty, X => {
            let x = X::build(v);
            match api {
                Api::Sync => x.wr(&mut TCompactOutputProtocol::new(s)),
                Api::Boxed => {
                    let mut p: Box<dyn TOutputProtocol> = Box::new(TCompactOutputProtocol::new(s));
                    x.wr(&mut p)
                }
                Api::Async => block_on(x.awr(&mut TCompactOutputStreamProtocol::new(s))).0,
            }
        })
    });
    let bytes = sink.bytes();
    match r {
        Ok(Ok(n)) => Enc { status: 0, count: n, bytes, note: String::new() },
        Ok(Err(e)) => Enc { status: code(&e), count: 0, bytes, note: e.to_string() },
        Err(m) => Enc { status: PANIC, count: 0, bytes, note: format!("panic: {}", m) },
    }
}

pub struct WriteRun {
    /// per operation: status, count returned, bytes emitted in total after it
    pub outs: Vec<(i64, usize, usize)>,
    pub bytes: Vec<u8>,
    pub flushes: usize,
    pub panic: Option<String>,
}

pub fn run_write(api: Api, plan: Plan, ops: &[Op]) -> WriteRun {
    let sink = Sink::new(plan);
    let mut outs = vec![];
    let s = sink.clone();
    let r = guard(|| {
        macro_rules! each {
            ($call:expr) => {
                for op in ops {
                    let r: Result<usize> = $call(op);
                    match r {
                        Ok(n) => outs.push((0, n, sink.len())),
                        Err(e) => {
                            outs.push((code(&e), 0, sink.len()));
                            break;
                        }
                    }
                }
            };
        }
        match api {
            Api::Sync => {
                let mut p = TCompactOutputProtocol::new(s);
                each!(|op: &Op| if op.code == APPERR {
                    write_apperr(&mut p, op.args[0], &op.args[1..]).map(|_| 0)
                } else {
                    write_op_sync(&mut p, op)
                });
            }
            Api::Boxed => {
                let mut p: Box<dyn TOutputProtocol> = Box::new(TCompactOutputProtocol::new(s));
                each!(|op: &Op| if op.code == APPERR {
                    write_apperr(&mut *p, op.args[0], &op.args[1..]).map(|_| 0)
                } else {
                    write_op_sync(&mut p, op)
                });
            }
            Api::Async => {
                let mut p = TCompactOutputStreamProtocol::new(s);
                each!(|op| block_on(write_op_async(&mut p, op)).0);
            }
        }
    });
    let panic = r.err();
    if panic.is_some() {
        outs.push((PANIC, 0, sink.len()));
    }
    WriteRun { outs, bytes: sink.bytes(), flushes: sink.flushed.load(Relaxed), panic }
}
