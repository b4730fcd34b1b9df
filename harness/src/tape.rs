//! A protocol that is nothing but a tape of calls (module Tape of the specification), in all
//! three shapes, able to fail at any call.
use crate::dispatch;
use crate::io::block_on;
use crate::judge::{name, Cur, Stat, J};
use crate::ops::*;
use crate::val::{Meta, Val};
use async_trait::async_trait;
use parquet_format_safe::thrift::protocol::*;
use parquet_format_safe::thrift::{new_protocol_error, ApplicationError, Error, ProtocolErrorKind, Result};
use std::sync::{Arc, Mutex};

pub const NOID: i64 = 99999;
const FAILED: &str = "the tape failed, on purpose";

#[derive(Default)]
struct State {
    /// what is read; empty when writing
    tape: Vec<Op>,
    /// what was asked or written so far
    log: Vec<Op>,
    /// the call (from 1) that fails
    fail: usize,
    /// names of structs and fields as read: 0 those on the tape, 1 none, 2 others
    names: u8,
    flushes: usize,
    /// asked for something that is not on the tape, or asked on after an error
    bad: Option<String>,
    over: bool,
}

#[derive(Clone, Default)]
pub struct Tape(Arc<Mutex<State>>);

impl Tape {
    fn reading(tape: &[Op], names: u8, fail: usize) -> Tape {
        Tape(Arc::new(Mutex::new(State { tape: tape.to_vec(), names, fail, ..State::default() })))
    }
    fn writing(fail: usize) -> Tape {
        Tape(Arc::new(Mutex::new(State { fail, ..State::default() })))
    }
    fn step(s: &mut State, op: Op) -> Result<usize> {
        if s.over {
            s.bad = Some(format!("{:?} after an error", op));
        }
        s.log.push(op);
        if s.log.len() == s.fail {
            s.over = true;
            return Err(new_protocol_error(ProtocolErrorKind::NotImplemented, FAILED));
        }
        Ok(s.log.len())
    }
    fn put(&self, code: i64, args: Vec<i64>) -> Result<usize> {
        Self::step(&mut self.0.lock().unwrap(), Op { code, args })
    }
    fn flushed(&self) -> Result<()> {
        self.0.lock().unwrap().flushes += 1;
        self.put(FLUSH, vec![]).map(|_| ())
    }
    /// the answer to a call, which is next on the tape
    fn ask(&self, codes: &[i64]) -> Result<Op> {
        let mut s = self.0.lock().unwrap();
        let next = s.tape.get(s.log.len()).cloned();
        match next {
            Some(op) if codes.contains(&op.code) => Self::step(&mut s, op.clone()).map(|_| op),
            n => {
                if s.bad.is_none() {
                    s.bad = Some(format!("call {} asks {:?} where {:?} is next", s.log.len() + 1, codes, n));
                }
                s.over = true;
                Err(new_protocol_error(ProtocolErrorKind::SizeLimit, "off the tape"))
            }
        }
    }
    fn names(&self) -> u8 {
        self.0.lock().unwrap().names
    }
    fn named(&self, b: &[i64]) -> Option<String> {
        match self.names() {
            0 => Some(string(b)),
            1 => None,
            _ => Some(format!("x{}", b.len())),
        }
    }
    fn field(&self) -> Result<TFieldIdentifier> {
        let op = self.ask(&[FIELD_BEGIN, FIELD_STOP])?;
        Ok(if op.code == FIELD_STOP {
            TFieldIdentifier { name: self.named(&[]), field_type: TType::Stop, id: if self.names() == 2 { Some(1) } else { None } }
        } else {
            let id = if op.args[1] == NOID { None } else { Some(op.args[1] as i16) };
            TFieldIdentifier { name: self.named(&op.args[2..]), field_type: ttype(op.args[0]), id }
        })
    }
}
fn string(b: &[i64]) -> String {
    String::from_utf8(bytes(b)).expect("UTF-8")
}
fn bytes(b: &[i64]) -> Vec<u8> {
    b.iter().map(|b| *b as u8).collect()
}
fn ints(b: &[u8]) -> Vec<i64> {
    b.iter().map(|b| *b as i64).collect()
}
fn w8(v: i64) -> Vec<i64> {
    ints(&v.to_le_bytes())
}
fn sized(mut a: Vec<i64>, n: u32) -> Vec<i64> {
    a.extend(ints(&n.to_le_bytes()));
    a
}
fn ftype(t: Option<TType>) -> i64 {
    t.map_or(-1, wcode)
}
fn mapt(c: i64) -> Option<TType> {
    if c < 0 { None } else { Some(ttype(c)) }
}
fn fields(i: &TFieldIdentifier) -> Vec<i64> {
    let mut a = vec![wcode(i.field_type), i.id.map_or(NOID, |x| x as i64)];
    a.extend(ints(i.name.as_deref().unwrap_or("").as_bytes()));
    a
}

/// pending once
async fn pause() {
    let mut ready = false;
    std::future::poll_fn(|_| {
        if std::mem::replace(&mut ready, true) { std::task::Poll::Ready(()) } else { std::task::Poll::Pending }
    })
    .await
}

macro_rules! input {
    ($(#[$m:meta])* $tr:ident, [$($asy:tt)*], [$($p:tt)*]) => {
        $(#[$m])*
        impl $tr for Tape {
            $($asy)* fn read_message_begin(&mut self) -> Result<TMessageIdentifier> { $($p)* self.ask(&[MSG_BEGIN]).map(|_| TMessageIdentifier::new("", TMessageType::Call, 0)) }
            $($asy)* fn read_message_end(&mut self) -> Result<()> { $($p)* self.ask(&[MSG_END]).map(|_| ()) }
            $($asy)* fn read_struct_begin(&mut self) -> Result<Option<TStructIdentifier>> { $($p)* let op = self.ask(&[STRUCT_BEGIN])?; Ok(self.named(&op.args).map(TStructIdentifier::new)) }
            $($asy)* fn read_struct_end(&mut self) -> Result<()> { $($p)* self.ask(&[STRUCT_END]).map(|_| ()) }
            $($asy)* fn read_field_begin(&mut self) -> Result<TFieldIdentifier> { $($p)* self.field() }
            $($asy)* fn read_field_end(&mut self) -> Result<()> { $($p)* self.ask(&[FIELD_END]).map(|_| ()) }
            $($asy)* fn read_bool(&mut self) -> Result<bool> { $($p)* self.ask(&[BOOL]).map(|o| o.args[0] == 1) }
            $($asy)* fn read_bytes(&mut self) -> Result<Vec<u8>> { $($p)* self.ask(&[BYTES]).map(|o| bytes(&o.args)) }
            $($asy)* fn read_i8(&mut self) -> Result<i8> { $($p)* self.ask(&[I8]).map(|o| word(&o.args) as i8) }
            $($asy)* fn read_i16(&mut self) -> Result<i16> { $($p)* self.ask(&[I16]).map(|o| word(&o.args) as i16) }
            $($asy)* fn read_i32(&mut self) -> Result<i32> { $($p)* self.ask(&[I32]).map(|o| word(&o.args) as i32) }
            $($asy)* fn read_i64(&mut self) -> Result<i64> { $($p)* self.ask(&[I64]).map(|o| word(&o.args)) }
            $($asy)* fn read_double(&mut self) -> Result<f64> { $($p)* self.ask(&[DOUBLE]).map(|o| f64::from_bits(word(&o.args) as u64)) }
            $($asy)* fn read_string(&mut self) -> Result<String> { $($p)* self.ask(&[STRING]).map(|o| string(&o.args)) }
            $($asy)* fn read_list_begin(&mut self) -> Result<TListIdentifier> { $($p)* self.ask(&[LIST_BEGIN]).map(|o| TListIdentifier::new(ttype(o.args[0]), size(&o.args[1..]))) }
            $($asy)* fn read_list_end(&mut self) -> Result<()> { $($p)* self.ask(&[LIST_END]).map(|_| ()) }
            $($asy)* fn read_set_begin(&mut self) -> Result<TSetIdentifier> { $($p)* self.ask(&[SET_BEGIN]).map(|o| TSetIdentifier::new(ttype(o.args[0]), size(&o.args[1..]))) }
            $($asy)* fn read_set_end(&mut self) -> Result<()> { $($p)* self.ask(&[SET_END]).map(|_| ()) }
            $($asy)* fn read_map_begin(&mut self) -> Result<TMapIdentifier> { $($p)* self.ask(&[MAP_BEGIN]).map(|o| TMapIdentifier::new(mapt(o.args[0]), mapt(o.args[1]), size(&o.args[2..]))) }
            $($asy)* fn read_map_end(&mut self) -> Result<()> { $($p)* self.ask(&[MAP_END]).map(|_| ()) }
            $($asy)* fn read_byte(&mut self) -> Result<u8> { $($p)* self.ask(&[BYTE]).map(|o| o.args[0] as u8) }
        }
    };
}
input!(TInputProtocol, [], []);
input!(#[async_trait] TInputStreamProtocol, [async], [pause().await;]);

macro_rules! output {
    ($(#[$m:meta])* $tr:ident, [$($asy:tt)*], [$($p:tt)*]) => {
        $(#[$m])*
        impl $tr for Tape {
            $($asy)* fn write_message_begin(&mut self, _: &TMessageIdentifier) -> Result<usize> { $($p)* self.put(MSG_BEGIN, vec![]) }
            $($asy)* fn write_message_end(&mut self) -> Result<usize> { $($p)* self.put(MSG_END, vec![]) }
            $($asy)* fn write_struct_begin(&mut self, i: &TStructIdentifier) -> Result<usize> { $($p)* self.put(STRUCT_BEGIN, ints(i.name.as_bytes())) }
            fn write_struct_end(&mut self) -> Result<usize> { self.put(STRUCT_END, vec![]) }
            $($asy)* fn write_field_begin(&mut self, i: &TFieldIdentifier) -> Result<usize> { $($p)* self.put(FIELD_BEGIN, fields(i)) }
            fn write_field_end(&mut self) -> Result<usize> { self.put(FIELD_END, vec![]) }
            $($asy)* fn write_field_stop(&mut self) -> Result<usize> { $($p)* self.put(FIELD_STOP, vec![]) }
            $($asy)* fn write_bool(&mut self, b: bool) -> Result<usize> { $($p)* self.put(BOOL, vec![b as i64]) }
            $($asy)* fn write_bytes(&mut self, b: &[u8]) -> Result<usize> { $($p)* self.put(BYTES, ints(b)) }
            $($asy)* fn write_i8(&mut self, i: i8) -> Result<usize> { $($p)* self.put(I8, w8(i as i64)) }
            $($asy)* fn write_i16(&mut self, i: i16) -> Result<usize> { $($p)* self.put(I16, w8(i as i64)) }
            $($asy)* fn write_i32(&mut self, i: i32) -> Result<usize> { $($p)* self.put(I32, w8(i as i64)) }
            $($asy)* fn write_i64(&mut self, i: i64) -> Result<usize> { $($p)* self.put(I64, w8(i)) }
            $($asy)* fn write_double(&mut self, d: f64) -> Result<usize> { $($p)* self.put(DOUBLE, w8(d.to_bits() as i64)) }
            $($asy)* fn write_string(&mut self, s: &str) -> Result<usize> { $($p)* self.put(STRING, ints(s.as_bytes())) }
            $($asy)* fn write_list_begin(&mut self, i: &TListIdentifier) -> Result<usize> { $($p)* self.put(LIST_BEGIN, sized(vec![wcode(i.element_type)], i.size)) }
            $($asy)* fn write_list_end(&mut self) -> Result<usize> { $($p)* self.put(LIST_END, vec![]) }
            $($asy)* fn write_set_begin(&mut self, i: &TSetIdentifier) -> Result<usize> { $($p)* self.put(SET_BEGIN, sized(vec![wcode(i.element_type)], i.size)) }
            $($asy)* fn write_set_end(&mut self) -> Result<usize> { $($p)* self.put(SET_END, vec![]) }
            $($asy)* fn write_map_begin(&mut self, i: &TMapIdentifier) -> Result<usize> { $($p)* self.put(MAP_BEGIN, sized(vec![ftype(i.key_type), ftype(i.value_type)], i.size)) }
            $($asy)* fn write_map_end(&mut self) -> Result<usize> { $($p)* self.put(MAP_END, vec![]) }
            $($asy)* fn flush(&mut self) -> Result<()> { $($p)* self.flushed() }
            $($asy)* fn write_byte(&mut self, b: u8) -> Result<usize> { $($p)* self.put(BYTE, vec![b as i64]) }
        }
    };
}
output!(TOutputProtocol, [], []);
output!(#[async_trait] TOutputStreamProtocol, [async], [pause().await;]);

pub const APP: i64 = 99;
pub const SKIPPED: i64 = 98;

fn read(api: Api, inh: bool, ty: i64, flat: &[i64], t: &Tape) -> std::result::Result<Result<Vec<i64>>, String> {
    let mut p = t.clone();
    guard(|| match ty {
        APP => {
            let e = match api {
                Api::Boxed => Error::read_application_error_from_in_protocol(&mut Box::new(p))?,
                _ => Error::read_application_error_from_in_protocol(&mut p)?,
            };
            let mut o = vec![e.kind as i64];
            o.extend(ints(e.message.as_bytes()));
            Ok(o)
        }
        SKIPPED => {
            let (wt, d) = (ttype(flat[0]), flat[1] as i8);
            match api {
                Api::Sync if d == 64 && inh => TInputProtocol::skip(&mut p, wt),
                Api::Sync => TInputProtocol::skip_till_depth(&mut p, wt, d),
                Api::Boxed if d == 64 && inh => Box::new(p).skip(wt),
                Api::Boxed => Box::new(p).skip_till_depth(wt, d),
                Api::Async if d == 64 && inh => block_on(TInputStreamProtocol::skip(&mut p, wt)).0,
                Api::Async => block_on(TInputStreamProtocol::skip_till_depth(&mut p, wt, d)).0,
            }
            .map(|_| flat.to_vec())
        }
        _ => dispatch!(ty, X => match api {
            Api::Sync => X::rd(&mut p, inh),
            Api::Boxed => X::rd(&mut Box::new(p), inh),
            Api::Async => block_on(X::ard(&mut p, inh)).0,
        }.map(|x| x.dump().to_flat())),
    })
}

fn write(api: Api, ty: i64, flat: &[i64], t: &Tape) -> std::result::Result<Result<usize>, String> {
    let mut p = t.clone();
    guard(|| match ty {
        APP => {
            let e = ApplicationError::new(appkind(flat[0]), string(&flat[1..]));
            let mut b: Box<dyn TOutputProtocol> = Box::new(p.clone());
            match api {
                Api::Boxed => Error::write_application_error_to_out_protocol(&e, &mut b),
                _ => Error::write_application_error_to_out_protocol(&e, &mut p),
            }
            .map(|_| 0)
        }
        _ => dispatch!(ty, X => {
            let x = X::build(&Val::parse(flat, &mut 0));
            match api {
                Api::Sync => x.wr(&mut p),
                Api::Boxed => {
                    let mut b: Box<dyn TOutputProtocol> = Box::new(p);
                    x.wr(&mut b)
                }
                Api::Async => block_on(x.awr(&mut p)).0,
            }
        }),
    })
}

fn injected(e: &Error) -> bool {
    matches!(e, Error::Protocol(p) if p.kind == ProtocolErrorKind::NotImplemented && p.message == FAILED)
}
/// all of them, or some forty of many
fn failing(n: usize) -> Vec<usize> {
    if n <= 40 { (1..=n).collect() } else { (1..=12).chain((13..n - 12).step_by(((n - 24) / 16).max(1))).chain(n - 12..=n).collect() }
}

/// For a recording: status (1 failed as told, 900 panic), count, calls
pub fn rec_write(api: Api, ty: i64, flat: &[i64], fail: usize) -> (i64, usize, Vec<Op>) {
    let t = Tape::writing(fail);
    let r = write(api, ty, flat, &t);
    let mut s = t.0.lock().unwrap();
    let (st, n) = match r {
        Err(_) => (900, 0),
        Ok(Ok(n)) => (0, n),
        Ok(Err(e)) => (if injected(&e) { 1 } else { code(&e) }, 0),
    };
    (if s.bad.is_some() { 901 } else { st }, n, std::mem::take(&mut s.log))
}
/// For a recording: status (901 asked for what is not there, or on after an error), calls asked, value
pub fn rec_read(api: Api, inh: bool, ty: i64, flat: &[i64], tape: &[Op], names: u8, fail: usize) -> (i64, usize, Vec<i64>) {
    let t = Tape::reading(tape, names, fail);
    let r = read(api, inh, ty, flat, &t);
    let s = t.0.lock().unwrap();
    let (st, v) = match r {
        Err(_) => (900, vec![]),
        Ok(Ok(v)) => (0, v),
        Ok(Err(e)) => (if injected(&e) { 1 } else { code(&e) }, vec![]),
    };
    (if s.bad.is_some() { 901 } else { st }, s.log.len(), v)
}

/// 17: type, status, calls asked for, writable, count, value, calls
pub fn tape_line(c: &mut Cur, st: &mut Stat) -> J {
    let (ty, status, asked, writable, count) = (c.n(), c.n(), c.n() as usize, c.n() == 1, c.n() as usize);
    let flat = c.sec().to_vec();
    let n = c.n() as usize;
    let tape: Vec<Op> = (0..n).map(|_| { let code = c.n(); Op { code, args: c.sec().to_vec() } }).collect();
    let what = match ty {
        APP => "application error".to_string(),
        SKIPPED => format!("skipping {:?}", flat),
        _ => name(ty),
    };
    for api in APIS {
        if ty == APP && api == Api::Async {
            continue;
        }
        for (names, inh) in [(0, true), (1, false), (2, true)] {
            st.cases += 1;
            let t = Tape::reading(&tape, names, 0);
            let r = read(api, inh, ty, &flat, &t).map_err(|m| format!("{:?} {}: panic reading from a tape: {}", api, what, m))?;
            let s = t.0.lock().unwrap();
            if let Some(b) = &s.bad {
                return Err(format!("{:?} {}: read from a tape, {}; got {:?}", api, what, b, r));
            }
            let got = r.as_ref().map_or_else(code, |_| 0);
            if !crate::judge::same_status(status, got) {
                return Err(format!("{:?} {}: read from a tape, expected status {}, got {:?}", api, what, status, r));
            }
            if status == 0 && (r.as_ref().ok() != Some(&flat) || s.log.len() != asked) {
                return Err(format!("{:?} {}: read from a tape, expected {:?} with {} calls, got {:?} with {}", api, what, flat, asked, r, s.log.len()));
            }
        }
        if status == 0 {
            for k in failing(asked) {
                st.cases += 1;
                let t = Tape::reading(&tape, 0, k);
                let r = read(api, k % 2 == 0, ty, &flat, &t).map_err(|m| format!("{:?} {}: panic reading from a tape that fails at call {}: {}", api, what, k, m))?;
                let s = t.0.lock().unwrap();
                if let Some(b) = &s.bad {
                    return Err(format!("{:?} {}: read from a tape failing at call {}, {}", api, what, k, b));
                }
                if !matches!(&r, Err(e) if injected(e)) || s.log.len() != k {
                    return Err(format!("{:?} {}: read from a tape failing at call {}, got {:?} after {} calls", api, what, k, r, s.log.len()));
                }
            }
        }
        if writable {
            st.cases += 1;
            let mut want = tape.clone();
            if ty == APP {
                want.push(Op { code: FLUSH, args: vec![] });
            }
            let t = Tape::writing(0);
            let r = write(api, ty, &flat, &t).map_err(|m| format!("{:?} {}: panic writing onto a tape: {}", api, what, m))?;
            let s = t.0.lock().unwrap();
            let total = if ty == APP { 0 } else { count };
            if r.as_ref().ok() != Some(&total) {
                return Err(format!("{:?} {}: written onto a tape, expected count {}, got {:?}", api, what, total, r));
            }
            if let Some(i) = (0..want.len().max(s.log.len())).find(|i| want.get(*i) != s.log.get(*i)) {
                return Err(format!("{:?} {}: written onto a tape, call {} should be {:?}, got {:?}", api, what, i + 1, want.get(i), s.log.get(i)));
            }
            for k in failing(want.len()) {
                st.cases += 1;
                let t = Tape::writing(k);
                let r = write(api, ty, &flat, &t).map_err(|m| format!("{:?} {}: panic writing onto a tape that fails at call {}: {}", api, what, k, m))?;
                let s = t.0.lock().unwrap();
                if !matches!(&r, Err(e) if injected(e)) || s.log.len() != k || s.bad.is_some() {
                    return Err(format!("{:?} {}: written onto a tape failing at call {}, got {:?} after {} calls, {:?}", api, what, k, r, s.log.len(), s.bad));
                }
            }
        }
    }
    Ok(())
}
