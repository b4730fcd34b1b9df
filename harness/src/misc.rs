//! Values, identifiers and errors as such: construction, comparison, conversion.
use crate::dispatch;
use crate::io::KINDS;
use crate::judge::{name, Cur, Stat, J};
use crate::ops::{code, mtype, size, ttype, word};
use crate::val::{Meta, Val};
use parquet_format_safe::thrift::protocol::*;
use parquet_format_safe::thrift::*;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::convert::TryFrom;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::io::{self, ErrorKind};

fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn order<X: Meta>(ty: i64, fa: &Val, fb: &Val, want: i64) -> J {
    let say = |what: &str, got: &dyn Debug| Err(format!("{} of {} {:?} and {:?}: got {:?}", what, name(ty), fa, fb, got));
    let (a, b) = (X::build(fa), X::build(fb));
    for (f, x) in [(fa, &a), (fb, &b)] {
        let n = X::by_new(f);
        if n.dump() != *f || n != *x {
            return say("construction", &n);
        }
        let c = x.clone();
        if c.dump() != *f || c != *x || !(c == *x) || x.dump() != *f {
            return say("clone", &c);
        }
        if hash(&n) != hash(x) || hash(&c) != hash(x) {
            return say("hash of equal values", x);
        }
        if n.cmp(x) != Ordering::Equal || x.partial_cmp(&c) != Some(Ordering::Equal) {
            return say("order of equal values", x);
        }
    }
    let mut c = b.clone();
    c.clone_from(&a);
    if c != a {
        return say("clone into", &c);
    }
    if (a == b) != (want == 0) || (a != b) == (want == 0) || (b == a) != (want == 0) {
        return say("equality", &(a == b));
    }
    let w = want.cmp(&0);
    if a.cmp(&b) != w || b.cmp(&a) != w.reverse() || a.partial_cmp(&b) != Some(w) || b.partial_cmp(&a) != Some(w.reverse()) {
        return say("order", &(a.cmp(&b), b.cmp(&a), a.partial_cmp(&b)));
    }
    if (a < b) != (w == Ordering::Less) || (a >= b) == (w == Ordering::Less) || (a > b) != (w == Ordering::Greater) {
        return say("comparison", &(a < b, a > b));
    }
    let (hi, lo) = (a.clone().max(b.clone()), a.clone().min(b.clone()));
    if lo > hi || (hi != a && hi != b) || (lo != a && lo != b) {
        return say("max and min", &(lo, hi));
    }
    Ok(())
}

/// 14: type, order, two values
pub fn order_line(c: &mut Cur, st: &mut Stat) -> J {
    let (ty, want) = (c.n(), c.n());
    let a = Val::parse(c.sec(), &mut 0);
    let b = Val::parse(c.sec(), &mut 0);
    st.cases += 1;
    dispatch!(ty, X => order::<X>(ty, &a, &b, want))
}

fn made<T: PartialEq + Clone + Debug>(x: T, y: T, same: bool) -> J {
    if (x == y) != same || (x != y) == same || x.clone() != x || y.clone() != y {
        return Err(format!("equality of {:?} and {:?}: expected {}", x, y, same));
    }
    Ok(())
}
const NONE: i64 = -99999;

/// 16: which identifier, what two are made of
pub fn ident_line(c: &mut Cur, st: &mut Stat) -> J {
    let which = c.n();
    let (a, b) = (c.sec(), c.sec());
    st.cases += 1;
    let same = a == b;
    let bad = |x: &dyn Debug| Err(format!("identifier {} made of {:?}: got {:?}", which, a, x));
    let text = |x: &[i64]| String::from_utf8(x.iter().map(|b| *b as u8).collect()).expect("UTF-8");
    let ty = |x: i64| if x == NONE { None } else { Some(ttype(x)) };
    match which {
        1 => {
            let mk = |v: &[i64]| TMessageIdentifier::new(text(&v[5..]), mtype(v[0]), size(&v[1..5]));
            let x = mk(a);
            if x.name != text(&a[5..]) || u8::from(x.message_type) as i64 != a[0] || x.sequence_number != size(&a[1..5]) {
                return bad(&x);
            }
            made(x, mk(b), same)
        }
        2 => {
            let x = TStructIdentifier::new(text(a));
            if x.name != text(a) {
                return bad(&x);
            }
            made(x, TStructIdentifier::new(text(b)), same)
        }
        3 => {
            let nm = |v: &[i64]| if v[2] == NONE { None } else if v[2] == 0 { Some(String::new()) } else { Some("a".to_string()) };
            let id = |v: &[i64]| if v[1] == NONE { None } else { Some(v[1] as i16) };
            let mk = |v: &[i64]| TFieldIdentifier::new::<_, String, _>(nm(v), ttype(v[0]), id(v));
            let x = mk(a);
            if x.name != nm(a) || x.field_type != ttype(a[0]) || x.id != id(a) {
                return bad(&x);
            }
            let fid = field_id(&x).map_err(|e| code(&e));
            if fid != id(a).ok_or(200) {
                return bad(&fid);
            }
            made(x, mk(b), same)
        }
        4 => {
            let mk = |v: &[i64]| TListIdentifier::new(ttype(v[0]), size(&v[1..]));
            let x = mk(a);
            if x.element_type != ttype(a[0]) || x.size != size(&a[1..]) {
                return bad(&x);
            }
            made(x, mk(b), same)
        }
        5 => {
            let mk = |v: &[i64]| TSetIdentifier::new(ttype(v[0]), size(&v[1..]));
            let x = mk(a);
            if x.element_type != ttype(a[0]) || x.size != size(&a[1..]) {
                return bad(&x);
            }
            made(x, mk(b), same)
        }
        6 => {
            let mk = |v: &[i64]| TMapIdentifier::new(ty(v[0]), ty(v[1]), size(&v[2..]));
            let x = mk(a);
            if x.key_type != ty(a[0]) || x.value_type != ty(a[1]) || x.size != size(&a[2..]) {
                return bad(&x);
            }
            made(x, mk(b), same)
        }
        k => panic!("identifier {}", k),
    }
}

fn tkind(k: i64) -> TransportErrorKind {
    use TransportErrorKind::*;
    match k {
        0 => Unknown,
        1 => NotOpen,
        2 => AlreadyOpen,
        3 => TimedOut,
        4 => EndOfFile,
        5 => NegativeSize,
        6 => SizeLimit,
        _ => panic!("kind {}", k),
    }
}
fn pkind(k: i64) -> ProtocolErrorKind {
    use ProtocolErrorKind::*;
    match k {
        0 => Unknown,
        1 => InvalidData,
        2 => NegativeSize,
        3 => SizeLimit,
        4 => BadVersion,
        5 => NotImplemented,
        6 => DepthLimit,
        _ => panic!("kind {}", k),
    }
}
fn akind(k: i64) -> ApplicationErrorKind {
    use ApplicationErrorKind::*;
    match k {
        0 => Unknown,
        1 => UnknownMethod,
        2 => InvalidMessageType,
        3 => WrongMethodName,
        4 => BadSequenceId,
        5 => MissingResult,
        6 => InternalError,
        7 => ProtocolError,
        8 => InvalidTransform,
        9 => InvalidProtocol,
        10 => UnsupportedClientType,
        _ => panic!("kind {}", k),
    }
}
/// status by the names of kinds rather than their numbers
fn named(e: &Error) -> i64 {
    match e {
        Error::Transport(x) => 100 + (0..7).find(|k| tkind(*k) == x.kind).unwrap_or(99),
        Error::Protocol(x) => 200 + (0..7).find(|k| pkind(*k) == x.kind).unwrap_or(99),
        Error::Application(x) => 300 + (0..11).find(|k| akind(*k) == x.kind).unwrap_or(99),
    }
}
fn message(e: &Error) -> &str {
    match e {
        Error::Transport(x) => &x.message,
        Error::Protocol(x) => &x.message,
        Error::Application(x) => &x.message,
    }
}

const MORE: &[ErrorKind] = &[
    ErrorKind::Interrupted,
    ErrorKind::HostUnreachable,
    ErrorKind::NetworkUnreachable,
    ErrorKind::NetworkDown,
    ErrorKind::NotADirectory,
    ErrorKind::IsADirectory,
    ErrorKind::DirectoryNotEmpty,
    ErrorKind::ReadOnlyFilesystem,
    ErrorKind::StaleNetworkFileHandle,
    ErrorKind::StorageFull,
    ErrorKind::NotSeekable,
    ErrorKind::QuotaExceeded,
    ErrorKind::FileTooLarge,
    ErrorKind::ResourceBusy,
    ErrorKind::ExecutableFileBusy,
    ErrorKind::Deadlock,
    ErrorKind::TooManyLinks,
    ErrorKind::ArgumentListTooLong,
    ErrorKind::CrossesDevices,
    ErrorKind::InvalidFilename,
    ErrorKind::Other,
];

/// the error must have the status wanted and, when one is given, the message
fn holds(what: &str, e: Error, want: i64, shown: &str, msg: Option<&str>) -> J {
    if named(&e) != want || code(&e) != want || msg.map_or(false, |m| m != message(&e)) {
        return Err(format!("{}: expected {} {:?}, got {:?}", what, want, msg, e));
    }
    // as a boxed error it is still the same
    let text = e.to_string();
    let kept = message(&e).to_string();
    let inner = match &e {
        Error::Transport(x) => x.to_string(),
        Error::Protocol(x) => x.to_string(),
        Error::Application(x) => x.to_string(),
    };
    if text != shown {
        return Err(format!("{}: {:?} is shown as {:?}, expected {:?}", what, e, text, shown));
    }
    let b: Box<dyn std::error::Error + Send + Sync> = Box::new(e);
    if b.to_string() != text || text != inner || b.downcast_ref::<Error>().map(|e| (named(e), message(e) == kept)) != Some((want, true)) {
        return Err(format!("{}: {:?} changes when boxed", what, b));
    }
    Ok(())
}

/// 15: where an error arises, from what; its status (0: none) and its kind
pub fn error_line(c: &mut Cur, st: &mut Stat) -> J {
    let which = c.n();
    let a = c.sec();
    let (want, kind) = (c.n(), c.n());
    let shown: String = c.sec().iter().map(|b| *b as u8 as char).collect();
    let holds = |what: &str, e: Error, want: i64, msg: Option<&str>| holds(what, e, want, &shown, msg);
    st.cases += 1;
    let bytes = |x: &[i64]| x.iter().map(|b| *b as u8).collect::<Vec<u8>>();
    let text = |x: &[i64]| String::from_utf8(bytes(x)).expect("UTF-8");
    let what = format!("error source {} of {:?}", which, &a[..a.len().min(20)]);
    match which {
        1 => {
            let n = word(&a[1..]) as i32;
            let got = match a[0] {
                1 => TransportErrorKind::try_from(n).map(|k| (k as i64, k == tkind(k as i64))),
                2 => ProtocolErrorKind::try_from(n).map(|k| (k as i64, k == pkind(k as i64))),
                _ => ApplicationErrorKind::try_from(n).map(|k| (k as i64, k == akind(k as i64))),
            };
            match got {
                Ok(g) if want == 0 && g == (kind, true) => Ok(()),
                Err(e) if want != 0 => holds(&what, e, want, None),
                g => Err(format!("{} as a kind: expected {} {}, got {:?}", what, want, kind, g)),
            }
        }
        2 => {
            let m = text(&a[2..]);
            let (k, s) = (a[1], m.as_str());
            macro_rules! each {
                ($kind:expr, $info:ident, $new:ident, $next:expr) => {{
                    let i = $info::new($kind, s);
                    if i != $info::new($kind, m.clone()) || i != ($info { kind: $kind, message: m.clone() }) || i.kind != $kind || i.message != m {
                        return Err(format!("{}: got {:?}", what, i));
                    }
                    if i == $info::new($next, s) || i == $info::new($kind, format!("{}!", s)) {
                        return Err(format!("{}: {:?} equals another", what, i));
                    }
                    holds(&what, Error::from(i), want, Some(s))?;
                    holds(&what, $new($kind, s), want, Some(s))?;
                    holds(&what, $new($kind, m.clone()), want, Some(s))
                }};
            }
            match a[0] {
                1 => each!(tkind(k), TransportError, new_transport_error, tkind((k + 1) % 7)),
                2 => each!(pkind(k), ProtocolError, new_protocol_error, pkind((k + 1) % 7)),
                _ => each!(akind(k), ApplicationError, new_application_error, akind((k + 1) % 11)),
            }
        }
        3 => {
            let m = text(a);
            holds(&what, Error::from(m.as_str()), want, Some(&m))?;
            holds(&what, Error::from(m.clone()), want, Some(&m))
        }
        4 => {
            let i = a[0] as usize;
            let k = if i < KINDS.len() { KINDS[i] } else { MORE[i - KINDS.len()] };
            let m = text(&a[1..]);
            holds(&format!("{} ({:?})", what, k), io::Error::new(k, m.clone()).into(), want, Some(&m))?;
            let plain = io::Error::from(k).to_string();
            holds(&format!("{} ({:?})", what, k), io::Error::from(k).into(), want, Some(&plain))
        }
        5 => {
            let e = io::Error::from_raw_os_error(a[0] as i32);
            let m = e.to_string();
            holds(&what, e.into(), want, Some(&m))
        }
        6 => {
            let e = String::from_utf8(bytes(a)).expect_err("not UTF-8");
            let m = e.to_string();
            holds(&what, e.into(), want, Some(&m))
        }
        7 => {
            let e = match a[0] {
                0 => u8::try_from(300i32).expect_err("too large"),
                1 => u32::try_from(-1i64).expect_err("negative"),
                2 => i16::try_from(i64::MAX).expect_err("too large"),
                _ => usize::try_from(-5i32).expect_err("negative"),
            };
            let m = e.to_string();
            holds(&what, e.into(), want, Some(&m))
        }
        8 => {
            let e = match a[0] {
                0 => Vec::<u64>::new().try_reserve(usize::MAX).expect_err("too large"),
                1 => Vec::<u64>::new().try_reserve(usize::MAX / 8).expect_err("too large"),
                _ => String::new().try_reserve(usize::MAX).expect_err("too large"),
            };
            let m = e.to_string();
            holds(&what, e.into(), want, Some(&m))
        }
        9 => {
            let r = [
                verify_required_field_exists(&text(&a[1..]), &if a[0] == 1 { Some(0u8) } else { None }),
                verify_required_field_exists(&text(&a[1..]), &if a[0] == 1 { Some(String::new()) } else { None }),
            ];
            for r in r {
                match r {
                    Ok(()) if want == 0 => {}
                    Err(e) if want != 0 => holds(&what, e, want, None)?,
                    r => return Err(format!("{}: expected {}, got {:?}", what, want, r)),
                }
            }
            Ok(())
        }
        10 => {
            let id = if a[0] == 99999 { None } else { Some(a[0] as i16) };
            match field_id(&TFieldIdentifier::new("f", TType::I32, id)) {
                Ok(i) if want == 0 && i as i64 == kind => Ok(()),
                Err(e) if want != 0 => holds(&what, e, want, None),
                r => Err(format!("{}: expected {} {}, got {:?}", what, want, kind, r)),
            }
        }
        k => panic!("error source {}", k),
    }
}
