//! Variable-length integers against the specification's lines.
use crate::io::*;
use crate::judge::{Cur, J, Stat};
use crate::ops::word;
use crate::val::expand;
use parquet_format_safe::thrift::varint::*;
use std::io::ErrorKind;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

macro_rules! widths {
    ($k:expr, $sg:expr, $f:ident($($a:expr),*)) => {
        match ($k, $sg) {
            (1, 0) => $f::<u8>($($a),*),
            (1, 1) => $f::<i8>($($a),*),
            (2, 0) => $f::<u16>($($a),*),
            (2, 1) => $f::<i16>($($a),*),
            (4, 0) => $f::<u32>($($a),*),
            (4, 1) => $f::<i32>($($a),*),
            (8, 0) => $f::<u64>($($a),*),
            (8, 1) => $f::<i64>($($a),*),
            x => panic!("width {:?}", x),
        }
    };
}

trait Num: VarInt + PartialEq + std::fmt::Debug + Send + Sync {
    fn of(w: i64) -> Self;
    fn as_word(self) -> i64;
}
macro_rules! num { ($($t:ty)*) => { $(impl Num for $t { fn of(w: i64) -> Self { w as $t } fn as_word(self) -> i64 { self as i64 } })* } }
num!(u8 i8 u16 i16 u32 i32 u64 i64);

fn plans() -> [Plan; 3] {
    [Plan::free(), Plan::cycle(&[1, 0, -1]), Plan::cycle(&[0, 0, 2])]
}

fn read<T: Num>(asy: bool, bytes: &[u8], plan: &Plan) -> Result<(Result<T, ErrorKind>, usize), String> {
    let pos = AtomicUsize::new(0);
    let mut src = Src::new(bytes, &pos, plan.clone());
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        if asy {
            block_on(src.read_varint_async::<T>()).0
        } else {
            src.read_varint::<T>()
        }
    }))
    .map_err(|_| format!("panic reading a varint from {:?}", bytes))?;
    Ok((r.map_err(|e| e.kind()), pos.load(Relaxed)))
}

fn enc<T: Num>(w: i64, want: &[u8], st: &mut Stat) -> J {
    st.cases += 1;
    let v = T::of(w);
    let n = want.len();
    let t = std::any::type_name::<T>();
    let err = |what: &str, got: String| Err(format!("{} of {} {:?}: expected {:?}, got {}", what, t, v, want, got));
    if v.required_space() != n {
        return err("required space", v.required_space().to_string());
    }
    let mut exact = vec![0x55u8; n];
    let k = v.encode_var(&mut exact);
    if k != n || exact != want {
        return err("encode_var", format!("{} {:?}", k, exact));
    }
    let mut wide = vec![0xAAu8; n + 12];
    let k = v.encode_var(&mut wide);
    if k != n || &wide[..n] != want || wide[n..].iter().any(|b| *b != 0xAA) {
        return err("encode_var into a larger slice", format!("{} {:?}", k, wide));
    }
    if v.encode_var_vec() != want {
        return err("encode_var_vec", format!("{:?}", v.encode_var_vec()));
    }
    for plan in plans() {
        let mut s = Sink::new(plan.clone());
        let r = s.write_varint(v).map_err(|e| e.kind());
        if r != Ok(n) || s.bytes() != want {
            return err("write_varint", format!("{:?} {:?}", r, s.bytes()));
        }
        let mut s = Sink::new(plan);
        let r = block_on(s.write_varint_async(v)).0.map_err(|e| e.kind());
        if r != Ok(n) || s.bytes() != want {
            return err("write_varint_async", format!("{:?} {:?}", r, s.bytes()));
        }
    }
    let mut more = want.to_vec();
    more.extend([0x81, 0x00, 0xff]);
    for b in [want, &more] {
        if T::decode_var(b) != Some((v, n)) {
            return err("decode_var", format!("{:?}", T::decode_var(b)));
        }
        for asy in [false, true] {
            let r = read::<T>(asy, b, &plans()[1])?;
            if r != (Ok(v), n) {
                return err(if asy { "read_varint_async" } else { "read_varint" }, format!("{:?}", r));
            }
        }
    }
    for cut in 0..n {
        if T::decode_var(&want[..cut]).is_some() {
            return err("decode_var of a proper prefix", format!("{:?}", T::decode_var(&want[..cut])));
        }
        for asy in [false, true] {
            let r = read::<T>(asy, &want[..cut], &Plan::free())?;
            if r.0 != Err(ErrorKind::UnexpectedEof) {
                return err("reading a proper prefix", format!("{:?}", r));
            }
        }
    }
    Ok(())
}

fn dec<T: Num>(status: i64, consumed: usize, w: i64, slice: bool, bytes: &[u8], st: &mut Stat) -> J {
    st.cases += 1;
    let t = std::any::type_name::<T>();
    let want: Result<T, ErrorKind> = match status {
        0 => Ok(T::of(w)),
        1 => Err(ErrorKind::UnexpectedEof),
        _ => Err(ErrorKind::InvalidData),
    };
    for asy in [false, true] {
        for plan in plans() {
            let r = read::<T>(asy, bytes, &plan)?;
            if r.0 != want || (status == 0 && r.1 != consumed) {
                return Err(format!("{} reading {} from {:?}: expected {:?} using {}, got {:?}", if asy { "async" } else { "blocking" }, t, bytes, want, consumed, r));
            }
        }
    }
    if slice {
        let s = T::decode_var(bytes);
        let want = if status == 0 { Some((T::of(w), consumed)) } else { None };
        if s != want {
            return Err(format!("decode_var of {} from {:?}: expected {:?}, got {:?}", t, bytes, want, s));
        }
    }
    Ok(())
}

pub fn enc_line(c: &mut Cur, st: &mut Stat) -> J {
    let (k, sg) = (c.n(), c.n());
    let w = word(c.take(8));
    let bytes = expand(c.sec());
    widths!(k, sg, enc(w, &bytes, st))
}
pub fn dec_line(c: &mut Cur, st: &mut Stat) -> J {
    let (k, sg, status, consumed) = (c.n(), c.n(), c.n(), c.n() as usize);
    let w = word(c.take(8));
    let slice = c.n() == 1;
    let bytes = expand(c.sec());
    widths!(k, sg, dec(status, consumed, w, slice, &bytes, st))
}

/// What every way of encoding gives: the lengths reported and the bytes.
pub fn rec_enc(k: i64, sg: i64, w: i64, plan: &Plan) -> (Vec<i64>, Vec<Vec<u8>>) {
    fn go<T: Num>(w: i64, plan: &Plan) -> (Vec<i64>, Vec<Vec<u8>>) {
        let v = T::of(w);
        let mut buf = [0x55u8; 24];
        let n = v.encode_var(&mut buf);
        let mut s = Sink::new(plan.clone());
        let m = s.write_varint(v).map(|n| n as i64).unwrap_or(-1);
        let mut a = Sink::new(plan.clone());
        let p = block_on(a.write_varint_async(v)).0.map(|n| n as i64).unwrap_or(-1);
        (vec![v.required_space() as i64, n as i64, m, p], vec![buf[..n].to_vec(), v.encode_var_vec(), s.bytes(), a.bytes()])
    }
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| widths!(k, sg, go(w, plan)))).unwrap_or((vec![-900], vec![]))
}
/// (0 ok, 1 end of file, 2 invalid data, 3 otherwise, 900 panic; bytes used; value); by: 0 blocking, 1 async, 2 slice
pub fn rec_dec(k: i64, sg: i64, bytes: &[u8], by: i64, plan: &Plan) -> (i64, usize, i64) {
    fn go<T: Num>(bytes: &[u8], by: i64, plan: &Plan) -> (i64, usize, i64) {
        if by == 2 {
            return T::decode_var(bytes).map(|(v, n)| (0, n, v.as_word())).unwrap_or((3, 0, 0));
        }
        match read::<T>(by == 1, bytes, plan) {
            Err(_) => (900, 0, 0),
            Ok((Ok(v), n)) => (0, n, v.as_word()),
            Ok((Err(ErrorKind::UnexpectedEof), _)) => (1, 0, 0),
            Ok((Err(ErrorKind::InvalidData), _)) => (2, 0, 0),
            Ok(_) => (3, 0, 0),
        }
    }
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| widths!(k, sg, go(bytes, by, plan)))).unwrap_or((900, 0, 0))
}
