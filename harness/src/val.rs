//! Schema-directed values, exchanged with the specification as flat integer sequences:
//! 1 b | 2 <8 bytes> | 3 <8 bytes> | 4 n <bytes> | 5 n <elems> | 6 n (id val)*n | 7 n b | 8 n <elem>
use parquet_format_safe::thrift::protocol::*;
use parquet_format_safe::thrift::Result;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Val {
    Bool(bool),
    Int(i64),
    Bytes(Vec<u8>),
    List(Vec<Val>),
    Struct(Vec<(i16, Val)>),
}

static NONE: Val = Val::Bool(false);

impl Val {
    pub fn list(&self) -> &[Val] {
        match self {
            Val::List(l) => l,
            _ => panic!("not a list: {:?}", self),
        }
    }
    pub fn int(&self) -> i64 {
        match self {
            Val::Int(i) => *i,
            _ => panic!("not an int: {:?}", self),
        }
    }
    pub fn boolean(&self) -> bool {
        match self {
            Val::Bool(b) => *b,
            _ => panic!("not a bool: {:?}", self),
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Val::Bytes(b) => b.clone(),
            _ => panic!("not bytes: {:?}", self),
        }
    }
    pub fn string(&self) -> String {
        String::from_utf8(self.bytes()).expect("valid UTF-8")
    }
    pub fn get(&self, id: i16) -> Option<&Val> {
        match self {
            Val::Struct(f) => f.iter().find(|x| x.0 == id).map(|x| &x.1),
            _ => panic!("not a struct: {:?}", self),
        }
    }
    pub fn field(&self, id: i16) -> &Val {
        self.get(id).unwrap_or(&NONE)
    }
    pub fn only(&self) -> (i16, &Val) {
        match self {
            Val::Struct(f) => (f[0].0, &f[0].1),
            _ => panic!("not a union: {:?}", self),
        }
    }

    pub fn parse(d: &[i64], i: &mut usize) -> Val {
        let tag = d[*i];
        *i += 1;
        match tag {
            1 => {
                *i += 1;
                Val::Bool(d[*i - 1] != 0)
            }
            2 | 3 => {
                let mut b = [0u8; 8];
                for (k, x) in b.iter_mut().enumerate() {
                    *x = d[*i + k] as u8;
                }
                *i += 8;
                Val::Int(i64::from_le_bytes(b))
            }
            4 => {
                let n = d[*i] as usize;
                *i += 1;
                let b = d[*i..*i + n].iter().map(|x| *x as u8).collect();
                *i += n;
                Val::Bytes(b)
            }
            5 => {
                let n = d[*i] as usize;
                *i += 1;
                Val::List((0..n).map(|_| Val::parse(d, i)).collect())
            }
            6 => {
                let n = d[*i] as usize;
                *i += 1;
                Val::Struct(
                    (0..n)
                        .map(|_| {
                            let id = d[*i] as i16;
                            *i += 1;
                            (id, Val::parse(d, i))
                        })
                        .collect(),
                )
            }
            7 => {
                let (n, b) = (d[*i] as usize, d[*i + 1] as u8);
                *i += 2;
                Val::Bytes(vec![b; n])
            }
            8 => {
                let n = d[*i] as usize;
                *i += 1;
                let e = Val::parse(d, i);
                Val::List(vec![e; n])
            }
            t => panic!("bad value tag {}", t),
        }
    }

    pub fn flat(&self, o: &mut Vec<i64>) {
        match self {
            Val::Bool(b) => o.extend([1, *b as i64]),
            Val::Int(n) => {
                o.push(2);
                o.extend(n.to_le_bytes().iter().map(|b| *b as i64));
            }
            Val::Bytes(b) => {
                o.extend([4, b.len() as i64]);
                o.extend(b.iter().map(|b| *b as i64));
            }
            Val::List(l) => {
                o.extend([5, l.len() as i64]);
                l.iter().for_each(|e| e.flat(o));
            }
            Val::Struct(f) => {
                o.extend([6, f.len() as i64]);
                for (id, v) in f {
                    o.push(*id as i64);
                    v.flat(o);
                }
            }
        }
    }
    pub fn to_flat(&self) -> Vec<i64> {
        let mut o = vec![];
        self.flat(&mut o);
        o
    }
}

/// Expand the run form of byte strings.
pub fn expand(d: &[i64]) -> Vec<u8> {
    let mut o = Vec::with_capacity(d.len());
    for &x in d {
        if x >= 0 {
            o.push(x as u8);
        } else {
            let y = -(x + 1);
            o.resize(o.len() + (y / 256) as usize, (y % 256) as u8);
        }
    }
    o
}

/// Uniform access to the generated metadata types.
#[allow(async_fn_in_trait)]
pub trait Meta: Sized + Ord + std::hash::Hash + Clone + std::fmt::Debug {
    fn build(v: &Val) -> Self;
    fn by_new(v: &Val) -> Self;
    fn dump(&self) -> Val;
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self>;
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self>;
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize>;
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize>;
}
