//! The reference array: a shape and a row-major list of values. Deliberately boring.
use std::fmt;

#[derive(Clone, Copy)]
pub enum V {
    F(f64),
    I(i128),
    B(bool),
}
use V::*;
impl V {
    pub fn f(self) -> f64 {
        match self {
            F(x) => x,
            I(x) => x as f64,
            B(b) => b as u8 as f64,
        }
    }
    pub fn i(self) -> i128 {
        match self {
            F(x) => x as i128,
            I(x) => x,
            B(b) => b as i128,
        }
    }
    pub fn b(self) -> bool {
        match self {
            F(x) => x != 0.0,
            I(x) => x != 0,
            B(b) => b,
        }
    }
    pub fn is_f(self) -> bool {
        matches!(self, F(_))
    }
}
impl fmt::Debug for V {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            F(x) => write!(f, "{x:?}"),
            I(x) => write!(f, "{x}"),
            B(x) => write!(f, "{x}"),
        }
    }
}
impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        match (self, o) {
            (F(a), F(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) || a == b,
            (I(a), I(b)) => a == b,
            (B(a), B(b)) => a == b,
            _ => false,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Nd {
    pub shape: Vec<usize>,
    pub data: Vec<V>,
}

pub fn numel(s: &[usize]) -> usize {
    s.iter().product()
}

pub fn strides(s: &[usize]) -> Vec<usize> {
    let mut st = vec![1; s.len()];
    for i in (0..s.len().saturating_sub(1)).rev() {
        st[i] = st[i + 1] * s[i + 1];
    }
    st
}

/// all multi-indices of a shape in row-major order
pub fn indices(s: &[usize]) -> Vec<Vec<usize>> {
    let n = numel(s);
    let mut out = Vec::with_capacity(n);
    for k in 0..n {
        let mut r = k;
        let mut ix = vec![0; s.len()];
        for d in (0..s.len()).rev() {
            ix[d] = r % s[d];
            r /= s[d];
        }
        out.push(ix);
    }
    out
}

impl Nd {
    pub fn new(shape: Vec<usize>, data: Vec<V>) -> Nd {
        assert_eq!(numel(&shape), data.len(), "reference shape/data mismatch");
        Nd { shape, data }
    }
    pub fn scalar(v: V) -> Nd {
        Nd { shape: vec![], data: vec![v] }
    }
    pub fn from_fn(shape: &[usize], mut f: impl FnMut(&[usize]) -> V) -> Nd {
        let data = indices(shape).iter().map(|i| f(i)).collect();
        Nd { shape: shape.to_vec(), data }
    }
    pub fn lin(&self, ix: &[usize]) -> usize {
        let st = strides(&self.shape);
        ix.iter().zip(&st).map(|(a, b)| a * b).sum()
    }
    pub fn at(&self, ix: &[usize]) -> V {
        debug_assert!(ix.iter().zip(&self.shape).all(|(a, b)| a < b));
        self.data[self.lin(ix)]
    }
    pub fn map(&self, f: impl Fn(V) -> V) -> Nd {
        Nd { shape: self.shape.clone(), data: self.data.iter().map(|&v| f(v)).collect() }
    }
    pub fn reshape(&self, s: &[usize]) -> Nd {
        Nd::new(s.to_vec(), self.data.clone())
    }
    pub fn permute(&self, ax: &[usize]) -> Nd {
        let s: Vec<usize> = ax.iter().map(|&a| self.shape[a]).collect();
        Nd::from_fn(&s, |ix| {
            let mut src = vec![0; ix.len()];
            for (i, &a) in ax.iter().enumerate() {
                src[a] = ix[i];
            }
            self.at(&src)
        })
    }
    pub fn broadcast(&self, s: &[usize]) -> Nd {
        let d = s.len() - self.shape.len();
        Nd::from_fn(s, |ix| {
            let src: Vec<usize> =
                self.shape.iter().enumerate().map(|(i, &n)| if n == 1 { 0 } else { ix[i + d] }).collect();
            self.at(&src)
        })
    }
    pub fn slice(&self, dim: usize, start: usize, len: usize, step: i64) -> Nd {
        let mut s = self.shape.clone();
        s[dim] = len;
        Nd::from_fn(&s, |ix| {
            let mut src = ix.to_vec();
            src[dim] = (start as i64 + ix[dim] as i64 * step) as usize;
            self.at(&src)
        })
    }
    pub fn show(&self) -> String {
        let mut s = format!("{:?}{:?}", self.shape, &self.data[..self.data.len().min(24)]);
        if self.data.len() > 24 {
            s.push('…');
        }
        s
    }
}

pub fn bshape(a: &[usize], b: &[usize]) -> Option<Vec<usize>> {
    let n = a.len().max(b.len());
    let mut o = vec![0; n];
    for i in 0..n {
        let x = if i + a.len() >= n { a[i + a.len() - n] } else { 1 };
        let y = if i + b.len() >= n { b[i + b.len() - n] } else { 1 };
        o[i] = if x == y {
            x
        } else if x == 1 {
            y
        } else if y == 1 {
            x
        } else {
            return None;
        };
    }
    Some(o)
}
/// element-wise with broadcasting
pub fn bmap(a: &Nd, b: &Nd, f: impl Fn(V, V) -> V) -> Nd {
    let s = bshape(&a.shape, &b.shape).expect("broadcastable");
    let (x, y) = (a.broadcast(&s), b.broadcast(&s));
    Nd { shape: s, data: x.data.iter().zip(&y.data).map(|(&p, &q)| f(p, q)).collect() }
}
