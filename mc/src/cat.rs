//! The operation catalogue: every tensor operation as data, how to run it, and what it is defined to compute.
//! Definitions are written from the documentation and mathematics; floats are computed in f64, integers in i128.
use crate::nd::{bmap, bshape, indices, numel, Nd, V};
use crate::tio::*;

#[derive(Clone, Debug, PartialEq)]
pub enum K {
    Un(&'static str),
    UnS(&'static str, f64),
    UnLogic(&'static str),
    Bin(&'static str),
    Logic(&'static str),
    Cmp(&'static str),
    CmpS(&'static str, f64),
    Bit(&'static str),
    BitNot,
    Shift(&'static str, u32),
    Cast(DType),
    Contig,
    Red(&'static str, Vec<i32>, bool),
    NormP(f64, Vec<i32>, bool),
    SumTo(Vec<usize>),
    Cumsum(i32),
    Topk(usize, i32, bool, bool),
    Softmax(i32),
    LogSoftmax(i32),
    Det,
    Inv,
    Trace,
    Solve,
    IndexSelect(i32),
    IndexPut(i32),
    Gather(i32),
    Scatter(&'static str, i32),
    Onehot(usize, i32, DType),
    Nonzero,
    Unique,
    Compress(Option<i32>),
    Concat(i32),
    Stack(i32),
    Split(Vec<usize>, i32),
    Chunk(usize, i32),
    Pad(&'static str, Vec<(usize, usize)>, f64),
    RWin(&'static str, Vec<usize>, Vec<usize>, Vec<(usize, usize)>),
    Resize(Vec<usize>, &'static str, &'static str, &'static str),
    Matmul,
    Dot,
    Conv(usize, usize, usize, usize),
    ConvT(usize, usize, usize, usize, usize),
    ConvGW(Vec<usize>, usize, usize, usize),
    ConvTGW(Vec<usize>, usize, usize, usize),
    Einsum(String),
    Where,
    MaskedFill(f64),
    Clamp(f64, f64),
    ClampMin(f64),
    ClampMax(f64),
    Reshape(Vec<usize>),
    Flatten,
    Squeeze(Vec<i32>),
    Unsq(i32),
    Bcast(Vec<usize>),
    Transp(i32, i32),
    Perm(Vec<i32>),
    Repeat(Vec<usize>),
    Slice(i32, i32, Option<i32>, i32),
    Flip(Vec<i32>),
}

pub const UNARY: [&str; 39] = [
    "neg", "abs", "sign", "softsign", "square", "sqrt", "recip", "relu", "sigmoid", "hardsigmoid", "gelu", "softplus",
    "silu", "hardsilu", "mish", "selu", "celu", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh",
    "asinh", "acosh", "atanh", "exp", "exp2", "exp10", "ln", "log2", "log10", "ceil", "floor", "round", "erf",
];
pub const UNARY_S: [&str; 11] = [
    "add_scalar", "sub_scalar", "mul_scalar", "div_scalar", "rem_scalar", "pow_scalar", "maximum_scalar",
    "minimum_scalar", "leaky_relu", "elu", "prelu",
];
pub const BINARY: [&str; 8] = ["add", "sub", "mul", "div", "rem", "pow", "maximum", "minimum"];
pub const CMP: [&str; 6] = ["eq", "ne", "lt", "le", "gt", "ge"];
pub const CMP_S: [&str; 6] = ["eq_scalar", "ne_scalar", "lt_scalar", "le_scalar", "gt_scalar", "ge_scalar"];
pub const LOGIC: [&str; 3] = ["logical_and", "logical_or", "logical_xor"];
pub const UNLOGIC: [&str; 4] = ["logical_not", "isnan", "isinf", "isfinite"];
pub const BIT: [&str; 5] = ["shl", "shr", "bitwise_and", "bitwise_or", "bitwise_xor"];
pub const REDUCE: [&str; 15] = [
    "sum", "mean", "prod", "max", "min", "std", "var", "l2_norm", "l1_norm", "logsum", "logsumexp", "argmax", "argmin",
    "any", "all",
];

pub fn name(k: &K) -> String {
    format!("{k:?}").replace(' ', "")
}

/// a scalar of the tensor's own element type
pub fn sc(v: f64, d: DType) -> Scalar {
    match d {
        DType::F64 => Scalar::from(v),
        _ if d.is_float() => Scalar::from_f32(v as f32, d),
        DType::BOOL => Scalar::from(v != 0.0),
        _ => Scalar::from_isize(v as isize, d),
    }
}

/// Whether the operation is documented/validated to accept this element type for its data operands.
pub fn accepts(k: &K, d: DType) -> bool {
    let b = d == DType::BOOL;
    let f = d.is_float();
    let u = d.is_uint();
    match k {
        K::Un(n) => match *n {
            "neg" | "abs" | "sign" | "softsign" | "relu" => !b && !u,
            "square" => !b,
            _ => f,
        },
        K::UnS(n, _) => match *n {
            "add_scalar" | "sub_scalar" | "mul_scalar" | "rem_scalar" | "maximum_scalar" | "minimum_scalar" => !b,
            _ => f,
        },
        K::UnLogic(n) => *n == "logical_not" || f,
        K::Bin(n) => match *n {
            "div" | "pow" => f,
            _ => !b,
        },
        K::Logic(_) => true,
        K::Cmp(n) => matches!(*n, "eq" | "ne") || !b,
        K::CmpS(n, _) => matches!(*n, "eq_scalar" | "ne_scalar") || !b,
        K::Bit(_) | K::BitNot | K::Shift(..) => !b && !f,
        K::Red(n, ..) => match *n {
            "argmax" | "argmin" | "any" | "all" => true,
            "sum" | "prod" | "max" | "min" => !b,
            "l1_norm" => f || (!b && !u),
            _ => f,
        },
        K::NormP(..) | K::Softmax(_) | K::LogSoftmax(_) => f,
        K::SumTo(_) | K::Cumsum(_) | K::Topk(..) | K::Det | K::Trace | K::Matmul | K::Dot | K::Einsum(_) => !b,
        K::Inv | K::Solve => f,
        K::Scatter(n, _) => *n == "scatter" || !b,
        K::Onehot(..) => d == DType::I32,
        K::RWin(n, ..) => !b && (*n != "mean" || f),
        K::Resize(..) | K::Conv(..) | K::ConvT(..) | K::ConvGW(..) | K::ConvTGW(..) => f,
        K::Clamp(..) | K::ClampMin(_) | K::ClampMax(_) => !b,
        _ => true,
    }
}

pub fn run(k: &K, x: &[&Tensor]) -> HoduResult<Vec<Tensor>> {
    let a = x[0];
    let d = a.dtype();
    let one = |r: HoduResult<Tensor>| r.map(|t| vec![t]);
    match k {
        K::Un(n) => one(match *n {
            "neg" => a.neg(),
            "abs" => a.abs(),
            "sign" => a.sign(),
            "softsign" => a.softsign(),
            "square" => a.square(),
            "sqrt" => a.sqrt(),
            "recip" => a.recip(),
            "relu" => a.relu(),
            "sigmoid" => a.sigmoid(),
            "hardsigmoid" => a.hardsigmoid(),
            "gelu" => a.gelu(),
            "softplus" => a.softplus(),
            "silu" => a.silu(),
            "hardsilu" => a.hardsilu(),
            "mish" => a.mish(),
            "selu" => a.selu(),
            "celu" => a.celu(),
            "sin" => a.sin(),
            "cos" => a.cos(),
            "tan" => a.tan(),
            "asin" => a.asin(),
            "acos" => a.acos(),
            "atan" => a.atan(),
            "sinh" => a.sinh(),
            "cosh" => a.cosh(),
            "tanh" => a.tanh(),
            "asinh" => a.asinh(),
            "acosh" => a.acosh(),
            "atanh" => a.atanh(),
            "exp" => a.exp(),
            "exp2" => a.exp2(),
            "exp10" => a.exp10(),
            "ln" => a.ln(),
            "log2" => a.log2(),
            "log10" => a.log10(),
            "ceil" => a.ceil(),
            "floor" => a.floor(),
            "round" => a.round(),
            "erf" => a.erf(),
            "swish" => a.swish(),
            "hardswish" => a.hardswish(),
            _ => panic!("unary {n}"),
        }),
        K::UnS(n, s) => {
            let s = sc(*s, d);
            one(match *n {
                "add_scalar" => a.add_scalar(s),
                "sub_scalar" => a.sub_scalar(s),
                "mul_scalar" => a.mul_scalar(s),
                "div_scalar" => a.div_scalar(s),
                "rem_scalar" => a.rem_scalar(s),
                "pow_scalar" => a.pow_scalar(s),
                "maximum_scalar" => a.maximum_scalar(s),
                "minimum_scalar" => a.minimum_scalar(s),
                "leaky_relu" => a.leaky_relu(s),
                "elu" => a.elu(s),
                "prelu" => a.prelu(s),
                _ => panic!("unary scalar {n}"),
            })
        },
        K::UnLogic(n) => one(match *n {
            "logical_not" => a.logical_not(),
            "isnan" => a.isnan(),
            "isinf" => a.isinf(),
            "isfinite" => a.isfinite(),
            _ => panic!(),
        }),
        K::Bin(n) => {
            let b = x[1];
            one(match *n {
                "add" => a.add(b),
                "sub" => a.sub(b),
                "mul" => a.mul(b),
                "div" => a.div(b),
                "rem" => a.rem(b),
                "pow" => a.pow(b),
                "maximum" => a.maximum(b),
                "minimum" => a.minimum(b),
                _ => panic!(),
            })
        },
        K::Logic(n) => {
            let b = x[1];
            one(match *n {
                "logical_and" => a.logical_and(b),
                "logical_or" => a.logical_or(b),
                "logical_xor" => a.logical_xor(b),
                _ => panic!(),
            })
        },
        K::Cmp(n) => {
            let b = x[1];
            one(match *n {
                "eq" => a.eq(b),
                "ne" => a.ne(b),
                "lt" => a.lt(b),
                "le" => a.le(b),
                "gt" => a.gt(b),
                "ge" => a.ge(b),
                _ => panic!(),
            })
        },
        K::CmpS(n, s) => {
            let s = sc(*s, d);
            one(match *n {
                "eq_scalar" => a.eq_scalar(s),
                "ne_scalar" => a.ne_scalar(s),
                "lt_scalar" => a.lt_scalar(s),
                "le_scalar" => a.le_scalar(s),
                "gt_scalar" => a.gt_scalar(s),
                "ge_scalar" => a.ge_scalar(s),
                _ => panic!(),
            })
        },
        K::Bit(n) => {
            let b = x[1];
            one(match *n {
                "shl" => a.shl(b),
                "shr" => a.shr(b),
                "bitwise_and" => a.bitwise_and(b),
                "bitwise_or" => a.bitwise_or(b),
                "bitwise_xor" => a.bitwise_xor(b),
                _ => panic!(),
            })
        },
        K::BitNot => one(a.bitwise_not()),
        K::Shift(n, s) => one(if *n == "shl_scalar" { a.shl_scalar(*s) } else { a.shr_scalar(*s) }),
        K::Cast(t) => one(a.to_dtype(*t)),
        K::Contig => one(a.contiguous()),
        K::Red(n, dims, keep) => {
            let kd = *keep;
            one(match *n {
                "sum" => a.sum(dims, kd),
                "mean" => a.mean(dims, kd),
                "prod" => a.prod(dims, kd),
                "max" => a.max(dims, kd),
                "min" => a.min(dims, kd),
                "std" => a.std(dims, kd),
                "var" => a.var(dims, kd),
                "l2_norm" => a.l2_norm(dims, kd),
                "l1_norm" => a.l1_norm(dims, kd),
                "logsum" => a.logsum(dims, kd),
                "logsumexp" => a.logsumexp(dims, kd),
                "argmax" => a.argmax(dims, kd),
                "argmin" => a.argmin(dims, kd),
                "any" => a.any(dims, kd),
                "all" => a.all(dims, kd),
                _ => panic!(),
            })
        },
        K::NormP(p, dims, kd) => one(a.norm(sc(*p, d), dims, *kd)),
        K::SumTo(s) => one(a.sum_to_shape(s)),
        K::Cumsum(d) => one(a.cumsum(*d)),
        K::Topk(k, d, l, s) => a.topk(*k, *d, *l, *s).map(|(v, i)| vec![v, i]),
        K::Softmax(d) => one(a.softmax(*d)),
        K::LogSoftmax(d) => one(a.log_softmax(*d)),
        K::Det => one(a.det()),
        K::Inv => one(a.inv()),
        K::Trace => one(a.trace()),
        K::Solve => one(a.solve(x[1])),
        K::IndexSelect(d) => one(a.index_select(*d, x[1])),
        K::IndexPut(d) => one(a.index_put(*d, x[1], x[2])),
        K::Gather(d) => one(a.gather(*d, x[1])),
        K::Scatter(n, d) => one(match *n {
            "scatter" => a.scatter(*d, x[1], x[2]),
            "scatter_add" => a.scatter_add(*d, x[1], x[2]),
            "scatter_max" => a.scatter_max(*d, x[1], x[2]),
            "scatter_min" => a.scatter_min(*d, x[1], x[2]),
            _ => panic!(),
        }),
        K::Onehot(n, ax, t) => one(a.onehot(*n, *ax, *t)),
        K::Nonzero => one(a.nonzero()),
        K::Unique => a.unique().map(|(a, b, c)| vec![a, b, c]),
        K::Compress(ax) => one(a.compress(x[1], *ax)),
        K::Concat(d) => one(Tensor::concat(x, *d)),
        K::Stack(d) => one(Tensor::stack(x, *d)),
        K::Split(s, d) => a.split(s, *d),
        K::Chunk(n, d) => a.chunk(*n, *d),
        K::Pad(m, p, v) => one(a.pad(p, m, sc(*v, d))),
        K::RWin(n, w, s, p) => one(a.reduce_window(w, s, p, n)),
        K::Resize(o, m, c, n) => one(a.resize(o, m, c, n)),
        K::Matmul => one(a.matmul(x[1])),
        K::Dot => one(a.dot(x[1])),
        K::Conv(nd, s, p, dl) => one(match nd {
            1 => a.conv1d(x[1], *s, *p, *dl),
            2 => a.conv2d(x[1], *s, *p, *dl),
            _ => a.conv3d(x[1], *s, *p, *dl),
        }),
        K::ConvT(nd, s, p, op, dl) => one(match nd {
            1 => a.conv_transpose1d(x[1], *s, *p, *op, *dl),
            2 => a.conv_transpose2d(x[1], *s, *p, *op, *dl),
            _ => a.conv_transpose3d(x[1], *s, *p, *op, *dl),
        }),
        K::ConvGW(w, s, p, dl) => one(match w.len() {
            3 => a.conv1d_grad_weight(x[1], w, *s, *p, *dl),
            4 => a.conv2d_grad_weight(x[1], w, *s, *p, *dl),
            _ => a.conv3d_grad_weight(x[1], w, *s, *p, *dl),
        }),
        K::ConvTGW(w, s, p, dl) => one(match w.len() {
            3 => a.conv_transpose1d_grad_weight(x[1], w, *s, *p, *dl),
            4 => a.conv_transpose2d_grad_weight(x[1], w, *s, *p, *dl),
            _ => a.conv_transpose3d_grad_weight(x[1], w, *s, *p, *dl),
        }),
        K::Einsum(e) => one(Tensor::einsum(e, x)),
        K::Where => one(a.where3(x[1], x[2])),
        K::MaskedFill(v) => one(a.masked_fill(x[1], sc(*v, d))),
        K::Clamp(l, h) => one(a.clamp(sc(*l, d), sc(*h, d))),
        K::ClampMin(l) => one(a.clamp_min(sc(*l, d))),
        K::ClampMax(h) => one(a.clamp_max(sc(*h, d))),
        K::Reshape(s) => one(a.reshape(s)),
        K::Flatten => one(a.flatten()),
        K::Squeeze(d) => one(a.squeeze(d)),
        K::Unsq(d) => one(a.unsqueeze(*d)),
        K::Bcast(s) => one(a.broadcast(s)),
        K::Transp(i, j) => one(a.transpose(*i, *j)),
        K::Perm(p) => one(a.permute(p)),
        K::Repeat(r) => one(a.repeat(r)),
        K::Slice(d, s, e, st) => one(a.slice(*d, *s, *e, *st)),
        K::Flip(d) => one(a.flip(d)),
    }
}

extern "C" {
    fn erf(x: f64) -> f64;
}

pub fn un(n: &str, x: f64) -> f64 {
    let sg = |x: f64| 1.0 / (1.0 + (-x).exp());
    let hs = |x: f64| if x.is_nan() { x } else { ((x + 3.0) / 6.0).clamp(0.0, 1.0) };
    let sp = |x: f64| x.max(0.0) + (-x.abs()).exp().ln_1p();
    match n {
        "neg" => -x,
        "abs" => x.abs(),
        "sign" => {
            if x > 0.0 {
                1.0
            } else if x < 0.0 {
                -1.0
            } else {
                0.0
            }
        },
        "softsign" => x / (1.0 + x.abs()),
        "square" => x * x,
        "sqrt" => x.sqrt(),
        "recip" => 1.0 / x,
        "relu" => {
            if x > 0.0 {
                x
            } else {
                0.0
            }
        },
        "sigmoid" => sg(x),
        "hardsigmoid" => hs(x),
        "gelu" => 0.5 * x * (1.0 + ((2.0 / std::f64::consts::PI).sqrt() * (x + 0.044715 * x * x * x)).tanh()),
        "softplus" => sp(x),
        "silu" | "swish" => x * sg(x),
        "hardsilu" | "hardswish" => x * hs(x),
        "mish" => x * sp(x).tanh(),
        "selu" => 1.0507009873554805 * if x > 0.0 { x } else { 1.6732632423543772 * x.exp_m1() },
        "celu" => {
            if x > 0.0 {
                x
            } else {
                x.exp_m1()
            }
        },
        "sin" => x.sin(),
        "cos" => x.cos(),
        "tan" => x.tan(),
        "asin" => x.asin(),
        "acos" => x.acos(),
        "atan" => x.atan(),
        "sinh" => x.sinh(),
        "cosh" => x.cosh(),
        "tanh" => x.tanh(),
        "asinh" => x.asinh(),
        "acosh" => x.acosh(),
        "atanh" => x.atanh(),
        "exp" => x.exp(),
        "exp2" => x.exp2(),
        "exp10" => 10f64.powf(x),
        "ln" => x.ln(),
        "log2" => x.log2(),
        "log10" => x.log10(),
        "ceil" => x.ceil(),
        "floor" => x.floor(),
        "round" => x.round(),
        "erf" => unsafe { erf(x) },
        _ => panic!("un {n}"),
    }
}
fn un_i(n: &str, x: i128) -> i128 {
    match n {
        "neg" => -x,
        "abs" => x.abs(),
        "sign" => x.signum(),
        // integer softsign truncates x/(1+|x|), which is 0 for every integer
        "softsign" => 0,
        "square" => x.wrapping_mul(x),
        "relu" => x.max(0),
        _ => panic!("un_i {n}"),
    }
}
pub fn bin(n: &str, x: f64, y: f64) -> f64 {
    match n {
        "add" | "add_scalar" => x + y,
        "sub" | "sub_scalar" => x - y,
        "mul" | "mul_scalar" => x * y,
        "div" | "div_scalar" => x / y,
        "rem" | "rem_scalar" => x % y,
        "pow" | "pow_scalar" => x.powf(y),
        "maximum" | "maximum_scalar" => {
            if x > y {
                x
            } else {
                y
            }
        },
        "minimum" | "minimum_scalar" => {
            if x < y {
                x
            } else {
                y
            }
        },
        "leaky_relu" | "prelu" => {
            if x > 0.0 {
                x
            } else {
                y * x
            }
        },
        "elu" => {
            if x > 0.0 {
                x
            } else {
                y * x.exp_m1()
            }
        },
        _ => panic!("bin {n}"),
    }
}
fn bin_i(d: DType, n: &str, x: i128, y: i128) -> i128 {
    match n {
        "add" | "add_scalar" => x + y,
        // unsigned subtraction stops at zero
        "sub" | "sub_scalar" if d.is_uint() => (x - y).max(0),
        "sub" | "sub_scalar" => x - y,
        "mul" | "mul_scalar" => x.wrapping_mul(y),
        "rem" | "rem_scalar" => {
            if y == 0 {
                0
            } else {
                x % y
            }
        },
        "maximum" | "maximum_scalar" => x.max(y),
        "minimum" | "minimum_scalar" => x.min(y),
        _ => panic!("bin_i {n}"),
    }
}
fn cmp<T: PartialOrd>(n: &str, x: T, y: T) -> bool {
    match n.trim_end_matches("_scalar") {
        "eq" => x == y,
        "ne" => x != y,
        "lt" => x < y,
        "le" => x <= y,
        "gt" => x > y,
        "ge" => x >= y,
        _ => panic!("cmp {n}"),
    }
}
pub fn cmpv(n: &str, x: V, y: V) -> bool {
    match (x, y) {
        (V::F(a), V::F(b)) => cmp(n, a, b),
        (a, b) => cmp(n, a.i(), b.i()),
    }
}
fn add(a: V, b: V, d: DType) -> V {
    match (a, b) {
        (V::F(x), V::F(y)) => V::F(x + y),
        (x, y) => V::I(wrap(d, x.i() + y.i())),
    }
}
fn mul(a: V, b: V, d: DType) -> V {
    match (a, b) {
        (V::F(x), V::F(y)) => V::F(x * y),
        (x, y) => V::I(wrap(d, x.i().wrapping_mul(y.i()))),
    }
}
pub fn zero(d: DType) -> V {
    if d.is_float() {
        V::F(0.0)
    } else if d.is_bool() {
        V::B(false)
    } else {
        V::I(0)
    }
}
pub fn val(v: f64, d: DType) -> V {
    if d.is_float() {
        V::F(v)
    } else if d.is_bool() {
        V::B(v != 0.0)
    } else {
        V::I(v as i128)
    }
}
fn vmax(a: V, b: V, big: bool) -> V {
    let gt = cmpv("gt", a, b);
    let lt = cmpv("lt", a, b);
    if (big && lt) || (!big && gt) {
        b
    } else {
        a
    }
}
pub fn ax(d: i32, n: usize) -> usize {
    if d < 0 {
        (d + n as i32) as usize
    } else {
        d as usize
    }
}
pub fn axes(d: &[i32], n: usize) -> Vec<usize> {
    if d.is_empty() {
        (0..n).collect()
    } else {
        d.iter().map(|&x| ax(x, n)).collect()
    }
}

fn reduce(a: &Nd, dims: &[i32], keep: bool, f: impl Fn(&[V]) -> V) -> Nd {
    let n = a.shape.len();
    let ds = axes(dims, n);
    let full: Vec<usize> = (0..n).map(|i| if ds.contains(&i) { 1 } else { a.shape[i] }).collect();
    let red: Vec<usize> = (0..n).map(|i| if ds.contains(&i) { a.shape[i] } else { 1 }).collect();
    let ri = indices(&red);
    let r = Nd::from_fn(&full, |ix| {
        let vals: Vec<V> = ri
            .iter()
            .map(|j| {
                let k: Vec<usize> = ix.iter().zip(j).map(|(p, q)| p + q).collect();
                a.at(&k)
            })
            .collect();
        f(&vals)
    });
    if keep {
        r
    } else {
        let s: Vec<usize> = (0..n).filter(|i| !ds.contains(i)).map(|i| a.shape[i]).collect();
        r.reshape(&s)
    }
}

pub fn red_vals(n: &str, v: &[V], d: DType) -> V {
    let m = v.len() as f64;
    let fs = || v.iter().map(|x| x.f());
    match n {
        "sum" => v.iter().fold(zero(d), |a, &b| add(a, b, d)),
        "prod" => v.iter().fold(val(1.0, d), |a, &b| mul(a, b, d)),
        "mean" => V::F(fs().sum::<f64>() / m),
        "max" => v.iter().skip(1).fold(v[0], |a, &b| vmax(a, b, true)),
        "min" => v.iter().skip(1).fold(v[0], |a, &b| vmax(a, b, false)),
        "var" | "std" => {
            let mu = fs().sum::<f64>() / m;
            let s = fs().map(|x| (x - mu) * (x - mu)).sum::<f64>() / m;
            V::F(if n == "std" { s.sqrt() } else { s })
        },
        "l2_norm" => V::F(fs().map(|x| x * x).sum::<f64>().sqrt()),
        "l1_norm" => v.iter().fold(zero(d), |a, &b| {
            add(a, if b.is_f() { V::F(b.f().abs()) } else { V::I(wrap(d, b.i().abs())) }, d)
        }),
        "logsum" => V::F(fs().sum::<f64>().ln()),
        "logsumexp" => {
            let mx = fs().fold(f64::NEG_INFINITY, f64::max);
            V::F(mx + fs().map(|x| (x - mx).exp()).sum::<f64>().ln())
        },
        "argmax" | "argmin" => {
            let mut best = 0;
            for i in 1..v.len() {
                if cmpv(if n == "argmax" { "gt" } else { "lt" }, v[i], v[best]) {
                    best = i;
                }
            }
            V::I(best as i128)
        },
        "any" => V::B(v.iter().any(|x| x.b())),
        "all" => V::B(v.iter().all(|x| x.b())),
        _ => panic!("reduce {n}"),
    }
}

fn along(a: &Nd, d: usize, out_len: usize, f: impl Fn(&[V]) -> Vec<V>) -> Nd {
    let mut s = a.shape.clone();
    s[d] = out_len;
    let mut base = a.shape.clone();
    base[d] = 1;
    let mut out = Nd { shape: s.clone(), data: vec![V::F(0.0); numel(&s)] };
    for ix in indices(&base) {
        let v: Vec<V> = (0..a.shape[d])
            .map(|i| {
                let mut j = ix.clone();
                j[d] = i;
                a.at(&j)
            })
            .collect();
        for (i, r) in f(&v).into_iter().enumerate() {
            let mut j = ix.clone();
            j[d] = i;
            let l = out.lin(&j);
            out.data[l] = r;
        }
    }
    out
}

fn batch_mat(a: &Nd) -> (Vec<usize>, Vec<Vec<f64>>, usize, usize) {
    let n = a.shape.len();
    let (r, c) = (a.shape[n - 2], a.shape[n - 1]);
    let b = a.shape[..n - 2].to_vec();
    (b, a.data.chunks(r * c).map(|m| m.iter().map(|v| v.f()).collect()).collect(), r, c)
}
pub fn det_f(m: &[f64], n: usize) -> f64 {
    // Laplace expansion: exact for small integers, no pivoting to get wrong
    if n == 0 {
        return 1.0;
    }
    if n == 1 {
        return m[0];
    }
    (0..n)
        .map(|j| {
            let mut sub = vec![];
            for i in 1..n {
                for k in 0..n {
                    if k != j {
                        sub.push(m[i * n + k]);
                    }
                }
            }
            (if j % 2 == 0 { 1.0 } else { -1.0 }) * m[j] * det_f(&sub, n - 1)
        })
        .sum()
}
pub fn inv_f(m: &[f64], n: usize) -> Vec<f64> {
    // adjugate
    let d = det_f(m, n);
    let mut out = vec![0.0; n * n];
    for i in 0..n {
        for j in 0..n {
            let mut sub = vec![];
            for r in 0..n {
                for c in 0..n {
                    if r != i && c != j {
                        sub.push(m[r * n + c]);
                    }
                }
            }
            out[j * n + i] = (if (i + j) % 2 == 0 { 1.0 } else { -1.0 }) * det_f(&sub, n - 1) / d;
        }
    }
    out
}

pub fn matmul(a: &Nd, b: &Nd, d: DType) -> Nd {
    // batch dimensions broadcast
    let (na, nb) = (a.shape.len(), b.shape.len());
    let bs = bshape(&a.shape[..na - 2], &b.shape[..nb - 2]).expect("batch");
    let (m, kk, n) = (a.shape[na - 2], a.shape[na - 1], b.shape[nb - 1]);
    let mut sa = bs.clone();
    sa.extend([m, kk]);
    let mut sb = bs.clone();
    sb.extend([kk, n]);
    let (a, b) = (a.broadcast(&sa), b.broadcast(&sb));
    let mut so = bs.clone();
    so.extend([m, n]);
    Nd::from_fn(&so, |ix| {
        let l = ix.len();
        let mut acc = zero(d);
        for k in 0..kk {
            let mut i = ix.to_vec();
            let mut j = ix.to_vec();
            i[l - 1] = k;
            j[l - 2] = k;
            acc = add(acc, mul(a.at(&i), b.at(&j), d), d);
        }
        acc
    })
}

/// sum of products over all index letters; None when the expression or the shapes are invalid
pub fn einsum(eq: &str, x: &[Nd], d: DType) -> Option<Nd> {
    let eq: String = eq.chars().filter(|c| !c.is_whitespace()).collect();
    let (lhs, rhs) = match eq.split_once("->") {
        Some((l, r)) => (l.to_string(), Some(r.to_string())),
        None => (eq.clone(), None),
    };
    let ins: Vec<Vec<char>> = lhs.split(',').map(|s| s.chars().collect()).collect();
    if ins.len() != x.len() {
        return None;
    }
    if ins.iter().flatten().any(|c| !c.is_ascii_alphabetic()) {
        return None;
    }
    let mut size = std::collections::BTreeMap::new();
    for (s, t) in ins.iter().zip(x) {
        if s.len() != t.shape.len() {
            return None;
        }
        for (&c, &n) in s.iter().zip(&t.shape) {
            if *size.entry(c).or_insert(n) != n {
                return None;
            }
        }
    }
    let out: Vec<char> = match rhs {
        Some(r) => r.chars().collect(),
        None => {
            let mut o: Vec<char> = size.keys().copied().collect();
            o.retain(|c| ins.iter().flatten().filter(|k| *k == c).count() == 1);
            o
        },
    };
    for (i, c) in out.iter().enumerate() {
        if !size.contains_key(c) || out[..i].contains(c) {
            return None;
        }
    }
    let sumc: Vec<char> = size.keys().copied().filter(|c| !out.contains(c)).collect();
    let so: Vec<usize> = out.iter().map(|c| size[c]).collect();
    let ss: Vec<usize> = sumc.iter().map(|c| size[c]).collect();
    let si = indices(&ss);
    Some(Nd::from_fn(&so, |ix| {
        let mut acc = zero(d);
        for sx in &si {
            let look = |c: char| {
                out.iter().position(|&o| o == c).map(|p| ix[p]).unwrap_or_else(|| sx[sumc.iter().position(|&o| o == c).unwrap()])
            };
            let mut p = val(1.0, d);
            for (s, t) in ins.iter().zip(x) {
                let j: Vec<usize> = s.iter().map(|&c| look(c)).collect();
                p = mul(p, t.at(&j), d);
            }
            acc = add(acc, p, d);
        }
        acc
    }))
}

fn out_dim(n: usize, k: usize, s: usize, p: usize, dl: usize) -> Option<usize> {
    let e = dl * (k - 1) + 1;
    if n + 2 * p < e {
        return None;
    }
    Some((n + 2 * p - e) / s + 1)
}

fn resize_coord(o: f64, i: usize, n: usize, ct: &str) -> f64 {
    if i == n {
        return o;
    }
    let sc = i as f64 / n as f64;
    match ct {
        "half_pixel" => (o + 0.5) * sc - 0.5,
        "asymmetric" => o * sc,
        "align_corners" => {
            if n == 1 {
                0.0
            } else {
                o * (i as f64 - 1.0) / (n as f64 - 1.0)
            }
        },
        "pytorch_half_pixel" => {
            if n == 1 {
                0.0
            } else {
                (o + 0.5) * sc - 0.5
            }
        },
        _ => panic!(),
    }
}
/// interpolation weights of one output position along one axis: (source index, weight)
fn resize_w(o: usize, i: usize, n: usize, m: &str, ct: &str, nm: &str) -> Vec<(usize, f64)> {
    let c = resize_coord(o as f64, i, n, ct);
    let cl = |x: f64| x.max(0.0).min(i as f64 - 1.0) as usize;
    match m {
        "nearest" => {
            let r = match nm {
                "floor" => c.floor(),
                "ceil" => c.ceil(),
                "round_prefer_floor" => (c - 0.5).ceil(),
                _ => (c + 0.5).floor(),
            };
            vec![(cl(r), 1.0)]
        },
        "linear" => {
            let f = c.floor();
            let t = c - f;
            vec![(cl(f), 1.0 - t), (cl(f + 1.0), t)]
        },
        _ => {
            // Catmull-Rom (a = -0.5)
            let f = c.floor();
            let t = c - f;
            let w = [
                -0.5 * t * t * t + t * t - 0.5 * t,
                1.5 * t * t * t - 2.5 * t * t + 1.0,
                -1.5 * t * t * t + 2.0 * t * t + 0.5 * t,
                0.5 * t * t * t - 0.5 * t * t,
            ];
            (0..4).map(|k| (cl(f + k as f64 - 1.0), w[k])).collect()
        },
    }
}

fn pos_pad(o: usize, before: usize, n: usize, mode: &str) -> Option<usize> {
    let p = o as i64 - before as i64;
    let m = n as i64;
    if p >= 0 && p < m {
        return Some(p as usize);
    }
    match mode {
        "constant" => None,
        "reflect" => {
            // mirror without repeating the edge
            if m == 1 {
                return Some(0);
            }
            let per = 2 * (m - 1);
            let q = p.rem_euclid(per);
            Some(if q < m { q } else { per - q } as usize)
        },
        "replicate" | "edge" => Some(p.clamp(0, m - 1) as usize),
        "circular" | "wrap" => Some(p.rem_euclid(m) as usize),
        _ => panic!(),
    }
}

/// What the operation is defined to give: one (array, element type) per result. `dts` are the operands' types.
pub fn eval(k: &K, x: &[Nd], dts: &[DType]) -> Vec<(Nd, DType)> {
    let a = &x[0];
    let d = dts[0];
    let n = a.shape.len();
    let one = |r: Nd| vec![(r, d)];
    let mapf = |f: &dyn Fn(f64) -> f64, g: &dyn Fn(i128) -> i128| {
        a.map(|v| if v.is_f() { V::F(f(v.f())) } else { V::I(wrap(d, g(v.i()))) })
    };
    match k {
        K::Un(nm) => one(mapf(&|v| un(nm, v), &|v| un_i(nm, v))),
        K::UnS(nm, s) => {
            let s = if d.is_float() { quant(d, *s) } else { *s };
            one(mapf(&|v| bin(nm, v, s), &|v| bin_i(d, nm, v, s as i128)))
        },
        K::UnLogic(nm) => vec![(
            a.map(|v| {
                V::B(match *nm {
                    "logical_not" => !v.b(),
                    "isnan" => v.f().is_nan(),
                    "isinf" => v.f().is_infinite(),
                    _ => v.f().is_finite(),
                })
            }),
            DType::BOOL,
        )],
        K::Bin(nm) => one(bmap(a, &x[1], |p, q| {
            if p.is_f() {
                V::F(bin(nm, p.f(), q.f()))
            } else {
                V::I(wrap(d, bin_i(d, nm, p.i(), q.i())))
            }
        })),
        K::Logic(nm) => vec![(
            bmap(a, &x[1], |p, q| {
                V::B(match *nm {
                    "logical_and" => p.b() && q.b(),
                    "logical_or" => p.b() || q.b(),
                    _ => p.b() != q.b(),
                })
            }),
            DType::BOOL,
        )],
        K::Cmp(nm) => vec![(bmap(a, &x[1], |p, q| V::B(cmpv(nm, p, q))), DType::BOOL)],
        K::CmpS(nm, s) => {
            let s = val(if d.is_float() { quant(d, *s) } else { *s }, d);
            vec![(a.map(|p| V::B(cmpv(nm, p, s))), DType::BOOL)]
        },
        K::Bit(nm) => one(bmap(a, &x[1], |p, q| {
            let (p, q) = (p.i(), q.i());
            V::I(wrap(
                d,
                match *nm {
                    "shl" => p << q,
                    "shr" => p >> q,
                    "bitwise_and" => p & q,
                    "bitwise_or" => p | q,
                    _ => p ^ q,
                },
            ))
        })),
        K::BitNot => one(a.map(|v| V::I(wrap(d, !v.i())))),
        K::Shift(nm, s) => one(a.map(|v| V::I(wrap(d, if *nm == "shl_scalar" { v.i() << s } else { v.i() >> s })))),
        K::Cast(t) => vec![(a.map(|v| cast(v, *t)), *t)],
        K::Contig => one(a.clone()),
        K::Red(nm, dims, keep) => {
            let od = match *nm {
                "argmax" | "argmin" => DType::I32,
                "any" | "all" => DType::BOOL,
                _ => d,
            };
            vec![(reduce(a, dims, *keep, |v| red_vals(nm, v, d)), od)]
        },
        K::NormP(p, dims, keep) => {
            one(reduce(a, dims, *keep, |v| V::F(v.iter().map(|x| x.f().abs().powf(*p)).sum::<f64>().powf(1.0 / p))))
        },
        K::SumTo(s) => {
            let lead = n - s.len();
            let dims: Vec<i32> = (0..n).filter(|&i| i < lead || (s[i - lead] == 1 && a.shape[i] != 1)).map(|i| i as i32).collect();
            if dims.is_empty() {
                return one(a.reshape(s));
            }
            one(reduce(a, &dims, true, |v| red_vals("sum", v, d)).reshape(s))
        },
        K::Cumsum(dim) => one(along(a, ax(*dim, n), a.shape[ax(*dim, n)], |v| {
            let mut acc = zero(d);
            v.iter()
                .map(|&q| {
                    acc = add(acc, q, d);
                    acc
                })
                .collect()
        })),
        K::Topk(kk, dim, largest, _) => {
            let dd = ax(*dim, n);
            let ord = |v: &[V]| {
                let mut i: Vec<usize> = (0..v.len()).collect();
                i.sort_by(|&p, &q| {
                    let (l, g) = (cmpv("lt", v[p], v[q]), cmpv("gt", v[p], v[q]));
                    use std::cmp::Ordering::*;
                    let o = if l { Less } else if g { Greater } else { Equal };
                    if *largest { o.reverse() } else { o }
                });
                i.truncate(*kk);
                i
            };
            vec![
                (along(a, dd, *kk, |v| ord(v).into_iter().map(|i| v[i]).collect()), d),
                (along(a, dd, *kk, |v| ord(v).into_iter().map(|i| V::I(i as i128)).collect()), DType::I32),
            ]
        },
        K::Softmax(dim) | K::LogSoftmax(dim) => {
            let dd = ax(*dim, n);
            let lg = matches!(k, K::LogSoftmax(_));
            one(along(a, dd, a.shape[dd], |v| {
                let mx = v.iter().map(|q| q.f()).fold(f64::NEG_INFINITY, f64::max);
                let s: f64 = v.iter().map(|q| (q.f() - mx).exp()).sum();
                v.iter().map(|q| V::F(if lg { q.f() - mx - s.ln() } else { (q.f() - mx).exp() / s })).collect()
            }))
        },
        K::Det => {
            let (mut b, ms, r, _) = batch_mat(a);
            if b.is_empty() {
                b = vec![1]; // a single matrix gives one element, by convention of the crate
            }
            one(Nd::new(b, ms.iter().map(|m| wrapf(det_f(m, r), d)).collect()))
        },
        K::Trace => {
            let (mut b, ms, r, _) = batch_mat(a);
            if b.is_empty() {
                b = vec![1];
            }
            one(Nd::new(b, ms.iter().map(|m| wrapf((0..r).map(|i| m[i * r + i]).sum(), d)).collect()))
        },
        K::Inv => {
            let (_, ms, r, _) = batch_mat(a);
            one(Nd::new(a.shape.clone(), ms.iter().flat_map(|m| inv_f(m, r)).map(V::F).collect()))
        },
        K::Solve => {
            let (_, ms, r, _) = batch_mat(a);
            let inv = Nd::new(a.shape.clone(), ms.iter().flat_map(|m| inv_f(m, r)).map(V::F).collect());
            let b = &x[1];
            if b.shape.len() == 1 {
                let c = b.reshape(&[b.shape[0], 1]);
                let r = matmul(&inv, &c, d);
                let l = r.shape.len();
                let s = r.shape[..l - 1].to_vec();
                one(r.reshape(&s))
            } else {
                one(matmul(&inv, b, d))
            }
        },
        K::IndexSelect(dim) => {
            let dd = ax(*dim, n);
            let m = a.shape[dd] as i128;
            let mut s = a.shape.clone();
            s[dd] = x[1].data.len();
            one(Nd::from_fn(&s, |ix| {
                let mut j = ix.to_vec();
                let i = x[1].data[ix[dd]].i();
                j[dd] = (if i < 0 { i + m } else { i }) as usize;
                a.at(&j)
            }))
        },
        K::IndexPut(dim) => {
            let dd = ax(*dim, n);
            let m = a.shape[dd] as i128;
            let mut o = a.clone();
            for ix in indices(&x[2].shape) {
                let mut j = ix.clone();
                let i = x[1].data[ix[dd]].i();
                j[dd] = (if i < 0 { i + m } else { i }) as usize;
                let l = o.lin(&j);
                o.data[l] = x[2].at(&ix);
            }
            one(o)
        },
        K::Gather(dim) => {
            let dd = ax(*dim, n);
            let m = a.shape[dd] as i128;
            one(Nd::from_fn(&x[1].shape, |ix| {
                let mut j = ix.to_vec();
                let i = x[1].at(ix).i();
                j[dd] = (if i < 0 { i + m } else { i }) as usize;
                a.at(&j)
            }))
        },
        K::Scatter(nm, dim) => {
            let dd = ax(*dim, n);
            let m = a.shape[dd] as i128;
            let mut o = a.clone();
            for ix in indices(&x[1].shape) {
                let mut j = ix.clone();
                let i = x[1].at(&ix).i();
                j[dd] = (if i < 0 { i + m } else { i }) as usize;
                let l = o.lin(&j);
                let s = x[2].at(&ix);
                o.data[l] = match *nm {
                    "scatter" => s,
                    "scatter_add" => add(o.data[l], s, d),
                    "scatter_max" => vmax(o.data[l], s, true),
                    _ => vmax(o.data[l], s, false),
                };
            }
            one(o)
        },
        K::Onehot(c, axis, t) => {
            let dd = ax(*axis, n + 1);
            let mut s = a.shape.clone();
            s.insert(dd, *c);
            vec![(
                Nd::from_fn(&s, |ix| {
                    let mut j = ix.to_vec();
                    let p = j.remove(dd);
                    val((a.at(&j).i() == p as i128) as u8 as f64, *t)
                }),
                *t,
            )]
        },
        K::Nonzero => {
            let rows: Vec<Vec<usize>> = indices(&a.shape).into_iter().filter(|i| a.at(i).b()).collect();
            vec![(
                Nd::new(vec![rows.len(), n], rows.iter().flatten().map(|&i| V::I(i as i128)).collect()),
                DType::I32,
            )]
        },
        K::Unique => {
            let mut u: Vec<V> = vec![];
            for &v in &a.data {
                if !u.iter().any(|&w| cmpv("eq", v, w)) {
                    u.push(v);
                }
            }
            u.sort_by(|p, q| if cmpv("lt", *p, *q) { std::cmp::Ordering::Less } else { std::cmp::Ordering::Greater });
            let inv: Vec<V> =
                a.data.iter().map(|v| V::I(u.iter().position(|w| cmpv("eq", *v, *w)).unwrap() as i128)).collect();
            let cnt: Vec<V> =
                u.iter().map(|w| V::I(a.data.iter().filter(|v| cmpv("eq", **v, *w)).count() as i128)).collect();
            vec![
                (Nd::new(vec![u.len()], u.clone()), d),
                (Nd::new(vec![inv.len()], inv), DType::I32),
                (Nd::new(vec![cnt.len()], cnt), DType::I32),
            ]
        },
        K::Compress(axis) => {
            let (b, dd) = match axis {
                None => (a.reshape(&[a.data.len()]), 0),
                Some(v) => (a.clone(), ax(*v, n)),
            };
            let sel: Vec<usize> = (0..x[1].data.len()).filter(|&i| x[1].data[i].b()).collect();
            let mut s = b.shape.clone();
            s[dd] = sel.len();
            one(Nd::from_fn(&s, |ix| {
                let mut j = ix.to_vec();
                j[dd] = sel[ix[dd]];
                b.at(&j)
            }))
        },
        K::Concat(dim) => {
            let dd = ax(*dim, n);
            let mut s = a.shape.clone();
            s[dd] = x.iter().map(|t| t.shape[dd]).sum();
            one(Nd::from_fn(&s, |ix| {
                let mut j = ix.to_vec();
                let mut t = 0;
                while j[dd] >= x[t].shape[dd] {
                    j[dd] -= x[t].shape[dd];
                    t += 1;
                }
                x[t].at(&j)
            }))
        },
        K::Stack(dim) => {
            let dd = ax(*dim, n + 1);
            let mut s = a.shape.clone();
            s.insert(dd, x.len());
            one(Nd::from_fn(&s, |ix| {
                let mut j = ix.to_vec();
                let t = j.remove(dd);
                x[t].at(&j)
            }))
        },
        K::Split(sz, dim) => {
            let dd = ax(*dim, n);
            let mut st = 0;
            sz.iter()
                .map(|&l| {
                    let r = a.slice(dd, st, l, 1);
                    st += l;
                    (r, d)
                })
                .collect()
        },
        K::Chunk(c, dim) => {
            let dd = ax(*dim, n);
            let m = a.shape[dd];
            let step = m.div_ceil(*c);
            let mut st = 0;
            let mut out = vec![];
            while st < m {
                let l = step.min(m - st);
                out.push((a.slice(dd, st, l, 1), d));
                st += l;
            }
            out
        },
        K::Pad(mode, p, v) => {
            let s: Vec<usize> = a.shape.iter().zip(p).map(|(n, (b, e))| n + b + e).collect();
            let v = val(if d.is_float() { quant(d, *v) } else { *v }, d);
            one(Nd::from_fn(&s, |ix| {
                let j: Option<Vec<usize>> = (0..n).map(|i| pos_pad(ix[i], p[i].0, a.shape[i], mode)).collect();
                j.map(|j| a.at(&j)).unwrap_or(v)
            }))
        },
        K::RWin(nm, w, st, p) => {
            let s: Vec<usize> =
                (0..n).map(|i| (a.shape[i] + p[i].0 + p[i].1 - w[i]) / st[i] + 1).collect();
            let wi = indices(w);
            one(Nd::from_fn(&s, |ix| {
                let mut v = vec![];
                for wx in &wi {
                    let mut j = vec![];
                    for i in 0..n {
                        let q = (ix[i] * st[i] + wx[i]) as i64 - p[i].0 as i64;
                        if q < 0 || q >= a.shape[i] as i64 {
                            break;
                        }
                        j.push(q as usize);
                    }
                    if j.len() == n {
                        v.push(a.at(&j));
                    }
                }
                match *nm {
                    "sum" => red_vals("sum", &v, d),
                    // padding counts as zero in the mean
                    "mean" => V::F(v.iter().map(|q| q.f()).sum::<f64>() / wi.len() as f64),
                    "max" | "min" => {
                        if v.is_empty() {
                            if d.is_float() {
                                V::F(if *nm == "max" { f64::NEG_INFINITY } else { f64::INFINITY })
                            } else {
                                let (lo, hi) = int_range(d);
                                V::I(if *nm == "max" { lo } else { hi })
                            }
                        } else {
                            red_vals(nm, &v, d)
                        }
                    },
                    _ => panic!(),
                }
            }))
        },
        K::Resize(o, m, ct, nm) => {
            let mut s = a.shape[..2].to_vec();
            s.extend(o);
            let m = match *m {
                "bilinear" | "trilinear" | "linear" => "linear",
                "bicubic" | "cubic" => "cubic",
                m => m,
            };
            one(Nd::from_fn(&s, |ix| {
                let ws: Vec<Vec<(usize, f64)>> =
                    (2..n).map(|i| resize_w(ix[i], a.shape[i], s[i], m, ct, nm)).collect();
                let lens: Vec<usize> = ws.iter().map(|w| w.len()).collect();
                let mut acc = 0.0;
                for c in indices(&lens) {
                    let mut j = ix[..2].to_vec();
                    let mut w = 1.0;
                    for (q, &t) in c.iter().enumerate() {
                        j.push(ws[q][t].0);
                        w *= ws[q][t].1;
                    }
                    if w != 0.0 {
                        acc += w * a.at(&j).f();
                    }
                }
                V::F(acc)
            }))
        },
        K::Matmul => {
            // a one-dimensional operand is a row vector on the left, a column vector on the right
            let (b, mut p, mut q) = (&x[1], a.clone(), x[1].clone());
            if n == 1 {
                p = a.reshape(&[1, a.shape[0]]);
            }
            if b.shape.len() == 1 {
                q = b.reshape(&[b.shape[0], 1]);
            }
            let mut r = matmul(&p, &q, d);
            let mut s = r.shape.clone();
            if b.shape.len() == 1 {
                s.pop();
            }
            if n == 1 {
                let l = if b.shape.len() == 1 { s.len() - 1 } else { s.len() - 2 };
                s.remove(l);
            }
            r = r.reshape(&s);
            one(r)
        },
        K::Dot => {
            // 1-D: inner product; otherwise the last axis of the left with the first (of a vector/matrix) of the right
            let b = &x[1];
            let (p, q) = (
                if n == 1 { a.reshape(&[1, a.shape[0]]) } else { a.clone() },
                if b.shape.len() == 1 { b.reshape(&[b.shape[0], 1]) } else { b.clone() },
            );
            let r = matmul(&p, &q, d);
            let mut s = r.shape.clone();
            if b.shape.len() == 1 {
                s.pop();
            }
            if n == 1 {
                s.remove(0);
            }
            one(r.reshape(&s))
        },
        K::Conv(nd, st, p, dl) => {
            let w = &x[1];
            let mut s = vec![a.shape[0], w.shape[0]];
            for i in 0..*nd {
                s.push(out_dim(a.shape[2 + i], w.shape[2 + i], *st, *p, *dl).expect("conv size"));
            }
            let ks = indices(&w.shape[2..]);
            one(Nd::from_fn(&s, |ix| {
                let mut acc = zero(d);
                for c in 0..a.shape[1] {
                    for kx in &ks {
                        let mut j = vec![ix[0], c];
                        let mut l = vec![ix[1], c];
                        let mut ok = true;
                        for i in 0..*nd {
                            let q = (ix[2 + i] * st + kx[i] * dl) as i64 - *p as i64;
                            if q < 0 || q >= a.shape[2 + i] as i64 {
                                ok = false;
                                break;
                            }
                            j.push(q as usize);
                            l.push(kx[i]);
                        }
                        if ok {
                            acc = add(acc, mul(a.at(&j), w.at(&l), d), d);
                        }
                    }
                }
                acc
            }))
        },
        K::ConvT(nd, st, p, op, dl) => {
            // weight [in_channels, out_channels, kernel...]
            let w = &x[1];
            let mut s = vec![a.shape[0], w.shape[1]];
            for i in 0..*nd {
                s.push((a.shape[2 + i] - 1) * st + dl * (w.shape[2 + i] - 1) + op + 1 - 2 * p);
            }
            let mut o = Nd { shape: s.clone(), data: vec![zero(d); numel(&s)] };
            let ks = indices(&w.shape[2..]);
            for ix in indices(&a.shape) {
                for oc in 0..w.shape[1] {
                    for kx in &ks {
                        let mut j = vec![ix[0], oc];
                        let mut l = vec![ix[1], oc];
                        let mut ok = true;
                        for i in 0..*nd {
                            let q = (ix[2 + i] * st + kx[i] * dl) as i64 - *p as i64;
                            if q < 0 || q >= s[2 + i] as i64 {
                                ok = false;
                                break;
                            }
                            j.push(q as usize);
                            l.push(kx[i]);
                        }
                        if ok {
                            let z = o.lin(&j);
                            o.data[z] = add(o.data[z], mul(a.at(&ix), w.at(&l), d), d);
                        }
                    }
                }
            }
            one(o)
        },
        K::ConvGW(ws, st, p, dl) | K::ConvTGW(ws, st, p, dl) => {
            // derivative of <g, conv(x, w)> with respect to w
            let g = &x[1];
            let tr = matches!(k, K::ConvTGW(..));
            let nd = ws.len() - 2;
            one(Nd::from_fn(ws, |wx| {
                // conv: w[oc, ic, k]; transposed: w[ic, oc, k]
                let (oc, ic) = if tr { (wx[1], wx[0]) } else { (wx[0], wx[1]) };
                let mut acc = 0.0;
                // `big` is the side indexed with stride/dilation, `small` the side that steps
                let (big, bigc, small, smallc) = if tr { (g, oc, a, ic) } else { (a, ic, g, oc) };
                for b in 0..a.shape[0] {
                    for sx in indices(&small.shape[2..]) {
                        let mut j = vec![b, bigc];
                        let mut ok = true;
                        for i in 0..nd {
                            let q = (sx[i] * st + wx[2 + i] * dl) as i64 - *p as i64;
                            if q < 0 || q >= big.shape[2 + i] as i64 {
                                ok = false;
                                break;
                            }
                            j.push(q as usize);
                        }
                        if ok {
                            let mut l = vec![b, smallc];
                            l.extend(&sx);
                            acc += big.at(&j).f() * small.at(&l).f();
                        }
                    }
                }
                V::F(acc)
            }))
        },
        K::Einsum(e) => one(einsum(e, x, d).expect("valid einsum")),
        K::Where => {
            let s = bshape(&bshape(&a.shape, &x[1].shape).unwrap(), &x[2].shape).unwrap();
            let (p, c, q) = (a.broadcast(&s), x[1].broadcast(&s), x[2].broadcast(&s));
            one(Nd { shape: s, data: (0..p.data.len()).map(|i| if c.data[i].b() { p.data[i] } else { q.data[i] }).collect() })
        },
        K::MaskedFill(v) => {
            let v = val(if d.is_float() { quant(d, *v) } else { *v }, d);
            one(bmap(a, &x[1], |p, m| if m.b() { v } else { p }))
        },
        K::Clamp(..) | K::ClampMin(_) | K::ClampMax(_) => {
            let (l, h) = match k {
                K::Clamp(l, h) => (Some(*l), Some(*h)),
                K::ClampMin(l) => (Some(*l), None),
                K::ClampMax(h) => (None, Some(*h)),
                _ => unreachable!(),
            };
            let q = |v: f64| val(if d.is_float() { quant(d, v) } else { v }, d);
            one(a.map(|v| {
                let mut r = v;
                if let Some(l) = l {
                    if cmpv("lt", r, q(l)) {
                        r = q(l);
                    }
                }
                if let Some(h) = h {
                    if cmpv("gt", r, q(h)) {
                        r = q(h);
                    }
                }
                r
            }))
        },
        K::Reshape(s) => one(a.reshape(s)),
        K::Flatten => one(a.reshape(&[a.data.len()])),
        K::Squeeze(ds) => {
            let rm: Vec<usize> = if ds.is_empty() { (0..n).filter(|&i| a.shape[i] == 1).collect() } else { axes(ds, n) };
            let s: Vec<usize> = (0..n).filter(|i| !rm.contains(i)).map(|i| a.shape[i]).collect();
            one(a.reshape(&s))
        },
        K::Unsq(dim) => {
            let mut s = a.shape.clone();
            s.insert(ax(*dim, n + 1), 1);
            one(a.reshape(&s))
        },
        K::Bcast(s) => one(a.broadcast(s)),
        K::Transp(i, j) => {
            let mut p: Vec<usize> = (0..n).collect();
            p.swap(ax(*i, n), ax(*j, n));
            one(a.permute(&p))
        },
        K::Perm(p) => one(a.permute(&p.iter().map(|&i| ax(i, n)).collect::<Vec<_>>())),
        K::Repeat(r) => {
            let s: Vec<usize> = a.shape.iter().zip(r).map(|(p, q)| p * q).collect();
            one(Nd::from_fn(&s, |ix| a.at(&ix.iter().zip(r).map(|(i, q)| i / q).collect::<Vec<_>>())))
        },
        K::Slice(dim, st, en, step) => {
            let dd = ax(*dim, n);
            let m = a.shape[dd] as i64;
            let step = *step as i64;
            let adj = |v: i32| if v < 0 { v as i64 + m } else { v as i64 };
            let (lo, hi) = if step > 0 { (0, m) } else { (-1, m - 1) };
            let s = adj(*st).clamp(lo, hi);
            let e = en.map(|e| adj(e).clamp(lo, hi)).unwrap_or(if step > 0 { m } else { -1 });
            let len = if step > 0 { (e - s + step - 1).max(0) / step } else { (s - e - step - 1).max(0) / -step };
            one(a.slice(dd, s as usize, len as usize, step))
        },
        K::Flip(ds) => {
            let mut r = a.clone();
            for &dim in ds {
                let dd = ax(dim, n);
                r = r.slice(dd, r.shape[dd] - 1, r.shape[dd], -1);
            }
            one(r)
        },
    }
}

fn wrapf(v: f64, d: DType) -> V {
    if d.is_float() {
        V::F(v)
    } else {
        V::I(wrap(d, v as i128))
    }
}

/// value conversion: float to float rounds, float to integer truncates toward zero, integers wrap, anything to bool is "non-zero"
pub fn cast(v: V, t: DType) -> V {
    if t.is_bool() {
        V::B(v.b())
    } else if t.is_float() {
        V::F(v.f())
    } else {
        match v {
            V::F(x) => V::I(x.trunc() as i128),
            _ => V::I(wrap(t, v.i())),
        }
    }
}
