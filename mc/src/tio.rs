//! Moving values between the reference array and real tensors, and physical layouts for a logical array.
use crate::nd::{numel, Nd, V};
use float8::{F8E4M3, F8E5M2};
use half::{bf16, f16};
pub use hodu_core::error::{HoduError, HoduResult};
pub use hodu_core::scalar::Scalar;
pub use hodu_core::tensor::Tensor;
pub use hodu_core::types::{DType, Device, Layout, Shape};

pub const ALL_DT: [DType; 15] = [
    DType::BOOL, DType::F8E4M3, DType::F8E5M2, DType::BF16, DType::F16, DType::F32, DType::F64, DType::U8, DType::U16,
    DType::U32, DType::U64, DType::I8, DType::I16, DType::I32, DType::I64,
];
pub const FLOATS: [DType; 6] = [DType::F8E4M3, DType::F8E5M2, DType::BF16, DType::F16, DType::F32, DType::F64];
pub const INTS: [DType; 8] =
    [DType::U8, DType::U16, DType::U32, DType::U64, DType::I8, DType::I16, DType::I32, DType::I64];
pub const NUM: [DType; 14] = [
    DType::F8E4M3, DType::F8E5M2, DType::BF16, DType::F16, DType::F32, DType::F64, DType::U8, DType::U16, DType::U32,
    DType::U64, DType::I8, DType::I16, DType::I32, DType::I64,
];

pub fn dn(d: DType) -> String {
    d.to_string()
}

/// (bits, signed) of an integer dtype
pub fn int_bits(d: DType) -> Option<(u32, bool)> {
    Some(match d {
        DType::U8 => (8, false),
        DType::U16 => (16, false),
        DType::U32 => (32, false),
        DType::U64 => (64, false),
        DType::I8 => (8, true),
        DType::I16 => (16, true),
        DType::I32 => (32, true),
        DType::I64 => (64, true),
        _ => return None,
    })
}
pub fn wrap(d: DType, x: i128) -> i128 {
    let (b, s) = int_bits(d).unwrap();
    let m = 1i128 << b;
    let r = x.rem_euclid(m);
    if s && r >= m / 2 {
        r - m
    } else {
        r
    }
}
pub fn int_range(d: DType) -> (i128, i128) {
    let (b, s) = int_bits(d).unwrap();
    if s {
        (-(1i128 << (b - 1)), (1i128 << (b - 1)) - 1)
    } else {
        (0, (1i128 << b) - 1)
    }
}
/// relative spacing of a float dtype
pub fn eps(d: DType) -> f64 {
    match d {
        DType::F8E4M3 => 1.0 / 8.0,
        DType::F8E5M2 => 1.0 / 4.0,
        DType::BF16 => 1.0 / 128.0,
        DType::F16 => 1.0 / 1024.0,
        DType::F32 => f32::EPSILON as f64,
        _ => f64::EPSILON,
    }
}
pub fn fmax(d: DType) -> f64 {
    match d {
        DType::F8E4M3 => 448.0,
        DType::F8E5M2 => 57344.0,
        DType::BF16 => bf16::MAX.to_f64(),
        DType::F16 => 65504.0,
        DType::F32 => f32::MAX as f64,
        _ => f64::MAX,
    }
}
/// smallest positive subnormal
pub fn ftiny(d: DType) -> f64 {
    match d {
        DType::F8E4M3 => 2f64.powi(-9),
        DType::F8E5M2 => 2f64.powi(-16),
        DType::BF16 => 2f64.powi(-133),
        DType::F16 => 2f64.powi(-24),
        DType::F32 => 2f64.powi(-149),
        _ => 2f64.powi(-1074),
    }
}
/// nearest representable value (values outside the range are the caller's business)
pub fn quant(d: DType, x: f64) -> f64 {
    match d {
        DType::F8E4M3 => f8q(x, 3, -6, 448.0),
        DType::F8E5M2 => f8q(x, 2, -14, 57344.0),
        DType::BF16 => bf16::from_f64(x).to_f64(),
        DType::F16 => f16::from_f64(x).to_f64(),
        DType::F32 => x as f32 as f64,
        _ => x,
    }
}
fn f8q(x: f64, man: i32, emin: i32, max: f64) -> f64 {
    if x == 0.0 || !x.is_finite() {
        return x;
    }
    let e = (x.abs().log2().floor() as i32).max(emin);
    let q = 2f64.powi(e - man);
    let r = x / q;
    let mut k = r.round();
    if (r - r.trunc()).abs() == 0.5 {
        k = 2.0 * (r / 2.0).round();
    }
    (k * q).clamp(-max, max)
}

pub fn f8e4m3_val(b: u8) -> f64 {
    let s = if b & 0x80 != 0 { -1.0 } else { 1.0 };
    let (e, m) = ((b >> 3) & 15, (b & 7) as f64);
    if e == 15 && b & 7 == 7 {
        return f64::NAN;
    }
    if e == 0 {
        s * m * 2f64.powi(-9)
    } else {
        s * (1.0 + m / 8.0) * 2f64.powi(e as i32 - 7)
    }
}
pub fn f8e5m2_val(b: u8) -> f64 {
    let s = if b & 0x80 != 0 { -1.0 } else { 1.0 };
    let (e, m) = ((b >> 2) & 31, (b & 3) as f64);
    if e == 31 {
        return if m == 0.0 { s * f64::INFINITY } else { f64::NAN };
    }
    if e == 0 {
        s * m * 2f64.powi(-16)
    } else {
        s * (1.0 + m / 4.0) * 2f64.powi(e as i32 - 15)
    }
}
/// bit pattern of a representable value
pub fn f8bits(d: DType, x: f64) -> u8 {
    let f = if d == DType::F8E4M3 { f8e4m3_val } else { f8e5m2_val };
    (0..=255u8)
        .find(|&b| {
            let v = f(b);
            v.to_bits() == x.to_bits() || (v.is_nan() && x.is_nan())
        })
        .or_else(|| (0..=255u8).find(|&b| f(b) == x))
        .unwrap_or_else(|| panic!("{x} not representable in {d}"))
}

macro_rules! mk {
    ($a:expr, $t:ty, $f:expr) => {{
        let v: Vec<$t> = $a.data.iter().map($f).collect();
        Tensor::from_slice(v, $a.shape.clone())
    }};
}
/// A fresh contiguous tensor with these values.
pub fn tensor(a: &Nd, d: DType) -> HoduResult<Tensor> {
    match d {
        DType::BOOL => mk!(a, bool, |v| v.b()),
        DType::F8E4M3 => mk!(a, F8E4M3, |v| F8E4M3::from_bits(f8bits(d, v.f()))),
        DType::F8E5M2 => mk!(a, F8E5M2, |v| F8E5M2::from_bits(f8bits(d, v.f()))),
        DType::BF16 => mk!(a, bf16, |v| bf16::from_f64(v.f())),
        DType::F16 => mk!(a, f16, |v| f16::from_f64(v.f())),
        DType::F32 => mk!(a, f32, |v| v.f() as f32),
        DType::F64 => mk!(a, f64, |v| v.f()),
        DType::U8 => mk!(a, u8, |v| v.i() as u8),
        DType::U16 => mk!(a, u16, |v| v.i() as u16),
        DType::U32 => mk!(a, u32, |v| v.i() as u32),
        DType::U64 => mk!(a, u64, |v| v.i() as u64),
        DType::I8 => mk!(a, i8, |v| v.i() as i8),
        DType::I16 => mk!(a, i16, |v| v.i() as i16),
        DType::I32 => mk!(a, i32, |v| v.i() as i32),
        DType::I64 => mk!(a, i64, |v| v.i() as i64),
    }
}
/// What the tensor denotes, read through the public reader.
pub fn read(t: &Tensor) -> HoduResult<Nd> {
    let shape = t.shape().dims().to_vec();
    let data: Vec<V> = match t.dtype() {
        DType::BOOL => t.to_flatten_vec::<bool>()?.into_iter().map(V::B).collect(),
        DType::F8E4M3 => t.to_flatten_vec::<F8E4M3>()?.into_iter().map(|x| V::F(f8e4m3_val(x.to_bits()))).collect(),
        DType::F8E5M2 => t.to_flatten_vec::<F8E5M2>()?.into_iter().map(|x| V::F(f8e5m2_val(x.to_bits()))).collect(),
        DType::BF16 => t.to_flatten_vec::<bf16>()?.into_iter().map(|x| V::F(x.to_f64())).collect(),
        DType::F16 => t.to_flatten_vec::<f16>()?.into_iter().map(|x| V::F(x.to_f64())).collect(),
        DType::F32 => t.to_flatten_vec::<f32>()?.into_iter().map(|x| V::F(x as f64)).collect(),
        DType::F64 => t.to_flatten_vec::<f64>()?.into_iter().map(V::F).collect(),
        DType::U8 => t.to_flatten_vec::<u8>()?.into_iter().map(|x| V::I(x as i128)).collect(),
        DType::U16 => t.to_flatten_vec::<u16>()?.into_iter().map(|x| V::I(x as i128)).collect(),
        DType::U32 => t.to_flatten_vec::<u32>()?.into_iter().map(|x| V::I(x as i128)).collect(),
        DType::U64 => t.to_flatten_vec::<u64>()?.into_iter().map(|x| V::I(x as i128)).collect(),
        DType::I8 => t.to_flatten_vec::<i8>()?.into_iter().map(|x| V::I(x as i128)).collect(),
        DType::I16 => t.to_flatten_vec::<i16>()?.into_iter().map(|x| V::I(x as i128)).collect(),
        DType::I32 => t.to_flatten_vec::<i32>()?.into_iter().map(|x| V::I(x as i128)).collect(),
        DType::I64 => t.to_flatten_vec::<i64>()?.into_iter().map(|x| V::I(x as i128)).collect(),
    };
    if data.len() != numel(&shape) {
        return Err(HoduError::InternalError(format!(
            "reader returned {} elements for shape {:?}",
            data.len(),
            shape
        )));
    }
    Ok(Nd { shape, data })
}

/// dtype's zero filler, used for the elements of a base array that a view must not show
pub fn filler(d: DType, k: usize) -> V {
    if d.is_float() {
        V::F([96.0, -112.0, 80.0][k % 3])
    } else if d.is_bool() {
        V::B(k % 2 == 0)
    } else {
        V::I([99, 101, 77][k % 3])
    }
}

/// Physical layouts under which one logical array can be presented.
pub const LAYOUTS: [&str; 8] = ["c", "off", "perm", "step", "stepoff", "mid", "bc", "swap"];

/// The same logical array `a` as a view of a larger or permuted base. None: this layout needs another shape.
pub fn laid(a: &Nd, d: DType, layout: &str) -> HoduResult<Option<Tensor>> {
    laid_with(a, layout, d, &mut |x| tensor(x, d))
}
/// The same, the base made by `mk`.
pub fn laid_with(a: &Nd, layout: &str, d: DType, mk: &mut dyn FnMut(&Nd) -> HoduResult<Tensor>) -> HoduResult<Option<Tensor>> {
    let n = a.shape.len();
    // embed `a` in a base that is larger along `dim`: base index = start + step*i
    let embed = |dim: usize, start: usize, step: usize, extra: usize| -> Nd {
        let mut s = a.shape.clone();
        s[dim] = start + s[dim] * step + extra;
        let mut k = 0;
        Nd::from_fn(&s, |ix| {
            let p = ix[dim];
            if p >= start && (p - start) % step == 0 && (p - start) / step < a.shape[dim] {
                let mut src = ix.to_vec();
                src[dim] = (p - start) / step;
                a.at(&src)
            } else {
                k += 1;
                filler(d, k)
            }
        })
    };
    Ok(Some(match layout {
        "c" => mk(a)?,
        "off" => {
            if n == 0 {
                return Ok(None);
            }
            mk(&embed(0, 1, 1, 1))?.slice(0, 1, Some(1 + a.shape[0] as i32), 1)?
        },
        "perm" => {
            if n < 2 {
                return Ok(None);
            }
            let rev: Vec<usize> = (0..n).rev().collect();
            let ax: Vec<i32> = rev.iter().map(|&x| x as i32).collect();
            mk(&a.permute(&rev))?.permute(&ax)?
        },
        "swap" => {
            if n < 3 {
                return Ok(None);
            }
            let mut p: Vec<usize> = (0..n).collect();
            p.swap(0, 1);
            mk(&a.permute(&p))?.transpose(0, 1)?
        },
        "step" => {
            if n == 0 {
                return Ok(None);
            }
            mk(&embed(n - 1, 0, 2, 0))?.slice((n - 1) as i32, 0, None, 2)?
        },
        "stepoff" => {
            if n == 0 || a.shape[n - 1] == 0 {
                return Ok(None);
            }
            let b = embed(n - 1, 1, 3, 1);
            let end = (1 + 3 * (a.shape[n - 1] - 1) + 1) as i32;
            mk(&b)?.slice((n - 1) as i32, 1, Some(end), 3)?
        },
        "mid" => {
            if n < 2 {
                return Ok(None);
            }
            let m = if n == 2 { 1 } else { n / 2 };
            mk(&embed(m, 2, 1, 1))?.slice(m as i32, 2, Some(2 + a.shape[m] as i32), 1)?
        },
        "bc" => {
            // stride-0: only when every row along dim 0 is the same
            if n == 0 || a.shape[0] < 2 {
                return Ok(None);
            }
            let first = a.slice(0, 0, 1, 1);
            if first.broadcast(&a.shape) != *a {
                return Ok(None);
            }
            mk(&first)?.broadcast(a.shape.clone())?
        },
        _ => unreachable!(),
    }))
}

/// approximate agreement: `tol` in units of the dtype's relative spacing, plus an absolute floor
pub fn agree(got: &Nd, want: &Nd, d: DType, tol: f64) -> Result<(), String> {
    if got.shape != want.shape {
        return Err(format!("shape {:?}, expected {:?}", got.shape, want.shape));
    }
    for (i, (g, w)) in got.data.iter().zip(&want.data).enumerate() {
        let ok = match (g, w) {
            (V::F(g), V::F(w)) => feq(*g, *w, d, tol),
            _ => g == w,
        };
        if !ok {
            return Err(format!("element {i}: got {g:?}, expected {w:?}; got {} expected {}", got.show(), want.show()));
        }
    }
    Ok(())
}
pub fn feq(g: f64, w: f64, d: DType, tol: f64) -> bool {
    if g.is_nan() || w.is_nan() {
        return g.is_nan() && w.is_nan();
    }
    if g == w {
        return true;
    }
    let m = fmax(d);
    if g.is_infinite() || w.is_infinite() || w.abs() > m {
        // at the edge of the range either the largest value or an infinity is an acceptable rounding
        let big = m * (1.0 - 2.0 * tol * eps(d));
        return g.signum() == w.signum() && g.abs() >= big && w.abs() >= big;
    }
    (g - w).abs() <= tol * eps(d) * (w.abs().max(g.abs())) + tol * ftiny(d) + if tol > 0.0 { tol * eps(d) * 0.25 } else { 0.0 }
}
