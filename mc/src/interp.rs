//! An interpreter of captured programs, written from the meaning of the intermediate representation alone.
//!
//! Every id stands for a flat storage and a layout. Inputs and constants are contiguous. View operations share the
//! storage of their operand under the output layout of the node; every other operation reads its operands through the
//! node's input layouts, is evaluated by the reference definition of the operation, and writes fresh storage under the
//! node's output layout. Everything a backend may rely on is checked on the way: ids are defined before use and once,
//! the operand layouts stay inside their storage and agree with the layout under which the operand was produced,
//! parameters agree with the shapes, result shapes and element types are the declared ones.
use crate::cat::{self, eval, K};
use crate::nd::*;
use crate::tio::*;
use hodu_core::ops::{CastOp, ConvOp, LinalgOp, MatrixOp, MemoryOp, Op, OpParams, PaddingOp, ReduceOp, SplitOp, WindowingOp};
use hodu_core::ops::{ResizeCoordTransform, ResizeMode, ResizeNearestMode};
use hodu_core::snapshot::{Snapshot, SnapshotConstant, SnapshotNode};
use hodu_core::types::{DType, Layout};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone)]
struct Val {
    data: Rc<Vec<Option<V>>>,
    dtype: DType,
    layout: Layout,
    /// the shape is only known when the program runs
    dynamic: Option<Vec<usize>>,
}
fn read_through(data: &[Option<V>], l: &Layout) -> Result<Nd, String> {
    let shape = l.shape().dims().to_vec();
    let mut out = Vec::with_capacity(numel(&shape));
    for ix in indices(&shape) {
        let mut p = l.offset();
        for (i, s) in ix.iter().zip(l.strides()) {
            p += i * s;
        }
        match data.get(p) {
            Some(Some(v)) => out.push(*v),
            Some(None) => return Err(format!("reads position {p} of a storage that was never written there")),
            None => return Err(format!("reads position {p} of a storage of {} elements", data.len())),
        }
    }
    Ok(Nd { shape, data: out })
}
fn contiguous(a: &Nd) -> Val {
    Val {
        data: Rc::new(a.data.iter().map(|v| Some(*v)).collect()),
        dtype: DType::F32,
        layout: Layout::from_shape(&a.shape.clone().into()),
        dynamic: None,
    }
}
pub fn decode_constant(c: &SnapshotConstant) -> Result<Nd, String> {
    let shape = c.shape.dims().to_vec();
    let w = c.dtype.size_in_bytes();
    if c.data.len() != numel(&shape) * w {
        return Err(format!("constant has {} bytes for shape {shape:?} of {}", c.data.len(), c.dtype));
    }
    let data = c
        .data
        .chunks(w)
        .map(|b| {
            let u = b.iter().rev().fold(0u64, |a, x| a << 8 | *x as u64);
            match c.dtype {
                DType::BOOL => V::B(u != 0),
                DType::F8E4M3 => V::F(f8e4m3_val(u as u8)),
                DType::F8E5M2 => V::F(f8e5m2_val(u as u8)),
                DType::BF16 => V::F(half::bf16::from_bits(u as u16).to_f64()),
                DType::F16 => V::F(half::f16::from_bits(u as u16).to_f64()),
                DType::F32 => V::F(f32::from_bits(u as u32) as f64),
                DType::F64 => V::F(f64::from_bits(u)),
                DType::U8 | DType::U16 | DType::U32 | DType::U64 => V::I(u as i128),
                DType::I8 => V::I(u as u8 as i8 as i128),
                DType::I16 => V::I(u as u16 as i16 as i128),
                DType::I32 => V::I(u as u32 as i32 as i128),
                DType::I64 => V::I(u as i64 as i128),
            }
        })
        .collect();
    Ok(Nd { shape, data })
}
fn pick(n: &str, from: &[&'static str]) -> Result<&'static str, String> {
    from.iter().find(|x| **x == n).copied().ok_or(format!("unknown operation {n}"))
}
fn sc_i(s: &hodu_core::scalar::Scalar) -> i32 {
    s.to_i32()
}
/// The operation a node stands for, and which of its results the node's output is.
fn decode(n: &SnapshotNode, shapes: &[Vec<usize>]) -> Result<(K, usize), String> {
    use OpParams as P;
    let nm = format!("{}", n.op);
    let bad = || format!("{:?} with parameters {:?}", n.op, n.params);
    let same = |what: &str, p: &[usize], s: &[usize]| -> Result<(), String> {
        if p == s {
            Ok(())
        } else {
            Err(format!("{nm}: parameters say {what} {p:?}, operands {s:?}"))
        }
    };
    let k = match (&n.op, n.params.as_ref()) {
        (Op::Binary(_), _) => K::Bin(pick(&nm, &cat::BINARY)?),
        (Op::BinaryLogical(_), _) => K::Logic(pick(&nm, &cat::LOGIC)?),
        (Op::BitwiseBinary(_), _) => K::Bit(pick(&nm, &cat::BIT)?),
        (Op::BitwiseUnary(_), _) => K::BitNot,
        (Op::BitwiseUnaryScalar(_), Some(P::BitwiseUnaryScalar(p))) => K::Shift(pick(&nm, &["shl_scalar", "shr_scalar"])?, p.shift),
        (Op::Cmp(_), _) => K::Cmp(pick(&nm, &cat::CMP)?),
        (Op::CmpScalar(_), Some(P::CmpScalar(p))) => K::CmpS(pick(&nm, &cat::CMP_S)?, p.scalar.to_f64()),
        (Op::Unary(_), _) => K::Un(pick(&nm, &cat::UNARY)?),
        (Op::UnaryLogical(_), _) => K::UnLogic(pick(&nm, &cat::UNLOGIC)?),
        (Op::UnaryScalar(_), Some(P::UnaryScalar(p))) => K::UnS(pick(&nm, &cat::UNARY_S)?, p.scalar.to_f64()),
        (Op::Matrix(MatrixOp::Matmul), _) => K::Matmul,
        (Op::Matrix(MatrixOp::Dot), _) => K::Dot,
        (Op::Linalg(LinalgOp::Det), _) => K::Det,
        (Op::Linalg(LinalgOp::Inv), _) => K::Inv,
        (Op::Linalg(LinalgOp::Trace), _) => K::Trace,
        (Op::Reduce(r), Some(P::Reduce(p))) => {
            let nm = if *r == ReduceOp::Norm { "l2_norm".to_string() } else { nm };
            K::Red(pick(&nm, &cat::REDUCE)?, p.dims.iter().map(sc_i).collect(), p.keep_dim)
        },
        (Op::Concat(_), Some(P::Concat(p))) => K::Concat(sc_i(&p.dim)),
        (Op::Split(SplitOp::Split), Some(P::Split(p))) => {
            let sizes = p.sizes.iter().map(|s| sc_i(s) as usize).collect();
            return Ok((K::Split(sizes, sc_i(&p.dim)), p.output_index));
        },
        (Op::Indexing(_), p) => match (nm.as_str(), p) {
            ("index_select", Some(P::IndexSelect(p))) => K::IndexSelect(sc_i(&p.dim)),
            ("index_put", Some(P::IndexPut(p))) => K::IndexPut(sc_i(&p.dim)),
            ("gather", Some(P::Gather(p))) => K::Gather(sc_i(&p.dim)),
            ("scatter", Some(P::Scatter(p))) => K::Scatter("scatter", sc_i(&p.dim)),
            ("scatter_add", Some(P::ScatterAdd(p))) => K::Scatter("scatter_add", sc_i(&p.dim)),
            ("scatter_max", Some(P::ScatterMax(p))) => K::Scatter("scatter_max", sc_i(&p.dim)),
            ("scatter_min", Some(P::ScatterMin(p))) => K::Scatter("scatter_min", sc_i(&p.dim)),
            ("onehot", Some(P::Onehoto(p))) => K::Onehot(sc_i(&p.num_classes) as usize, sc_i(&p.axis), p.dtype),
            ("nonzero", _) => K::Nonzero,
            ("unique", Some(P::Unique(_))) => K::Unique,
            ("compress", Some(P::Compress(p))) => K::Compress(p.axis.as_ref().map(sc_i)),
            _ => return Err(bad()),
        },
        (Op::Conv(c), Some(p)) => {
            let (x, w) = (&shapes[0], &shapes[1]);
            let o = n.output_layout.shape().dims();
            match (c, p) {
                (ConvOp::Conv1d, P::Conv1d(p)) => {
                    same("operand shapes", &[p.batch_size, p.channels_input, p.length_input], x)?;
                    same("weight shape", &[p.channels_output, p.channels_input, p.kernel_size], w)?;
                    K::Conv(1, p.stride, p.padding, p.dilation)
                },
                (ConvOp::Conv2d, P::Conv2d(p)) => {
                    same("operand shapes", &[p.batch_size, p.channels_input, p.input_height, p.input_width], x)?;
                    same("weight shape", &[p.channels_output, p.channels_input, p.kernel_height, p.kernel_width], w)?;
                    K::Conv(2, p.stride, p.padding, p.dilation)
                },
                (ConvOp::Conv3d, P::Conv3d(p)) => {
                    same("operand shapes", &[p.batch_size, p.channels_input, p.input_depth, p.input_height, p.input_width], x)?;
                    same(
                        "weight shape",
                        &[p.channels_output, p.channels_input, p.kernel_depth, p.kernel_height, p.kernel_width],
                        w,
                    )?;
                    K::Conv(3, p.stride, p.padding, p.dilation)
                },
                (ConvOp::ConvTranspose1d, P::ConvTranspose1d(p)) => {
                    same("operand shapes", &[p.batch_size, p.channels_input, p.length_input], x)?;
                    same("weight shape", &[p.channels_input, p.channels_output, p.kernel_size], w)?;
                    K::ConvT(1, p.stride, p.padding, p.output_padding, p.dilation)
                },
                (ConvOp::ConvTranspose2d, P::ConvTranspose2d(p)) => {
                    same("operand shapes", &[p.batch_size, p.channels_input, p.input_height, p.input_width], x)?;
                    same("weight shape", &[p.channels_input, p.channels_output, p.kernel_height, p.kernel_width], w)?;
                    K::ConvT(2, p.stride, p.padding, p.output_padding, p.dilation)
                },
                (ConvOp::ConvTranspose3d, P::ConvTranspose3d(p)) => {
                    same("operand shapes", &[p.batch_size, p.channels_input, p.input_depth, p.input_height, p.input_width], x)?;
                    same(
                        "weight shape",
                        &[p.channels_input, p.channels_output, p.kernel_depth, p.kernel_height, p.kernel_width],
                        w,
                    )?;
                    K::ConvT(3, p.stride, p.padding, p.output_padding, p.dilation)
                },
                (ConvOp::Conv1dGradWeight, P::Conv1dGradWeight(p)) => {
                    same("weight shape", &[p.out_channels, p.in_channels, p.kernel_size], o)?;
                    K::ConvGW(o.to_vec(), p.stride, p.padding, p.dilation)
                },
                (ConvOp::Conv2dGradWeight, P::Conv2dGradWeight(p)) => {
                    same("weight shape", &[p.out_channels, p.in_channels, p.kernel_height, p.kernel_width], o)?;
                    K::ConvGW(o.to_vec(), p.stride, p.padding, p.dilation)
                },
                (ConvOp::Conv3dGradWeight, P::Conv3dGradWeight(p)) => {
                    same("weight shape", &[p.out_channels, p.in_channels, p.kernel_depth, p.kernel_height, p.kernel_width], o)?;
                    K::ConvGW(o.to_vec(), p.stride, p.padding, p.dilation)
                },
                (ConvOp::ConvTranspose1dGradWeight, P::ConvTranspose1dGradWeight(p)) => {
                    same("weight shape", &[p.in_channels, p.out_channels, p.kernel_size], o)?;
                    K::ConvTGW(o.to_vec(), p.stride, p.padding, p.dilation)
                },
                (ConvOp::ConvTranspose2dGradWeight, P::ConvTranspose2dGradWeight(p)) => {
                    same("weight shape", &[p.in_channels, p.out_channels, p.kernel_height, p.kernel_width], o)?;
                    K::ConvTGW(o.to_vec(), p.stride, p.padding, p.dilation)
                },
                (ConvOp::ConvTranspose3dGradWeight, P::ConvTranspose3dGradWeight(p)) => {
                    same("weight shape", &[p.in_channels, p.out_channels, p.kernel_depth, p.kernel_height, p.kernel_width], o)?;
                    K::ConvTGW(o.to_vec(), p.stride, p.padding, p.dilation)
                },
                _ => return Err(bad()),
            }
        },
        (Op::Windowing(w), Some(P::ReduceWindow(p))) => {
            let nm = match w {
                WindowingOp::ReduceWindowMax => "max",
                WindowingOp::ReduceWindowMean => "mean",
                WindowingOp::ReduceWindowSum => "sum",
                WindowingOp::ReduceWindowMin => "min",
            };
            K::RWin(nm, p.window_shape.clone(), p.strides.clone(), p.padding.clone())
        },
        (Op::Padding(w), Some(P::Padding(p))) => {
            let nm = match w {
                PaddingOp::PadConstant => "constant",
                PaddingOp::PadReflect => "reflect",
                PaddingOp::PadReplicate => "replicate",
                PaddingOp::PadCircular => "circular",
            };
            K::Pad(nm, p.padding.clone(), p.pad_value.to_f64())
        },
        (Op::Scan(_), Some(P::Scan(p))) => K::Cumsum(p.dim as i32),
        (Op::Sort(_), Some(P::TopK(p))) => {
            let second = p.indices_id.as_usize() == n.output_id.0;
            return Ok((K::Topk(p.k, p.dim, p.largest, p.sorted), second as usize));
        },
        (Op::Einsum(_), Some(P::Einsum(p))) => {
            let s: Vec<String> = p.input_subscripts.iter().map(|s| s.iter().collect()).collect();
            let e = format!("{}->{}", s.join(","), p.output_subscripts.iter().collect::<String>());
            let mut c: Vec<char> =
                p.input_subscripts.iter().flatten().filter(|c| !p.output_subscripts.contains(c)).copied().collect();
            c.sort();
            c.dedup();
            let mut d = p.contraction_indices.clone();
            d.sort();
            if c != d {
                return Err(format!("einsum {e}: contraction indices {d:?}, expected {c:?}"));
            }
            K::Einsum(e)
        },
        (Op::Resize(_), Some(P::Resize(p))) => K::Resize(
            p.output_size.clone(),
            match p.mode {
                ResizeMode::Nearest => "nearest",
                ResizeMode::Linear => "linear",
                ResizeMode::Cubic => "cubic",
            },
            match p.coord_transform {
                ResizeCoordTransform::HalfPixel => "half_pixel",
                ResizeCoordTransform::Asymmetric => "asymmetric",
                ResizeCoordTransform::AlignCorners => "align_corners",
                ResizeCoordTransform::PytorchHalfPixel => "pytorch_half_pixel",
            },
            match p.nearest_mode {
                ResizeNearestMode::Floor => "floor",
                ResizeNearestMode::Ceil => "ceil",
                ResizeNearestMode::RoundPreferFloor => "round_prefer_floor",
                ResizeNearestMode::RoundPreferCeil => "round_prefer_ceil",
            },
        ),
        (Op::ShapeMemory(_), Some(P::Flip(p))) => K::Flip(p.dims.iter().map(|d| *d as i32).collect()),
        (Op::Cast(CastOp::ToDType), Some(P::ToDType(p))) => K::Cast(p.dtype),
        (Op::Memory(MemoryOp::Contiguous), _) => K::Contig,
        _ => return Err(bad()),
    };
    Ok((k, 0))
}
/// What the parameters of a view node say, when it has any.
fn decode_view(n: &SnapshotNode) -> Option<K> {
    match n.params.as_ref()? {
        OpParams::Slice(p) => {
            let e = sc_i(&p.end);
            Some(K::Slice(sc_i(&p.dim), sc_i(&p.start), if e == i32::MAX { None } else { Some(e) }, sc_i(&p.step)))
        },
        OpParams::Transpose(p) => Some(K::Transp(p.dim1, p.dim2)),
        OpParams::Permute(p) => Some(K::Perm(p.axes.clone())),
        _ => None,
    }
}
pub struct Res {
    pub name: String,
    pub value: Nd,
    pub dtype: DType,
}
/// Run the program on these inputs (in order). Err: the program is not well formed or does not run.
pub fn interpret(s: &Snapshot, inputs: &[(&str, Nd, DType)]) -> Result<Vec<Res>, String> {
    let mut env: HashMap<usize, Val> = HashMap::new();
    if s.inputs.len() != inputs.len() {
        return Err(format!("the program has {} inputs, expected {}", s.inputs.len(), inputs.len()));
    }
    for (i, (n, v, d)) in s.inputs.iter().zip(inputs) {
        if i.name != *n || i.shape.dims() != v.shape || i.dtype != *d {
            return Err(format!("input {} {:?} {}, expected {n} {:?} {d}", i.name, i.shape, i.dtype, v.shape));
        }
        let mut val = contiguous(v);
        val.dtype = *d;
        if env.insert(i.id.0, val).is_some() {
            return Err(format!("id {} is defined twice", i.id.0));
        }
    }
    for c in &s.constants {
        let v = decode_constant(c)?;
        let mut val = contiguous(&v);
        val.dtype = c.dtype;
        if env.insert(c.id.0, val).is_some() {
            return Err(format!("id {} is defined twice", c.id.0));
        }
    }
    for n in &s.nodes {
        let at = format!("{} (id {})", n.op, n.output_id.0);
        if n.input_ids.len() != n.input_layouts.len() {
            return Err(format!("{at}: {} operands, {} layouts", n.input_ids.len(), n.input_layouts.len()));
        }
        let mut ops: Vec<Nd> = vec![];
        let mut dts: Vec<DType> = vec![];
        for (id, l) in n.input_ids.iter().zip(&n.input_layouts) {
            let v = env.get(&id.0).ok_or(format!("{at}: operand {} is not defined before it is used", id.0))?;
            if v.dynamic.is_some() {
                return Err(format!("DYNAMIC {at}"));
            }
            let a = read_through(&v.data, l).map_err(|e| format!("{at}: {e}"))?;
            let b = read_through(&v.data, &v.layout).map_err(|e| format!("{at}: {e}"))?;
            if a != b {
                return Err(format!("{at}: operand {} was produced as {:?} but is read as {:?}", id.0, v.layout, l));
            }
            ops.push(a);
            dts.push(v.dtype);
        }
        if ops.len() == 3 && matches!(format!("{}", n.op).as_str(), "index_put" | "scatter" | "scatter_add" | "scatter_max" | "scatter_min") {
            // recorded as (tensor, values, indices)
            ops.swap(1, 2);
            dts.swap(1, 2);
        }
        let view = matches!(n.op, Op::Shape(_) | Op::ShapeScalars(_));
        let val = if view {
            if n.input_ids.len() != 1 || n.symbolic_output_layout.is_some() {
                return Err(format!("{at}: a view of {} operands", n.input_ids.len()));
            }
            let src = env[&n.input_ids[0].0].clone();
            let got = read_through(&src.data, &n.output_layout).map_err(|e| format!("{at}: {e}"))?;
            if let Some(k) = decode_view(n) {
                let want = &eval(&k, &ops, &dts)[0].0;
                if *want != got {
                    return Err(format!("{at}: the layout shows {}, the parameters mean {}", got.show(), want.show()));
                }
            }
            if n.output_dtype != src.dtype {
                return Err(format!("{at}: declared {}, is {}", n.output_dtype, src.dtype));
            }
            Val { data: src.data, dtype: src.dtype, layout: n.output_layout.clone(), dynamic: None }
        } else {
            let shapes: Vec<Vec<usize>> = ops.iter().map(|o| o.shape.clone()).collect();
            let (k, which) = decode(n, &shapes)?;
            let outs = eval(&k, &ops, &dts);
            let (v, d) = outs.get(which).cloned().ok_or(format!("{at}: no result {which}"))?;
            if d != n.output_dtype {
                return Err(format!("{at}: declared {}, is {d}", n.output_dtype));
            }
            if let Some(OpParams::Unique(p)) = n.params.as_ref() {
                for (id, (v, d)) in [p.inverse_id, p.counts_id].iter().zip(&outs[1..]) {
                    let mut x = contiguous(v);
                    x.dtype = *d;
                    if *id == p.counts_id {
                        x.dynamic = Some(v.shape.clone());
                    }
                    if env.insert(id.as_usize(), x).is_some() {
                        return Err(format!("{at}: id {} is defined twice", id.as_usize()));
                    }
                }
            }
            let dims = n.output_layout.shape().dims();
            if let Some(sym) = &n.symbolic_output_layout {
                // the declared layout is the largest one; the symbolic one says which dimensions are data-dependent
                if sym.shape().dims().len() != v.shape.len() || dims.len() != v.shape.len() {
                    return Err(format!("{at}: declared {dims:?}, result {:?}", v.shape));
                }
                for (i, dim) in sym.shape().dims().iter().enumerate() {
                    let ok = match dim.concrete_size() {
                        Some(c) => c == v.shape[i] && dims[i] == c,
                        None => v.shape[i] <= dims[i],
                    };
                    if !ok {
                        return Err(format!("{at}: symbolic shape {:?} ({dims:?} at most), result {:?}", sym.shape(), v.shape));
                    }
                }
                let mut x = contiguous(&v);
                x.dtype = d;
                x.dynamic = Some(v.shape.clone());
                x
            } else {
                if dims != v.shape {
                    return Err(format!("{at}: declared shape {dims:?}, result {:?}", v.shape));
                }
                let mut data: Vec<Option<V>> = vec![];
                for (ix, x) in indices(&v.shape).into_iter().zip(&v.data) {
                    let p = n.output_layout.offset() + ix.iter().zip(n.output_layout.strides()).map(|(a, b)| a * b).sum::<usize>();
                    if data.len() <= p {
                        data.resize(p + 1, None);
                    }
                    if data[p].is_some() {
                        return Err(format!("{at}: the output layout {:?} overlaps itself", n.output_layout));
                    }
                    data[p] = Some(*x);
                }
                Val { data: Rc::new(data), dtype: d, layout: n.output_layout.clone(), dynamic: None }
            }
        };
        if env.insert(n.output_id.0, val).is_some() {
            return Err(format!("{at}: id {} is defined twice", n.output_id.0));
        }
    }
    let mut out = vec![];
    for t in &s.targets {
        let v = env.get(&t.id.0).ok_or(format!("target {} (id {}) is not computed by the program", t.name, t.id.0))?;
        let value = read_through(&v.data, &v.layout).map_err(|e| format!("target {}: {e}", t.name))?;
        out.push(Res { name: t.name.clone(), value, dtype: v.dtype });
    }
    Ok(out)
}
