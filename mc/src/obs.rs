//! Observing a tensor through every public reader and comparing with the array it must denote.
use crate::nd::Nd;
use crate::tio::*;

pub fn observe(t: &Tensor, a: &Nd, d: DType) -> Result<String, String> {
    if t.shape().dims() != a.shape.as_slice() {
        return Err(format!("shape {:?}, expected {:?}", t.shape().dims(), a.shape));
    }
    if t.ndim() != a.shape.len() || t.size() != a.data.len() || t.dtype() != d {
        return Err(format!("ndim/size/dtype {} {} {}", t.ndim(), t.size(), t.dtype()));
    }
    let r = read(t).map_err(|e| format!("to_flatten_vec: {e}"))?;
    if r != *a {
        return Err(format!("to_flatten_vec: got {}, expected {}", r.show(), a.show()));
    }
    // raw bytes are the denoted elements, in order
    let by = t.to_bytes().map_err(|e| format!("to_bytes: {e}"))?;
    let back = Tensor::from_bytes(&by, a.shape.clone(), d, Device::CPU).map_err(|e| format!("to_bytes has {} bytes for {} elements: {e}", by.len(), a.data.len()))?;
    let r = read(&back).map_err(|e| e.to_string())?;
    if r != *a {
        return Err(format!("to_bytes: got {}, expected {}", r.show(), a.show()));
    }
    let c = t.contiguous().map_err(|e| format!("contiguous: {e}"))?;
    let r = read(&c).map_err(|e| e.to_string())?;
    if r != *a {
        return Err(format!("contiguous: got {}, expected {}", r.show(), a.show()));
    }
    // reading as another element type converts the denoted elements
    if d == DType::F32 && a.data.iter().all(|x| x.f().abs() < 2e9) {
        let v = t.to_flatten_vec::<i32>().map_err(|e| e.to_string())?;
        let w: Vec<i32> = a.data.iter().map(|x| x.f() as i32).collect();
        if v != w {
            return Err(format!("to_flatten_vec::<i32>: got {v:?}, expected {w:?}"));
        }
        let e = |x: HoduError| format!("to_vecNd: {x}");
        let flat: Vec<f32> = a.data.iter().map(|x| x.f() as f32).collect();
        let got: Option<Vec<f32>> = match a.shape.len() {
            1 => Some(t.to_vec1d::<f32>().map_err(e)?),
            2 => Some(t.to_vec2d::<f32>().map_err(e)?.concat()),
            3 => Some(t.to_vec3d::<f32>().map_err(e)?.concat().concat()),
            4 => Some(t.to_vec4d::<f32>().map_err(e)?.concat().concat().concat()),
            _ => None,
        };
        if let Some(g) = got {
            if g != flat {
                return Err(format!("to_vec{}d: got {g:?}, expected {flat:?}", a.shape.len()));
            }
        }
    }
    Ok(a.show())
}
