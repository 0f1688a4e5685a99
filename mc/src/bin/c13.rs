//! C13: tensor files. Every value of the narrow types and systematic families of the wide ones, every layout, through
//! the binary and the JSON format; every truncation, byte substitution, deletion and duplication of small files; every
//! combination of a field alphabet for hand-made JSON.
use hodu_core::format::{hdt, json};
use mc::check::*;
use mc::gen::{self, R};
use mc::nd::*;
use mc::tio::*;
use mc::vals::*;
use std::collections::HashMap;
use std::path::PathBuf;

fn es<T: std::fmt::Display>(e: T) -> String {
    e.to_string()
}
/// element bits, with every NaN alike
fn bits(v: V) -> u128 {
    match v {
        V::F(x) if x.is_nan() => u128::MAX,
        V::F(x) => x.to_bits() as u128,
        V::I(x) => x as u128,
        V::B(b) => b as u128,
    }
}
fn same(t: &Tensor, a: &Nd, d: DType) -> Result<(), String> {
    if t.dtype() != d {
        return Err(format!("type {}, expected {d}", t.dtype()));
    }
    let g = read(t).map_err(es)?;
    if g.shape != a.shape {
        return Err(format!("shape {:?}, expected {:?}", g.shape, a.shape));
    }
    for (i, (x, y)) in g.data.iter().zip(&a.data).enumerate() {
        if bits(*x) != bits(*y) {
            return Err(format!("element {i} is {x:?}, was {y:?}"));
        }
    }
    Ok(())
}
struct Dir(PathBuf);
impl Dir {
    fn new() -> Dir {
        let p = std::env::temp_dir().join(format!("mc-c13-{}", std::process::id()));
        std::fs::create_dir_all(&p).unwrap();
        Dir(p)
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Fmt {
    Hdt,
    Json,
}
const FMTS: [(Fmt, &str); 2] = [(Fmt::Hdt, "hdt"), (Fmt::Json, "json")];
fn ser(f: Fmt, t: &Tensor) -> Result<Vec<u8>, String> {
    match f {
        Fmt::Hdt => hdt::serialize(t).map_err(es),
        Fmt::Json => json::serialize(t).map(String::into_bytes).map_err(es),
    }
}
fn de(f: Fmt, b: &[u8]) -> Result<Tensor, String> {
    match f {
        Fmt::Hdt => hdt::deserialize(b).map_err(es),
        Fmt::Json => json::deserialize(std::str::from_utf8(b).map_err(es)?).map_err(es),
    }
}
fn ser_many(f: Fmt, t: &HashMap<String, Tensor>) -> Result<Vec<u8>, String> {
    match f {
        Fmt::Hdt => hdt::serialize_many(t).map_err(es),
        Fmt::Json => json::serialize_many(t).map(String::into_bytes).map_err(es),
    }
}
fn de_many(f: Fmt, b: &[u8]) -> Result<HashMap<String, Tensor>, String> {
    match f {
        Fmt::Hdt => hdt::deserialize_many(b).map_err(es),
        Fmt::Json => json::deserialize_many(std::str::from_utf8(b).map_err(es)?).map_err(es),
    }
}
fn round(f: Fmt, t: &Tensor, a: &Nd, d: DType) -> Out {
    let b = match ser(f, t) {
        Ok(b) => b,
        Err(e) => return Out::Bad("err", format!("saving: {e}")),
    };
    match de(f, &b) {
        Err(e) => Out::Bad("err", format!("loading what was saved: {e}")),
        Ok(r) => match same(&r, a, d) {
            Err(e) => Out::Bad("wrong", e),
            Ok(()) => match round_many(f, t, a, d) {
                Err(e) => Out::Bad("wrong", format!("in a collection: {e}")),
                Ok(()) => Out::Ok(format!("{:x}", h64(&b))),
            },
        },
    }
}
/// the same tensor, twice in a collection, beside its contiguous copy
fn round_many(f: Fmt, t: &Tensor, a: &Nd, d: DType) -> Result<(), String> {
    let mut m = HashMap::new();
    m.insert("t".to_string(), t.clone());
    m.insert("u".to_string(), t.clone());
    m.insert("c".to_string(), t.contiguous().map_err(es)?);
    let r = de_many(f, &ser_many(f, &m)?)?;
    if r.len() != 3 {
        return Err(format!("{} tensors, expected 3", r.len()));
    }
    for n in m.keys() {
        same(r.get(n).ok_or(format!("no tensor named {n:?}"))?, a, d).map_err(|e| format!("{n}: {e}"))?;
    }
    Ok(())
}
/// what a damaged file led to: an error, or a tensor that can be used
fn usable(f: Fmt, r: Result<Tensor, String>) -> Out {
    let t = match r {
        Err(e) => return Out::Ok(e.chars().take(60).collect()),
        Ok(t) => t,
    };
    let n: Option<usize> = t.shape().dims().iter().try_fold(1usize, |a, &b| a.checked_mul(b));
    let Some(n) = n else { return Out::Bad("wrong", format!("a tensor of impossible shape {:?}", t.shape().dims())) };
    let a = match read(&t) {
        Ok(a) => a,
        Err(e) => return Out::Bad("err", format!("the loaded tensor cannot be read: {e}")),
    };
    match t.to_bytes() {
        Ok(b) if b.len() == n * t.dtype().size_in_bytes() => {
            if t.dtype() == DType::BOOL && b.iter().any(|&x| x > 1) {
                return Out::Bad("wrong", "a bool that is neither true nor false".into());
            }
        },
        Ok(b) => return Out::Bad("wrong", format!("{} bytes for shape {:?} of {}", b.len(), t.shape().dims(), t.dtype())),
        Err(e) => return Out::Bad("err", format!("the loaded tensor has no bytes: {e}")),
    }
    if n > 0 {
        if let Err(e) = t.flatten().and_then(|x| x.contiguous()) {
            return Out::Bad("err", format!("the loaded tensor cannot be used: {e}"));
        }
    }
    match ser(f, &t).and_then(|b| de(f, &b)) {
        Err(e) => Out::Bad("err", format!("the loaded tensor cannot be saved and loaded again: {e}")),
        Ok(t2) => match same(&t2, &a, t.dtype()) {
            Err(e) => Out::Bad("wrong", format!("the loaded tensor saved again: {e}")),
            Ok(()) => Out::Ok(format!("{} {:x}", t.dtype(), h64(&format!("{a:?}")))),
        },
    }
}
fn family(d: DType, th: bool) -> Vec<V> {
    let mut v: Vec<V> = dense(d);
    v.extend(edges(d));
    match d {
        DType::F64 => {
            // decimal and binary scales over the whole range, with neighbours
            for e in (-323..=308).step_by(if th { 1 } else { 3 }) {
                for k in 1..if th { 100 } else { 25 } {
                    if let Ok(x) = format!("{}.{}e{e}", 1 + k % 9, k * 7919 % 100000).parse::<f64>() {
                        v.push(V::F(x));
                    }
                }
            }
            for e in 0..2098u64 {
                // powers of two, subnormal ones first
                let b = if e < 52 { 1 << e } else { (e - 51) << 52 };
                if b >> 52 >= 2047 {
                    break;
                }
                v.extend([b - 1, b, b + 1, b + 0x5555_5555].map(|x| V::F(f64::from_bits(x))));
            }
        },
        DType::F32 => {
            for e in 0..255u32 {
                for m in [0, 1, 2, 0x2AAAAA, 0x400000, 0x555555, 0x7FFFFE, 0x7FFFFF] {
                    for s in [0, 1u32 << 31] {
                        v.push(V::F(f32::from_bits(s | e << 23 | m) as f64));
                    }
                }
            }
        },
        DType::F16 => v.extend((0..=u16::MAX).map(|b| V::F(half::f16::from_bits(b).to_f64()))),
        DType::BF16 => v.extend((0..=u16::MAX).map(|b| V::F(half::bf16::from_bits(b).to_f64()))),
        DType::U8 => v.extend((0..=255).map(V::I)),
        DType::I8 => v.extend((-128..=127).map(V::I)),
        DType::U16 => v.extend((0..=65535).map(V::I)),
        DType::I16 => v.extend((-32768..=32767).map(V::I)),
        DType::U32 | DType::I32 | DType::U64 | DType::I64 => {
            let (lo, hi) = int_range(d);
            for e in 0..64 {
                for k in -1..=1i128 {
                    v.extend([(1i128 << e) + k, -(1i128 << e) + k].into_iter().filter(|x| (lo..=hi).contains(x)).map(V::I));
                }
            }
        },
        _ => {},
    }
    if d.is_float() {
        v.extend([V::F(f64::NAN), V::F(0.0), V::F(-0.0)]);
        if d != DType::F8E4M3 {
            v.extend([V::F(f64::INFINITY), V::F(f64::NEG_INFINITY)]);
        }
    }
    v
}

fn main() {
    let mut c = Check::new("C13", "model_checking");
    let th = c.thorough();
    let dir = Dir::new();
    // 1. values: blocks of a family, so that a failure names a small block
    for d in ALL_DT {
        let fam = family(d, th);
        for (f, fname) in FMTS {
            for (i, block) in fam.chunks(64).enumerate() {
                let key = format!("values/{fname}/{}/{i}", dn(d));
                if !c.wants(&key) {
                    continue;
                }
                let a = Nd::new(vec![block.len()], block.to_vec());
                c.case(&format!("values/{fname}"), &key, || match tensor(&a, d) {
                    Err(e) => Out::Bad("err", es(e)),
                    Ok(t) => round(f, &t, &a, d),
                });
            }
        }
    }
    // 2. shapes and layouts, in memory and through a file
    for d in ALL_DT {
        for s in [&[][..], &[0], &[1], &[3], &[0, 2], &[2, 0], &[1, 1], &[2, 3], &[3, 1], &[2, 1, 3], &[2, 2, 2], &[1, 2, 1, 2]] {
            for lay in LAYOUTS {
                for (f, fname) in FMTS {
                    let key = format!("layout/{fname}/{}/{s:?}/{lay}", dn(d)).replace(' ', "");
                    if !c.wants(&key) {
                        continue;
                    }
                    let mut a = gen::values(s, R::G, d, 0);
                    if lay == "bc" && s.len() > 0 && s[0] >= 2 {
                        a = a.slice(0, 0, 1, 1).broadcast(s);
                    }
                    let path = dir.0.join(format!("t.{fname}"));
                    c.case(&format!("layout/{fname}"), &key, || {
                        let t = match laid(&a, d, lay) {
                            Ok(Some(t)) => t,
                            Ok(None) => return Out::Skip,
                            Err(_) if numel(s) == 0 => return Out::Skip,
                            Err(e) => return Out::Bad("err", es(e)),
                        };
                        let r = round(f, &t, &a, d);
                        if !matches!(r, Out::Ok(_)) {
                            return r;
                        }
                        // the file: chosen by extension, and it replaces what was there
                        let _ = std::fs::write(&path, vec![b'x'; 4096]);
                        if let Err(e) = t.save(&path) {
                            return Out::Bad("err", format!("saving to a file: {e}"));
                        }
                        match Tensor::load(&path) {
                            Err(e) => Out::Bad("err", format!("loading from a file: {e}")),
                            Ok(g) => match same(&g, &a, d) {
                                Err(e) => Out::Bad("wrong", format!("from a file: {e}")),
                                Ok(()) => r,
                            },
                        }
                    });
                }
            }
        }
    }
    // 3. collections: every set of up to three names over an alphabet of awkward ones
    let names = ["", "a", "b", "a.b", "\"", "\\", "\n", "é", "\u{0}", "😀 x", "shape"];
    let sets: Vec<Vec<usize>> = {
        let n = names.len();
        let mut v = vec![vec![]];
        for i in 0..n {
            v.push(vec![i]);
            for j in i + 1..n {
                v.push(vec![i, j]);
                v.extend((j + 1..n).map(|k| vec![i, j, k]));
            }
        }
        v
    };
    for set in &sets {
        for (f, fname) in FMTS {
            let key = format!("many/{fname}/{set:?}").replace(' ', "");
            if !c.wants(&key) {
                continue;
            }
            let path = dir.0.join(format!("m.{fname}"));
            c.case(&format!("many/{fname}"), &key, || {
                let mut m = HashMap::new();
                let mut want = vec![];
                for &i in set {
                    let d = ALL_DT[i % ALL_DT.len()];
                    let a = gen::values(&[[2, 1, 3][i % 3], 1 + i % 2], R::G, d, i);
                    m.insert(names[i].to_string(), tensor(&a, d).unwrap());
                    want.push((names[i], a, d));
                }
                let cmp = |r: HashMap<String, Tensor>| -> Result<(), String> {
                    if r.len() != want.len() {
                        return Err(format!("{} tensors, expected {}", r.len(), want.len()));
                    }
                    for (n, a, d) in &want {
                        same(r.get(*n).ok_or(format!("no tensor named {n:?}"))?, a, *d)?;
                    }
                    Ok(())
                };
                let r = (|| {
                    cmp(de_many(f, &ser_many(f, &m)?)?)?;
                    match f {
                        Fmt::Hdt => hdt::save_many(&m, &path).and_then(|_| hdt::load_many(&path)),
                        Fmt::Json => json::save_many(&m, &path).and_then(|_| json::load_many(&path)),
                    }
                    .map_err(es)
                    .and_then(cmp)
                })();
                match r {
                    Ok(()) => Out::Ok(String::new()),
                    Err(e) => Out::Bad("wrong", e),
                }
            });
        }
    }
    // 4. damage
    for d in ALL_DT {
        for s in [&[][..], &[2], &[1, 2], &[0]] {
            for (f, fname) in FMTS {
                let a = gen::values(s, R::G, d, 0);
                let t = tensor(&a, d).unwrap();
                let Ok(b) = ser(f, &t) else { continue };
                let pre = format!("damage/{fname}/{}/{s:?}", dn(d)).replace(' ', "");
                if !c.wants_prefix(&pre) {
                    continue;
                }
                let g = format!("damage/{fname}");
                let mut one = |c: &mut Check, what: String, bytes: Vec<u8>| {
                    let key = format!("{pre}/{what}");
                    if c.wants(&key) {
                        c.case(&g, &key, || usable(f, de(f, &bytes)));
                    }
                };
                for n in 0..b.len() {
                    one(&mut c, format!("cut{n}"), b[..n].to_vec());
                }
                for i in 0..b.len() {
                    let mut x = b.clone();
                    x.remove(i);
                    one(&mut c, format!("del{i}"), x);
                    let mut x = b.clone();
                    x.insert(i, b[i]);
                    one(&mut c, format!("dup{i}"), x);
                    if f == Fmt::Json && !th && d != DType::F32 && d != DType::BOOL && d != DType::I8 {
                        continue;
                    }
                    for v in 0..=255u8 {
                        if v != b[i] {
                            let mut x = b.clone();
                            x[i] = v;
                            one(&mut c, format!("set{i}={v}"), x);
                        }
                    }
                }
                if f == Fmt::Hdt && (th || matches!(d, DType::F32 | DType::BOOL | DType::U64)) {
                    // every pair of values of two neighbouring bytes
                    for i in 0..b.len() - 1 {
                        for v in 0..=65535u16 {
                            let mut x = b.clone();
                            x[i] = v as u8;
                            x[i + 1] = (v >> 8) as u8;
                            one(&mut c, format!("two{i}={v}"), x);
                        }
                    }
                }
            }
        }
    }
    // lengths of the variable-length encoding: every length the format can express, at either length field
    for (i, enc) in [0u64, 1, 2, 127, 128, 1 << 14, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 61, 1 << 62, 1 << 63, u64::MAX / 4, u64::MAX / 2, u64::MAX]
        .into_iter()
        .flat_map(|x| [vec![x], vec![x, 0], vec![0, x], vec![x, 1], vec![x, 2], vec![2, x], vec![x, x], vec![x, x, 0], vec![4, x]])
        .enumerate()
    {
        for d in ALL_DT {
            for n in [0usize, 1, 2, 4, 8, 16] {
                let key = format!("dims/{}/{i}/{n}", dn(d));
                if !c.wants(&key) {
                    continue;
                }
                c.case("dims/hdt", &key, || {
                    let vi = |o: &mut Vec<u8>, mut x: u64| {
                        while x > 127 {
                            o.push(x as u8 | 128);
                            x >>= 7;
                        }
                        o.push(x as u8);
                    };
                    let mut o = vec![];
                    vi(&mut o, enc.len() as u64);
                    enc.iter().for_each(|&x| vi(&mut o, x));
                    // the element type as it appears in a file of a scalar
                    let head = ser(Fmt::Hdt, &tensor(&gen::values(&[], R::G, d, 0), d).unwrap()).unwrap();
                    o.extend(&head[1..head.len() - 1 - d.size_in_bytes()]);
                    vi(&mut o, n as u64);
                    o.extend(vec![0u8; n]);
                    let r = de(Fmt::Hdt, &o);
                    let fits = enc.iter().try_fold(d.size_in_bytes() as u64, |a, &b| a.checked_mul(b)) == Some(n as u64);
                    // no elements, but extents that overflow: either answer is fine
                    let odd = enc.contains(&0) && enc.iter().try_fold(8u64, |a, &b| a.checked_mul(b.max(1))).is_none();
                    if odd {
                        return Out::Ok("huge".into());
                    }
                    if let (Ok(t), false) = (&r, fits) {
                        return Out::Bad("wrong", format!("shape {enc:?} of {d} accepted with {n} bytes: {:?}", t.shape()));
                    }
                    if let (Err(e), true) = (&r, fits) {
                        return Out::Bad("err", format!("shape {enc:?} of {d} with {n} bytes refused: {e}"));
                    }
                    if enc.iter().any(|&x| x > 1 << 20) {
                        return Out::Ok("huge".into());
                    }
                    usable(Fmt::Hdt, r)
                });
            }
        }
    }
    // 5. hand-made JSON: every combination of the field alphabets
    let shapes = [
        "[]", "[1]", "[2]", "[1,2]", "[0]", "[0,5]", "[3]", "[-1]", "[2.0]", "[1.5]", "[\"2\"]", "[null]", "null", "2", "{}", "[[2]]",
        "[18446744073709551615]", "[18446744073709551616]", "[4294967296,4294967296]", "[9223372036854775808,2]", "[0,18446744073709551615,2]", "",
    ];
    let dts: Vec<String> =
        ALL_DT.iter().map(|d| format!("\"{}\"", dn(*d))).chain(["\"F32\"", "\"f33\"", "\"\"", "null", "1", ""].map(String::from)).collect();
    let els = [
        "0", "1", "-1", "127", "128", "255", "256", "-128", "-129", "32768", "65535", "65536", "-32769", "2147483647", "2147483648", "4294967295",
        "4294967296", "-2147483648", "-2147483649", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616",
        "-9223372036854775808", "-9223372036854775809", "1.0", "1.5", "-0.0", "1e39", "1e400", "1e-400", "true", "false", "null", "\"1\"", "\"x\"", "[1]", "{}",
    ];
    let dims = |s: &str| -> Option<Vec<u64>> {
        let t = s.strip_prefix('[')?.strip_suffix(']')?;
        if t.is_empty() {
            return Some(vec![]);
        }
        t.split(',').map(|x| x.parse::<u64>().ok()).collect()
    };
    let okel = |d: DType, e: &str| -> Option<bool> {
        // Some(true): must load, Some(false): must be refused, None: either
        if d.is_bool() {
            return Some(matches!(e, "true" | "false"));
        }
        if e.starts_with('"') {
            return if d.is_float() && e == "\"1\"" { None } else { Some(false) };
        }
        if matches!(e, "true" | "false" | "null" | "[1]" | "{}") {
            return Some(false);
        }
        if d.is_float() {
            let x: f64 = e.parse().unwrap();
            return if x.abs() > fmax(d) { None } else { Some(true) };
        }
        match e.parse::<i128>() {
            Ok(x) => {
                let (lo, hi) = int_range(d);
                Some((lo..=hi).contains(&x))
            },
            Err(_) if e == "1.0" || e == "-0.0" => None,
            Err(_) => Some(false),
        }
    };
    for (si, s) in shapes.iter().enumerate() {
        for (di, dt) in dts.iter().enumerate() {
            for (ei, e) in els.iter().enumerate() {
                for n in 0..=2 {
                    if n == 0 && ei > 0 {
                        continue;
                    }
                    let key = format!("json/{si}/{di}/{ei}/{n}");
                    if !c.wants(&key) {
                        continue;
                    }
                    let mut parts = vec![];
                    if !s.is_empty() {
                        parts.push(format!("\"shape\":{s}"));
                    }
                    if !dt.is_empty() {
                        parts.push(format!("\"dtype\":{dt}"));
                    }
                    parts.push(format!("\"data\":[{}]", vec![*e; n].join(",")));
                    let text = format!("{{{}}}", parts.join(","));
                    let d = ALL_DT.iter().copied().find(|d| dt.trim_matches('"').to_lowercase() == dn(*d));
                    c.case("json", &key, || {
                        let r = json::deserialize(&text).map_err(es);
                        let shape = dims(s);
                        let count = shape.as_ref().and_then(|v| v.iter().try_fold(1u64, |a, &b| a.checked_mul(b)));
                        let must = match (d, count) {
                            (Some(d), Some(k)) if k == n as u64 => {
                                if n == 0 {
                                    Some(true)
                                } else {
                                    okel(d, e)
                                }
                            },
                            _ => Some(false),
                        };
                        // an overflowing shape with a zero extent has no elements: either answer is fine
                        let must = if s.starts_with("[0,184") { None } else { must };
                        match (&r, must) {
                            (Ok(t), Some(false)) => return Out::Bad("wrong", format!("{text} accepted: {:?}", read(t).map(|a| a.show()))),
                            (Err(x), Some(true)) => return Out::Bad("err", format!("{text} refused: {x}")),
                            _ => {},
                        }
                        if let (Ok(t), Some(true), Some(d)) = (&r, must, d) {
                            let v = match *e {
                                "true" => V::B(true),
                                "false" => V::B(false),
                                e if d.is_float() => V::F(quant(d, e.parse().unwrap())),
                                e => V::I(e.parse().unwrap_or(1)),
                            };
                            let want = Nd::new(shape.unwrap().iter().map(|&x| x as usize).collect(), vec![v; n]);
                            if let Err(x) = same(t, &want, d) {
                                return Out::Bad("wrong", format!("{text}: {x}"));
                            }
                        }
                        if s.starts_with("[0,184") {
                            return Out::Ok("huge".into());
                        }
                        usable(Fmt::Json, r)
                    });
                }
            }
        }
    }
    // 6. files that are not there, not UTF-8, or cannot be written
    for (f, fname) in FMTS {
        let key = format!("files/{fname}");
        if c.wants(&key) {
            let (missing, bad, dirp) = (dir.0.join(format!("none.{fname}")), dir.0.join(format!("bad.{fname}")), dir.0.join("no/such"));
            c.case("files", &key, || {
                let _ = std::fs::write(&bad, [0xff, 0xfe, 0x80, 0x22]);
                let t = tensor(&Nd::new(vec![1], vec![V::F(1.0)]), DType::F32).unwrap();
                let m: HashMap<String, Tensor> = [("a".to_string(), t.clone())].into();
                let many = |p: &PathBuf| match f {
                    Fmt::Hdt => hdt::load_many(p),
                    Fmt::Json => json::load_many(p),
                };
                let sm = |p: &PathBuf| match f {
                    Fmt::Hdt => hdt::save_many(&m, p),
                    Fmt::Json => json::save_many(&m, p),
                };
                for (what, ok) in [
                    ("load of a missing file", Tensor::load(&missing).is_err() && many(&missing).is_err()),
                    ("load of a damaged file", Tensor::load(&bad).is_err() && many(&bad).is_err()),
                    ("save into a missing directory", t.save(dirp.join(format!("x.{fname}"))).is_err() && sm(&dirp).is_err()),
                ] {
                    if !ok {
                        return Out::Bad("wrong", format!("{what} succeeded"));
                    }
                }
                Out::Ok(String::new())
            });
        }
    }
    drop(dir);
    c.finish("every value of the 8 and 16 bit types and scale families of the wider ones, every layout, sets of names, both formats; every truncation, deletion, duplication and substitution of a byte of small files, every pair of neighbouring bytes of the binary one, all combinations of a field alphabet of hand-made JSON")
}
