//! Small helpers of the demonstrations.
#![allow(dead_code)]
use crate::msg::*;
use grib::*;

/// Values of the k-th submessage.
pub fn decode_nth(b: &[u8], k: usize) -> Result<Vec<f32>, String> {
    let g = grib::from_slice(b).map_err(|e| format!("not opened: {e}"))?;
    let mut it = g.iter();
    for _ in 0..k {
        it.next();
    }
    let (_, s) = it.next().ok_or("no such submessage")?;
    let d = Grib2SubmessageDecoder::from(s).map_err(|e| e.to_string())?;
    let it = d.dispatch().map_err(|e| e.to_string())?;
    Ok(it.collect())
}
pub fn decode(sub: Sub) -> Result<Vec<f32>, String> {
    decode_nth(&one(sub).bytes(), 0)
}
/// Coordinates of a grid definition.
pub fn latlons(s3: Vec<u8>) -> Result<Vec<(f32, f32)>, String> {
    let n = u32::from_be_bytes(s3[1..5].try_into().unwrap());
    let sub = Sub { s2: None, s3: Some(s3), s4: prod_default(), s5: repr(n, 0, 1.0, 0, 0, 0), s6: no_bitmap(), s7: vec![] };
    let b = one(sub).bytes();
    let g = grib::from_slice(&b).map_err(|e| format!("not opened: {e}"))?;
    let (_, s) = g.iter().next().ok_or("no submessage")?;
    let it = s.latlons().map_err(|e| e.to_string())?;
    Ok(it.collect())
}
pub fn points(n: usize) -> Vec<u8> {
    grid_unsupported(n as u32, 101)
}
pub fn sub(n: usize, s5: Vec<u8>, s7: Vec<u8>) -> Sub {
    Sub { s2: None, s3: Some(points(n)), s4: prod_default(), s5, s6: no_bitmap(), s7 }
}
/// NaN equals NaN.
pub fn same(a: &[f32], b: &[f32]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a == b || (a.is_nan() && b.is_nan()))
}
pub fn close(a: &[f32], b: &[f32], tol: f32) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| (a - b).abs() <= tol || (a.is_nan() && b.is_nan()))
}
pub fn scratch(name: &str) -> std::path::PathBuf {
    std::env::current_dir().unwrap().join(name)
}
/// Runs gribber; (status, stdout, stderr).
pub fn gribber(args: &[&str]) -> (i32, String, String) {
    let o = std::process::Command::new(std::env::var("GRIBBER").unwrap()).args(args).output().unwrap();
    (o.status.code().unwrap_or(-1), String::from_utf8_lossy(&o.stdout).into(), String::from_utf8_lossy(&o.stderr).into())
}
