//! Decoding one submessage, and judging single-precision values.
use crate::{msg::*, obs};
use grib::*;
use mccore::{guard, Fail};

/// The values of the only submessage, or its error.
pub fn decode(sub: Sub) -> Result<Result<Vec<f32>, String>, Fail> {
    let b = one(sub).bytes();
    decode_nth(&b, 0)
}

pub fn decode_nth(b: &[u8], k: usize) -> Result<Result<Vec<f32>, String>, Fail> {
    guard("decoding", || {
        let g = grib::from_slice(b).map_err(|e| format!("not opened: {}", obs::err(&e)))?;
        let mut it = g.iter();
        for _ in 0..k {
            it.next();
        }
        let (_, s) = it.next().ok_or("no such submessage")?;
        let d = Grib2SubmessageDecoder::from(s).map_err(|e| obs::err(&e))?;
        let it = d.dispatch().map_err(|e| obs::err(&e))?;
        Ok(it.take(20_000_000).collect())
    })
}

/// A grid without coordinates, so that no particular shape is implied.
pub fn points(n: usize) -> Vec<u8> {
    grid_unsupported(n as u32, 101)
}

pub fn sub(n: usize, s5: Vec<u8>, s7: Vec<u8>) -> Sub {
    Sub { s2: None, s3: Some(points(n)), s4: prod_default(), s5, s6: no_bitmap(), s7 }
}

/// Numbers of points around powers of two up to 2^`top`, and a few others.
pub fn sizes(top: u32) -> Vec<usize> {
    let mut v: Vec<usize> = (8..=top).flat_map(|p| [(1 << p) - 1, 1 << p, (1 << p) + 1]).collect();
    v.extend([300, 1000, 1500, 3000, 5000, 10_000, 20_000, 50_000, 100_000, 200_000, 500_000, 1_000_000]);
    v.retain(|n| *n <= (1 << top) + 1);
    v.sort();
    v
}

const EPS: f64 = 1.0 / 16_777_216.0; // half a unit in the last place

#[derive(Clone, Copy, Debug)]
pub struct Scale {
    pub r: f32,
    pub e: i64,
    pub d: i64,
}
pub const PLAIN: Scale = Scale { r: 0.0, e: 0, d: 0 };

impl Scale {
    /// (R + X * 2^E) * 10^-D in double precision.
    pub fn of(&self, x: f64) -> f64 {
        (self.r as f64 + x * 2f64.powi(self.e as i32)) * 10f64.powi(-self.d as i32)
    }
    /// Whether every intermediate result is well inside the range of f32.
    pub fn normal(&self, x: f64) -> bool {
        let ok = |v: f64| v == 0.0 || (1e-35..1e36).contains(&v.abs());
        let p = x * 2f64.powi(self.e as i32);
        self.e.abs() <= 120 && self.d.abs() <= 35 && ok(x) && ok(p) && ok(self.r as f64) && ok(self.r as f64 + p) && ok(self.of(x))
    }
    /// Whether `got` is the value of `x` within single-precision rounding.
    pub fn check(&self, x: f64, got: f32) -> Result<(), String> {
        let want = self.of(x);
        if !self.normal(x) {
            return Ok(());
        }
        let p = x * 2f64.powi(self.e as i32);
        let ex = |v: f64| v as f32 as f64 == v;
        let exact = self.d == 0 && ex(x) && ex(p) && ex(self.r as f64 + p);
        let tol = if exact {
            0.0
        } else {
            (6 + 2 * self.d.abs()) as f64 * EPS * ((self.r as f64).abs() + p.abs()) * 10f64.powi(-self.d as i32)
        };
        if (got as f64 - want).abs() <= tol {
            Ok(())
        } else {
            Err(format!("X={x} with R={} E={} D={} decoded to {got:e}, not {want:e}", self.r, self.e, self.d))
        }
    }
    /// `want` None is a missing point.
    pub fn check_all(&self, want: &[Option<f64>], got: &[f32]) -> Result<(), String> {
        if want.len() != got.len() {
            return Err(format!("{} values, not {}", got.len(), want.len()));
        }
        for (k, (w, g)) in want.iter().zip(got).enumerate() {
            match w {
                None if g.is_nan() => {}
                None => return Err(format!("point {k} is missing but decoded to {g}")),
                Some(x) => self.check(*x, *g).map_err(|m| format!("point {k}: {m}"))?,
            }
        }
        Ok(())
    }
}

pub fn judge(sc: Scale, want: &[Option<f64>], sub: Sub, what: impl Fn() -> String) -> mccore::Leaf {
    match decode(sub)? {
        Err(e) => mccore::fail("a well-formed field is not decoded", format!("{}: {e}", what())),
        Ok(v) => match sc.check_all(want, &v) {
            Ok(()) => Ok(mccore::hash_of(&v.iter().map(|v| v.to_bits()).collect::<Vec<_>>())),
            Err(m) => mccore::fail("wrong values", format!("{}: {m}", what())),
        },
    }
}
