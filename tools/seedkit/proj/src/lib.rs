//! Stand-in for the `proj` crate: the calls /repo makes, for the projections it uses.
//!
//! PROJ itself is a C library that is not installed in this sandbox. The formulas below follow
//! PROJ's `lcc` and polar `stere` (Snyder, "Map Projections: A Working Manual", chapters 15 and
//! 21); like PROJ, coordinates are (longitude, latitude) in radians on the geographic side and
//! metres on the projected side.
use std::f64::consts::{FRAC_PI_2, FRAC_PI_4, PI};

#[derive(Debug, Clone, PartialEq)]
pub struct ProjError(pub String);
impl std::fmt::Display for ProjError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for ProjError {}
pub type ProjCreateError = ProjError;

fn err<T>(s: &str) -> Result<T, ProjError> {
    Err(ProjError(s.to_owned()))
}

#[derive(Debug, Clone, Copy)]
enum Kind {
    /// n, F (scaled by a), rho0
    Lcc { n: f64, f: f64, rho0: f64 },
    /// akm1 (scaled by a), +1 north / -1 south
    PolarStere { akm1: f64, hemi: f64 },
}

#[derive(Debug, Clone, Copy)]
pub struct Proj {
    e: f64,
    lon0: f64,
    kind: Kind,
}

fn tsfn(phi: f64, e: f64) -> f64 {
    let s = e * phi.sin();
    (FRAC_PI_4 - phi / 2.).tan() / ((1. - s) / (1. + s)).powf(e / 2.)
}
fn msfn(phi: f64, e: f64) -> f64 {
    let s = e * phi.sin();
    phi.cos() / (1. - s * s).sqrt()
}
fn phi2(ts: f64, e: f64) -> Option<f64> {
    let mut phi = FRAC_PI_2 - 2. * ts.atan();
    for _ in 0..50 {
        let s = e * phi.sin();
        let next = FRAC_PI_2 - 2. * (ts * ((1. - s) / (1. + s)).powf(e / 2.)).atan();
        let d = (next - phi).abs();
        phi = next;
        if d < 1e-13 {
            return Some(phi);
        }
    }
    None
}
fn adjlon(lon: f64) -> f64 {
    if lon.abs() <= PI {
        return lon;
    }
    let mut l = lon + PI;
    l -= 2. * PI * (l / (2. * PI)).floor();
    l - PI
}

impl Proj {
    pub fn new(definition: &str) -> Result<Self, ProjError> {
        let mut kv = std::collections::BTreeMap::new();
        for tok in definition.split_whitespace() {
            let tok = tok.strip_prefix('+').unwrap_or(tok);
            let (k, v) = tok.split_once('=').unwrap_or((tok, ""));
            kv.entry(k.to_owned()).or_insert_with(|| v.to_owned());
        }
        let num = |k: &str| -> Result<Option<f64>, ProjError> {
            match kv.get(k) {
                None => Ok(None),
                Some(v) => match v.parse::<f64>() {
                    Ok(x) if x.is_finite() => Ok(Some(x)),
                    _ => err(&format!("invalid value for {k}")),
                },
            }
        };
        let deg = |k: &str| num(k).map(|o| o.map(f64::to_radians));
        let r = num("R")?;
        let a = r.or(num("a")?).unwrap_or(6378137.);
        let b = if r.is_some() { a } else { num("b")?.unwrap_or(a) };
        if !(a > 0.) || !(b > 0.) {
            return err("invalid semi-major axis");
        }
        let es = 1. - (b / a) * (b / a);
        if !(0. ..1.).contains(&es) {
            return err("invalid eccentricity");
        }
        let e = es.sqrt();
        let lon0 = deg("lon_0")?.unwrap_or(0.);
        let lat0 = deg("lat_0")?.unwrap_or(0.);
        if lat0.abs() > FRAC_PI_2 + 1e-10 {
            return err("invalid lat_0");
        }
        let k0 = num("k_0")?.or(num("k")?).unwrap_or(1.);
        let kind = match kv.get("proj").map(String::as_str) {
            Some("lcc") => {
                let phi1 = match deg("lat_1")? {
                    Some(x) => x,
                    None => return err("missing lat_1"),
                };
                let phi2_ = deg("lat_2")?.unwrap_or(phi1);
                if (phi1 + phi2_).abs() < 1e-10 {
                    return err("Invalid value for lat_1 and lat_2: |lat_1 + lat_2| should be > 0");
                }
                if phi1.cos().abs() < 1e-10 || phi1.abs() >= FRAC_PI_2 {
                    return err("Invalid value for lat_1: |lat_1| should be < 90");
                }
                if phi2_.cos().abs() < 1e-10 || phi2_.abs() >= FRAC_PI_2 {
                    return err("Invalid value for lat_2: |lat_2| should be < 90");
                }
                let (m1, t1) = (msfn(phi1, e), tsfn(phi1, e));
                let n = if (phi1 - phi2_).abs() >= 1e-10 {
                    (m1 / msfn(phi2_, e)).ln() / (t1 / tsfn(phi2_, e)).ln()
                } else {
                    phi1.sin()
                };
                if n == 0. {
                    return err("Invalid value for eccentricity");
                }
                let f = a * k0 * m1 * t1.powf(-n) / n;
                let rho0 = if (lat0.abs() - FRAC_PI_2).abs() < 1e-10 {
                    0.
                } else {
                    f * tsfn(lat0, e).powf(n)
                };
                Kind::Lcc { n, f, rho0 }
            }
            Some("stere") => {
                if (lat0.abs() - FRAC_PI_2).abs() >= 1e-10 {
                    return err("only the polar aspect is available in this stand-in");
                }
                let ts = deg("lat_ts")?.unwrap_or(FRAC_PI_2).abs();
                if ts > FRAC_PI_2 + 1e-10 {
                    return err("Invalid value for lat_ts: |lat_ts| should be <= 90");
                }
                let akm1 = if (ts - FRAC_PI_2).abs() < 1e-10 {
                    2. * k0 / ((1. + e).powf(1. + e) * (1. - e).powf(1. - e)).sqrt()
                } else {
                    msfn(ts, e) / tsfn(ts, e)
                };
                Kind::PolarStere {
                    akm1: a * akm1,
                    hemi: lat0.signum(),
                }
            }
            _ => return err("unknown projection"),
        };
        Ok(Proj { e, lon0, kind })
    }

    pub fn project(&self, point: (f64, f64), inverse: bool) -> Result<(f64, f64), ProjError> {
        if inverse {
            self.inverse(point)
        } else {
            self.forward(point)
        }
    }

    pub fn project_array<'a>(
        &self,
        points: &'a mut [(f64, f64)],
        inverse: bool,
    ) -> Result<&'a mut [(f64, f64)], ProjError> {
        for p in points.iter_mut() {
            *p = self.project(*p, inverse)?;
        }
        Ok(points)
    }

    fn forward(&self, (lon, lat): (f64, f64)) -> Result<(f64, f64), ProjError> {
        if !lon.is_finite() || !lat.is_finite() || lon.abs() > 10. {
            return err("Invalid coordinate");
        }
        if lat.abs() > FRAC_PI_2 + 1e-12 {
            return err("Invalid latitude");
        }
        let lat = lat.clamp(-FRAC_PI_2, FRAC_PI_2);
        let lam = adjlon(lon - self.lon0);
        match self.kind {
            Kind::Lcc { n, f, rho0 } => {
                let rho = if (lat.abs() - FRAC_PI_2).abs() < 1e-10 {
                    if lat * n <= 0. {
                        return err("Point outside of projection domain");
                    }
                    0.
                } else {
                    f * tsfn(lat, self.e).powf(n)
                };
                Ok((rho * (n * lam).sin(), rho0 - rho * (n * lam).cos()))
            }
            Kind::PolarStere { akm1, hemi } => {
                let phi = lat * hemi;
                if phi <= -FRAC_PI_2 + 1e-10 {
                    return err("Point outside of projection domain");
                }
                let rho = if FRAC_PI_2 - phi < 1e-15 {
                    0.
                } else {
                    akm1 * tsfn(phi, self.e)
                };
                Ok((rho * lam.sin(), -hemi * rho * lam.cos()))
            }
        }
    }

    fn inverse(&self, (x, y): (f64, f64)) -> Result<(f64, f64), ProjError> {
        if !x.is_finite() || !y.is_finite() {
            return err("Invalid coordinate");
        }
        let (lam, phi) = match self.kind {
            Kind::Lcc { n, f, rho0 } => {
                let (mut x, mut y) = (x, rho0 - y);
                let mut rho = x.hypot(y);
                if rho == 0. {
                    (0., FRAC_PI_2.copysign(n))
                } else {
                    if n < 0. {
                        rho = -rho;
                        x = -x;
                        y = -y;
                    }
                    let phi = match phi2((rho / f).powf(1. / n), self.e) {
                        Some(p) => p,
                        None => return err("Point outside of projection domain"),
                    };
                    (x.atan2(y) / n, phi)
                }
            }
            Kind::PolarStere { akm1, hemi } => {
                let rho = x.hypot(y);
                let phi = match phi2(rho / akm1, self.e) {
                    Some(p) => p,
                    None => return err("Point outside of projection domain"),
                };
                let lam = if rho == 0. { 0. } else { x.atan2(-hemi * y) };
                (lam, hemi * phi)
            }
        };
        Ok((adjlon(lam + self.lon0), phi))
    }
}
