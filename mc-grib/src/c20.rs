//! C20: Earth radii.
use crate::{msg::*, obs};
use grib::*;
use mccore::{ensure, fail, guard, hash_of, Ctx, Leaf, Report};

fn scaled(f: u8, v: u32) -> f64 {
    let f = if f & 0x80 != 0 { -((f & 0x7f) as i32) } else { f as i32 };
    v as f64 * 10f64.powi(-f)
}

fn want(shape: u8, ax: &[(u8, u32); 3]) -> Option<(f64, f64)> {
    let v = |k: usize| scaled(ax[k].0, ax[k].1);
    Some(match shape {
        0 => (6_367_470.0, 6_367_470.0),
        1 => (v(0), v(0)),
        2 => (6_378_160.0, 6_356_775.0),
        3 => (v(1) * 1000.0, v(2) * 1000.0),
        4 => (6_378_137.0, 6_356_752.314),
        5 => (6_378_137.0, 6_356_752.314_2),
        6 => (6_371_229.0, 6_371_229.0),
        7 => (v(1), v(2)),
        8 => (6_371_200.0, 6_371_200.0),
        _ => return None,
    })
}

fn near(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-12 * b.abs()
}

fn check(shape: u8, ax: [(u8, u32); 3], via: usize) -> Leaf {
    let what = format!("shape {shape}, radius {:?}, major {:?}, minor {:?}, via {via}", ax[0], ax[1], ax[2]);
    let got = match via {
        0 => guard("radii", || {
            Ok::<_, String>(
                EarthShapeDefinition {
                    shape_of_the_earth: shape,
                    scale_factor_of_radius_of_spherical_earth: ax[0].0,
                    scaled_value_of_radius_of_spherical_earth: ax[0].1,
                    scale_factor_of_earth_major_axis: ax[1].0,
                    scaled_value_of_earth_major_axis: ax[1].1,
                    scale_factor_of_earth_minor_axis: ax[2].0,
                    scaled_value_of_earth_minor_axis: ax[2].1,
                }
                .radii(),
            )
        })?,
        k => {
            let mut b = if k == 1 {
                grid_lambert(shape, 1, 1, 1, (20_000_000, 120_000_000), 30_000_000, 140_000_000, (5_000_000, 4_000_000), 0, 0x40, (30_000_000, 60_000_000))
            } else {
                grid_polar(shape, 1, 1, 1, (60_000_000, 220_000_000), 60_000_000, 249_000_000, (5_000_000, 4_000_000), 0, 0x40)
            };
            for (k, (f, v)) in ax.iter().enumerate() {
                b[10 + 5 * k] = *f;
                b[11 + 5 * k..15 + 5 * k].copy_from_slice(&v.to_be_bytes());
            }
            let file = one(Sub { s2: None, s3: Some(b), s4: prod_default(), s5: repr(0, 0, 0.0, 0, 0, 0), s6: no_bitmap(), s7: vec![] }).bytes();
            guard("radii", || {
                let g = grib::from_slice(&file).map_err(|e| obs::err(&e))?;
                let (_, s) = g.iter().next().ok_or("no submessage")?;
                match GridDefinitionTemplateValues::try_from(s.grid_def()).map_err(|e| obs::err(&e))? {
                    GridDefinitionTemplateValues::Template30(d) => Ok(d.earth_shape.radii()),
                    GridDefinitionTemplateValues::Template20(d) => Ok(d.earth_shape.radii()),
                    d => Err(format!("another grid: {d:?}")),
                }
            })?
        }
    };
    let got = match got {
        Ok(g) => g,
        Err(e) => return fail("no earth shape", format!("{what}: {e}")),
    };
    match (want(shape, &ax), got) {
        (None, None) => Ok(0),
        (Some(w), Some(g)) => {
            ensure!(near(g.0, w.0) && near(g.1, w.1), "wrong radii", "{what}: {g:?}, not {w:?}");
            Ok(hash_of(&(g.0.to_bits(), g.1.to_bits())))
        }
        (w, g) => fail("wrong radii", format!("{what}: {g:?}, not {w:?}")),
    }
}

/// Every shape code with every scale factor in every place.
fn factors(cx: &mut Ctx) -> Leaf {
    let shape = cx.choose(256) as u8;
    let f = cx.choose(256) as u8;
    let place = cx.choose(3);
    let via = cx.choose(3);
    let mut ax = [(2u8, 637_122_900u32), (0x81, 637_813), (3, 635_675_231)];
    ax[place].0 = f;
    check(shape, ax, via)
}

fn values(cx: &mut Ctx, vals: &[u32]) -> Leaf {
    let shape = cx.choose(10) as u8;
    let via = cx.choose(3);
    let mut ax = [(0u8, 0u32); 3];
    for a in ax.iter_mut() {
        a.1 = cx.pick(vals);
    }
    let f = cx.pick(&[0u8, 1, 3, 0x80, 0x81, 0x85, 0xff]);
    for a in ax.iter_mut() {
        a.0 = f;
    }
    check(shape, ax, via)
}

/// All three scale factors.
fn triples(cx: &mut Ctx, fs: &[u8]) -> Leaf {
    let shape = cx.pick(&[1u8, 3, 7]);
    let via = cx.choose(3);
    let ax = [(cx.pick(fs), 6_371_229u32), (cx.pick(fs), 6_378_137), (cx.pick(fs), 6_356_752)];
    check(shape, ax, via)
}

pub fn run(rep: &mut Report) {
    rep.rule = "Every shape code with every scale-factor octet in every place; boundary scaled values; through the public structure and through both grid templates that carry a shape".into();
    rep.explore("factors", 0, factors);
    let v = [0u32, 1, 255, 256, 6_371, 65_536, 6_371_229, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, u32::MAX - 1, u32::MAX];
    rep.explore("values", 0, |cx| values(cx, &v));
    let fs: Vec<u8> = if rep.quick() { vec![0, 1, 2, 3, 5, 7, 0x80, 0x81, 0x82, 0x83, 0x87, 0xff] } else { (0..=255).step_by(5).map(|k| k as u8).collect() };
    rep.explore("triples", 0, |cx| triples(cx, &fs));
}
