//! C07: iterator protocol of submessages, decoded values, grid indices and coordinates.
use crate::{enc, grids::ij_model, msg::*, obs, samples};
use grib::*;
use mccore::{fail, guard, hash_of, Ctx, Leaf, Report};
use std::fmt::Debug;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Next,
    Nth(usize),
    /// Go on with a copy; the original is emptied at the end.
    Dup,
    /// Make a copy, empty it, go on with the original.
    DupAside,
}

trait Drv: Sized {
    type T: PartialEq + Debug + Clone;
    fn next(&mut self) -> Option<Self::T>;
    fn nth(&mut self, k: usize) -> Option<Self::T>;
    fn hint(&self) -> (usize, Option<usize>);
    fn dup(&self) -> Option<Self>;
}

type SubKey = ((usize, usize), usize, usize);
struct Subs<'a>(SubmessageIterator<'a, SeekableGrib2Reader<std::io::Cursor<&'a [u8]>>>);
fn key<R>(x: ((usize, usize), SubMessage<R>)) -> SubKey {
    (x.0, x.1 .4.index, x.1 .7.index)
}
impl<'a> Drv for Subs<'a> {
    type T = SubKey;
    fn next(&mut self) -> Option<SubKey> {
        self.0.next().map(key)
    }
    fn nth(&mut self, k: usize) -> Option<SubKey> {
        self.0.nth(k).map(key)
    }
    fn hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn dup(&self) -> Option<Self> {
        // The signature wants a borrow that lives as long as the file; the copy it makes refers
        // to the file alone.
        let r: &'a SubmessageIterator<'a, _> = unsafe { &*(&self.0 as *const _) };
        Some(Subs(r.into_iter()))
    }
}

struct Vals<I>(I);
impl<I: Iterator<Item = f32>> Drv for Vals<I> {
    type T = u32;
    fn next(&mut self) -> Option<u32> {
        self.0.next().map(obs::bits)
    }
    fn nth(&mut self, k: usize) -> Option<u32> {
        self.0.nth(k).map(obs::bits)
    }
    fn hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn dup(&self) -> Option<Self> {
        None
    }
}

struct Cl<I>(I);
impl<I: Iterator + Clone> Drv for Cl<I>
where
    I::Item: PartialEq + Debug + Clone,
{
    type T = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn nth(&mut self, k: usize) -> Option<I::Item> {
        self.0.nth(k)
    }
    fn hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn dup(&self) -> Option<Self> {
        Some(Cl(self.0.clone()))
    }
}

fn hint_ok(h: (usize, Option<usize>), left: usize) -> bool {
    h.0 <= left && h.1.map_or(true, |u| u >= left)
}

/// The rest of `it` must be items[pos..], then nothing for ever.
fn empty<D: Drv>(mut it: D, items: &[D::T], mut pos: usize, what: &str) -> Result<(), String> {
    loop {
        let h = it.hint();
        if !hint_ok(h, items.len() - pos) {
            return Err(format!("{what}: size_hint {h:?} with {} items left", items.len() - pos));
        }
        let x = it.next();
        if x.as_ref() != items.get(pos) {
            return Err(format!("{what}: next at {pos} gave {x:?}, not {:?}", items.get(pos)));
        }
        if x.is_none() {
            break;
        }
        pos += 1;
    }
    for k in [0, 1, usize::MAX] {
        if let Some(x) = it.nth(k) {
            return Err(format!("{what}: {x:?} after the end"));
        }
        if let Some(x) = it.next() {
            return Err(format!("{what}: {x:?} after the end"));
        }
        let h = it.hint();
        if !hint_ok(h, 0) {
            return Err(format!("{what}: size_hint {h:?} after the end"));
        }
    }
    Ok(())
}

fn play<D: Drv>(mut it: D, items: &[D::T], ops: &[Op]) -> Result<u64, String> {
    let mut pos = 0;
    let mut aside: Vec<(D, usize)> = vec![];
    let mut log = vec![];
    for (k, op) in ops.iter().enumerate() {
        let step = match *op {
            Op::Next => Some(0),
            Op::Nth(n) => Some(n),
            Op::Dup => {
                if let Some(c) = it.dup() {
                    aside.push((std::mem::replace(&mut it, c), pos));
                }
                None
            }
            Op::DupAside => {
                if let Some(c) = it.dup() {
                    empty(c, items, pos, &format!("copy made by op {k} of {ops:?}"))?;
                }
                None
            }
        };
        if let Some(n) = step {
            let x = if *op == Op::Next { it.next() } else { it.nth(n) };
            let want = items.get(pos.saturating_add(n));
            if x.as_ref() != want {
                return Err(format!("op {k} of {ops:?} at {pos} of {} gave {x:?}, not {want:?}", items.len()));
            }
            pos = pos.saturating_add(n).saturating_add(1).min(items.len());
        }
        let h = it.hint();
        let left = items.len() - pos;
        if !hint_ok(h, left) {
            return Err(format!("after op {k} of {ops:?}: size_hint {h:?} with {left} items left"));
        }
        log.push((pos, h));
    }
    empty(it, items, pos, &format!("after {ops:?}"))?;
    for (c, p) in aside {
        empty(c, items, p, &format!("original of a copy, after {ops:?}"))?;
    }
    Ok(hash_of(&log))
}

fn ops(cx: &mut Ctx, depth: usize, dup: bool, far: &[usize]) -> Vec<Op> {
    let mut al = vec![Op::Next, Op::Nth(0), Op::Nth(1), Op::Nth(2)];
    al.extend(far.iter().map(|n| Op::Nth(*n)));
    if dup {
        al.extend([Op::Dup, Op::DupAside]);
    }
    let n = cx.choose(depth + 1);
    (0..n).map(|_| cx.pick(&al)).collect()
}

fn over(what: &str, r: Result<Result<u64, String>, mccore::Fail>) -> Leaf {
    match r {
        Ok(Ok(h)) => Ok(h),
        Ok(Err(m)) => fail(format!("{what} iterator departs from its list of items"), m),
        Err(f) => Err(f),
    }
}

fn submessages(cx: &mut Ctx, depth: usize) -> Leaf {
    let shape = cx.pick(&[
        &[][..],
        &[1],
        &[2],
        &[1, 1],
        &[3],
        &[1, 2],
        &[2, 1],
        &[2, 2, 1],
    ]);
    let o = ops(cx, depth, true, &[5, usize::MAX]);
    let mut bytes = vec![];
    let mut items: Vec<SubKey> = vec![];
    let mut at = 0;
    for (m, n) in shape.iter().enumerate() {
        let mut mm = one(samples::simple());
        mm.subs = (0..*n).map(|_| samples::simple()).collect();
        bytes.extend(mm.bytes());
        at += 2;
        for k in 0..*n {
            items.push(((m, k), at + 1, at + 4));
            at += 5;
        }
        at += 1;
    }
    let r = guard("submessages", || {
        let g = grib::from_slice(&bytes).map_err(|e| obs::err(&e))?;
        let c = play(Subs(g.submessages()), &items, &o)?;
        play(Subs(g.iter()), &items, &o)?;
        Ok(c)
    });
    over("submessage", r)
}

fn value_files() -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = vec![];
    for (n, s) in samples::all() {
        v.push((n.into(), one(s).bytes()));
    }
    for n in [0u32, 1, 2, 7, 8, 9, 15, 16, 17] {
        let mut s = sub_simple8(Some(small_grid(n.max(1), 1)), &(0..n as u8).collect::<Vec<_>>());
        if n == 0 {
            let g = s.s3.as_mut().unwrap();
            g[1..5].copy_from_slice(&[0; 4]);
            g[25..29].copy_from_slice(&[0; 4]);
        }
        v.push((format!("plain{n}"), one(s.clone()).bytes()));
        if n > 1 {
            for pat in 0..3u32 {
                let bits: Vec<bool> = (0..n).map(|k| [k % 2 == 0, k >= 8 || k == 0, k + 1 < n][pat as usize]).collect();
                let c = bits.iter().filter(|b| **b).count() as u32;
                let mut t = s.clone();
                t.s5 = repr(c, 0, 1.0, 0, 0, 8);
                t.s6 = bitmap(&bits);
                t.s7 = (0..c as u8).collect();
                v.push((format!("bitmap{n}-{pat}"), one(t).bytes()));
            }
        }
        let mut t = s.clone();
        t.s5 = repr(n, 0, 1.0, 0, 0, 0);
        t.s7 = vec![];
        v.push((format!("constant{n}"), one(t).bytes()));
        if n > 2 {
            let c = enc::Complex::fit(
                4,
                0,
                vec![
                    enc::Group { width: 0, reff: 3, vals: vec![0; 2] },
                    enc::Group { width: 2, reff: 1, vals: (0..n as u64 - 2).map(|k| k % 4).collect() },
                ],
                0,
                0,
                1,
            );
            let (s5, s7) = c.t2(0.0, 0, 0);
            let mut t = s.clone();
            (t.s5, t.s7) = (s5, s7);
            v.push((format!("groups{n}"), one(t).bytes()));
        }
    }
    v
}

fn values(cx: &mut Ctx, fs: &[(String, Vec<u8>)], depth: usize) -> Leaf {
    let (name, f) = &fs[cx.choose(fs.len())];
    let o = ops(cx, depth, false, &[6, 8, 20, usize::MAX]);
    let r = guard("values", || {
        let g = grib::from_slice(f).map_err(|e| obs::err(&e))?;
        let n = g.iter().next().map(|s| s.1.grid_def().num_points() as usize).unwrap_or(0);
        let d = Grib2SubmessageDecoder::from(g.iter().next().ok_or("no submessage")?.1).map_err(|e| obs::err(&e))?;
        let mut it = d.dispatch().map_err(|e| obs::err(&e))?;
        let mut items = vec![];
        // (a plain loop: the only operation is next)
        #[allow(clippy::while_let_on_iterator)]
        while let Some(v) = it.next() {
            items.push(obs::bits(v));
            if items.len() > n + 8 {
                break;
            }
        }
        if items.len() != n {
            return Err(format!("{} values, {n} grid points", items.len()));
        }
        let it = d.dispatch().map_err(|e| obs::err(&e))?;
        play(Vals(it), &items, &o)
    });
    over("value", r.map(|r| r.map_err(|m| format!("{name}: {m}"))))
}

fn grid(kind: usize, ni: u32, nj: u32, mode: u8) -> GridDefinitionTemplateValues {
    let j = if mode & 0x40 != 0 { 10_000_000 } else { -10_000_000 };
    let i = if mode & 0x80 == 0 { 10_000_000 } else { -10_000_000 };
    let earth = EarthShapeDefinition {
        shape_of_the_earth: 6,
        scale_factor_of_radius_of_spherical_earth: 0,
        scaled_value_of_radius_of_spherical_earth: 0,
        scale_factor_of_earth_major_axis: 0,
        scaled_value_of_earth_major_axis: 0,
        scale_factor_of_earth_minor_axis: 0,
        scaled_value_of_earth_minor_axis: 0,
    };
    // the first rows of a grid of an even number of parallels
    let gauss = |k: u32| ((90.0 - (k as f64 + 0.75) * 180.0 / ((nj + nj % 2) as f64 + 0.5)) * 1e6).round() as i32;
    match kind {
        0 => GridDefinitionTemplateValues::Template0(LatLonGridDefinition {
            ni,
            nj,
            first_point_lat: 0,
            first_point_lon: 100_000_000,
            last_point_lat: j,
            last_point_lon: 100_000_000 + i,
            scanning_mode: ScanningMode(mode),
        }),
        1 => GridDefinitionTemplateValues::Template40(GaussianGridDefinition {
            ni,
            nj,
            first_point_lat: if j < 0 { gauss(0) } else { gauss(nj.max(1) - 1) },
            first_point_lon: 100_000_000,
            last_point_lat: if j < 0 { gauss(nj.max(1) - 1) } else { gauss(0) },
            last_point_lon: 100_000_000 + i,
            i_direction_inc: 0,
            n: (nj + 1) / 2,
            scanning_mode: ScanningMode(mode),
        }),
        2 => GridDefinitionTemplateValues::Template20(PolarStereographicGridDefinition {
            earth_shape: earth,
            ni,
            nj,
            first_point_lat: 20_000_000,
            first_point_lon: 120_000_000,
            lad: 60_000_000,
            lov: 140_000_000,
            dx: 5_000_000,
            dy: 4_000_000,
            projection_centre: ProjectionCentreFlag(0),
            scanning_mode: ScanningMode(mode),
        }),
        _ => GridDefinitionTemplateValues::Template30(LambertGridDefinition {
            earth_shape: earth,
            ni,
            nj,
            first_point_lat: 20_000_000,
            first_point_lon: 120_000_000,
            lad: 30_000_000,
            lov: 140_000_000,
            dx: 5_000_000,
            dy: 4_000_000,
            scanning_mode: ScanningMode(mode),
            latin1: 30_000_000,
            latin2: 60_000_000,
        }),
    }
}

fn indices(cx: &mut Ctx, depth: usize, max: u32) -> Leaf {
    let (ni, nj) = (cx.choose(max as usize + 1), cx.choose(max as usize + 1));
    let mode = cx.pick(&[0u8, 0x10, 0x20, 0x30]);
    let o = ops(cx, depth, true, &[4, usize::MAX]);
    let items = ij_model(ni, nj, mode);
    let r = guard("grid indices", || {
        let it = grid(0, ni as u32, nj as u32, mode).ij().map_err(|e| obs::err(&e))?;
        play(Cl(it), &items, &o)
    });
    over("grid index", r.map(|r| r.map_err(|m| format!("{ni}x{nj} mode {mode:#x}: {m}"))))
}

fn coordinates(cx: &mut Ctx, depth: usize) -> Leaf {
    let kind = cx.choose(4);
    let (ni, nj) = cx.pick(&[(1u32, 1u32), (2, 3), (3, 2), (0, 2)]);
    let mode = cx.pick(&[0u8, 0x70, 0x90]);
    let o = ops(cx, depth, true, &[4, usize::MAX]);
    let r = guard("coordinates", || {
        let g = grid(kind, ni, nj, mode);
        let b = |p: (f32, f32)| (p.0.to_bits(), p.1.to_bits());
        let mut it = g.latlons().map_err(|e| obs::err(&e))?;
        let mut items = vec![];
        #[allow(clippy::while_let_on_iterator)]
        while let Some(p) = it.next() {
            items.push(b(p));
            if items.len() > (ni * nj) as usize + 8 {
                break;
            }
        }
        if items.len() != (ni * nj) as usize {
            return Err(format!("{} coordinates of {}", items.len(), ni * nj));
        }
        let it = g.latlons().map_err(|e| obs::err(&e))?;
        play(Coord(it), &items, &o)
    });
    over("coordinate", r.map(|r| r.map_err(|m| format!("kind {kind} {ni}x{nj} mode {mode:#x}: {m}"))))
}

struct Coord(GridPointIterator);
impl Drv for Coord {
    type T = (u32, u32);
    fn next(&mut self) -> Option<Self::T> {
        self.0.next().map(|p| (p.0.to_bits(), p.1.to_bits()))
    }
    fn nth(&mut self, k: usize) -> Option<Self::T> {
        self.0.nth(k).map(|p| (p.0.to_bits(), p.1.to_bits()))
    }
    fn hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn dup(&self) -> Option<Self> {
        Some(Coord(self.0.clone()))
    }
}

fn gauss_latitudes(cx: &mut Ctx, depth: usize) -> Leaf {
    let n = cx.choose(5);
    let o = ops(cx, depth, false, &[4, usize::MAX]);
    let r = guard("Gaussian latitudes", || {
        let b = |x: Option<f64>| x.map(f64::to_bits);
        let mut items = vec![];
        let mut it = grib::utils::compute_gaussian_latitudes(n);
        #[allow(clippy::while_let_on_iterator)]
        while let Some(x) = it.next() {
            items.push(b(x));
            if items.len() > n {
                break;
            }
        }
        play(NoDup(grib::utils::compute_gaussian_latitudes(n).map(b)), &items, &o)
    });
    over("Gaussian latitude", r)
}
struct NoDup<I>(I);
impl<I: Iterator> Drv for NoDup<I>
where
    I::Item: PartialEq + Debug + Clone,
{
    type T = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn nth(&mut self, k: usize) -> Option<I::Item> {
        self.0.nth(k)
    }
    fn hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn dup(&self) -> Option<Self> {
        None
    }
}

/// Unread submessages have no influence on the count, whatever is read in between.
fn adaptors(cx: &mut Ctx) -> Leaf {
    let k = cx.choose(8);
    let skip = cx.choose(7);
    let step = 1 + cx.choose(4);
    let bytes = samples::multi_bytes();
    let r = guard("submessage adaptors", || {
        let g = grib::from_slice(&bytes).map_err(|e| obs::err(&e))?;
        let all: Vec<SubKey> = g.iter().map(key).collect();
        let got: Vec<SubKey> = match k {
            0 => g.iter().skip(skip).map(key).collect(),
            1 => g.iter().step_by(step).map(key).collect(),
            2 => g.iter().skip(skip).step_by(step).map(key).collect(),
            3 => g.iter().map(key).take(skip).collect(),
            4 => (&g).into_iter().skip(skip).map(key).collect(),
            5 => g.iter().map(key).skip_while(|x| x.0 .0 < skip).collect(),
            6 => {
                let mut it = g.iter();
                let mut v = vec![];
                for _ in 0..step {
                    v.extend(it.nth(0).map(key));
                }
                v.extend(it.map(key));
                v
            }
            _ => {
                let mut it = g.iter();
                it.nth(skip);
                it.map(key).collect()
            }
        };
        let want: Vec<SubKey> = match k {
            0 | 4 => all.iter().skip(skip).copied().collect(),
            1 => all.iter().step_by(step).copied().collect(),
            2 => all.iter().skip(skip).step_by(step).copied().collect(),
            3 => all.iter().take(skip).copied().collect(),
            5 => all.iter().skip_while(|x| x.0 .0 < skip).copied().collect(),
            6 => all.clone(),
            _ => all.iter().skip(skip + 1).copied().collect(),
        };
        if got != want || g.len() != all.len() || g.is_empty() {
            return Err(format!("adaptor {k} skip {skip} step {step}: {got:?}, not {want:?}"));
        }
        Ok(hash_of(&got))
    });
    over("submessage", r)
}

pub fn run(rep: &mut Report) {
    rep.rule = "Every sequence of next, nth, copying (and size_hint after each) up to the stated depth on every iterator, then emptying it and all copies, compared with a list of the items".into();
    let d = rep.tier(5, 7);
    rep.explore("submessages", 0, |cx| submessages(cx, d));
    rep.explore("adaptors", 0, adaptors);
    let fs = value_files();
    let dv = rep.tier(4, 5);
    rep.explore("values", 0, |cx| values(cx, &fs, dv));
    let d = rep.tier(4, 6);
    let m = rep.tier(3, 3) as u32;
    rep.explore("indices", 0, |cx| indices(cx, d, m));
    rep.explore("coordinates", 0, |cx| coordinates(cx, d));
    rep.explore("gaussian-latitudes", 0, |cx| gauss_latitudes(cx, 4));
}
