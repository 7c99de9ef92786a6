//! Encoders written from the format's definition: complex packing, spatial differencing,
//! run-length packing, PNG and JPEG 2000 payloads.
use crate::msg::{pack_bits, repr, sm, BitWriter};

#[derive(Clone, Debug)]
pub struct Group {
    pub width: u32,
    pub reff: u64,
    /// Field contents (missing-value codes included); for width 0 only the length counts.
    pub vals: Vec<u64>,
}

#[derive(Clone, Debug)]
pub struct Complex {
    pub nbit: u32,
    pub width_ref: u32,
    pub width_nbit: u32,
    pub len_ref: u32,
    pub len_inc: u32,
    pub len_nbit: u32,
    /// What the (unused) last entry of the group lengths holds.
    pub last_slot: u64,
    pub mgmt: u8,
    pub groups: Vec<Group>,
}

impl Complex {
    /// Descriptor widths just large enough for the groups.
    pub fn fit(nbit: u32, mgmt: u8, groups: Vec<Group>, width_ref: u32, len_ref: u32, len_inc: u32) -> Self {
        let wmax = groups.iter().map(|g| g.width - width_ref).max().unwrap_or(0);
        let n = groups.len();
        let lmax = groups[..n - 1]
            .iter()
            .map(|g| (g.vals.len() as u32 - len_ref) / len_inc.max(1))
            .max()
            .unwrap_or(0);
        Complex {
            nbit,
            width_ref,
            width_nbit: 32 - wmax.leading_zeros(),
            len_ref,
            len_inc,
            len_nbit: 32 - lmax.leading_zeros(),
            last_slot: 0,
            mgmt,
            groups,
        }
    }
    pub fn num(&self) -> usize {
        self.groups.iter().map(|g| g.vals.len()).sum()
    }
    pub fn params(&self) -> Vec<u8> {
        let mut v = vec![1, self.mgmt];
        v.extend([0xff; 8]);
        v.extend((self.groups.len() as u32).to_be_bytes());
        v.push(self.width_ref as u8);
        v.push(self.width_nbit as u8);
        v.extend(self.len_ref.to_be_bytes());
        v.push(self.len_inc as u8);
        v.extend((self.groups.last().map_or(0, |g| g.vals.len()) as u32).to_be_bytes());
        v.push(self.len_nbit as u8);
        v
    }
    pub fn data(&self) -> Vec<u8> {
        let mut v = pack_bits(self.groups.iter().map(|g| (g.reff, self.nbit)));
        v.extend(pack_bits(self.groups.iter().map(|g| ((g.width - self.width_ref) as u64, self.width_nbit))));
        let n = self.groups.len();
        v.extend(pack_bits(self.groups.iter().enumerate().map(|(i, g)| {
            let l = if i + 1 == n {
                self.last_slot & 1u64.checked_shl(self.len_nbit).map_or(u64::MAX, |m| m - 1)
            } else {
                ((g.vals.len() as u32 - self.len_ref) / self.len_inc.max(1)) as u64
            };
            (l, self.len_nbit)
        })));
        let mut w = BitWriter::default();
        for g in &self.groups {
            if g.width > 0 {
                for x in &g.vals {
                    w.put(*x, g.width);
                }
            }
        }
        v.extend(w.bytes);
        v
    }
    /// The packed integers (None = missing), by the definition.
    pub fn expected(&self) -> Vec<Option<i64>> {
        let mut out = vec![];
        for g in &self.groups {
            let m1 = if g.width > 0 { (1u64 << g.width) - 1 } else { 1u64.checked_shl(self.nbit).map_or(u64::MAX, |m| m - 1) };
            for x in &g.vals {
                let code = if g.width > 0 { *x } else { g.reff };
                let missing = (self.mgmt >= 1 && code == m1) || (self.mgmt == 2 && m1 > 0 && code == m1 - 1);
                out.push(if missing {
                    None
                } else {
                    Some(g.reff as i64 + if g.width > 0 { *x as i64 } else { 0 })
                });
            }
        }
        out
    }
    /// (Section 5 body, Section 7 body) for template 5.2.
    pub fn t2(&self, r: f32, e: i64, d: i64) -> (Vec<u8>, Vec<u8>) {
        let mut s5 = repr(self.num() as u32, 2, r, e, d, self.nbit as u8);
        s5.extend(self.params());
        (s5, self.data())
    }
    /// Template 5.3 with the given extra descriptors.
    pub fn t3(&self, r: f32, e: i64, d: i64, order: u8, octets: usize, firsts: &[i64], min: i64) -> (Vec<u8>, Vec<u8>) {
        let mut s5 = repr(self.num() as u32, 3, r, e, d, self.nbit as u8);
        s5.extend(self.params());
        s5.push(order);
        s5.push(octets as u8);
        let mut s7 = vec![];
        for f in firsts {
            s7.extend(sm(*f, octets));
        }
        s7.extend(sm(min, octets));
        s7.extend(self.data());
        (s5, s7)
    }
}

/// Bits needed for `x`.
pub fn width_of(x: u64) -> u32 {
    64 - x.leading_zeros()
}

/// Spatially differenced encoding of `field` (None = missing) with groups of the given lengths.
/// Returns None where the numbers do not fit in `octets`.
pub fn diff_encode(field: &[Option<i64>], order: u8, octets: usize, cuts: &[usize], mgmt: u8) -> Option<(Complex, Vec<i64>, i64)> {
    let f: Vec<i64> = field.iter().flatten().copied().collect();
    let o = order as usize;
    let mut d: Vec<i64> = vec![0; f.len()];
    for k in o..f.len() {
        d[k] = if o == 1 { f[k] - f[k - 1] } else { f[k] - 2 * f[k - 1] + f[k - 2] };
    }
    let min = d.iter().skip(o).min().copied().unwrap_or(0);
    for (k, x) in d.iter_mut().enumerate() {
        *x = if k < o { 0 } else { *x - min };
    }
    let mut firsts: Vec<i64> = f.iter().take(o).copied().collect();
    firsts.resize(o, 0);
    let lim = 1i64 << (8 * octets - 1);
    if firsts.iter().chain([&min]).any(|v| v.abs() >= lim) {
        return None;
    }
    // groups
    let mut it = d.into_iter();
    let mut groups = vec![];
    let mut pos = 0;
    let extra = if mgmt == 0 { 0u64 } else { mgmt as u64 };
    for len in cuts {
        let part = &field[pos..pos + len];
        pos += len;
        let vals: Vec<Option<u64>> = part.iter().map(|p| p.map(|_| it.next().unwrap() as u64)).collect();
        let lo = vals.iter().flatten().min().copied();
        let hi = vals.iter().flatten().max().copied();
        let any_missing = vals.iter().any(|v| v.is_none());
        groups.push((vals, lo, hi, any_missing));
    }
    assert_eq!(pos, field.len());
    let maxref = groups.iter().filter_map(|g| g.1).max().unwrap_or(0);
    let nbit = width_of(maxref + extra).max(1);
    let groups = groups
        .into_iter()
        .map(|(vals, lo, hi, any)| match (lo, hi) {
            (None, _) => Group {
                width: 0,
                reff: (1u64 << nbit) - 1,
                vals: vec![0; vals.len()],
            },
            (Some(lo), Some(hi)) if lo == hi && !any => Group {
                width: 0,
                reff: lo,
                vals: vec![0; vals.len()],
            },
            (Some(lo), hi) => {
                let w = width_of(hi.unwrap() - lo + extra).max(1);
                Group {
                    width: w,
                    reff: lo,
                    vals: vals
                        .iter()
                        .map(|v| match v {
                            Some(v) => v - lo,
                            None => (1u64 << w) - 1,
                        })
                        .collect(),
                }
            }
        })
        .collect::<Vec<_>>();
    Some((Complex::fit(nbit, mgmt, groups, 0, 0, 1), firsts, min))
}

/// Run-length packing: (level, run) pairs.
pub fn run_length(nbit: u32, maxv: u32, runs: &[(u32, usize)]) -> Vec<u8> {
    let base = maxv as u64 + 1;
    let radix = (1u64 << nbit) - base;
    let mut f: Vec<(u64, u32)> = vec![];
    for (level, run) in runs {
        f.push((*level as u64, nbit));
        let mut r = *run as u64 - 1;
        while r > 0 {
            f.push((base + r % radix, nbit));
            r /= radix;
        }
    }
    pack_bits(f)
}
pub fn run_length_s5(n: u32, nbit: u8, maxv: u16, levels: &[u16], digits: u8) -> Vec<u8> {
    let mut v = n.to_be_bytes().to_vec();
    v.extend([0, 200]);
    v.push(nbit);
    v.extend(maxv.to_be_bytes());
    v.extend((levels.len() as u16).to_be_bytes());
    v.push(digits);
    for l in levels {
        v.extend(l.to_be_bytes());
    }
    v
}

/// PNG image of `vals`, `bits` 8, 16, 24 or 32 per sample group.
pub fn png(w: u32, h: u32, bits: u8, vals: &[u32], filter: png::FilterType) -> Vec<u8> {
    let mut raw = vec![];
    for v in vals {
        raw.extend_from_slice(&v.to_be_bytes()[4 - bits as usize / 8..]);
    }
    let (c, d) = match bits {
        8 => (png::ColorType::Grayscale, png::BitDepth::Eight),
        16 => (png::ColorType::Grayscale, png::BitDepth::Sixteen),
        24 => (png::ColorType::Rgb, png::BitDepth::Eight),
        _ => (png::ColorType::Rgba, png::BitDepth::Eight),
    };
    let mut out = vec![];
    let mut e = png::Encoder::new(&mut out, w, h);
    e.set_color(c);
    e.set_depth(d);
    e.set_filter(filter);
    let mut wr = e.write_header().unwrap();
    wr.write_image_data(&raw).unwrap();
    wr.finish().unwrap();
    out
}

/// Losslessly coded JPEG 2000 code stream (comps components, all holding `vals`).
pub fn jpeg2000(w: u32, h: u32, prec: u32, signed: bool, comps: u32, off: (u32, u32), tile: u32, vals: &[i32]) -> Option<Vec<u8>> {
    use openjpeg_sys as opj;
    use std::os::raw::c_void;
    unsafe extern "C" fn wr(p: *mut c_void, n: usize, u: *mut c_void) -> usize {
        let v = &mut *(u as *mut (Vec<u8>, usize));
        let s = std::slice::from_raw_parts(p as *const u8, n);
        if v.0.len() < v.1 + n {
            v.0.resize(v.1 + n, 0);
        }
        v.0[v.1..v.1 + n].copy_from_slice(s);
        v.1 += n;
        n
    }
    unsafe extern "C" fn skip(n: i64, u: *mut c_void) -> i64 {
        let v = &mut *(u as *mut (Vec<u8>, usize));
        v.1 = (v.1 as i64 + n) as usize;
        n
    }
    unsafe extern "C" fn seek(n: i64, u: *mut c_void) -> i32 {
        let v = &mut *(u as *mut (Vec<u8>, usize));
        v.1 = n as usize;
        1
    }
    assert_eq!(vals.len(), w as usize * h as usize);
    unsafe {
        let mut out: Box<(Vec<u8>, usize)> = Box::new((vec![], 0));
        let mut par = std::mem::zeroed::<opj::opj_cparameters_t>();
        opj::opj_set_default_encoder_parameters(&mut par);
        par.tcp_numlayers = 1;
        par.tcp_rates[0] = 0.0;
        par.cp_disto_alloc = 1;
        // No transform of a tile that is one sample wide or high: OpenJPEG's encoder then reads
        // and writes beyond its buffers.
        let narrowest = |off: u32, n: u32| {
            let mut cuts: Vec<u32> = (off..=off + n).filter(|x| tile > 0 && x % tile == 0).collect();
            cuts.extend([off, off + n]);
            cuts.sort();
            cuts.dedup();
            cuts.windows(2).map(|c| c[1] - c[0]).min().unwrap_or(n)
        };
        let least = narrowest(off.0, w).min(narrowest(off.1, h));
        let mut levels = 1;
        while levels < 6 && (1u32 << levels) <= least {
            levels += 1;
        }
        par.numresolution = levels;
        par.image_offset_x0 = off.0 as i32;
        par.image_offset_y0 = off.1 as i32;
        if tile > 0 {
            par.tile_size_on = 1;
            par.cp_tdx = tile as i32;
            par.cp_tdy = tile as i32;
        }
        let mut cp: Vec<opj::opj_image_cmptparm_t> = vec![];
        for _ in 0..comps {
            let mut c = std::mem::zeroed::<opj::opj_image_cmptparm_t>();
            c.dx = 1;
            c.dy = 1;
            c.w = w;
            c.h = h;
            c.x0 = off.0;
            c.y0 = off.1;
            c.prec = prec;
            c.bpp = prec;
            c.sgnd = signed as u32;
            cp.push(c);
        }
        let img = opj::opj_image_create(comps, cp.as_mut_ptr(), opj::OPJ_COLOR_SPACE::OPJ_CLRSPC_GRAY);
        if img.is_null() {
            return None;
        }
        (*img).x0 = off.0;
        (*img).y0 = off.1;
        (*img).x1 = off.0 + w;
        (*img).y1 = off.1 + h;
        for c in 0..comps as usize {
            let d = (*(*img).comps.add(c)).data;
            for (i, v) in vals.iter().enumerate() {
                *d.add(i) = *v;
            }
        }
        let codec = opj::opj_create_compress(opj::OPJ_CODEC_FORMAT::OPJ_CODEC_J2K);
        let mut ok = opj::opj_setup_encoder(codec, &mut par, img) == 1;
        let st = opj::opj_stream_default_create(0);
        opj::opj_stream_set_write_function(st, Some(wr));
        opj::opj_stream_set_skip_function(st, Some(skip));
        opj::opj_stream_set_seek_function(st, Some(seek));
        opj::opj_stream_set_user_data(st, &mut *out as *mut _ as *mut c_void, None);
        ok = ok && opj::opj_start_compress(codec, img, st) == 1;
        ok = ok && opj::opj_encode(codec, st) == 1;
        ok = ok && opj::opj_end_compress(codec, st) == 1;
        opj::opj_stream_destroy(st);
        opj::opj_destroy_codec(codec);
        opj::opj_image_destroy(img);
        if ok {
            Some(out.0)
        } else {
            None
        }
    }
}
