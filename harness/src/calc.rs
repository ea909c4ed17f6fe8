//! C16, C17, C18, C22: the calculations, one function at a time and for whole images, with
//! arbitrary constants (a calibration of our own) and with decoded calibrations.
use crate::calib::*;
use crate::codec::*;
use crate::util::*;
use mlx9064x::calculations::*;
use mlx9064x::common::{FlaggedPixels, MelexisCamera};
use mlx9064x::mlx90640::{Mlx90640, Mlx90640Calibration};
use mlx9064x::mlx90641::{Mlx90641, Mlx90641Calibration};
use mlx9064x::*;
use std::marker::PhantomData;

pub struct NoFlags;
impl FlaggedPixels for NoFlags {
    fn any(&self) -> bool {
        false
    }
    type FlaggedIterator = std::iter::Empty<usize>;
    fn iter_flagged(&self) -> Self::FlaggedIterator {
        std::iter::empty()
    }
}

/// A calibration with every constant free, all per-pixel constants different per subpage.
#[derive(Clone, Debug)]
pub struct TestCal<C> {
    pub k_v_dd: i16,
    pub v_dd_25: i16,
    pub res: Resolution,
    pub k_v_ptat: f32,
    pub k_t_ptat: f32,
    pub v_ptat_25: f32,
    pub alpha_ptat: f32,
    pub gain: f32,
    pub k_s_ta: f32,
    pub ct: Vec<i16>,
    pub k_s_to: Vec<f32>,
    pub acorr: Vec<f32>,
    pub em: Option<f32>,
    pub tgc: Option<f32>,
    pub off: [Vec<i16>; 2],
    pub al: [Vec<f32>; 2],
    pub kv: [Vec<f32>; 2],
    pub kta: [Vec<f32>; 2],
    pub ocp: [i16; 2],
    pub acp: [f32; 2],
    pub kvcp: [f32; 2],
    pub ktacp: [f32; 2],
    pub comp: [Vec<Option<f32>>; 2],
    pub ccp: [[Option<f32>; 2]; 2],
    pub _c: PhantomData<C>,
}
fn spx(s: Subpage) -> usize {
    sp_i(s) as usize
}
fn refer(o: &Option<f32>) -> Option<&f32> {
    o.as_ref()
}
impl<'a, C: MelexisCamera + 'a> CalibrationData<'a> for TestCal<C> {
    type Camera = C;
    fn k_v_dd(&self) -> i16 {
        self.k_v_dd
    }
    fn v_dd_25(&self) -> i16 {
        self.v_dd_25
    }
    fn resolution(&self) -> Resolution {
        self.res
    }
    fn k_v_ptat(&self) -> f32 {
        self.k_v_ptat
    }
    fn k_t_ptat(&self) -> f32 {
        self.k_t_ptat
    }
    fn v_ptat_25(&self) -> f32 {
        self.v_ptat_25
    }
    fn alpha_ptat(&self) -> f32 {
        self.alpha_ptat
    }
    fn gain(&self) -> f32 {
        self.gain
    }
    fn k_s_ta(&self) -> f32 {
        self.k_s_ta
    }
    fn corner_temperatures(&self) -> &[i16] {
        &self.ct
    }
    fn k_s_to(&self) -> &[f32] {
        &self.k_s_to
    }
    fn alpha_correction(&self) -> &[f32] {
        &self.acorr
    }
    fn emissivity(&self) -> Option<f32> {
        self.em
    }
    type OffsetReferenceIterator = std::slice::Iter<'a, i16>;
    fn offset_reference_pixels(&'a self, s: Subpage) -> Self::OffsetReferenceIterator {
        self.off[spx(s)].iter()
    }
    fn offset_reference_cp(&self, s: Subpage) -> i16 {
        self.ocp[spx(s)]
    }
    type AlphaIterator = std::slice::Iter<'a, f32>;
    fn alpha_pixels(&'a self, s: Subpage) -> Self::AlphaIterator {
        self.al[spx(s)].iter()
    }
    fn alpha_cp(&self, s: Subpage) -> f32 {
        self.acp[spx(s)]
    }
    type KvIterator = std::slice::Iter<'a, f32>;
    fn k_v_pixels(&'a self, s: Subpage) -> Self::KvIterator {
        self.kv[spx(s)].iter()
    }
    fn k_v_cp(&self, s: Subpage) -> f32 {
        self.kvcp[spx(s)]
    }
    type KtaIterator = std::slice::Iter<'a, f32>;
    fn k_ta_pixels(&'a self, s: Subpage) -> Self::KtaIterator {
        self.kta[spx(s)].iter()
    }
    fn k_ta_cp(&self, s: Subpage) -> f32 {
        self.ktacp[spx(s)]
    }
    fn temperature_gradient_coefficient(&self) -> Option<f32> {
        self.tgc
    }
    type AccessPatternCompensation =
        std::iter::Map<std::slice::Iter<'a, Option<f32>>, fn(&'a Option<f32>) -> Option<&'a f32>>;
    fn access_pattern_compensation_pixels(&'a self, p: AccessPattern) -> Self::AccessPatternCompensation {
        self.comp[pat_i(p) as usize].iter().map(refer)
    }
    fn access_pattern_compensation_cp(&self, s: Subpage, p: AccessPattern) -> Option<f32> {
        self.ccp[spx(s)][pat_i(p) as usize]
    }
    type FailedPixels = NoFlags;
    fn failed_pixels(&'a self) -> NoFlags {
        NoFlags
    }
    type OutlierPixels = NoFlags;
    fn outlier_pixels(&'a self) -> NoFlags {
        NoFlags
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Style {
    Real,  // magnitudes as they occur
    Wild,  // anything
}
fn wildf(r: &mut Rng) -> f32 {
    match r.below(8) {
        0 => *r.pick(&[0.0, -0.0, 1.0, -1.0, 0.5, 1e-7, 1e7, 3.3, 25.0, 273.15, 1e-20, 1e20]),
        1 => f32::from_bits((r.u16() as u32) << 16 | r.u16() as u32),
        _ => {
            let e = r.range(-12, 12) as i32;
            r.frange(-1.0, 1.0) * 2f32.powi(2 * e)
        }
    }
}
fn pickf(r: &mut Rng, st: Style, lo: f32, hi: f32) -> f32 {
    if st == Style::Wild && r.chance(1, 2) {
        wildf(r)
    } else {
        r.frange(lo, hi)
    }
}
fn picki(r: &mut Rng, st: Style, lo: i64, hi: i64) -> i16 {
    if st == Style::Wild && r.chance(1, 2) {
        match r.below(4) {
            0 => *r.pick(&[0i16, 1, -1, 32767, -32768, 32766, -32767]),
            _ => r.u16() as i16,
        }
    } else {
        r.range(lo, hi) as i16
    }
}
pub fn testcal<C: MelexisCamera>(r: &mut Rng, st: Style, n: usize, ranges: usize) -> TestCal<C> {
    let s = |r: &mut Rng, lo: f32, hi: f32| pickf(r, st, lo, hi);
    let vec = |r: &mut Rng, lo: f32, hi: f32| -> Vec<f32> { (0..n).map(|_| pickf(r, st, lo, hi)).collect() };
    let o = |r: &mut Rng, lo: f32, hi: f32| if r.chance(3, 4) { Some(pickf(r, st, lo, hi)) } else { None };
    let opts = |r: &mut Rng, p: u64| -> Vec<Option<f32>> {
        (0..n).map(|_| if r.below(4) < p { Some(pickf(r, st, -8.0, 8.0)) } else { None }).collect()
    };
    let pi = r.below(5);
    let pc = *r.pick(&[0u64, 0, 4, 2]);
    TestCal {
        k_v_dd: picki(r, st, -4000, -2500),
        v_dd_25: picki(r, st, -14000, -12000),
        res: RESOLUTIONS[r.below(4) as usize],
        k_v_ptat: s(r, 0.002, 0.01),
        k_t_ptat: s(r, 38.0, 46.0),
        v_ptat_25: s(r, 11500.0, 12800.0),
        alpha_ptat: s(r, 8.0, 11.0),
        gain: s(r, 5000.0, 11000.0),
        k_s_ta: s(r, -0.003, 0.003),
        ct: (0..ranges).map(|_| r.u16() as i16).collect(),
        k_s_to: (0..ranges).map(|_| s(r, -0.0009, 0.0009)).collect(),
        acorr: (0..ranges).map(|_| s(r, 0.5, 1.5)).collect(),
        em: if r.chance(1, 2) { Some(r.frange(0.5, 1.0)) } else { None },
        tgc: o(r, -4.0, 4.0),
        off: [(0..n).map(|_| picki(r, st, -500, 500)).collect(), (0..n).map(|_| picki(r, st, -500, 500)).collect()],
        al: [vec(r, 3e-8, 4e-7), vec(r, 3e-8, 4e-7)],
        kv: [vec(r, -0.5, 0.5), vec(r, -0.5, 0.5)],
        kta: [vec(r, -0.01, 0.02), vec(r, -0.01, 0.02)],
        ocp: [picki(r, st, -500, 500), picki(r, st, -500, 500)],
        acp: [s(r, 1e-9, 5e-9), s(r, 1e-9, 5e-9)],
        kvcp: [s(r, -0.5, 0.5), s(r, -0.5, 0.5)],
        ktacp: [s(r, -0.01, 0.02), s(r, -0.01, 0.02)],
        comp: [opts(r, pi), opts(r, pc)],
        ccp: [[o(r, -2.0, 2.0), o(r, -2.0, 2.0)], [o(r, -2.0, 2.0), o(r, -2.0, 2.0)]],
        _c: PhantomData,
    }
}

pub fn ram_ints(m: &RamData) -> Vec<i64> {
    [m.t_a_v_be, m.t_a_ptat, m.v_dd_pixel, m.gain, m.compensation_pixel].iter().map(|x| i64::from(*x)).collect()
}
/// Frame words; with Style::Real such that the temperatures are plausible for `cal`.
pub fn frame<'a, C: CalibrationData<'a>>(r: &mut Rng, st: Style, c: &C) -> RamData {
    let wild = st == Style::Wild;
    let ptat = if wild { picki(r, st, 1, 32767) } else { r.range(1500, 2000) as i16 };
    // V_PTAT_art = ptat / (ptat * alpha + vbe) * 2^18 near V_PTAT25 + (T_a - 25) * K_T
    let ta = r.frange(-20.0, 70.0);
    let art = c.v_ptat_25() + (ta - 25.0) * c.k_t_ptat();
    let vbe = f32::from(ptat) * 262144.0 / art - f32::from(ptat) * c.alpha_ptat();
    let vdd = f32::from(c.v_dd_25()) + r.frange(-0.4, 0.4) * f32::from(c.k_v_dd());
    RamData {
        t_a_v_be: if wild && r.chance(1, 2) { picki(r, st, -32768, 32767) } else { vbe as i16 },
        t_a_ptat: ptat,
        v_dd_pixel: if wild && r.chance(1, 2) { picki(r, st, -32768, 32767) } else { vdd as i16 },
        gain: if wild { picki(r, st, 4000, 12000) } else { (c.gain() * r.frange(0.8, 1.25)) as i16 },
        compensation_pixel: picki(r, st, -150, 150),
    }
}

fn res1(o: Obj, v: Result<f32, String>) -> String {
    match v {
        Ok(x) => o.i("r", fb(x)).i("panic", 0).end(),
        Err(_) => o.i("r", 0).i("panic", 1).end(),
    }
}
fn optf(o: Option<f32>) -> Vec<i64> {
    o.map(|x| vec![fb(x)]).unwrap_or_default()
}

/// One function call per block.
pub fn calcfn(seed: u64, thorough: bool) -> Vec<String> {
    let mut out = Vec::new();
    let mut r = Rng::new(seed, 16);
    let n = if thorough { 30000 } else { 2500 };
    // the resolution corrections of both cameras, all 16 pairs
    for m in [640, 641] {
        for (i, a) in RESOLUTIONS.iter().enumerate() {
            for (j, b) in RESOLUTIONS.iter().enumerate() {
                let v = guarded(|| {
                    if m == 640 {
                        Mlx90640::resolution_correction(*a, *b)
                    } else {
                        Mlx90641::resolution_correction(*a, *b)
                    }
                });
                out.push(res1(Obj::new("rc").i("m", m).i("cal", i as i64).i("cur", j as i64), v));
            }
        }
    }
    for i in 0..n {
        let st = if i % 3 == 2 { Style::Wild } else { Style::Real };
        let c: TestCal<Mlx90640> = testcal(&mut r, st, 1, 4);
        let ram = frame(&mut r, st, &c);
        let rc = if st == Style::Wild && r.chance(1, 4) { wildf(&mut r) } else { *r.pick(&[1.0, 1.0, 0.125, 0.25, 0.5, 2.0, 4.0, 8.0]) };
        let em = if r.chance(1, 3) { 1.0 } else { pickf(&mut r, st, 0.2, 1.1) };
        let v = guarded(|| delta_v(&c, ram.v_dd_pixel));
        let dv = v.clone().unwrap_or(0.1);
        out.push(res1(
            Obj::new("dv").i("v25", c.v_dd_25.into()).i("kvdd", c.k_v_dd.into()).i("px", ram.v_dd_pixel.into()),
            v,
        ));
        let dv2 = if r.chance(1, 4) { pickf(&mut r, st, -0.5, 0.5) } else { dv };
        let v = guarded(|| v_dd(&c, rc, dv2));
        let vd = v.clone().unwrap_or(3.3);
        out.push(res1(
            Obj::new("vdd").i("v25", c.v_dd_25.into()).i("kvdd", c.k_v_dd.into()).i("rc", fb(rc)).i("dv", fb(dv2)),
            v,
        ));
        let v = guarded(|| v_ptat_art(&c, ram.t_a_ptat, ram.t_a_v_be));
        let art = v.clone().unwrap_or(12000.0);
        out.push(res1(
            Obj::new("art").i("aptat", fb(c.alpha_ptat)).i("ptat", ram.t_a_ptat.into()).i("vbe", ram.t_a_v_be.into()),
            v,
        ));
        let v = guarded(|| ambient_temperature(&c, art, dv2));
        let ta = v.clone().unwrap_or(25.0);
        out.push(res1(
            Obj::new("ta")
                .i("kv", fb(c.k_v_ptat))
                .i("v25", fb(c.v_ptat_25))
                .i("kt", fb(c.k_t_ptat))
                .i("art", fb(art))
                .i("dv", fb(dv2)),
            v,
        ));
        let v = guarded(|| CommonIrData::new(rc, em, &c, &ram));
        let o = Obj::new("common").raw("cal", &snapshot(&c).scal).i("rc", fb(rc)).i("em", fb(em)).ints("ram", ram_ints(&ram));
        out.push(match &v {
            Ok(x) => o.ints("r", fbs(&[x.gain, x.v_dd, x.emissivity, x.t_a])).i("panic", 0).end(),
            Err(_) => o.ints("r", vec![]).i("panic", 1).end(),
        });
        let common = CommonIrData {
            gain: pickf(&mut r, st, 0.7, 1.4),
            v_dd: if r.chance(1, 2) { vd } else { pickf(&mut r, st, 2.6, 3.9) },
            emissivity: em,
            t_a: if r.chance(1, 2) { ta } else { pickf(&mut r, st, -40.0, 90.0) },
        };
        let px = picki(&mut r, st, -2000, 4000);
        let comp = if r.chance(1, 2) { Some(pickf(&mut r, st, -8.0, 8.0)) } else { None };
        let v = guarded(|| per_pixel_v_ir(px, &common, c.off[0][0], c.kv[0][0], c.kta[0][0], comp));
        let vir = v.clone().unwrap_or(100.0);
        out.push(res1(
            Obj::new("vir")
                .i("px", px.into())
                .ints("common", fbs(&[common.gain, common.v_dd, common.emissivity, common.t_a]))
                .i("off", c.off[0][0].into())
                .i("kv", fb(c.kv[0][0]))
                .i("kta", fb(c.kta[0][0]))
                .ints("comp", optf(comp)),
            v,
        ));
        let ta2 = pickf(&mut r, st, -40.0, 90.0);
        let tr = if r.chance(1, 6) { ta2 } else { pickf(&mut r, st, -60.0, 150.0) };
        let em2 = match r.below(6) {
            0 => 1.0,
            1 => f32::from_bits(0x3F7F_FFFF),
            2 => f32::from_bits(0x3F80_0001),
            _ => em,
        };
        let v = guarded(|| t_ar(ta2, tr, em2));
        let tar = v.clone().unwrap_or(9e9);
        out.push(res1(Obj::new("tar").i("ta", fb(ta2)).i("tr", fb(tr)).i("em", fb(em2)), v));
        let v = guarded(|| sensitivity_correction_coefficient(&c, ta2));
        out.push(res1(Obj::new("sens").i("ksta", fb(c.k_s_ta)).i("ta", fb(ta2)), v));
        let (vir2, al2) = (pickf(&mut r, st, -300.0, 3000.0), c.al[0][0]);
        let vir2 = if r.chance(1, 3) { vir } else { vir2 };
        let v = guarded(|| per_pixel_temperature(vir2, al2, tar, c.k_s_to[1]));
        out.push(res1(
            Obj::new("temp").i("vir", fb(vir2)).i("al", fb(al2)).i("tar", fb(tar)).i("kso", fb(c.k_s_to[1])),
            v,
        ));
    }
    out
}

/// What a buffer holds before the call: numbers, NaNs or next to nothing, no two alike.
pub fn sentinel(kind: u64, i: usize) -> f32 {
    f32::from_bits(i as u32 + [0x4B00_0000, 0x7FC0_0001, 1][(kind % 3) as usize])
}

/// Whole images through the three image functions.
#[allow(clippy::too_many_arguments)]
fn image<C>(tag: &str, m: i64, cal: &C, n: usize, r: &mut Rng, st: Style, sp: Subpage, pat: AccessPattern) -> String
where
    C: for<'a> CalibrationData<'a>,
{
    let ram = frame(r, st, cal);
    let rc = *r.pick(&[1.0, 1.0, 1.0, 0.125, 0.25, 0.5, 2.0, 4.0, 8.0]);
    let em = match r.below(8) {
        0 | 1 => 1.0,
        2 => 0.95,
        3 => *r.pick(&[f32::from_bits(0x3F7F_FFFF), f32::from_bits(0x3F80_0001), 0.5, 0.1, 1.1, 0.99, 0.999]),
        _ => pickf(r, st, 0.3, 1.0),
    };
    let tr = match r.below(6) {
        0 | 1 | 2 => None,
        3 => Some(*r.pick(&[0.0, -0.0, 25.0, 1.0, -1.0, 20.0, 17.0, 20.5])),
        _ => Some(pickf(r, st, -30.0, 100.0)),
    };
    // pixel words near the offset so that the temperatures are plausible
    let offs: Vec<i16> = cal.offset_reference_pixels(sp).copied().collect();
    let px: Vec<i16> = offs
        .iter()
        .map(|o| {
            if st == Style::Wild && r.chance(1, 3) {
                picki(r, st, -32768, 32767)
            } else {
                (i64::from(*o) + r.range(-100, 1500)).max(-32768).min(32767) as i16
            }
        })
        .collect();
    let bytes: Vec<u8> = px.iter().flat_map(|w| w.to_be_bytes()).collect();
    let mut len = n;
    match r.below(6) {
        0 => len = r.below(n as u64 + 1) as usize,
        1 => len = n + *r.pick(&[1, 2, 31, 32, 33, 256, n, 3 * n, 4096 - n]),
        _ => (),
    }
    let valid: Vec<bool> = match r.below(4) {
        0 => vec![true; n],
        1 => (0..n).map(|_| r.chance(1, 2)).collect(),
        _ => {
            if m == 640 {
                Mlx90640::pixels_in_subpage(sp, pat).into_iter().take(n).collect()
            } else {
                Mlx90641::pixels_in_subpage(sp, pat).into_iter().take(n).collect()
            }
        }
    };
    let kind = r.below(3);
    let fresh: Vec<f32> = (0..len).map(|i| sentinel(kind, i)).collect();
    let mut ir = fresh.clone();
    let ta_ir =
        guarded(|| raw_pixels_to_ir_data(cal, em, rc, &bytes, ram, sp, pat, &mut valid.clone().into_iter(), &mut ir));
    let mut t1 = fresh.clone();
    let ta_1 = guarded(|| {
        raw_pixels_to_temperatures(cal, em, tr, rc, &bytes, ram, sp, pat, &mut valid.clone().into_iter(), &mut t1)
    });
    let mut t2 = ir.clone();
    let two = guarded(|| {
        raw_ir_to_temperatures(
            cal,
            em,
            *ta_ir.as_ref().unwrap_or(&25.0),
            tr,
            sp,
            &mut valid.clone().into_iter(),
            &mut t2,
        )
    });
    let panic = (ta_ir.is_err() || ta_1.is_err() || two.is_err()) as i64;
    let comp: Vec<Option<f32>> = cal.access_pattern_compensation_pixels(pat).map(|x| x.copied()).collect();
    Obj::new("img")
        .s("tag", tag)
        .i("m", m)
        .i("n", n as i64)
        .i("sp", sp_i(sp))
        .i("pat", pat_i(pat))
        .raw("cal", &snapshot(cal).scal)
        .i("em", fb(em))
        .ints("tr", optf(tr))
        .i("rc", fb(rc))
        .ints("ram", ram_ints(&ram))
        .i("len", len as i64)
        .i("fresh", fb(sentinel(kind, 0)))
        .ints("px", px.iter().map(|x| i64::from(*x)))
        .ints("off", offs.iter().map(|x| i64::from(*x)))
        .ints("kv", cal.k_v_pixels(sp).map(|x| fb(*x)))
        .ints("kta", cal.k_ta_pixels(sp).map(|x| fb(*x)))
        .ints("al", cal.alpha_pixels(sp).map(|x| fb(*x)))
        .ints("hasc", comp.iter().map(|x| x.is_some() as i64))
        .ints("comp", comp.iter().map(|x| fb(x.unwrap_or(0.0))))
        .ints("valid", valid.iter().map(|x| *x as i64))
        .i("panic", panic)
        .ints("ta", fbs(&[ta_ir.unwrap_or(0.0), ta_1.unwrap_or(0.0)]))
        .ints("ir", fbs(&ir))
        .ints("t1", fbs(&t1))
        .ints("t2", fbs(&t2))
        .end()
}

pub fn calcimg(seed: u64, thorough: bool) -> Vec<String> {
    let mut out = Vec::new();
    let mut r = Rng::new(seed, 17);
    let rounds = if thorough { 40 } else { 3 };
    for k in 0..rounds {
        for sp in SUBPAGES {
            for pat in PATTERNS {
                for st in [Style::Real, Style::Wild] {
                    let c: TestCal<Mlx90640> = testcal(&mut r, st, 768, 4);
                    out.push(image("own", 640, &c, 768, &mut r, st, sp, pat));
                    let c: TestCal<Mlx90641> = testcal(&mut r, st, 192, 8);
                    out.push(image("own", 641, &c, 192, &mut r, st, sp, pat));
                    let w = match k % 3 {
                        0 => e640_ds(),
                        1 => e640_dump(),
                        _ => random_640(&mut r, false),
                    };
                    if let Ok(c) = Mlx90640Calibration::from_data(&bytes_of(&w)) {
                        out.push(image("eeprom", 640, &c, 768, &mut r, st, sp, pat));
                    }
                    let w = if k % 2 == 0 { e641_ds() } else { encode_all(&random_641_data(&mut r, false)) };
                    if let Ok(c) = Mlx90641Calibration::from_data(&bytes_of(&w)) {
                        out.push(image("eeprom", 641, &c, 192, &mut r, st, sp, pat));
                    }
                }
            }
        }
    }
    out
}

/// A temperature, often a round one.
fn degrees(r: &mut Rng) -> f32 {
    match r.below(5) {
        0 => r.range(-40, 125) as f32,
        1 => r.range(-400, 1250) as f32 / 10.0,
        2 => r.range(-160, 500) as f32 / 4.0,
        3 => *r.pick(&[0.0, -0.0, 25.0, 8.0, 5.0, -273.15, -40.0, 85.0, 300.0, 1e-6]),
        _ => r.frange(-40.0, 150.0),
    }
}
fn emissivities(r: &mut Rng) -> f32 {
    match r.below(5) {
        0 => r.range(1, 100) as f32 / 100.0,
        1 => f32::from_bits((0x3F80_0000 + r.range(-40, 40)) as u32),
        2 => 1.0,
        3 => 1.0 - 1.0 / (1u32 << r.range(1, 23)) as f32,
        _ => r.frange(0.05, 1.2),
    }
}
/// One block: a fixed calibration and frame, one of its words taking many values.
fn frame_sweep<C>(m: i64, cal: &C, base: [i16; 5], q: usize, rc: f32, vals: &[i16]) -> String
where
    C: for<'a> CalibrationData<'a>,
{
    let at = |w: &[i16; 5]| {
        let ram = RamData { t_a_v_be: w[0], t_a_ptat: w[1], v_dd_pixel: w[2], gain: w[3], compensation_pixel: w[4] };
        guarded(|| CommonIrData::new(rc, 1.0, cal, &ram)).ok()
    };
    let rows: Vec<Vec<i64>> = vals
        .iter()
        .map(|v| {
            let mut w = base;
            w[q] = *v;
            match at(&w) {
                Some(c) => vec![i64::from(*v), 0, fb(c.gain), fb(c.v_dd), fb(c.t_a)],
                None => vec![i64::from(*v), 1, 0, 0, 0],
            }
        })
        .collect();
    Obj::new("fsw")
        .i("m", m)
        .raw("cal", &snapshot(cal).scal)
        .i("rc", fb(rc))
        .ints("ram", base.iter().map(|x| i64::from(*x)))
        .i("q", q as i64 + 1)
        .rows("rows", &rows)
        .end()
}
fn frame_words<'a, C: CalibrationData<'a>>(r: &mut Rng, c: &C) -> [i16; 5] {
    let f = frame(r, Style::Real, c);
    [f.t_a_v_be, f.t_a_ptat, f.v_dd_pixel, f.gain, f.compensation_pixel]
}

/// The calculations along lines: every value of one word while everything else stays.
pub fn calcsweep(seed: u64, thorough: bool) -> Vec<String> {
    let mut r = Rng::new(seed, 18);
    let rounds = if thorough { 6 } else { 1 };
    let mut jobs: Vec<(u64, usize, Vec<i16>)> = vec![];
    for _ in 0..rounds {
        for q in 0..6usize {
            let all: Vec<i16> = (0..=0xFFFFu16).map(|x| x as i16).collect();
            for part in all.chunks(2048) {
                jobs.push((r.next(), q, part.to_vec()));
            }
        }
    }
    for _ in 0..rounds {
        for q in 6..9usize {
            for _ in 0..16 {
                jobs.push((r.next(), q, vec![0; 1024]));
            }
        }
    }
    par(&jobs, |(sd, q, vals)| {
        let mut r = Rng::new(*sd, 19);
        let rc = *r.pick(&[1.0, 1.0, 1.0, 0.125, 0.25, 0.5, 2.0, 4.0, 8.0]);
        match q {
            0..=3 => match r.below(4) {
                0 => {
                    let c = Mlx90640Calibration::from_data(&bytes_of(&e640_ds())).unwrap();
                    let w = frame_words(&mut r, &c);
                    frame_sweep(640, &c, w, *q, rc, vals)
                }
                1 => {
                    let c = Mlx90640Calibration::from_data(&bytes_of(&e640_dump())).unwrap();
                    let w = frame_words(&mut r, &c);
                    frame_sweep(640, &c, w, *q, rc, vals)
                }
                2 => {
                    let c = Mlx90641Calibration::from_data(&bytes_of(&e641_ds())).unwrap();
                    let w = frame_words(&mut r, &c);
                    frame_sweep(641, &c, w, *q, rc, vals)
                }
                _ => {
                    let c: TestCal<Mlx90641> = testcal(&mut r, Style::Real, 1, 8);
                    let w = frame_words(&mut r, &c);
                    frame_sweep(641, &c, w, *q, rc, vals)
                }
            },
            4 | 5 => {
                let c: TestCal<Mlx90640> = testcal(&mut r, Style::Real, 1, 4);
                let common =
                    CommonIrData { gain: r.frange(0.7, 1.4), v_dd: r.frange(2.6, 3.9), emissivity: emissivities(&mut r), t_a: degrees(&mut r) };
                let comp = if r.chance(1, 2) { Some(r.frange(-8.0, 8.0)) } else { None };
                let other = if *q == 4 { c.off[0][0] } else { r.range(-2000, 4000) as i16 };
                let rows: Vec<Vec<i64>> = vals
                    .iter()
                    .map(|v| {
                        let (px, off) = if *q == 4 { (*v, other) } else { (other, *v) };
                        match guarded(|| per_pixel_v_ir(px, &common, off, c.kv[0][0], c.kta[0][0], comp)) {
                            Ok(x) => vec![px.into(), off.into(), 0, fb(x)],
                            Err(_) => vec![px.into(), off.into(), 1, 0],
                        }
                    })
                    .collect();
                Obj::new("vsw")
                    .ints("common", fbs(&[common.gain, common.v_dd, common.emissivity, common.t_a]))
                    .i("kv", fb(c.kv[0][0]))
                    .i("kta", fb(c.kta[0][0]))
                    .ints("comp", optf(comp))
                    .rows("rows", &rows)
                    .end()
            }
            6 => {
                let rows: Vec<Vec<i64>> = vals
                    .iter()
                    .map(|_| {
                        let ta = degrees(&mut r);
                        let tr = if r.chance(1, 8) { ta } else { degrees(&mut r) };
                        let em = emissivities(&mut r);
                        match guarded(|| t_ar(ta, tr, em)) {
                            Ok(x) => vec![fb(ta), fb(tr), fb(em), 0, fb(x)],
                            Err(_) => vec![fb(ta), fb(tr), fb(em), 1, 0],
                        }
                    })
                    .collect();
                Obj::new("tsw").rows("rows", &rows).end()
            }
            7 => {
                let c: TestCal<Mlx90640> = testcal(&mut r, Style::Real, 1, 4);
                let rows: Vec<Vec<i64>> = vals
                    .iter()
                    .map(|_| {
                        let ta = degrees(&mut r);
                        match guarded(|| sensitivity_correction_coefficient(&c, ta)) {
                            Ok(x) => vec![fb(ta), 0, fb(x)],
                            Err(_) => vec![fb(ta), 1, 0],
                        }
                    })
                    .collect();
                Obj::new("ssw").i("ksta", fb(c.k_s_ta)).rows("rows", &rows).end()
            }
            _ => {
                // a pixel's temperature along its signal
                let c: TestCal<Mlx90640> = testcal(&mut r, Style::Real, 1, 4);
                let kso = *r.pick(&[c.k_s_to[1], c.k_s_to[1], -0.0008, 0.0, -0.0001]);
                let tar = t_ar(r.frange(-40.0, 90.0), r.frange(-40.0, 90.0), if r.chance(1, 2) { 1.0 } else { 0.95 });
                let rows: Vec<Vec<i64>> = vals
                    .iter()
                    .enumerate()
                    .map(|(i, _)| {
                        let vir = match r.below(4) {
                            0 => (i as f32 - 200.0) / 8.0,
                            1 => *r.pick(&[0.0, -0.0, 1.0, -1.0, 1e-6, -1e-6, 0.5, 1e-30]),
                            2 => r.frange(-5.0, 5.0),
                            _ => r.frange(-300.0, 3000.0),
                        };
                        match guarded(|| per_pixel_temperature(vir, c.al[0][0], tar, kso)) {
                            Ok(x) => vec![fb(vir), 0, fb(x)],
                            Err(_) => vec![fb(vir), 1, 0],
                        }
                    })
                    .collect();
                Obj::new("psw").i("al", fb(c.al[0][0])).i("tar", fb(tar)).i("kso", fb(kso)).rows("rows", &rows).end()
            }
        }
    })
}
