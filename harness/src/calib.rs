//! Calibration data: snapshots of everything a calibration exposes, and the EEPROM suites.
use crate::bus::MemBus;
use crate::codec::*;
use crate::util::*;
use mlx9064x::common::{FlaggedPixels, FromI2C};
use mlx9064x::mlx90640::Mlx90640Calibration;
use mlx9064x::mlx90641::hamming::add_checksum;
use mlx9064x::mlx90641::Mlx90641Calibration;
use mlx9064x::*;

pub const WORDS: usize = 832;
const CAP: usize = 2000;

fn load_hex(s: &str) -> Vec<u16> {
    let t: String = s.chars().filter(|c| !c.is_whitespace()).collect();
    (0..t.len() / 4).map(|i| u16::from_str_radix(&t[4 * i..4 * i + 4], 16).unwrap()).collect()
}
pub fn e640_ds() -> Vec<u16> {
    load_hex(include_str!("../data/e640_ds.hex"))
}
pub fn e640_dump() -> Vec<u16> {
    load_hex(include_str!("../data/e640_dump.hex"))
}
pub fn e641_ds() -> Vec<u16> {
    load_hex(include_str!("../data/e641_ds.hex"))
}
pub fn bytes_of(w: &[u16]) -> Vec<u8> {
    w.iter().flat_map(|w| w.to_be_bytes()).collect()
}

pub fn opt(v: Option<f32>) -> Vec<i64> {
    v.map(|x| vec![fb(x)]).unwrap_or_default()
}
fn comp<'a>(it: impl Iterator<Item = Option<&'a f32>>) -> (Vec<i64>, i64) {
    let mut v = Vec::new();
    let mut none = 0;
    for x in it.take(CAP) {
        match x {
            Some(f) => v.push(fb(*f)),
            None => none += 1,
        }
    }
    (v, none)
}

/// Everything a calibration exposes, as JSON members.
pub struct Snap {
    pub scal: String,
    pub px: String,
}
impl Snap {
    pub fn all(&self) -> String {
        format!("{}|{}", self.scal, self.px)
    }
}
pub fn snapshot<C>(c: &C) -> Snap
where
    C: for<'a> CalibrationData<'a>,
{
    let mut o = Obj::bare()
        .i("kvdd", c.k_v_dd().into())
        .i("vdd25", c.v_dd_25().into())
        .i("res", res_i(c.resolution()))
        .i("vdd0", fb(c.v_dd_0()))
        .i("kvptat", fb(c.k_v_ptat()))
        .i("ktptat", fb(c.k_t_ptat()))
        .i("vptat25", fb(c.v_ptat_25()))
        .i("aptat", fb(c.alpha_ptat()))
        .i("gain", fb(c.gain()))
        .i("ksta", fb(c.k_s_ta()))
        .ints("ct", c.corner_temperatures().iter().map(|x| i64::from(*x)))
        .ints("ksto", fbs(c.k_s_to()))
        .ints("acorr", fbs(c.alpha_correction()))
        .ints("em", opt(c.emissivity()))
        .ints("tgc", opt(c.temperature_gradient_coefficient()))
        .ints("ocp", SUBPAGES.iter().map(|s| i64::from(c.offset_reference_cp(*s))))
        .ints("acp", SUBPAGES.iter().map(|s| fb(c.alpha_cp(*s))))
        .ints("kvcp", SUBPAGES.iter().map(|s| fb(c.k_v_cp(*s))))
        .ints("ktacp", SUBPAGES.iter().map(|s| fb(c.k_ta_cp(*s))));
    let ccp: Vec<Vec<i64>> = SUBPAGES
        .iter()
        .flat_map(|s| PATTERNS.iter().map(move |p| (*s, *p)))
        .map(|(s, p)| opt(c.access_pattern_compensation_cp(s, p)))
        .collect();
    o = o.rows("ccp", &ccp);
    let scal = o.end();
    let mut o = Obj::bare();
    for (name, sp) in [("0", Subpage::Zero), ("1", Subpage::One)] {
        let off: Vec<i64> = c.offset_reference_pixels(sp).take(CAP).map(|x| i64::from(*x)).collect();
        let al: Vec<i64> = c.alpha_pixels(sp).take(CAP).map(|x| fb(*x)).collect();
        let kv: Vec<i64> = c.k_v_pixels(sp).take(CAP).map(|x| fb(*x)).collect();
        let kta: Vec<i64> = c.k_ta_pixels(sp).take(CAP).map(|x| fb(*x)).collect();
        o = o.ints(&format!("off{}", name), off);
        o = o.ints(&format!("al{}", name), al);
        o = o.ints(&format!("kv{}", name), kv);
        o = o.ints(&format!("kta{}", name), kta);
    }
    for (name, p) in [("I", AccessPattern::Interleave), ("C", AccessPattern::Chess)] {
        let (v, none) = comp(c.access_pattern_compensation_pixels(p));
        o = o.ints(&format!("comp{}", name), v).i(&format!("none{}", name), none);
    }
    let f = c.failed_pixels();
    let fi: Vec<i64> = c.failed_pixels().iter_flagged().map(|x| x as i64).collect();
    let oi: Vec<i64> = c.outlier_pixels().iter_flagged().map(|x| x as i64).collect();
    o = o
        .i("failed_any", f.any() as i64)
        .i("outlier_any", c.outlier_pixels().any() as i64)
        .ints("failed", fi)
        .ints("outlier", oi);
    Snap { scal, px: o.end() }
}
// keep the recording small: a second-subpage array equal to the first becomes []
pub fn compact(px: &str) -> String {
    let v: serde_json::Value = serde_json::from_str(px).unwrap();
    let mut m = v.as_object().unwrap().clone();
    for k in ["off", "al", "kv", "kta"] {
        let a = m[&format!("{}0", k)].clone();
        if m[&format!("{}1", k)] == a {
            m.insert(format!("{}1", k), serde_json::Value::Array(vec![]));
        }
    }
    serde_json::to_string(&m).unwrap()
}

pub enum Loaded {
    Ok(Snap),
    Err(i64, i64), // 0 InvalidData, 1 Other, 2 Checksum(word)
    Panic,
}
pub fn code(e: &LibraryError) -> (i64, i64) {
    match e {
        LibraryError::InvalidData(_) => (0, 0),
        LibraryError::Other(_) => (1, 0),
        LibraryError::Checksum(w) => (2, i64::from(*w)),
    }
}
pub fn load(model: u32, bytes: &[u8]) -> Loaded {
    let r = guarded(|| {
        if model == 640 {
            Mlx90640Calibration::from_data(bytes).map(|c| snapshot(&c))
        } else {
            Mlx90641Calibration::from_data(bytes).map(|c| snapshot(&c))
        }
    });
    match r {
        Ok(Ok(s)) => Loaded::Ok(s),
        Ok(Err(e)) => {
            let (a, b) = code(&e);
            Loaded::Err(a, b)
        }
        Err(_) => Loaded::Panic,
    }
}

fn eeprom_block(kind: &str, model: u32, words: &[u16], tag: i64, with_px: bool) -> String {
    let n = if with_px { WORDS } else { 64 };
    let o = Obj::new(kind).i("tag", tag).ints("w", words[..n].iter().map(|w| i64::from(*w)));
    match load(model, &bytes_of(words)) {
        Loaded::Ok(s) => {
            let o = o.i("ok", 1).i("err", -1).i("cs", 0).raw("s", &s.scal);
            if with_px {
                o.raw("px", &compact(&s.px)).end()
            } else {
                o.end()
            }
        }
        Loaded::Err(e, w) => o.i("ok", 0).i("err", e).i("cs", w).end(),
        Loaded::Panic => o.i("ok", -1).i("err", -1).i("cs", 0).end(),
    }
}

// ---------------------------------------------------------------- MLX90640
fn special(r: &mut Rng) -> u16 {
    match r.below(6) {
        0 => *r.pick(&[0u16, 0xFFFF, 0x8000, 0x7FFF, 0x0001, 0x7F80, 0x8080, 0x0F0F, 0xF0F0, 0x8888, 0x7777, 0x00FF, 0xFF00]),
        1 => 1 << r.below(16),
        2 => !(1 << r.below(16)),
        _ => r.u16(),
    }
}
fn px_word(r: &mut Rng) -> u16 {
    match r.below(16) {
        0 => 0,
        1 => 1,
        2 => 0xFFFE,
        3 => 0xFFFF,
        4 => 1 << r.below(16),
        _ => r.u16(),
    }
}
/// A random EEPROM whose pixel offsets stay representable (or, for `edge`, straddle the limit).
pub fn random_640(r: &mut Rng, edge: bool) -> Vec<u16> {
    let mut w: Vec<u16> = (0..WORDS).map(|_| special(r)).collect();
    for x in w[64..].iter_mut() {
        *x = px_word(r);
    }
    let nib = |r: &mut Rng, n: u64| r.below(n) as u16;
    // offsets: row/column nibbles scaled by up to 2^10, remainder by up to 2^9
    let (rs, cs, ms) = (nib(r, 10), nib(r, 10), nib(r, 9));
    w[16] = (w[16] & 0xF000) | rs << 8 | cs << 4 | ms;
    let span = (8i64 << rs) + (8 << cs) + (32 << ms);
    if edge {
        let sign = if r.chance(1, 2) { 1 } else { -1 };
        let d = r.range(0, 2 * span.min(20000));
        w[17] = ((sign * (32767 - d)) as i16) as u16;
    } else {
        let lim = (32767 - span).max(0);
        w[17] = (r.range(-lim, lim) as i16) as u16;
    }
    w
}
pub fn e640(seed: u64, thorough: bool) -> Vec<String> {
    let mut out = Vec::new();
    let mut r = Rng::new(seed, 640);
    for w in [e640_ds(), e640_dump()] {
        out.push(eeprom_block("e640", 640, &w, 0, true));
    }
    // pixel words are dealt from a shuffled deck of all 65536 values
    let mut deck: Vec<u16> = (0..=0xFFFFu16).collect();
    for i in (1..deck.len()).rev() {
        deck.swap(i, r.below(i as u64 + 1) as usize);
    }
    let mut dealt = 0;
    let n = if thorough { 2500 } else { 240 };
    for i in 0..n {
        let mut w = match i % 5 {
            4 => random_640(&mut r, true),
            3 => {
                // a real dump with a few words changed
                let mut w = if r.chance(1, 2) { e640_ds() } else { e640_dump() };
                for _ in 0..r.range(1, 40) {
                    let j = r.range(16, 831) as usize;
                    w[j] = if j == 16 { (special(&mut r) & 0xF333) as u16 } else if j == 17 { r.range(-9000, 9000) as i16 as u16 } else { special(&mut r) };
                }
                w
            }
            2 if i % 10 == 2 => {
                // anything at all
                (0..WORDS).map(|_| special(&mut r)).collect()
            }
            _ => random_640(&mut r, false),
        };
        if i % 5 <= 1 {
            for x in w[64..].iter_mut() {
                *x = deck[dealt % deck.len()];
                dealt += 1;
            }
        }
        out.push(eeprom_block("e640", 640, &w, 1, true));
    }
    // camera-wide constants only: many more headers
    let n = if thorough { 60000 } else { 6000 };
    for i in 0..n {
        let mut w = match i % 4 {
            0 | 1 => {
                let mut w = random_640(&mut r, false);
                for x in w[64..].iter_mut() {
                    *x = 0x0402;
                }
                w[16] &= 0xFFF0;
                w
            }
            2 => e640_ds(),
            _ => e640_dump(),
        };
        if i % 4 >= 2 {
            // one word varied at a time, walking through all header words
            let j = 16 + ((i / 4) % 48) as usize;
            w[j] = if j == 16 { (w[j] & 0x0FFF) | (r.u16() & 0xF000) } else if j == 17 { r.range(-9000, 9000) as i16 as u16 } else { special(&mut r) };
        }
        out.push(eeprom_block("h640", 640, &w, 2, false));
    }
    out
}

/// One header word swept over many values: the constants that differ from the base image's.
fn sweep_block(kind: &str, model: u32, base: &[u16], j: usize, values: &[u16]) -> String {
    let s0 = match load(model, &bytes_of(base)) {
        Loaded::Ok(s) => s.scal,
        _ => return Obj::new(kind).i("j", j as i64).ints("w", base[..64].iter().map(|w| i64::from(*w))).i("ok", 0).raw("s", "{}").raw("rows", "[]").end(),
    };
    let b: serde_json::Map<String, serde_json::Value> = serde_json::from_str(&s0).unwrap();
    let mut w = base.to_vec();
    let mut rows = vec![];
    for v in values {
        w[j] = *v;
        rows.push(match load(model, &bytes_of(&w)) {
            Loaded::Ok(s) if s.scal == s0 => Obj::bare().i("v", i64::from(*v)).i("ok", 1).raw("d", "{\"_\":0}").end(),
            Loaded::Ok(s) => {
                let m: serde_json::Map<String, serde_json::Value> = serde_json::from_str(&s.scal).unwrap();
                let mut d = Obj::bare();
                for (k, x) in &m {
                    if k != "_" && *x != b[k] {
                        d = d.raw(k, &x.to_string());
                    }
                }
                Obj::bare().i("v", i64::from(*v)).i("ok", 1).raw("d", &d.end()).end()
            }
            Loaded::Err(..) => Obj::bare().i("v", i64::from(*v)).i("ok", 0).raw("d", "{\"_\":0}").end(),
            Loaded::Panic => Obj::bare().i("v", i64::from(*v)).i("ok", -1).raw("d", "{\"_\":0}").end(),
        });
    }
    Obj::new(kind).i("j", j as i64).ints("w", base[..64].iter().map(|w| i64::from(*w))).i("ok", 1).raw("s", &s0).objs("rows", &rows).end()
}
/// Values of a word that walk through every value of every field of up to ten bits.
fn word_values(r: &mut Rng, thorough: bool) -> Vec<u16> {
    if thorough {
        return (0..=0xFFFF).collect();
    }
    let mut v = vec![];
    for x in 0..1024u16 {
        v.push(x | (r.u16() & 0xFC00));
    }
    for x in 0..256u16 {
        v.push(x << 8 | (r.u16() & 0xFF));
    }
    for b in 0..16 {
        v.extend([1u16 << b, !(1 << b), (1u16 << b) - 1, u16::MAX << b]);
    }
    v
}
pub fn sweep640(seed: u64, thorough: bool) -> Vec<String> {
    let mut r = Rng::new(seed, 6400);
    let mut out = vec![];
    for j in 0..64usize {
        let mut vals = word_values(&mut r, thorough);
        if j == 17 {
            // keep the offsets representable
            vals.retain(|v| (i32::from(*v as i16)).abs() < 32700);
        }
        if !thorough && (j == 48 || j == 49) {
            vals.extend((0..4096u16).map(|x| x * 16 + (x * 7) % 16));
        }
        for part in vals.chunks(1024) {
            let mut w: Vec<u16> = match r.below(3) {
                0 => e640_ds(),
                1 => e640_dump(),
                _ => random_640(&mut r, false),
            };
            // row and column remainders of at most eight, pixels' offset remainders zero
            for x in w[64..].iter_mut() {
                *x = 2;
            }
            w[16] &= 0xF000;
            if j == 16 {
                for x in w[18..32].iter_mut() {
                    *x = 0;
                }
            }
            w[17] = r.range(-3000, 3000) as u16;
            out.push((w, j, part.to_vec()));
        }
    }
    par(&out, |(w, j, v)| sweep_block("w640", 640, w, *j, v))
}

// ---------------------------------------------------------------- MLX90641
pub fn sweep641(seed: u64, thorough: bool) -> Vec<String> {
    let mut r = Rng::new(seed, 6410);
    let mut out = vec![];
    let rounds = if thorough { 12 } else { 1 };
    for _ in 0..rounds {
        for j in 0..64usize {
            let mut d: Vec<u16> = if r.chance(1, 2) {
                e641_ds().iter().map(|w| w & 0x7FF).collect()
            } else {
                random_641_data(&mut r, false)
            };
            // offset data zero (but no failed pixels): any scale will do
            for p in 0..192 {
                d[0x40 + p] = 0;
                d[0x280 + p] = 0;
                d[0x100 + p] = 1;
            }
            let vals: Vec<u16> = (0..2048u16).filter(|v| !LOW.contains(&j) || *v < 32).map(enc).collect();
            for part in vals.chunks(512) {
                out.push((encode_all(&d), j, part.to_vec()));
            }
        }
    }
    par(&out, |(w, j, v)| sweep_block("w641", 641, w, *j, v))
}

pub fn enc(d: u16) -> u16 {
    // The code words are defined by the specification; build them independently of the crate.
    const COVER: [u16; 4] = [0b101_0101_1011, 0b110_0110_1101, 0b111_1000_1110, 0b111_1111_0000];
    let mut w = d & 0x7FF;
    for (i, c) in COVER.iter().enumerate() {
        w |= (((d & c).count_ones() % 2) as u16) << (11 + i);
    }
    w | ((w.count_ones() % 2) as u16) << 15
}
fn special11(r: &mut Rng) -> u16 {
    (match r.below(5) {
        0 => *r.pick(&[0u16, 0x7FF, 0x400, 0x3FF, 1, 0x20, 0x1F, 0x7E0, 0x555, 0x2AA]),
        1 => 1 << r.below(11),
        _ => r.u16(),
    }) & 0x7FF
}
/// low words of split 16-bit values have five data bits
const LOW: [usize; 5] = [0x12, 0x25, 0x29, 0x30, 0x12];
/// Data words (11 bit) of a random MLX90641 EEPROM.
pub fn random_641_data(r: &mut Rng, edge: bool) -> Vec<u16> {
    let mut d: Vec<u16> = (0..WORDS).map(|_| special11(r)).collect();
    for j in LOW {
        d[j] &= 0x1F;
    }
    // realistic exponents most of the time
    for j in [0x2E, 0x34] {
        if r.chance(7, 8) {
            d[j] = r.below(if j == 0x2E { 48 } else { 24 }) as u16;
        }
    }
    let s = r.below(if edge { 8 } else { 5 });
    d[0x10] = ((s as u16) << 5) | (d[0x10] & 0x1F);
    let span = 1024i64 << s;
    let avg = if edge && r.chance(3, 4) {
        let sign = if r.chance(1, 2) { 1 } else { -1 };
        sign * (32767 - r.range(0, 2 * span.min(16000)))
    } else {
        let lim = (32767 - span).max(0);
        r.range(-lim, lim)
    };
    let avg = (avg as i16) as u16;
    d[0x11] = avg >> 5;
    d[0x12] = avg & 0x1F;
    if r.chance(1, 2) {
        // some failed and nearly failed pixels
        for _ in 0..12 {
            let p = r.below(192) as usize;
            for base in [0x40, 0x100, 0x1C0, 0x280] {
                d[base + p] = 0;
            }
            if r.chance(1, 2) {
                let base = *r.pick(&[0x40usize, 0x100, 0x1C0, 0x280]);
                d[base + p] = 1 << r.below(11);
            }
        }
    }
    d
}
pub fn encode_all(d: &[u16]) -> Vec<u16> {
    d.iter().map(|x| enc(*x)).collect()
}
pub fn e641(seed: u64, thorough: bool) -> Vec<String> {
    let mut out = Vec::new();
    let mut r = Rng::new(seed, 641);
    out.push(eeprom_block("e641", 641, &e641_ds(), 0, true));
    let base: Vec<u16> = e641_ds().iter().map(|w| w & 0x7FF).collect();
    let n = if thorough { 3000 } else { 240 };
    for i in 0..n {
        let d = match i % 5 {
            4 => random_641_data(&mut r, true),
            3 => {
                let mut d = base.clone();
                for _ in 0..r.range(1, 30) {
                    let j = r.range(16, 831) as usize;
                    d[j] = special11(&mut r);
                    if j == 0x10 {
                        d[j] &= 0xFF;
                    }
                    if LOW.contains(&j) {
                        d[j] &= 0x1F;
                    }
                }
                d
            }
            2 if i % 10 == 2 => {
                let mut d: Vec<u16> = (0..WORDS).map(|_| special11(&mut r)).collect();
                for j in LOW {
                    d[j] &= 0x1F;
                }
                d
            }
            _ => random_641_data(&mut r, false),
        };
        out.push(eeprom_block("e641", 641, &encode_all(&d), 1, true));
    }
    let n = if thorough { 60000 } else { 6000 };
    for i in 0..n {
        let mut d = if i % 2 == 0 { random_641_data(&mut r, false) } else { base.clone() };
        for p in d[64..].iter_mut() {
            *p = 1;
        }
        if i % 2 == 1 {
            let j = 16 + ((i / 2) % 48) as usize;
            d[j] = special11(&mut r);
            if j == 0x10 {
                d[j] &= 0xFF;
            }
            if LOW.contains(&j) {
                d[j] &= 0x1F;
            }
        }
        out.push(eeprom_block("h641", 641, &encode_all(&d), 2, false));
    }
    out
}
