//! Register words (C01, C21), conversions (C19) and the Hamming code (C10).
use crate::bus::MemBus;
use crate::util::*;
use mlx9064x::common::{FromI2C, ToI2C};
use mlx9064x::mlx90641::hamming::{add_checksum, validate_checksum};
use mlx9064x::*;
use std::convert::TryFrom;
use std::time::Duration;

pub const RATES: [FrameRate; 8] = [
    FrameRate::Half,
    FrameRate::One,
    FrameRate::Two,
    FrameRate::Four,
    FrameRate::Eight,
    FrameRate::Sixteen,
    FrameRate::ThirtyTwo,
    FrameRate::SixtyFour,
];
pub const RESOLUTIONS: [Resolution; 4] =
    [Resolution::Sixteen, Resolution::Seventeen, Resolution::Eighteen, Resolution::Nineteen];
pub const SUBPAGES: [Subpage; 2] = [Subpage::Zero, Subpage::One];
/// index = value of the register bit
pub const PATTERNS: [AccessPattern; 2] = [AccessPattern::Interleave, AccessPattern::Chess];
pub fn rate_i(r: FrameRate) -> i64 {
    RATES.iter().position(|x| *x == r).unwrap() as i64
}
pub fn res_i(r: Resolution) -> i64 {
    RESOLUTIONS.iter().position(|x| *x == r).unwrap() as i64
}
pub fn sp_i(s: Subpage) -> i64 {
    (s == Subpage::One) as i64
}
pub fn pat_i(p: AccessPattern) -> i64 {
    (p == AccessPattern::Chess) as i64
}

fn st(w: u16) -> StatusRegister {
    StatusRegister::from(&w.to_be_bytes()[..])
}
fn stw(r: StatusRegister) -> i64 {
    let b: [u8; 2] = r.into();
    i64::from(u16::from_be_bytes(b))
}
fn ct(w: u16) -> ControlRegister {
    ControlRegister::from(&w.to_be_bytes()[..])
}
fn ctw(r: ControlRegister) -> i64 {
    let b: [u8; 2] = r.into();
    i64::from(u16::from_be_bytes(b))
}
fn i2(w: u16) -> I2cRegister {
    I2cRegister::from(&w.to_be_bytes()[..])
}
fn i2w(r: I2cRegister) -> i64 {
    let b: [u8; 2] = r.into();
    i64::from(u16::from_be_bytes(b))
}
fn or_panic(f: impl FnOnce() -> Vec<i64>) -> Vec<i64> {
    guarded(f).unwrap_or_else(|_| vec![-1])
}

/// Index i of a row set is described in spec/RegsCheck.tla.
fn status_row(w: u16, other: u16) -> Vec<i64> {
    let r = st(w);
    let mut v = vec![
        stw(r),
        sp_i(r.last_updated_subpage()),
        r.new_data() as i64,
        r.overwrite_enabled() as i64,
        r.start_measurement() as i64,
    ];
    let mut x = r;
    x.reset_new_data();
    v.push(stw(x));
    for b in [false, true] {
        let mut x = r;
        x.set_overwrite_enabled(b);
        v.push(stw(x));
    }
    let mut x = r;
    x.set_start_measurement();
    v.push(stw(x));
    v.push((0..16).filter(|b| r == st(w ^ (1 << b))).map(|b| 1i64 << b).sum());
    v.push(i64::from(other));
    v.push((r == st(other)) as i64);
    v
}
fn control_row(w: u16, other: u16) -> Vec<i64> {
    let r = ct(w);
    let mut v = vec![
        ctw(r),
        r.use_subpages() as i64,
        r.step_mode() as i64,
        r.data_hold() as i64,
        r.subpage_repeat() as i64,
        sp_i(r.subpage()),
        rate_i(r.frame_rate()),
        res_i(r.resolution()),
        pat_i(r.access_pattern()),
    ];
    for (op, n) in [(0, 2), (1, 2), (2, 2), (3, 2), (4, 2), (5, 8), (6, 4), (7, 2)] {
        for a in 0..n {
            let mut x = r;
            set_control(&mut x, op, a);
            v.push(ctw(x));
        }
    }
    v.push((0..16).filter(|b| r == ct(w ^ (1 << b))).map(|b| 1i64 << b).sum());
    v.push(i64::from(other));
    v.push((r == ct(other)) as i64);
    v
}
fn set_control(x: &mut ControlRegister, op: usize, a: usize) {
    match op {
        0 => x.set_use_subpages(a == 1),
        1 => x.set_step_mode(a == 1),
        2 => x.set_data_hold(a == 1),
        3 => x.set_subpage_repeat(a == 1),
        4 => x.set_subpage(SUBPAGES[a]),
        5 => x.set_frame_rate(RATES[a]),
        6 => x.set_resolution(RESOLUTIONS[a]),
        _ => x.set_access_pattern(PATTERNS[a]),
    }
}
fn i2c_row(w: u16, other: u16) -> Vec<i64> {
    let r = i2(w);
    let mut v = vec![
        i2w(r),
        r.fast_mode_plus() as i64,
        r.i2c_threshold_halved() as i64,
        r.sda_current_limiter() as i64,
    ];
    for op in 0..3 {
        for b in [false, true] {
            let mut x = r;
            match op {
                0 => x.set_fast_mode_plus(b),
                1 => x.set_i2c_threshold_halved(b),
                _ => x.set_sda_current_limiter(b),
            }
            v.push(i2w(x));
        }
    }
    v.push((0..16).filter(|b| r == i2(w ^ (1 << b))).map(|b| 1i64 << b).sum());
    v.push(i64::from(other));
    v.push((r == i2(other)) as i64);
    v.push((r.cmp(&i2(other)) == std::cmp::Ordering::Equal) as i64);
    v
}

fn word_blocks(out: &mut Vec<String>, kind: &str, seed: u64, row: fn(u16, u16) -> Vec<i64>) {
    let mut rng = Rng::new(seed, 11);
    for blk in 0..256u32 {
        let rows: Vec<Vec<i64>> = (0..256u32)
            .map(|i| {
                let w = (blk * 256 + i) as u16;
                let mut o = rng.u16();
                if rng.chance(1, 2) {
                    // near-equal words are the interesting ones
                    o = w ^ (rng.u16() & rng.u16() & rng.u16());
                }
                or_panic(|| row(w, o))
            })
            .collect();
        out.push(Obj::new(kind).i("base", i64::from(blk) * 256).rows("rows", &rows).end());
    }
}

/// Registers exchanged with a camera: read, change, write back.
fn bus_blocks(out: &mut Vec<String>, seed: u64, n: usize, which: &str) {
    let mut rng = Rng::new(seed, 12);
    for i in 0..n {
        let addr = *rng.pick(&[0x33u8, 0x01, 0x7F, 0x40, 0x10]);
        let bus = MemBus::new(addr);
        let w = if i < 8 { [0, 0xFFFF, 0x1901, 0x0901, 0x8000, 0x0008, 0xFFF7, 0x5555][i] } else { rng.u16() };
        let (reg, kind) = match which {
            "status" => (0x8000usize, "bst"),
            "control" => (0x800D, "bct"),
            _ => (0x800F, "bi2"),
        };
        // neighbours hold something else
        for a in [0x8000usize, 0x8001, 0x800C, 0x800D, 0x800E, 0x800F, 0x8010] {
            bus.set(a, rng.u16());
        }
        bus.set(reg, w);
        let mut seq: Vec<Vec<i64>> = Vec::new();
        let n_set = rng.below(6) as usize;
        let mut b2 = bus.clone();
        let r = guarded(|| -> Result<i64, String> {
            match which {
                "status" => {
                    let mut r = StatusRegister::from_i2c(&mut b2, addr).map_err(|e| format!("{:?}", e))?;
                    for _ in 0..n_set {
                        let op = rng.below(3) as i64;
                        let a = rng.below(2) as i64;
                        match op {
                            0 => r.reset_new_data(),
                            1 => r.set_overwrite_enabled(a == 1),
                            _ => r.set_start_measurement(),
                        }
                        seq.push(vec![op, a]);
                    }
                    r.to_i2c(&mut b2, addr).map_err(|e| format!("{:?}", e))?;
                    Ok(stw(r))
                }
                "control" => {
                    let mut r = ControlRegister::from_i2c(&mut b2, addr).map_err(|e| format!("{:?}", e))?;
                    for _ in 0..n_set {
                        let op = rng.below(8) as usize;
                        let a = rng.below([2, 2, 2, 2, 2, 8, 4, 2][op]) as usize;
                        set_control(&mut r, op, a);
                        seq.push(vec![op as i64, a as i64]);
                    }
                    r.to_i2c(&mut b2, addr).map_err(|e| format!("{:?}", e))?;
                    Ok(ctw(r))
                }
                _ => {
                    let mut r = I2cRegister::from_i2c(&mut b2, addr).map_err(|e| format!("{:?}", e))?;
                    for _ in 0..n_set {
                        let op = rng.below(3) as i64;
                        let a = rng.below(2) as i64;
                        match op {
                            0 => r.set_fast_mode_plus(a == 1),
                            1 => r.set_i2c_threshold_halved(a == 1),
                            _ => r.set_sda_current_limiter(a == 1),
                        }
                        seq.push(vec![op, a]);
                    }
                    r.to_i2c(&mut b2, addr).map_err(|e| format!("{:?}", e))?;
                    Ok(i2w(r))
                }
            }
        });
        let res = match r {
            Ok(Ok(v)) => v,
            Ok(Err(_)) => -2,
            Err(_) => -1,
        };
        let log = bus.take_log();
        out.push(
            Obj::new(kind)
                .i("addr", i64::from(addr))
                .i("w", i64::from(w))
                .rows("seq", &seq)
                .i("res", res)
                .i("final", i64::from(bus.get(reg)))
                .objs("log", &log)
                .end(),
        );
    }
}

pub fn regs(seed: u64, thorough: bool) -> Vec<String> {
    let mut out = Vec::new();
    let d = or_panic(|| vec![ctw(ControlRegister::default_mlx90640()), ctw(ControlRegister::default_mlx90641())]);
    out.push(Obj::new("def").ints("d", d).end());
    word_blocks(&mut out, "st", seed, status_row);
    word_blocks(&mut out, "ct", seed, control_row);
    let n = if thorough { 20000 } else { 800 };
    bus_blocks(&mut out, seed, n, "status");
    bus_blocks(&mut out, seed, n, "control");
    out
}
pub fn i2creg(seed: u64, thorough: bool) -> Vec<String> {
    let mut out = Vec::new();
    let d = or_panic(|| {
        let d = I2cRegister::default();
        vec![
            d.fast_mode_plus() as i64,
            d.i2c_threshold_halved() as i64,
            d.sda_current_limiter() as i64,
            i2w(d) % 8,
        ]
    });
    out.push(Obj::new("i2def").ints("d", d).end());
    word_blocks(&mut out, "i2", seed, i2c_row);
    bus_blocks(&mut out, seed, if thorough { 20000 } else { 2000 }, "i2c");
    out
}

fn hrow(w: u16) -> Vec<i64> {
    let mut v = Vec::new();
    match add_checksum(w) {
        Ok(x) => v.extend([1, i64::from(x)]),
        Err(_) => v.extend([0, 0]),
    }
    match validate_checksum(w) {
        Ok(x) => v.extend([1, i64::from(x)]),
        Err(LibraryError::Checksum(x)) => v.extend([0, i64::from(x)]),
        Err(_) => v.extend([2, 0]),
    }
    v
}
pub fn hamming() -> Vec<String> {
    (0..256u32)
        .map(|blk| {
            let rows: Vec<Vec<i64>> =
                (0..256u32).map(|i| or_panic(|| hrow((blk * 256 + i) as u16))).collect();
            Obj::new("ham").i("base", i64::from(blk) * 256).rows("rows", &rows).end()
        })
        .collect()
}

/// How each compares with each: -1, 0, 1; 9 if the operators do not agree.
fn compared<T: Ord>(v: &[T]) -> Vec<Vec<i64>> {
    let one = |a: &T, b: &T| {
        let c = a.cmp(b) as i64;
        let same = a.partial_cmp(b) == Some(a.cmp(b)) && (a == b) == (c == 0) && (a != b) == (c != 0) && (a < b) == (c < 0) && (a >= b) == (c >= 0);
        if same {
            c
        } else {
            9
        }
    };
    v.iter().map(|a| v.iter().map(|b| one(a, b)).collect()).collect()
}
pub fn conv() -> Vec<String> {
    let mut out = Vec::new();
    let rate_u8: Vec<i64> = (0..=255u8)
        .map(|v| guarded(|| FrameRate::try_from(v).map(rate_i).unwrap_or(-1)).unwrap_or(-2))
        .collect();
    let res_u8: Vec<i64> = (0..=255u8)
        .map(|v| guarded(|| Resolution::try_from(v).map(res_i).unwrap_or(-1)).unwrap_or(-2))
        .collect();
    let rate_f: Vec<i64> = RATES.iter().map(|r| fb(f32::from(*r))).collect();
    let rate_d: Vec<Vec<i64>> = RATES
        .iter()
        .map(|r| {
            or_panic(|| {
                let d = Duration::from(*r);
                vec![d.as_secs() as i64, i64::from(d.subsec_nanos())]
            })
        })
        .collect();
    let res: Vec<i64> = RESOLUTIONS.iter().map(|r| i64::from(u8::from(*r))).collect();
    let sp: Vec<i64> = SUBPAGES.iter().map(|s| usize::from(*s) as i64).collect();
    let spu: Vec<i64> = (0..300usize).map(|v| Subpage::try_from(v).map(sp_i).unwrap_or(-1)).collect();
    let pat: Vec<i64> = PATTERNS.iter().map(|s| i64::from(u8::from(*s))).collect();
    // wide numbers that a narrowing conversion would take for 0 or 1
    let wide: Vec<usize> = (1..usize::BITS).flat_map(|k| [1usize << k, (1 << k) + 1, (1 << k) - 1, usize::MAX - (1 << k)]).filter(|v| *v > 1).collect();
    let spw: Vec<i64> = wide.into_iter().map(|v| Subpage::try_from(v).map(sp_i).unwrap_or(-1)).collect();
    let patu: Vec<i64> = (0..=255u8).map(|v| AccessPattern::try_from(v).map(pat_i).unwrap_or(-1)).collect();
    out.push(
        Obj::new("conv")
            .ints("rate_u8", rate_u8)
            .ints("res_u8", res_u8)
            .ints("rate_f", rate_f)
            .rows("rate_d", &rate_d)
            .ints("res", res)
            .ints("sp", sp)
            .ints("spu", spu)
            .ints("spw", spw)
            .rows("cmp_rate", &compared(&RATES))
            .rows("cmp_res", &compared(&RESOLUTIONS))
            .rows("cmp_sp", &compared(&SUBPAGES))
            .rows("cmp_pat", &compared(&PATTERNS))
            .ints("pat", pat)
            .ints("patu", patu)
            .i("rate_def", rate_i(FrameRate::default()))
            .i("res_def", res_i(Resolution::default()))
            .end(),
    );
    // Every one of the 2^32 floats, in 256 blocks by their top byte: which are accepted?
    let blocks: Vec<std::sync::Mutex<Option<String>>> = (0..256).map(|_| std::sync::Mutex::new(None)).collect();
    let next = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let b = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if b >= 256 {
                    break;
                }
                let mut acc: Vec<Vec<i64>> = Vec::new();
                let mut count = 0i64;
                let mut rejected = 0i64;
                let r = guarded(|| {
                    for lo in 0..(1u32 << 24) {
                        let bits = ((b as u32) << 24) | lo;
                        count += 1;
                        match FrameRate::try_from(f32::from_bits(bits)) {
                            Ok(r) => {
                                if acc.len() < 64 {
                                    acc.push(vec![i64::from(bits as i32), rate_i(r)])
                                }
                            }
                            Err(_) => rejected += 1,
                        }
                    }
                });
                let line = Obj::new("cf")
                    .i("top", b as i64)
                    .i("count", count)
                    .i("rejected", rejected)
                    .i("panic", r.is_err() as i64)
                    .rows("acc", &acc)
                    .end();
                *blocks[b].lock().unwrap() = Some(line);
            });
        }
    });
    for b in blocks {
        out.push(b.into_inner().unwrap().unwrap());
    }
    out
}
