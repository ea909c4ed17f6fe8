//! C14, C15: corrupted, truncated and arbitrary EEPROM images, and loading over the bus.
use crate::bus::MemBus;
use crate::calib::*;
use crate::util::*;
use mlx9064x::common::{CalibrationData, FromI2C};
use mlx9064x::mlx90640::Mlx90640Calibration;
use mlx9064x::mlx90641::Mlx90641Calibration;
use mlx9064x::Error;

/// The result of a load, compared with the load of the intact image:
/// -1 same, -2 another calibration, -3 another error than a checksum, -4 panic, >= 0 checksum word
fn outcome(base: &Loaded, got: Loaded) -> i64 {
    match (base, got) {
        (Loaded::Ok(a), Loaded::Ok(b)) => {
            if a.all() == b.all() {
                -1
            } else {
                -2
            }
        }
        (_, Loaded::Ok(_)) => -2,
        (Loaded::Err(a, b), Loaded::Err(c, d)) if *a == c && *b == d => -1,
        (_, Loaded::Err(2, w)) => w,
        (_, Loaded::Err(_, _)) => -3,
        (_, Loaded::Panic) => -4,
    }
}
pub fn flips(seed: u64, thorough: bool) -> Vec<String> {
    let mut out = Vec::new();
    let mut r = Rng::new(seed, 14);
    let mut bases = vec![e641_ds()];
    for _ in 0..(if thorough { 12 } else { 2 }) {
        bases.push(encode_all(&random_641_data(&mut r, false)));
    }
    for w in &bases {
        let base = load(641, &bytes_of(w));
        let head = |k: &str| {
            Obj::new(k)
                .i("ok", if let Loaded::Ok(_) = base { 1 } else { 0 })
                .ints("w", w.iter().map(|x| i64::from(*x)))
        };
        let with = |fl: &[(usize, u16)]| -> i64 {
            let mut v = w.clone();
            for (i, m) in fl {
                v[*i] ^= m;
            }
            outcome(&base, load(641, &bytes_of(&v)))
        };
        let rows: Vec<Vec<i64>> = (0..WORDS).map(|i| (0..16).map(|b| with(&[(i, 1 << b)])).collect()).collect();
        out.push(head("flip1").rows("rows", &rows).end());
        // all pairs of bits a < b of every word, in the order (0,1), (0,2), ..., (14,15)
        let pairs: Vec<u16> =
            (0..16).flat_map(|a| (a + 1..16).map(move |b| (1u16 << a) | (1 << b))).collect();
        let rows: Vec<Vec<i64>> = (0..WORDS).map(|i| pairs.iter().map(|m| with(&[(i, *m)])).collect()).collect();
        out.push(head("flip2").rows("rows", &rows).end());
        // several words at once: [word, mask, word, mask, ..., outcome]
        let mut rows = Vec::new();
        let n = if thorough { 4000 } else { 800 };
        for k in 0..n {
            let mut fl: Vec<(usize, u16)> = Vec::new();
            let singles = if k % 10 == 0 { WORDS } else { r.range(0, 40) as usize };
            let mut used = vec![false; WORDS];
            for j in 0..singles {
                let i = if k % 10 == 0 { j } else { r.below(WORDS as u64) as usize };
                if !used[i] {
                    used[i] = true;
                    fl.push((i, 1 << r.below(16)));
                }
            }
            if k % 2 == 1 {
                for _ in 0..r.range(1, 3) {
                    let i = r.below(WORDS as u64) as usize;
                    if !used[i] {
                        used[i] = true;
                        fl.push((i, *r.pick(&pairs)));
                    }
                }
            }
            let o = with(&fl);
            let mut row: Vec<i64> = fl.iter().flat_map(|(i, m)| vec![*i as i64, i64::from(*m)]).collect();
            row.push(o);
            rows.push(row);
        }
        out.push(head("flipn").rows("rows", &rows).end());
    }
    out
}

fn ok_of(l: &Loaded) -> i64 {
    match l {
        Loaded::Ok(_) => 1,
        Loaded::Err(_, _) => 0,
        Loaded::Panic => -1,
    }
}
fn bus_load<C>(words: &[u16], addr: u8, dev: u8, seed: u64) -> (i64, String, Vec<String>)
where
    C: for<'a> CalibrationData<'a> + FromI2C<MemBus, Ok = C, Error = Error<MemBus>>,
{
    let bus = MemBus::new(dev);
    let mut r = Rng::new(seed, 15);
    for a in 0..65536 {
        bus.set(a, r.u16());
    }
    for (i, w) in words.iter().enumerate() {
        bus.set(0x2400 + i, *w);
    }
    let mut b = bus.clone();
    let res = guarded(|| C::from_i2c(&mut b, addr).map(|c| snapshot(&c).all()));
    let log = bus.take_log();
    match res {
        Ok(Ok(s)) => (1, s, log),
        Ok(Err(Error::LibraryError(e))) => {
            let (a, w) = code(&e);
            (0, format!("{}:{}", a, w), log)
        }
        Ok(Err(Error::I2cWriteReadError(_))) => (2, String::new(), log),
        Ok(Err(Error::I2cWriteError(_))) => (3, String::new(), log),
        Err(_) => (-1, String::new(), log),
    }
}
pub fn bytes(seed: u64, thorough: bool) -> Vec<String> {
    let mut out = Vec::new();
    let mut r = Rng::new(seed, 151);
    for model in [640u32, 641] {
        let good = bytes_of(&if model == 640 { e640_ds() } else { e641_ds() });
        let tail: Vec<u8> = (0..200_000).map(|_| r.u16() as u8).collect();
        let full: Vec<u8> = good.iter().chain(tail.iter()).copied().collect();
        // every length, with a valid image (as far as it goes) and with other bytes
        let base = load(model, &good);
        let some: Vec<usize> =
            (0..48).map(|i| if i < 40 { r.range(1801, 5600) } else { r.range(65536, 140_000) } as usize).collect();
        let lens: Vec<usize> = (0..=1800)
            .chain(some)
            .chain([32767, 32768, 65534, 65535, 65536, 65537, 65536 + 1663, 65536 + 1664, 131_072, 131_072 + 1664, 200_000])
            .collect();
        let mut rows = Vec::new();
        for l in &lens {
            let l = *l;
            let a = load(model, &full[..l]);
            let fill = *r.pick(&[0u8, 0xFF, 0x80, 0x7F, 0x55]);
            let rnd: Vec<u8> = if l % 2 == 0 { vec![fill; l] } else { (0..l).map(|_| r.u16() as u8).collect() };
            let b = load(model, &rnd);
            let same = match (&base, &a) {
                (Loaded::Ok(x), Loaded::Ok(y)) => (x.all() == y.all()) as i64,
                _ => 0,
            };
            rows.push(vec![l as i64, ok_of(&a), same, ok_of(&b)]);
        }
        out.push(Obj::new("len").i("model", i64::from(model)).rows("rows", &rows).end());
        // arbitrary images: any outcome but a panic; extra bytes do not matter
        let n = if thorough { 40000 } else { 6000 };
        let ext = [0u16, 0xFFFF, 0x8000, 0x7FFF, 0x8888, 0x7777, 0x0F0F, 0xF0F0, 0x00FF, 0xFF00, 0x8080, 0x7F7F];
        let mut rows = Vec::new();
        for i in 0..n {
            let mode = i % 4;
            let mut w: Vec<u16> = (0..WORDS)
                .map(|_| match mode {
                    0 => *r.pick(&ext),
                    1 => r.u16(),
                    2 => {
                        if r.chance(1, 3) {
                            *r.pick(&ext)
                        } else {
                            r.u16()
                        }
                    }
                    _ => 0,
                })
                .collect();
            if mode == 3 {
                w = if model == 640 { e640_ds() } else { e641_ds() };
                for _ in 0..r.range(1, 6) {
                    let j = r.range(16, 64) as usize;
                    w[j] = if r.chance(1, 2) { *r.pick(&ext) } else { r.u16() };
                }
            }
            if mode == 0 && r.chance(1, 2) {
                let x = *r.pick(&ext);
                for p in w[64..].iter_mut() {
                    *p = x;
                }
            }
            if model == 641 {
                w = w.iter().map(|x| enc(*x)).collect();
            }
            let mut b = bytes_of(&w);
            let a = load(model, &b);
            b.extend_from_slice(&tail[..r.range(1, 3000) as usize]);
            let c = load(model, &b);
            let same = match (&a, &c) {
                (Loaded::Ok(x), Loaded::Ok(y)) => (x.all() == y.all()) as i64,
                (Loaded::Err(x, y), Loaded::Err(u, v)) => (x == u && y == v) as i64,
                _ => 0,
            };
            rows.push(vec![ok_of(&a), ok_of(&c), same]);
        }
        out.push(Obj::new("any").i("model", i64::from(model)).rows("rows", &rows).end());
        // over the bus
        let n = if thorough { 400 } else { 60 };
        for i in 0..n {
            let w: Vec<u16> = match (model, i % 4) {
                (640, 0) => e640_ds(),
                (640, 1) => e640_dump(),
                (640, _) => random_640(&mut r, false),
                (_, 0) => e641_ds(),
                (_, 1) => (0..WORDS).map(|_| r.u16()).collect(),
                _ => encode_all(&random_641_data(&mut r, false)),
            };
            let addr = r.range(1, 127) as u8;
            let direct = load(model, &bytes_of(&w));
            let (ok, s, log) = if model == 640 {
                bus_load::<Mlx90640Calibration>(&w, addr, addr, seed + i)
            } else {
                bus_load::<Mlx90641Calibration>(&w, addr, addr, seed + i)
            };
            let same = match &direct {
                Loaded::Ok(x) => (ok == 1 && x.all() == s) as i64,
                Loaded::Err(x, y) => (ok == 0 && s == format!("{}:{}", x, y)) as i64,
                Loaded::Panic => 0,
            };
            out.push(
                Obj::new("bus").i("model", i64::from(model)).i("addr", i64::from(addr)).i("ok", ok).i("same", same).objs("log", &log).end(),
            );
        }
    }
    out
}
