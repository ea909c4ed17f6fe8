//! C23: camera constants, published ranges, and frame reads with the low-level functions.
use crate::bus::MemBus;
use crate::codec::*;
use crate::util::*;
use mlx9064x::calculations::RamData;
use mlx9064x::common::{read_ram, MelexisCamera};
use mlx9064x::mlx90640::Mlx90640;
use mlx9064x::mlx90641::Mlx90641;
use mlx9064x::*;

fn adr(a: Address) -> i64 {
    i64::from(u16::from(a))
}
fn ram_row(m: &RamData) -> Vec<i64> {
    crate::calc::ram_ints(m)
}
/// The fields of a range, from its Debug output (they are not public).
pub fn parse_range(s: &str) -> Option<Vec<i64>> {
    let num = |key: &str| -> Option<i64> {
        let t = &s[s.find(key)? + key.len()..];
        let t: String = t.chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_alphanumeric()).collect();
        if let Some(h) = t.strip_prefix("0x") {
            i64::from_str_radix(h, 16).ok()
        } else {
            t.parse().ok()
        }
    };
    Some(vec![num("start_address")?, num("buffer_offset")?, num("length")?])
}
fn camera<Cam: MelexisCamera, const H: usize>(m: i64, r: &mut Rng, rounds: usize, out: &mut Vec<String>)
where
    <Cam as MelexisCamera>::PixelRangeIterator: IntoIterator<Item = mlx9064x::common::PixelAddressRange>,
{
    out.push(
        Obj::new("const")
            .i("m", m)
            .ints("dims", [Cam::HEIGHT, Cam::WIDTH, Cam::NUM_PIXELS, Cam::BASIC_TEMPERATURE_RANGE].iter().map(|x| *x as i64))
            .i("heat", fb(Cam::SELF_HEATING))
            .ints(
                "addr",
                [
                    Cam::T_A_V_BE,
                    Cam::T_A_PTAT,
                    Cam::V_DD_PIXEL,
                    Cam::GAIN,
                    Cam::compensation_pixel(Subpage::Zero),
                    Cam::compensation_pixel(Subpage::One),
                ]
                .iter()
                .map(|a| adr(*a)),
            )
            .end(),
    );
    for sp in SUBPAGES {
        for pat in PATTERNS {
            let head = |k: &str| Obj::new(k).i("m", m).i("sp", sp_i(sp)).i("pat", pat_i(pat));
            let v: Vec<i64> = Cam::pixels_in_subpage(sp, pat).into_iter().take(5000).map(|x| x as i64).collect();
            out.push(head("in").i("count", v.len() as i64).ints("in", v).end());
            let rows: Vec<Option<Vec<i64>>> = Cam::pixel_ranges(sp, pat)
                .into_iter()
                .take(5000)
                .map(|x| parse_range(&format!("{:?}", x)))
                .collect();
            if rows.iter().all(|x| x.is_some()) {
                let rows: Vec<Vec<i64>> = rows.into_iter().map(|x| x.unwrap()).collect();
                out.push(head("ranges").rows("rows", &rows).end());
            }
            for k in 0..rounds {
                let addr = r.range(1, 127) as u8;
                let bus = MemBus::new(addr);
                for a in 0..65536 {
                    bus.set(a, r.u16());
                }
                if k % 3 == 1 {
                    // the words of the frame that formulas are sensitive to
                    for a in [Cam::T_A_V_BE, Cam::T_A_PTAT, Cam::V_DD_PIXEL, Cam::GAIN, Cam::compensation_pixel(sp)] {
                        bus.set(adr(a) as usize, *r.pick(&[0u16, 0, 0, 1, 0xFFFF, 0x7FFF, 0x8000, 0x0100, 0x00FF]));
                    }
                }
                let extra = if k % 2 == 0 { 0 } else { r.range(1, 40) as usize };
                let mut buf = vec![0xA5u8; 2 * (Cam::NUM_PIXELS + extra)];
                let mut b = bus.clone();
                let full = k % 4 != 3;
                let res = guarded(|| {
                    if full {
                        read_ram::<Cam, _, H>(&mut b, addr, pat, sp, &mut buf).map_err(|_| ())
                    } else {
                        RamData::from_i2c::<_, Cam>(&mut b, addr, sp).map_err(|_| ())
                    }
                });
                let (ok, ram) = match &res {
                    Ok(Ok(x)) => (1, ram_row(x)),
                    Ok(Err(_)) => (0, vec![]),
                    Err(_) => (-1, vec![]),
                };
                out.push(
                    head("frame")
                        .i("addr", i64::from(addr))
                        .i("full", full as i64)
                        .i("ok", ok)
                        .ints("res", ram)
                        .ints("ram", (0x400..0x740).map(|a| i64::from(bus.get(a))))
                        .ints("buf", buf.chunks(2).map(|x| i64::from(u16::from_be_bytes([x[0], x[1]]))))
                        .objs("log", &bus.take_log())
                        .end(),
                );
            }
        }
    }
}
pub fn low(seed: u64, thorough: bool) -> Vec<String> {
    let mut out = Vec::new();
    let mut r = Rng::new(seed, 23);
    let n = if thorough { 400 } else { 24 };
    camera::<Mlx90640, { Mlx90640::HEIGHT }>(640, &mut r, n, &mut out);
    camera::<Mlx90641, { Mlx90641::HEIGHT }>(641, &mut r, n, &mut out);
    out
}
