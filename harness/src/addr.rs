//! C26: addresses as numbers and as names.
use crate::util::*;
use mlx9064x::{mlx90640, mlx90641, Address};
use std::cmp::Ordering;
use std::convert::TryFrom;

fn ord(o: Ordering) -> i64 {
    match o {
        Ordering::Less => -1,
        Ordering::Equal => 0,
        Ordering::Greater => 1,
    }
}
macro_rules! names {
    ($m:ident) => {{
        use $m::RamAddress::*;
        [
            Base,
            AmbientTemperatureVoltageBe,
            CompensationPixelZero,
            Gain,
            AmbientTemperatureVoltage,
            CompensationPixelOne,
            PixelSupplyVoltage,
            End,
        ]
    }};
}
macro_rules! index {
    ($m:ident, $x:expr) => {
        guarded(|| $x.ok().map_or(-1, |n| names!($m).iter().position(|y| *y == n).map_or(-3, |i| i as i64))).unwrap_or(-2)
    };
}
/// Numbers, sums, differences and order of the names.
macro_rules! table {
    ($m:ident, $name:expr) => {{
        let all = names!($m);
        let word: Vec<i64> = all.iter().map(|a| i64::from(u16::from(*a))).collect();
        let addr: Vec<i64> = all.iter().map(|a| i64::from(u16::from(Address::from(*a)))).collect();
        let mut pairs: Vec<Vec<i64>> = vec![];
        for a in all {
            for b in all {
                let mut row = vec![];
                for f in [|a, b| a + b, |a, b| a + &b, |a, b| &a + b, |a, b| &a + &b] as [fn(_, _) -> u16; 4] {
                    row.push(guarded(|| i64::from(f(a, b))).unwrap_or(-1));
                }
                for f in [|a, b| a - b, |a, b| a - &b, |a, b| &a - b, |a, b| &a - &b] as [fn(_, _) -> u16; 4] {
                    // there is no difference below zero
                    row.push(if a as u16 >= b as u16 { guarded(|| i64::from(f(a, b))).unwrap_or(-1) } else { 0 });
                }
                row.push(ord(a.cmp(&b)));
                row.push((a == b) as i64);
                pairs.push(row);
            }
        }
        Obj::new("names").i("m", $name).ints("word", word).ints("addr", addr).rows("pairs", &pairs).end()
    }};
}
/// The hexadecimal number in a text, -1 if there is none.
fn shown(text: String) -> i64 {
    let Some((_, rest)) = text.split_once("0x") else { return -1 };
    let digits: String = rest.chars().take_while(|c| c.is_ascii_hexdigit()).collect();
    i64::from_str_radix(&digits, 16).unwrap_or(-1)
}
pub fn addr(seed: u64) -> Vec<String> {
    let mut r = Rng::new(seed, 90);
    let mut out = vec![table!(mlx90640, 640), table!(mlx90641, 641)];
    let all: Vec<u16> = (0..=0xFFFF).collect();
    for part in all.chunks(1024) {
        let rows: Vec<Vec<i64>> = part
            .iter()
            .map(|w| {
                let o = if r.chance(1, 4) { *w ^ (1 << r.below(16)) } else { r.u16() };
                let (a, b) = (Address::new(*w), Address::from(o));
                vec![
                    i64::from(*w),
                    i64::from(u16::from(a)),
                    usize::from(a) as i64,
                    i64::from(u16::from(Address::from(*w))),
                    i64::from(o),
                    ord(a.cmp(&b)),
                    (a == b) as i64,
                    (a == Address::from(*w)) as i64,
                    index!(mlx90640, mlx90640::RamAddress::try_from(*w)),
                    index!(mlx90640, mlx90640::RamAddress::try_from(a)),
                    index!(mlx90641, mlx90641::RamAddress::try_from(*w)),
                    index!(mlx90641, mlx90641::RamAddress::try_from(a)),
                    shown(format!("{:?}", a)),
                ]
            })
            .collect();
        out.push(Obj::new("addr").rows("rows", &rows).end());
    }
    out
}
