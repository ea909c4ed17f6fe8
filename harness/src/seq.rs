//! C28: per-pixel sequences read in every way an iterator can be read.
use crate::calib::*;
use crate::codec::*;
use crate::util::*;
use mlx9064x::common::{FlaggedPixels, MelexisCamera, PixelAddressRange};
use mlx9064x::mlx90640::{Mlx90640, Mlx90640Calibration};
use mlx9064x::mlx90641::{Mlx90641, Mlx90641Calibration};
use mlx9064x::*;

type Script = Vec<(usize, String, String)>;
const LONGEST: usize = 3000;

fn amount(n: usize, a: &str) -> usize {
    match a {
        "0" => 0,
        "1" => 1,
        "H" => n / 2,
        "L" => n.saturating_sub(1),
        "N" => n,
        _ => n + 3,
    }
}
/// The first, the last and some other entries of a result, with their places.
fn sampled(r: &mut Rng, v: &[i64]) -> Vec<Vec<i64>> {
    let n = v.len();
    let mut at: Vec<usize> = (0..n.min(3)).chain(n.saturating_sub(3)..n).collect();
    if n > 6 {
        at.extend((0..4).map(|_| r.below(n as u64) as usize));
    }
    at.sort_unstable();
    at.dedup();
    at.into_iter().map(|i| vec![i as i64, v[i]]).collect()
}

struct Suite<'s> {
    r: Rng,
    scripts: &'s [Script],
    random: &'s [Script],
    picked: usize,
    out: Vec<String>,
}
impl Suite<'_> {
    fn seq<I: Iterator>(&mut self, m: i64, what: &str, any: i64, make: impl Fn() -> I, value: impl Fn(I::Item) -> i64) {
        let mut whole = make();
        let mut all = vec![];
        let mut end = 0;
        while all.len() < LONGEST && end < 3 {
            match whole.next() {
                Some(x) if end == 0 => all.push(value(x)),
                Some(_) => break,
                None => end += 1,
            }
        }
        let n = all.len();
        let mut ops: Vec<String> = vec![];
        if n < LONGEST {
            let some: Vec<Script> = (0..self.picked).map(|_| self.r.pick(self.random).clone()).collect();
            for s in self.scripts.iter().chain(some.iter()) {
                let mut hs = [make(), make()];
                ops.push(Obj::bare().i("h", 0).s("op", "new").s("a", "0").i("n", 0).rows("px", &[]).end());
                for (h, op, a) in s {
                    let k = amount(n, a);
                    let it = &mut hs[*h - 1];
                    let mut took: Vec<i64> = vec![];
                    let mut count = -1i64;
                    let mut upper = None;
                    match op.as_str() {
                        "next" => took.extend(it.next().map(&value)),
                        "nth" => took.extend(it.nth(k).map(&value)),
                        "take" => took.extend(it.by_ref().take(k).map(&value)),
                        "rest" => took.extend(it.by_ref().take(LONGEST).map(&value)),
                        "hint" => {
                            let (lo, hi) = it.size_hint();
                            count = lo.min(1 << 20) as i64;
                            upper = hi.map(|x| x.min(1 << 20) as i64);
                        }
                        _ => {
                            let it = std::mem::replace(it, make());
                            match op.as_str() {
                                "count" => count = it.count() as i64,
                                "last" => took.extend(it.last().map(&value)),
                                "skip" => took.extend(it.skip(k).map(&value)),
                                "step" => took.extend(it.step_by(k.max(1)).map(&value)),
                                _ => {
                                    took = it.fold(took, |mut v, x| {
                                        v.push(value(x));
                                        v
                                    })
                                }
                            }
                        }
                    }
                    let px = match op.as_str() {
                        "hint" => upper.map(|x| vec![vec![0, x]]).unwrap_or_default(),
                        "count" => vec![],
                        _ => {
                            count = took.len() as i64;
                            sampled(&mut self.r, &took)
                        }
                    };
                    ops.push(Obj::bare().i("h", *h as i64).s("op", op).s("a", a).i("n", count).rows("px", &px).end());
                }
            }
        }
        self.out.push(
            Obj::new("seq").i("m", m).s("what", what).i("any", any).i("end", end as i64).ints("all", all).objs("ops", &ops).end(),
        );
    }
    fn calibration<C>(&mut self, m: i64, c: &C)
    where
        C: for<'a> CalibrationData<'a>,
    {
        for sp in SUBPAGES {
            self.seq(m, "offset", -1, || c.offset_reference_pixels(sp), |x| i64::from(*x));
            self.seq(m, "alpha", -1, || c.alpha_pixels(sp), |x| fb(*x));
            self.seq(m, "k_v", -1, || c.k_v_pixels(sp), |x| fb(*x));
            self.seq(m, "k_ta", -1, || c.k_ta_pixels(sp), |x| fb(*x));
        }
        for pat in PATTERNS {
            self.seq(m, "compensation", -1, || c.access_pattern_compensation_pixels(pat), |x| x.map(|x| fb(*x)).unwrap_or(-1));
        }
        self.seq(m, "failed", c.failed_pixels().any() as i64, || c.failed_pixels().iter_flagged(), |x| x as i64);
        self.seq(m, "outlier", c.outlier_pixels().any() as i64, || c.outlier_pixels().iter_flagged(), |x| x as i64);
    }
    fn camera<Cam: MelexisCamera>(&mut self, m: i64)
    where
        Cam::PixelRangeIterator: IntoIterator<Item = PixelAddressRange>,
    {
        for sp in SUBPAGES {
            for pat in PATTERNS {
                self.seq(m, "member", -1, || Cam::pixels_in_subpage(sp, pat).into_iter(), |x| x as i64);
                self.seq(
                    m,
                    "ranges",
                    -1,
                    || Cam::pixel_ranges(sp, pat).into_iter(),
                    |x| {
                        let v = crate::low::parse_range(&format!("{:?}", x)).unwrap_or(vec![0, 0, 0]);
                        v[0] * 4096 + v[2]
                    },
                );
            }
        }
    }
}

fn parse(path: &str) -> Vec<Script> {
    let text = std::fs::read_to_string(path).unwrap_or_default();
    text.lines()
        .map(|l| {
            l.split(';')
                .filter(|s| !s.trim().is_empty())
                .map(|s| {
                    let t: Vec<&str> = s.split_whitespace().collect();
                    (t[0].parse().unwrap(), t[1].to_string(), t[2].to_string())
                })
                .collect()
        })
        .collect()
}

/// `scripts`: every sequence does all of them; `random`: every sequence does some of them.
pub fn seq(seed: u64, thorough: bool, scripts: &str, random: &str) -> Vec<String> {
    let (scripts, random) = (parse(scripts), parse(random));
    let mut r = Rng::new(seed, 28);
    let mut e640 = vec![e640_ds()];
    let mut e641 = vec![e641_ds()];
    for i in 0..(if thorough { 5 } else { 2 }) {
        e640.push(random_640(&mut r, false));
        let mut d = random_641_data(&mut r, false);
        if i % 2 == 0 {
            d[16] &= 0x07FF;
        }
        e641.push(encode_all(&d));
    }
    let mut s = Suite { r, scripts: &scripts, random: &random, picked: if thorough { 200 } else { 60 }, out: vec![] };
    s.camera::<Mlx90640>(640);
    s.camera::<Mlx90641>(641);
    for (i, w) in e640.iter().enumerate() {
        if i == (if thorough { 2 } else { 1 }) {
            s.scripts = &[];
        }
        if let Ok(c) = Mlx90640Calibration::from_data(&bytes_of(w)) {
            s.calibration(640, &c);
        }
    }
    s.scripts = &scripts;
    for (i, w) in e641.iter().enumerate() {
        if i == (if thorough { 2 } else { 1 }) {
            s.scripts = &[];
        }
        if let Ok(c) = Mlx90641Calibration::from_data(&bytes_of(w)) {
            s.calibration(641, &c);
        }
    }
    s.out
}
