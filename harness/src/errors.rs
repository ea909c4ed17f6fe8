//! C25: error values, what they carry and what they say.
use crate::bus::*;
use crate::util::*;
use mlx9064x::{Error, LibraryError};

fn chars(s: &str) -> Vec<i64> {
    s.chars().map(|c| c as i64).collect()
}
fn libs(w: u16) -> Vec<LibraryError> {
    vec![
        LibraryError::Checksum(w),
        LibraryError::Checksum(w ^ 1),
        LibraryError::Checksum(w.swap_bytes()),
        LibraryError::InvalidData("some text"),
        LibraryError::InvalidData("another text"),
        LibraryError::Other("some text"),
        LibraryError::Other("another text"),
    ]
}
/// 0 read, 1 write, 2 library; what it carries: the code of the bus error or the checksum word
fn kind(e: &Error<MemBus>) -> (i64, i64) {
    match e {
        Error::I2cWriteReadError(RdErr(c)) => (0, i64::from(*c)),
        Error::I2cWriteError(WrErr(c)) => (1, i64::from(*c)),
        Error::LibraryError(LibraryError::Checksum(w)) => (2, i64::from(*w)),
        Error::LibraryError(_) => (2, -1),
    }
}
#[cfg(feature = "std")]
fn source(e: &Error<MemBus>) -> (i64, i64) {
    use std::error::Error as _;
    match e.source() {
        None => (-1, 0),
        Some(s) => {
            if let Some(RdErr(c)) = s.downcast_ref::<RdErr>() {
                (0, i64::from(*c))
            } else if let Some(WrErr(c)) = s.downcast_ref::<WrErr>() {
                (1, i64::from(*c))
            } else if let Some(l) = s.downcast_ref::<LibraryError>() {
                (2, if let LibraryError::Checksum(w) = l { i64::from(*w) } else { -1 })
            } else {
                (-2, 0)
            }
        }
    }
}
#[cfg(not(feature = "std"))]
fn source(e: &Error<MemBus>) -> (i64, i64) {
    kind(e)
}

pub fn errors(seed: u64) -> Vec<String> {
    let mut r = Rng::new(seed, 80);
    let mut out = vec![];
    for hi in 0..=255u16 {
        let mut rows = vec![];
        let mut texts: Vec<Vec<i64>> = vec![];
        for lo in 0..=255u16 {
            let w = hi << 8 | lo;
            let l = LibraryError::Checksum(w);
            let e: Error<MemBus> = l.clone().into();
            let (k, c) = kind(&e);
            let (sk, sc) = source(&e);
            rows.push(vec![w.into(), (l == l.clone()) as i64, k, c, sk, sc]);
            texts.push(chars(&format!("{}", l)));
        }
        out.push(Obj::new("checksum").rows("rows", &rows).rows("text", &texts).end());
    }
    for i in 0..64 {
        let w = if i == 0 { 0 } else { r.u16() };
        let v = libs(w);
        let eq: Vec<Vec<i64>> = v.iter().map(|a| v.iter().map(|b| (a == b) as i64).collect()).collect();
        let same: Vec<Vec<i64>> = libs(w).iter().map(|a| v.iter().map(|b| (a.clone() == *b) as i64).collect()).collect();
        let text: Vec<Vec<i64>> = v.iter().map(|a| chars(&format!("{}", a))).collect();
        out.push(Obj::new("lib").i("w", w.into()).rows("eq", &eq).rows("same", &same).rows("text", &text).end());
    }
    for i in 0..512u32 {
        let code = if i < 300 { i } else { r.next() as u32 >> 1 };
        let es: [Error<MemBus>; 2] = [Error::I2cWriteReadError(RdErr(code)), Error::I2cWriteError(WrErr(code))];
        let rows: Vec<Vec<i64>> = es
            .iter()
            .map(|e| {
                let (k, c) = kind(e);
                let (sk, sc) = source(e);
                vec![k, c, sk, sc]
            })
            .collect();
        out.push(
            Obj::new("bus")
                .i("code", code.into())
                .rows("rows", &rows)
                .rows("text", &es.iter().map(|e| chars(&format!("{}", e))).collect::<Vec<_>>())
                .rows("debug", &es.iter().map(|e| chars(&format!("{:?}", e))).collect::<Vec<_>>())
                .rows("cause", &[chars(&format!("{:?}", RdErr(code))), chars(&format!("{:?}", WrErr(code)))])
                .end(),
        );
    }
    for l in libs(0xABCD) {
        let e: Error<MemBus> = l.clone().into();
        let same = if let Error::LibraryError(x) = &e { *x == l } else { false };
        out.push(
            Obj::new("conv")
                .i("same", same as i64)
                .ints("text", chars(&format!("{}", e)))
                .ints("debug", chars(&format!("{:?}", e)))
                .ints("cause", chars(&format!("{:?}", l)))
                .end(),
        );
    }
    out
}
