//! Scenarios: histories of driver calls on a simulated camera that acts between the transfers of a
//! call (frames, other bus masters, bus failures) as a script says.  Everything that happens is
//! recorded in order; spec/CamTrace.tla decides whether the history is allowed.
//!
//! The simulated camera is the one of spec/Device.tla; the specification follows it step by step
//! and reports a disagreement as a fault of this harness, not of the driver.
use crate::bus::{RdErr, WrErr};
use crate::calc::{frame, sentinel, testcal, Style, TestCal};
use crate::calib::*;
use crate::codec::*;
use crate::util::*;
use embedded_hal::blocking::i2c;
use mlx9064x::mlx90640::{Mlx90640, Mlx90640Calibration};
use mlx9064x::mlx90641::{Mlx90641, Mlx90641Calibration};
use mlx9064x::*;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::{Arc, Condvar, Mutex};

const STATUS: u16 = 0x8000;
const CONTROL: u16 = 0x800D;
const I2CREG: u16 = 0x800F;
/// Transfers of one call before it counts as hanging; after a few that did there is no need to wait that long.
fn cap() -> usize {
    if HANGS.load(std::sync::atomic::Ordering::Relaxed) > 3 {
        150
    } else {
        2500
    }
}
static HANGS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
const JUNK: u16 = 30000;

// ---- frames ----
#[derive(Clone, Debug)]
pub struct Frame {
    seed: i64,
    base: i64,
    range: i64,
    aux: [i64; 6], // vbe, ptat, vdd, gain, cp0, cp1
}
impl Frame {
    fn row(&self) -> Vec<i64> {
        let mut v = vec![self.seed, self.base, self.range];
        v.extend_from_slice(&self.aux);
        v
    }
}

// ---- the camera ----
#[derive(Clone, Copy, Debug)]
pub enum Act {
    Tick,
    Fault,       // the transfer fails
    FaultApplied, // a write reaches the camera but is reported as failed
    FaultRead,   // the transfer fails if it is a read
    Polite,      // a frame is complete, but only if the one before has been acknowledged
    Ext(u16, u16),
}
pub struct Cam {
    m: i64,
    addr: u8,
    status: u16,
    control: u16,
    i2c: u16,
    ram: [usize; 8],
    frames: Vec<Frame>,
    next_frame: usize,
    eeprom: Vec<u16>,
    ev: Vec<String>,
    acts: Vec<(usize, Act)>,
    k: usize,
    polls: usize,
    code: u32,
    sync: bool,
    hang: bool,
    /// how many transfers a synchronize has to wait at least before frames come by themselves
    patience: usize,
    /// the reads of a synchronize since anything else has happened: number of events then, what was read
    quiet: (usize, Vec<(i64, usize, i64)>),
    /// number of events when the call began
    start: usize,
    /// the latest event, if it is a read of RAM or EEPROM: number of events, address, bytes, first word
    block: (usize, i64, usize, i64),
}
impl Cam {
    fn vbe(&self) -> usize {
        if self.m == 640 {
            0x700
        } else {
            0x580
        }
    }
    fn ram_end(&self) -> usize {
        if self.m == 640 {
            0x73F
        } else {
            0x5BF
        }
    }
    fn class_of(&self, a: usize) -> usize {
        let i = a as i64 - 0x400;
        let b = self.vbe();
        if i >= 0 && i < if self.m == 640 { 768 } else { 384 } {
            if self.m == 640 {
                (1 + (i / 32) % 2 + 2 * ((i % 32) % 2)) as usize
            } else {
                (1 + (i / 32) % 2) as usize
            }
        } else if a == b + 8 {
            5
        } else if a == b + 40 {
            6
        } else if a == b || a == b + 10 || a == b + 32 || a == b + 42 {
            7
        } else {
            8
        }
    }
    fn word(&self, a: usize) -> u16 {
        if (0x400..=self.ram_end()).contains(&a) {
            let c = self.class_of(a);
            let f = &self.frames[self.ram[c - 1]];
            let b = self.vbe();
            let v = match c {
                1..=4 => f.base + ((f.seed * 7919 + a as i64 * 104729) % 65536) % f.range,
                5 => f.aux[4],
                6 => f.aux[5],
                7 => f.aux[if a == b { 0 } else if a == b + 32 { 1 } else if a == b + 42 { 2 } else { 3 }],
                _ => i64::from(JUNK),
            };
            return v as i16 as u16;
        }
        if (0x2400..0x2400 + 832).contains(&a) {
            return self.eeprom.get(a - 0x2400).copied().unwrap_or(0);
        }
        match a as u16 {
            STATUS => self.status,
            CONTROL => self.control,
            I2CREG => self.i2c,
            _ => JUNK,
        }
    }
    fn tick(&mut self) {
        let f = self.next_frame;
        self.next_frame = 1 + self.next_frame % (self.frames.len() - 1);
        self.ev.push(Obj::ev("tick").i("f", f as i64).end());
        let (s, c) = (self.status, self.control);
        let measure = c & 2 == 0 || s & 0x20 != 0;
        let store = c & 4 == 0 || s & 0x10 != 0;
        if !(measure && store) {
            return;
        }
        let sp: u16 = if c & 1 == 0 {
            0
        } else if c & 8 != 0 {
            (c >> 4) & 1
        } else {
            1 - (s & 1)
        };
        let chess = c & 0x1000 != 0;
        if self.m == 641 {
            self.ram[sp as usize] = f;
        } else {
            for r in 0..2u16 {
                for q in 0..2u16 {
                    if (chess && (r + q) % 2 == sp) || (!chess && r == sp) {
                        self.ram[(r + 2 * q) as usize] = f;
                    }
                }
            }
        }
        self.ram[4 + sp as usize] = f;
        self.ram[6] = f;
        self.status = (s & !0x29) | 8 | sp;
    }
    fn polite(&mut self) {
        if self.status & 8 == 0 {
            self.tick();
        }
    }
    fn ext(&mut self, reg: u16, v: u16) {
        self.ev.push(Obj::ev("ext").i("reg", reg.into()).i("v", v.into()).end());
        if reg == STATUS {
            self.status = v;
        } else {
            self.control = v;
        }
    }
    /// The environment's moves before transfer k of the call; tells whether the transfer fails.
    fn env(&mut self, write: bool) -> Option<Act> {
        let k = self.k;
        self.k += 1;
        let mut fault = None;
        let (now, rest): (Vec<_>, Vec<_>) = self.acts.drain(..).partition(|x| x.0 == k);
        self.acts = rest;
        for (_, a) in now {
            match a {
                Act::Tick => self.tick(),
                Act::Polite => self.polite(),
                Act::Ext(r, v) => self.ext(r, v),
                Act::FaultRead => fault = if write { fault } else { Some(a) },
                x => fault = Some(x),
            }
        }
        if self.sync {
            // let a synchronize end
            self.polls += 1;
            if self.ev.len() > self.start + 300 {
                // too much to record: the camera does not let it wait any longer
                self.patience = self.patience.min(self.polls);
            }
            if self.polls > self.patience && self.polls % 10 == 0 {
                self.tick();
            }
            if self.polls == self.patience + 80 {
                let v = self.status | 8;
                self.ext(STATUS, v);
            }
        }
        if self.k > self.patience + cap() {
            HANGS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            self.hang = true;
            panic!("HANG");
        }
        fault
    }
    fn leftover(&mut self) {
        for (_, a) in std::mem::take(&mut self.acts) {
            match a {
                Act::Tick => self.tick(),
                Act::Polite => self.polite(),
                Act::Ext(r, v) => self.ext(r, v),
                _ => (),
            }
        }
    }
}
impl Obj {
    pub fn ev(e: &str) -> Self {
        Obj(format!("{{\"e\":\"{}\"", e))
    }
}

#[derive(Clone)]
pub struct Bus(Rc<RefCell<Cam>>);
impl i2c::WriteRead for Bus {
    type Error = RdErr;
    fn write_read(&mut self, dev: u8, bytes: &[u8], buffer: &mut [u8]) -> Result<(), RdErr> {
        turn_point();
        let mut c = self.0.borrow_mut();
        let fault = c.env(false);
        let a: i64 = if bytes.len() == 2 { i64::from(u16::from_be_bytes([bytes[0], bytes[1]])) } else { -1 };
        let ok = fault.is_none() && dev == c.addr && a >= 0;
        c.code += 1;
        let code = c.code;
        let mut v: i64 = -1;
        let mut w: Vec<i64> = vec![];
        if ok {
            for (i, b) in buffer.iter_mut().enumerate() {
                *b = c.word((a as usize + i / 2) & 0xFFFF).to_be_bytes()[i % 2];
            }
            if buffer.len() == 2 {
                v = i64::from(u16::from_be_bytes([buffer[0], buffer[1]]));
            }
            if a >= 0x400 && a as usize <= c.ram_end() && buffer.len() >= 2 {
                let l = buffer.len() / 2 * 2;
                w = vec![
                    i64::from(i16::from_be_bytes([buffer[0], buffer[1]])),
                    i64::from(i16::from_be_bytes([buffer[l - 2], buffer[l - 1]])),
                ];
            }
        } else {
            // a failed transfer may leave anything in the buffer
            for (i, b) in buffer.iter_mut().enumerate() {
                *b = (0xA5 ^ i) as u8;
            }
        }
        // a read that goes on where the one before has ended, while nothing else happens, is recorded as a part of it
        let (mut a, mut nb) = (a, buffer.len());
        let end = a + nb as i64 / 2;
        let inside = |lo: i64, hi: i64| a >= lo && end <= hi;
        let plain = !c.sync && ok && nb > 0 && nb % 2 == 0 && (inside(0x400, c.ram_end() as i64 + 1) || inside(0x2400, 0x2400 + 832));
        if plain {
            let first = if w.is_empty() { 0 } else { w[0] };
            let (at, from, len, word) = c.block;
            if at == c.ev.len() && at > c.start && from + len as i64 / 2 == a && (from < 0x2400) == (a < 0x2400) {
                c.ev.pop();
                a = from;
                nb += len;
                v = -1;
                if !w.is_empty() {
                    w[0] = word;
                }
                c.block = (at, a, nb, word);
            } else {
                c.block = (c.ev.len() + 1, a, nb, first);
            }
        }
        let e = Obj::ev("rd")
            .i("dev", dev.into())
            .i("al", bytes.len() as i64)
            .i("a", a)
            .i("nb", nb as i64)
            .i("ok", ok as i64)
            .i("v", v)
            .i("code", code.into())
            .ints("w", w)
            .end();
        // reads that show the same as one before, while nothing else happens, are recorded once
        if c.quiet.0 != c.ev.len() {
            c.quiet = (c.ev.len(), vec![]);
        }
        let new_data = a <= i64::from(STATUS) && a + (buffer.len() as i64) / 2 > i64::from(STATUS) && c.status & 8 != 0;
        let idle = c.sync && ok && !new_data;
        let sig = (a, buffer.len(), v);
        let again = idle && c.quiet.1.contains(&sig);
        if !again {
            c.ev.push(e);
        }
        if idle {
            c.quiet.0 = c.ev.len();
            if !again {
                c.quiet.1.push(sig);
            }
        }
        if ok {
            Ok(())
        } else {
            Err(RdErr(code))
        }
    }
}
impl i2c::Write for Bus {
    type Error = WrErr;
    fn write(&mut self, dev: u8, bytes: &[u8]) -> Result<(), WrErr> {
        turn_point();
        let mut c = self.0.borrow_mut();
        let fault = c.env(true);
        let full = bytes.len() == 4;
        let a: i64 = if full { i64::from(u16::from_be_bytes([bytes[0], bytes[1]])) } else { -1 };
        let v: i64 = if full { i64::from(u16::from_be_bytes([bytes[2], bytes[3]])) } else { -1 };
        let ok = fault.is_none() && dev == c.addr && a >= 0;
        let ap = ok || (matches!(fault, Some(Act::FaultApplied)) && dev == c.addr && a >= 0);
        c.code += 1;
        let code = c.code;
        if ap {
            match a as u16 {
                STATUS => c.status = (c.status & !0x38) | (v as u16 & 0x38),
                CONTROL => c.control = v as u16,
                I2CREG => c.i2c = v as u16,
                _ => (),
            }
        }
        let e = Obj::ev("wr")
            .i("dev", dev.into())
            .i("nb", bytes.len() as i64)
            .i("a", a)
            .i("v", v)
            .i("ok", ok as i64)
            .i("ap", ap as i64)
            .i("code", code.into())
            .end();
        c.ev.push(e);
        if ok {
            Ok(())
        } else {
            Err(WrErr(code))
        }
    }
}

// ---- taking turns with another thread ----
/// Two threads that run one at a time; who is next is drawn before every transfer.
struct Turn {
    state: Mutex<(usize, [bool; 2], Rng)>,
    changed: Condvar,
}
thread_local! { static TURN: RefCell<Option<(Arc<Turn>, usize)>> = RefCell::new(None); }
fn turn_point() {
    let t = TURN.with(|t| t.borrow().clone());
    if let Some((t, me)) = t {
        let mut s = t.state.lock().unwrap();
        if !s.1[1 - me] && s.2.chance(1, 2) {
            s.0 = 1 - me;
            t.changed.notify_all();
        }
        while s.0 != me {
            s = t.changed.wait(s).unwrap();
        }
    }
}
fn taking_turns<T>(t: &Arc<Turn>, me: usize, f: impl FnOnce() -> T) -> T {
    TURN.with(|x| *x.borrow_mut() = Some((t.clone(), me)));
    {
        let mut s = t.state.lock().unwrap();
        while s.0 != me {
            s = t.changed.wait(s).unwrap();
        }
    }
    let v = f();
    let mut s = t.state.lock().unwrap();
    s.1[me] = true;
    s.0 = 1 - me;
    t.changed.notify_all();
    TURN.with(|x| *x.borrow_mut() = None);
    v
}

// ---- the driver ----
struct Ret {
    r: &'static str,
    v: i64,
    code: i64,
}
fn good(v: i64) -> Ret {
    Ret { r: "ok", v, code: 0 }
}
fn bad(e: Error<Bus>) -> Ret {
    match e {
        Error::I2cWriteReadError(RdErr(c)) => Ret { r: "rd", v: 0, code: c.into() },
        Error::I2cWriteError(WrErr(c)) => Ret { r: "wr", v: 0, code: c.into() },
        Error::LibraryError(_) => Ret { r: "lib", v: 0, code: 0 },
    }
}
fn res(x: Result<i64, Error<Bus>>) -> Ret {
    match x {
        Ok(v) => good(v),
        Err(e) => bad(e),
    }
}
fn unbits(x: i64) -> f32 {
    f32::from_bits(x as i32 as u32)
}

trait Driver {
    fn call(&mut self, c: &Call, buf: &mut [f32]) -> Ret;
    /// emissivity, reflected and ambient temperature, height, width
    fn session(&self) -> (i64, Vec<i64>, Vec<i64>, i64, i64);
    fn dup(&self) -> Box<dyn Driver>;
}
impl<Clb, const H: usize, const N: usize> Driver for CameraDriver<Clb, Bus, H, N>
where
    Clb: for<'a> CalibrationData<'a> + Clone + 'static,
{
    fn dup(&self) -> Box<dyn Driver> {
        Box::new(self.clone())
    }
    fn call(&mut self, c: &Call, buf: &mut [f32]) -> Ret {
        let b = |x: bool| x as i64;
        let a = c.arg;
        let ai = a as usize;
        match c.op.as_str() {
            "last_sp" => res(self.last_measured_subpage().map(sp_i)),
            "avail" => res(self.data_available().map(|o| o.map(sp_i).unwrap_or(-1))),
            "overwrite" => res(self.overwrite_enabled().map(b)),
            "use_sp" => res(self.subpages_enabled().map(b)),
            "hold" => res(self.data_hold_enabled().map(b)),
            "repeat" => res(self.subpage_repeat().map(b)),
            "sel_sp" => res(self.selected_subpage().map(sp_i)),
            "rate" => res(self.frame_rate().map(rate_i)),
            "res" => res(self.resolution().map(res_i)),
            "pat" => res(self.access_pattern().map(pat_i)),
            "set_overwrite" => res(self.set_overwrite_enabled(a != 0).map(|_| 0)),
            "set_use_sp" => res(self.set_use_subpages(a != 0).map(|_| 0)),
            "set_hold" => res(self.set_data_hold(a != 0).map(|_| 0)),
            "set_repeat" => res(self.set_subpage_repeat(a != 0).map(|_| 0)),
            "set_sel_sp" => res(self.set_subpage(SUBPAGES[ai]).map(|_| 0)),
            "set_rate" => res(self.set_frame_rate(RATES[ai]).map(|_| 0)),
            "set_res" => res(self.set_resolution(RESOLUTIONS[ai]).map(|_| 0)),
            "set_pat" => res(self.set_access_pattern(PATTERNS[ai]).map(|_| 0)),
            "reset_avail" => res(self.reset_data_available().map(|_| 0)),
            "sync" => res(self.synchronize().map(|_| 0)),
            "raw_sp" => res(self.generate_raw_image_subpage_to(SUBPAGES[ai], buf).map(|_| 0)),
            "img_sp" => res(self.generate_image_subpage_to(SUBPAGES[ai], buf).map(|_| 0)),
            "img" => res(self.generate_image_to(buf).map(|_| 0)),
            "img_ready" => res(self.generate_image_if_ready(buf).map(b)),
            "em" => {
                self.override_emissivity(unbits(a));
                good(0)
            }
            "em_default" => {
                self.use_default_emissivity();
                good(0)
            }
            "refl" => {
                self.set_reflected_temperature(if c.none { None } else { Some(unbits(a)) });
                good(0)
            }
            x => panic!("unknown op {}", x),
        }
    }
    fn session(&self) -> (i64, Vec<i64>, Vec<i64>, i64, i64) {
        (
            fb(self.effective_emissivity()),
            opt(self.reflected_temperature()),
            opt(self.ambient_temperature()),
            self.height() as i64,
            self.width() as i64,
        )
    }
}

#[derive(Clone)]
pub enum CalSrc {
    T640(TestCal<Mlx90640>),
    T641(TestCal<Mlx90641>),
    R640(Vec<u16>),
    R641(Vec<u16>),
}
impl CalSrc {
    fn model(&self) -> i64 {
        match self {
            CalSrc::T640(_) | CalSrc::R640(_) => 640,
            _ => 641,
        }
    }
    fn real(&self) -> bool {
        matches!(self, CalSrc::R640(_) | CalSrc::R641(_))
    }
    fn eeprom(&self) -> Vec<u16> {
        match self {
            CalSrc::R640(w) | CalSrc::R641(w) => w.clone(),
            _ => vec![],
        }
    }
    fn construct(&self, op: &str, bus: Bus, addr: u8) -> Result<Box<dyn Driver>, Error<Bus>> {
        Ok(match self {
            CalSrc::T640(c) => {
                Box::new(CameraDriver::<_, Bus, 24, 1536>::new_with_calibration(bus, addr, c.clone())?)
            }
            CalSrc::T641(c) => Box::new(CameraDriver::<_, Bus, 12, 384>::new_with_calibration(bus, addr, c.clone())?),
            CalSrc::R640(w) if op == "newc" => {
                let c = Mlx90640Calibration::from_data(&bytes_of(w)).map_err(Error::LibraryError)?;
                Box::new(Mlx90640Driver::new_with_calibration(bus, addr, c)?)
            }
            CalSrc::R641(w) if op == "newc" => {
                let c = Mlx90641Calibration::from_data(&bytes_of(w)).map_err(Error::LibraryError)?;
                Box::new(Mlx90641Driver::new_with_calibration(bus, addr, c)?)
            }
            CalSrc::R640(_) => Box::new(Mlx90640Driver::new(bus, addr)?),
            CalSrc::R641(_) => Box::new(Mlx90641Driver::new(bus, addr)?),
        })
    }
    fn frame(&self, r: &mut Rng, st: Style) -> Option<Frame> {
        let f = match self {
            CalSrc::T640(c) => frame(r, st, c),
            CalSrc::T641(c) => frame(r, st, c),
            CalSrc::R640(w) => frame(r, st, &Mlx90640Calibration::from_data(&bytes_of(w)).ok()?),
            CalSrc::R641(w) => frame(r, st, &Mlx90641Calibration::from_data(&bytes_of(w)).ok()?),
        };
        let f2 = match self {
            CalSrc::T640(c) => frame(r, st, c),
            CalSrc::T641(c) => frame(r, st, c),
            _ => {
                let mut g = f;
                g.compensation_pixel = r.range(-150, 150) as i16;
                g
            }
        };
        let (base, range) = if st == Style::Wild {
            (-32768, 65536)
        } else {
            (r.range(-100, 500), r.range(300, 1500))
        };
        Some(Frame {
            seed: r.range(0, 4095),
            base,
            range,
            aux: [
                f.t_a_v_be.into(),
                f.t_a_ptat.into(),
                f.v_dd_pixel.into(),
                f.gain.into(),
                f.compensation_pixel.into(),
                f2.compensation_pixel.into(),
            ],
        })
    }
    fn json(&self) -> Option<String> {
        fn j<C: for<'a> CalibrationData<'a>>(c: &C, n: usize) -> String {
            let rows = |f: &dyn Fn(Subpage) -> Vec<i64>| -> Vec<Vec<i64>> { SUBPAGES.iter().map(|s| f(*s)).collect() };
            let comp: Vec<Vec<i64>> = PATTERNS
                .iter()
                .map(|p| {
                    c.access_pattern_compensation_pixels(*p).take(n).map(|x| fb(x.copied().unwrap_or(0.0))).collect()
                })
                .collect();
            let scal = snapshot(c).scal;
            format!(
                "{},{}",
                &scal[..scal.len() - 1],
                &Obj::bare()
                    .rows("off", &rows(&|s| c.offset_reference_pixels(s).take(n).map(|x| i64::from(*x)).collect()))
                    .rows("al", &rows(&|s| c.alpha_pixels(s).take(n).map(|x| fb(*x)).collect()))
                    .rows("kv", &rows(&|s| c.k_v_pixels(s).take(n).map(|x| fb(*x)).collect()))
                    .rows("kta", &rows(&|s| c.k_ta_pixels(s).take(n).map(|x| fb(*x)).collect()))
                    .rows("comp", &comp)
                    .end()[7..]
            )
        }
        Some(match self {
            CalSrc::T640(c) => j(c, 768),
            CalSrc::T641(c) => j(c, 192),
            CalSrc::R640(w) => j(&Mlx90640Calibration::from_data(&bytes_of(w)).ok()?, 768),
            CalSrc::R641(w) => j(&Mlx90641Calibration::from_data(&bytes_of(w)).ok()?, 192),
        })
    }
}

// ---- scripts ----
#[derive(Clone, Debug, Default)]
pub struct Call {
    op: String,
    arg: i64,
    none: bool,
    len: i64,
    acts: Vec<(usize, Act)>,
}
#[derive(Clone, Debug)]
pub struct Script {
    m: i64,
    addr: u8,
    cal: usize,
    status: u16,
    control: u16,
    ram: [usize; 8],
    frames: Vec<Frame>,
    calls: Vec<Call>,
    full: bool,
    patience: usize,
    /// polls go into one buffer of this length that lives as long as the session
    poll: Option<usize>,
}
const IMAGE: [&str; 4] = ["raw_sp", "img_sp", "img", "img_ready"];

/// What else there is besides the driver of a history.
#[derive(Clone, Copy, PartialEq)]
enum Company {
    Nobody,
    /// the driver is replaced by a clone of itself now and then, the original lives on and is used
    Clones,
    /// a second driver of the same camera that only reads
    Bystander,
}
/// Let another driver do something that writes nothing to the camera, outside the recording.
fn aside(cam: &Rc<RefCell<Cam>>, r: &mut Rng, n: usize, d: &mut Box<dyn Driver>) {
    let ops = ["res", "pat", "avail", "img", "raw_sp", "img_sp", "em", "refl", "em_default", "last_sp"];
    let keep = {
        let mut b = cam.borrow_mut();
        let keep = (std::mem::take(&mut b.ev), b.k, b.polls, b.sync, b.code, b.quiet.clone(), b.start, b.block);
        b.acts.clear();
        b.k = 0;
        b.sync = false;
        keep
    };
    for _ in 0..1 + r.below(3) {
        let mut c = Call { op: r.pick(&ops).to_string(), arg: r.range(0, 1), ..Default::default() };
        if c.op == "em" {
            c.arg = fb(some_em(r));
        }
        if c.op == "refl" {
            c.arg = fb(some_refl(r));
        }
        if r.chance(1, 6) {
            cam.borrow_mut().acts.push((0, Act::Fault));
        }
        cam.borrow_mut().k = 0;
        let mut buf = vec![0f32; n];
        let _ = guarded(|| d.call(&c, &mut buf).v);
    }
    let mut b = cam.borrow_mut();
    b.acts.clear();
    b.ev = keep.0;
    b.k = keep.1;
    b.polls = keep.2;
    b.sync = keep.3;
    b.code = keep.4;
    b.quiet = keep.5;
    b.start = keep.6;
    b.block = keep.7;
}

fn run(cals: &[CalSrc], s: &Script, seed: u64) -> String {
    let ev = history(cals, s, seed, Company::Nobody);
    Obj::new("scn")
        .i("m", s.m)
        .i("addr", s.addr.into())
        .i("cal", s.cal as i64 + 1)
        .i("status", s.status.into())
        .i("control", s.control.into())
        .ints("ram", s.ram.iter().map(|x| *x as i64))
        .rows("frames", &s.frames.iter().map(|f| f.row()).collect::<Vec<_>>())
        .objs("ev", &ev)
        .end()
}
fn history(cals: &[CalSrc], s: &Script, seed: u64, company: Company) -> Vec<String> {
    let mut side = Rng::new(seed, 78);
    let mut others: Vec<Box<dyn Driver>> = vec![];
    let mut r = Rng::new(seed, 77);
    let cal = &cals[s.cal];
    let n: usize = if s.m == 640 { 768 } else { 192 };
    let cam = Rc::new(RefCell::new(Cam {
        m: s.m,
        addr: s.addr,
        status: s.status,
        control: s.control,
        i2c: 0,
        ram: s.ram,
        frames: s.frames.clone(),
        next_frame: 1,
        eeprom: cal.eeprom(),
        ev: vec![],
        acts: vec![],
        k: 0,
        polls: 0,
        code: 1000,
        sync: false,
        hang: false,
        patience: s.patience,
        quiet: (0, vec![]),
        start: 0,
        block: (0, 0, 0, 0),
    }));
    // what is there before the first image: anything, or something like a picture
    let mut screen: Vec<f32> = match (s.poll, seed % 8) {
        (Some(l), 0) => (0..l).map(|i| 20.0 + i as f32 / 1024.0).collect(),
        (Some(l), 1) => vec![0.0; l],
        (Some(l), 2) => vec![f32::NAN; l],
        (Some(l), 3) => vec![f32::INFINITY; l],
        (Some(l), 4) => vec![f32::MIN; l],
        (Some(l), k) => (0..l).map(|i| sentinel(k, i)).collect(),
        (None, _) => vec![],
    };
    let before = screen.clone();
    let mut failed = 0;
    let mut drv: Option<Box<dyn Driver>> = None;
    let mut queue: std::collections::VecDeque<Call> = s.calls.iter().cloned().collect();
    while let Some(mut c) = queue.pop_front() {
        let construct = c.op == "new" || c.op == "newc";
        if construct && !cal.real() {
            c.op = "newc".into();
        }
        if !construct && drv.is_none() {
            // a driver is needed first
            failed += 1;
            if failed > 5 {
                break;
            }
            queue.push_front(c);
            queue.push_front(Call { op: "newc".into(), ..Default::default() });
            continue;
        }
        match company {
            Company::Nobody => (),
            Company::Clones => {
                if let (Some(d), true) = (&mut drv, side.chance(1, 2)) {
                    let mut new = d.dup();
                    std::mem::swap(d, &mut new);
                    others.push(new);
                }
                for d in others.iter_mut().rev().take(2) {
                    aside(&cam, &mut side, n, d);
                }
            }
            Company::Bystander => {
                if others.is_empty() {
                    let keep = std::mem::take(&mut cam.borrow_mut().ev);
                    let code = cam.borrow().code;
                    let op = if cal.real() { "new" } else { "newc" };
                    if let Ok(Ok(d)) = guarded(|| cal.construct(op, Bus(cam.clone()), s.addr)) {
                        others.push(d);
                    }
                    let mut b = cam.borrow_mut();
                    b.ev = keep;
                    b.code = code;
                }
                for d in others.iter_mut() {
                    aside(&cam, &mut side, n, d);
                }
            }
        }
        let image = IMAGE.contains(&c.op.as_str());
        let polling = s.poll.is_some() && c.op == "img_ready";
        let len = if !image {
            0
        } else if polling {
            screen.len()
        } else if c.len < 0 {
            n
        } else {
            c.len as usize
        };
        {
            let mut b = cam.borrow_mut();
            b.acts = c.acts.clone();
            b.k = 0;
            b.polls = 0;
            b.sync = c.op == "sync";
            let argl = if c.op == "refl" && !c.none { vec![c.arg] } else { vec![] };
            let e = Obj::ev("call").s("op", &c.op).i("arg", c.arg).ints("argl", argl).i("len", len as i64).end();
            b.ev.push(e);
            b.start = b.ev.len();
        }
        let kind = r.below(3);
        let fresh: Vec<f32> = if polling { screen.clone() } else { (0..len).map(|i| sentinel(kind, i)).collect() };
        let mut buf = fresh.clone();
        let bus = Bus(cam.clone());
        let out = guarded(|| {
            if construct {
                drv = None;
                match cal.construct(&c.op, bus, s.addr) {
                    Ok(d) => {
                        drv = Some(d);
                        good(0)
                    }
                    Err(e) => bad(e),
                }
            } else {
                drv.as_mut().unwrap().call(&c, &mut buf)
            }
        });
        let mut b = cam.borrow_mut();
        let ret = out.unwrap_or(Ret { r: if b.hang { "hang" } else { "panic" }, v: 0, code: 0 });
        let written: Vec<usize> = (0..len).filter(|i| buf[*i].to_bits() != fresh[*i].to_bits()).collect();
        let mut mask = vec![0i64; (len + 23) / 24];
        for i in &written {
            mask[i / 24] |= 1 << (i % 24);
        }
        let mut pick: Vec<usize> = vec![];
        if polling {
            pick = (0..8).map(|_| r.below(n.min(len) as u64) as usize).collect();
            screen = buf.clone();
        } else if s.full {
            pick = written.clone();
        } else if !written.is_empty() {
            pick.push(written[0]);
            pick.push(written[written.len() - 1]);
            for _ in 0..5 {
                pick.push(*r.pick(&written));
            }
            pick.sort();
            pick.dedup();
        }
        let px: Vec<Vec<i64>> = pick.iter().map(|i| vec![*i as i64, fb(buf[*i])]).collect();
        let mut o = Obj::ev("ret").s("r", ret.r).i("v", ret.v).i("code", ret.code).ints("mask", mask).rows("px", &px);
        let fatal = ret.r == "panic" || ret.r == "hang";
        match &drv {
            Some(d) => {
                let (em, refl, amb, h, w) = d.session();
                o = o.i("alive", 1).i("em", em).ints("refl", refl).ints("amb", amb).ints("hw", vec![h, w]);
            }
            None => o = o.i("alive", 0).i("em", 0).ints("refl", vec![]).ints("amb", vec![]).ints("hw", vec![]),
        }
        b.ev.push(o.end());
        b.hang = false;
        b.leftover();
        if fatal {
            break;
        }
    }
    let mut ev = std::mem::take(&mut cam.borrow_mut().ev);
    if s.poll.is_some() {
        let px: Vec<Vec<i64>> = (0..n)
            .filter(|_| s.full || r.chance(1, 6))
            .map(|i| vec![i as i64, fb(screen[i]), fb(before[i])])
            .collect();
        ev.push(Obj::ev("look").rows("px", &px).end());
    }
    ev
}

// ---- calibrations ----
pub fn cal_table(seed: u64) -> Vec<CalSrc> {
    let mut r = Rng::new(seed, 70);
    let mut v = vec![];
    for _ in 0..2 {
        v.push(CalSrc::T640(testcal(&mut r, Style::Real, 768, 4)));
        v.push(CalSrc::T641(testcal(&mut r, Style::Real, 192, 8)));
    }
    // with every optional part present and a calibrated resolution of 18 bits
    let mut c: TestCal<Mlx90640> = testcal(&mut r, Style::Real, 768, 4);
    c.tgc = Some(1.5);
    c.em = Some(0.75);
    c.comp[0] = (0..768).map(|i| Some(if (i / 32) % 2 == 0 { 6.5 } else { -5.5 } + i as f32 / 1024.0)).collect();
    c.comp[1] = vec![None; 768];
    v.push(CalSrc::T640(c));
    let mut c: TestCal<Mlx90641> = testcal(&mut r, Style::Real, 192, 8);
    c.tgc = Some(-2.0);
    c.em = Some(0.875);
    v.push(CalSrc::T641(c));
    v.push(CalSrc::R640(e640_dump()));
    v.push(CalSrc::R641(e641_ds()));
    v.push(CalSrc::R640(e640_ds()));
    // wild ones
    v.push(CalSrc::T640(testcal(&mut r, Style::Wild, 768, 4)));
    v.push(CalSrc::T641(testcal(&mut r, Style::Wild, 192, 8)));
    for _ in 0..3 {
        let c = CalSrc::R640(random_640(&mut r, false));
        if c.json().is_some() {
            v.push(c);
        }
        let c = CalSrc::R641(encode_all(&random_641_data(&mut r, false)));
        if c.json().is_some() {
            v.push(c);
        }
    }
    v
}
/// The first `TAME` calibrations have plausible values.
const TAME: usize = 9;

fn some_frames(r: &mut Rng, cal: &CalSrc, st: Style) -> Vec<Frame> {
    let mut v: Vec<Frame> = (0..7)
        .map(|_| {
            let wild = st == Style::Wild && r.chance(1, 2);
            cal.frame(r, if wild { Style::Wild } else { Style::Real }).unwrap()
        })
        .collect();
    // a camera that has not measured anything yet, or lacks a value
    let last = &mut v[6];
    match r.below(6) {
        0 | 1 => {
            last.base = 0;
            last.range = 1;
            last.aux = [0; 6];
        }
        2 => {
            last.aux[0] = 0;
            last.aux[1] = 0;
        }
        3 => last.aux[r.below(6) as usize] = 0,
        _ => (),
    }
    v
}
fn pick_cal(r: &mut Rng, cals: &[CalSrc], m: i64, wild: bool) -> usize {
    loop {
        let i = if wild { r.below(cals.len() as u64) as usize } else { r.below(TAME as u64) as usize };
        if cals[i].model() == m {
            return i;
        }
    }
}
fn some_addr(r: &mut Rng) -> u8 {
    if r.chance(1, 2) {
        0x33
    } else {
        r.range(1, 127) as u8
    }
}
fn some_em(r: &mut Rng) -> f32 {
    match r.below(8) {
        0 => 1.0,
        1 => 0.95,
        2 => f32::from_bits(0x3F7F_FFFF),
        _ => r.frange(0.4, 1.0),
    }
}

// ---- random histories ----
fn random_call(r: &mut Rng, n: i64, env: u64, wild: bool) -> Call {
    let reads = ["last_sp", "avail", "overwrite", "use_sp", "hold", "repeat", "sel_sp", "rate", "res", "pat"];
    let mut c = Call { len: -1, ..Default::default() };
    let op = match r.below(20) {
        0..=2 => *r.pick(&reads),
        3 => "set_overwrite",
        4 => "set_use_sp",
        5 => *r.pick(&["set_hold", "set_repeat"]),
        6 => "set_sel_sp",
        7 => "set_rate",
        8 => "set_res",
        9 => "set_pat",
        10 => "reset_avail",
        11 => "sync",
        12 => "raw_sp",
        13 => "img_sp",
        14 => "img",
        15..=16 => "img_ready",
        17 => *r.pick(&["em", "em", "em_default"]),
        18 => "refl",
        _ => *r.pick(&["new", "newc", "img", "raw_sp"]),
    };
    c.op = op.into();
    c.arg = match op {
        "set_rate" => r.range(0, 7),
        "set_res" => r.range(0, 3),
        "em" => fb(if wild && r.chance(1, 2) {
            *r.pick(&[0.0, -1.0, f32::NAN, f32::INFINITY, 1e-30, 1e30, 2.0, f32::MIN_POSITIVE])
        } else {
            some_em(r)
        }),
        "refl" => {
            c.none = r.chance(1, 4);
            fb(if wild && r.chance(1, 2) {
                *r.pick(&[-273.15, -300.0, f32::NAN, f32::INFINITY, 1e30, 0.0])
            } else {
                some_refl(r)
            })
        }
        _ => r.range(0, 1),
    };
    if IMAGE.contains(&op) {
        c.len = match r.below(8) {
            0 => r.range(0, n),
            1 => n + r.range(0, 70),
            2 if r.chance(1, 3) => *r.pick(&[2 * n, 2 * n + 1, 1000, 1024, 2048, 3000]),
            2 if wild || r.chance(1, 2) => *r.pick(&[0, 0, 1, n - 1, n + 1, 31, 33]),
            _ => n,
        };
    }
    let span = match op {
        "img" | "img_ready" | "img_sp" | "raw_sp" => 18,
        "sync" => 12,
        _ => 3,
    };
    while r.chance(env, 10) && c.acts.len() < 4 {
        let a = match r.below(10) {
            0..=4 => Act::Tick,
            5 => Act::Fault,
            6 => Act::FaultApplied,
            7 => Act::Ext(STATUS, r.u16()),
            8 => Act::Ext(CONTROL, r.u16()),
            _ => {
                // a change of the pattern or resolution only
                Act::Ext(CONTROL, 0x0901 ^ (*r.pick(&[0x1000u16, 0x0400, 0x0800, 0x1400, 0x0002, 0x0004])))
            }
        };
        c.acts.push((r.below(span) as usize, a));
    }
    c.acts.sort_by_key(|x| x.0);
    c
}
fn init_words(r: &mut Rng) -> (u16, u16) {
    let status = match r.below(4) {
        0 => r.u16(),
        _ => (r.u16() & 0x0039) | (r.below(3) as u16 * 8 & 8),
    };
    let control = match r.below(4) {
        0 => r.u16(),
        _ => 0x0901 ^ (*r.pick(&[0u16, 0x1000, 0x1000, 0x0400, 0x0800, 0x1C00])),
    };
    (status, control)
}
fn random_scripts(r: &mut Rng, cals: &[CalSrc], count: usize, calls: usize, wild: bool, full: bool) -> Vec<Script> {
    (0..count)
        .map(|i| {
            let m = if i % 2 == 0 { 640 } else { 641 };
            let cal = pick_cal(r, cals, m, wild);
            let (status, control) = init_words(r);
            let n = if m == 640 { 768 } else { 192 };
            let env = *r.pick(&[0u64, 3, 5, 7]);
            let mut cs = vec![Call { op: if r.chance(1, 3) { "new" } else { "newc" }.into(), ..Default::default() }];
            if r.chance(1, 6) {
                cs[0].acts.push((r.below(2) as usize, Act::Fault));
            }
            let k = 2 + r.below(calls as u64) as usize;
            for _ in 0..k {
                cs.push(random_call(r, n, env, wild));
            }
            let mut ram = [0usize; 8];
            for x in ram.iter_mut() {
                *x = r.below(7) as usize;
            }
            Script {
                m,
                addr: some_addr(r),
                cal,
                status,
                control,
                ram,
                frames: some_frames(r, &cals[cal], if wild { Style::Wild } else { Style::Real }),
                calls: cs,
                full,
                patience: 40,
                poll: None,
            }
        })
        .collect()
}

/// Few histories of many calls, and synchronizing with a camera that takes its time.
fn long_scripts(r: &mut Rng, cals: &[CalSrc], thorough: bool) -> Vec<Script> {
    let (count, calls) = if thorough { (24, 600) } else { (6, 150) };
    let mut v = random_scripts(r, cals, count, 2, false, false);
    for s in v.iter_mut() {
        let n = if s.m == 640 { 768 } else { 192 };
        // no failures in some of them
        let env = *r.pick(&[0u64, 1, 4]);
        s.calls.truncate(1);
        s.calls[0].acts.clear();
        let mut k = 0;
        while k < calls {
            let c = random_call(r, n, env, false);
            // stay with one driver most of the time
            if (c.op == "new" || c.op == "newc") && !r.chance(1, 8) {
                continue;
            }
            k += 1;
            // the same call again and again
            let again = if r.chance(1, 30) { 20 } else { 0 };
            for _ in 0..again {
                s.calls.push(Call { acts: vec![], ..c.clone() });
            }
            s.calls.push(c);
        }
    }
    let waits: &[usize] = if thorough { &[50, 100, 300, 999, 5000, 70_000, 200_000] } else { &[150, 300, 1100, 70_000] };
    for (i, wait) in waits.iter().enumerate() {
        let mut w = random_scripts(r, cals, 2, 2, false, false);
        for s in w.iter_mut() {
            s.patience = *wait;
            s.control = 0x0901 | (i as u16 & 1) << 12;
            s.calls.truncate(1);
            s.calls[0].acts.clear();
            for op in ["sync", "img", "sync", "img_ready", "sync"] {
                s.calls.push(Call { op: op.into(), len: -1, ..Default::default() });
            }
        }
        v.extend(w);
    }
    v
}

/// Every image call with every length at which something could change.
fn length_scripts(r: &mut Rng, cals: &[CalSrc]) -> Vec<Script> {
    let mut v = random_scripts(r, cals, 8, 2, false, false);
    for (i, s) in v.iter_mut().enumerate() {
        let n = if s.m == 640 { 768 } else { 192 };
        s.calls.truncate(1);
        s.calls[0].acts.clear();
        s.control = if i % 4 < 2 { 0x0901 } else { 0x1901 };
        let mut lens = vec![0, 1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 95, 127, 128, 129, 191, 192, 193, 255, 256, 257];
        lens.extend([383, 384, 511, 512, 513, 767, 768, 769, 1023, 1024, 1025, 1536, 2 * n, 4096]);
        if i < 4 {
            lens.extend([32767, 32768, 65535, 65536, 65537, 65536 + n, 131_072]);
        }
        for l in lens {
            for op in IMAGE {
                let op: String = op.into();
                s.calls.push(Call { op, len: l, arg: r.range(0, 1), acts: vec![(0, Act::Tick)], ..Default::default() });
            }
        }
    }
    v
}

/// Every call more often than a byte can count.
fn many_scripts(r: &mut Rng, cals: &[CalSrc], thorough: bool) -> Vec<Script> {
    let mut v = random_scripts(r, cals, 2, 2, false, false);
    let ops = ["img_ready", "img", "img_sp", "raw_sp", "sync", "last_sp", "avail", "reset_avail", "pat", "set_pat", "set_rate", "set_overwrite", "em", "refl"];
    for s in v.iter_mut() {
        let n = if s.m == 640 { 768 } else { 192 };
        s.calls.truncate(1);
        s.calls[0].acts.clear();
        let times = if thorough { 700 } else { 257 };
        for op in ops {
            for i in 0..times {
                let mut c = Call { op: op.into(), len: -1, ..Default::default() };
                if IMAGE.contains(&op) {
                    // mostly short buffers, for the sake of brevity
                    c.len = if i % 64 == 63 { n } else { r.range(1, 5) };
                    c.acts.push((0, Act::Tick));
                }
                c.arg = match op {
                    "em" => fb(some_em(r)),
                    "refl" => fb(some_refl(r)),
                    "set_rate" => i % 8,
                    _ => i % 2,
                };
                s.calls.push(c);
            }
        }
    }
    v
}

/// A bus that fails again and again, and works again after that.
fn streak_scripts(r: &mut Rng, cals: &[CalSrc], thorough: bool) -> Vec<Script> {
    let mut v = random_scripts(r, cals, if thorough { 8 } else { 2 }, 2, false, false);
    let ops = ["img_ready", "img", "img_sp", "raw_sp", "sync", "last_sp", "avail", "reset_avail", "pat", "set_pat", "res", "set_res", "rate", "set_rate",
        "set_overwrite", "set_use_sp", "new"];
    for (i, s) in v.iter_mut().enumerate() {
        s.calls.truncate(1);
        s.calls[0].acts.clear();
        for op in ops {
            for at in 0..if IMAGE.contains(&op) { 6 } else { 3 } {
                let times = if op == "img_ready" && at == i % 2 { 260 } else { r.range(3, 9) };
                let kind = r.below(3);
                for k in 0..=times {
                    let mut c = Call { op: op.into(), len: -1, arg: k % 2, ..Default::default() };
                    if IMAGE.contains(&op) {
                        c.len = r.range(1, 9);
                        c.acts.push((0, Act::Tick));
                    }
                    if k < times {
                        c.acts.push((at, if kind == 2 { Act::FaultApplied } else { Act::Fault }));
                    }
                    s.calls.push(c);
                }
                s.calls.push(Call { op: "img".into(), len: 7, acts: vec![(0, Act::Tick)], ..Default::default() });
            }
        }
    }
    v
}

/// Every camera, pattern, subpage and image entry point once, all pixels recorded.
fn full_scripts(r: &mut Rng, cals: &[CalSrc]) -> Vec<Script> {
    let mut v = vec![];
    for m in [640, 641] {
        for pat in [0u16, 0x1000] {
            for sp in [0u16, 1] {
                for op in IMAGE {
                    let cal = pick_cal(r, cals, m, false);
                    v.push(Script {
                        m,
                        addr: some_addr(r),
                        cal,
                        status: 8 | sp,
                        control: 0x0901 | pat,
                        ram: [0, 1, 2, 3, 4, 5, 6, 0],
                        frames: some_frames(r, &cals[cal], Style::Real),
                        calls: vec![
                            Call { op: "new".into(), ..Default::default() },
                            Call { op: op.into(), arg: sp.into(), len: -1, ..Default::default() },
                        ],
                        full: true,
                        patience: 40,
                        poll: None,
                    });
                }
            }
        }
    }
    v
}

/// Sessions of a caller who polls into one buffer and keeps up with the camera.
pub fn poll(seed: u64, thorough: bool, cals_out: &str) -> Vec<String> {
    let cals = cal_table(seed);
    let rows: Vec<String> = cals.iter().map(|c| c.json().unwrap()).collect();
    std::fs::write(cals_out, rows.join("\n") + "\n").unwrap();
    let mut r = Rng::new(seed, 91);
    let call = |op: &str| Call { op: op.into(), len: -1, ..Default::default() };
    let mut all = vec![];
    let mut session = |r: &mut Rng, m: i64, status: u16, control: u16, wild: bool| -> Script {
        let n = if m == 640 { 768 } else { 192 };
        let cal = pick_cal(r, &cals, m, wild);
        let mut frames = some_frames(r, &cals[cal], Style::Real);
        if r.chance(1, 2) {
            // nearly the same scene all the time
            for i in 1..frames.len() - 1 {
                let mut f = frames[0].clone();
                f.base += r.range(-3, 3);
                f.aux[0] += r.range(-2, 2);
                f.aux[3] += r.range(-1, 1);
                f.aux[4] += r.range(-1, 1);
                f.aux = f.aux.map(|x| x.clamp(-32768, 32767));
                frames[i] = f;
            }
        }
        let len = if r.chance(1, 5) { n + *r.pick(&[1usize, 7, 32, 300]) } else { n };
        Script {
            m,
            addr: some_addr(r),
            cal,
            status,
            control,
            ram: [0; 8],
            frames,
            calls: vec![call(if r.chance(1, 4) { "new" } else { "newc" })],
            full: false,
            patience: 40,
            poll: Some(len),
        }
    };
    // a frame, and a failing read, at every place in a poll
    for m in [640, 641] {
        for pat in [0u16, 0x1000] {
            for k in 0..20usize {
                let status = r.range(0, 1) as u16 * 9;
                let mut s = session(&mut r, m, status, 0x0901 | pat, false);
                s.full = k % 5 == 0;
                let mut tick = call("img_ready");
                tick.acts.push((k, Act::Polite));
                let mut fail = tick.clone();
                fail.acts.push((r.below(1 + k as u64) as usize, Act::FaultRead));
                let mut later = call("img_ready");
                later.acts.push((k, Act::FaultRead));
                s.calls.extend([tick.clone(), call("img_ready"), call("img_ready"), fail, call("img_ready"), call("img_ready")]);
                s.calls.extend([tick.clone(), later.clone(), later, call("img_ready"), call("img_ready"), tick]);
                s.calls.push(call("img_ready"));
                all.push(s);
            }
        }
    }
    // anything
    for i in 0..if thorough { 2400 } else { 260 } {
        let m = if i % 2 == 0 { 640 } else { 641 };
        let (status, control) = if r.chance(1, 4) {
            init_words(&mut r)
        } else {
            (r.range(0, 1) as u16 * 8 | r.range(0, 1) as u16, 0x0901 ^ (*r.pick(&[0u16, 0x1000, 0x1000, 0x0400, 0x0800, 0x1C00, 0x1002])))
        };
        let wild = r.chance(1, 5);
        let mut s = session(&mut r, m, status, control, wild);
        s.full = r.chance(1, 8);
        let polls = if i % 64 == 63 { 300 } else { 3 + r.below(12) as usize };
        for _ in 0..polls {
            let mut p = call("img_ready");
            for _ in 0..r.below(3) {
                p.acts.push((r.below(20) as usize, Act::Polite));
            }
            if r.chance(1, 10) {
                p.acts.push((r.below(20) as usize, Act::FaultRead));
            }
            p.acts.sort_by_key(|x| x.0);
            s.calls.push(p);
            match r.below(24) {
                0 => {
                    s.calls.push(Call { arg: fb(some_em(&mut r)), ..call("em") });
                }
                1 => s.calls.push(call("em_default")),
                2 => {
                    let none = r.chance(1, 4);
                    s.calls.push(Call { arg: fb(some_refl(&mut r)), none, ..call("refl") });
                }
                3 => s.calls.push(call("sync")),
                4 => s.calls.push(call("reset_avail")),
                5 => s.calls.push(call(*r.pick(&["avail", "pat", "res", "last_sp"]))),
                6 => s.calls.push(Call { arg: r.range(0, 1), ..call(*r.pick(&["img", "img_sp", "raw_sp"])) }),
                7 => s.calls.push(call(*r.pick(&["new", "newc"]))),
                8 | 9 => {
                    // reconfigure when nothing is waiting
                    s.calls.push(call("img_ready"));
                    let op = *r.pick(&["set_pat", "set_pat", "set_res", "set_rate", "set_use_sp", "set_repeat", "set_sel_sp", "set_overwrite"]);
                    let arg = r.range(0, if op == "set_res" { 3 } else if op == "set_rate" { 7 } else { 1 });
                    s.calls.push(Call { arg, ..call(op) });
                }
                _ => (),
            }
        }
        all.push(s);
    }
    all.iter().enumerate().map(|(i, x)| run(&cals, x, seed * 1_000_003 + i as u64)).collect()
}

// ---- scripts from the specification ----
// model status control ; op arg len k:T k:F k:A k:E<reg>=<v> ; ...
fn parse(line: &str, r: &mut Rng, cals: &[CalSrc]) -> Script {
    let mut parts = line.split(';');
    let head: Vec<i64> = parts.next().unwrap().split_whitespace().map(|x| x.parse().unwrap()).collect();
    let m = head[0];
    let cal = pick_cal(r, cals, m, false);
    let mut calls = vec![];
    for p in parts {
        let w: Vec<&str> = p.split_whitespace().collect();
        if w.is_empty() {
            continue;
        }
        let mut c = Call { op: w[0].into(), arg: w[1].parse().unwrap(), len: w[2].parse().unwrap(), ..Default::default() };
        if c.op == "em" {
            c.arg = fb(some_em(r));
        }
        if c.op == "refl" {
            c.none = c.arg == 0;
            c.arg = fb(some_refl(r));
        }
        for a in &w[3..] {
            let (k, what) = a.split_once(':').unwrap();
            let act = match &what[..1] {
                "T" => Act::Tick,
                "F" => Act::Fault,
                "A" => Act::FaultApplied,
                _ => {
                    let (reg, v) = what[1..].split_once('=').unwrap();
                    Act::Ext(reg.parse::<u32>().unwrap() as u16, v.parse::<u32>().unwrap() as u16)
                }
            };
            c.acts.push((k.parse().unwrap(), act));
        }
        calls.push(c);
    }
    let mut ram = [0usize; 8];
    for x in ram.iter_mut() {
        *x = r.below(7) as usize;
    }
    Script {
        m,
        addr: some_addr(r),
        cal,
        status: head[1] as u16,
        control: head[2] as u16,
        ram,
        frames: some_frames(r, &cals[cal], Style::Real),
        calls,
        full: false,
        patience: 40,
        poll: None,
    }
}

/// Reflected temperatures: round ones as often as any others.
fn some_refl(r: &mut Rng) -> f32 {
    if r.chance(1, 3) {
        *r.pick(&[0.0, -0.0, 25.0, 1.0, -1.0, 5.0, 8.0, 20.0, 37.5, -8.0, 100.0])
    } else {
        r.frange(-20.0, 60.0)
    }
}

pub fn scn(seed: u64, thorough: bool, scripts: &str, cals_out: &str) -> Vec<String> {
    let cals = cal_table(seed);
    let rows: Vec<String> = cals.iter().map(|c| c.json().unwrap()).collect();
    std::fs::write(cals_out, rows.join("\n") + "\n").unwrap();
    let mut r = Rng::new(seed, 71);
    let mut s: Vec<Script> = vec![];
    if !scripts.is_empty() {
        for l in std::fs::read_to_string(scripts).unwrap().lines() {
            s.push(parse(l, &mut r, &cals));
        }
    } else {
        s.extend(full_scripts(&mut r, &cals));
        s.extend(long_scripts(&mut r, &cals, thorough));
        s.extend(many_scripts(&mut r, &cals, thorough));
        s.extend(length_scripts(&mut r, &cals));
        s.extend(streak_scripts(&mut r, &cals, thorough));
        let k = if thorough { 8 } else { 1 };
        s.extend(random_scripts(&mut r, &cals, 700 * k, 10, false, false));
        s.extend(random_scripts(&mut r, &cals, 300 * k, 8, true, false));
    }
    s.iter().enumerate().map(|(i, x)| run(&cals, x, seed * 1_000_003 + i as u64)).collect()
}

fn twin_scripts(seed: u64, thorough: bool) -> (Vec<CalSrc>, Vec<Script>, Rng) {
    let cals = cal_table(seed);
    let mut r = Rng::new(seed, 73);
    let k = if thorough { 12 } else { 1 };
    let mut s = full_scripts(&mut r, &cals);
    s.extend(random_scripts(&mut r, &cals, 240 * k, 10, false, false));
    s.extend(random_scripts(&mut r, &cals, 120 * k, 8, true, false));
    s.extend(random_scripts(&mut r, &cals, 24 * k, 5, false, true));
    (cals, s, r)
}

/// One of the histories of `twins`, in a process that has done nothing else.
pub fn only(seed: u64, thorough: bool, i: usize) -> Vec<String> {
    let (cals, s, _) = twin_scripts(seed, thorough);
    history(&cals, &s[i], seed * 1_000_003 + i as u64, Company::Nobody)
}

/// The same history alone and in company: with clones of its driver, with another driver of the
/// same camera, with the calls of a driver of another camera in between its transfers, together
/// with drivers in other threads, and in a process of its own.
pub fn twins(seed: u64, thorough: bool) -> Vec<String> {
    let (cals, s, mut r) = twin_scripts(seed, thorough);
    let at = |i: usize| seed * 1_000_003 + i as u64;
    let block = |mode: &str, i: usize, a: &[String], b: &[String]| {
        Obj::new("twin").s("mode", mode).i("script", i as i64).objs("a", a).objs("b", b).end()
    };
    let ids: Vec<usize> = (0..s.len()).collect();
    let alone: Vec<Vec<String>> = ids.iter().map(|i| history(&cals, &s[*i], at(*i), Company::Nobody)).collect();
    let mut out = vec![];
    // in a process of its own
    let mut some: Vec<usize> = (0..if thorough { 400 } else { 48 }).map(|_| r.below(s.len() as u64) as usize).collect();
    some.sort();
    some.dedup();
    let me = std::env::current_exe().unwrap();
    let fresh: Vec<(usize, Vec<String>)> = std::thread::scope(|sc| {
        let lanes: Vec<_> = (0..6)
            .map(|l| {
                let (some, me) = (&some, &me);
                sc.spawn(move || {
                    some.iter()
                        .skip(l)
                        .step_by(6)
                        .map(|i| {
                            let o = std::process::Command::new(me)
                                .args(["only", "--seed", &seed.to_string(), "--only", &i.to_string()])
                                .args(["--tier", if thorough { "thorough" } else { "quick" }])
                                .output()
                                .unwrap();
                            assert!(o.status.success(), "{}", String::from_utf8_lossy(&o.stderr));
                            (*i, String::from_utf8(o.stdout).unwrap().lines().map(|l| l.to_string()).collect())
                        })
                        .collect::<Vec<(usize, Vec<String>)>>()
                })
            })
            .collect();
        lanes.into_iter().flat_map(|l| l.join().unwrap()).collect()
    });
    for (i, x) in &fresh {
        out.push(block("own process", *i, x, &alone[*i]));
    }
    // all at once, in as many threads as there are cores
    for _ in 0..if thorough { 10 } else { 2 } {
        let all: Vec<(usize, Vec<String>)> = std::thread::scope(|sc| {
            let lanes: Vec<_> = (0..8)
                .map(|l| {
                    let (ids, s, cals) = (&ids, &s, &cals);
                    sc.spawn(move || {
                        ids.iter()
                            .skip(l)
                            .step_by(8)
                            .map(|i| (*i, history(cals, &s[*i], seed * 1_000_003 + *i as u64, Company::Nobody)))
                            .collect::<Vec<(usize, Vec<String>)>>()
                    })
                })
                .collect();
            lanes.into_iter().flat_map(|l| l.join().unwrap()).collect()
        });
        for (i, x) in &all {
            out.push(block("threads", *i, &alone[*i], x));
        }
    }
    for i in &ids {
        for (name, c) in [("clone", Company::Clones), ("bystander", Company::Bystander)] {
            out.push(block(name, *i, &alone[*i], &history(&cals, &s[*i], at(*i), c)));
        }
        // the history that shares its time, of the same model or of the other
        let j = (i + 1 + r.below(3) as usize) % s.len();
        let t = Arc::new(Turn {
            state: Mutex::new((0, [false, false], Rng::new(at(*i), 79))),
            changed: Condvar::new(),
        });
        let (x, y) = std::thread::scope(|sc| {
            let a = sc.spawn(|| taking_turns(&t, 0, || history(&cals, &s[*i], at(*i), Company::Nobody)));
            let b = sc.spawn(|| taking_turns(&t, 1, || history(&cals, &s[j], at(j), Company::Nobody)));
            (a.join().unwrap(), b.join().unwrap())
        });
        out.push(block("overlap", *i, &alone[*i], &x));
        out.push(block("overlap", j, &alone[j], &y));
    }
    out
}
