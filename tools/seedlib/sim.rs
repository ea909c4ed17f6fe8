//! A camera on a bus: 64k words of memory, a log of the transfers, and a hook that runs before
//! every transfer and may change the memory or make the transfer fail.
#![allow(dead_code)]
use embedded_hal::blocking::i2c;
use std::cell::RefCell;
use std::rc::Rc;

pub use mlx9064x::calculations::*;
pub use mlx9064x::common::*;
pub use mlx9064x::mlx90640::{Mlx90640, Mlx90640Calibration};
pub use mlx9064x::mlx90641::{Mlx90641, Mlx90641Calibration};
pub use mlx9064x::*;

pub const ADDR: u8 = 0x33;
pub const STATUS: u16 = 0x8000;
pub const CONTROL: u16 = 0x800D;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct RdErr(pub u32);
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct WrErr(pub u32);

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    /// address, number of bytes
    Rd(u16, usize),
    /// address, value
    Wr(u16, u16),
}

pub struct State {
    pub words: Vec<u16>,
    pub log: Vec<Op>,
    pub fail: Option<u32>,
}
type Hook = Box<dyn FnMut(&mut State, Op)>;

#[derive(Clone)]
pub struct Sim {
    pub st: Rc<RefCell<State>>,
    pub hook: Rc<RefCell<Option<Hook>>>,
    pub addr: u8,
}

pub fn words_of(bytes: &[u8]) -> Vec<u16> {
    bytes.chunks_exact(2).map(|b| u16::from_be_bytes([b[0], b[1]])).collect()
}
pub fn bytes_of(words: &[u16]) -> Vec<u8> {
    words.iter().flat_map(|w| w.to_be_bytes()).collect()
}
pub fn ee640() -> Vec<u16> {
    words_of(&mlx9064x_test_data::mlx90640_datasheet_eeprom())
}
pub fn ee641() -> Vec<u16> {
    words_of(&mlx9064x_test_data::mlx90641_datasheet_eeprom())
}
/// A valid MLX90641 EEPROM word for 11 bits of data.
pub fn code(data: u16) -> u16 {
    let masks = [0x055Bu16, 0x066D, 0x078E, 0x07F0, 0x7FFF];
    let mut w = data & 0x7FF;
    for (i, m) in masks.iter().enumerate() {
        w |= (((w & m).count_ones() % 2) as u16) << (11 + i);
    }
    w
}

impl Sim {
    pub fn new() -> Self {
        Sim {
            st: Rc::new(RefCell::new(State { words: vec![0; 65536], log: vec![], fail: None })),
            hook: Rc::new(RefCell::new(None)),
            addr: ADDR,
        }
    }
    fn frame(&self, regs: u16) {
        // an ordinary frame: values vary from pixel to pixel
        for i in 0..0x340u16 {
            self.set(0x400 + i, 0xFF00u16.wrapping_add(i.wrapping_mul(37) % 600));
        }
        self.set(STATUS, 0x0008);
        self.set(CONTROL, regs);
    }
    pub fn cam640() -> Self {
        let s = Sim::new();
        s.frame(0x1901);
        s.load(0x2400, &ee640());
        // the auxiliary words of the datasheet's example
        for (a, w) in [(0x700, 0x4BF2), (0x720, 0x06AF), (0x70A, 0x1881), (0x72A, 0xCCC5), (0x708, 0xFFCA), (0x728, 0xFFC8)] {
            s.set(a, w);
        }
        s
    }
    pub fn cam641() -> Self {
        let s = Sim::new();
        s.frame(0x0901);
        s.load(0x2400, &ee641());
        for (a, w) in [(0x580, 0x4C54), (0x5A0, 0x070B), (0x58A, 0x1F50), (0x5AA, 0xCA4E), (0x588, 0xFF97), (0x5A8, 0xFF97)] {
            s.set(a, w);
        }
        s
    }
    pub fn load(&self, a: u16, ws: &[u16]) {
        for (i, w) in ws.iter().enumerate() {
            self.set(a + i as u16, *w);
        }
    }
    pub fn set(&self, a: u16, w: u16) {
        self.st.borrow_mut().words[a as usize] = w;
    }
    pub fn get(&self, a: u16) -> u16 {
        self.st.borrow().words[a as usize]
    }
    pub fn log(&self) -> Vec<Op> {
        std::mem::take(&mut self.st.borrow_mut().log)
    }
    pub fn on(&self, f: impl FnMut(&mut State, Op) + 'static) {
        *self.hook.borrow_mut() = Some(Box::new(f));
    }
    pub fn off(&self) {
        *self.hook.borrow_mut() = None;
    }
    pub fn d640(&self) -> Mlx90640Driver<Sim> {
        Mlx90640Driver::new(self.clone(), ADDR).unwrap()
    }
    pub fn d641(&self) -> Mlx90641Driver<Sim> {
        Mlx90641Driver::new(self.clone(), ADDR).unwrap()
    }
    fn before(&self, op: Op) -> Option<u32> {
        let hook = self.hook.borrow_mut().take();
        if let Some(mut h) = hook {
            h(&mut self.st.borrow_mut(), op);
            let mut slot = self.hook.borrow_mut();
            if slot.is_none() {
                *slot = Some(h);
            }
        }
        let mut st = self.st.borrow_mut();
        st.log.push(op);
        st.fail.take()
    }
}

impl i2c::WriteRead for Sim {
    type Error = RdErr;
    fn write_read(&mut self, address: u8, bytes: &[u8], buffer: &mut [u8]) -> Result<(), RdErr> {
        assert_eq!(address, self.addr, "wrong device");
        assert_eq!(bytes.len(), 2, "address length");
        let a = u16::from_be_bytes([bytes[0], bytes[1]]);
        if let Some(n) = self.before(Op::Rd(a, buffer.len())) {
            return Err(RdErr(n));
        }
        let st = self.st.borrow();
        for (i, b) in buffer.iter_mut().enumerate() {
            *b = st.words[a as usize + i / 2].to_be_bytes()[i % 2];
        }
        Ok(())
    }
}
impl i2c::Write for Sim {
    type Error = WrErr;
    fn write(&mut self, address: u8, bytes: &[u8]) -> Result<(), WrErr> {
        assert_eq!(address, self.addr, "wrong device");
        assert_eq!(bytes.len(), 4, "write length");
        let a = u16::from_be_bytes([bytes[0], bytes[1]]);
        let v = u16::from_be_bytes([bytes[2], bytes[3]]);
        if let Some(n) = self.before(Op::Wr(a, v)) {
            return Err(WrErr(n));
        }
        self.st.borrow_mut().words[a as usize] = v;
        Ok(())
    }
}

/// Register from its raw value and back.
pub fn status(raw: u16) -> StatusRegister {
    StatusRegister::from(&raw.to_be_bytes()[..])
}
pub fn control(raw: u16) -> ControlRegister {
    ControlRegister::from(&raw.to_be_bytes()[..])
}
pub fn raw(b: impl Into<[u8; 2]>) -> u16 {
    u16::from_be_bytes(b.into())
}
/// Largest relative difference of two buffers (NaN equals NaN).
pub fn differ(a: &[f32], b: &[f32]) -> f32 {
    a.iter()
        .zip(b)
        .map(|(x, y)| if x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()) { 0.0 } else if x.is_nan() || y.is_nan() { f32::INFINITY } else { (x - y).abs() / (1.0 + y.abs()) })
        .fold(0.0, f32::max)
}
