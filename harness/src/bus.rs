//! The stand-in for the bus and the camera: an I2C bus with one camera on it, which records every
//! transfer and on which the environment (frames, other bus masters, faults) acts as scripted.
use embedded_hal::blocking::i2c;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct RdErr(pub u32);
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct WrErr(pub u32);

impl std::fmt::Display for RdErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "read failed ({})", self.0)
    }
}
impl std::fmt::Display for WrErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "write failed ({})", self.0)
    }
}
impl std::error::Error for RdErr {}
impl std::error::Error for WrErr {}

/// Simple memory-backed bus, used by everything but the scenario replay.
#[derive(Clone)]
pub struct MemBus {
    pub addr: u8,
    pub mem: Rc<RefCell<Mem>>,
}
pub struct Mem {
    pub words: Vec<u16>, // 65536 words
    pub log: Vec<String>,
}
impl MemBus {
    pub fn new(addr: u8) -> Self {
        MemBus { addr, mem: Rc::new(RefCell::new(Mem { words: vec![0; 65536], log: Vec::new() })) }
    }
    pub fn set(&self, a: usize, w: u16) {
        self.mem.borrow_mut().words[a] = w;
    }
    pub fn get(&self, a: usize) -> u16 {
        self.mem.borrow().words[a]
    }
    pub fn take_log(&self) -> Vec<String> {
        std::mem::take(&mut self.mem.borrow_mut().log)
    }
}
impl i2c::WriteRead for MemBus {
    type Error = RdErr;
    fn write_read(&mut self, address: u8, bytes: &[u8], buffer: &mut [u8]) -> Result<(), RdErr> {
        let mut m = self.mem.borrow_mut();
        let a = if bytes.len() == 2 { i64::from(u16::from_be_bytes([bytes[0], bytes[1]])) } else { -1 };
        m.log.push(format!(
            "{{\"t\":\"rd\",\"dev\":{},\"al\":{},\"a\":{},\"nb\":{}}}",
            address, bytes.len(), a, buffer.len()
        ));
        if address != self.addr || a < 0 {
            return Err(RdErr(99));
        }
        for (i, b) in buffer.iter_mut().enumerate() {
            let w = m.words[(a as usize + i / 2) & 0xFFFF];
            *b = w.to_be_bytes()[i % 2];
        }
        Ok(())
    }
}
impl i2c::Write for MemBus {
    type Error = WrErr;
    fn write(&mut self, address: u8, bytes: &[u8]) -> Result<(), WrErr> {
        let mut m = self.mem.borrow_mut();
        let a = if bytes.len() == 4 { i64::from(u16::from_be_bytes([bytes[0], bytes[1]])) } else { -1 };
        let v = if bytes.len() == 4 { i64::from(u16::from_be_bytes([bytes[2], bytes[3]])) } else { -1 };
        m.log.push(format!(
            "{{\"t\":\"wr\",\"dev\":{},\"nb\":{},\"a\":{},\"v\":{}}}",
            address, bytes.len(), a, v
        ));
        if address != self.addr || a < 0 {
            return Err(WrErr(99));
        }
        m.words[a as usize] = v as u16;
        Ok(())
    }
}
