use crate::gen::VMAX;

pub fn min_width(v: u64) -> Option<usize> {
    match v {
        0..=63 => Some(1),
        64..=16383 => Some(2),
        16384..=1073741823 => Some(4),
        _ if v <= VMAX => Some(8),
        _ => None,
    }
}
/// encodes in `width` bytes (1, 2, 4 or 8); the value must fit
pub fn enc_w(v: u64, width: usize) -> Vec<u8> {
    let tag = match width {
        1 => 0u8,
        2 => 1,
        4 => 2,
        8 => 3,
        _ => unreachable!(),
    };
    let mut out = vec![];
    for i in (0..width).rev() {
        out.push((v >> (8 * i)) as u8);
    }
    out[0] |= tag << 6;
    out
}
pub fn enc(v: u64) -> Vec<u8> {
    enc_w(v, min_width(v).expect("value fits a varint"))
}
/// a legal width chosen by `sel`: 0 = shortest, otherwise one of the longer ones
pub fn pick_width(v: u64, sel: u8) -> usize {
    let m = min_width(v).expect("value fits a varint");
    let all: Vec<usize> = [1usize, 2, 4, 8].into_iter().filter(|w| *w >= m).collect();
    all[sel as usize % all.len()]
}

#[derive(Clone)]
pub struct Rd<'a> {
    pub b: &'a [u8],
    pub pos: usize,
}
#[derive(Debug, PartialEq)]
pub struct Short;
impl<'a> Rd<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Self { b, pos: 0 }
    }
    pub fn left(&self) -> usize {
        self.b.len() - self.pos
    }
    pub fn take(&mut self, n: u64) -> Result<&'a [u8], Short> {
        if n > self.left() as u64 {
            return Err(Short);
        }
        let r = &self.b[self.pos..self.pos + n as usize];
        self.pos += n as usize;
        Ok(r)
    }
    pub fn u8(&mut self) -> Result<u8, Short> {
        Ok(self.take(1)?[0])
    }
    pub fn uint(&mut self, n: u64) -> Result<u128, Short> {
        Ok(self.take(n)?.iter().fold(0u128, |a, b| a << 8 | *b as u128))
    }
    /// value and width
    pub fn varint_w(&mut self) -> Result<(u64, usize), Short> {
        if self.left() == 0 {
            return Err(Short);
        }
        let w = 1usize << (self.b[self.pos] >> 6);
        let raw = self.take(w as u64)?;
        let mut v = (raw[0] & 0x3f) as u64;
        for b in &raw[1..] {
            v = v << 8 | *b as u64;
        }
        Ok((v, w))
    }
    pub fn varint(&mut self) -> Result<u64, Short> {
        Ok(self.varint_w()?.0)
    }
}
